// Inputs above 2^29 and 2^32 bytes: one 64 MiB memory file mapped over and over
// in a row, hashed by the library and by OpenSSL through the same addresses.
#include "core.h"
#include "ref.h"
#include "hollow.h"
#include <sys/mman.h>
#include <unistd.h>
#include <openssl/evp.h>
typedef intptr_t ctx_t;
typedef intptr_t err_t;
#define DECL(a)                                                                                   \
  int libhmac_##a##_context_initialize(ctx_t **, err_t **);                                       \
  int libhmac_##a##_context_free(ctx_t **, err_t **);                                             \
  int libhmac_##a##_context_update(ctx_t *, const uint8_t *, size_t, err_t **);                   \
  int libhmac_##a##_context_finalize(ctx_t *, uint8_t *, size_t, err_t **);                       \
  int libhmac_##a##_calculate(const uint8_t *, size_t, uint8_t *, size_t, err_t **);              \
  int libhmac_##a##_calculate_hmac(const uint8_t *, size_t, const uint8_t *, size_t, uint8_t *, size_t, err_t **);
extern "C" { DECL(md5) DECL(sha1) DECL(sha224) DECL(sha256) DECL(sha512) }
namespace sim {
struct GA { int (*i)(ctx_t **, err_t **), (*f)(ctx_t **, err_t **); int (*u)(ctx_t *, const uint8_t *, size_t, err_t **); int (*fin)(ctx_t *, uint8_t *, size_t, err_t **);
  int (*calc)(const uint8_t *, size_t, uint8_t *, size_t, err_t **); int (*hmac)(const uint8_t *, size_t, const uint8_t *, size_t, uint8_t *, size_t, err_t **); };
#define ENT(a) {libhmac_##a##_context_initialize, libhmac_##a##_context_free, libhmac_##a##_context_update, libhmac_##a##_context_finalize, libhmac_##a##_calculate, libhmac_##a##_calculate_hmac}
static const GA ga[] = {ENT(md5), ENT(sha1), ENT(sha224), ENT(sha256), ENT(sha512)};
void giant_run(const Plan &p) {
  Op op; op.id = 1; op.verb = "giant";
  plan = &p;
  begin_op(op);
  int alg = ref::alg_by_name(p.s("alg", "md5"));
  size_t total = p.u("total"), first = p.u("first"), unit = (size_t)64 << 20;
  int fd = memfd_create("pattern", 0);
  if (fd < 0 || ftruncate(fd, unit)) fatal("harness", "giant", "memfd failed");
  u64 *w = (u64 *)mmap(nullptr, unit, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  Rng r(p.u("seed"));
  for (size_t i = 0; i < unit / 8; i++) w[i] = r.next();
  munmap(w, unit);
  size_t n = (total + unit - 1) / unit;
  u8 *base = (u8 *)mmap(nullptr, (n + 1) * unit, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (base == MAP_FAILED) fatal("harness", "giant", "mmap failed");
  for (size_t i = 0; i < n; i++)
    if (mmap(base + i * unit, unit, PROT_READ, MAP_SHARED | MAP_FIXED | MAP_NORESERVE, fd, 0) == MAP_FAILED) fatal("harness", "giant", "mmap of unit %zu failed", i);
  const EVP_MD *mds[] = {EVP_md5(), EVP_sha1(), EVP_sha224(), EVP_sha256(), EVP_sha512()};
  auto evp = [&](const u8 *pre, size_t pren, const u8 *d, size_t dn) {
    EVP_MD_CTX *c = EVP_MD_CTX_new();
    u8 o[64]; unsigned l = 0;
    EVP_DigestInit_ex(c, mds[alg], nullptr);
    EVP_DigestUpdate(c, pre, pren);
    for (size_t at = 0; at < dn;) { size_t k = dn - at < unit ? dn - at : unit; EVP_DigestUpdate(c, d + at, k); at += k; }
    EVP_DigestFinal_ex(c, o, &l);
    EVP_MD_CTX_free(c);
    return std::vector<u8>(o, o + l);
  };
  bool hol = p.i("hollow") != 0;
  evp_hollow = hol;
  auto any = [&](const u8 *pre, size_t pren, const u8 *d, size_t dn) {
    if (!hol) return evp(pre, pren, d, dn);
    Hollow h;
    h.init(alg);
    h.update(pre, pren);
    h.update(d, dn);
    return h.final();
  };
  std::string mode = p.s("mode", "one");
  u8 out1[64], *out = out1;
  unsigned dl = ref::digest_size[alg];
  size_t cap = dl;
  if (!p.s("cap").empty()) {
    cap = p.u("cap");
    out = (u8 *)mmap(nullptr, cap + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (out == MAP_FAILED) fatal("harness", "giant", "mmap of the output buffer failed");
  }
  err_t *e = nullptr;
  int rc = 1;
  std::vector<u8> want;
  u8 key[20];
  for (auto &k : key) k = (u8)r.next();
  size_t small = 77 + (size_t)r.below(300);
  { // all calls below run to completion; the race detector and tracer are off
    if (mode == "hmac") {
      Active a; rc = ga[alg].hmac(key, sizeof key, base, total, out, cap, &e);
    } else if (mode == "hmackey") {
      Active a; rc = ga[alg].hmac(base, total, base, small, out, cap, &e);
    } else if (mode == "one" && (p.u("seed") & 1)) {
      Active a; rc = ga[alg].calc(base, total, out, cap, &e);
    } else {
      ctx_t *c = nullptr;
      Active a;
      rc = ga[alg].i(&c, &e);
      size_t at = 0;
      if (rc == 1 && (mode != "one" || hol)) { rc = ga[alg].u(c, base, first, &e); at = first; }
      Rng q(p.u("seed") + 1);
      while (rc == 1 && at < total) {
        size_t k = mode == "one" ? total : mode == "chunks" ? (size_t)1 << ((hol ? 26 : 10) + q.below(17 - (hol ? 10 : 0))) : q.chance(1, 2) ? (size_t)1 << 31 : q.below(1u << 30);
        if (k > total - at) k = total - at;
        rc = ga[alg].u(c, base + at, k, &e);
        at += k;
      }
      if (rc == 1) rc = ga[alg].fin(c, out, cap, &e);
      ga[alg].f(&c, nullptr);
    }
  }
  if (mode == "hmac" || mode == "hmackey") {
    unsigned bs = ref::block_size[alg];
    std::vector<u8> ip(bs, 0x36), opd(bs, 0x5c), k(key, key + sizeof key);
    if (mode == "hmackey") k = any(nullptr, 0, base, total);
    for (size_t i = 0; i < k.size(); i++) { ip[i] ^= k[i]; opd[i] ^= k[i]; }
    auto in = any(ip.data(), ip.size(), base, mode == "hmac" ? total : small);
    want = any(opd.data(), opd.size(), in.data(), in.size());
  } else want = any(nullptr, 0, base, total);
  sh->bytes += total;
  sh->checks += 2;
  sigmix(total ^ alg);
  ev("giant %s %s %zu cap %zu rc=%d", ref::alg_name[alg], mode.c_str(), total, cap, rc);
  for (size_t i = dl; rc == 1 && out != out1 && i < 4096; i++) if (out[i]) { viol("oob-write", strf("giant-%s", ref::alg_name[alg]), "byte %zu of the output buffer, beyond the digest, was changed", i); break; }
  if (rc != 1 || e) viol("spurious-fail", strf("giant-%s", ref::alg_name[alg]), "%zu bytes, mode %s: reported failure", total, mode.c_str());
  else if (std::vector<u8>(out, out + dl) != want)
    viol("wrong-digest", strf("giant-%s", ref::alg_name[alg]), "%s of %zu bytes (mode %s, first chunk %zu): got %s, the standard gives %s", ref::alg_name[alg], total, mode.c_str(), first, ref::hex(std::vector<u8>(out, out + dl)).c_str(), ref::hex(want).c_str());
  end_op();
}
} // namespace sim
