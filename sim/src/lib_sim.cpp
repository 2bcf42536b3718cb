// Simulation of programs using the libhmac C library: histories of calls on
// contexts and one-shot functions by one to four threads, under seeded faults
// and preemptions, checked against the reference digests.
#include "core.h"
#include "ref.h"
#include <algorithm>
#include <cassert>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
using namespace sim;
typedef intptr_t ctx_t;
typedef intptr_t err_t;
#define DECL(a)                                                                                   \
  int libhmac_##a##_context_initialize(ctx_t **, err_t **);                                       \
  int libhmac_##a##_context_free(ctx_t **, err_t **);                                             \
  int libhmac_##a##_context_update(ctx_t *, const uint8_t *, size_t, err_t **);                   \
  int libhmac_##a##_context_finalize(ctx_t *, uint8_t *, size_t, err_t **);                       \
  int libhmac_##a##_initialize(ctx_t **, err_t **);                                               \
  int libhmac_##a##_free(ctx_t **, err_t **);                                                     \
  int libhmac_##a##_update(ctx_t *, const uint8_t *, size_t, err_t **);                           \
  int libhmac_##a##_finalize(ctx_t *, uint8_t *, size_t, err_t **);                               \
  int libhmac_##a##_calculate(const uint8_t *, size_t, uint8_t *, size_t, err_t **);              \
  int libhmac_##a##_calculate_hmac(const uint8_t *, size_t, const uint8_t *, size_t, uint8_t *, size_t, err_t **);
extern "C" {
DECL(md5) DECL(sha1) DECL(sha224) DECL(sha256) DECL(sha512)
void libcerror_error_free(err_t **);
void libhmac_error_free(err_t **);
int libhmac_error_fprint(err_t *, FILE *);
int libhmac_error_sprint(err_t *, char *, size_t);
int libhmac_error_backtrace_fprint(err_t *, FILE *);
int libhmac_error_backtrace_sprint(err_t *, char *, size_t);
}
struct Api {
  int (*init[2])(ctx_t **, err_t **);
  int (*free_[2])(ctx_t **, err_t **);
  int (*update[2])(ctx_t *, const uint8_t *, size_t, err_t **);
  int (*finalize[2])(ctx_t *, uint8_t *, size_t, err_t **);
  int (*calc)(const uint8_t *, size_t, uint8_t *, size_t, err_t **);
  int (*hmac)(const uint8_t *, size_t, const uint8_t *, size_t, uint8_t *, size_t, err_t **);
};
#define ENT(a)                                                                                                                  \
  {{libhmac_##a##_context_initialize, libhmac_##a##_initialize}, {libhmac_##a##_context_free, libhmac_##a##_free},               \
   {libhmac_##a##_context_update, libhmac_##a##_update}, {libhmac_##a##_context_finalize, libhmac_##a##_finalize},               \
   libhmac_##a##_calculate, libhmac_##a##_calculate_hmac}
static const Api api[ref::NALG] = {ENT(md5), ENT(sha1), ENT(sha224), ENT(sha256), ENT(sha512)};

namespace sim {
size_t evp_live();
void evp_reset();
void evp_warm();
const char *const sim_name = "lib";
#ifndef BUILD_CFG
#define BUILD_CFG "?"
#endif
extern const char *const build_cfg;

enum { NSLOT = 400 };
enum SlotState { EMPTY, LIVE, DONE, POISON };
struct Slot { SlotState st = EMPTY; int alg = 0; ctx_t *c = nullptr; ref::Ctx r; u64 chunks = 0; };
static Slot slots[NSLOT];
static bool is_evp, is_legacy;

// ---- data ---------------------------------------------------------------------
static void fill_data(u8 *p, size_t n, u64 seed, int mode) {
  Rng r(seed);
  switch (mode) {
  case 1: memset(p, 0, n); break;
  case 2: memset(p, 0xff, n); break;
  case 3: memset(p, (int)(seed & 0xff), n); break;
  case 4: for (size_t i = 0; i < n; i++) p[i] = (u8)(0x80 * (r.next() & 1)); break;
  default: {
    size_t i = 0;
    for (; i + 8 <= n; i += 8) { u64 v = r.next(); memcpy(p + i, &v, 8); }
    for (; i < n; i++) p[i] = (u8)r.next();
  }
  }
}
// Inputs that differ from an earlier one in a single byte (x - 1 counts from the start, or, if odd, from the end).
static void change_byte(u8 *p, size_t n, u64 x) {
  if (!x || !n) return;
  size_t k = (x >> 1) % n;
  if (x & 1) k = n - 1 - k;
  p[k] ^= (u8)(1 + (x >> 1) % 255);
}
struct Buf { // one input buffer handed to the library
  GBuf g;
  std::vector<u8> copy;
  Buf(size_t n, u64 seed, int mode, bool end, int pool = -1, u64 x = 0) {
    g = pool >= 0 ? g_reuse(pool, n, end) : g_alloc(n, end);
    fill_data(g.p, n, seed, mode);
    change_byte(g.p, n, x);
    copy.assign(g.p, g.p + n);
    g_readonly(g);
  }
  void check(const char *what) {
    if (memcmp(copy.data(), g.p, copy.size())) viol("input-modified", what, "the input buffer was changed by the call");
    g_writable(g);
    if (!g_intact(g)) viol("oob-write", what, "memory around the input buffer was changed");
    g_retire(g);
  }
};
struct Out {
  GBuf g;
  std::vector<u8> before;
  Out(size_t n, u64 seed, bool end, int pool = -1) {
    g = pool >= 0 ? g_reuse(pool, n, end) : g_alloc(n, end);
    Rng r(seed);
    for (size_t i = 0; i < n; i++) g.p[i] = (u8)r.next();
    before.assign(g.p, g.p + n);
  }
  std::vector<u8> take(size_t digest, const char *what) { // returns the first digest bytes, checks the rest
    for (size_t i = digest; i < g.n; i++)
      if (g.p[i] != before[i]) { viol("oob-write", what, "byte %zu of the output buffer, beyond the %zu-byte digest, was changed", i, digest); break; }
    std::vector<u8> v(g.p, g.p + std::min(digest, g.n));
    if (!g_intact(g)) viol("oob-write", what, "memory around the output buffer was changed");
    g_retire(g);
    return v;
  }
};
// ---- secrets --------------------------------------------------------------------
struct Secret { std::vector<u8> bytes; const char *what; };
static std::vector<Secret> secrets[MAXT];
// Single bytes: the same call is made several times with a different key of the same length each time. A byte of
// a released block that equals the same byte of the secret in all of them (chance 256^-8) was not cleared.
struct Residue {
  struct Freed { std::vector<u8> c; u64 pc; };
  std::vector<std::vector<Freed>> freed;
  std::vector<std::vector<Secret>> sec;
} static residue;
static bool residue_on = false;
static long residue_rep = 0;
static void residue_begin(int alg, const std::vector<u8> &key) {
  unsigned bs = ref::block_size[alg];
  std::vector<Secret> v;
  size_t m = std::min<size_t>(key.size(), 192);
  v.push_back({std::vector<u8>(key.begin(), key.begin() + m), "the key"});
  if (key.size() > m) v.push_back({std::vector<u8>(key.end() - m, key.end()), "the end of the key"});
  std::vector<u8> k = key;
  if (k.size() > bs) { k = ref::digest(alg, k.data(), k.size()); v.push_back({k, "the hashed key"}); }
  v.push_back({k, "the inner padded key"});
  for (auto &b : v.back().bytes) b ^= 0x36;
  v.push_back({k, "the outer padded key"});
  for (auto &b : v.back().bytes) b ^= 0x5c;
  residue.sec.push_back(v);
  residue.freed.emplace_back();
}
static void residue_judge(const Op &op) {
  size_t N = residue.sec.size();
  if (N < 8) return;
  auto &F = residue.freed;
  for (size_t k = 0; k < F[0].size(); k++) {
    size_t n = F[0][k].c.size();
    bool all = true;
    for (auto &f : F) if (k >= f.size()) all = false; else n = std::min(n, f[k].c.size());
    if (!all) break;
    sh->checks++;
    for (size_t i = 0; i < n; i++)
      for (size_t w = 0; w < residue.sec[0].size(); w++)
        for (size_t j = 0; j < residue.sec[0][w].bytes.size(); j++) {
          size_t t = 0;
          while (t < N && residue.sec[t][w].bytes[j] == F[t][k].c[i]) t++;
          if (t < N) continue;
          viol("secret-in-freed", strf("%s/%s", op.verb.c_str(), residue.sec[0][w].what), "byte %zu of %s survives at offset %zu of a %zu-byte heap block freed in the call (op %d, alg %s, alloc pc 0x%llx)", j, residue.sec[0][w].what, i,
               F[0][k].c.size(), op.id, op.s("alg").c_str(), (unsigned long long)F[0][k].pc);
          return;
        }
  }
}
static void scan_freed(Block &b) {
  if (b.kind != BK_HEAP) return;
  if (residue_on && !residue.freed.empty()) residue.freed.back().push_back({std::vector<u8>((u8 *)b.p, (u8 *)b.p + std::min<size_t>(b.n, 1024)), b.pc});
  for (auto &s : secrets[cur->id]) {
    if (s.bytes.size() < 8 || b.n < 8) continue;
    for (size_t i = 0; i + 8 <= s.bytes.size(); i++) {
      void *h = memmem(b.p, b.n, s.bytes.data() + i, 8);
      if (h) {
        viol("secret-in-freed", strf("%s/%s", cur->op ? cur->op->verb.c_str() : "end", s.what), "a %zu-byte heap block was freed while it still held %s at offset %ld (op %d, alg %s, alloc pc 0x%llx)", b.n, s.what,
             (long)((char *)h - b.p), cur->opid, cur->op ? cur->op->s("alg").c_str() : "", (unsigned long long)b.pc);
        return;
      }
    }
  }
}
static void set_secrets(int alg, const std::vector<u8> &key) {
  auto &v = secrets[cur->id];
  v.clear();
  if (key.size() < 8) return;
  unsigned bs = ref::block_size[alg];
  if (key.size() <= 8192) v.push_back({key, "the key"});
  else { v.push_back({std::vector<u8>(key.begin(), key.begin() + 2048), "the key"}); v.push_back({std::vector<u8>(key.end() - 2048, key.end()), "the key"}); }
  std::vector<u8> k = key;
  if (k.size() > bs) { k = ref::digest(alg, k.data(), k.size()); v.push_back({k, "the hashed key"}); }
  std::vector<u8> i(k), o(k);
  for (auto &b : i) b ^= 0x36;
  for (auto &b : o) b ^= 0x5c;
  v.push_back({i, "the inner padded key"});
  v.push_back({o, "the outer padded key"});
}
static int last_rc = 1;
// A caller prints the error object of a failed call and frees it.
static void error_use(const std::string &name, err_t **err) {
  Th *t = cur;
  u64 h = hash_bytes(name.data(), name.size()) ^ ((u64)(t->opid + 7) * 0x9e3779b97f4a7c15ull);
  h ^= h >> 29;
  int how = (int)(h % 12);
  if (how < 4) {
    size_t n = (h >> 8) % 3 == 0 ? (h >> 16) % 4 : (h >> 16) % 200;
    err_t *e = (h >> 32) % 9 ? *err : nullptr;
    GBuf b = g_alloc(n, true);
    err_log = ErrLog();
    int rc = 0;
    const void *to = how < 2 ? (const void *)stderr : b.p;
    switch (how) {
    case 0: rc = libhmac_error_fprint(e, stderr); break;
    case 1: rc = libhmac_error_backtrace_fprint(e, stderr); break;
    case 2: rc = libhmac_error_sprint(e, (char *)b.p, n); break;
    case 3: rc = libhmac_error_backtrace_sprint(e, (char *)b.p, n); break;
    }
    sh->checks++;
    static const int fn[] = {1, 2, 3, 4};
    if (!g_intact(b)) viol("error-print", name, "printing an error wrote outside the %zu-byte buffer it was given", n);
    if (err_log.fn && (err_log.fn != fn[how] || err_log.error != e || err_log.to != to || err_log.size != (how < 2 ? 0 : n) || err_log.ret != rc))
      viol("error-print", name, "printing an error (way %d) did not print what it was asked to, where it was asked to", how);
    if (!err_log.fn && (rc > 0 || (e && n))) viol("error-print", name, "printing an error (way %d) printed nothing", how);
    if (how >= 2 && rc > 0 && (!n || strnlen((char *)b.p, n) + 1 != (size_t)rc)) viol("error-print", name, "a printed error is not as long as was reported");
    g_retire(b);
  }
  libhmac_error_free(err);
  if (*err) viol("not-nulled", name, "libhmac_error_free left the caller's pointer set");
  if (how == 5) libhmac_error_free(err); // freeing nothing is fine
}
// ---- one call and its verdict -------------------------------------------------------
struct Call {
  std::string name;
  bool valid;   // arguments are acceptable
  err_t *err = nullptr;
  bool use_err;
  int rc = 0;
  bool tainted = false; // a context whose earlier update or finalize failed: what it does next is not specified
  Call(const Op &op, bool valid_) : name(op.verb), valid(valid_), use_err(op.i("err", 1) != 0) {
    if (op.has("alg")) name += "-" + op.s("alg");
  }
  err_t **ep() { return use_err ? &err : nullptr; }
  // returns true if the call reported success
  bool judge() {
    Th *t = cur;
    last_rc = rc;
    bool anyfault = t->fired_in_op > t->fired_kind[F_ERROBJ];
    ev("op %d %s rc=%d err=%d faults=%u", t->opid, name.c_str(), rc, err != nullptr, t->fired_in_op);
    sigmix(hash_bytes(name.data(), name.size()) ^ (u64)(rc + 2) ^ ((u64)valid << 8));
    if (rc != 1 && rc != -1) viol("bad-return", name, "returned %d, neither 1 nor -1", rc);
    if (rc == 1) {
      if (err) viol("error-on-success", name, "reported success but also set an error");
      if (!valid) viol("bad-arg-accepted", name, "accepted arguments it must reject (%s)", t->op->s("bad").c_str());
    } else {
      if (valid && !anyfault && !tainted) viol("spurious-fail", name, "failed (%d) although nothing it depends on failed", rc);
      if (use_err && !err && !t->fired_kind[F_ERROBJ]) viol("no-error-object", name, "reported failure without setting the error");
    }
    if (err) error_use(name, &err);
    return rc == 1;
  }
};
static void digest_check(const std::string &name, const std::vector<u8> &got, const std::vector<u8> &want, const char *ctx) {
  sh->checks++;
  if (got != want) viol("wrong-digest", name, "%s: got %s, the standard gives %s", ctx, ref::hex(got).c_str(), ref::hex(want).c_str());
}
static int bad_kind(const Op &op) {
  std::string b = op.s("bad");
  if (b.empty()) return 0;
  if (b == "null") return 1;
  if (b == "huge") return 2;
  if (b == "small") return 3;
  if (b == "nullctx") return 4;
  if (b == "hugekey") return 5;
  if (b == "nullkey") return 6;
  if (b == "set") return 7;
  return 0;
}
// A size above the largest signed one.
static size_t huge_size(const Op &op, size_t n) {
  const size_t H = (size_t)1 << 63;
  switch (op.i("hv")) {
  case 1: return H;
  case 2: return H + 1;
  case 3: return ~(size_t)0;
  case 4: return ~(size_t)0 - n % 4096;
  case 5: return H + ((n % 1000 + 1) << 32) + n % 200; // small if only the low half counted
  case 6: return H + (n % 1000 << 32) + 64;
  default: return H + n;
  }
}
// What there is of an output buffer said to be of a size; only the leading bytes may be touched (C07).
static size_t real_cap(size_t cap) { return cap > 1 << 20 ? 100 + cap % 100 : cap; }

static void do_free(Slot &s, int old, const Op *op) {
  Call c(op ? *op : Op(), true);
  c.name = strf("free-%s", ref::alg_name[s.alg]);
  ctx_t *before = s.c;
  { Active a; c.rc = api[s.alg].free_[old](&s.c, c.ep()); }
  bool ok = c.judge();
  if (ok && s.c) viol("not-nulled", c.name, "free reported success but left the caller's pointer set");
  if (!ok && s.c) { // it may say it could not; the caller tries once more
    err_t *e = nullptr;
    ctx_t *p = s.c;
    { Active a; api[s.alg].free_[old](&s.c, &e); }
    if (e) libcerror_error_free(&e);
    (void)p;
  }
  (void)before;
  s = Slot();
}

static void exec1(const Op &op);
static void exec(const Op &op) {
  residue_on = op.i("residue") != 0;
  residue = Residue();
  residue_rep = 0;
  for (long k = op.i("rep", 1); k > 0 && !sh->nviol; k--) {
    if (op.i("again")) { // an outage: what fails, fails in every repetition
      memset(cur->kc, 0, sizeof cur->kc);
      memset(cur->fired_kind, 0, sizeof cur->fired_kind);
      cur->fired_in_op = 0;
    }
    exec1(op);
    residue_rep++;
  }
  if (residue_on) { residue_judge(op); residue_on = false; }
  // a program may try again once what failed works again
  for (int k = 0; k < 3 && op.i("retry") && last_rc == -1 && cur->fired_in_op; k++) {
    cur->fired_in_op = 0;
    memset(cur->fired_kind, 0, sizeof cur->fired_kind);
    probe(3);
    ev("retry op %d", op.id);
    exec1(op);
  }
}
static void exec1(const Op &op) {
  last_rc = 1;
  const std::string &v = op.verb;
  int old = op.i("old") ? 1 : 0;
  u64 pseed = plan->u("seed");
  int bad = bad_kind(op);
  bool same = op.i("same") != 0; // the caller uses the same buffers again and again
  if (v == "init" || v == "upd" || v == "fin" || v == "free") {
    Slot &s = slots[op.i("s") % NSLOT];
    if (v == "init") {
      int alg = ref::alg_by_name(op.s("alg", "md5"));
      if (bad == 7) { // already set
        if (s.st == EMPTY) { ev("skip"); return; }
        Call c(op, false);
        ctx_t *keep = s.c;
        { Active a; c.rc = api[s.alg].init[old](&s.c, c.ep()); }
        c.judge();
        if (s.c != keep) { viol("context-set-on-fail", c.name, "initialize of an already set context changed it"); s.c = keep; }
        probe(0);
        return;
      }
      if (bad == 4) {
        Call c(op, false);
        { Active a; c.rc = api[alg].init[old](nullptr, c.ep()); }
        c.judge();
        return;
      }
      if (s.st != EMPTY) { ev("skip"); return; }
      Call c(op, true);
      s.c = nullptr;
      { Active a; c.rc = api[alg].init[old](&s.c, c.ep()); }
      bool ok = c.judge();
      if (ok && !s.c) { viol("bad-return", c.name, "initialize reported success but created no context"); return; }
      if (!ok && s.c) { viol("context-set-on-fail", c.name, "initialize failed but left the caller's pointer set"); s.c = nullptr; return; }
      if (ok) { s.st = LIVE; s.alg = alg; s.r.init(alg); s.chunks = 0; }
      return;
    }
    if (s.st == EMPTY && v == "free" && op.i("null")) { // a handle that is already null
      Call c(op, true);
      ctx_t *x = nullptr;
      { Active a; c.rc = api[op.i("null") % ref::NALG].free_[old](&x, c.ep()); }
      c.judge();
      if (x) viol("not-nulled", c.name, "freeing a null handle set it");
      return;
    }
    if (s.st == EMPTY) { ev("skip"); return; }
    int alg = s.alg;
    if (v == "free") {
      if (bad == 4) {
        Call c(op, false);
        { Active a; c.rc = api[alg].free_[old](nullptr, c.ep()); }
        c.judge();
        return;
      }
      if (s.st == POISON) probe(4);
      do_free(s, old, &op);
      return;
    }
    if (s.st == DONE) { // what a finished context does with another call is not specified, but it damages nothing
      if (!op.i("late")) { ev("skip"); return; }
      probe(5);
    }
    if (v == "upd") {
      size_t n = op.u("len");
      Call c(op, bad == 0);
      c.name = strf("update-%s", ref::alg_name[alg]);
      c.tainted = s.st == POISON || s.st == DONE;
      if (bad == 1) { Active a; c.rc = api[alg].update[old](s.c, nullptr, n, c.ep()); }
      else if (bad == 4) { Active a; u8 x = 0; c.rc = api[alg].update[old](nullptr, &x, 1, c.ep()); }
      else if (bad == 2) {
        Buf b(16, mix(pseed, op.u("ds")), 0, true);
        { Active a; c.rc = api[alg].update[old](s.c, b.g.p, huge_size(op, n), c.ep()); }
        b.check(c.name.c_str());
      } else {
        Buf b(n, mix(pseed, op.u("ds")), op.i("dm"), op.i("end", 1), same ? 0 : -1, op.u("dx"));
        { Active a; c.rc = api[alg].update[old](s.c, b.g.p, n, c.ep()); }
        b.check(c.name.c_str());
        sh->bytes += n;
        if (c.rc == 1) { s.r.update(b.copy.data(), n); s.chunks++; }
      }
      bool ok = c.judge();
      if (!ok && c.valid && s.st == LIVE) s.st = POISON;
      if (!c.valid) probe(1);
      return;
    }
    // finalize
    size_t d = ref::digest_size[alg];
    size_t cap = op.has("cap") ? op.u("cap") : d;
    if (bad == 0 && cap < d) cap = d;
    Call c(op, bad == 0);
    c.name = strf("finalize-%s", ref::alg_name[alg]);
    c.tainted = s.st == POISON || s.st == DONE;
    if (bad == 1) { Active a; c.rc = api[alg].finalize[old](s.c, nullptr, cap, c.ep()); }
    else if (bad == 4) { u8 x[64]; Active a; c.rc = api[alg].finalize[old](nullptr, x, 64, c.ep()); }
    else if (bad == 2) { Out o(64, pseed, true); { Active a; c.rc = api[alg].finalize[old](s.c, o.g.p, huge_size(op, cap), c.ep()); } o.take(64, c.name.c_str()); }
    else if (bad == 3) {
      size_t small = cap % d;
      Out o(small, pseed, true);
      { Active a; c.rc = api[alg].finalize[old](s.c, o.g.p, small, c.ep()); }
      o.take(small, c.name.c_str());
    } else {
      Out o(real_cap(cap), mix(pseed, op.id), op.i("end", 1), same ? 2 : -1);
      { Active a; c.rc = api[alg].finalize[old](s.c, o.g.p, cap, c.ep()); }
      auto got = o.take(d, c.name.c_str());
      bool was_poison = s.st != LIVE;
      bool ok = c.judge();
      if (ok && !was_poison) { digest_check(strf("stream-%s", ref::alg_name[alg]), got, s.r.final(), strf("streaming %s of %llu bytes in %llu chunks", ref::alg_name[alg], (unsigned long long)s.r.total, (unsigned long long)s.chunks).c_str()); ev("digest %s", ref::hex(got).c_str()); }
      s.st = ok ? DONE : POISON;
      return;
    }
    c.judge();
    probe(2);
    return;
  }
  if (v == "calc" || v == "hmac") {
    int alg = ref::alg_by_name(op.s("alg", "md5"));
    size_t n = op.u("len"), d = ref::digest_size[alg];
    size_t cap = op.has("cap") ? op.u("cap") : d;
    if (bad != 3 && cap < d) cap = d;
    if (bad == 3) cap = cap % d;
    // how the key lies in memory: 0 apart, 1 the start of the message, 2 inside the message, 3 around it, 4 just before it, 5 just after it
    int alias = v == "hmac" && !bad ? (int)op.i("alias") : 0;
    size_t kn0 = op.u("klen"), koff = 0, moff = 0;
    if (alias == 1 || alias == 2) kn0 = std::min(kn0, n);
    if (alias == 2) koff = op.u("aoff") % (n - kn0 + 1);
    if (alias == 3) { n = std::min(n, kn0); moff = op.u("aoff") % (kn0 - n + 1); }
    if (alias == 4) moff = kn0;
    if (alias == 5) koff = n;
    Buf b(bad == 2 && op.i("which") != 2 ? 16 : alias > 1 ? std::max(koff + kn0, moff + n) : n, mix(pseed, op.u("ds")), op.i("dm"), op.i("end", 1), same ? 0 : -1, op.u("dx"));
    Out o(bad == 1 && op.i("which") == 1 ? 1 : real_cap(cap), mix(pseed, op.id), op.i("oend", 1), same ? 2 : -1);
    Call c(op, bad == 0);
    const u8 *in = b.g.p + moff;
    u8 *outp = o.g.p;
    size_t insz = bad == 2 && op.i("which") != 2 ? huge_size(op, n) : n, said = bad == 2 && op.i("which") == 2 ? huge_size(op, cap) : cap;
    if (bad == 1) { if (op.i("which") == 1) outp = nullptr; else in = nullptr; }
    size_t live0 = trk_live(-1, op.id), evp0 = nthreads == 1 ? evp_live() : 0;
    (void)live0;
    std::vector<u8> want;
    if (v == "calc") {
      { Active a; c.rc = api[alg].calc(in, insz, outp, said, c.ep()); }
      if (c.rc == 1) want = ref::digest(alg, b.copy.data(), b.copy.size());
    } else {
      size_t kn = kn0;
      Buf k(bad == 5 ? 16 : kn, mix(pseed, op.u("ks") + 77 + (residue_on ? residue_rep * 1000003 : 0)), op.i("km"), op.i("kend", 1), same ? 1 : -1, op.u("kx"));
      if (alias) { g_writable(k.g); std::copy(b.copy.begin() + koff, b.copy.begin() + koff + kn, k.copy.begin()); if (kn) memcpy(k.g.p, k.copy.data(), kn); g_readonly(k.g); }
      set_secrets(alg, op.i("km") == 0 && !alias ? k.copy : std::vector<u8>());
      if (residue_on) residue_begin(alg, k.copy);
      const u8 *kp = alias ? b.g.p + koff : k.g.p;
      if (bad == 6) kp = nullptr;
      if (bad == 5) kn = huge_size(op, kn);
      { Active a; c.rc = api[alg].hmac(kp, kn, in, insz, outp, said, c.ep()); }
      secrets[cur->id].clear();
      if (c.rc == 1) want = ref::hmac(alg, k.copy.data(), k.copy.size(), b.copy.data() + moff, bad == 2 ? b.copy.size() : n);
      k.check(c.name.c_str());
    }
    b.check(c.name.c_str());
    sh->bytes += n;
    auto got = o.take(outp ? d : 0, c.name.c_str());
    std::string nm = c.name;
    if (c.judge() && c.valid) {
      digest_check(nm, got, want, strf("%s of %zu bytes", nm.c_str(), n).c_str());
      ev("digest %s", ref::hex(got).c_str());
    }
    // the call must have given back everything it took
    for (Block *bl : trk_live_list())
      if (bl->op == op.id && bl->kind == BK_HEAP) { viol("leak", nm, "a %zu-byte heap block allocated during the call (pc 0x%llx) was not released when it returned %d", bl->n, (unsigned long long)bl->pc, c.rc); break; }
    if (nthreads == 1 && evp_live() != evp0) viol("leak", nm, "an EVP context created during the call was not released when it returned %d", c.rc);
    return;
  }
  if (v == "churn") { // many contexts one after the other
    int alg = ref::alg_by_name(op.s("alg", "md5"));
    long n = op.i("n", 300);
    Buf buf(600, mix(pseed, op.u("ds")), 0, true);
    Rng r(mix(pseed, op.u("ds") + 5));
    std::string nm = strf("churn-%s", ref::alg_name[alg]);
    for (long k = 0; k < n; k++) {
      size_t len = r.below(4) ? r.below(20) : r.below(500), off = r.below(100);
      ctx_t *x = nullptr;
      err_t *e = nullptr;
      u8 hash[64];
      int r1, r2, r3, r4;
      { Active act; r1 = api[alg].init[0](&x, &e); r2 = api[alg].update[0](x, buf.g.p + off, len, &e); r3 = api[alg].finalize[0](x, hash, 64, &e); r4 = api[alg].free_[0](&x, &e); }
      if (r1 != 1 || r2 != 1 || r3 != 1 || r4 != 1 || e || x) viol("spurious-fail", nm, "context number %ld: a call failed (%d %d %d %d)", k, r1, r2, r3, r4);
      if (e) libcerror_error_free(&e);
      sh->checks++;
      std::vector<u8> got(hash, hash + ref::digest_size[alg]), want = ref::digest(alg, buf.copy.data() + off, len);
      if (got != want) viol("wrong-digest", nm, "context number %ld, %zu bytes: got %s, the standard gives %s", k, len, ref::hex(got).c_str(), ref::hex(want).c_str());
      if (sh->nviol) break;
    }
    sigmix((u64)n * 7 + alg);
    buf.check("churn");
    return;
  }
  if (v == "many") { // very many small updates of one context
    Slot &s = slots[op.i("s") % NSLOT];
    if (s.st != LIVE) { ev("skip"); return; }
    long n = op.i("n", 70000);
    u64 top = op.u("max", 3);
    Buf buf(4096 + top, mix(pseed, op.u("ds")), op.i("dm"), true);
    Rng r(mix(pseed, op.u("ds") + 9));
    Call c(op, true);
    c.name = strf("update-%s", ref::alg_name[s.alg]);
    for (long k = 0; k < n; k++) {
      size_t off = r.below(4096), len = op.i("exact") ? top : r.below(top + 1);
      { Active a; c.rc = api[s.alg].update[0](s.c, buf.g.p + off, len, c.ep()); }
      if (c.rc != 1) break;
      s.r.update(buf.copy.data() + off, len);
      s.chunks++;
      sh->bytes += len;
    }
    buf.check("many");
    if (!c.judge()) s.st = POISON;
    return;
  }
  if (v == "lattice") { // for one algorithm and one first-chunk size, a range of second-chunk sizes
    int alg = ref::alg_by_name(op.s("alg", "md5"));
    size_t a0 = op.u("a"), b0 = op.u("b0"), b1 = op.u("b1"), c0 = op.u("c");
    Buf buf(a0 + b1 + c0 + 1, mix(pseed, op.u("ds")), op.i("dm"), true);
    ref::Ctx base;
    base.init(alg);
    base.update(buf.copy.data(), a0);
    for (size_t n = b0; n <= b1; n += op.u("st", 1)) {
      ctx_t *x = nullptr;
      err_t *e = nullptr;
      u8 hash[64];
      int r1, r2, r3, r4, r5, r6;
      {
        Active act;
        r1 = api[alg].init[0](&x, &e);
        r2 = api[alg].update[0](x, buf.g.p, a0, &e);
        r3 = api[alg].update[0](x, buf.g.p + a0, n, &e);
        r4 = api[alg].update[0](x, buf.g.p + a0 + n, c0, &e);
        r5 = api[alg].finalize[0](x, hash, ref::digest_size[alg], &e);
        r6 = api[alg].free_[0](&x, &e);
      }
      if (r1 != 1 || r2 != 1 || r3 != 1 || r4 != 1 || r5 != 1 || r6 != 1 || e || x)
        viol("spurious-fail", strf("lattice-%s", ref::alg_name[alg]), "chunks %zu,%zu,%zu: a call failed (%d %d %d %d %d %d)", a0, n, c0, r1, r2, r3, r4, r5, r6);
      if (e) libcerror_error_free(&e);
      ref::Ctx r = base;
      r.update(buf.copy.data() + a0, n + c0);
      auto want = r.final();
      std::vector<u8> got(hash, hash + ref::digest_size[alg]);
      sh->checks++;
      if (got != want) { viol("wrong-digest", strf("stream-%s", ref::alg_name[alg]), "streaming %s of chunks %zu,%zu,%zu: got %s, the standard gives %s", ref::alg_name[alg], a0, n, c0, ref::hex(got).c_str(), ref::hex(want).c_str()); break; }
      sh->bytes += a0 + n + c0;
      sigmix(a0 * 131071 + n * 257 + c0);
    }
    buf.check("lattice");
    return;
  }
  if (v == "sweep") { // every message length and every key length of a range
    int alg = ref::alg_by_name(op.s("alg", "md5"));
    size_t b0 = op.u("b0"), b1 = op.u("b1"), kn = op.u("klen"), mn = op.u("len"), d = ref::digest_size[alg];
    Buf buf(b1 + 1, mix(pseed, op.u("ds")), op.i("dm"), true), other(std::max(kn, mn) + 1, mix(pseed, op.u("ds") + 1), 0, true);
    for (size_t n = b0; n <= b1 && !sh->nviol; n++) {
      const u8 *a = buf.g.p + (buf.copy.size() - n), *c = buf.copy.data() + (buf.copy.size() - n);
      for (int k = 0; k < 3; k++) {
        err_t *e = nullptr;
        u8 hash[64];
        int rc;
        {
          Active act;
          rc = k == 0 ? api[alg].calc(a, n, hash, d, &e) : k == 1 ? api[alg].hmac(other.g.p, kn, a, n, hash, d, &e) : api[alg].hmac(a, n, other.g.p, mn, hash, d, &e);
        }
        std::string nm = strf("%s-%s", k ? "hmac" : "calc", ref::alg_name[alg]);
        if (rc != 1 || e) viol("spurious-fail", nm, "%s with %zu bytes of %s failed (%d)", nm.c_str(), n, k == 2 ? "key" : "message", rc);
        if (e) libcerror_error_free(&e);
        if (rc != 1) break;
        auto want = k == 0 ? ref::digest(alg, c, n) : k == 1 ? ref::hmac(alg, other.copy.data(), kn, c, n) : ref::hmac(alg, c, n, other.copy.data(), mn);
        std::vector<u8> got(hash, hash + d);
        sh->checks++;
        if (got != want) { viol("wrong-digest", nm, "%s with %zu bytes of %s: got %s, the standard gives %s", nm.c_str(), n, k == 2 ? "key" : "message", ref::hex(got).c_str(), ref::hex(want).c_str()); break; }
        sh->bytes += n;
      }
      sigmix(n * 131 + alg);
    }
    buf.check("sweep");
    other.check("sweep");
    return;
  }
  ev("unknown op %s", v.c_str());
  viol("harness", "op", "unknown operation %s", v.c_str());
}
static int lock_of(const Op &op) {
  const std::string &v = op.verb;
  if (v == "init" || v == "upd" || v == "fin" || v == "free") return (int)(op.i("s") % NSLOT);
  return -1;
}
void giant_run(const Plan &p);
static std::string race_name() { return cur->op ? cur->op->verb : "end"; }
void sim_warm() {
  if (!ref::selftest()) { fprintf(stderr, "reference digests are wrong\n"); _exit(3); }
  evp_warm();
  register_probe(0, "initialize of an already set context was rejected");
  register_probe(1, "an update was rejected for its arguments");
  register_probe(2, "a finalize was rejected for its arguments");
  register_probe(3, "a failed call was tried again");
  register_probe(5, "a finished context was used again");
  register_probe(4, "a context whose update or finalize failed was freed");
  is_evp = !strncmp(build_cfg, "evp", 3);
  is_legacy = !strncmp(build_cfg, "evpl", 4);
}
void sim_run(const Plan &p) {
  trk_reset(p.u("seed"), p.s("fill", "random"));
  race_reset();
  evp_reset();
  set_race_sig(race_name);
  on_free = scan_freed;
  if (p.s("lane") == "giant" || p.s("lane") == "hollow") { giant_run(p); return; }
  run_ops(p, exec, lock_of);
  // the program's own cleanup, with nothing failing
  for (auto &s : slots)
    if (s.st != EMPTY) { cur->fired_in_op = 0; memset(cur->fired_kind, 0, sizeof cur->fired_kind); do_free(s, 0, nullptr); }
  for (Block *b : trk_live_list())
    if (b->kind != BK_ERR) { viol("leak", strf("op-%s", [&] { for (auto &o : p.ops) if (o.id == b->op) return o.verb; return std::string("end"); }().c_str()), "a %zu-byte block allocated in op %d (pc 0x%llx) was never released", b->n, b->op, (unsigned long long)b->pc); break; }
  if (trk_live(BK_ERR)) viol("leak", "error-object", "an error object was never released or was lost");
  if (evp_live()) viol("leak", "evp", "an EVP context was never released");
  trk_end_check();
}
std::vector<std::string> sim_shrink_keys() { return {"len", "klen", "cap", "dm", "ds", "ks", "end", "old", "km", "kend", "oend", "dx", "kx", "rep", "hv"}; }

// ---- generation -----------------------------------------------------------------------
static long pick_cap(Rng &r, int alg) {
  long d = ref::digest_size[alg];
  if (r.chance(1, 16)) {
    static const u64 at[] = {1ull << 31, 1ull << 32, (1ull << 32) - 1, 3ull << 31, ((1ull << 63) - 301), 1ull << 62, 5ull << 32, 1ull << 24};
    u64 cap = at[r.below(8)] + r.below(r.chance(1, 2) ? d : 300);
    // The OpenSSL back ends take no size above UINT_MAX; the properties leave that open.
    return is_evp ? std::min<u64>(cap, 0xffffffff - r.below(300)) : cap;
  }
  switch (r.below(8)) {
  case 0: return 256 + (long)r.below(d);       // small if only the low byte counted
  case 1: return 65536 + (long)r.below(d);
  case 6: return d + (long)code_number(r, 100000);
  case 2: return 127 + (long)r.below(4);
  case 3: return d + (long)r.below(5000);
  case 4: return 100000;
  default: return d + (long)r.below(80);
  }
}
static size_t pick_klen(Rng &r, int alg) {
  size_t bs = ref::block_size[alg];
  if (size_t c = r.chance(1, 8) ? code_number(r, r.chance(1, 20) ? 1 << 21 : 70000) : 0) return c;
  switch (r.below(12)) {
  case 0: return r.below(4);
  case 1: return bs;
  case 2: return bs + 1;
  case 3: return bs - 1;
  case 4: return bs + r.below(2 * bs + 2);
  case 5: return ref::digest_size[alg];
  case 6: case 7: return r.below(bs);
  case 8: return 256 + r.below(bs + 1);        // small if only the low byte counted
  case 9: return r.chance(1, 3) ? 65536 + r.below(bs + 1) : 2 * bs + r.below(3);
  case 10: return r.chance(1, 3) ? 32760 + r.below(16) : 4 * bs + r.below(3);
  default: return r.below(600);
  }
}
static size_t pick_len(Rng &r, int alg, size_t maxlen, size_t off) {
  size_t bs = ref::block_size[alg], v;
  if (r.chance(1, 8)) {
    u64 lim = std::max<u64>(maxlen, maxlen < 600 ? 20000 : r.chance(1, 12) ? 2 << 20 : 110000), c = code_number(r, lim);
    if (c && off && r.chance(1, 2)) c = c > off ? c - off : 0; // the sum of all
    if (c) return c;
  }
  switch (r.below(12)) {
  case 0: v = r.chance(1, 2) ? 0 : r.below(4); break;
  case 1: v = bs - off % bs; break;                       // fills the block exactly
  case 2: v = bs - off % bs + r.range(0, 2) * bs; break;
  case 3: v = (bs - off % bs) + (r.chance(1, 2) ? 1 : -1); break;
  case 4: v = bs - 12 + r.below(16); break;               // around the padding limit
  case 5: v = bs * r.range(1, 4) + r.below(3) - 1; break;
  case 6: v = r.below(300); break;
  case 7: v = r.below(300); break;
  case 8: v = 2 * bs - 20 + r.below(24); break;
  case 9: v = bs - 9 - off % bs + r.below(4); break;
  case 10: v = r.below(3 * bs); break;
  default: v = r.below(maxlen + 1);
  }
  if ((long)v < 0) v = 1;
  return std::min(v, maxlen);
}
struct G {
  int threads = 1, slots = 3, nops = 24;
  int w_stream = 6, w_calc = 1, w_hmac = 1;
  unsigned pbad = 8; // one in pbad calls is a rejected one (0: never)
  size_t maxlen = 2000;
  bool share = false;
  unsigned psame = 3, prep = 12, prel = 6;
  int only = -1; // the one algorithm used
};
static void gen_ops(Rng &r, Plan &p, const G &g) {
  Op related;
  struct M { bool live = false; int alg = 0; size_t off = 0; bool done = false; } m[NSLOT];
  const char *badupd[] = {"null", "huge", "nullctx"}, *badfin[] = {"null", "huge", "small", "nullctx"};
  const char *badcalc[] = {"null", "huge", "small"}, *badhmac[] = {"null", "huge", "small", "hugekey", "nullkey"};
  for (int k = 0; k < g.nops; k++) {
    int t = (int)r.below(g.threads);
    int roll = (int)r.below(g.w_stream + g.w_calc + g.w_hmac);
    bool bad = g.pbad && r.chance(1, g.pbad);
    int err = r.chance(1, 8) ? 0 : 1;
    if (roll < g.w_stream) {
      int per = std::max(1, g.slots / g.threads);
      int s = g.share && r.chance(1, 3) ? (int)r.below(g.slots) : t * per + (int)r.below(per);
      s %= NSLOT;
      int old = r.chance(1, 6);
      if (!m[s].live) {
        int alg = g.only >= 0 ? g.only : (int)r.below(ref::NALG);
        Op &o = p.add(t, "init").set("s", s).set("alg", ref::alg_name[alg]);
        if (old) o.set("old", 1);
        if (!err) o.set("err", 0l);
        if (bad && r.chance(1, 3)) o.set("bad", "nullctx");
        else { m[s].live = true; m[s].alg = alg; m[s].off = 0; m[s].done = false; }
        continue;
      }
      int alg = m[s].alg;
      if (m[s].done && r.chance(1, 6)) {
        Op &o = p.add(t, r.chance(1, 2) ? "fin" : "upd").set("s", s).set("late", 1);
        if (o.verb == "upd") o.set("len", (long)pick_len(r, alg, g.maxlen, 0)).setu("ds", r.below(1000000));
        if (old) o.set("old", 1);
        if (!err) o.set("err", 0l);
        if (bad) o.set("bad", o.verb == "upd" ? badupd[r.below(3)] : badfin[r.below(4)]).set("cap", (long)r.below(200));
        continue;
      }
      if (m[s].done) {
        Op &o = p.add(t, "free").set("s", s);
        if (old) o.set("old", 1);
        if (bad) { o.set("bad", "nullctx"); continue; }
        m[s].live = false;
        if (r.chance(1, 5)) { Op &o2 = p.add(t, "free").set("s", s).set("null", (long)(1 + r.below(ref::NALG))); if (r.chance(1, 6)) o2.set("old", 1); }
        continue;
      }
      unsigned what = (unsigned)r.below(10);
      if (what == 0 && r.chance(1, 2)) { p.add(t, "free").set("s", s); m[s].live = false; continue; }
      if (what <= 1) {
        Op &o = p.add(t, "fin").set("s", s);
        if (r.chance(1, 3)) o.set("cap", pick_cap(r, alg));
        if (r.chance(1, 8)) o.set("same", 1);
        if (old) o.set("old", 1);
        if (!err) o.set("err", 0l);
        if (r.chance(1, 2)) o.set("end", 0l);
        if (bad) { o.set("bad", badfin[r.below(4)]); if (r.chance(1, 2)) o.set("cap", (long)r.below(200)); else o.set("cap", (long)ref::digest_size[alg] - 1); }
        else m[s].done = true;
        continue;
      }
      if (bad && r.chance(1, 4)) { p.add(t, "init").set("s", s).set("alg", ref::alg_name[alg]).set("bad", "set"); continue; }
      size_t n = pick_len(r, alg, g.maxlen, m[s].off);
      Op &o = p.add(t, "upd").set("s", s).set("len", (long)n).setu("ds", r.below(1000000));
      if (r.chance(1, 5)) o.set("dm", (long)r.below(5));
      if (old) o.set("old", 1);
      if (!err) o.set("err", 0l);
      if (r.chance(1, 2)) o.set("end", 0l);
      if (g.psame && r.chance(1, g.psame)) o.set("same", 1);
      if (bad) o.set("bad", badupd[r.below(3)]);
      else m[s].off += n;
      continue;
    }
    bool hm = roll >= g.w_stream + g.w_calc;
    int alg = g.only >= 0 ? g.only : (int)r.below(ref::NALG);
    const Op *prev = nullptr; // make this call resemble an earlier one
    if (g.prel && r.chance(1, g.prel)) {
      std::vector<int> c;
      for (int i = 0; i < (int)p.ops.size(); i++) if (p.ops[i].verb == (hm ? "hmac" : "calc")) c.push_back(i);
      if (!c.empty()) related = p.ops[c[c.size() - 1 - r.below(std::min<size_t>(c.size(), 3))]], prev = &related;
    }
    if (prev && !r.chance(1, 8)) alg = ref::alg_by_name(prev->s("alg"));
    Op &o = p.add(t, hm ? "hmac" : "calc");
    o.set("alg", ref::alg_name[alg]).set("len", (long)pick_len(r, alg, g.maxlen, 0)).setu("ds", r.below(1000000));
    if (r.chance(1, 5)) o.set("dm", (long)r.below(5));
    if (r.chance(1, 3)) o.set("cap", pick_cap(r, alg));
    if (g.psame && r.chance(1, g.psame)) o.set("same", 1);
    if (g.prep && !bad && r.chance(1, g.prep)) o.set("rep", 2 + (long)r.below(4));
    if (!err) o.set("err", 0l);
    if (r.chance(1, 2)) o.set("end", 0l);
    if (r.chance(1, 2)) o.set("oend", 0l);
    if (hm) {
      size_t kn = pick_klen(r, alg);
      if (!bad && r.chance(1, 14)) o.set("alias", r.range(1, 5)).setu("aoff", r.below(1000));
      o.set("klen", (long)kn).setu("ks", r.below(1000000));
      if (r.chance(1, 6)) o.set("km", (long)r.below(5));
      if (r.chance(1, 2)) o.set("kend", 0l);
    }
    if (u64 a = hm && g.maxlen >= 600 && r.chance(1, 8) ? code_number(r, 20000, true) : 0) { // two of them at once
      o.setu("len", a).setu("klen", std::max<u64>(1, code_number(r, 20000, true)));
      prev = nullptr;
    }
    if (prev) {
      auto take = [&](const char *k) { if (prev->has(k)) o.set(k, prev->s(k)); else o.del(k); };
      auto x = [&] { return 1 + 2 * (r.chance(1, 2) ? r.below(4) : r.chance(1, 2) ? 60 + r.below(10) : r.below(2000)) + r.below(2); };
      if (!hm || r.chance(1, 2)) { // the same message, one with a byte changed, or a byte longer or shorter
        take("len"); take("ds"); take("dm"); take("dx");
        if (r.chance(2, 3)) o.setu("dx", x());
        else if (r.chance(1, 3)) o.set("len", std::max<long>(0, o.i("len") + (r.chance(1, 2) ? 1 : -1)));
      }
      if (hm && r.chance(4, 5)) {
        take("klen"); take("ks"); take("km"); take("kx");
        if (r.chance(2, 3)) o.setu("kx", x());
        else if (r.chance(1, 3)) o.set("klen", std::max<long>(0, o.i("klen") + (r.chance(1, 2) ? 1 : -1)));
      }
    }
    if (bad) {
      if (hm) o.set("bad", badhmac[r.below(5)]);
      else o.set("bad", badcalc[r.below(3)]);
      if (o.s("bad") == "small") o.set("cap", r.chance(1, 2) ? (long)ref::digest_size[alg] - 1 : (long)r.below(ref::digest_size[alg]));
      if (o.s("bad") == "null" && r.chance(1, 2)) o.set("which", 1);
    }
  }
}
static const char *fills[] = {"random", "zero", "ff", "stale", "mixed", "recycle"};
void sim_gen(const std::string &lane, Rng &r, Plan &p, u64 index) {
  p.set("fill", fills[r.below(6)]);
  G g;
  if (lane == "stream") {
    g.slots = (int)r.range(1, 6);
    g.nops = (int)r.range(12, 70);
    g.maxlen = r.chance(1, 20) ? 300000 : r.chance(1, 4) ? 9000 : 1200;
    g.pbad = r.chance(1, 2) ? 12 : 0;
  } else if (lane == "oneshot") {
    g.w_stream = 1; g.w_calc = 4; g.w_hmac = 5;
    g.nops = (int)r.range(8, 24);
    g.maxlen = r.chance(1, 20) ? 300000 : r.chance(1, 4) ? 9000 : 900;
    g.pbad = 15;
    g.prel = 2;
  } else if (lane == "reject") {
    g.w_stream = 6; g.w_calc = 2; g.w_hmac = 3;
    g.nops = (int)r.range(10, 50);
    g.slots = (int)r.range(1, 4);
    g.maxlen = 600;
    g.pbad = 2;
  } else if (lane == "recover") {
    g.w_stream = 6; g.w_calc = 2; g.w_hmac = 2;
    g.nops = (int)r.range(14, 40);
    g.slots = (int)r.range(2, 5);
    g.maxlen = 400;
    g.pbad = 10;
  } else if (lane == "outage") { // calls that fail again and again, then everything works
    int n = (int)r.range(1, 4), first = (int)r.below(3);
    for (int k = 0; k < first; k++) p.add(0, "init").set("s", 20 + k).set("alg", ref::alg_name[r.below(ref::NALG)]), p.add(0, "upd").set("s", 20 + k).set("len", (long)r.below(200)).setu("ds", r.below(100000));
    std::vector<int> algs;
    for (int k = 0; k < n; k++) {
      static const long reps[] = {2, 3, 4, 5, 8, 10, 16, 17, 33, 65, 129, 257, 600};
      int alg = (int)r.below(ref::NALG);
      algs.push_back(alg);
      const char *verbs[] = {"init", "calc", "hmac"};
      const char *v = verbs[r.below(3)];
      Op &o = p.add(0, v).set("alg", ref::alg_name[alg]).set("rep", reps[r.below(r.chance(1, 4) ? 13 : 9)]).set("again", 1);
      if (u64 c = r.chance(1, 10) ? code_number(r, 1500) : 0) o.setu("rep", c + 1);
      if (v[0] == 'i') o.set("s", k);
      else o.set("len", (long)r.below(200)).setu("ds", r.below(100000)).set("same", 1);
      if (v[0] == 'h') o.set("klen", (long)pick_klen(r, alg) % 700).setu("ks", r.below(1000));
    }
    for (int alg : algs) {
      p.add(0, "calc").set("alg", ref::alg_name[alg]).set("len", (long)r.below(200)).setu("ds", r.below(100000));
      p.add(0, "hmac").set("alg", ref::alg_name[alg]).set("len", (long)r.below(200)).setu("ds", r.below(100000)).set("klen", (long)pick_klen(r, alg) % 700).setu("ks", 3);
      p.add(0, "init").set("s", 40).set("alg", ref::alg_name[alg]);
      p.add(0, "upd").set("s", 40).set("len", (long)r.below(300)).setu("ds", r.below(100000));
      p.add(0, "fin").set("s", 40);
      p.add(0, "free").set("s", 40);
    }
    for (int k = 0; k < first; k++) p.add(0, "upd").set("s", 20 + k).set("len", (long)r.below(200)).setu("ds", r.below(100000)), p.add(0, "fin").set("s", 20 + k), p.add(0, "free").set("s", 20 + k);
  } else if (lane == "faults") {
    g.w_stream = 5; g.w_calc = 2; g.w_hmac = 3;
    g.nops = (int)r.range(5, 18);
    g.maxlen = 400;
    g.pbad = 6;
  } else if (lane == "hmacfaults") {
    g.w_stream = 1; g.w_calc = 2; g.w_hmac = 6;
    g.nops = (int)r.range(2, 7);
    g.maxlen = 300;
    g.pbad = 10;
  } else if (lane == "threads") {
    g.threads = (int)r.range(2, 4);
    g.slots = g.threads * 2;
    g.nops = (int)r.range(8, 26);
    g.w_stream = 6; g.w_calc = 2; g.w_hmac = 2;
    g.maxlen = 260;
    g.pbad = 12;
    g.share = r.chance(1, 2);
    if (r.chance(1, 2)) g.prel = 2;
    if (r.chance(1, 3)) { g.only = (int)r.below(ref::NALG); if (r.chance(1, 2)) { g.w_stream = 1; (r.chance(1, 2) ? g.w_calc : g.w_hmac) = 6; } }
  } else if (lane == "secret") {
    int n = (int)r.range(1, 4);
    for (int k = 0; k < n; k++) {
      int alg = (int)r.below(ref::NALG);
      size_t bs = ref::block_size[alg];
      long kn;
      switch (r.below(5)) { case 0: kn = 8 + r.below(bs - 8); break; case 1: kn = bs; break; case 2: kn = bs + 1 + r.below(3 * bs); break; case 3: kn = bs + 1; break; default: kn = 8 + r.below(400); }
      Op &o = p.add(0, "hmac").set("alg", ref::alg_name[alg]).set("len", (long)pick_len(r, alg, 500, 0)).setu("ds", r.below(1000000)).set("klen", kn).setu("ks", r.below(1000000));
      if (r.chance(1, 6)) o.set("bad", r.chance(1, 2) ? "null" : "huge");
      if (r.chance(1, 8)) o.set("err", 0l);
    }
  } else if (lane == "residue") {
    p.set("fill", "random");
    int alg = (int)r.below(ref::NALG);
    size_t bs = ref::block_size[alg];
    long kn;
    switch (r.below(7)) { case 0: kn = 1 + r.below(bs); break; case 1: kn = bs; break; case 2: kn = bs - 1 + r.below(3); break; case 3: kn = bs + 1 + r.below(3 * bs); break; case 4: kn = 1 + r.below(12); break; case 5: kn = bs - r.below(9); break; default: kn = 1 + r.below(500); }
    Op &o = p.add(0, "hmac").set("alg", ref::alg_name[alg]).set("len", (long)pick_len(r, alg, 300, 0)).setu("ds", r.below(1000000)).set("klen", kn).setu("ks", r.below(1000000));
    o.set("residue", 1l).set("rep", 8l).set("again", 1l);
    if (r.chance(1, 8)) o.set("err", 0l);
  } else if (lane == "crowd") { // many contexts at once
    int n = (int)r.range(20, r.chance(1, 3) ? 300 : 70);
    std::vector<int> alg(n), slot(n);
    for (int k = 0; k < n; k++) { slot[k] = k; alg[k] = (int)r.below(ref::NALG); }
    if (r.chance(1, 3)) for (int k = 0; k < n; k++) alg[k] = alg[0];
    for (int k = 0; k < n; k++) p.add(0, "init").set("s", k).set("alg", ref::alg_name[alg[k]]);
    for (int k = 0; k < 3 * n; k++) {
      int s = (int)r.below(n);
      p.add(0, "upd").set("s", s).set("len", (long)pick_len(r, alg[s], 300, 0)).setu("ds", r.below(1000000)).set("same", r.chance(1, 2) ? 1l : 0l);
    }
    for (int k = n - 1; k > 0; k--) std::swap(slot[k], slot[r.below(k + 1)]);
    for (int k = 0; k < n; k++) {
      if (r.chance(1, 9)) p.add(0, "upd").set("s", slot[(int)r.below(n)]).set("len", (long)r.below(200)).setu("ds", r.below(1000000));
      p.add(0, "fin").set("s", slot[k]);
      if (r.chance(1, 2)) p.add(0, "free").set("s", slot[k]);
    }
  } else if (lane == "many") {
    for (int k = 0; k < 3; k++) {
      int alg = (int)((index * 3 + k) % ref::NALG);
      if (r.chance(1, 3)) { p.add(0, "churn").set("alg", ref::alg_name[alg]).set("n", r.chance(1, 2) ? 66000 : (long)r.range(200, 5000)).setu("ds", r.below(1000000)); continue; }
      p.add(0, "init").set("s", k).set("alg", ref::alg_name[alg]);
      if (r.chance(1, 2)) p.add(0, "upd").set("s", k).set("len", (long)r.below(200)).setu("ds", r.below(1000000));
      Op &o = p.add(0, "many").set("s", k).set("n", (long)(r.chance(1, 2) ? 65530 + r.below(20) : r.range(250, 70000))).setu("ds", r.below(1000000));
      if (r.chance(1, 3)) o.set("exact", 1).set("max", r.chance(1, 2) ? 1l : (long)r.below(5)); else o.set("max", (long)r.range(1, 12));
      if (u64 c = r.chance(1, 4) ? code_number(r, 100000) : 0) o.setu("n", c + r.below(3)).set("max", (long)r.range(1, 12));
      if (r.chance(1, 3)) o.set("n", r.range(100, 6000)).set("max", (long)(5 * ref::block_size[alg])).del("exact");
      else if (r.chance(1, 3)) o.set("n", r.range(100, 600)).set("max", r.range(4000, 12000)).del("exact");
      if (r.chance(1, 2)) p.add(0, "upd").set("s", k).set("len", (long)r.below(200)).setu("ds", r.below(1000000));
      p.add(0, "fin").set("s", k);
      p.add(0, "free").set("s", k);
      if (r.chance(1, 3)) p.add(0, r.chance(1, 2) ? "calc" : "hmac").set("alg", ref::alg_name[alg]).set("len", (long)r.below(100)).set("klen", (long)r.below(200)).setu("ds", r.below(100000)).setu("ks", 5).set("rep", (long)(r.chance(1, 2) ? 260 + r.below(20) : r.range(1000, 5000)));
    }
  } else if (lane == "large") {
    int alg = (int)(index % ref::NALG);
    const char *an = ref::alg_name[alg];
    auto big = [&]() -> long { if (u64 c = r.chance(1, 3) ? code_number(r, 12 << 20) : 0) return (long)c; switch (r.below(4)) { case 0: return (1l << r.range(16, 25)) + (long)r.below(3) - 1; case 1: return (1l << r.range(16, 24)) + (long)r.below(300); case 2: return (long)r.below(12 << 20); default: return (long)(r.range(1, 300) << 16) - (long)r.below(130); } };
    int what = (int)r.below(4);
    if (what == 0) p.add(0, "calc").set("alg", an).set("len", big()).setu("ds", r.below(100000)).set("end", (long)r.below(2));
    else if (what == 1) p.add(0, "hmac").set("alg", an).set("len", big()).setu("ds", r.below(100000)).set("klen", (long)(r.chance(1, 3) ? r.chance(1, 2) ? r.below(3) : ref::block_size[alg] - 1 + r.below(3) : pick_klen(r, alg))).setu("ks", 3).set("end", (long)r.below(2));
    else if (what == 2) p.add(0, "hmac").set("alg", an).set("len", (long)r.below(300)).setu("ds", r.below(100000)).set("klen", big()).setu("ks", 3);
    else {
      p.add(0, "init").set("s", 0l).set("alg", an);
      p.add(0, "upd").set("s", 0l).set("len", (long)r.below(300)).setu("ds", r.below(100000));
      p.add(0, "upd").set("s", 0l).set("len", big()).setu("ds", r.below(100000)).set("end", (long)r.below(2));
      p.add(0, "upd").set("s", 0l).set("len", (long)r.below(300)).setu("ds", r.below(100000));
      p.add(0, "fin").set("s", 0l);
    }
  } else if (lane == "lattice") {
    int alg = (int)(index % ref::NALG);
    size_t bs = ref::block_size[alg];
    size_t a = (index / ref::NALG) % (bs + 1);
    for (int k = 0; k < 2; k++) {
      p.add(0, "lattice").set("alg", ref::alg_name[alg]).set("a", (long)a).set("b0", (long)(k * (bs + bs / 2))).set("b1", (long)((k + 1) * (bs + bs / 2))).set("c", r.chance(1, 2) ? 0l : (long)r.below(2 * bs + 2)).setu("ds", r.below(1000000)).set("dm", r.chance(1, 8) ? (long)r.below(5) : 0l);
    }
  } else if (lane == "sweep") { // every message and key length of a range
    int alg = (int)(index % ref::NALG);
    size_t bs = ref::block_size[alg], b0 = index / ref::NALG % 24 * 400;
    p.add(0, "sweep").set("alg", ref::alg_name[alg]).setu("b0", b0).setu("b1", b0 + 399).set("klen", (long)r.below(2 * bs)).set("len", (long)r.below(2 * bs)).setu("ds", r.below(1000000));
    const size_t kl[24] = {0, 1, 2, 3, 4, 5, 8, 16, 20, 28, 31, 32, 33, 48, bs - 2, bs - 1, bs, bs + 1, bs + 2, 2 * bs - 1, 2 * bs, 2 * bs + 1, 3 * bs, 1000};
    p.add(0, "hmac").set("alg", ref::alg_name[alg]).set("len", (long)r.range(70000, 400000)).setu("ds", r.below(100000)).setu("klen", kl[index / ref::NALG % 24]).setu("ks", r.below(100000));
  } else if (lane == "stride") { // first chunks of every size, then one of any number of whole blocks, one that fills a block and whole blocks, or one of many sizes
    int alg = (int)(index % ref::NALG);
    size_t bs = ref::block_size[alg];
    for (int k = 0; k < 3; k++) {
      Op &o = p.add(0, "lattice").set("alg", ref::alg_name[alg]).setu("a", (index / ref::NALG * 3 + k) % (bs + 1)).set("b0", 0l).setu("b1", 130 * bs).setu("st", bs).set("c", (long)r.below(2 * bs)).setu("ds", r.below(1000000));
      size_t way = (index / ref::NALG / ((bs + 3) / 3) + k) % 3;
      if (way == 1) o.setu("b1", 40000).setu("b0", r.below(300)).setu("st", 301 + r.below(100));
      if (way == 2) o.setu("b0", bs - o.u("a") % bs);
    }
    p.add(0, "init").set("s", 0l).set("alg", ref::alg_name[alg]); // all sorts of chunks after a long one
    p.add(0, "upd").set("s", 0l).set("len", (long)r.below(300)).setu("ds", r.below(100000));
    p.add(0, "upd").set("s", 0l).set("len", (long)(r.chance(1, 3) ? r.range(65536, 1 << 20) : r.range(1 << 20, 3 << 20))).setu("ds", r.below(100000));
    p.add(0, "many").set("s", 0l).set("n", (long)r.range(200, 600)).set("max", (long)(3 * bs)).setu("ds", r.below(1000000));
    p.add(0, "fin").set("s", 0l);
  } else if (lane == "giant") {
    static const u64 B = 1ull << 29, F = 1ull << 32;
    int alg = (int)(index % ref::NALG);
    p.set("alg", ref::alg_name[alg]);
    int shape = (int)(index / ref::NALG) % 4;
    p.set("cpulimit", 600);
    p.set("profile", 0l);
    u64 total = shape == 0 ? F + r.below(5000) : shape == 1 ? B + r.below(2000) : shape == 2 ? F + B + r.below(100000) : F / 2 + r.below(3000);
    if (shape == 3 && r.chance(1, 2)) total = F + 3 * B + r.below(999);
    p.set("mode", shape == 0 ? "one" : shape == 1 ? "chunks" : shape == 2 ? "mixed" : "hmac");
    p.setu("total", total);
    p.setu("first", r.below(200));
    if (index >= 20 && index < 40) { p.set("mode", "hmackey"); p.setu("total", index < 25 ? F + r.below(300) : F / 2 + r.below(300)); }
    if (index >= 40) { p.set("mode", "one"); p.setu("total", r.below(1000)); p.setu("cap", r.chance(1, 2) ? F / 2 + r.below(64) : F - 1 - r.below(64)); }
    p.has_variants = 0;
  } else if (lane == "hollow") { // sizes only: the crypto library behind the seam digests a sample
    static const u64 M = 1ull << 31, F = 1ull << 32;
    p.set("hollow", 1);
    p.set("cpulimit", 300);
    p.set("profile", 0l);
    p.has_variants = 0;
    p.set("alg", ref::alg_name[index % ref::NALG]);
    static const char *const modes[] = {"one", "hmac", "hmackey", "chunks", "mixed"};
    int shape = (int)(index / ref::NALG) % 5;
    p.set("mode", modes[shape]);
    u64 total;
    switch (r.below(7)) { case 0: total = M - 1 + r.below(3); break; case 1: total = M + r.below(100000); break; case 2: total = F - 1 + r.below(3); break; case 3: total = F + r.below(100000); break; case 4: total = F * r.range(2, 12) + r.below(3000); break; case 5: total = F * r.range(1, 16); break; default: total = F + M + r.below(3000); }
    p.setu("total", total);
    p.setu("first", r.chance(1, 2) ? 0 : r.below(200));
    if (r.chance(1, 6)) p.setu("cap", r.chance(1, 2) ? M + r.below(64) : F - 1 - r.below(64));
  }
  if (lane == "threads" && r.chance(1, 2)) { // all threads do the same with data of their own
    p.has_variants = 8;
    G one = g;
    one.threads = 1;
    one.slots = 2;
    one.nops = (int)r.range(2, 6);
    if (r.chance(1, 2)) one.w_stream = 1, one.w_calc = 2, one.w_hmac = 3;
    Plan q;
    gen_ops(r, q, one);
    for (auto &o : q.ops) {
      if (o.has("len") && r.chance(1, 8)) o.set("len", 0l);
      for (int t = 0; t < g.threads; t++) {
        Op &c = p.add(t, o.verb.c_str());
        c.kv = o.kv;
        if (o.has("s")) c.set("s", o.i("s") + 4 * t);
        if (o.has("ds") && r.chance(3, 4)) c.setu("ds", r.below(1000000));
        if (o.has("ks") && r.chance(3, 4)) c.setu("ks", r.below(1000000));
      }
    }
  }
  if (p.ops.empty() && lane != "giant" && lane != "hollow") gen_ops(r, p, g);
  for (auto &o : p.ops)
    if (o.s("bad") == "huge" || o.s("bad") == "hugekey") {
      o.set("hv", (long)r.below(7));
      if (o.s("bad") == "huge" && o.verb != "upd" && o.verb != "fin" && r.chance(1, 3)) o.set("which", 2);
    }
  if (lane == "recover" || lane == "hmacfaults")
    for (auto &o : p.ops) if ((o.verb == "init" || o.verb == "calc" || o.verb == "hmac") && !o.has("bad") && r.chance(3, 4)) o.set("retry", 1);
}
static bool kind_ok(const std::string &lane, int k) {
  if (lane == "secret" || lane == "residue") return k != F_MEMOP && k != F_ERROBJ;
  return true;
}
int sim_variants(const std::string &lane) {
  if (lane == "faults" || lane == "recover") return 14;
  if (lane == "hmacfaults") return 14;
  if (lane == "outage") return 6;
  if (lane == "threads") return 24;
  if (lane == "secret" || lane == "residue") return 8;
  return 0;
}
static void add_faults(const std::string &lane, Rng &r, const Profile &prof, Plan &p, int n) {
  for (int k = 0; k < n; k++) {
    std::vector<int> kinds;
    for (auto &pt : prof.points) if (kind_ok(lane, pt.kind) && std::find(kinds.begin(), kinds.end(), (int)pt.kind) == kinds.end()) kinds.push_back(pt.kind);
    if (kinds.empty()) return;
    int kind = kinds[r.below(kinds.size())];
    if (kind == F_MEMOP && r.chance(1, 3)) kind = kinds[r.below(kinds.size())];
    std::vector<const Point *> pts;
    for (auto &pt : prof.points) if ((int)pt.kind == kind) pts.push_back(&pt);
    const Point *pt = pts[r.below(pts.size())];
    Fault f;
    f.op = pt->op;
    f.kind = kind;
    f.nth = (int)r.below(pt->count);
    if (kind == F_MEMOP) f.param = memop_mode(r);
    p.faults.push_back(f);
    // an error object can only fail to be allocated where an error is being set
    if (kind != F_ERROBJ && r.chance(1, 10)) { Fault e; e.op = f.op; e.kind = F_ERROBJ; e.nth = 0; p.faults.push_back(e); }
  }
}
// The same fails in the calls of the same kind of other threads.
static void twin(Rng &r, const Plan &base, Plan &p) {
  Fault f = p.faults[0];
  const Op *a = nullptr;
  for (auto &o : base.ops) if (o.id == f.op) a = &o;
  if (!a) return;
  for (auto &o : base.ops)
    if (o.th != a->th && o.verb == a->verb && o.s("alg") == a->s("alg") && r.chance(2, 3)) { Fault e = f; e.op = o.id; if (r.chance(1, 4)) e.nth = (int)r.below(f.nth + 2); p.faults.push_back(e); }
}
void sim_vary(const std::string &lane, Rng &r, const Plan &base, const Profile &prof, Plan &out) {
  out = base;
  if (lane == "threads") {
    if (!prof.steps.empty()) {
      std::vector<u64> pcs;
      for (auto &s : prof.steps) pcs.push_back(s.pc);
      std::sort(pcs.begin(), pcs.end());
      pcs.erase(std::unique(pcs.begin(), pcs.end()), pcs.end());
      int n = (int)r.range(1, 6), th = 1;
      for (auto &o : base.ops) th = std::max(th, o.th + 1);
      for (int k = 0; k < n; k++) {
        const StepPt *sp;
        if (r.chance(1, 3)) sp = &prof.steps[r.below(prof.steps.size())];
        else {
          u64 pc = pcs[r.below(pcs.size())];
          std::vector<const StepPt *> c;
          for (auto &s : prof.steps) if (s.pc == pc) c.push_back(&s);
          sp = c[r.below(c.size())];
        }
        Sw w;
        w.op = sp->op;
        w.at = sp->at;
        if (r.chance(1, 4)) w.at = 1 + (long)r.below(sp->at + 3);
        int me = 0;
        for (auto &o : base.ops) if (o.id == w.op) me = o.th;
        w.to = (int)r.below(th);
        if (w.to == me) w.to = (w.to + 1) % th;
        w.n = (int)r.range(1, 3);
        out.sws.push_back(w);
      }
    }
    if (r.chance(1, 4)) {
      add_faults(lane, r, prof, out, 1);
      if (!out.faults.empty() && r.chance(1, 2)) twin(r, base, out);
    }
    return;
  }
  if (lane == "outage") {
    Profile o;
    for (auto &pt : prof.points) for (auto &op : base.ops) if (op.id == (int)pt.op && op.i("again")) o.points.push_back(pt);
    add_faults(lane, r, o, out, (int)r.range(1, 3));
    return;
  }
  if (lane == "recover") { // everything that fails does so in the first half of the history
    Profile early;
    int half = base.ops.empty() ? 0 : base.ops[base.ops.size() / 2].id;
    for (auto &pt : prof.points) if ((int)pt.op <= half) early.points.push_back(pt);
    add_faults(lane, r, early, out, (int)r.range(1, 5));
    return;
  }
  add_faults(lane, r, prof, out, r.chance(2, 3) ? 1 : (int)r.range(2, 3));
  if (r.chance(1, 4) && lane != "residue") out.set("fill", fills[r.below(6)]);
}
} // namespace sim
