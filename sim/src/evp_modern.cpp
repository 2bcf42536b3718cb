// Seam between libhmac and OpenSSL 1.1/3: real libcrypto behind fault points.
#include "core.h"
#define OPENSSL_SUPPRESS_DEPRECATED
#include <openssl/evp.h>
#include <openssl/md5.h>
#include <openssl/sha.h>
#include <map>
#include "hollow.h"
using namespace sim;
#define RA __builtin_return_address(0)
namespace sim {
struct EvpState { bool live; bool inited; int op; };
static std::map<EVP_MD_CTX *, EvpState> ctxs;
size_t evp_live() { size_t n = 0; for (auto &e : ctxs) n += e.second.live; return n; }
void evp_reset() { ctxs.clear(); evp_hollow = false; hollows.clear(); }
static int alg_of(const EVP_MD *t) {
  switch (EVP_MD_get_type(t)) { case NID_md5: return 0; case NID_sha1: return 1; case NID_sha224: return 2; case NID_sha256: return 3; default: return 4; }
}
void evp_warm() {
  const EVP_MD *m[] = {EVP_md5(), EVP_sha1(), EVP_sha224(), EVP_sha256(), EVP_sha512()};
  unsigned char o[64]; unsigned l;
  for (auto x : m) EVP_Digest("x", 1, o, &l, x, nullptr);
}
static void need_live(EVP_MD_CTX *c, const char *what) {
  auto it = ctxs.find(c);
  if (it == ctxs.end()) fatal("bad-evp", what, "%s on something that is not an EVP context", what);
  if (!it->second.live) fatal("use-after-free", what, "%s on a freed EVP context", what);
}
}
extern "C" {
EVP_MD_CTX *simw_EVP_MD_CTX_new(void) {
  step(RA);
  if (fault(F_EVP_NEW)) return nullptr;
  Quiet q;
  EVP_MD_CTX *c = EVP_MD_CTX_new();
  ctxs[c] = {true, false, cur->opid};
  return c;
}
void simw_EVP_MD_CTX_free(EVP_MD_CTX *c) {
  step(RA);
  Quiet q;
  if (!c) return;
  auto it = ctxs.find(c);
  if (it == ctxs.end()) fatal("bad-evp", "free", "EVP_MD_CTX_free of something that is not an EVP context");
  if (!it->second.live) fatal("double-free", "evp", "second EVP_MD_CTX_free of a context");
  it->second.live = false; // never handed back, so that any later use is seen
}
int simw_EVP_DigestInit_ex2(EVP_MD_CTX *c, const EVP_MD *t, const OSSL_PARAM *p) {
  step(RA);
  { Quiet q; need_live(c, "EVP_DigestInit"); }
  if (fault(F_EVP_INIT)) return 0;
  Quiet q;
  ctxs[c].inited = true;
  if (evp_hollow) hollows[c].init(alg_of(t));
  return EVP_DigestInit_ex2(c, t, p);
}
int simw_EVP_DigestInit_ex(EVP_MD_CTX *c, const EVP_MD *t, ENGINE *e) {
  step(RA);
  { Quiet q; need_live(c, "EVP_DigestInit"); }
  if (fault(F_EVP_INIT)) return 0;
  Quiet q;
  ctxs[c].inited = true;
  if (evp_hollow) hollows[c].init(alg_of(t));
  return EVP_DigestInit_ex(c, t, e);
}
int simw_EVP_DigestInit(EVP_MD_CTX *c, const EVP_MD *t) { return simw_EVP_DigestInit_ex(c, t, nullptr); }
int simw_EVP_DigestUpdate(EVP_MD_CTX *c, const void *d, size_t n) {
  hook(d, n, false, RA);
  step(RA);
  { Quiet q; need_live(c, "EVP_DigestUpdate"); }
  if (fault(F_EVP_UPDATE)) return 0;
  if (evp_hollow) { Quiet q; hollows[c].update(d, n); return 1; }
  return EVP_DigestUpdate(c, d, n);
}
int simw_EVP_DigestFinal_ex(EVP_MD_CTX *c, unsigned char *md, unsigned int *n) {
  step(RA);
  { Quiet q; need_live(c, "EVP_DigestFinal"); }
  if (fault(F_EVP_FINAL)) return 0;
  const EVP_MD *m = EVP_MD_CTX_get0_md(c);
  if (m) hook(md, EVP_MD_get_size(m), true, RA);
  if (evp_hollow) { Quiet q; auto v = hollows[c].final(); memcpy(md, v.data(), v.size()); if (n) *n = (unsigned)v.size(); return 1; }
  return EVP_DigestFinal_ex(c, md, n);
}
int simw_EVP_DigestFinal(EVP_MD_CTX *c, unsigned char *md, unsigned int *n) { return simw_EVP_DigestFinal_ex(c, md, n); }
int simw_EVP_MD_CTX_reset(EVP_MD_CTX *c) { Quiet q; need_live(c, "EVP_MD_CTX_reset"); return EVP_MD_CTX_reset(c); }
// low level interface
#define LOW(ALG, NAME, CTX)                                                                                                           \
  int simw_##NAME##_Init(CTX *c) { hook(c, sizeof *c, true, RA); if (fault(F_EVP_INIT)) return 0; if (evp_hollow) { Quiet q; hollows[c].init(ALG); } return NAME##_Init(c); }       \
  int simw_##NAME##_Update(CTX *c, const void *d, size_t n) { hook(d, n, false, RA); hook(c, sizeof *c, true, RA); if (fault(F_EVP_UPDATE)) return 0; if (evp_hollow) { Quiet q; hollows[c].update(d, n); return 1; } return NAME##_Update(c, d, n); } \
  int simw_##NAME##_Final(unsigned char *md, CTX *c) { hook(c, sizeof *c, true, RA); if (fault(F_EVP_FINAL)) return 0; if (evp_hollow) { Quiet q; auto v = hollows[c].final(); memcpy(md, v.data(), v.size()); return 1; } return NAME##_Final(md, c); }
LOW(0, MD5, MD5_CTX) LOW(1, SHA1, SHA_CTX) LOW(2, SHA224, SHA256_CTX) LOW(3, SHA256, SHA256_CTX) LOW(4, SHA512, SHA512_CTX)
}
