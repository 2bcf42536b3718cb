// Seam for the interface of OpenSSL before 1.1. No such library exists here, so
// the digests behind it are the simulator's reference ones (a stub).
#include "core.h"
#include "ref.h"
#include <map>
#include "hollow.h"
#include "../stubs/legacy/openssl/evp.h"
using namespace sim;
#define RA __builtin_return_address(0)
static const unsigned long MAGIC = 0x4556504d44435458ul;
struct sim_evp_md { int alg; };
static const sim_evp_md mds[5] = {{0}, {1}, {2}, {3}, {4}};
namespace sim {
static std::map<EVP_MD_CTX *, ref::Ctx *> open_ctx; // initialised for a digest, not yet cleaned up
size_t evp_live() { return open_ctx.size(); }
void evp_reset() { open_ctx.clear(); evp_hollow = false; hollows.clear(); }
void evp_warm() {}
static void need(EVP_MD_CTX *c, const char *what) {
  Quiet q;
  if (c->magic != MAGIC) fatal("bad-evp", what, "%s on an EVP context that was not set up with EVP_MD_CTX_init", what);
}
}
extern "C" {
void simw_EVP_MD_CTX_init(EVP_MD_CTX *c) { hook(c, sizeof *c, true, RA); memset(c, 0, sizeof *c); c->magic = MAGIC; }
int simw_EVP_MD_CTX_cleanup(EVP_MD_CTX *c) {
  step(RA);
  need(c, "EVP_MD_CTX_cleanup");
  open_ctx.erase(c);
  if (fault(F_EVP_CLEANUP)) return 0;
  memset(c, 0, sizeof *c);
  c->magic = MAGIC;
  return 1;
}
int simw_EVP_DigestInit_ex(EVP_MD_CTX *c, const EVP_MD *t, ENGINE *) {
  step(RA);
  need(c, "EVP_DigestInit_ex");
  if (fault(F_EVP_INIT)) return 0;
  Quiet q;
  auto *r = new ref::Ctx;
  r->init(t->alg);
  open_ctx[c] = r;
  if (evp_hollow) hollows[c].init(t->alg);
  c->digest = t;
  return 1;
}
int simw_EVP_DigestUpdate(EVP_MD_CTX *c, const void *d, size_t n) {
  hook(d, n, false, RA);
  step(RA);
  need(c, "EVP_DigestUpdate");
  if (fault(F_EVP_UPDATE)) return 0;
  auto it = open_ctx.find(c);
  if (it == open_ctx.end()) return 0;
  if (evp_hollow) hollows[c].update(d, n); else it->second->update(d, n);
  return 1;
}
int simw_EVP_DigestFinal_ex(EVP_MD_CTX *c, unsigned char *md, unsigned int *n) {
  step(RA);
  need(c, "EVP_DigestFinal_ex");
  if (fault(F_EVP_FINAL)) return 0;
  auto it = open_ctx.find(c);
  if (it == open_ctx.end()) return 0;
  auto v = evp_hollow ? hollows[c].final() : it->second->final();
  hook(md, v.size(), true, RA);
  memcpy(md, v.data(), v.size());
  if (n) *n = v.size();
  return 1;
}
const EVP_MD *simw_EVP_md5(void) { return (const EVP_MD *)&mds[0]; }
const EVP_MD *simw_EVP_sha1(void) { return (const EVP_MD *)&mds[1]; }
const EVP_MD *simw_EVP_sha224(void) { return (const EVP_MD *)&mds[2]; }
const EVP_MD *simw_EVP_sha256(void) { return (const EVP_MD *)&mds[3]; }
const EVP_MD *simw_EVP_sha512(void) { return (const EVP_MD *)&mds[4]; }
void simw_ERR_remove_thread_state(const void *) {}
}
