// Independent reference digests (written from RFC 1321 and FIPS 180-4, not from
// libhmac). Cross-checked against OpenSSL and Python's hashlib by selftest.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>
namespace ref {
enum Alg { MD5 = 0, SHA1, SHA224, SHA256, SHA512, NALG };
extern const char *const alg_name[NALG];
extern const unsigned digest_size[NALG];
extern const unsigned block_size[NALG];
int alg_by_name(const std::string &s);
struct Ctx {
  int alg = 0;
  uint64_t h[8];
  unsigned __int128 total = 0;
  uint8_t buf[128];
  unsigned fill = 0;
  void init(int alg);
  void update(const void *data, size_t n);
  std::vector<uint8_t> final() const; // does not change the context
private:
  void block(const uint8_t *p);
};
std::vector<uint8_t> digest(int alg, const void *data, size_t n);
std::vector<uint8_t> hmac(int alg, const void *key, size_t kn, const void *data, size_t n);
std::string hex(const std::vector<uint8_t> &v);
bool selftest();
} // namespace ref
