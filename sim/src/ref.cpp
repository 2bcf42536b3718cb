#include "ref.h"
#include <cmath>
#include <cstring>
namespace ref {
const char *const alg_name[NALG] = {"md5", "sha1", "sha224", "sha256", "sha512"};
const unsigned digest_size[NALG] = {16, 20, 28, 32, 64};
const unsigned block_size[NALG] = {64, 64, 64, 64, 128};
int alg_by_name(const std::string &s) {
  for (int i = 0; i < NALG; i++)
    if (s == alg_name[i]) return i;
  return -1;
}
// The round constants are derived, not copied: MD5's from the sine function,
// SHA-2's from cube roots of primes in exact integer arithmetic.
static uint32_t K5[64], K256[64];
static uint64_t K512[80];
static uint64_t H512[8];
static bool made = false;
static unsigned __int128 isqrt_frac(unsigned p) { // floor(sqrt(p) * 2^64) by binary search
  typedef unsigned __int128 u;
  u lo = 0, hi = ((u)1 << 70);
  auto le = [&](u x) { // x*x <= p * 2^128 , compared in two limbs
    uint64_t xl = (uint64_t)x, xh = (uint64_t)(x >> 64);
    u ll = (u)xl * xl, lh = (u)xl * xh, hh = (u)xh * xh;
    u carry = (ll >> 64) + (lh << 1 & ((((u)1) << 64) - 1));
    u top = hh + (lh >> 63) + (carry >> 64);
    uint64_t midlow = (uint64_t)carry, low = (uint64_t)ll;
    if (top < p) return true;
    if (top > p) return false;
    return midlow == 0 && low == 0;
  };
  while (hi - lo > 1) {
    u mid = lo + (hi - lo) / 2;
    if (le(mid)) lo = mid; else hi = mid;
  }
  return lo;
}
static uint64_t icbrt_frac(unsigned p) { // fractional part of cbrt(p), 64 bits, by bitwise search in long arithmetic
  // x = floor(cbrt(p) * 2^64); x < 2^67; x^3 < 2^201: use four 64-bit limbs.
  typedef unsigned __int128 u;
  u lo = 0, hi = ((u)1 << 68);
  auto le = [&](u x) {
    uint64_t a[2] = {(uint64_t)x, (uint64_t)(x >> 64)};
    uint64_t sq[4] = {0}, cu[6] = {0};
    for (int i = 0; i < 2; i++) { u c = 0; for (int j = 0; j < 2; j++) { c += (u)a[i] * a[j] + sq[i + j]; sq[i + j] = (uint64_t)c; c >>= 64; } sq[i + 2] += (uint64_t)c; }
    for (int i = 0; i < 4; i++) { u c = 0; for (int j = 0; j < 2; j++) { c += (u)sq[i] * a[j] + cu[i + j]; cu[i + j] = (uint64_t)c; c >>= 64; } cu[i + 2] += (uint64_t)c; }
    // compare cu with p * 2^192
    if (cu[5] || cu[4]) return false;
    if (cu[3] != p) return cu[3] < p;
    return cu[2] == 0 && cu[1] == 0 && cu[0] == 0;
  };
  while (hi - lo > 1) {
    u mid = lo + (hi - lo) / 2;
    if (le(mid)) lo = mid; else hi = mid;
  }
  return (uint64_t)lo;
}
static void make() {
  if (made) return;
  for (int i = 0; i < 64; i++) K5[i] = (uint32_t)(int64_t)floorl(fabsl(sinl((long double)(i + 1))) * 4294967296.0L);
  int n = 0;
  for (unsigned p = 2; n < 80; p++) {
    bool prime = true;
    for (unsigned d = 2; d * d <= p; d++) if (p % d == 0) prime = false;
    if (!prime) continue;
    K512[n] = icbrt_frac(p);
    if (n < 64) K256[n] = (uint32_t)(K512[n] >> 32);
    if (n < 8) H512[n] = (uint64_t)isqrt_frac(p);
    n++;
  }
  made = true;
}
static const uint64_t H224[8] = {0xc1059ed8, 0x367cd507, 0x3070dd17, 0xf70e5939, 0xffc00b31, 0x68581511, 0x64f98fa7, 0xbefa4fa4};
void Ctx::init(int a) {
  make();
  alg = a; total = 0; fill = 0;
  memset(buf, 0, sizeof buf);
  memset(h, 0, sizeof h);
  switch (a) {
  case MD5: h[0] = 0x67452301; h[1] = 0xefcdab89; h[2] = 0x98badcfe; h[3] = 0x10325476; break;
  case SHA1: h[0] = 0x67452301; h[1] = 0xefcdab89; h[2] = 0x98badcfe; h[3] = 0x10325476; h[4] = 0xc3d2e1f0; break;
  case SHA224: for (int i = 0; i < 8; i++) h[i] = H224[i]; break;
  case SHA256: for (int i = 0; i < 8; i++) h[i] = H512[i] >> 32; break;
  case SHA512: for (int i = 0; i < 8; i++) h[i] = H512[i]; break;
  }
}
static inline uint32_t rl(uint32_t x, int n) { return (x << n) | (x >> (32 - n)); }
static inline uint32_t rr(uint32_t x, int n) { return (x >> n) | (x << (32 - n)); }
static inline uint64_t rr64(uint64_t x, int n) { return (x >> n) | (x << (64 - n)); }
void Ctx::block(const uint8_t *p) {
  if (alg == MD5) {
    static const int S[4][4] = {{7, 12, 17, 22}, {5, 9, 14, 20}, {4, 11, 16, 23}, {6, 10, 15, 21}};
    uint32_t x[16], a = h[0], b = h[1], c = h[2], d = h[3];
    for (int i = 0; i < 16; i++) x[i] = p[4 * i] | p[4 * i + 1] << 8 | p[4 * i + 2] << 16 | (uint32_t)p[4 * i + 3] << 24;
    for (int i = 0; i < 64; i++) {
      uint32_t f; int g;
      switch (i / 16) {
      case 0: f = (b & c) | (~b & d); g = i; break;
      case 1: f = (d & b) | (~d & c); g = (5 * i + 1) % 16; break;
      case 2: f = b ^ c ^ d; g = (3 * i + 5) % 16; break;
      default: f = c ^ (b | ~d); g = (7 * i) % 16;
      }
      uint32_t t = d; d = c; c = b;
      b = b + rl(a + f + K5[i] + x[g], S[i / 16][i % 4]);
      a = t;
    }
    h[0] = (uint32_t)(h[0] + a); h[1] = (uint32_t)(h[1] + b); h[2] = (uint32_t)(h[2] + c); h[3] = (uint32_t)(h[3] + d);
  } else if (alg == SHA1) {
    uint32_t w[80];
    for (int i = 0; i < 16; i++) w[i] = (uint32_t)p[4 * i] << 24 | p[4 * i + 1] << 16 | p[4 * i + 2] << 8 | p[4 * i + 3];
    for (int i = 16; i < 80; i++) w[i] = rl(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
    uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
    for (int i = 0; i < 80; i++) {
      uint32_t f, k;
      if (i < 20) { f = (b & c) ^ (~b & d); k = 0x5a827999; }
      else if (i < 40) { f = b ^ c ^ d; k = 0x6ed9eba1; }
      else if (i < 60) { f = (b & c) ^ (b & d) ^ (c & d); k = 0x8f1bbcdc; }
      else { f = b ^ c ^ d; k = 0xca62c1d6; }
      uint32_t t = rl(a, 5) + f + e + k + w[i];
      e = d; d = c; c = rl(b, 30); b = a; a = t;
    }
    uint32_t v[5] = {a, b, c, d, e};
    for (int i = 0; i < 5; i++) h[i] = (uint32_t)(h[i] + v[i]);
  } else if (alg == SHA512) {
    uint64_t w[80], v[8];
    for (int i = 0; i < 16; i++) { w[i] = 0; for (int j = 0; j < 8; j++) w[i] = w[i] << 8 | p[8 * i + j]; }
    for (int i = 16; i < 80; i++) {
      uint64_t s0 = rr64(w[i - 15], 1) ^ rr64(w[i - 15], 8) ^ (w[i - 15] >> 7);
      uint64_t s1 = rr64(w[i - 2], 19) ^ rr64(w[i - 2], 61) ^ (w[i - 2] >> 6);
      w[i] = w[i - 16] + s0 + w[i - 7] + s1;
    }
    for (int i = 0; i < 8; i++) v[i] = h[i];
    for (int i = 0; i < 80; i++) {
      uint64_t S1 = rr64(v[4], 14) ^ rr64(v[4], 18) ^ rr64(v[4], 41), ch = (v[4] & v[5]) ^ (~v[4] & v[6]);
      uint64_t t1 = v[7] + S1 + ch + K512[i] + w[i];
      uint64_t S0 = rr64(v[0], 28) ^ rr64(v[0], 34) ^ rr64(v[0], 39), mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
      uint64_t t2 = S0 + mj;
      v[7] = v[6]; v[6] = v[5]; v[5] = v[4]; v[4] = v[3] + t1; v[3] = v[2]; v[2] = v[1]; v[1] = v[0]; v[0] = t1 + t2;
    }
    for (int i = 0; i < 8; i++) h[i] += v[i];
  } else {
    uint32_t w[64], v[8];
    for (int i = 0; i < 16; i++) w[i] = (uint32_t)p[4 * i] << 24 | p[4 * i + 1] << 16 | p[4 * i + 2] << 8 | p[4 * i + 3];
    for (int i = 16; i < 64; i++) {
      uint32_t s0 = rr(w[i - 15], 7) ^ rr(w[i - 15], 18) ^ (w[i - 15] >> 3);
      uint32_t s1 = rr(w[i - 2], 17) ^ rr(w[i - 2], 19) ^ (w[i - 2] >> 10);
      w[i] = w[i - 16] + s0 + w[i - 7] + s1;
    }
    for (int i = 0; i < 8; i++) v[i] = (uint32_t)h[i];
    for (int i = 0; i < 64; i++) {
      uint32_t S1 = rr(v[4], 6) ^ rr(v[4], 11) ^ rr(v[4], 25), ch = (v[4] & v[5]) ^ (~v[4] & v[6]);
      uint32_t t1 = v[7] + S1 + ch + K256[i] + w[i];
      uint32_t S0 = rr(v[0], 2) ^ rr(v[0], 13) ^ rr(v[0], 22), mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
      uint32_t t2 = S0 + mj;
      v[7] = v[6]; v[6] = v[5]; v[5] = v[4]; v[4] = v[3] + t1; v[3] = v[2]; v[2] = v[1]; v[1] = v[0]; v[0] = t1 + t2;
    }
    for (int i = 0; i < 8; i++) h[i] = (uint32_t)(h[i] + v[i]);
  }
}
void Ctx::update(const void *data, size_t n) {
  const uint8_t *p = (const uint8_t *)data;
  unsigned bs = block_size[alg];
  total += n;
  while (n) {
    if (fill == 0 && n >= bs) { block(p); p += bs; n -= bs; continue; }
    size_t k = bs - fill < n ? bs - fill : n;
    memcpy(buf + fill, p, k);
    fill += k; p += k; n -= k;
    if (fill == bs) { block(buf); fill = 0; }
  }
}
std::vector<uint8_t> Ctx::final() const {
  Ctx c = *this;
  unsigned bs = block_size[alg], ls = bs / 8;
  uint8_t pad[256];
  memset(pad, 0, sizeof pad);
  pad[0] = 0x80;
  unsigned pl = c.fill < bs - ls ? bs - ls - c.fill : 2 * bs - ls - c.fill;
  unsigned __int128 bits = c.total * 8;
  uint8_t len[16];
  for (unsigned i = 0; i < ls; i++) {
    if (alg == MD5) len[i] = (uint8_t)(bits >> (8 * i));
    else len[ls - 1 - i] = (uint8_t)(bits >> (8 * i));
  }
  c.update(pad, pl);
  c.update(len, ls);
  std::vector<uint8_t> out;
  unsigned word = alg == SHA512 ? 8 : 4;
  for (unsigned i = 0; i < digest_size[alg]; i++) {
    uint64_t w = c.h[i / word];
    unsigned b = i % word;
    out.push_back((uint8_t)(alg == MD5 ? w >> (8 * b) : w >> (8 * (word - 1 - b))));
  }
  return out;
}
std::vector<uint8_t> digest(int alg, const void *d, size_t n) {
  Ctx c;
  c.init(alg);
  c.update(d, n);
  return c.final();
}
std::vector<uint8_t> hmac(int alg, const void *key, size_t kn, const void *data, size_t n) {
  std::vector<uint8_t> k((const uint8_t *)key, (const uint8_t *)key + kn);
  if (k.size() > block_size[alg]) k = digest(alg, k.data(), k.size());
  k.resize(block_size[alg], 0);
  std::vector<uint8_t> i(k), o(k);
  for (auto &b : i) b ^= 0x36;
  for (auto &b : o) b ^= 0x5c;
  Ctx c;
  c.init(alg);
  c.update(i.data(), i.size());
  c.update(data, n);
  auto in = c.final();
  c.init(alg);
  c.update(o.data(), o.size());
  c.update(in.data(), in.size());
  return c.final();
}
std::string hex(const std::vector<uint8_t> &v) {
  static const char d[] = "0123456789abcdef";
  std::string s;
  for (uint8_t b : v) { s += d[b >> 4]; s += d[b & 15]; }
  return s;
}
bool selftest() {
  static const char *want[NALG] = {
      "900150983cd24fb0d6963f7d28e17f72", "a9993e364706816aba3e25717850c26c9cd0d89d",
      "23097d223405d8228642a477bda255b32aadbce4bda0b3f7e36c9da7",
      "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad",
      "ddaf35a193617abacc417349ae20413112e6fa4e89a97ea20a9eeee64b55d39a2192992a274fc1a836ba3c23a3feebbd454d4423643ce80e2a9ac94fa54ca49f"};
  for (int a = 0; a < NALG; a++)
    if (hex(digest(a, "abc", 3)) != want[a]) return false;
  return true;
}
} // namespace ref
