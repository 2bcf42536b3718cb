// A digest over a sample of the stream (the first 4096 bytes, every 1048573rd byte
// after them, and the length), standing in for the crypto library's digests when
// what is simulated is the passing on of very large sizes.
#pragma once
#include "ref.h"
#include <map>
struct Hollow {
  ref::Ctx c;
  uint64_t pos = 0;
  void init(int alg) { c.init(alg); pos = 0; }
  void update(const void *data, size_t n) {
    const uint8_t *p = (const uint8_t *)data;
    uint64_t at = pos, end = pos + n;
    if (at < 4096) { size_t k = (size_t)((end < 4096 ? end : 4096) - at); c.update(p, k); at += k; }
    if (at >= 4096)
      for (uint64_t q = (at + 1048572) / 1048573 * 1048573; q < end; q += 1048573) c.update(p + (q - pos), 1);
    pos = end;
  }
  std::vector<uint8_t> final() const { ref::Ctx d = c; d.update(&pos, 8); return d.final(); }
};
inline bool evp_hollow = false;
inline std::map<const void *, Hollow> hollows;
