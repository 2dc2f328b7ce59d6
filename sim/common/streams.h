// Tensor streams on the simulated disk: reference encoders/decoders written from the format description.
#pragma once
#include "toy.h"
#include <cstring>
namespace sim {
// outcome of reading a stream file: the tensors before the end marker or the end, and whether the file is damaged
struct RefStream { bool damaged = false; std::vector<HT> t; std::vector<bool> bad; };   // bad: payload cannot be decoded
inline bool ref_header(const std::string& b, size_t at, int n, uint64_t* v) { if (b.size() - at < (size_t)n * 8) return false; memcpy(v, b.data() + at, (size_t)n * 8); return true; }
inline bool ref_elements(const uint64_t* v, uint64_t& el) {
  unsigned __int128 e = 1; bool zero = false;
  for (int i = 0; i < 4; i++) { if (v[i] == 0) zero = true; }
  uint64_t run = 1; for (int i = 0; i < 4; i++) { if (v[i] != 0 && run > (~0ull / 4) / v[i]) return false; run *= v[i]; }
  (void)e; (void)zero; el = run; return true;
}
inline RefStream ref_float_stream(const std::string& b, size_t at = 0) {
  RefStream r;
  while (at < b.size()) {
    uint64_t v[4], el; if (!ref_header(b, at, 4, v)) { r.damaged = true; return r; } at += 32;
    if (!ref_elements(v, el) || el > (b.size() - at) / 4) { r.damaged = true; return r; }
    if (el == 0) return r;
    HT t(v[0], v[1], v[2], v[3]); memcpy(t.d.data(), b.data() + at, el * 4); at += el * 4;
    r.t.push_back(t); r.bad.push_back(false);
  }
  return r;
}
static const uint64_t REF_CTS_MAGIC = 0xC24CC24CC24CC24Cull;
// decodes run-length data: X X = literal X, X Y n v v v v = n times the value, everything else literal
inline bool ref_decode(const std::string& c, size_t bytes, std::string& out) {
  out.clear();
  for (size_t i = 0; i < c.size();) {
    if (c[i] != 'X') { out += c[i++]; }
    else { if (i + 1 >= c.size()) return false;
      if (c[i + 1] == 'X') { out += 'X'; i += 2; }
      else if (c[i + 1] == 'Y') { if (c.size() - i < 7) return false; unsigned n = (unsigned char)c[i + 2]; for (unsigned k = 0; k < n; k++) out.append(c, i + 3, 4); i += 7; }
      else return false; }
    if (out.size() > bytes) return false;
  }
  return out.size() == bytes;
}
inline RefStream ref_compressed_stream(const std::string& b) {
  RefStream r; size_t at = 8; uint64_t m = 0;
  if (b.size() < 8 || (memcpy(&m, b.data(), 8), m != REF_CTS_MAGIC)) { r.damaged = true; return r; }
  while (at < b.size()) {
    uint64_t v[5], el; if (!ref_header(b, at, 5, v)) { r.damaged = true; return r; } at += 40;
    if (!ref_elements(v, el) || v[4] > b.size() - at) { r.damaged = true; return r; }
    if (el == 0 || v[4] == 0) return r;
    HT t; t.s = v[0]; t.w = v[1]; t.h = v[2]; t.m = v[3]; std::string o;
    bool ok = el <= (64u << 20) && ref_decode(b.substr(at, v[4]), el * 4, o);
    if (ok) { t.d.resize(el); memcpy(t.d.data(), o.data(), el * 4); }
    r.t.push_back(t); r.bad.push_back(!ok); at += v[4];
  }
  return r;
}
inline RefStream ref_stream(const std::string& b) { uint64_t m = 0; if (b.size() >= 8) memcpy(&m, b.data(), 8); return m == REF_CTS_MAGIC ? ref_compressed_stream(b) : ref_float_stream(b); }
} // namespace sim
