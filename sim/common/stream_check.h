// Histories of reading a float (C01) or compressed (C02) tensor stream under damage and read faults.
#pragma once
#include "streams.h"
#include "world.h"
#include <cstring>
#include <sstream>
namespace sim {
using namespace Conv;
// contents of generated tensors
inline float stream_value(Rng& q, int style, float last) {
  auto bits = [](uint32_t u) { float f; memcpy(&f, &u, 4); return f; };
  switch (style) {
    case 0: return q.f(-1, 1);
    case 1: return q.chance(5, 6) ? last : (float)q.range(-3, 3);                 // runs
    case 2: return bits((uint32_t)q.u64());                                       // any bit pattern, including NaN
    case 3: { uint32_t u = 0; for (int b = 0; b < 4; b++) u = u << 8 | (q.chance(1, 2) ? 'X' : q.chance(1, 2) ? 'Y' : (uint32_t)q.below(256)); return q.chance(1, 2) ? last : bits(u); }   // bytes that look like codes
    case 4: return last;                                                          // one value
    case 5: return q.chance(1, 2) ? 0.f : -0.f;
    default: return q.chance(1, 3) ? last : q.chance(1, 2) ? 0.f : 1.f;
  }
}
inline HT stream_tensor(Rng& q, bool first_choice_runs) {
  int big = q.chance(1, 5);
  int w, h, m, s;
  if (big) { w = (int)q.range(20, 60); h = (int)q.range(1, 40); m = (int)q.range(1, 3); s = 1; }
  else if (q.chance(1, 3)) { static const int ws[] = {250, 251, 252, 253, 254, 255, 256, 257, 504, 505, 506, 507, 508}; w = ws[q.below(13)]; h = 1; m = 1; s = 1; }   // around the run limit
  else { w = (int)q.range(1, 9); h = (int)q.range(1, 9); m = (int)q.range(1, 3); s = q.chance(1, 4) ? (int)q.range(2, 3) : 1; }
  HT t((uint64_t)s, (uint64_t)w, (uint64_t)h, (uint64_t)m); int style = (int)q.below(7); if (first_choice_runs && q.chance(1, 2)) style = q.chance(1, 2) ? 1 : 4;
  float last = q.chance(1, 2) ? 0.f : q.f(-1, 1); for (auto& v : t.d) v = last = stream_value(q, style, last);
  return t;
}
enum { D_NONE, D_TRUNC, D_BOUNDARY, D_FLIP, D_HEADER, D_GARBAGE, D_APPEND, D_ZERO_DIM, D_HUGE_DIM, D_EMPTY, D_MISSING, D_KINDS };
inline void stream_damage(std::string& b, int kind, Rng& q, bool compressed, bool& missing) {
  const size_t head = compressed ? 40 : 32; size_t first = compressed ? 8 : 0;
  if (b.size() < first + head) return;
  // positions of the headers
  std::vector<size_t> hd; for (size_t at = first; at + head <= b.size();) { hd.push_back(at); uint64_t v[5]; memcpy(v, b.data() + at, head); at += head + (compressed ? v[4] : v[0] * v[1] * v[2] * v[3] * 4); }
  size_t H = hd[q.below(hd.size())];
  switch (kind) {
    case D_TRUNC: b.resize(q.below(b.size())); break;
    case D_BOUNDARY: { long long at = (long long)H + (q.chance(1, 2) ? 0 : (long long)head) + q.range(-3, 3); b.resize((size_t)std::max(0LL, std::min(at, (long long)b.size()))); break; }
    case D_FLIP: for (int i = (int)q.range(1, 4); i > 0; i--) b[q.below(b.size())] ^= (char)(1 << q.below(8)); break;
    case D_HEADER: b[H + q.below(head)] ^= (char)(1 << q.below(8)); break;
    case D_GARBAGE: { size_t at = q.below(b.size()); for (size_t i = at; i < b.size() && i < at + q.range(1, 60); i++) b[i] = q.chance(1, 3) ? 'X' : (char)q.below(256); break; }
    case D_APPEND: b += std::string((size_t)q.range(1, 60), (char)q.below(2)); break;
    case D_ZERO_DIM: memset(&b[H + 8 * q.below(head / 8)], 0, 8); break;
    case D_HUGE_DIM: { uint64_t v = q.chance(1, 2) ? ~0ull : 1ull << q.range(20, 63); memcpy(&b[H + 8 * q.below(head / 8)], &v, 8); if (q.chance(1, 2)) { v = 1ull << q.range(2, 40); memcpy(&b[H + 8 * q.below(head / 8)], &v, 8); } break; }
    case D_EMPTY: b.clear(); break;
    case D_MISSING: missing = true; break;
  }
}
// steps: damage kind seed | get src fit slot seed
inline void stream_gen(Rng& r, int tier, Plan& p) {
  p.env["data"] = (long long)r.below(1 << 30);
  p.env["n"] = (long long)r.range(1, tier ? 10 : 6);
  p.env["fill"] = (long long)r.below(5);
  p.env["chunk"] = r.chance(1, 3) ? (long long)r.range(1, 200) : 0;
  if (r.chance(2, 5)) p.add("damage", {(long long)r.range(1, D_KINDS - 1), (long long)r.below(1 << 30)});
  for (int n = (int)r.range(2, tier ? 40 : 16); n > 0; n--) p.add("get", {(long long)r.below(12), (long long)r.below(8), (long long)r.below(3), (long long)r.below(1 << 20)});
  if (r.chance(1, 2)) return;
  DryInfo d = dry_run(p);
  static const int kinds[] = {F_EIO_READ, F_EIO_READ, F_SHORT_READ, F_EINTR_READ, F_OPEN_FAIL, F_SEEK_FAIL, F_SEEK_FAIL, F_CLOSE_FAIL, F_MMAP_FAIL, F_MMAP_FAIL, F_MMAP_FAIL};
  for (int i = (int)r.range(1, 4); i > 0; i--) p.add("fault", {1, kinds[r.below(sizeof kinds / sizeof *kinds)], r.range(1, (long long)d.io[1] + 1), (long long)r.below(4000)});
}
// equal values: bit for bit, except that the compressed format does not keep the sign of zero
inline bool stream_same(float a, float b, bool compressed) { return !memcmp(&a, &b, 4) || (compressed && a == 0 && b == 0); }
inline void stream_exec(const Plan& p, bool compressed) {
  faults_from_plan(p); alloc_fill((int)p.get("fill"), 5);
  system_init();
  Rng q((uint64_t)p.get("data") * 31 + compressed);
  std::vector<HT> stored; for (int i = 0; i < std::max(1LL, std::min(p.get("n", 1), 16LL)); i++) stored.push_back(stream_tensor(q, compressed));
  where("writing"); g_sh->life = 0;
  LifeResult w = run_life([&] {
    std::ostringstream o; if (compressed) { uint64_t m = REF_CTS_MAGIC; o.write((const char*)&m, 8); }
    for (auto& t : stored) {
      Tensor c(t.s, t.w, t.h, t.m); memcpy(c.data_ptr(), t.d.data(), t.d.size() * 4);
      if (compressed) { CompressedTensor z; z.Compress(c); z.Serialize(o);
        SIM_CHECK(!memcmp(c.data_ptr(), t.d.data(), t.d.size() * 4), "source-changed", "compressing changed the tensor");
        Tensor back; z.Decompress(back, nullptr); SIM_CHECK(back.samples() == t.s && back.width() == t.w && back.height() == t.h && back.maps() == t.m, "shape-lost", "decompressing gives another shape");
        for (size_t i = 0; i < t.d.size(); i++) SIM_CHECK(stream_same(back.data_ptr_const()[i], t.d[i], true), "not-lossless", "element %zu of %zu is %.9g instead of %.9g after compressing and decompressing", i, t.d.size(), back.data_ptr_const()[i], t.d[i]);
      } else c.Serialize(o);
    }
    SIM_CHECK(o.good(), "write-failed", "serializing to memory failed"); spit("s.Tensor", o.str()); return 0; });
  SIM_CHECK(w.exited && w.code == 0, "write-failed", "writing ended with %s: %s", w.ending().c_str(), w.report.substr(0, 600).c_str());
  std::string b = slurp("s.Tensor");
  // the file holds what was stored, by the format's description
  RefStream f = ref_stream(b);
  SIM_CHECK(!f.damaged && f.t.size() == stored.size(), "file-wrong", "the file does not hold %zu tensors", stored.size());
  for (size_t i = 0; i < stored.size(); i++) { SIM_CHECK(!f.bad[i] && f.t[i].s == stored[i].s && f.t[i].w == stored[i].w && f.t[i].h == stored[i].h && f.t[i].m == stored[i].m, "file-wrong", "tensor %zu of the file has another shape or cannot be decoded", i);
    for (size_t k = 0; k < stored[i].d.size(); k++) SIM_CHECK(stream_same(f.t[i].d[k], stored[i].d[k], compressed), "file-wrong", "element %zu of tensor %zu of the file is %.9g instead of %.9g", k, i, f.t[i].d[k], stored[i].d[k]); }
  bool missing = false, altered = false;
  for (auto& s : p.steps) if (s.op == "damage") { Rng d((uint64_t)s.arg(1)); std::string o = b; stream_damage(b, (int)s.arg(0), d, compressed, missing); altered |= o != b; }
  if (missing) remove_file("s.Tensor"); else spit("s.Tensor", b);
  const RefStream ref = ref_stream(b);
  bool loud = false, faulty = false;   // a fault that may make the stream unreadable
  for (auto& s : p.steps) if (s.op == "fault") { int k = (int)s.arg(1); faulty |= k == F_EIO_READ || k == F_OPEN_FAIL || k == F_SEEK_FAIL; }
  where("reading"); g_sh->life = 1;
  if (p.get("chunk")) io_chunk((uint64_t)p.get("chunk"), (int)p.get("chunk"));
  std::string progress = scratch_dir() + "/.sim.progress"; spit(progress, "");
  LifeResult r = run_life([&] {
    TensorStream* s = TensorStream::FromFile("s.Tensor");
    SIM_CHECK(!missing && !ref.damaged, "damage-accepted", "a %s stream of %zu bytes was loaded with %u tensors; %zu tensors can be read before the damage", missing ? "missing" : "damaged", b.size(), s->GetTensorCount(), ref.t.size());
    SIM_CHECK(s->GetTensorCount() == ref.t.size(), "tensor-count", "stream has %u tensors instead of %zu", s->GetTensorCount(), ref.t.size());
    for (unsigned i = 0; i < ref.t.size() + 2; i++) { HT z; const HT& t = i < ref.t.size() ? ref.t[i] : z; SIM_CHECK(s->GetWidth(i) == t.w && s->GetHeight(i) == t.h && s->GetMaps(i) == t.m && s->GetSamples(i) == t.s, "tensor-shape", "tensor %u is reported as %zux%zux%zux%zu", i, s->GetSamples(i), s->GetWidth(i), s->GetHeight(i), s->GetMaps(i)); }
    spit(progress, "loaded"); count("probe.loads");
    int n = 0; bool fresh = true;
    for (auto& st : p.steps) if (st.op == "get") {
      n++; Rng q2((uint64_t)st.arg(3)); unsigned src = (unsigned)(st.arg(0) % (long long)(ref.t.size() + 1)); const int slots = 3, slot = (int)st.arg(2);
      HT none(1, 2, 2, 1); const HT& t = src < ref.t.size() ? ref.t[src] : none;
      if ((unsigned __int128)t.w * t.h * t.m > (1u << 22) || t.w > (1u << 20) || t.h > (1u << 20)) continue;
      size_t tw = t.w, th = t.h, tm = t.m, sample = q2.below(t.s); bool fits = src < ref.t.size(); int n_slots = slots;
      switch (st.arg(1)) {
        case 0: case 1: break;
        case 2: tw += q2.range(1, 5); break;
        case 3: th += q2.range(1, 5); break;
        case 4: tw += q2.range(0, 5); th += q2.range(0, 5); break;
        case 5: if (q2.chance(1, 2)) tm++; else if (tm > 1) tm--; else tm = 2; fits = false; break;
        case 6: if (tw > 1) { tw--; fits = false; } break;
        case 7: sample += t.s; fits = false; break;
      }
      // the compressed stream decodes straight into targets of its own size, whatever the number of slots
      Tensor target((size_t)n_slots, tw, th, tm); const size_t per = tw * th * tm; for (size_t i = 0; i < per * n_slots; i++) target.data_ptr()[i] = 7.f + (float)(i % 5);
      bool ok = s->CopySample(src, sample, target, (size_t)slot);
      if (src < ref.t.size() && ref.bad[src]) SIM_FAIL("damage-accepted", "read %d: tensor %u cannot be decoded, but CopySample returned %d", n, src, ok);
      SIM_CHECK(ok == fits, fits ? "intact-rejected" : "mismatch-accepted", "read %d: CopySample of tensor %u (%llux%llux%llu, sample %zu of %llu) into %zux%zux%zu returned %d", n, src, (unsigned long long)t.w, (unsigned long long)t.h, (unsigned long long)t.m, sample, (unsigned long long)t.s, tw, th, tm, ok);
      for (int k = 0; k < n_slots; k++) for (size_t m = 0; m < tm; m++) for (size_t y = 0; y < th; y++) for (size_t x = 0; x < tw; x++) {
        float got = *target.data_ptr_const(x, y, m, (size_t)k);
        if (k != slot) { size_t i = ((k * tm + m) * th + y) * tw + x; SIM_CHECK(got == 7.f + (float)(i % 5), "other-slot", "read %d: copying to slot %d changed slot %d", n, slot, k); }
        else if (ok) { float want = x < t.w && y < t.h ? t.at(x, y, m, sample) : 0.f; SIM_CHECK(stream_same(got, want, compressed), "wrong-data", "read %d: tensor %u sample %zu map %zu pixel (%zu,%zu) is %.9g instead of %.9g%s", n, src, sample, m, x, y, got, want, fresh ? "" : " (after earlier reads)"); }
      }
      if (ok) { count("probe.reads"); ev("read", src, (uint64_t)slot, hash_bytes(target.data_ptr_const(), per * 4)); }
      fresh = false; sched_ev(mix(src, (uint64_t)st.arg(1)));
    }
    if (auto* c = dynamic_cast<CompressedTensorStream*>(s)) delete c; else if (auto* fl = dynamic_cast<FloatTensorStream*>(s)) delete fl;
    return 0; });
  io_chunk(0, 0);
  const bool was_loaded = slurp(progress) == "loaded"; bool any_bad = false; for (bool x : ref.bad) any_bad |= x;
  SIM_CHECK(!r.unsafe, "memory-error", "reading the stream: %s %s", r.ending().c_str(), r.report.substr(0, 1500).c_str());
  SIM_CHECK(!r.hung, "no-progress", "reading the stream did not end");
  loud = !(r.exited && r.code == 0);
  SIM_CHECK(!loud || r.threw, "bad-ending", "reading ended with %s", r.ending().c_str());
  SIM_CHECK(!loud || missing || ref.damaged || any_bad || faulty, "intact-rejected", "an intact stream was rejected: %s %s", r.ending().c_str(), r.out.substr(r.out.size() > 500 ? r.out.size() - 500 : 0).c_str());
  SIM_CHECK(!(loud && was_loaded && !any_bad), "intact-rejected", "reading a loaded stream failed: %s %s", r.ending().c_str(), r.out.substr(r.out.size() > 500 ? r.out.size() - 500 : 0).c_str());
  count(loud ? "probe.rejected" : altered ? "probe.altered_accepted" : "probe.accepted"); sched_ev(loud); ev("end", loud, was_loaded);
}
} // namespace sim
