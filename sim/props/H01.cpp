// VARIANT: asan
// Image files: what was stored is what is loaded; damage and I/O errors are reported.
#include "images.h"
#include "streams.h"
#include "world.h"
#include <cmath>
#include <zlib.h>
#include <stdexcept>
using namespace sim;
using namespace Conv;

enum { FMT_PNG, FMT_JPG, FMT_TENSOR, FMT_OTHER };
// steps: put fmt seed damage dseed file (a file made by the harness) | load file | write fmt seed file | crash faults end the life
static const int NF = 4;
static const char* suffix(int fmt, uint64_t s) { static const char* n[4][4] = {{".png", ".PNG", ".png", ".png"}, {".jpg", ".jpeg", ".JPG", ".JPEG"}, {".Tensor", ".Tensor", ".Tensor", ".Tensor"}, {".bmp", "", ".tensors", ".p"}}; return n[fmt][s % 4]; }
static void gen(Rng& r, int tier, uint64_t, Plan& p) {
  p.env["fill"] = (long long)r.below(5);
  p.env["chunk"] = r.chance(1, 4) ? (long long)r.range(1, 100) : 0;
  for (int n = (int)r.range(1, tier ? 16 : 8); n > 0; n--) {
    long long f = (long long)r.below(NF), fmt = r.chance(1, 15) ? FMT_OTHER : (long long)r.below(3);
    if (r.chance(1, 2)) { p.add("put", {fmt, (long long)r.below(1 << 30), r.chance(1, 2) ? 0 : (long long)r.range(1, 6), (long long)r.below(1 << 30), f}); p.add("load", {f}); }
    else { p.add("write", {fmt, (long long)r.below(1 << 30), f}); if (r.chance(2, 3)) p.add("load", {f}); }
  }
  if (r.chance(2, 5)) return;
  DryInfo d = dry_run(p);
  static const int kinds[] = {F_EIO_READ, F_EIO_READ, F_SHORT_READ, F_EINTR_READ, F_OPEN_FAIL, F_SEEK_FAIL, F_CLOSE_FAIL, F_CLOSE_FAIL, F_EIO_WRITE, F_EIO_WRITE, F_SHORT_WRITE, F_EINTR_WRITE, F_ENOSPC, F_ENOSPC, F_CRASH, F_CRASH_TORN};
  for (int i = (int)r.range(1, 3); i > 0; i--) p.add("fault", {0, kinds[r.below(sizeof kinds / sizeof *kinds)], r.range(1, (long long)d.io[0] + 1), (long long)r.below(4000)});
}
static Image random_pixels(Rng& q, unsigned c, int depth) {
  Image im; im.w = (unsigned)q.range(1, q.chance(1, 6) ? 70 : 16); im.h = (unsigned)q.range(1, q.chance(1, 6) ? 70 : 16); im.c = c; im.depth = depth; im.v.resize((size_t)im.w * im.h * c);
  int style = (int)q.below(3); uint16_t last = 0; for (auto& v : im.v) { if (style == 0 || q.chance(1, 8)) last = (uint16_t)q.below(1u << depth); v = last; } return im;
}
static void damage(std::string& b, int kind, Rng& q) {
  if (b.empty()) return;
  switch (kind) {
    case 1: b.resize(q.below(b.size())); break;
    case 2: b.resize(b.size() - std::min<size_t>(b.size(), (size_t)q.range(1, 24))); break;
    case 3: for (int i = (int)q.range(1, 3); i > 0; i--) b[q.below(b.size())] ^= (char)(1 << q.below(8)); break;
    case 4: { size_t at = q.below(b.size()); for (size_t i = at; i < b.size() && i < at + 20; i++) b[i] = (char)q.below(256); break; }
    case 5: { size_t at = q.below(std::min<size_t>(b.size(), 60)); b[at] = (char)q.below(256); break; }
    case 6: if (b.size() > 33 && b[1] == 'P' && b[2] == 'N') {   // a well-formed PNG header that announces a huge image
      static const uint32_t v[] = {0x10000, 0x8000, 40000, 65535, 1000000, 0x4000, 0x5556, 1, 3}; for (int k = 0; k < 2; k++) { uint32_t x = v[q.below(9)]; for (int i = 0; i < 4; i++) b[16 + 4 * k + i] = (char)(x >> (24 - 8 * i)); }
      if (q.chance(1, 2)) { Image im; im.w = 0x10000; im.h = 1; im.c = q.chance(1, 2) ? 1 : 4; im.v.assign(im.w * im.c, 7); b = png_encode(im, im.c == 1 ? 0 : 6, false, false, 9); uint32_t x = q.chance(1, 2) ? 0x10000 : 0x4000; for (int i = 0; i < 4; i++) b[20 + i] = (char)(x >> (24 - 8 * i)); }   // the first row is complete
      else if (q.chance(1, 2)) { static const char t[] = {0, 2, 4, 6}; b[25] = t[q.below(4)]; b[24] = q.chance(1, 2) ? 8 : 16; }
      uint32_t c = (uint32_t)crc32(0, (const Bytef*)b.data() + 12, 17); for (int i = 0; i < 4; i++) b[29 + i] = (char)(c >> (24 - 8 * i)); } break;
  }
}
struct Known { bool there = false; std::string name; int fmt = 0; std::string bytes; bool sure = false; };   // sure: bytes are what the file holds
static void exec(const Plan& p) {
  faults_from_plan(p); alloc_fill((int)p.get("fill"), 3); system_init();
  bool faulted = false, crash = false; for (auto& s : p.steps) if (s.op == "fault") { faulted = true; crash |= s.arg(1) == F_CRASH || s.arg(1) == F_CRASH_TORN; }
  if (p.get("chunk")) io_chunk((uint64_t)p.get("chunk"), (int)p.get("chunk"));
  g_sh->life = 0;
  LifeResult r = run_life([&] {
    Known k[NF]; int step = 0;
    for (auto& s : p.steps) {
      step++; where("step %d %s", step, s.op.c_str());
      if (s.op == "put") {
        Known& f = k[s.arg(4) % NF]; Rng q((uint64_t)s.arg(1)); f.fmt = (int)s.arg(0); f.name = strf("i%lld%s", s.arg(4), suffix(f.fmt, (uint64_t)s.arg(1)));
        if (f.fmt == FMT_PNG || f.fmt == FMT_OTHER) { static const int types[] = {0, 2, 4, 6, 2, 0, 3}; int t = types[q.below(7)]; int depth = q.chance(1, 3) ? 16 : 8; if (t == 3) depth = 2; else if (t == 0 && q.chance(1, 6)) depth = 1 << q.below(3); static const unsigned ch[] = {1, 0, 3, 1, 2, 0, 4};
          Image im = random_pixels(q, ch[t], depth); f.bytes = png_encode(im, t, q.chance(1, 4), q.chance(1, 4), (int)q.below(10)); }
        else if (f.fmt == FMT_JPG) { Image im = random_pixels(q, q.chance(1, 3) ? 1 : 3, 8); f.bytes = jpg_encode(im, (int)q.range(20, 100), q.chance(1, 4)); }
        else { HT t((uint64_t)q.range(1, 2), (uint64_t)q.range(1, 12), (uint64_t)q.range(1, 12), (uint64_t)q.range(1, 3)); for (auto& v : t.d) v = q.f(-1, 1); f.bytes = ht_encode(t); }
        SIM_CHECK(!f.bytes.empty(), "harness", "cannot generate an image");
        Rng d((uint64_t)s.arg(3)); damage(f.bytes, (int)s.arg(2), d); spit(f.name, f.bytes); f.there = f.sure = true; continue;
      }
      if (s.op == "load") {
        Known& f = k[s.arg(0) % NF]; if (!f.there || !f.sure) continue;
        unsigned before = faults_fired(); bool ok = true; Tensor* t = new Tensor(); 
        try { t->LoadFromFile(f.name); } catch (std::exception&) { ok = false; }
        bool hit = faults_fired() != before;
        // what the file holds
        bool intact = false, repaired = false; Image im; HT ht;
        if (f.fmt == FMT_PNG) { intact = png_decode(f.bytes, im); if (intact) { png_byte color = (png_byte)f.bytes[25], depth = (png_byte)f.bytes[24]; if (depth < 8 || (color & 1)) { intact = false; repaired = true; } } }
        else if (f.fmt == FMT_JPG) { bool dmg; intact = jpg_decode(f.bytes, im, dmg); repaired = intact && dmg; }
        else if (f.fmt == FMT_TENSOR) { uint64_t v[4], el; intact = f.bytes.size() >= 32 && (memcpy(v, f.bytes.data(), 32), ref_elements(v, el)) && (f.bytes.size() - 32) / 4 >= el; if (intact && el) { ht = HT(v[0], v[1], v[2], v[3]); memcpy(ht.d.data(), f.bytes.data() + 32, el * 4); } }
        if (ok) {
          SIM_CHECK(intact, "damage-accepted", "step %d: %s (%zu bytes) was loaded as %zux%zux%zu although it is damaged or unsupported", step, f.name.c_str(), f.bytes.size(), (size_t)t->width(), (size_t)t->height(), (size_t)t->maps());
          if (f.fmt == FMT_TENSOR) { SIM_CHECK(t->elements() == ht.d.size() && (ht.d.empty() || (t->width() == ht.w && t->height() == ht.h && t->maps() == ht.m && !memcmp(t->data_ptr_const(), ht.d.data(), ht.d.size() * 4))), "wrong-data", "step %d: tensor loaded from %s differs", step, f.name.c_str()); }
          else {
            SIM_CHECK(t->samples() == 1 && t->width() == im.w && t->height() == im.h && t->maps() == im.c, "wrong-shape", "step %d: %s is a %ux%ux%u image, loaded as %zux%zux%zu", step, f.name.c_str(), im.w, im.h, im.c, (size_t)t->width(), (size_t)t->height(), (size_t)t->maps());
            if (!repaired) for (unsigned y = 0; y < im.h; y++) for (unsigned x = 0; x < im.w; x++) for (unsigned c = 0; c < im.c; c++) { double want = im.at(x, y, c) / (im.depth == 16 ? 65535.0 : 255.0), got = *t->data_ptr_const(x, y, c, 0); SIM_CHECK(std::abs(got - want) < 1e-5, "wrong-data", "step %d: pixel (%u,%u) channel %u of %s is %g instead of %g", step, x, y, c, f.name.c_str(), got, want); }
          }
          count("probe.loaded"); ev("load", hash_bytes(t->data_ptr_const(), t->elements() * 4));
        } else { SIM_CHECK(hit || !intact || repaired, "intact-rejected", "step %d: intact %s (%zu bytes) was not loaded", step, f.name.c_str(), f.bytes.size()); count(hit ? "probe.load_fault_reported" : "probe.damage_reported"); }
        if (ok) delete t;
        sched_ev(mix(hash_bytes(f.bytes.data(), f.bytes.size()), ok)); continue;
      }
      if (s.op == "write") {
        Known& f = k[s.arg(2) % NF]; Rng q((uint64_t)s.arg(1)); f.fmt = (int)s.arg(0); f.name = strf("i%lld%s", s.arg(2), suffix(f.fmt, (uint64_t)s.arg(1))); f.there = true; f.sure = false;
        unsigned maps = q.chance(1, 12) ? (unsigned)q.range(1, 4) : 3; bool gray = f.fmt == FMT_JPG; int depth = 8; Image im = random_pixels(q, 3, depth); bool exact = q.chance(2, 3);
        Tensor t(1, im.w, im.h, maps); bool constant = gray && q.chance(1, 3);
        for (unsigned y = 0; y < im.h; y++) for (unsigned x = 0; x < im.w; x++) for (unsigned c = 0; c < maps; c++) { float v = exact ? DATUM_FROM_UCHAR(im.at(constant ? 0 : x, constant ? 0 : y, gray && !constant ? 0 : c % 3)) : q.f(0, 1); if (gray && !exact) v = constant || c == 0 ? (constant ? 0.1f + 0.2f * (float)c : v) : *t.data_ptr_const(x, y, 0); *t.data_ptr(x, y, c) = v; }
        unsigned before = faults_fired(); bool ok = true; HT copy(1, im.w, im.h, maps); memcpy(copy.d.data(), t.data_ptr_const(), copy.d.size() * 4);
        try { t.WriteToFile(f.name); } catch (std::exception&) { ok = false; }
        bool hit = faults_fired() != before || fault_fired(F_ENOSPC); bool can = f.fmt == FMT_TENSOR || ((f.fmt == FMT_PNG || f.fmt == FMT_JPG) && maps == 3);
        SIM_CHECK(!memcmp(copy.d.data(), t.data_ptr_const(), copy.d.size() * 4), "source-changed", "step %d: writing %s changed the tensor", step, f.name.c_str());
        if (!ok) { SIM_CHECK(hit || !can, "write-rejected", "step %d: writing a %ux%ux%u tensor to %s failed", step, im.w, im.h, maps, f.name.c_str()); count(hit ? "probe.write_fault_reported" : "probe.write_refused"); continue; }
        SIM_CHECK(can, "write-accepted", "step %d: writing a tensor of %u maps to %s reported success", step, maps, f.name.c_str());
        f.bytes = slurp(f.name); f.sure = true; Image back; bool dmg = false;
        if (f.fmt == FMT_TENSOR) SIM_CHECK(f.bytes == ht_encode(copy), "written-wrong", "step %d: %s does not hold the tensor", step, f.name.c_str());
        else {
          bool dec = f.fmt == FMT_PNG ? png_decode(f.bytes, back) : jpg_decode(f.bytes, back, dmg);
          SIM_CHECK(dec && !dmg && back.w == im.w && back.h == im.h && back.c == 3, "written-wrong", "step %d: %s (%zu bytes) cannot be decoded as a %ux%u image although writing it was reported as success", step, f.name.c_str(), f.bytes.size(), im.w, im.h);
          for (unsigned y = 0; y < im.h; y++) for (unsigned x = 0; x < im.w; x++) for (unsigned c = 0; c < 3; c++) { double want = 255.0 * copy.at(x, y, c), got = back.at(x, y, c), tol = f.fmt == FMT_JPG ? 5 : exact ? 0.01 : 1.01;
            SIM_CHECK(std::abs(got - want) <= tol, "written-wrong", "step %d: pixel (%u,%u) channel %u of %s is %g, the tensor holds %g", step, x, y, c, f.name.c_str(), got, want); }
        }
        count("probe.written"); ev("write", hash_bytes(f.bytes.data(), f.bytes.size())); sched_ev(mix(hash_bytes(f.bytes.data(), f.bytes.size()), ok));
      }
    }
    return 0; }, "", true);
  io_chunk(0, 0);
  SIM_CHECK(!r.unsafe, "memory-error", "%s: %s %s", g_sh->where, r.ending().c_str(), r.report.substr(0, 1500).c_str());
  SIM_CHECK(!r.hung, "no-progress", "%s: did not end", g_sh->where);
  SIM_CHECK((r.exited && r.code == 0) || (r.crashed && crash), "bad-ending", "%s: process ended with %s", g_sh->where, r.ending().c_str());
  (void)faulted;
}
Property sim::g_property = {"H01", gen, exec,
  "non-trivial: at least one image was written or loaded (or rejected)",
  "hash over the contents and outcomes of all loads and writes and the faults that fired",
  {"PNGUtil", "JPGUtil", "Tensor::LoadFromFile/WriteToFile", "libpng", "libjpeg", "libstdc++ streams and stdio"}, {"disk (scratch directory behind an interposed libc)", "initial memory contents (seeded)"},
  {"libpng and libjpeg on memory buffers are the reference decoders; pixel values of damaged JPEGs that libjpeg repairs with a warning are not compared"}, {}, 6000, 300000, 45, 900};
