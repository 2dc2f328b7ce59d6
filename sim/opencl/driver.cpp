// One computation with every buffer of it recorded, built once per configuration of cn24 (CPU, OpenCL, OpenCL with clBLAS).
#include "compute.h"
#include "seam_opencl.h"
namespace sim { inline namespace SIM_NS {
#ifdef BUILD_OPENCL
// what a tensor holds, without moving it
static std::vector<float> peek(const Conv::Tensor& t) { std::vector<float> v; if (t.cl_gpu_) { if (!cl_peek(t.cl_data_ptr_, v)) SIM_FAIL("device-buffer", "a tensor is on a device buffer that does not exist"); v.resize(t.elements()); count("probe.buffers_on_device"); return v; } v.assign(t.data_ptr_const(), t.data_ptr_const() + t.elements()); return v; }
static void to_cpu(Conv::Tensor& t) { t.MoveToCPU(); }
#else
static std::vector<float> peek(const Conv::Tensor& t) { return std::vector<float>(t.data_ptr_const(), t.data_ptr_const() + t.elements()); }
static void to_cpu(Conv::Tensor&) {}
#endif
static void record(Snap& s, Conv::NetGraph& g, const std::vector<std::string>& names, const std::vector<Conv::NetGraphNode*>& nodes, const char* at, bool forward_only) {
  for (size_t i = 0; i < nodes.size(); i++) { int k = 0; for (auto& o : nodes[i]->output_buffers) {
    s.push_back({strf("%s %zu %s data %d", at, i, names[i].c_str(), k), peek(o.combined_tensor->data)});
    if (!forward_only && !nodes[i]->backprop_connections.empty()) s.push_back({strf("%s %zu %s gradient %d", at, i, names[i].c_str(), k), peek(o.combined_tensor->delta)}); k++; } }
  int k = 0; std::vector<Conv::CombinedTensor*> ps; g.GetParameters(ps);
  for (auto* q : ps) { s.push_back({strf("%s parameter %d data", at, k), peek(q->data)}); if (!forward_only) s.push_back({strf("%s parameter %d gradient", at, k), peek(q->delta)}); k++; }
}
// does a pooling window hold its maximum twice? (then the gradient may go to either)
static bool ties(const Bench& b) {
  for (auto& p : b.pools) { const Conv::Tensor& t = p.n->input_connections[0].node->output_buffers[p.n->input_connections[0].buffer].combined_tensor->data;
    for (size_t s = 0; s < t.samples(); s++) for (size_t m = 0; m < t.maps(); m++) for (int y = 0; y + p.c <= (int)t.height(); y += p.sy) for (int x = 0; x + p.a <= (int)t.width(); x += p.sx) {
      float top = -1e38f; int n = 0; for (int j = 0; j < p.c; j++) for (int i = 0; i < p.a; i++) { float v = *t.data_ptr_const((size_t)(x + i), (size_t)(y + j), m, s); if (v > top) { top = v; n = 1; } else if (v == top) n++; }
      if (n > 1) return true; } }
  return false;
}
static void fill(Bench& b, Rng& q) {
  for (auto* t : {b.data, b.helper, b.weight, b.label}) to_cpu(*t);
  b.fill(q); for (size_t i = 0; i < b.data->elements(); i++) b.data->data_ptr()[i] = q.f(-1, 1);
}
// ops: per pass, bit 0: gradients, bit 1: change parameters, bit 2: initialise weights anew, bit 3: move everything to main memory first, bit 4: inspect afterwards as programs do
int bench_compute(uint64_t net, const std::vector<int>& ops, const std::string& file) {
  Snap s; BenchOptions o; o.max_side = 10; o.max_batch = 3; Bench b = make_bench(net, o); system_ready(); Rng q(net * 7 + 1); bool tied = false; int i = 0;
  for (int op : ops) {
    fill(b, q); std::string at = strf("pass %d", i++);
    if (op & 4) b.graph->InitializeWeights();
    if (op & 8) { for (auto* n : b.nodes) for (auto& x : n->output_buffers) { to_cpu(x.combined_tensor->data); to_cpu(x.combined_tensor->delta); } for (auto* p : b.params) { to_cpu(p->data); to_cpu(p->delta); } }
    b.graph->FeedForward(); if (op & 1) b.graph->BackPropagate();
    record(s, *b.graph, b.names, b.nodes, at.c_str(), !(op & 1));
#ifndef BUILD_OPENCL
    tied |= ties(b);
#endif
    float loss = b.graph->AggregateLoss(); s.push_back({at + " loss", {loss}});
    if (op & 2) for (auto* p : b.params) { to_cpu(p->data); if (op & 1) to_cpu(p->delta); for (size_t e = 0; e < p->data.elements(); e++) p->data.data_ptr()[e] -= (op & 1) ? 0.01f * p->delta.data_ptr()[e] : 0.001f * p->data.data_ptr()[e]; }
  }
  if (tied) s.push_back({"ties", {}});
  snap_save(file, s); return 0;
}
static void to_gpu(Conv::Tensor& t) {
#ifdef BUILD_OPENCL
  if (t.elements()) t.MoveToGPU();
#endif
}
// Histories of operations on tensors that are moved between main memory and the device. Each op draws its details from its own seed.
int tensor_compute(const std::vector<std::pair<int, uint64_t>>& ops, const std::string& file) {
  using namespace Conv; system_init(); Snap s;
  // 0..2 of any shape, 3 of a fixed shape, 4 a shadow of 3
  Tensor* t[5]; for (auto& p : t) p = new Tensor(); Rng z(77);
  auto fill = [&](Tensor& x, Rng& q) { to_cpu(x); for (size_t i = 0; i < x.elements(); i++) x.data_ptr()[i] = q.f(-1, 1); };
  for (int i = 0; i < 4; i++) { t[i]->Resize(2, 3, 2, 2); fill(*t[i], z); } t[4]->Shadow(*t[3]);
  int n = 0;
  for (auto& op : ops) {
    Rng q(op.second); const int i = (int)q.below(5), j = (int)q.below(3); Tensor &a = *t[i], &b = *t[j]; n++; std::vector<float> r; std::string name;
    auto maybe_gpu = [&](Tensor& x) { if (q.chance(1, 2)) to_gpu(x); };
    auto shape = [&](int k, size_t S, size_t W, size_t H, size_t M) -> Tensor& { t[k]->Resize(S, W, H, M); fill(*t[k], q); maybe_gpu(*t[k]); return *t[k]; };
    auto dim = [&](int lo, int hi) { return (size_t)q.range(lo, hi); };
    switch (op.first) {
      case 0: name = "to device"; to_gpu(a); break;
      case 1: name = "to main memory"; to_cpu(a); break;
      case 2: name = "write"; fill(a, q); break;
      case 3: name = "Clear"; a.Clear(q.f(-1, 1)); break;
      case 4: name = "Clear sample"; { float v = q.f(-1, 1); if (a.elements()) a.Clear(v, (int)q.below(a.samples())); } break;
      case 5: name = "CopySample"; { size_t x = q.below(a.samples()), y = q.below(b.samples()); if (&a != &b) r.push_back(Tensor::CopySample(a, x, b, y)); } break;
      case 6: name = "CopyMap"; { size_t x = q.below(a.samples()), xm = q.below(a.maps()), y = q.below(b.samples()), ym = q.below(b.maps()); if (&a != &b) r.push_back(Tensor::CopyMap(a, x, xm, b, y, ym)); } break;
      case 7: name = "Maximum"; r.push_back((float)a.Maximum(q.below(a.samples()))); break;
      case 8: name = "AbsMaximum"; r.push_back((float)a.AbsMaximum()); break;
      case 9: name = "PixelMaximum"; { size_t x = q.below(a.width()), y = q.below(a.height()); r.push_back((float)a.PixelMaximum(x, y, q.below(a.samples()))); } break;
      case 10: name = "Transpose"; b.Transpose(); break;
      case 11: name = "Serialize"; { std::ostringstream o; bool c = q.chance(1, 3); a.Serialize(o, c); std::string d = o.str(); for (unsigned char ch : d) r.push_back(ch); } break;
      case 12: name = "Deserialize"; { HT h(dim(1, 3), dim(1, 4), dim(1, 4), dim(1, 3)); for (auto& v : h.d) v = q.f(-1, 1); std::istringstream in(ht_encode(h)); r.push_back(b.Deserialize(in)); } break;
      case 13: name = "copy"; if (i < 3 && &a != &b) { Tensor* x = new Tensor(a, true); delete t[j]; t[j] = x; } break;
      case 14: name = "move"; if (i < 3 && &a != &b) { Tensor* x = new Tensor(std::move(a)); delete t[j]; t[j] = x; a.Resize(1, 2, 3, 1); fill(a, q); } break;
      case 15: name = "Resize"; b.Resize(dim(1, 3), dim(1, 4), dim(1, 4), dim(1, 3)); fill(b, q); break;
      case 16: name = "GEMM"; { int M = (int)dim(1, 4), N = (int)dim(1, 4), K = (int)dim(1, 4), S = (int)dim(1, 2); bool tA = q.chance(1, 2), tB = q.chance(1, 2); Tensor &A = shape(0, S, tA ? M : K, tA ? K : M, 1), &B = shape(1, S, tB ? K : N, tB ? N : K, 1), &C = shape(2, S, N, M, 1); float al = q.chance(1, 2) ? 1 : q.f(-1, 1), be = q.chance(1, 2) ? 0 : q.f(-1, 1); C.hint_ignore_content_ = q.chance(1, 2) && be == 0 && S == 1; TensorMath::GEMM(true, tA, tB, M, N, K, al, A, (int)q.below(S), tA ? M : K, B, (int)q.below(S), tB ? K : N, be, C, (int)q.below(S), N); } break;
      case 17: name = "GEMV"; { int M = (int)dim(1, 4), N = (int)dim(1, 4), S = (int)dim(1, 2); bool tA = false; Tensor &A = shape(0, S, N, M, 1), &X = shape(1, S, 1, tA ? M : N, 1), &Y = shape(2, S, 1, tA ? N : M, 1); float al = q.f(-1, 1), be = q.chance(1, 2) ? 0 : q.f(-1, 1); TensorMath::GEMV(true, tA, M, N, al, A, (int)q.below(S), N, X, (int)q.below(S), 1, be, Y, (int)q.below(S), 1); } break;
      case 18: case 19: { int W = (int)dim(2, 6), H = (int)dim(2, 6), M = (int)dim(1, 3), S = (int)dim(1, 3), kw = (int)dim(1, std::min(3, W)), kh = (int)dim(1, std::min(3, H)), sw = (int)dim(1, 2), sh = (int)dim(1, 2), pw = (int)dim(0, 1), ph = (int)dim(0, 1), tw = (2 * pw + W - kw) / sw + 1, th = (2 * ph + H - kh) / sh + 1;
        Tensor &A = shape(0, S, W, H, M), &B = shape(1, (size_t)(kw * kh * M), tw, th, S); if (op.first == 18) { name = "IM2COL"; TensorMath::IM2COL(A, W, H, M, S, kw, kh, sw, sh, pw, ph, B); } else { name = "COL2IM"; TensorMath::COL2IM(A, W, H, M, S, kw, kh, sw, sh, pw, ph, B); } } break;
      case 20: name = "SETSAMPLE"; { float v = q.f(-1, 1); TensorMath::SETSAMPLE(a, q.chance(1, 2) ? -1 : (int)q.below(a.samples()), v); } break;
      case 21: name = "SMS"; { size_t S = dim(1, 3), M = dim(1, 3), W = dim(1, 4), H = dim(1, 4); Tensor &A = shape(0, M, W, H, S), &B = shape(1, S, W, H, M); TensorMath::SMS(A, B); } break;
      case 22: case 23: { size_t S = dim(1, 2), M = dim(1, 3), W = dim(1, 4), H = dim(1, 4); int x = (int)dim(1, 3), y = (int)dim(1, 3); float f = q.f(0.5f, 1.5f); Tensor &A = shape(0, S, W * x, H * y, M), &B = shape(1, S, W, H, M); if (op.first == 22) { name = "DOWN"; TensorMath::DOWN(A, B, x, y, f); } else { name = "UP"; TensorMath::UP(B, A, x, y, f); } } break;
      case 24: name = "ADD"; { size_t S = dim(1, 2), M = dim(1, 3), W = dim(1, 4); Tensor &A = shape(0, S, W, 2, M), &B = shape(1, S, W, 2, M), &C = shape(2, S, W, 2, M); TensorMath::ADD(A, B, C); } break;
      default: break;
    }
    name = strf("step %d (%s)", n, name.c_str()); if (!r.empty()) s.push_back({name + " result", r});
    for (int k = 0; k < 4; k++) s.push_back({name + strf(" tensor %d (%zu,%zu,%zu,%zu)", k, t[k]->samples(), t[k]->width(), t[k]->height(), t[k]->maps()), peek(*t[k])});
  }
  for (int k : {4, 0, 1, 2, 3}) delete t[k];
  snap_save(file, s); return 0;
}
} }
