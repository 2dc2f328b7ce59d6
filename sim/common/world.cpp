#include "world.h"
#include <cstring>
extern __attribute__((weak)) int world_unused;
namespace sim { inline namespace SIM_NS {
using namespace Conv;
std::vector<std::vector<float>> World::weights() const {
  std::vector<std::vector<float>> w;
  for (auto* p : params) w.emplace_back(p->data.data_ptr_const(), p->data.data_ptr_const() + p->data.elements());
  return w;
}
void World::set_weights(const std::vector<std::vector<float>>& w) { for (size_t i = 0; i < params.size(); i++) memcpy(params[i]->data.data_ptr(), w[i].data(), w[i].size() * 4); }
uint64_t World::weight_hash() const { uint64_t h = 7; for (auto* p : params) h = hash_bytes(p->data.data_ptr_const(), p->data.elements() * 4, h); return h; }
void system_init() { static bool done = false; if (!done) { System::Init(1); done = true; } }
void system_ready() { System::stat_aggregator->Initialize(); }
Dataset* open_dataset(const Toy& t, bool patch, DatasetLoadSelection sel, int px, int py) {
  std::istringstream in(t.set_text);
  if (patch) return TensorStreamPatchDataset::CreateFromConfiguration(in, false, sel, px, py);
  return TensorStreamDataset::CreateFromConfiguration(in, false, sel);
}
World make_world(const Toy& t, bool patch, DatasetLoadSelection sel, int batch, bool init_weights) {
  system_init();
  World w;
  w.net_stream.reset(new std::istringstream(t.net_text));
  w.factory = new ConfigurableFactory(*w.net_stream, 8347734, patch);
  w.factory->InitOptimalSettings();
  w.settings = w.factory->optimal_settings();
  w.settings.epoch_training_ratio = 1; w.settings.testing_ratio = 1;
  w.data = new Recorder(open_dataset(t, patch, sel, w.factory->patchsizex(), w.factory->patchsizey()));
  if (batch == 0) batch = w.settings.pbatchsize; else { w.settings.pbatchsize = batch; }
  w.loss_p = patch || sel == LOAD_TESTING_ONLY ? 1.0f : 0.5f;
  w.graph = new NetGraph();
  w.input = new DatasetInputLayer(*w.data, batch, w.loss_p, 983923);
  NetGraphNode* in = new NetGraphNode(w.input); in->is_input = true; w.graph->AddNode(in);
  if (!w.factory->AddLayers(*w.graph, NetGraphConnection(in), w.data->GetClasses(), true)) { if (g_sh->alloc_failed[g_sh->life]) throw std::runtime_error("network is incomplete"); SIM_FAIL("graph-incomplete", "generated network is incomplete"); }
  for (NetGraphNode* o : std::vector<NetGraphNode*>(w.graph->GetOutputNodes())) {
    Layer* l; if (w.data->GetClasses() == 1) l = new BinaryStatLayer(13, -1, 1); else l = new ConfusionMatrixLayer(w.data->GetClassNames(), w.data->GetClasses());
    NetGraphNode* s = new NetGraphNode(l);
    s->input_connections.push_back(NetGraphConnection(o, 0, false)); s->input_connections.push_back(NetGraphConnection(in, 1)); s->input_connections.push_back(NetGraphConnection(in, 3));
    w.graph->AddNode(s);
  }
  w.graph->Initialize();
  if (init_weights) w.graph->InitializeWeights();
  w.graph->GetParameters(w.params);
  for (NetGraphNode* n : w.graph->GetNodes()) for (size_t i = 0; i < n->layer->parameters().size(); i++) w.param_layers.push_back(n->layer);
  w.trainer = new Trainer(*w.graph, w.settings);
  return w;
}
} } // namespace sim
