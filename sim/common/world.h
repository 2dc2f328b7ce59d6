// Networks assembled inside the simulated process from the public API, the way
// trainNetwork assembles them, so that properties can observe parameters and buffers.
#pragma once
#include "sim.h"
#include "seams.h"
#include "toy.h"
#include <cn24.h>
#include <sstream>
#include <memory>
// the configuration of cn24 this is compiled against (O01 builds several into one program)
#ifndef SIM_NS
#define SIM_NS world_cpu
#endif
namespace sim { inline namespace SIM_NS {
// Records which samples a training layer asks for; passes everything on to the real dataset.
struct Recorder : public Conv::Dataset {
  Conv::Dataset* d; std::vector<std::pair<bool, unsigned>> log;   // (testing, index)
  explicit Recorder(Conv::Dataset* d_) : d(d_) {}
  Conv::Task GetTask() const override { return d->GetTask(); }
  Conv::Method GetMethod() const override { return d->GetMethod(); }
  unsigned int GetWidth() const override { return d->GetWidth(); }
  unsigned int GetHeight() const override { return d->GetHeight(); }
  unsigned int GetInputMaps() const override { return d->GetInputMaps(); }
  unsigned int GetLabelMaps() const override { return d->GetLabelMaps(); }
  unsigned int GetClasses() const override { return d->GetClasses(); }
  std::vector<std::string> GetClassNames() const override { return d->GetClassNames(); }
  std::vector<unsigned int> GetClassColors() const override { return d->GetClassColors(); }
  std::vector<Conv::datum> GetClassWeights() const override { return d->GetClassWeights(); }
  unsigned int GetTrainingSamples() const override { return d->GetTrainingSamples(); }
  unsigned int GetTestingSamples() const override { return d->GetTestingSamples(); }
  bool SupportsTesting() const override { return d->SupportsTesting(); }
  bool GetTrainingSample(Conv::Tensor& a, Conv::Tensor& b, Conv::Tensor& c, Conv::Tensor& e, unsigned int s, unsigned int i) override { log.push_back({false, i}); return d->GetTrainingSample(a, b, c, e, s, i); }
  bool GetTestingSample(Conv::Tensor& a, Conv::Tensor& b, Conv::Tensor& c, Conv::Tensor& e, unsigned int s, unsigned int i) override { log.push_back({true, i}); return d->GetTestingSample(a, b, c, e, s, i); }
};
struct World {
  std::unique_ptr<std::istringstream> net_stream;
  Conv::ConfigurableFactory* factory = nullptr;
  Recorder* data = nullptr;
  Conv::NetGraph* graph = nullptr;
  Conv::DatasetInputLayer* input = nullptr;
  Conv::TrainerSettings settings;
  Conv::Trainer* trainer = nullptr;
  std::vector<Conv::CombinedTensor*> params;
  std::vector<Conv::Layer*> param_layers;
  float loss_p = 1;
  std::vector<std::vector<float>> weights() const;
  void set_weights(const std::vector<std::vector<float>>&);
  uint64_t weight_hash() const;
};
void system_init();    // System::Init once per simulated process
void system_ready();   // after all graphs exist: initialises the statistics
// dataset: FCN (TensorStreamDataset) or patch, from the files written by write_toy
Conv::Dataset* open_dataset(const Toy&, bool patch, Conv::DatasetLoadSelection, int px = 0, int py = 0);
// patch: training network of hybrid mode; otherwise fully convolutional. batch 0: as configured
World make_world(const Toy&, bool patch, Conv::DatasetLoadSelection sel, int batch = 0, bool init_weights = true);
} } // namespace sim
