// Definitions behind the stand-in engine context.
#include "mllm/engine/Context.hpp"
#include "work.h"
namespace mllm {
Context& Context::instance() {
  static Context c;
  return c;
}
std::vector<Tensor> Context::buildOpAndSubmitTask(OpTypes, const BaseOpOptionsBase&, const std::vector<Tensor>& in, DeviceTypes) { return in; }
}  // namespace mllm
