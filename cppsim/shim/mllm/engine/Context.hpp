// Stand-in for the engine context (the real one needs the dispatcher libraries): memory manager and ids only.
#pragma once
#include <atomic>
#include <vector>
#include "mllm/core/OpTypes.hpp"
#include "mllm/core/DeviceTypes.hpp"
#include "mllm/core/BaseOp.hpp"
#include "mllm/core/Tensor.hpp"
#include "mllm/engine/MemoryManager.hpp"
namespace mllm {
class Context {
 public:
  static Context& instance();
  MemoryManager::ptr_t memoryManager() { return memory_manager_; }
  uint32_t getUUID() { return uuid_++; }
  std::vector<Tensor> buildOpAndSubmitTask(OpTypes op_type, const BaseOpOptionsBase& base_options, const std::vector<Tensor>& inputs,
                                           DeviceTypes special_device = kDeviceTypes_End);
  MemoryManager::ptr_t memory_manager_;
  std::atomic<uint32_t> uuid_{0};
};
}  // namespace mllm
