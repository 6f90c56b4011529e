// The few members of Tensor the prefix caches need (Tensor.cpp itself needs the operator dispatcher).
#include <cstring>
#include "mllm/core/Tensor.hpp"
#include "mllm/engine/Context.hpp"
namespace mllm {
Tensor::Tensor(const std::shared_ptr<TensorViewImpl>& impl) : impl_(impl) {}
Tensor::shape_t Tensor::shape() const { return impl_->shape(); }
DataTypes Tensor::dtype() const { return impl_->dtype(); }
DeviceTypes Tensor::device() const { return impl_->device(); }
size_t Tensor::numel() const { return impl_->numel(); }
size_t Tensor::bytes() const { return impl_->size(); }
Tensor Tensor::empty(const std::vector<int32_t>& shape, DataTypes dtype, DeviceTypes device) {
  auto storage = TensorStorage::create(shape, dtype, device);
  return Tensor(TensorViewImpl::create(shape, storage));
}
Tensor& Tensor::alloc() {
  Context::instance().memoryManager()->alloc(impl_->storage());
  return *this;
}
Tensor Tensor::zeros(const std::vector<int32_t>& shape, DataTypes dtype, DeviceTypes device) {
  Tensor t = Tensor::empty(shape, dtype, device).alloc();
  std::memset(t.ptr<char>(), 0, t.bytes());
  return t;
}
}  // namespace mllm
