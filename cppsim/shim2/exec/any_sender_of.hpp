#pragma once
#include <stdexec/execution.hpp>
namespace exec {
template<class Sigs>
struct any_receiver_ref {
  template<auto... Q>
  using any_sender = stdexec::work;
};
}  // namespace exec
