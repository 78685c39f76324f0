#pragma once
#include "stdexec/execution.hpp"
namespace exec {
template<class> struct any_receiver_ref {
  template<class...> using any_sender = stdexec::__sender;
};
}  // namespace exec
