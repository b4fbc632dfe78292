// Instantiations of the base templates.
#include <memory>
#include <string>

#include "fcp/base/bounds.h"
#include "fcp/base/future.h"
#include "fcp/base/move_to_lambda.h"
#include "fcp/base/reentrancy_guard.h"
#include "fcp/base/unique_value.h"

template class fcp::UniqueValue<std::unique_ptr<int>>;
template class fcp::MoveToLambdaWrapper<std::unique_ptr<int>>;
template class fcp::thread::Future<std::string>;
template class fcp::thread::Promise<std::string>;
template class fcp::thread::future_internal::FutureState<std::string>;

namespace inst {
fcp::thread::FuturePair<std::string> make() { return fcp::thread::MakeFuture<std::string>(); }
fcp::thread::Future<std::string> schedule(fcp::Scheduler* s, std::function<std::string()> f) {
  return fcp::thread::ScheduleFuture<std::string>(s, f);
}
}  // namespace inst
