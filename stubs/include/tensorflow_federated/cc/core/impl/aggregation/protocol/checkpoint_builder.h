#ifndef VERIF_STUB_TFF_CB_H_
#define VERIF_STUB_TFF_CB_H_
#include <memory>
#include "absl/strings/cord.h"
#include "tensorflow_federated/cc/core/impl/aggregation/core/tensor.h"
namespace tensorflow_federated { namespace aggregation {
class CheckpointBuilder { public: virtual ~CheckpointBuilder() = default; virtual absl::Status Add(const std::string& name, const Tensor& t) = 0; virtual absl::StatusOr<absl::Cord> Build() = 0; };
class CheckpointBuilderFactory { public: virtual ~CheckpointBuilderFactory() = default; virtual std::unique_ptr<CheckpointBuilder> Create() const = 0; };
} }
#endif
