#ifndef VERIF_STUB_TFF_SHAPE_H_
#define VERIF_STUB_TFF_SHAPE_H_
#include "tensorflow_federated/cc/core/impl/aggregation/core/tensor_data.h"
#include <initializer_list>
namespace tensorflow_federated { namespace aggregation {
class TensorShape { public: TensorShape(std::initializer_list<int64_t> d); absl::StatusOr<size_t> NumElements() const; };
} }
#endif
