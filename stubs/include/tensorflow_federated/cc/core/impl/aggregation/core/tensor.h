#ifndef VERIF_STUB_TFF_TENSOR_H_
#define VERIF_STUB_TFF_TENSOR_H_
#include "tensorflow_federated/cc/core/impl/aggregation/core/tensor.pb.h"
#include "tensorflow_federated/cc/core/impl/aggregation/core/tensor_data.h"
#include "tensorflow_federated/cc/core/impl/aggregation/core/tensor_shape.h"
namespace tensorflow_federated { namespace aggregation {
class Tensor { public: Tensor(); Tensor(Tensor&&) = default; Tensor& operator=(Tensor&&) = default; static absl::StatusOr<Tensor> Create(DataType t, TensorShape s, std::unique_ptr<TensorData> d); };
} }
#endif
