#ifndef VERIF_STUB_TFF_TENSOR_DATA_H_
#define VERIF_STUB_TFF_TENSOR_DATA_H_
#include <cstddef>
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/string_view.h"
namespace tensorflow_federated { namespace aggregation {
class TensorData { public: virtual ~TensorData() = default; virtual size_t byte_size() const = 0; virtual const void* data() const = 0; };
} }
#endif
