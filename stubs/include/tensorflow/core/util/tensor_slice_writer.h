#ifndef VERIF_STUB_TF_SLICE_WRITER_H_
#define VERIF_STUB_TF_SLICE_WRITER_H_
#include <functional>
#include "tensorflow/core/framework/tensor_slice.h"
namespace tensorflow { namespace checkpoint {
class TensorSliceWriter {
 public:
  class Builder {};
  typedef std::function<absl::Status(const std::string&, Builder**)> CreateBuilderFunction;
  TensorSliceWriter(const std::string& filename, CreateBuilderFunction f);
  template <typename T> absl::Status Add(const std::string& name, const TensorShape& shape, const TensorSlice& slice, const T* data);
  absl::Status Finish();
};
absl::Status CreateTableTensorSliceBuilder(const std::string& filename, TensorSliceWriter::Builder** b);
} }
#endif
