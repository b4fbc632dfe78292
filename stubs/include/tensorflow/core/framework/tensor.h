// Analysis stub of the parts of tensorflow::Tensor that fcp uses.
#ifndef VERIF_STUB_TF_TENSOR_H_
#define VERIF_STUB_TF_TENSOR_H_
#include <cstdint>
#include <initializer_list>
#include <string>
#include "absl/status/status.h"
#include "absl/strings/string_view.h"
#include "tensorflow/core/framework/tensor.pb.h"
#include "tensorflow/core/framework/types.pb.h"
namespace tensorflow {
using int64 = long long;
using Status = absl::Status;
using StringPiece = absl::string_view;
class tstring {
 public:
  tstring(); tstring(const std::string& s); tstring(const char* s); tstring(absl::string_view s);
  tstring& operator=(const std::string& s);
  operator std::string() const;
  operator absl::string_view() const;
  const char* data() const; size_t size() const; bool empty() const;
  const char* c_str() const;
};
class TensorShape {
 public:
  TensorShape(); TensorShape(std::initializer_list<int64_t> dims);
  int dims() const; int64_t dim_size(int i) const; int64_t num_elements() const;
  void AddDim(int64_t n);
};
class Tensor {
 public:
  Tensor(); Tensor(DataType t, const TensorShape& shape); explicit Tensor(std::string s);
  DataType dtype() const;
  int64_t NumElements() const;
  const TensorShape& shape() const;
  int dims() const;
  absl::string_view tensor_data() const;
  template <typename T> struct Flat { int64_t size() const; T& operator()(int64_t i); const T& operator()(int64_t i) const; T* data(); const T* data() const; };
  template <typename T> struct Scalar { T& operator()(); };
  template <typename T> Flat<T> flat() const;
  template <typename T> Scalar<T> scalar() const;
  template <typename T> Scalar<T> scalar();
  void AsProtoField(TensorProto* p) const;
  void AsProtoTensorContent(TensorProto* p) const;
  bool FromProto(const TensorProto& p);
};
}  // namespace tensorflow
#endif
