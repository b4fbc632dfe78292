#ifndef VERIF_STUB_TF_SLICE_H_
#define VERIF_STUB_TF_SLICE_H_
#include "tensorflow/core/framework/tensor.h"
namespace tensorflow { class TensorSlice { public: TensorSlice(); explicit TensorSlice(int dim); static absl::Status Parse(const std::string& s, TensorSlice* o); }; }
#endif
