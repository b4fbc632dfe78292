#ifndef VERIF_STUB_TF_SO_H_
#define VERIF_STUB_TF_SO_H_
#include "tensorflow/core/framework/tensor.h"
#include "tensorflow/core/protobuf/config.pb.h"
namespace tensorflow { struct SessionOptions { ConfigProto config; std::string target; }; }
#endif
