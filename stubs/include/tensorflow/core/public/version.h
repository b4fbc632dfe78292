#include "tensorflow/core/framework/tensor.h"
#define TF_GRAPH_DEF_VERSION 1600
