// Analysis stub of the parts of TensorFlow Lite that fcp uses.
#ifndef VERIF_STUB_TFLITE_H_
#define VERIF_STUB_TFLITE_H_
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include "absl/status/statusor.h"
#include "tensorflow/core/framework/tensor.h"
#include "tensorflow/lite/core/api/error_reporter.h"
enum TfLiteStatus { kTfLiteOk, kTfLiteError, kTfLiteDelegateError, kTfLiteApplicationError, kTfLiteDelegateDataNotFound,
  kTfLiteDelegateDataWriteError, kTfLiteDelegateDataReadError, kTfLiteUnresolvedOps };
enum TfLiteType { kTfLiteNoType, kTfLiteFloat32, kTfLiteString };
struct TfLiteTensor { TfLiteType type; };
struct TfLiteDelegate { void* data_; };
namespace tflite {
struct Model;
class FlatBufferModel {
 public:
  static std::unique_ptr<FlatBufferModel> BuildFromBuffer(const char* b, size_t n);
  const Model* GetModel() const;
};
using TfLiteDelegateUniquePtr = std::unique_ptr<TfLiteDelegate, void (*)(TfLiteDelegate*)>;
class FlexDelegate {
 public:
  static TfLiteDelegateUniquePtr Create();
  static bool HasCancelled(void* data);
  void Cancel();
};
class Interpreter {
 public:
  TfLiteStatus SetNumThreads(int n);
  TfLiteStatus ModifyGraphWithDelegate(TfLiteDelegate* d);
  TfLiteStatus AllocateTensors();
  TfLiteStatus Invoke();
  void SetCancellationFunction(void* data, bool (*f)(void*));
  const std::vector<int>& inputs() const;
  const std::vector<int>& outputs() const;
  const char* GetInputName(int i) const;
  TfLiteTensor* tensor(int i);
};
namespace ops { namespace builtin {
class BuiltinOpResolver { public: virtual ~BuiltinOpResolver(); };
class BuiltinOpResolverWithoutDefaultDelegates : public BuiltinOpResolver {};
} }
class InterpreterBuilder {
 public:
  InterpreterBuilder(const Model* m, const ops::builtin::BuiltinOpResolver& r, ErrorReporter* e = nullptr);
  TfLiteStatus operator()(std::unique_ptr<Interpreter>* i);
};
class DynamicBuffer {
 public:
  void AddString(const char* s, size_t n);
  void WriteToTensor(TfLiteTensor* t, void* shape);
};
namespace flex { absl::StatusOr<tensorflow::Tensor> CreateTfTensorFromTfLiteTensor(const TfLiteTensor* t); }
}  // namespace tflite
#endif
