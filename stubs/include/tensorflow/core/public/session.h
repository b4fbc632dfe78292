#ifndef VERIF_STUB_TF_SESSION_H_
#define VERIF_STUB_TF_SESSION_H_
#include <vector>
#include <utility>
#include "tensorflow/core/public/session_options.h"
namespace tensorflow {
class Session {
 public:
  virtual ~Session() = default;
  absl::Status Create(const GraphDef& g); absl::Status Create(GraphDef&& g);
  absl::Status Run(const std::vector<std::pair<std::string, Tensor>>& in, const std::vector<std::string>& out, const std::vector<std::string>& targets, std::vector<Tensor>* o);
  absl::Status Close();
};
Session* NewSession(const SessionOptions& o);
absl::Status NewSession(const SessionOptions& o, Session** s);
}
#endif
