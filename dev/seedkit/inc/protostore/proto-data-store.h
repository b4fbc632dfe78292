// Stand-in for the protostore library: one serialized message per file.
#ifndef PROTO_DATA_STORE_H_
#define PROTO_DATA_STORE_H_
#include "protostore/file-storage.h"
namespace protostore {
inline int fail_writes = 0;
template <typename T>
class ProtoDataStore {
 public:
  ProtoDataStore(FileStorage&, const std::string& path) : path_(path) {}
  absl::StatusOr<const T*> Read() const {
    std::ifstream f(path_);
    std::stringstream s;
    s << f.rdbuf();
    if (!f || s.str().empty() || !message_.ParseFromString(s.str().substr(1))) return absl::InternalError("cannot read");
    return &message_;
  }
  absl::Status Write(std::unique_ptr<T> message) {
    if (fail_writes > 0) {
      fail_writes--;
      return absl::InternalError("cannot write");
    }
    std::ofstream f(path_);
    f << "P" << message->SerializeAsString();
    return absl::OkStatus();
  }
 private:
  std::string path_;
  mutable T message_;
};
}  // namespace protostore
#endif
