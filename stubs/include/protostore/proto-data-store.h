#ifndef VERIF_STUB_PDS_H_
#define VERIF_STUB_PDS_H_
#include "protostore/file-storage.h"
namespace protostore {
template <typename T>
class ProtoDataStore {
 public:
  ProtoDataStore(FileStorage& storage, const std::string& path, int64_t max_file_size = 0) {}
  virtual ~ProtoDataStore() = default;
  virtual absl::StatusOr<const T*> Read() const;
  virtual absl::Status Write(std::unique_ptr<T> message);
};
}  // namespace protostore
#endif
