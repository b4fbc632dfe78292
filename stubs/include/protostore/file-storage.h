#ifndef VERIF_STUB_FILE_STORAGE_H_
#define VERIF_STUB_FILE_STORAGE_H_
#include <cstdint>
#include <string>
#include <memory>
#include <google/protobuf/io/zero_copy_stream.h>
#include "absl/status/status.h"
#include "absl/status/statusor.h"
namespace protostore {
class OutputStream;
class FileStorage {
 public:
  virtual ~FileStorage();
  virtual bool FileExists(const std::string& path) const;
  virtual absl::StatusOr<uint64_t> GetFileSize(const std::string& path) const;
  virtual absl::Status Delete(const std::string& path);
};
}  // namespace protostore
#endif
