// Stand-in for the protostore library: one serialized message per file.
#ifndef FILE_STORAGE_H_
#define FILE_STORAGE_H_
#include <filesystem>
#include <fstream>
#include <memory>
#include <sstream>
#include <string>
#include "absl/status/status.h"
#include "absl/status/statusor.h"
namespace protostore {
class FileStorage {
 public:
  absl::StatusOr<int64_t> GetFileSize(const std::string& path) const {
    std::error_code e;
    int64_t n = std::filesystem::file_size(path, e);
    if (e) return absl::InternalError(e.message());
    return n;
  }
};
}  // namespace protostore
#endif
