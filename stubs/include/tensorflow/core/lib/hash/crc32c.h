#pragma once
#include <cstddef>
#include <cstdint>
namespace tensorflow { namespace crc32c { uint32_t Value(const char* data, size_t n); } }
