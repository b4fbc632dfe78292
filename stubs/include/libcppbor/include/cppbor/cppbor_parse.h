#ifndef VERIF_STUB_CPPBOR_PARSE_H_
#define VERIF_STUB_CPPBOR_PARSE_H_
#include <tuple>
#include "libcppbor/include/cppbor/cppbor.h"
namespace cppbor {
using ParseResult = std::tuple<std::unique_ptr<Item>, const uint8_t*, std::string>;
ParseResult parse(const uint8_t* begin, const uint8_t* end);
ParseResult parse(const uint8_t* begin, size_t size);
ParseResult parse(const std::vector<uint8_t>& encoding);
}  // namespace cppbor
#endif
