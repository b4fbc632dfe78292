// Type-level facts about single-owner wrappers. Message: class|rule|text.
#include <memory>
#include <string>
#include <type_traits>
#include <utility>

#include "fcp/base/reentrancy_guard.h"
#include "fcp/base/unique_value.h"

using U = fcp::UniqueValue<std::string>;

template <typename X, typename = void>
struct CanTakeLvalue : std::false_type {};
template <typename X>
struct CanTakeLvalue<X, std::void_t<decltype(std::declval<X&>().Take())>> : std::true_type {};

static_assert(!std::is_copy_constructible_v<U>, "fcp::UniqueValue|owner-move-only|a single-owner value can be copied");
static_assert(!std::is_assignable_v<U&, const U&>, "fcp::UniqueValue|owner-move-only|a single-owner value can be copy-assigned");
static_assert(std::is_move_constructible_v<U>, "fcp::UniqueValue|owner-movable|a single-owner value cannot be moved");
static_assert(!CanTakeLvalue<U>::value, "fcp::UniqueValue|take-consumes|the value can be taken without giving the holder up");
