// Type-level facts about promises and futures. Message: class|rule|text.
#include <functional>
#include <string>
#include <type_traits>
#include <utility>

#include "fcp/base/future.h"

using P = fcp::thread::Promise<std::string>;
using F = fcp::thread::Future<std::string>;

template <typename X, typename = void>
struct CanSetLvalue : std::false_type {};
template <typename X>
struct CanSetLvalue<X, std::void_t<decltype(std::declval<X&>().Set(std::string()))>> : std::true_type {};
template <typename X, typename = void>
struct CanTakeLvalue : std::false_type {};
template <typename X>
struct CanTakeLvalue<X, std::void_t<decltype(std::declval<X&>().Take())>> : std::true_type {};

static_assert(!std::is_copy_constructible_v<P> && !std::is_copy_assignable_v<P>, "fcp::thread::Promise|promise-move-only|a promise can be copied");
static_assert(!std::is_copy_constructible_v<F> && !std::is_copy_assignable_v<F>, "fcp::thread::Future|future-move-only|a future can be copied");
static_assert(!CanSetLvalue<P>::value, "fcp::thread::Promise|promise-set-consumes|a promise can be given a value without giving it up");
static_assert(!CanTakeLvalue<F>::value, "fcp::thread::Future|future-take-consumes|a future's value can be taken without giving the future up");
static_assert(!std::is_default_constructible_v<P> && !std::is_default_constructible_v<F>, "fcp::thread::Promise|made-as-pair|half of a pair can be created alone");
