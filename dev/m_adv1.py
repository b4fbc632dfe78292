B = "fcp/base/"
# B06
M("B06", B + "compression.cc", "  while (starting_pos < str_size) {", "  while (starting_pos + 1 < str_size) {")
M("B06", B + "compression.cc", "    starting_pos += out_size;\n    in_size -= out_size;", "    starting_pos += out_size;\n    in_size = str_size;")
M("B06", B + "compression.cc", "  while (input_stream.Next(&buffer, &size)) {\n", "  while (input_stream.Next(&buffer, &size)) {\n    if (size == 0) break;\n")
M("B06", B + "compression.cc", "  if (input_stream.ZlibErrorMessage() != nullptr) {", "  if (input_stream.ZlibErrorMessage() != nullptr && out.empty()) {")
M("B06", B + "compression.cc", "    out.Append(absl::string_view(reinterpret_cast<const char*>(buffer), size));", "    out.Append(absl::string_view(reinterpret_cast<const char*>(buffer)));")
M("B06", B + "compression.cc", "    out.Append(absl::string_view(reinterpret_cast<const char*>(buffer), size));", "    out = absl::Cord(absl::string_view(reinterpret_cast<const char*>(buffer), size));")
M("B06", B + "compression.cc", "static_cast<int>(compressed_data.size()));", "static_cast<int>(compressed_data.size() & ~3));")
M("B06", B + "compression.cc", "  int starting_pos = 0;\n  size_t str_size = uncompressed_data.length();", "  int starting_pos = 0;\n  size_t str_size = strlen(uncompressed_data.data());")
# B10
M("B10", B + "time_util.cc", "  const int64_t s = absl::ToUnixSeconds(t);", "  const int64_t s = absl::ToInt64Seconds(t - absl::UnixEpoch());")
M("B10", B + "time_util.cc", "  proto_timestamp.set_nanos((t - absl::FromUnixSeconds(s)) /\n                            absl::Nanoseconds(1));", "  proto_timestamp.set_nanos((t - absl::FromUnixSeconds(s)) /\n                            absl::Microseconds(1));")
M("B10", B + "time_util.cc", "  return absl::Seconds(proto.seconds()) + absl::Nanoseconds(proto.nanos());", "  return absl::Seconds(proto.seconds()) + absl::Nanoseconds(std::abs(proto.nanos()));")
M("B10", B + "time_util.cc", "         absl::Nanoseconds(proto.nanos());\n}\n\ngoogle", "         absl::Milliseconds(proto.nanos() / 1000000);\n}\n\ngoogle")
M("B10", B + "time_util.cc", "    proto_duration.set_seconds(s);\n    proto_duration.set_nanos(static_cast<int32_t>(n));", "    proto_duration.set_seconds(n < 0 ? s - 1 : s);\n    proto_duration.set_nanos(static_cast<int32_t>(n));")
M("B10", B + "time_util.cc", "  } else if (absl_duration == -absl::InfiniteDuration()) {", "  } else if (absl_duration < absl::ZeroDuration()) {")
M("B10", B + "time_util.cc", "absl::IDivDuration(absl_duration, absl::Seconds(1), &absl_duration);", "absl::ToInt64Seconds(absl_duration);")
# B08
M("B08", B + "process_unique_id.cc", "next_id.fetch_add(1, std::memory_order_relaxed)", "next_id.load(std::memory_order_relaxed) + 1")
M("B08", B + "process_unique_id.cc", "next_id.fetch_add(1, std::memory_order_relaxed)", "static_cast<uint32_t>(next_id.fetch_add(1, std::memory_order_relaxed))")
M("B08", B + "process_unique_id.cc", "std::atomic<uint64_t> next_id;", "thread_local std::atomic<uint64_t> next_id;")
M("B08", B + "process_unique_id.cc", "std::atomic<uint64_t> next_id;", "std::atomic<uint16_t> next_id;")
# B01
M("B01", B + "future.h", "      state_ = State::kSet;\n      value_ = std::move(val);\n", "      state_ = State::kSet;\n      if (val.has_value()) value_ = std::move(*val);\n      else return;\n")
M("B01", B + "future.h", "    if (this != &other) {\n      Abandon();\n", "    if (this != &other) {\n      if (!other.state_.has_value()) Abandon();\n")
M("B01", B + "future.h", "  bool Wait(absl::Duration timeout) const {\n    FCP_CHECK(state_.has_value());\n    return (*state_)->Wait(timeout);", "  bool Wait(absl::Duration timeout) const {\n    FCP_CHECK(state_.has_value());\n    if (timeout <= absl::ZeroDuration()) return true;\n    return (*state_)->Wait(timeout);")
M("B01", B + "future.h", "  return ready_.WaitForNotificationWithTimeout(timeout);", "  return state_ == State::kSet || ready_.WaitForNotificationWithTimeout(timeout);")
M("B01", B + "future.h", "  ready_.WaitForNotification();\n", "  if (state_ == State::kNotSet) ready_.WaitForNotification();\n")
M("B01", B + "future.h", "  ~Promise() { Abandon(); }", "  ~Promise() = default;")
M("B01", B + "future.h", "    future_internal::FutureStateRef<T> state = std::move(state_);\n    FCP_CHECK(state.has_value());\n    (*state)->Set(std::move(value));", "    FCP_CHECK(state_.has_value());\n    (*state_)->Set(std::move(value));")
M("B01", B + "future.h", "  std::optional<T> Take() && {\n    future_internal::FutureStateRef<T> state = std::move(state_);\n    FCP_CHECK(state.has_value());\n    return (*state)->Take();", "  std::optional<T> Take() && {\n    FCP_CHECK(state_.has_value());\n    return (*state_)->Take();")
# B07
M("B07", B + "unique_value.h", "  UniqueValue(UniqueValue&& other) : value_(std::move(other.value_)) {\n    other.value_.reset();\n  }", "  UniqueValue(UniqueValue&& other) : value_(std::move(other.value_)) {}")
M("B07", B + "unique_value.h", "  UniqueValue& operator=(UniqueValue other) {\n    value_.swap(other.value_);\n    return *this;\n  }", "  UniqueValue& operator=(UniqueValue&& other) {\n    value_ = std::move(other.value_);\n    return *this;\n  }")
M("B07", B + "unique_value.h", "  UniqueValue& operator=(UniqueValue other) {\n    value_.swap(other.value_);\n    return *this;\n  }", "  UniqueValue& operator=(UniqueValue&& other) {\n    value_.swap(other.value_);\n    return *this;\n  }")
M("B07", B + "unique_value.h", "    T v = *std::move(value_);\n    value_.reset();\n    return v;", "    return *std::move(value_);")
M("B07", B + "unique_value.h", "    return value_.has_value();", "    return value_ != std::nullopt && sizeof(T) != 0 && bool(&*value_) && !value_.has_value();")
M("B07", B + "reentrancy_guard.h", "    if (!in_use->compare_exchange_strong(expected_value, true)) {", "    in_use_ = in_use;\n    if (!in_use->compare_exchange_strong(expected_value, true)) {")
M("B07", B + "reentrancy_guard.h", "compare_exchange_strong(expected_value, true)", "compare_exchange_strong(expected_value, false)")
M("B07", B + "reentrancy_guard.h", "    bool expected_value = false;\n    if (!in_use->compare_exchange_strong(expected_value, true)) {", "    if (in_use->load() || in_use->exchange(true, std::memory_order_relaxed) && false) {")
# B02
M("B02", B + "scheduler.cc", "        --active_count_;\n        while (todo_.empty()) {\n          if (threads_should_join_) {\n            return;\n          }\n", "        while (todo_.empty()) {\n          --active_count_;\n          if (threads_should_join_) {\n            return;\n          }\n")
M("B02", B + "scheduler.cc", "    todo_.push(std::move(task));\n    // Wake up a *single* thread to handle this task.\n    work_available_cond_var_.Signal();", "    const bool was_empty = todo_.empty();\n    todo_.push(std::move(task));\n    if (was_empty) work_available_cond_var_.Signal();")
M("B02", B + "scheduler.cc", "        todo_.pop();\n        ++active_count_;\n      }\n\n      task();", "        todo_.pop();\n      }\n      task();\n      {\n        absl::MutexLock lock(&busy_);\n        ++active_count_;\n      }")
M("B02", B + "scheduler.cc", "      work_available_cond_var_.SignalAll();", "      work_available_cond_var_.Signal();")
M("B02", B + "scheduler.cc", "    auto task = std::move(steps_.front());\n    steps_.pop_front();", "    auto task = std::move(steps_.back());\n    steps_.pop_back();")
M("B02", B + "scheduler.cc", "    return pool->todo_.empty() && pool->active_count_ == 0;", "    return pool->todo_.empty() || pool->active_count_ == 0;")
M("B02", B + "scheduler.cc", "        this->running_ = false;\n        this->MaybeRunNext();", "        this->running_ = !this->steps_.empty();\n        if (this->running_) this->MaybeRunNext();")
M("B02", B + "scheduler.cc", "      // Call the Task which is stored in wrapped_task.value.\n      (*wrapped_task)();\n", "      {\n        absl::MutexLock lock(&this->busy_);\n        this->running_ = false;\n      }\n      (*wrapped_task)();\n")
# B05
M("B05", B + "clock.cc", "         iter->first <= now) {", "         iter->first < now + absl::Milliseconds(1)) {")
M("B05", B + "clock.cc", "         iter->first <= now) {", "         iter->first < now) {")
M("B05", B + "clock.cc", "    if (current_dispatch_level > 1) {", "    if (current_dispatch_level > 2) {")
M("B05", B + "clock.cc", "  if (wakeup_time == next_wakeup_) {", "  if (wakeup_time >= next_wakeup_) {")
M("B05", B + "clock.cc", "  if (wakeup_time == next_wakeup_) {", "  if (next_wakeup_ != absl::InfiniteFuture()) {")
M("B05", B + "clock.cc", "    if (next_wakeup <= NowLocked()) {", "    if (next_wakeup < NowLocked()) {")
M("B05", B + "clock.cc", "      it->second.push_back(waiter);", "      it->second = WaiterList{waiter};")
M("B05", B + "clock.cc", "  if (!pending_waiters_.empty()) {\n    if (current_dispatch_level > 1) {", "  if (!pending_waiters_.empty()) {\n    if (current_dispatch_level > 1 && pending_waiters_.size() > 1) {")
M("B05", B + "clock.cc", "    absl::Time next_wakeup = pending_waiters_.begin()->first;", "    absl::Time next_wakeup = pending_waiters_.rbegin()->first;")
M("B05", B + "simulated_clock.cc", "    now_ += d;\n  }\n  DispatchWakeups();", "    now_ += d;\n  }\n  if (d > absl::ZeroDuration()) DispatchWakeups();")
M("B05", B + "simulated_clock.cc", "    now_ = t;\n  }\n  DispatchWakeups();", "    if (t < now_) return;\n    now_ = t;\n  }\n  DispatchWakeups();")
# B09
M("B09", B + "wall_clock_stopwatch.cc", "    if (latest_start_time_ == absl::InfiniteFuture()) {", "    if (started_count_ <= 1) {")
M("B09", B + "wall_clock_stopwatch.cc", "      previous_durations_ += absl::Now() - latest_start_time_;", "      previous_durations_ = absl::Now() - latest_start_time_;")
M("B09", B + "wall_clock_stopwatch.cc", "      latest_start_time_ = absl::InfiniteFuture();\n    }", "    }")
M("B09", B + "wall_clock_stopwatch.cc", "  Handle Start() override ABSL_LOCKS_EXCLUDED(mutex_) {\n    return WallClockStopwatch::Handle(this);", "  Handle Start() override ABSL_LOCKS_EXCLUDED(mutex_) {\n    StartInternal();\n    return WallClockStopwatch::Handle(this);")

N("B06", B + "compression.cc", "    in_size -= out_size;", "    in_size = in_size - out_size;")
N("B06", B + "compression.cc", "  while (starting_pos < str_size) {", "  while (starting_pos < str_size) {\n    in_size = str_size - starting_pos;")
N("B05", B + "clock.cc", "  while ((iter = pending_waiters_.begin()) != pending_waiters_.end() &&\n         iter->first <= now) {", "  while (!pending_waiters_.empty()) {\n    iter = pending_waiters_.begin();\n    if (now < iter->first) break;")
N("B08", B + "process_unique_id.cc", "  return ProcessUniqueId(next_id.fetch_add(1, std::memory_order_relaxed));", "  const uint64_t id = next_id.fetch_add(1, std::memory_order_relaxed);\n  return ProcessUniqueId(id);")
N("B07", B + "unique_value.h", "  UniqueValue& operator=(UniqueValue other) {\n    value_.swap(other.value_);\n    return *this;\n  }", "  UniqueValue& operator=(UniqueValue&& other) {\n    if (this == &other) return *this;\n    value_ = std::move(other.value_);\n    other.value_.reset();\n    return *this;\n  }")
N("B10", B + "time_util.cc", "  proto_timestamp.set_seconds(s);", "  proto_timestamp.set_seconds(absl::ToUnixSeconds(t));")
