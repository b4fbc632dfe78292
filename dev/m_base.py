B = "fcp/base/"
FU, SD, CK, SIM, UV, RG = B + "future.h", B + "scheduler.cc", B + "clock.cc", B + "simulated_clock.cc", B + "unique_value.h", B + "reentrancy_guard.h"
CO, PL, ST, TU, WS, DG, RT, ID = B + "compression.cc", B + "platform.cc", B + "status_converters.cc", B + "time_util.cc", B + "wall_clock_stopwatch.cc", B + "digest.cc", B + "random_token.cc", B + "process_unique_id.cc"
# B01
M("B01", FU, "  ~Promise() { Abandon(); }", "  ~Promise() {}")
M("B01", FU, "  ~Promise() { Abandon(); }", "  ~Promise() = default;")
M("B01", FU, "      Abandon();\n      state_", "      state_")
M("B01", FU, "      value_ = std::move(val);\n", "", "      ready_.Notify();\n", "      ready_.Notify();\n      value_ = std::move(val);\n")
M("B01", FU, "  ready_.WaitForNotification();\n", "")
M("B01", FU, "  ready_.WaitForNotification();\n", "  if (!ready_.WaitForNotificationWithTimeout(absl::Seconds(60))) return std::nullopt;\n")
M("B01", FU, "    future_internal::FutureStateRef<T> state = std::move(state_);\n    FCP_CHECK(state.has_value());\n    (*state)->Set(std::move(value));", "    FCP_CHECK(state_.has_value());\n    (*state_)->Set(std::move(value));")
M("B01", FU, "  void Set(T value) && {", "  void Set(T value) {")
M("B01", FU, "  std::optional<T> Take() && {", "  std::optional<T> Take() {")
M("B01", FU, "  auto future_ref = FutureStateRef<T>(std::move(state));", "  auto future_ref = FutureStateRef<T>(std::make_shared<FutureState<T>>());")
M("B01", FU, "    std::move(*promise_capture).Set(func());", "    func();")
M("B01", FU, "      (*state_)->Set(std::nullopt);", "      (*state_)->Set(T());")
M("B01", FU, "  return ready_.WaitForNotificationWithTimeout(timeout);", "  ready_.WaitForNotificationWithTimeout(timeout);\n  return true;")
N("B01", FU, "  ~Promise() { Abandon(); }", "  ~Promise() {\n    if (!state_.has_value()) return;\n    (*state_)->Set(std::nullopt);\n  }")
N("B01", FU, "    std::move(*promise_capture).Set(func());", "    T result = func();\n    std::move(*promise_capture).Set(std::move(result));")
N("B01", FU, "      state_ = State::kSet;\n      value_ = std::move(val);", "      value_ = std::move(val);\n      state_ = State::kSet;")
N("B01", FU, '''  switch (state_) {
    case State::kNotSet:
      state_ = State::kSet;
      value_ = std::move(val);
      // This has release semantics; stores to state_ and value_ will be visible
      // to whomever sees that the notification.
      ready_.Notify();
      return;
    case State::kSet:
      FCP_CHECK(false) << "FutureState has been notified, so state_ should be "
                          "kTaken or kSet";
      abort();  // Compiler thinks FCP_CHECK(false) might return
    case State::kTaken:
      FCP_CHECK(false) << "FutureState has already been taken from";
      abort();  // Compiler thinks FCP_CHECK(false) might return
  }
}

template <typename T>
std::optional<T> Fu''', '''  FCP_CHECK(state_ == State::kNotSet) << "bad state";
  value_ = std::move(val);
  state_ = State::kSet;
  ready_.Notify();
}

template <typename T>
std::optional<T> Fu''')
# B02
M("B02", SD, "    steps_.emplace_back(std::move(task));", "    steps_.emplace_front(std::move(task));")
M("B02", SD, "    if (running_ || steps_.empty()) {", "    if (steps_.empty()) {")
M("B02", SD, "    running_ = true;\n", "")
M("B02", SD, "        this->running_ = false;\n", "")
M("B02", SD, "        this->MaybeRunNext();\n", "")
M("B02", SD, "      (*wrapped_task)();\n", "")
M("B02", SD, "      // Call the Task which is stored in wrapped_task.value.\n      (*wrapped_task)();\n", "", "        this->MaybeRunNext();\n      }", "        this->MaybeRunNext();\n      }\n      (*wrapped_task)();")
M("B02", SD, "    auto task = std::move(steps_.front());\n    steps_.pop_front();", "    auto task = std::move(steps_.back());\n    steps_.pop_back();")
M("B02", SD, "    steps_.pop_front();\n", "")
M("B02", SD, "active_count_(thread_count)", "active_count_(0)")
M("B02", SD, "      work_available_cond_var_.SignalAll();", "      work_available_cond_var_.Signal();")
M("B02", SD, "      threads_should_join_ = true;\n", "")
M("B02", SD, "    // Wake up a *single* thread to handle this task.\n    work_available_cond_var_.Signal();\n", "")
M("B02", SD, "    busy_.LockWhen(idle_condition_);", "    busy_.Lock();")
M("B02", SD, "return pool->todo_.empty() && pool->active_count_ == 0;", "return pool->todo_.empty();")
M("B02", SD, "return pool->todo_.empty() && pool->active_count_ == 0;", "return pool->active_count_ == 0;")
M("B02", SD, "return pool->todo_.empty() && pool->active_count_ == 0;", "return pool->todo_.empty() || pool->active_count_ == 0;")
M("B02", SD, "        ++active_count_;\n      }\n\n      task();", "      }\n\n      task();\n      absl::MutexLock lock(&busy_);\n      ++active_count_;")
M("B02", SD, "        todo_.pop();\n", "")
M("B02", SD, "      }\n\n      task();\n", "      task();\n      }\n")
M("B02", SD, "        while (todo_.empty()) {\n          if (threads_should_join_) {\n            return;\n          }\n\n          work_available_cond_var_.Wait(&busy_);\n        }", "        if (todo_.empty()) {\n          if (threads_should_join_) {\n            return;\n          }\n\n          work_available_cond_var_.Wait(&busy_);\n        }")
M("B02", SD, "        while (todo_.empty()) {\n          if (threads_should_join_) {\n            return;\n          }\n", "        if (threads_should_join_) return;\n        while (todo_.empty()) {\n")
N("B02", SD, "    if (running_ || steps_.empty()) {", "    if (steps_.empty()) return;\n    if (running_) {")
N("B02", SD, "    todo_.push(std::move(task));", "    todo_.emplace(std::move(task));")
N("B02", SD, "return pool->todo_.empty() && pool->active_count_ == 0;", "if (pool->active_count_ != 0) return false;\n    return pool->todo_.empty();")
N("B02", SD, "return pool->todo_.empty() && pool->active_count_ == 0;", "return pool->todo_.size() == 0 && !pool->active_count_;")
N("B02", SD, '''        while (todo_.empty()) {
          if (threads_should_join_) {
            return;
          }

          work_available_cond_var_.Wait(&busy_);
        }
''', '''        while (todo_.empty() && !threads_should_join_) {
          work_available_cond_var_.Wait(&busy_);
        }
        if (todo_.empty()) return;
''')
N("B02", SD, "    auto task = std::move(steps_.front());\n    steps_.pop_front();\n    running_ = true;", "    running_ = true;\n    std::function<void()> task = std::move(steps_.front());\n    steps_.erase(steps_.begin());")
# B03 / B04
M("B03", SD, "    absl::MutexLock lock(&busy_);\n    todo_.push(std::move(task));", "    todo_.push(std::move(task));")
M("B03", SIM, "    absl::MutexLock lock(mutex());\n    now_ = t;", "    now_ = t;")
M("B03", CK, "  absl::MutexLock lock(mutex());\n  int current_dispatch_level", "  int current_dispatch_level")
M("B03", SD, "    busy_.LockWhen(idle_condition_);\n    busy_.Unlock();", "    busy_.LockWhen(idle_condition_);")
M("B03", WS, "    absl::MutexLock lock(&mutex_);\n    FCP_CHECK(started_count_ >= 0);\n    if", "    FCP_CHECK(started_count_ >= 0);\n    if")
M("B04", SIM, "    now_ = t;\n  }\n  DispatchWakeups();", "    now_ = t;\n  DispatchWakeups();\n  }")
M("B04", SIM, "    absl::MutexLock lock(mutex());\n    now_ = t;", "    absl::MutexLock lock(mutex());\n    now_ = std::max(Now(), t);")
M("B04", SD, "      // Call the Task which is stored in wrapped_task.value.\n      (*wrapped_task)();\n", "      absl::MutexLock outer(&this->busy_);\n      (*wrapped_task)();\n")
# B05
M("B05", CK, "      it->second.push_back(waiter);\n", "")
M("B05", CK, "  DispatchWakeups();\n}\n\n// DispatchWakeup performs", "}\n\n// DispatchWakeup performs")
M("B05", CK, "    pending_waiters_.erase(iter);\n", "    pending_waiters_.erase(iter);\n    break;\n", "  } while (!FinishDispatchAndScheduleNextWakeup());", "  } while (false);\n  FinishDispatchAndScheduleNextWakeup();")
M("B05", CK, "         iter->first <= now) {", "         iter->first > now) {")
M("B05", CK, "pending_waiters_.end() &&\n         iter->first <= now) {", "pending_waiters_.end()) {")
M("B05", CK, "    if (current_dispatch_level > 1) {", "    if (current_dispatch_level > 2) {")
M("B05", CK, "    ScheduleWakeup(next_wakeup);\n", "")
M("B05", CK, "    ScheduleWakeup(next_wakeup);", "    ScheduleWakeup(pending_waiters_.rbegin()->first);")
M("B05", CK, "    if (next_wakeup <= NowLocked()) {\n      // One more dispatch loop is needed because a new waiter has become due\n      // while the wake-ups were dispatched.\n      return false;\n    }\n", "")
M("B05", CK, "return ++dispatch_level_ > 1;", "return dispatch_level_++ > 1;")
M("B05", CK, "        dispatch = true;\n", "")
M("B05", CK, "  next_wakeup_ = wakeup_time;\n  wakeup_condvar_.Signal();", "  next_wakeup_ = wakeup_time;")
M("B05", CK, "  if (wakeup_time == next_wakeup_) {", "  if (wakeup_time >= next_wakeup_) {")
M("B05", CK, "      if (Now() >= next_wakeup_) {", "      if (next_wakeup_ != absl::InfiniteFuture()) {")
M("B05", SIM, "    now_ = t;\n  }\n  DispatchWakeups();", "    now_ = t;\n  }")
M("B05", SIM, "    now_ += d;", "    now_ -= d;")
M("B05", CK, "    std::move(iter->second.begin(), iter->second.end(),\n              std::back_inserter(wakeup_calls));\n", "")
M("B05", CK, "  dispatch_level_ = 0;\n", "")
N("B05", CK, "return ++dispatch_level_ > 1;", "dispatch_level_++;\n  return dispatch_level_ >= 2;")
N("B05", CK, '''    WaiterMap::iterator it;
    if ((it = pending_waiters_.find(deadline)) != pending_waiters_.end()) {
      it->second.push_back(waiter);
    } else {
      pending_waiters_.insert(std::make_pair(deadline, WaiterList{waiter}));
    }''', "    pending_waiters_[deadline].push_back(waiter);")
N("B05", CK, '''    std::move(iter->second.begin(), iter->second.end(),
              std::back_inserter(wakeup_calls));
''', '''    for (auto& w : iter->second) {
      wakeup_calls.push_back(std::move(w));
    }
''')
N("B05", CK, '''  while ((iter = pending_waiters_.begin()) != pending_waiters_.end() &&
         iter->first <= now) {
''', '''  for (;;) {
    iter = pending_waiters_.begin();
    if (iter == pending_waiters_.end() || iter->first > now) break;
''')
N("B05", SIM, "    now_ += d;", "    now_ = now_ + d;")
N("B05", CK, "  if (!pending_waiters_.empty()) {\n    if (current_dispatch_level > 1) {", "  if (pending_waiters_.empty()) return true;\n  {\n    if (current_dispatch_level > 1) {")
# B06
M("B06", CO, "  if (input_stream.ZlibErrorMessage() != nullptr) {", "  if (out.empty() && input_stream.ZlibErrorMessage() != nullptr) {")
M("B06", CO, "  if (!compressed_stream.Close()) {", "  compressed_stream.Flush();\n  if (false) {")
M("B06", CO, "  if (!compressed_stream.Close()) {", "  if (!compressed_stream.Flush()) {")
M("B06", CO, "    starting_pos += out_size;", "    starting_pos += out_size - 1;")
M("B06", CO, "      compressed_stream.BackUp(out_size - static_cast<int>(in_size));", "      compressed_stream.BackUp(out_size - static_cast<int>(str_size));")
M("B06", CO, "    if (in_size <= out_size) {", "    if (in_size <= out_size + 1) {")
M("B06", CO, "(buffer), size));", "(buffer), size - 1));")
M("B06", CO, "    if (size <= -1) {", "    if (size == 4096) continue;\n    if (size <= -1) {")
M("B06", PL, "  os << content;\n  os.close();\n  if (!os) {", "  os << content;\n  if (!os) {")
M("B06", PL, "  os << content;\n  os.close();\n  if (!os) {", "  os << content;\n  os.close();\n  if (false) {")
M("B06", PL, "  if (!is || !buffer) {", "  if (is.eof() && !buffer) {")
M("B06", PL, '''  if (!is) {
    return absl::InternalError(
        absl::StrCat("cannot read file ", file_name_str));
  }
''', "")
N("B06", PL, "  if (!is || !buffer) {", "  if (is.fail() || buffer.fail()) {")
N("B06", PL, "  os << content;\n  os.close();\n  if (!os) {", "  os.write(content.data(), content.size());\n  os.flush();\n  if (!os.good()) {")
N("B06", CO, "    if (in_size <= out_size) {", "    const bool last = in_size <= out_size;\n    if (last) {")
N("B06", CO, "    out.Append(absl::string_view(reinterpret_cast<const char*>(buffer), size));", "    absl::string_view chunk(static_cast<const char*>(buffer), size);\n    out.Append(chunk);")
# B07
M("B07", UV, "    other.value_.reset();\n", "")
M("B07", UV, "    value_.reset();\n    return v;", "    return v;")
M("B07", UV, "  UniqueValue(UniqueValue const&) = delete;", "  UniqueValue(UniqueValue const& other) : value_(other.value_) {}")
M("B07", UV, "  constexpr T Take() && {", "  constexpr T Take() {")
M("B07", RG, "    if (!in_use->compare_exchange_strong(expected_value, true)) {", "    if (in_use->load()) {")
M("B07", RG, "    in_use_ = in_use;\n    return FCP_STATUS(OK);", "    return FCP_STATUS(OK);", "    bool expected_value", "    in_use_ = in_use;\n    bool expected_value")
M("B07", RG, "    in_use_ = in_use;\n", "")
M("B07", RG, "      in_use_->store(false);", "      in_use_->store(true);")
N("B07", RG, "    if (!in_use->compare_exchange_strong(expected_value, true)) {", "    if (in_use->exchange(true)) {")
N("B07", UV, "    T v = *std::move(value_);\n    value_.reset();", "    T v = std::move(*value_);\n    value_ = std::nullopt;")
N("B07", UV, "  UniqueValue& operator=(UniqueValue other) {\n    value_.swap(other.value_);\n    return *this;", "  UniqueValue& operator=(UniqueValue&& other) {\n    if (this != &other) {\n    value_ = std::move(other.value_);\n    other.value_.reset();\n    }\n    return *this;")
# B08
M("B08", ID, "ProcessUniqueId(next_id.fetch_add(1, std::memory_order_relaxed))", "ProcessUniqueId(next_id.load() + 1)")
M("B08", ID, "  return ProcessUniqueId(next_id.fetch_add(1, std::memory_order_relaxed));", "  uint64_t id = next_id.load();\n  next_id.store(id + 1);\n  return ProcessUniqueId(id);")
M("B08", ID, "fetch_add(1,", "fetch_add(0,")
M("B08", RT, "  FCP_CHECK(r == 1);", "  FCP_CHECK(r >= 0);")
M("B08", RT, "  int r = RAND_bytes(reinterpret_cast<unsigned char*>(words),\n                     kRandomTokenSizeInBytes);", "  int r = RAND_bytes(reinterpret_cast<unsigned char*>(words),\n                     sizeof(words[0]));")
M("B08", B + "random_token.h", "    return words_[0] == other.words_[0] && words_[1] == other.words_[1];", "    return words_[0] == other.words_[0];")
M("B08", RT, "  FCP_CHECK(bytes.size() == kRandomTokenSizeInBytes);", "  FCP_CHECK(!bytes.empty());")
M("B08", DG, "data.data(), data.length()));", "data.data(), strlen(data.data())));")
M("B08", DG, "FCP_CHECK(EVP_DigestUpdate(mdctx, chunk.data(), chunk.length()));", "FCP_CHECK(EVP_DigestUpdate(mdctx, chunk.data(), chunk.length()));\n      break;")
M("B08", DG, "FCP_CHECK(EVP_DigestUpdate(mdctx, chunk.data(), chunk.length()));", "EVP_DigestUpdate(mdctx, chunk.data(), chunk.length());")
M("B08", DG, "  FCP_CHECK(EVP_DigestFinal_ex(\n      mdctx.get(), reinterpret_cast<uint8_t*>(result.data()), nullptr));", "  EVP_DigestFinal_ex(\n      mdctx.get(), reinterpret_cast<uint8_t*>(result.data()), nullptr);")
N("B08", ID, "next_id.fetch_add(1, std::memory_order_relaxed)", "next_id++")
N("B08", ID, "  return ProcessUniqueId(next_id.fetch_add(1, std::memory_order_relaxed));", "  const uint64_t id = next_id.fetch_add(1);\n  return ProcessUniqueId(id);")
N("B08", DG, "data.data(), data.length()));", "data.data(), data.size()));")
N("B08", RT, "  FCP_CHECK(r == 1);", "  if (r != 1) {\n    FCP_LOG(FATAL) << \"no randomness\";\n  }")
# B09
M("B09", WS, "    if (started_count_ == 1) {\n      latest_start_time_ = absl::Now();\n    }", "    latest_start_time_ = absl::Now();")
M("B09", WS, "    started_count_++;\n    if (started_count_ == 1)", "    if (started_count_ == 1)")
M("B09", WS, "      latest_start_time_ = absl::InfiniteFuture();\n", "")
M("B09", WS, "      previous_durations_ += absl::Now()", "      previous_durations_ = absl::Now()")
M("B09", WS, "    return previous_durations_ + (absl::Now() - latest_start_time_);", "    return absl::Now() - latest_start_time_;")
M("B09", WS, "    stopwatch_->StopInternal();", "    stopwatch_->GetTotalDuration();")
M("B09", WS, "    if (started_count_ == 0) {\n      previous", "    {\n      previous")
N("B09", WS, "    started_count_++;\n    if (started_count_ == 1) {", "    if (++started_count_ == 1) {")
N("B09", WS, "    if (latest_start_time_ == absl::InfiniteFuture()) {", "    if (started_count_ == 0) {")
N("B09", WS, "      previous_durations_ += absl::Now() - latest_start_time_;", "      previous_durations_ = previous_durations_ + (absl::Now() - latest_start_time_);")
# B10
M("B10", ST, "    MAP_FROM_GRPC_STATUS(ABORTED, kAborted)\n", "")
M("B10", ST, "MAP_FROM_GRPC_STATUS(DATA_LOSS, kDataLoss)", "MAP_FROM_GRPC_STATUS(DATA_LOSS, kInternal)")
M("B10", ST, "    default:\n      return StatusCode::kUnknown;", "    default:\n      return StatusCode::kOk;")
M("B10", ST, "MAP_TO_GRPC_STATUS(kUnavailable, UNAVAILABLE)", "MAP_TO_GRPC_STATUS(kUnavailable, OK)")
M("B10", ST, "    return grpc::Status(code, std::string(status.message()));", "    return grpc::Status(code, \"\");")
M("B10", ST, "  if (code != grpc::StatusCode::OK) {", "  if (code != grpc::StatusCode::OK && code != grpc::StatusCode::CANCELLED) {")
M("B10", TU, "absl::Nanoseconds(proto.nanos());\n}\n\ngoogle", "absl::Microseconds(proto.nanos());\n}\n\ngoogle")
M("B10", TU, "  return absl::Seconds(proto.seconds()) + absl::Nanoseconds(proto.nanos());", "  return absl::Seconds(proto.seconds());")
M("B10", TU, "(t - absl::FromUnixSeconds(s)) /\n                            absl::Nanoseconds(1)", "(t - absl::FromUnixSeconds(s)) /\n                            absl::Microseconds(1)")
M("B10", TU, "    proto_duration.set_nanos(static_cast<int32_t>(n));\n", "")
N("B10", TU, "  const int64_t s = absl::ToUnixSeconds(t);\n  proto_timestamp.set_seconds(s);", "  proto_timestamp.set_seconds(absl::ToUnixSeconds(t));\n  const int64_t s = proto_timestamp.seconds();")
N("B10", ST, "  if (code != grpc::StatusCode::OK) {\n    return grpc::Status(code, std::string(status.message()));\n  }\n\n  return grpc::Status::OK;", "  if (code == grpc::StatusCode::OK) return grpc::Status::OK;\n  return {code, std::string(status.message())};")
N("B10", ST, "  if (code != grpc::StatusCode::OK) {", "  if (!status.ok()) {")
N("B10", TU, "  return absl::Seconds(proto.seconds()) + absl::Nanoseconds(proto.nanos());", "  const absl::Duration whole = absl::Seconds(proto.seconds());\n  return absl::Nanoseconds(proto.nanos()) + whole;")
