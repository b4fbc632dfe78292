# D11 interruption
IRC = "fcp/client/interruptible_runner.cc"
M("D11", IRC, '  if (should_abort_()) {\n    return absl::CancelledError("cancelled before posting callable");\n  }\n', "")
M("D11", IRC, "    if (should_abort_()) {\n      return Abort(", "    if (timing_config_.polling_period > absl::Seconds(1) && should_abort_()) {\n      return Abort(")
M("D11", IRC, "  abort_function();\n", "")
M("D11", IRC, "  if (run_future.Wait(timing_config_.graceful_shutdown_period)) {\n    log", "  if (!run_future.Wait(timing_config_.graceful_shutdown_period)) {\n    log")
M("D11", IRC, "  exit(0);\n", '  return absl::CancelledError("gave up");\n')
M("D11", IRC, '    return absl::CancelledError("cancelled after extended wait");', '    return absl::OkStatus();')
M("D11", IRC, "  return WaitUntilDone(std::move(run_future), abort_function);", "  (void)WaitUntilDone(std::move(run_future), abort_function);\n  return absl::OkStatus();")
M("D11", "fcp/client/interruptible_runner.h", "{ thread_pool_->WaitUntilIdle(); }", "{}")
N("D11", IRC, '  if (should_abort_()) {\n    return absl::CancelledError("cancelled before posting callable");\n  }\n', '  const bool stop = should_abort_();\n  if (stop) {\n    return absl::Status(absl::StatusCode::kCancelled, "cancelled before posting callable");\n  }\n')

# D12 eligibility is decided by all policies together
ED = "fcp/client/eligibility_decider.cc"
M("D12", ED, "          policy_implemented = false;\n    }\n\n    absl::flat_hash_set", "          break;\n    }\n\n    absl::flat_hash_set")
M("D12", ED, "        if (kSworImplementationVersion < policy_spec.min_version()) {", "        if (kSworImplementationVersion > policy_spec.min_version()) {")
M("D12", ED, "        if (kTfCustomPolicyImplementationVersion < policy_spec.min_version()) {\n            policy_implemented = false;\n        }\n", "")
M("D12", ED, "          if (!policy_implemented) {\n            task_names_using", "          if (policy_implemented) {\n            task_names_using")
M("D12", ED, "    if (!policy_implemented) {\n      continue;\n    }\n", "")
M("D12", ED, "      return task_names_using_unimplemented_policies.contains(task_name);", "      return !task_names_using_unimplemented_policies.contains(task_name);")
M("D12", ED, """  if (!task_names_using_unimplemented_policies.empty()) {
    absl::erase_if(eligible_tasks, [&task_names_using_unimplemented_policies](
                                       const std::string& task_name) {
      return task_names_using_unimplemented_policies.contains(task_name);
    });
  }
""", "")
M("D12", ED, "    if (policy_task_names.empty()) {\n      continue;", "    if (policy_task_names.size() < 2) {\n      continue;")
M("D12", ED, "          if (data_is_available.ok()) {\n            if (*data_is_available) {", "          if (data_is_available.ok() || absl::IsInvalidArgument(data_is_available.status())) {\n            if (!data_is_available.ok() || *data_is_available) {")
M("D12", ED, "            if (*data_is_available) {", "            if (!*data_is_available) {")
M("D12", ED, "      if (!eligible_policy_task_names.contains(task_name)) {", "      if (eligible_policy_task_names.contains(task_name)) {")
M("D12", ED, "        eligible_tasks.erase(task_name);", "        policy_task_names.contains(task_name);")
M("D12", ED, "eligible_tasks.contains(task_info.task_name()) ? 1.0f : 0)", "eligible_tasks.contains(task_info.task_name()) ? 0 : 1.0f)")
M("D12", "fcp/client/fl_runner.cc", "if (task_weight.weight() > 0 &&", "if (task_weight.weight() >= 0 &&")
N("D12", ED, "        if (kSworImplementationVersion < policy_spec.min_version()) {\n          policy_implemented = false;\n        }", "        policy_implemented = policy_spec.min_version() <= kSworImplementationVersion;")
N("D12", ED, "    if (policy_task_names.empty()) {\n      continue;", "    if (policy_task_names.size() == 0) {\n      continue;")
N("D12", ED, "      if (!eligible_policy_task_names.contains(task_name)) {", "      if (eligible_policy_task_names.contains(task_name)) continue;\n      {")
N("D12", ED, "          if (data_is_available.ok()) {\n            if (*data_is_available) {", "          if (data_is_available.ok()) {\n            const bool available = data_is_available.value();\n            if (available) {")

# D13 what the individual policies allow
M("D13", ED, "  if (trustworthiness_period < min_period) {\n    // No tasks eligible, return empty set\n    return {};\n  }\n\n  // For group", "\n  // For group")
M("D13", ED, "  if (trustworthiness_period < min_period) {\n    // No tasks", "  if (trustworthiness_period > min_period) {\n    // No tasks")
M("D13", ED, "      // with the existing toolkit apis.\n      return {};", "      // with the existing toolkit apis.\n      return task_names;")
M("D13", ED, "    } else {\n      return {};\n    }", "    } else {\n      return task_names;\n    }")
M("D13", ED, "    if (!last_successful_contribution_time.has_value()) {\n      eligibility_results.insert(task_name);\n      continue;\n    }", "    if (!last_successful_contribution_time.has_value()) {\n      continue;\n    }")
M("D13", ED, "         last_successful_contribution_index.value()) >\n        min_sep", "         last_successful_contribution_index.value()) >=\n        min_sep")
M("D13", ED, "    if (min_period != absl::ZeroDuration()) {", "    if (min_period == absl::ZeroDuration()) {")
M("D13", ED, "      if (trustworthiness_period < min_period) {\n        // No tasks", "      if (trustworthiness_period < min_period / 2) {\n        // No tasks")
M("D13", ED, "    while (examples_returned < min_example_count) {", "    while (examples_returned < min_example_count - 1) {")
M("D13", ED, "stats().example_count_for_logs() >=\n           min_example_count", "stats().example_count_for_logs() <=\n           min_example_count")
M("D13", ED, "        return false;\n      }\n      // By here", "        break;\n      }\n      // By here")
M("D13", ED, "      // By here, the example is not ok, and the status is unexpected.\n      return example.status();", "      return false;")
M("D13", ED, "    if (task_weight.weight() > 0) {", "    if (task_weight.weight() >= 0) {")
M("D13", ED, "  if (plan_result.outcome != engine::PlanOutcome::kSuccess) {", "  if (plan_result.outcome == engine::PlanOutcome::kTensorflowError) {")
N("D13", ED, "  if (trustworthiness_period < min_period) {\n    // No tasks", "  if (!(min_period <= trustworthiness_period)) {\n    // No tasks")
N("D13", ED, "    if (!last_successful_contribution_time.has_value()) {\n      eligibility_results.insert(task_name);\n      continue;\n    }\n\n    if (Exec", "    if (!last_successful_contribution_time.has_value() ||\n        Exec", )
N("D13", ED, "    int examples_returned = 0;\n    while (examples_returned < min_example_count) {", "    for (int examples_returned = 0; min_example_count > examples_returned;) {")

# D14 contributions and their reports
FLR = "fcp/client/fl_runner.cc"
PLI = "fcp/client/phase_logger_impl.cc"
M("D14", FLR, "    FCP_RETURN_IF_ERROR(phase_logger.LogResultUploadStarted());", "    phase_logger.LogResultUploadStarted().IgnoreError();")
M("D14", FLR, "    FCP_RETURN_IF_ERROR(phase_logger.LogFailureUploadStarted());", "")
M("D14", FLR, "        has_results && report_result.ok()) {\n      // Only", "        has_results) {\n      // Only")
M("D14", FLR, "    if (run_plan_results.outcome == engine::PlanOutcome::kSuccess &&\n        has_results && report_result.ok()) {", "    if (run_plan_results.outcome == engine::PlanOutcome::kSuccess &&\n        report_result.ok()) {")
M("D14", FLR, "      if (run_plan_results.outcome == engine::PlanOutcome::kSuccess &&\n          has_results && report_result.ok()) {", "      if (report_result.ok()) {")
M("D14", FLR, "                         task_assignment.aggregation_session_id);", "                         multiple_task_assignments.front().aggregation_session_id);")
M("D14", FLR, "                         task_assignment.aggregation_session_id);", "                         std::nullopt);")
M("D14", FLR, "      successful_task_names.push_back(task_assignment.task_name);\n      task_result_info.set_result(true);\n    } else {\n      task_result_info.set_result(false);\n    }", "      task_result_info.set_result(true);\n    } else {\n      task_result_info.set_result(false);\n    }\n    successful_task_names.push_back(task_assignment.task_name);")
M("D14", FLR, "    env_deps->OnTaskCompleted(std::move(task_result_info));\n  }\n  return", "    if (task_result_info.result()) {\n      env_deps->OnTaskCompleted(std::move(task_result_info));\n    }\n  }\n  return")
M("D14", FLR, "  if (!successful_task_names.empty()) {\n    if (successful_task_names.size() == expected_num_tasks) {", "  {\n    if (successful_task_names.size() == expected_num_tasks) {")
M("D14", FLR, "    if (successful_task_names.size() == expected_num_tasks) {", "    if (successful_task_names.size() != expected_num_tasks) {")
M("D14", PLI, "  FCP_RETURN_IF_ERROR(opstats_logger_->CommitToStorage());\n  event_publisher_->PublishResultUploadStarted();", "  opstats_logger_->CommitToStorage().IgnoreError();\n  event_publisher_->PublishResultUploadStarted();")
M("D14", PLI, "  opstats_logger_->AddEvent(\n      OperationalStats::Event::EVENT_KIND_RESULT_UPLOAD_STARTED);\n  // Commit the run data accumulated thus far to Opstats and fail if\n  // something goes wrong.\n  FCP_RETURN_IF_ERROR(opstats_logger_->CommitToStorage());", "  FCP_RETURN_IF_ERROR(opstats_logger_->CommitToStorage());\n  opstats_logger_->AddEvent(\n      OperationalStats::Event::EVENT_KIND_RESULT_UPLOAD_STARTED);")
M("D14", FLR, "  if (outcome == engine::PlanOutcome::kSuccess) {\n    computation_results = ", "  {\n    computation_results = ", "  if (plan_result.outcome != engine::PlanOutcome::kSuccess) {", "  if (plan_result.outcome == engine::PlanOutcome::kTensorflowError) {")
N("D14", FLR, "    FCP_RETURN_IF_ERROR(phase_logger.LogResultUploadStarted());", "    absl::Status logged = phase_logger.LogResultUploadStarted();\n    if (!logged.ok()) return logged;")
N("D14", FLR, "      successful_task_names.push_back(task_assignment.task_name);\n      task_result_info.set_result(true);\n    } else {\n      task_result_info.set_result(false);\n    }", "      successful_task_names.emplace_back(task_assignment.task_name);\n    }\n    task_result_info.set_result(run_plan_results.outcome == engine::PlanOutcome::kSuccess && has_results && report_result.ok());")
N("D14", FLR, "  if (!successful_task_names.empty()) {\n    if (successful_task_names.size() == expected_num_tasks) {\n      fl_runner_result.set_contribution_result(FLRunnerResult::SUCCESS);\n    } else {\n      fl_runner_result.set_contribution_result(FLRunnerResult::PARTIAL);\n    }\n  }", "  if (successful_task_names.size() > 0) {\n    fl_runner_result.set_contribution_result(\n        successful_task_names.size() == expected_num_tasks\n            ? FLRunnerResult::SUCCESS\n            : FLRunnerResult::PARTIAL);\n  }")

# D15 the order of a session
M("D15", FLR, '    phase_logger.LogTaskNotStarted(message);\n    return fl_runner_result;\n  }\n\n  // Eligibility', '    phase_logger.LogTaskNotStarted(message);\n  }\n\n  // Eligibility')
M("D15", FLR, "  if (!eligibility_eval_result.ok()) {\n    return fl_runner_result;\n  }\n\n  size_t", "  if (!eligibility_eval_result.ok() && !absl::IsInternal(eligibility_eval_result.status())) {\n    return fl_runner_result;\n  }\n\n  size_t")
M("D15", FLR, "    if (checkin_result.ok()) {\n      SelectorContext", "    {\n      SelectorContext")
M("D15", FLR, "  // Update the FLRunnerResult fields one more time to account for the \"Report\"\n  // protocol interaction.\n  UpdateRetryWindowAndNetworkStats(*federated_protocol, fedselect_manager,\n                                   phase_logger, fl_runner_result);\n\n  return", "  return")
M("D15", FLR, '    return absl::InternalError("Device rejected by server.");', '    return CheckinResult();')
N("D15", FLR, '  if (should_abort()) {\n    std::string message', '  const bool stop_now = should_abort();\n  if (stop_now) {\n    std::string message')
M("D15", FLR, '                     "checkin; aborting";\n    return absl::InternalError("");', '                     "checkin; aborting";\n    return CreateEligibilityEvalResult(std::nullopt, std::nullopt);')
M("D15", FLR, "                                     phase_logger, fl_runner_result);\n    return task_eligibility_info.status();", "                                     phase_logger, fl_runner_result);\n    return CreateEligibilityEvalResult(std::nullopt, std::nullopt);")

# D16 what is recorded is what happened
M("D16", PLI, "EVENT_KIND_INITIALIZATION_ERROR_NONFATAL,", "EVENT_KIND_INITIALIZATION_ERROR_FATAL,")
M("D16", PLI, "EVENT_KIND_COMPUTATION_ERROR_EXAMPLE_ITERATOR,", "EVENT_KIND_COMPUTATION_ERROR_TENSORFLOW,") 
M("D16", PLI, "      error_status, kComputationErrorPrefix, log_tensorflow_error_messages_);", "      error_status, kComputationErrorPrefix, true);")
M("D16", PLI, '                      keep_error_message ? error_status.message() : "");', '                      error_status.message());')
M("D16", PLI, '                      keep_error_message ? error_status.message() : "");', '                      keep_error_message ? "" : error_status.message());')
M("D16", PLI, "      OperationalStats::Event::EVENT_KIND_FAILURE_UPLOAD_FINISHED);\n  opstats_logger_->StopLoggingForTheCurrentPhase();", "      OperationalStats::Event::EVENT_KIND_FAILURE_UPLOAD_FINISHED);")
M("D16", PLI, "      OperationalStats::Event::EVENT_KIND_RESULT_UPLOAD_FINISHED);\n  opstats_logger_->Stop", "      OperationalStats::Event::EVENT_KIND_FAILURE_UPLOAD_FINISHED);\n  opstats_logger_->Stop")
M("D16", PLI, "  event_publisher_->PublishFailureUploadServerAborted(", "  event_publisher_->PublishFailureUploadClientInterrupted(")
M("D16", PLI, "  opstats_logger_->StartLoggingForPhase(\n      OperationalStats::PhaseStats::COMPUTATION);", "  opstats_logger_->StartLoggingForPhase(\n      OperationalStats::PhaseStats::ELIGIBILITY_COMPUTATION);")
M("D16", FLR, "    if (result.code() == absl::StatusCode::kAborted) {\n      phase_logger.LogResultUploadServerAborted(", "    if (result.code() == absl::StatusCode::kCancelled) {\n      phase_logger.LogResultUploadServerAborted(")
M("D16", FLR, "      if (computation_results_parsing_status.ok()) {", "      if (computation_results_parsing_status.ok() || plan_result.output_names.empty()) {")
M("D16", FLR, "    case engine::PlanOutcome::kInterrupted:\n      phase_logger", "    case engine::PlanOutcome::kExampleIteratorError:\n      phase_logger", "    case engine::PlanOutcome::kExampleIteratorError:\n      phase_logger.LogComputationExample", "    case engine::PlanOutcome::kInterrupted:\n      phase_logger.LogComputationExample")
N("D16", FLR, "    if (result.code() == absl::StatusCode::kAborted) {\n      phase_logger.LogResultUploadServerAborted(", "    if (absl::IsAborted(result)) {\n      phase_logger.LogResultUploadServerAborted(")
N("D16", PLI, '  return absl::StrCat(error_prefix, "code: ", error_status.code(), ", error: ",\n                      keep_error_message ? error_status.message() : "");', '  std::string text = absl::StrCat(error_prefix, "code: ", error_status.code(), ", error: ");\n  if (keep_error_message) {\n    absl::StrAppend(&text, error_status.message());\n  }\n  return text;')
