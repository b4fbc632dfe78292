from mutate import M, N
ED = "fcp/client/eligibility_decider.cc"
FR = "fcp/client/fl_runner.cc"
X = "fcp/client/engine/example_query_plan_engine.cc"

# ---- D12
M("D13", ED, "  if (trustworthiness_period < min_period) {\n    // No tasks eligible, return empty set\n    return {};\n  }\n\n  // For group", "  // For group")
M("D13", ED, "  if (trustworthiness_period < min_period) {\n    // No tasks eligible, return empty set\n    return {};\n  }\n\n  // For group", "  if (trustworthiness_period > min_period) {\n    // No tasks eligible, return empty set\n    return {};\n  }\n\n  // For group")
M("D13", ED, "    if (!compiled_pattern.ok()) {\n      // Bug in the group pattern, opt out all tasks. This should never happen\n      // with the existing toolkit apis.\n      return {};", "    if (!compiled_pattern.ok()) {\n      // Bug in the group pattern, opt out all tasks. This should never happen\n      // with the existing toolkit apis.\n      return task_names;")
M("D13", ED, "    if (!last_successful_contribution_time.has_value() ||\n        ExecutionOutsideSworPeriod(now, min_period,\n                                   last_successful_contribution_time.value())) {\n      return task_names;\n    } else {", "    if (last_successful_contribution_time.has_value() &&\n        ExecutionOutsideSworPeriod(now, min_period,\n                                   last_successful_contribution_time.value())) {\n      return task_names;\n    } else {")
M("D13", ED, "  return min_period < period_between_last_successful_contribution;", "  return min_period > period_between_last_successful_contribution;")
M("D13", ED, "            opstats::GetLastSuccessfulContributionTime(opstats_sequence,\n                                                       task_name);", "            opstats::GetLastSuccessfulContributionTime(opstats_sequence,\n                                                       *task_names.begin());")
M("D13", ED, "    return example_query_result.stats().example_count_for_logs() >=\n           min_example_count;", "    return example_query_result.stats().example_count_for_logs() > 0;")
M("D13", ED, "      if (absl::IsOutOfRange(example.status())) {\n        // No more examples, and the client did not return a sufficient amount\n        // to satisfy the policy.\n        return false;", "      if (absl::IsOutOfRange(example.status())) {\n        // No more examples, and the client did not return a sufficient amount\n        // to satisfy the policy.\n        return examples_returned > 0;")
M("D13", ED, "    while (examples_returned < min_example_count) {", "    while (examples_returned + 1 < min_example_count) {")
M("D13", ED, "      // By here, the example is not ok, and the status is unexpected.\n      return example.status();", "      // By here, the example is not ok, and the status is unexpected.\n      break;")
M("D13", ED, "  if (plan_result.outcome != engine::PlanOutcome::kSuccess) {\n    return plan_result.original_status;\n  }\n", "  if (plan_result.outcome == engine::PlanOutcome::kInterrupted) {\n    return plan_result.original_status;\n  }\n")
M("D13", ED, "    if (task_weight.weight() > 0) {", "    if (task_weight.weight() >= 0) {")
M("D13", ED, "    if ((min_sep_policy.current_index() -\n         last_successful_contribution_index.value()) >\n", "    if ((min_sep_policy.current_index() -\n         last_successful_contribution_index.value()) >=\n")
M("D13", ED, "    if ((min_sep_policy.current_index() -\n         last_successful_contribution_index.value()) >\n", "    if ((last_successful_contribution_index.value() -\n         min_sep_policy.current_index()) >\n")
M("D13", ED, "    if (!last_successful_contribution_index.has_value()) {\n      eligibility_results.insert(task_name);\n      continue;\n    }", "    if (!last_successful_contribution_index.has_value()) {\n      continue;\n    }")
M("D12", ED, "    policy_name_to_task_names[policy_spec.name()] = task_names;", "    if (task_names.size() > 1) policy_name_to_task_names[policy_spec.name()] = task_names;")
M("D12", ED, "        if (policy_index == i) {", "        if (policy_index == i - 1) {")
M("D12", ED, "      for (int i : task_info.eligibility_policy_indices()) {\n        if (policy_index == i) {", "      for (int i : task_info.eligibility_policy_indices()) {\n        if (i != policy_index) break;\n        {")
M("D12", ED, "          eligible_policy_task_names = *tf_policy_task_names;\n        } else {", "          eligible_policy_task_names = *tf_policy_task_names;\n        } else {\n          eligible_policy_task_names = policy_task_names;")
M("D12", ED, "              eligible_policy_task_names = policy_task_names;\n            }\n", "              eligible_policy_task_names = policy_task_names;\n            } else { continue; }\n")
M("D12", ED, "            // No tasks are eligible, so leave eligible_policy_task_names\n            // empty. Below, we'll remove them from the overall eligible\n            // tasks.\n          }", "            continue;\n          }")
M("D12", ED, "    for (const std::string& task_name : policy_task_names) {\n      if (!eligible_policy_task_names.contains(task_name)) {\n        eligible_tasks.erase(task_name);\n      }\n    }", "    for (const std::string& task_name : policy_task_names) {\n      if (!eligible_policy_task_names.contains(task_name)) {\n        eligible_tasks.erase(task_name);\n        break;\n      }\n    }")
M("D12", ED, "    for (const std::string& task_name : policy_task_names) {\n      if (!eligible_policy_task_names.contains(task_name)) {\n        eligible_tasks.erase(task_name);\n      }\n    }", "    if (eligible_policy_task_names.size() != policy_task_names.size() && !eligible_policy_task_names.empty()) {\n    for (const std::string& task_name : policy_task_names) {\n      if (!eligible_policy_task_names.contains(task_name)) {\n        eligible_tasks.erase(task_name);\n      }\n    }\n    }")
M("D12", ED, "    for (const std::string& task_name : policy_task_names) {\n      if (!eligible_policy_task_names.contains(task_name)) {\n        eligible_tasks.erase(task_name);\n      }\n    }", "    eligible_tasks = eligible_policy_task_names;")
M("D12", ED, "    task_weight->set_task_name(task_info.task_name());\n    task_weight->set_weight(\n        eligible_tasks.contains(task_info.task_name()) ? 1.0f : 0);", "    task_weight->set_task_name(task_info.task_name());\n    task_weight->set_weight(eligible_tasks.empty() ? 0 : 1.0f);")
M("D12", ED, "    TaskWeight* task_weight = eligibility_result.mutable_task_weights()->Add();", "    if (!eligible_tasks.contains(task_info.task_name())) continue;\n    TaskWeight* task_weight = eligibility_result.mutable_task_weights()->Add();")
M("D12", ED, "          if (kDataAvailabilityImplementationVersionWithExampleQueryResult <\n              policy_spec.min_version()) {", "          if (kDataAvailabilityImplementationVersionWithExampleQueryResult + 1 <\n              policy_spec.min_version()) {")
M("D12", ED, "                     return !eligible_tasks.contains(policy_task_name);", "                     return eligible_tasks.contains(policy_task_name);")
M("D13", ED, "      if (trustworthiness_period < min_period) {\n        // No tasks eligible, return empty set\n        return {};", "      if (trustworthiness_period < min_period) {\n        // No tasks eligible, return empty set\n        return task_names;")
# not noticed: M("D13", ED, "    (*feature_map)[kTaskNames] = CreateFeatureFromStrings(task_names);", "    (*feature_map)[kTaskNames] = CreateFeatureFromStrings({task_names[0]});")
M("D12", FR, "        result.task_names_for_multiple_task_assignments.push_back(task_name);\n      } else {", "        result.task_names_for_multiple_task_assignments = task_names_for_multiple_task_assignments;\n      } else {")
N("D12 D13", ED, "    for (const std::string& task_name : policy_task_names) {\n      if (!eligible_policy_task_names.contains(task_name)) {\n        eligible_tasks.erase(task_name);\n      }\n    }", "    absl::erase_if(eligible_tasks, [&](const std::string& task_name) {\n      return policy_task_names.contains(task_name) &&\n             !eligible_policy_task_names.contains(task_name);\n    });")
N("D12 D13", ED, "    for (const std::string& task_name : policy_task_names) {\n      if (!eligible_policy_task_names.contains(task_name)) {\n        eligible_tasks.erase(task_name);\n      }\n    }", "    for (const std::string& task_name : policy_task_names) {\n      if (eligible_policy_task_names.contains(task_name)) continue;\n      eligible_tasks.erase(task_name);\n    }")
N("D12 D13", ED, "    task_weight->set_weight(\n        eligible_tasks.contains(task_info.task_name()) ? 1.0f : 0);", "    const bool eligible = eligible_tasks.contains(task_info.task_name());\n    task_weight->set_weight(eligible ? 1 : 0);")
N("D12 D13", ED, "  return min_period < period_between_last_successful_contribution;", "  return period_between_last_successful_contribution > min_period;")
N("D12 D13", ED, "    while (examples_returned < min_example_count) {\n      absl::StatusOr<std::string> example = iterator->Next();", "    for (; examples_returned < min_example_count;) {\n      auto example = iterator->Next();")
N("D12 D13", ED, "    if (!policy_implemented) {\n      continue;\n    }\n    policy_name_to_task_names[policy_spec.name()] = task_names;", "    if (policy_implemented) {\n      policy_name_to_task_names[policy_spec.name()] = std::move(task_names);\n    }")
N("D12 D13", ED, "    if (eligible_tasks.empty()) {\n      break;\n    }\n", "")
N("D12 D13", ED, "    // If policy_task_names is now empty, there's no need to compute eligibility\n    // for this policy.\n    if (policy_task_names.empty()) {\n      continue;\n    }\n", "")
N("D12 D13", ED, "    if (!policy_name_to_task_names.contains(policy_spec.name())) {\n      continue;\n    }\n\n    // The task names this policy applies to.\n    absl::flat_hash_set<std::string> policy_task_names =\n        policy_name_to_task_names.at(policy_spec.name());", "    auto known = policy_name_to_task_names.find(policy_spec.name());\n    if (known == policy_name_to_task_names.end()) {\n      continue;\n    }\n\n    // The task names this policy applies to.\n    absl::flat_hash_set<std::string> policy_task_names = known->second;")
N("D12 D13", ED, "  if (!task_names_using_unimplemented_policies.empty()) {\n    absl::erase_if(eligible_tasks, [&task_names_using_unimplemented_policies](\n                                       const std::string& task_name) {\n      return task_names_using_unimplemented_policies.contains(task_name);\n    });\n  }", "  for (const std::string& name : task_names_using_unimplemented_policies) {\n    eligible_tasks.erase(name);\n  }")
