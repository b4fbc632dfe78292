from mutate import M, N
F = "fcp/client/cache/file_backed_resource_cache.cc"

# E01 resource cache
M("E01", F, "  if (resource.size() > max_cache_size_bytes_ / 2) {\n    return absl::ResourceExhaustedError(absl::StrCat(cache_id, \" too large\"));\n  }\n", "")
M("E01", F, "CleanUp(resource.size(), manifest)", "CleanUp(std::nullopt, manifest)")
M("E01", F, "  *cached_resource.mutable_metadata() = metadata;\n", "")
M("E01", F, "  absl::Time expiry = now + max_age;\n  CachedResource", "  absl::Time expiry = now;\n  CachedResource")
M("E01", F, "  FCP_RETURN_IF_ERROR(\n      WriteInternal(std::make_unique<CacheManifest>(std::move(manifest))));\n\n  // Write file if", "  // Write file if")
M("E01", F, "      std::filesystem::remove(cached_file_path, ignored_remove_error);\n      return status;", "      return status;")
M("E01", F, "      std::filesystem::remove(cached_file_path, ignored_remove_error);\n      return status;", "      std::filesystem::remove(cached_file_path, ignored_remove_error);")
M("E01", F, "  (*manifest.mutable_cache())[cache_id_str] = cached_resource;", "  manifest.mutable_cache()->insert({cache_id_str, cached_resource});")
M("E01", F, "cache_id == \"..\" ||\n      absl::StrContains(cache_id, \"/\")", "cache_id == \" \"", " cache_id == \".\" ||", "")
M("E01", F, "  if (!manifest.cache().contains(cache_id_str)) {\n    return absl::NotFoundError(absl::StrCat(cache_id, \" not found\"));\n  }\n  CachedResource cached_resource = manifest.cache().at(cache_id_str);", "  CachedResource cached_resource = (*manifest.mutable_cache())[cache_id_str];")
M("E01", F, "  *cached_resource.mutable_last_accessed_time() =\n      TimeUtil::ConvertAbslToProtoTimestamp(now);\n  if (max_age", "  if (max_age")
M("E01", F, "  if (max_age.has_value()) {\n    absl::Time expiry = now + max_age.value();", "  {\n    absl::Time expiry = now + max_age.value_or(absl::Hours(1));")
M("E01", F, "    absl::Time expiry = now + max_age.value();\n    *cached_resource.mutable_expiry_time() =\n        TimeUtil::ConvertAbslToProtoTimestamp(expiry);\n", "")
M("E01", F, "    // Treat as not found, the resource should be fetched again.\n    return absl::NotFoundError(absl::StrCat(cache_id, \" not found\"));\n  }", "    // Treat as not found, the resource should be fetched again.\n    contents = absl::Cord();\n  }")
M("E01", F, "  manifest.mutable_cache()->erase(cache_id_str);\n  manifest.mutable_cache()->insert", "  manifest.mutable_cache()->insert")
M("E01", F, "  absl::Status status =\n      WriteInternal(std::make_unique<CacheManifest>(std::move(manifest)));\n  if (!status.ok()) return status;\n", "")
M("E01", F, "if (expiry < now || !cached_resource_exists) {", "if (!cached_resource_exists) {")
M("E01", F, "if (expiry < now || !cached_resource_exists) {", "if (expiry < now) {")
M("E01", F, "if (expiry < now || !cached_resource_exists) {", "if (expiry < now && !cached_resource_exists) {")
M("E01", F, "if (expiry < now || !cached_resource_exists) {", "if (expiry > now || !cached_resource_exists) {")
M("E01", F, "  max_allowed_size_bytes -= reserved_space_bytes.value_or(0);\n", "")
M("E01", F, "return first.second < second.second;", "return first.second > second.second;")
M("E01", F, "TimeUtil::ConvertProtoToAbslTime(resource.last_accessed_time())", "TimeUtil::ConvertProtoToAbslTime(resource.expiry_time())")
M("E01", F, "      manifest.mutable_cache()->erase(id_to_remove);\n", "")
M("E01", F, "      std::filesystem::remove(file_to_remove, remove_error);\n      if (remove_error", "      if (remove_error")
M("E01", F, "  if (cache_dir_size > max_allowed_size_bytes) {", "  if (cache_dir_size > max_cache_size_bytes_) {")
M("E01", F, "    cache_dir_files.insert(cache_dir_path_ / file);\n", "    if (file.path().has_extension()) cache_dir_files.insert(cache_dir_path_ / file);\n")
M("E01", F, "  for (const auto& cache_id : cache_ids_to_delete) {\n    manifest.mutable_cache()->erase(cache_id);\n  }\n", "")
M("E01", F, "    std::filesystem::remove(file, remove_error);\n", "")
N("E01", F, "  if (resource.size() > max_cache_size_bytes_ / 2) {", "  const int64_t half = max_cache_size_bytes_ / 2;\n  if (half < resource.size()) {")
N("E01", F, "  (*manifest.mutable_cache())[cache_id_str] = cached_resource;", "  manifest.mutable_cache()->erase(cache_id_str);\n  manifest.mutable_cache()->insert({cache_id_str, cached_resource});")
N("E01", F, "    if (expiry < now || !cached_resource_exists) {\n      cache_ids_to_delete.insert(id);\n    } else {\n      cache_dir_files.erase(resource_file);\n    }", "    if (expiry < now) {\n      cache_ids_to_delete.insert(id);\n      continue;\n    }\n    if (!cached_resource_exists) {\n      cache_ids_to_delete.insert(id);\n      continue;\n    }\n    cache_dir_files.erase(resource_file);")
N("E01", F, "return first.second < second.second;", "return second.second > first.second;")
N("E01", F, "  manifest.mutable_cache()->erase(cache_id_str);\n  manifest.mutable_cache()->insert({cache_id_str, cached_resource});\n", "  (*manifest.mutable_cache())[cache_id_str] = cached_resource;\n")
N("E01", F, "  if (!manifest.cache().contains(cache_id_str)) {\n    return absl::NotFoundError(absl::StrCat(cache_id, \" not found\"));\n  }\n  CachedResource cached_resource = manifest.cache().at(cache_id_str);", "  auto entry = manifest.cache().find(cache_id_str);\n  if (entry == manifest.cache().end()) {\n    return absl::NotFoundError(absl::StrCat(cache_id, \" not found\"));\n  }\n  CachedResource cached_resource = entry->second;")

# E02 scratch files
F = "fcp/client/cache/temp_files.cc"
M("E02", F, "O_CREAT | O_EXCL | O_RDWR", "O_CREAT | O_RDWR")
M("E02", F, "O_CREAT | O_EXCL | O_RDWR", "O_CREAT | O_TRUNC | O_RDWR")
M("E02", F, "  do {\n    candidate_path = temp_files_dir_ /\n                     absl::StrCat(prefix, std::to_string(std::rand()), suffix);\n  } while ((fd = open(candidate_path.c_str(), O_CREAT | O_EXCL | O_RDWR,\n                      S_IRWXU)) == -1 &&\n           errno == EEXIST);", "  candidate_path = temp_files_dir_ /\n                   absl::StrCat(prefix, std::to_string(std::rand()), suffix);\n  fd = open(candidate_path.c_str(), O_CREAT | O_EXCL | O_RDWR, S_IRWXU);")
M("E02", F, "           errno == EEXIST);", "           errno != EEXIST);")
M("E02", F, "  close(fd);\n", "")
M("E02", F, "  if (!tmp_file) {\n    return absl::InvalidArgumentError(\n        absl::StrCat(\"could not create file \", candidate_path.string()));\n  }\n", "")
M("E02", F, "    candidate_path = temp_files_dir_ /\n", "    candidate_path = std::filesystem::temp_directory_path() /\n")
M("E02", F, "  auto cleanup_status = DeleteFilesInDirectory(temp_files_dir);\n  if (!cleanup_status.ok()) {\n    log_manager->LogDiag(ProdDiagCode::TEMP_FILES_NATIVE_FAILED_TO_DELETE);\n    return cleanup_status;\n  }\n", "")
M("E02", F, "    return cleanup_status;\n", "")
M("E02", F, "    if (!std::filesystem::remove(de.path(), error)) {\n      if (status.ok()) {", "    if (!std::filesystem::remove(de.path(), error)) {\n      if (!status.ok()) {")
M("E02", F, "    if (!std::filesystem::remove(de.path(), error)) {", "    if (de.is_regular_file() && !std::filesystem::remove(de.path(), error)) {")
M("E02", F, "  if (!DeleteFilesInDirectory(temp_files_dir_).ok()) {\n    log_manager_.LogDiag(ProdDiagCode::TEMP_FILES_NATIVE_FAILED_TO_DELETE);\n  }\n", "")
M("E02", F, "  if (!root_path.is_absolute()) {", "  if (root_path.empty()) {")
M("E02", F, "      if (status.ok()) {\n        status = absl::InternalError(absl::StrCat(\n            \"Failed to delete file with error code: \", error.value()));\n      }\n", "      continue;\n")
N("E02", F, "  do {\n    candidate_path = temp_files_dir_ /\n                     absl::StrCat(prefix, std::to_string(std::rand()), suffix);\n  } while ((fd = open(candidate_path.c_str(), O_CREAT | O_EXCL | O_RDWR,\n                      S_IRWXU)) == -1 &&\n           errno == EEXIST);", "  while (true) {\n    candidate_path = temp_files_dir_ /\n                     absl::StrCat(prefix, std::to_string(std::rand()), suffix);\n    fd = open(candidate_path.c_str(), O_CREAT | O_EXCL | O_RDWR, S_IRWXU);\n    if (fd != -1 || errno != EEXIST) break;\n  }")
N("E02", F, "    if (!std::filesystem::remove(de.path(), error)) {\n      if (status.ok()) {", "    bool removed = std::filesystem::remove(de.path(), error);\n    if (!removed) {\n      if (status.ok()) {")
N("E02", F, "  if (!DeleteFilesInDirectory(temp_files_dir_).ok()) {", "  absl::Status status = DeleteFilesInDirectory(temp_files_dir_);\n  if (!status.ok()) {")

# E03 the record of a run
F = "fcp/client/opstats/opstats_logger_impl.cc"
M("E03", F, "    AddNewEventToCurrentPhaseStats(event);\n    current_phase_stats_.set_task_name(task_name);", "    AddNewEventToStats(event);\n    current_phase_stats_.set_task_name(task_name);")
M("E03", F, "    AddNewEventToStats(event);\n    stats_.set_task_name(task_name);", "    AddNewEventToStats(event);\n    current_phase_stats_.set_task_name(task_name);")
M("E03", F, "    AddNewEventToStats(event);\n    stats_.set_task_name(task_name);", "    AddNewEventToStats(event);")
M("E03", F, "  if (use_phase_stats_ && current_phase_stats_.phase() !=\n                              OperationalStats::PhaseStats::UNSPECIFIED) {\n    AddNewEventToCurrentPhaseStats(event);\n  } else {\n    AddNewEventToStats(event);\n  }", "  if (use_phase_stats_) {\n    AddNewEventToCurrentPhaseStats(event);\n  } else {\n    AddNewEventToStats(event);\n  }")
M("E03", F, "    if (current_phase_stats_.error_message().empty()) {\n      current_phase_stats_.set_error_message(error_message);\n    }", "    current_phase_stats_.set_error_message(error_message);")
M("E03", F, "    if (stats_.error_message().empty()) {", "    if (!stats_.error_message().empty()) {")
M("E03", F, "  if (!collection_first_access_time_map_.contains(collection_uri)) {\n    collection_first_access_time_map_[collection_uri] = first_access_time;\n  }", "  collection_first_access_time_map_[collection_uri] = first_access_time;")
M("E03", F, "  dataset_stats->set_num_examples_read(dataset_stats->num_examples_read() +\n                                       additional_example_count);", "  dataset_stats->set_num_examples_read(additional_example_count);")
M("E03", F, "  dataset_stats->set_num_bytes_read(dataset_stats->num_bytes_read() +\n                                    additional_example_size_bytes);", "  dataset_stats->set_num_bytes_read(dataset_stats->num_bytes_read() +\n                                    additional_example_count);")
M("E03", F, "  dataset_stats->set_num_bytes_read(dataset_stats->num_bytes_read() +\n", "  dataset_stats->set_num_bytes_read(dataset_stats->num_examples_read() +\n")
M("E03", F, "        current_phase_stats_.bytes_uploaded() +\n        incremental_network_stats.bytes_uploaded);", "        current_phase_stats_.bytes_uploaded() +\n        network_stats.bytes_uploaded);")
M("E03", F, "        current_phase_stats_.bytes_uploaded() +\n        incremental_network_stats.bytes_uploaded);", "        current_phase_stats_.bytes_uploaded() +\n        incremental_network_stats.bytes_downloaded);")
M("E03", F, "    accumulated_network_stats_ = network_stats;\n", "")
M("E03", F, "    accumulated_network_stats_ = network_stats;\n", "    accumulated_network_stats_ = incremental_network_stats;\n")
M("E03", F, "        current_phase_stats_.bytes_downloaded() +\n        incremental_network_stats.bytes_downloaded);", "        incremental_network_stats.bytes_downloaded);")
M("E03", F, "stats_.set_chunking_layer_bytes_uploaded(network_stats.bytes_uploaded)", "stats_.set_chunking_layer_bytes_uploaded(network_stats.bytes_downloaded)")
M("E03", F, "  retry_window.clear_retry_token();\n", "")
M("E03", F, "    *copy.add_phase_stats() = current_phase_stats_;\n", "")
M("E03", F, "  auto status = already_committed_\n", "  auto status = !already_committed_\n")
M("E03", F, "                          *data.mutable_opstats(data.opstats_size() - 1) = copy;", "                          *data.mutable_opstats(0) = copy;")
M("E03", F, "                          *data.mutable_opstats(data.opstats_size() - 1) = copy;", "                          *data.add_opstats() = copy;")
M("E03", F, "  if (status.ok()) {\n    already_committed_ = true;\n  }", "  already_committed_ = true;")
M("E03", F, "  if (status.ok()) {\n    already_committed_ = true;\n  }\n", "")
M("E03", F, "  if (status.ok()) {\n    already_committed_ = true;\n  }\n  return status;", "  if (status.ok()) {\n    already_committed_ = true;\n  }\n  return absl::OkStatus();")
M("E03", F, "    *stats_.add_phase_stats() = current_phase_stats_;\n    current_phase_stats_ = OperationalStats::PhaseStats();\n  }\n  current_phase_stats_.set_phase(phase);", "    current_phase_stats_ = OperationalStats::PhaseStats();\n  }\n  current_phase_stats_.set_phase(phase);")
M("E03", F, "    *stats_.add_phase_stats() = current_phase_stats_;\n    current_phase_stats_ = OperationalStats::PhaseStats();\n  }\n  current_phase_stats_.set_phase(phase);", "    *stats_.add_phase_stats() = current_phase_stats_;\n  }\n  current_phase_stats_.set_phase(phase);")
M("E03", F, "    *stats_.add_phase_stats() = current_phase_stats_;\n    current_phase_stats_ = OperationalStats::PhaseStats();\n  }\n}", "    *stats_.add_phase_stats() = current_phase_stats_;\n  }\n}")
M("E03", F, "    *stats_.add_phase_stats() = current_phase_stats_;\n    current_phase_stats_ = OperationalStats::PhaseStats();\n  }\n}", "    current_phase_stats_ = OperationalStats::PhaseStats();\n  }\n}")
M("E03", F, "  auto status = CommitToStorage();\n", "")
M("E03", F, "it = stats_.phase_stats().rbegin();\n         it != stats_.phase_stats().rend(); it++", "it = stats_.phase_stats().begin();\n         it != stats_.phase_stats().end(); it++")
M("E03", "fcp/client/stats.h", ".bytes_uploaded = bytes_uploaded - other.bytes_uploaded", ".bytes_uploaded = bytes_uploaded - other.bytes_downloaded")
M("E03", F, "    AddNewEventToStats(event);\n    // Don't replace", "    // Don't replace")
M("E03", F, "  auto new_event = stats_.add_events();\n  new_event->set_event_type(kind);\n  *new_event->mutable_timestamp() = google::protobuf::util::TimeUtil::GetCurrentTime();", "  auto new_event = stats_.add_events();\n  new_event->set_event_type(kind);")
N("E03", F, "    NetworkStats incremental_network_stats =\n        network_stats - accumulated_network_stats_;\n    current_phase_stats_.set_bytes_downloaded(\n        current_phase_stats_.bytes_downloaded() +\n        incremental_network_stats.bytes_downloaded);", "    NetworkStats incremental_network_stats =\n        network_stats - accumulated_network_stats_;\n    current_phase_stats_.set_bytes_downloaded(\n        current_phase_stats_.bytes_downloaded() +\n        network_stats.bytes_downloaded - accumulated_network_stats_.bytes_downloaded);")
N("E03", F, "  auto new_event = stats_.add_events();\n  new_event->set_event_type(kind);\n  *new_event->mutable_timestamp() = google::protobuf::util::TimeUtil::GetCurrentTime();", "  OperationalStats::Event* e = stats_.add_events();\n  *e->mutable_timestamp() = google::protobuf::util::TimeUtil::GetCurrentTime();\n  e->set_event_type(kind);")
N("E03", F, "    *stats_.add_phase_stats() = current_phase_stats_;\n    current_phase_stats_ = OperationalStats::PhaseStats();\n  }\n}", "    *stats_.add_phase_stats() = std::move(current_phase_stats_);\n    current_phase_stats_.Clear();\n  }\n}")
N("E03", F, "  auto status = already_committed_\n                    ? db_->Transform([&copy](OpStatsSequence& data) {\n                        // Check if opstats on disk somehow got cleared between\n                        // the first commit and now, and handle appropriately.\n                        // This can happen e.g. if the ttl for the opstats db\n                        // is incorrectly configured to have a very low ttl,\n                        // causing the entire history to be lost as part of the\n                        // update.\n                        if (data.opstats_size() == 0) {\n                          *data.add_opstats() = copy;\n                        } else {\n                          *data.mutable_opstats(data.opstats_size() - 1) = copy;\n                        }\n                      })\n                    : db_->Transform([&copy](OpStatsSequence& data) {\n                        *data.add_opstats() = copy;\n                      });", "  bool again = already_committed_;\n  auto status = db_->Transform([&copy, again](OpStatsSequence& data) {\n    if (again && data.opstats_size() > 0) {\n      *data.mutable_opstats(data.opstats_size() - 1) = copy;\n    } else {\n      *data.add_opstats() = copy;\n    }\n  });")
N("E03", F, "  if (use_phase_stats_ && current_phase_stats_.phase() !=\n                              OperationalStats::PhaseStats::UNSPECIFIED) {\n    AddNewEventToCurrentPhaseStats(event);\n  } else {\n    AddNewEventToStats(event);\n  }", "  const bool in_phase = use_phase_stats_ && current_phase_stats_.phase() !=\n                              OperationalStats::PhaseStats::UNSPECIFIED;\n  if (!in_phase) {\n    AddNewEventToStats(event);\n    return;\n  }\n  AddNewEventToCurrentPhaseStats(event);")

# E04 the store of run records
F = "fcp/client/opstats/pds_backed_opstats_db.cc"
M("E04", F, "  if (!files_in_use->insert(db_path).second) {", "  files_in_use->insert(db_path);\n  if (db_path.empty()) {")
M("E04", F, "    files_in_use->erase(db_path);\n    close(fd);", "    close(fd);")
M("E04", F, "    files_in_use->erase(db_path);\n    close(fd);", "    files_in_use->erase(db_path);")
M("E04", F, "    files_in_use->erase(db_path);\n    log_manager.LogDiag(ProdDiagCode::OPSTATS_FAILED_TO_OPEN_FILE);", "    log_manager.LogDiag(ProdDiagCode::OPSTATS_FAILED_TO_OPEN_FILE);")
M("E04", F, "  if (flock(fd, LOCK_EX | LOCK_NB) < 0) {", "  if (flock(fd, LOCK_SH | LOCK_NB) < 0) {")
M("E04", F, "  if (flock(fd, LOCK_EX | LOCK_NB) < 0) {", "  if (flock(fd, LOCK_EX | LOCK_NB) > 0) {")
M("E04", F, "  GetFilesInUseSet()->erase(db_path);\n  FCP_CHECK", "  FCP_CHECK")
M("E04", F, "  // File lock is released when the descriptor is closed.\n  close(fd);\n", "")
M("E04", F, "  if (!file_size.ok()) {\n    lock_releaser();\n", "  if (!file_size.ok()) {\n")
M("E04", F, "    if (!write_status.ok()) {\n      lock_releaser();\n", "    if (!write_status.ok()) {\n")
M("E04", F, "    if (!write_status.ok()) {\n      lock_releaser();\n      return write_status;\n    }\n", "")
M("E04", F, "  bool should_initiate = file_size.value() == 0;", "  bool should_initiate = file_size.value() >= 0;")
M("E04", F, "  bool should_initiate = file_size.value() == 0;", "  bool should_initiate = file_size.value() != 0;")
M("E04", F, "PdsBackedOpStatsDb::~PdsBackedOpStatsDb() { lock_releaser_(); }", "PdsBackedOpStatsDb::~PdsBackedOpStatsDb() {}")
M("E04", F, "  if (!path.is_absolute()) {", "  if (path.empty()) {")
M("E04", F, "    auto reset_status = ResetInternal(*db_, log_manager_);\n  }\n  return data_or;", "    auto reset_status = ResetInternal(*db_, log_manager_);\n    return OpStatsSequence();\n  }\n  return data_or;")
M("E04", F, "  if (!data_or.ok()) {\n    // Try resetting after a failed read.\n    auto reset_status = ResetInternal(*db_, log_manager_);\n  }\n", "")
M("E04", F, "  if (!data_or.ok()) {\n    // Try resetting after a failed read.\n    auto reset_status", "  {\n    // Try resetting after a failed read.\n    auto reset_status")
M("E04", F, "    RemoveOutdatedData(data, ttl_);\n", "")
M("E04", F, "    data = std::move(data_or).value();\n", "")
M("E04", F, "                       return GetLastUpdateTime(data) < earliest_accepted_time;", "                       return GetLastUpdateTime(data) > earliest_accepted_time;")
M("E04", F, "  absl::Time earliest_accepted_time = absl::Now() - ttl;", "  absl::Time earliest_accepted_time = absl::Now() + ttl;")
M("E04", F, "  if (num_entries_after_purging < original_num_entries) {\n    *(data.mutable_earliest_trustworthy_time()) =\n        TimeUtil::MillisecondsToTimestamp(\n            absl::ToUnixMillis(earliest_accepted_time));\n  }\n", "")
M("E04", F, "  if (num_entries_after_purging < original_num_entries) {", "  if (num_entries_after_purging > original_num_entries) {")
M("E04", F, "  func(data);\n  PruneOldDataUntilBelowSizeLimit(data, max_size_bytes_, log_manager_);", "  PruneOldDataUntilBelowSizeLimit(data, max_size_bytes_, log_manager_);\n  func(data);")
M("E04", F, "  PruneOldDataUntilBelowSizeLimit(data, max_size_bytes_, log_manager_);", "")
M("E04", F, "    op_stats.erase(op_stats.begin(), it);", "    op_stats.erase(it, op_stats.end());")
M("E04", F, "      current_size -= it->ByteSizeLong();\n", "")
M("E04", F, "    while (current_size > max_size_bytes && it != op_stats.end()) {", "    if (it != op_stats.end()) {")
M("E04", F, "    *data.mutable_earliest_trustworthy_time() =\n        GetEarliestTrustWorthyTime(op_stats);\n", "")
M("E04", F, "  if (!data.has_earliest_trustworthy_time()) {", "  if (data.has_earliest_trustworthy_time()) {")
M("E04", F, "  return status;\n}\n\n}  // namespace opstats", "  return absl::OkStatus();\n}\n\n}  // namespace opstats")
M("E04", F, "    FCP_RETURN_IF_ERROR(ResetInternal(*db_, log_manager_));", "    return ResetInternal(*db_, log_manager_);")
M("E04", F, "TimestampToSeconds(it->events().rbegin()->timestamp())", "TimestampToSeconds(it->events().begin()->timestamp())")
M("E04", F, "      operational_stats.events().rbegin()->timestamp()));", "      operational_stats.events().begin()->timestamp()));")
M("E04", F, "      return stat.events().begin()->timestamp();", "      return stat.events().rbegin()->timestamp();")
M("E04", F, "it = operational_stats.phase_stats().rbegin();\n       it != operational_stats.phase_stats().rend(); ++it", "it = operational_stats.phase_stats().begin();\n       it != operational_stats.phase_stats().end(); ++it")
N("E04", F, "  if (flock(fd, LOCK_EX | LOCK_NB) < 0) {", "  if (flock(fd, LOCK_EX | LOCK_NB) != 0) {")
N("E04", F, "    while (current_size > max_size_bytes && it != op_stats.end()) {", "    for (; it != op_stats.end() && current_size > max_size_bytes;) {")
N("E04", F, "  bool should_initiate = file_size.value() == 0;\n", "  const bool should_initiate = *file_size == 0;\n")
N("E04", F, "  absl::Status status =\n      db_->Write(std::make_unique<OpStatsSequence>(std::move(data)));\n  if (!status.ok()) {\n    log_manager_.LogDiag(ProdDiagCode::OPSTATS_WRITE_FAILED);\n  }\n  return status;", "  auto copy = std::make_unique<OpStatsSequence>(std::move(data));\n  absl::Status status = db_->Write(std::move(copy));\n  if (status.ok()) return status;\n  log_manager_.LogDiag(ProdDiagCode::OPSTATS_WRITE_FAILED);\n  return status;")
N("E04", F, "    *(data.mutable_earliest_trustworthy_time()) =\n        TimeUtil::MillisecondsToTimestamp(\n            absl::ToUnixMillis(earliest_accepted_time));\n", "    const int64_t millis = absl::ToUnixMillis(earliest_accepted_time);\n    *data.mutable_earliest_trustworthy_time() =\n        TimeUtil::MillisecondsToTimestamp(millis);\n")

# E05 asking about earlier runs
F = "fcp/client/opstats/opstats_utils.cc"
M("E05", F, "    if (upload_started && !upload_aborted) {", "    if (upload_started) {")
M("E05", F, "    if (upload_started && !upload_aborted) {", "    if (!upload_aborted) {")
M("E05", F, "    if (upload_started && !upload_aborted) {", "    if (upload_started || !upload_aborted) {")
M("E05", F, "          OperationalStats::Event::EVENT_KIND_RESULT_UPLOAD_STARTED) {\n        upload_started = true;", "          OperationalStats::Event::EVENT_KIND_FAILURE_UPLOAD_STARTED) {\n        upload_started = true;")
M("E05", F, "          OperationalStats::Event::EVENT_KIND_RESULT_UPLOAD_SERVER_ABORTED) {", "          OperationalStats::Event::EVENT_KIND_RESULT_UPLOAD_CLIENT_INTERRUPTED) {")
M("E05", F, "  for (auto it = data.rbegin(); it != data.rend(); ++it) {\n    const OperationalStats& opstats_entry = *it;", "  for (auto it = data.begin(); it != data.end(); ++it) {\n    const OperationalStats& opstats_entry = *it;")
M("E05", F, "    if (!predicate(opstats_entry)) {\n      continue;\n    }\n", "")
M("E05", F, "        return opstats_entry.task_name() == task_name;", "        return opstats_entry.population_name() == task_name;")
M("E05", F, "            return RE2::FullMatch(opstats_entry.task_name(), compiled_pattern);", "            return RE2::PartialMatch(opstats_entry.task_name(), compiled_pattern);")
M("E05", F, "        return event.event_type() ==\n               OperationalStats::Event::EVENT_KIND_RESULT_UPLOAD_STARTED;", "        return event.event_type() ==\n               OperationalStats::Event::EVENT_KIND_RESULT_UPLOAD_FINISHED;")
M("E05", F, "    if (last_update_time >= lower_bound_time &&\n        last_update_time <= upper_bound_time) {", "    if (last_update_time > lower_bound_time &&\n        last_update_time <= upper_bound_time) {")
M("E05", F, "    if (last_update_time >= lower_bound_time &&\n        last_update_time <= upper_bound_time) {", "    if (last_update_time >= lower_bound_time ||\n        last_update_time <= upper_bound_time) {")
M("E05", F, "    return absl::FromUnixMillis(TimeUtil::TimestampToMilliseconds(\n        op_stats.events().rbegin()->timestamp()));", "    return absl::FromUnixMillis(TimeUtil::TimestampToMilliseconds(\n        op_stats.events().begin()->timestamp()));")
M("E05", F, "  if (!last_successful_entry.has_value() ||\n      !last_successful_entry->has_min_sep_policy_index()) {", "  if (!last_successful_entry.has_value()) {")
M("E05", F, "      if (op_stats.has_min_sep_policy_index()) {\n        legacy_op_stats.back().set_min_sep_policy_index(\n            op_stats.min_sep_policy_index());\n      }\n", "")
M("E05", F, "      case OperationalStats::PhaseStats::MULTIPLE_TASK_ASSIGNMENTS:\n", "")
M("E05", F, "        if (!pending_stats.empty()) {\n          stats.push_back(pending_stats);\n        }\n        pending_stats = PerTask", "        pending_stats = PerTask")
M("E05", F, "        pending_stats.push_back(latest_task_assignment_stats);\n", "")
M("E05", F, "        pending_stats = PerTaskStats(pre_task_assignment_stats.begin(),\n                                     pre_task_assignment_stats.end());\n", "        pending_stats = PerTaskStats();\n")
M("E05", F, "      case OperationalStats::PhaseStats::UPLOAD:\n        pending_stats.push_back(phase_stat);\n        break;\n", "")
M("E05", F, "    bytes_uploaded += phase_stats.bytes_uploaded();", "    bytes_uploaded = phase_stats.bytes_uploaded();")
M("E05", F, "    bytes_uploaded += phase_stats.bytes_uploaded();", "    bytes_uploaded += phase_stats.bytes_downloaded();")
M("E05", F, "          existing_dataset_stats.num_bytes_read() + stats.num_bytes_read());", "          stats.num_bytes_read());")
M("E05", F, "    for (const auto& event : phase_stats.events()) {\n      *legacy_stats.add_events() = event;\n    }\n", "")
N("E05", F, "    if (upload_started && !upload_aborted) {", "    if (!upload_aborted && upload_started) {")
N("E05", F, "      if (event.event_type() ==\n          OperationalStats::Event::EVENT_KIND_RESULT_UPLOAD_SERVER_ABORTED) {", "      else if (event.event_type() ==\n          OperationalStats::Event::EVENT_KIND_RESULT_UPLOAD_SERVER_ABORTED) {")
N("E05", F, "    if (last_update_time >= lower_bound_time &&\n        last_update_time <= upper_bound_time) {\n      selected_data.push_back(*it);\n    }", "    if (last_update_time < lower_bound_time) continue;\n    if (last_update_time > upper_bound_time) continue;\n    selected_data.push_back(*it);")
N("E05", F, "    bytes_uploaded += phase_stats.bytes_uploaded();", "    bytes_uploaded = bytes_uploaded + phase_stats.bytes_uploaded();")
F = "fcp/client/opstats/opstats_example_store.cc"
M("E05", F, "    return CreateExample(data_[next_++], earliest_trustworthy_time_millis_);", "    return CreateExample(data_[++next_], earliest_trustworthy_time_millis_);")
M("E05", F, "    return CreateExample(data_[next_++], earliest_trustworthy_time_millis_);", "    return CreateExample(data_[next_], earliest_trustworthy_time_millis_);")
M("E05", F, "next_ >= data_.size()", "next_ > data_.size()")
M("E05", F, "    if (lower_bound_time > upper_bound_time) {", "    if (lower_bound_time == upper_bound_time) {")
M("E05", F, "      lower_bound_time = absl::FromUnixMillis(\n          TimeUtil::TimestampToMilliseconds(criteria.start_time()));", "      lower_bound_time = absl::FromUnixMillis(\n          TimeUtil::TimestampToMilliseconds(criteria.end_time()));")
M("E05", F, "  if (last_successful_contribution) {", "  if (!last_successful_contribution) {")
M("E05", F, "    if (!example_selector.criteria().UnpackTo(&criteria)) {", "    if (!example_selector.criteria().UnpackTo(&criteria) && false) {")
M("E05", F, "  if (example_selector.collection_uri() != kOpStatsCollectionUri) {", "  if (example_selector.collection_uri().empty()) {")
M("E05", F, "GetOperationalStatsForTimeRange(data, lower_bound_time,\n                                                    upper_bound_time)", "GetOperationalStatsForTimeRange(data, absl::InfinitePast(),\n                                                    upper_bound_time)")
M("E05", F, "      CreateFeatureFromInt(op_stats.chunking_layer_bytes_uploaded());", "      CreateFeatureFromInt(op_stats.chunking_layer_bytes_downloaded());")
M("E05", F, "  (*feature_map)[kEventsEventType] = CreateFeatureFromIntVector(event_types);", "  (*feature_map)[kEventsEventType] = CreateFeatureFromIntVector(event_time_millis);")
M("E05", F, "    num_examples_read.push_back(stats.second.num_examples_read());", "    num_examples_read.push_back(stats.second.num_bytes_read());")
M("E05", F, "      CreateFeatureFromString(op_stats.session_name());", "      CreateFeatureFromString(op_stats.population_name());")
N("E05", F, "    return CreateExample(data_[next_++], earliest_trustworthy_time_millis_);", "    const OperationalStats& entry = data_[next_];\n    next_ += 1;\n    return CreateExample(entry, earliest_trustworthy_time_millis_);")
N("E05", F, "    if (lower_bound_time > upper_bound_time) {", "    if (upper_bound_time < lower_bound_time) {")
