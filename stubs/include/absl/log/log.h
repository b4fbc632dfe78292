#ifndef VERIF_STUB_LOG_H_
#define VERIF_STUB_LOG_H_
#include "absl/log/absl_log.h"
#define LOG(severity) ABSL_LOG(severity)
#define LOG_IF(severity, c) ABSL_LOG_IF(severity, c)
#define CHECK(c) ABSL_CHECK(c)
#endif
