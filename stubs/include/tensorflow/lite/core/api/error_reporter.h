#pragma once
#include <cstdarg>
namespace tflite { class ErrorReporter { public: virtual ~ErrorReporter() = default; virtual int Report(const char* format, va_list args) = 0; }; }
