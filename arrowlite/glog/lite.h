// The few names of glog that the repository's logger uses.
#pragma once
#include <cstdarg>
#include <cstdio>
#include <cstdlib>

namespace google {
using LogSeverity = int;
constexpr int GLOG_INFO = 0, GLOG_WARNING = 1, GLOG_ERROR = 2, GLOG_FATAL = 3;
inline bool& LiteInitialized() {
    static bool v = false;
    return v;
}
inline bool IsGoogleLoggingInitialized() { return LiteInitialized(); }
inline void InitGoogleLogging(const char*) { LiteInitialized() = true; }
inline void ShutdownGoogleLogging() { LiteInitialized() = false; }
inline void RawLog__(LogSeverity severity, const char* file, int line, const char* format, ...) {
    if (getenv("VERIF_LOG")) fprintf(stderr, "%d %s:%d %s\n", severity, file, line, format);
}
}  // namespace google
