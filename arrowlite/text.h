#pragma once
#include "arrow/lite.h"

namespace arrow::text {
bool ValidUtf8(std::string_view s);
bool ParseDate(std::string_view s, int32_t* out);
bool ParseTimestamp(std::string_view s, TimeUnit::type unit, int64_t* out, bool* zone);
std::string ValueText(const ArrayData& d, int64_t i);
Result<int64_t> UtcToLocal(int64_t v, const TimestampType& t);
}  // namespace arrow::text
