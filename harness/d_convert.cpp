// C39: timestamps, kinds, modes and names.
#include <cmath>
#include <cstdint>
#include <functional>

#include "paimon/catalog/identifier.h"
#include "paimon/common/types/row_kind.h"
#include "paimon/core/manifest/file_kind.h"
#include "paimon/core/manifest/file_source.h"
#include "paimon/data/timestamp.h"
#include "paimon/format/column_stats.h"
#include "paimon/table/source/startup_mode.h"
#include "vtrace.h"

using namespace paimon;  // NOLINT
using vt::J;
using vt::Out;

// decimals need the column library and are not used here
namespace paimon {
__attribute__((weak)) int32_t Decimal::CompareTo(const Decimal&) const { std::abort(); }
__attribute__((weak)) std::string Decimal::ToString() const { std::abort(); }
}  // namespace paimon

static std::vector<int64_t> Parts(int64_t v) {
    int64_t l = v & 0xfffff, m = (v >> 20) & 0xfffff, h = v >> 40;
    return {h, m, l};
}
static J Ts(const Timestamp& x) { return J().k("ms", Parts(x.GetMillisecond())).k("nano", x.GetNanoOfMillisecond()); }
// floor division of a number of 1/unit seconds into day, second of day and rest
static std::vector<int64_t> Split(int64_t v, int64_t unit) {
    int64_t sec = v / unit, rest = v % unit;
    if (rest < 0) rest += unit, sec--;
    int64_t day = sec / 86400, s = sec % 86400;
    if (s < 0) s += 86400, day--;
    return {day, s, rest};
}

static int64_t Millis(vt::Rng& r) {
    switch (r.Below(6)) {
        case 0: return r.In(-3, 3);
        case 1: return r.In(-2000, 2000);
        case 2: return static_cast<int64_t>(r.Next());
        case 3: return r.Chance(50) ? INT64_MAX - r.Below(3) : INT64_MIN + r.Below(3);
        case 4: return (r.Chance(50) ? 1 : -1) * (1ll << r.Below(63)) + r.In(-1, 1);
        default: return r.In(-62135596800000ll, 253402300799999ll);
    }
}
static int Nano(vt::Rng& r) {
    return r.Pick(std::vector<int>{0, 1, 999, 1000, 1001, 999999, 500000, static_cast<int>(r.Below(1000000))});
}

// ---- statistics of a column; `vals` are distinct values in ascending order, a value is shown as its place in the list
template <class S, class T>
static void Statistics(vt::Trace& t, const std::vector<T>& vals, FieldType kind, const std::function<std::unique_ptr<ColumnStats>(std::optional<T>, std::optional<T>, std::optional<int64_t>)>& make,
                       const std::function<bool(const S&)>& same) {
    auto& r = t.rng;
    int min = -1, max = -1;
    if (r.Chance(40)) min = r.Below(vals.size()), max = min + r.Below(vals.size() - min);
    int64_t nulls = min >= 0 || r.Chance(30) ? r.Below(3) : -1;
    auto val = [&](int i) { return i < 0 ? std::optional<T>() : std::optional<T>(vals[i]); };
    auto place = [&](const std::optional<T>& v) {
        for (size_t i = 0; v && i < vals.size(); i++)
            if (*v == vals[i]) return static_cast<int>(i);
        return v ? -2 : -1;
    };
    std::unique_ptr<ColumnStats> made;
    S* s = nullptr;
    auto show = [&] {
        auto n = static_cast<const ColumnStats*>(s)->NullCount();
        return J().k("min", place(s->Min())).k("max", place(s->Max())).k("nulls", n ? *n : -1);
    };
    t.Init(J().k("min", min).k("max", max).k("nulls", nulls));
    t.Op("stats", J().k("asked", static_cast<int>(kind)), [&] {
        made = make(val(min), val(max), nulls < 0 ? std::optional<int64_t>() : std::optional<int64_t>(nulls));
        s = dynamic_cast<S*>(made.get());
        if (!s || !same(*s)) return Out::Err();
        return Out(show().k("kind", static_cast<int>(made->GetFieldType())));
    });
    for (int n = r.In(1, 8); n > 0 && t.last_ok; n--) {
        int v = r.In(-1, static_cast<int>(vals.size()) - 1);
        t.Op("collect", J().k("v", v), [&] {
            s->Collect(val(v));
            return Out(show());
        });
    }
}
template <class S, class T>
static void Simple(vt::Trace& t, const std::vector<T>& vals, FieldType kind, std::unique_ptr<ColumnStats> (*make)(std::optional<T>, std::optional<T>, std::optional<int64_t>)) {
    Statistics<S, T>(t, vals, kind, make, [](const S&) { return true; });
}
static void GenStats(vt::Trace& t) {
    auto& r = t.rng;
    switch (r.Below(12)) {
        case 0: return Simple<BooleanColumnStats, bool>(t, {false, true}, FieldType::BOOLEAN, ColumnStats::CreateBooleanColumnStats);
        case 1: return Simple<TinyIntColumnStats, int8_t>(t, {-128, -1, 0, 1, 127}, FieldType::TINYINT, ColumnStats::CreateTinyIntColumnStats);
        case 2: return Simple<SmallIntColumnStats, int16_t>(t, {-32768, -129, -1, 0, 128, 256, 32767}, FieldType::SMALLINT, ColumnStats::CreateSmallIntColumnStats);
        case 3: return Simple<IntColumnStats, int32_t>(t, {INT32_MIN, -65537, -1, 0, 1, 65536, INT32_MAX}, FieldType::INT, ColumnStats::CreateIntColumnStats);
        case 4: return Simple<BigIntColumnStats, int64_t>(t, {INT64_MIN, -(1ll << 32) - 1, -1, 0, 1, 1ll << 32, INT64_MAX}, FieldType::BIGINT, ColumnStats::CreateBigIntColumnStats);
        case 5: return Simple<FloatColumnStats, float>(t, {-INFINITY, -1e30f, -0.5f, 0, 1e-30f, 0.25f, 3e38f, INFINITY}, FieldType::FLOAT, ColumnStats::CreateFloatColumnStats);
        case 6: return Simple<DoubleColumnStats, double>(t, {-INFINITY, -1e300, -0.5, 0, 1e-300, 1.0000000001, 1.0000000002, 1e300}, FieldType::DOUBLE, ColumnStats::CreateDoubleColumnStats);
        case 7: return Simple<DateColumnStats, int32_t>(t, {INT32_MIN, -65537, -1, 0, 1, 20000, INT32_MAX}, FieldType::DATE, ColumnStats::CreateDateColumnStats);
        case 8:
            return Statistics<StringColumnStats, std::string>(
                t, {"", std::string("\0", 1), std::string("\0a", 2), "A", "a", "aa", "b", "\xc3\xa4", "\xff"}, FieldType::STRING,
                [](const auto& a, const auto& b, auto n) { return ColumnStats::CreateStringColumnStats(a, b, n); }, [](const StringColumnStats&) { return true; });
        case 9: {
            int precision = r.In(0, 9);
            std::vector<Timestamp> v;
            for (int64_t ms : {INT64_MIN, -86400001l, -1l, 0l, 1l, 1l << 41, INT64_MAX}) {
                v.emplace_back(ms, 0);
                if (precision > 3) v.emplace_back(ms, 1000);
            }
            return Statistics<TimestampColumnStats, Timestamp>(
                t, v, FieldType::TIMESTAMP, [precision](const auto& a, const auto& b, auto n) { return ColumnStats::CreateTimestampColumnStats(a, b, n, precision); },
                [precision](const TimestampColumnStats& s) { return s.GetPrecision() == precision; });
        }
        default: {
            auto kind = r.Pick(std::vector<FieldType>{FieldType::ARRAY, FieldType::MAP, FieldType::STRUCT});
            int64_t nulls = r.In(-1, 3);
            t.Init(J().k("min", -1).k("max", -1).k("nulls", nulls));
            t.Op("stats", J().k("asked", static_cast<int>(kind)), [&] {
                auto s = ColumnStats::CreateNestedColumnStats(kind, nulls < 0 ? std::optional<int64_t>() : std::optional<int64_t>(nulls));
                auto n = s->NullCount();
                return Out(J().k("min", -1).k("max", -1).k("nulls", n ? *n : -1).k("kind", static_cast<int>(s->GetFieldType())));
            });
        }
    }
}

static void Gen(vt::Trace& t) {
    auto& r = t.rng;
    if (t.index > 260 && r.Chance(35)) return GenStats(t);
    t.Init(J().k("min", -1).k("max", -1).k("nulls", -1));
    for (int n = 0; n < 4; n++) {
        Timestamp x(Millis(r), Nano(r));
        Timestamp y = r.Chance(30) ? x : Timestamp(r.Chance(40) ? x.GetMillisecond() : Millis(r), r.Chance(40) ? x.GetNanoOfMillisecond() : Nano(r));
        t.Op("compare", J().k("x", Ts(x)).k("y", Ts(y)), [&] {
            Timestamp back = r.Chance(50) ? Timestamp::FromEpochMillis(x.GetMillisecond(), x.GetNanoOfMillisecond())
                                          : Timestamp(x.GetMillisecond(), x.GetNanoOfMillisecond());
            return Out(J().k("lt", x < y).k("gt", y < x).k("eq", x == y).k("back", Ts(back)).k("milli", Ts(x.ToMillisTimestamp())));
        });
    }
    for (int n = 0; n < 4; n++) {
        int64_t day;
        switch (r.Below(4)) {
            case 0: day = r.In(-3, 3); break;
            case 1: day = r.In(-106000, 106000); break;
            case 2: day = r.In(-719162, 2932896); break;
            default: day = r.In(-106000000, 106000000);
        }
        int ms = r.Pick(std::vector<int>{0, 1, 999, 1000, 86399999, 86399000, 43200000, static_cast<int>(r.Below(86400000))});
        int nano = Nano(r);
        bool small = day >= -106000 && day <= 106000;
        Timestamp x(day * 86400000 + ms, nano);
        J args = J().k("day", day).k("ms", ms).k("nano", nano).k("small", small);
        t.Op("units", args, [&] {
            return Out(J().k("us", Split(x.ToMicrosecond(), 1000000))
                           .k("ns", small ? Split(x.ToNanosecond(), 1000000000) : std::vector<int64_t>{}));
        });
        if (day >= -719162 && day <= 2932896) {
            t.Op("text", args, [&] { return Out(J().k("q", vt::BytesOf(x.ToString()))); });
        }
    }
    int p = r.In(0, 9);
    t.Op("compact", J().k("p", p), [&] { return Out(J().k("v", Timestamp::IsCompact(p))); });

    int first = t.index <= 256 ? static_cast<int>(t.index) - 129 : static_cast<int>(r.In(-128, 127));
    for (int code : {first, static_cast<int>(r.In(-1, 4))}) {
        auto v = static_cast<int8_t>(code);
        static const RowKind* kinds[] = {RowKind::Insert(), RowKind::UpdateBefore(), RowKind::UpdateAfter(), RowKind::Delete()};
        t.Op("row_kind", J().k("code", code), [&] {
            auto x = RowKind::FromByteValue(v);
            if (!x.ok()) return Out::Err();
            const RowKind* k = x.value();
            auto y = RowKind::FromShortString(k->ShortString());
            bool same = y.ok() && y.value() == k && *y.value() == *k && code >= 0 && code < 4 && kinds[code] == k;
            return Out(J().k("back", k->ToByteValue()).k("short", k->ShortString()).k("name", k->Name())
                           .k("retract", k->IsRetract()).k("add", k->IsAdd()).k("same", same));
        });
        t.Op("file_kind", J().k("code", code), [&] {
            auto x = FileKind::FromByteValue(v);
            if (!x.ok()) return Out::Err();
            std::string named = x.value() == FileKind::Add() ? "ADD" : x.value() == FileKind::Delete() ? "DELETE" : "?";
            return Out(J().k("back", x.value().ToByteValue()).k("named", named));
        });
        t.Op("file_source", J().k("code", code), [&] {
            auto x = FileSource::FromByteValue(v);
            if (!x.ok()) return Out::Err();
            bool a = x.value() == FileSource::Append(), c = x.value() == FileSource::Compact();
            if ((x.value() != FileSource::Append()) == a) a = c = false;
            std::string named = a && !c ? "APPEND" : c && !a ? "COMPACT" : "?";
            return Out(J().k("back", x.value().ToByteValue()).k("t", x.value().ToString()).k("named", named));
        });
        int a = r.Below(4), b = r.Below(4);
        t.Op("kind_pair", J().k("x", a).k("y", b), [&] {
            RowKind copy = *kinds[a];
            return Out(J().k("eq", copy == *kinds[b] && *kinds[b] == copy));
        });
    }
    std::string s = r.Pick(std::vector<std::string>{"+I", "-U", "+U", "-D", "I", "", "+", "-", "+D", "-I", "+i", "+I ", "UPDATE_AFTER"});
    t.Op("row_kind_text", J().k("t", s), [&] {
        auto x = RowKind::FromShortString(s);
        return x.ok() ? Out(J().k("code", x.value()->ToByteValue())) : Out::Err();
    });
    static const std::vector<std::string> modes = {"default", "latest-full", "latest", "from-snapshot", "from-snapshot-full"};
    auto mode = [](int k) {
        switch (k) {
            case 0: return StartupMode::Default();
            case 1: return StartupMode::LatestFull();
            case 2: return StartupMode::Latest();
            case 3: return StartupMode::FromSnapshot();
            default: return StartupMode::FromSnapshotFull();
        }
    };
    s = r.Chance(60) ? modes[r.Below(5)] : r.Pick(std::vector<std::string>{"", "full", "LATEST", "latest_full", "latest ", "from", "from-snapshot-", "from-timestamp"});
    t.Op("startup", J().k("t", s), [&] {
        auto x = StartupMode::FromString(s);
        if (!x.ok()) return Out::Err();
        std::string named = "?";
        for (int k = 0; k < 5; k++)
            if (x.value() == mode(k)) named = named == "?" ? modes[k] : "ambiguous";
        return Out(J().k("back", x.value().ToString()).k("named", named));
    });
    int a = r.Below(5), b = r.Below(5);
    t.Op("startup_pair", J().k("x", modes[a]).k("y", modes[b]), [&] {
        StartupMode x = mode(a), y = mode(b);
        return Out(J().k("eq", x == y && y == x));
    });
    static const std::vector<std::string> names = {"", "a", "b", "a.b", "db", "t$snapshots", "a long name of a database or a table"};
    std::vector<std::string> x = {r.Pick(names), r.Pick(names)}, y = r.Chance(40) ? x : std::vector<std::string>{r.Pick(names), r.Pick(names)};
    t.Op("identifier", J().k("x", x).k("y", y), [&] {
        Identifier i(x[0], x[1]), j(y[0], y[1]);
        return Out(J().k("db", i.GetDatabaseName()).k("table", i.GetTableName()).k("eq", i == j));
    });
}

int main(int argc, char** argv) { return vt::Run(argc, argv, Gen); }
