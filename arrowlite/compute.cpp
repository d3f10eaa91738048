// Casts, time zones, sorting and taking.  Built as C++20 for the time-zone database of <chrono>.
#include <charconv>
#include <chrono>

#include "arrow/lite.h"
#include "text.h"

namespace arrow {
namespace {
int64_t FloorDiv(int64_t a, int64_t b) { return a / b - ((a % b != 0) && ((a < 0) != (b < 0))); }
int64_t PerSecond(TimeUnit::type u) { return u == TimeUnit::SECOND ? 1 : u == TimeUnit::MILLI ? 1000 : u == TimeUnit::MICRO ? 1000000 : 1000000000; }
Result<const std::chrono::time_zone*> Zone(const std::string& name) {
    try {
        return std::chrono::locate_zone(name);
    } catch (const std::exception&) {
        return Status::Invalid("Cannot locate timezone '", name, "'");
    }
}
// "+08:00"-style names are fixed offsets.
bool FixedOffset(const std::string& tz, int64_t* secs) {
    if (tz.size() < 3 || (tz[0] != '+' && tz[0] != '-')) return false;
    int h = std::stoi(tz.substr(1, 2)), m = tz.size() >= 5 ? std::stoi(tz.substr(tz.size() - 2)) : 0;
    *secs = (h * 3600 + m * 60) * (tz[0] == '-' ? -1 : 1);
    return true;
}
Result<int64_t> ToLocal(int64_t v, const TimestampType& t) {
    int64_t per = PerSecond(t.unit()), secs = FloorDiv(v, per), off = 0;
    if (!FixedOffset(t.timezone(), &off)) {
        ARROW_ASSIGN_OR_RAISE(auto* z, Zone(t.timezone()));
        off = z->get_info(std::chrono::sys_seconds(std::chrono::seconds(secs))).offset.count();
    }
    return v + off * per;
}
Result<int64_t> FromLocal(int64_t v, TimeUnit::type unit, const compute::AssumeTimezoneOptions& o) {
    using namespace std::chrono;
    int64_t per = PerSecond(unit), secs = FloorDiv(v, per), off = 0;
    if (!FixedOffset(o.timezone, &off)) {
        ARROW_ASSIGN_OR_RAISE(auto* z, Zone(o.timezone));
        local_info i = z->get_info(local_seconds(seconds(secs)));
        if (i.result == local_info::unique) off = i.first.offset.count();
        else if (i.result == local_info::ambiguous) {
            if (o.ambiguous == o.AMBIGUOUS_RAISE) return Status::Invalid("Timestamp is ambiguous in timezone '", o.timezone, "'");
            off = o.ambiguous == o.AMBIGUOUS_EARLIEST ? i.first.offset.count() : i.second.offset.count();
        } else {
            if (o.nonexistent == o.NONEXISTENT_RAISE) {
                auto l = local_seconds(seconds(secs));
                auto day = floor<days>(l);
                year_month_day ymd{day};
                hh_mm_ss hms{l - day};
                char when[64];
                snprintf(when, sizeof(when), "%04d-%02u-%02u %02d:%02d:%02d", int(ymd.year()), unsigned(ymd.month()), unsigned(ymd.day()),
                         int(hms.hours().count()), int(hms.minutes().count()), int(hms.seconds().count()));
                return Status::Invalid("Timestamp doesn't exist in timezone '", o.timezone, "': ", when, " is in a gap between");
            }
            int64_t begin = i.second.begin.time_since_epoch().count();
            return o.nonexistent == o.NONEXISTENT_LATEST ? begin * per : begin * per - 1;
        }
    }
    return v - off * per;
}
}  // namespace
namespace text {
Result<int64_t> UtcToLocal(int64_t v, const TimestampType& t) { return ToLocal(v, t); }
}

namespace compute {
namespace {
bool IsNum(Type::type t) { return is_integer(t) || t == Type::FLOAT || t == Type::DOUBLE; }
bool IsStr(Type::type t) { return t == Type::STRING || t == Type::LARGE_STRING; }
bool IsBin(Type::type t) { return IsStr(t) || t == Type::BINARY || t == Type::LARGE_BINARY; }

template <typename F>
Status WithNum(Type::type t, F&& f) {
    switch (t) {
        case Type::INT8: return f(Int8Type());
        case Type::UINT8: return f(UInt8Type());
        case Type::INT16: return f(Int16Type());
        case Type::UINT16: return f(UInt16Type());
        case Type::INT32: return f(Int32Type());
        case Type::UINT32: return f(UInt32Type());
        case Type::INT64: return f(Int64Type());
        case Type::UINT64: return f(UInt64Type());
        case Type::FLOAT: return f(FloatType());
        case Type::DOUBLE: return f(DoubleType());
        default: return Status::NotImplemented("not a number type");
    }
}
template <typename O, typename I>
Status NumCast(I v, const CastOptions& o, O* out) {
    if constexpr (std::is_floating_point_v<I> && std::is_integral_v<O>) {
        long double x = v;
        bool fits = x > static_cast<long double>(std::numeric_limits<O>::min()) - 1 && x < static_cast<long double>(std::numeric_limits<O>::max()) + 1;
        if constexpr (sizeof(O) < 4) {  // what a conversion through a 32-bit register gives
            bool wide = x > -2147483649.0L && x < 2147483648.0L;
            *out = static_cast<O>(wide ? static_cast<int32_t>(v) : std::numeric_limits<int32_t>::min());
        } else {
            *out = fits ? static_cast<O>(v) : std::numeric_limits<O>::min();
        }
        if (!o.allow_float_truncate && (!fits || static_cast<I>(*out) != v))
            return Status::Invalid("Float value ", v, " was truncated converting to integer");
    } else if constexpr (std::is_integral_v<I> && std::is_floating_point_v<O>) {
        *out = static_cast<O>(v);
        constexpr int64_t lim = int64_t(1) << std::numeric_limits<O>::digits;
        if (!o.allow_float_truncate && (static_cast<__int128>(v) > lim || static_cast<__int128>(v) < -lim))
            return Status::Invalid("Integer value ", +v, " not in range: ", -lim, " to ", lim);
    } else if constexpr (std::is_integral_v<I> && std::is_integral_v<O>) {
        *out = static_cast<O>(v);
        if (!o.allow_int_overflow && static_cast<__int128>(*out) != static_cast<__int128>(v))
            return Status::Invalid("Integer value ", +v, " not in range: ", +std::numeric_limits<O>::min(), " to ", +std::numeric_limits<O>::max());
    } else {
        *out = static_cast<O>(v);
    }
    return Status::OK();
}
template <typename T>
Status ParseInt(std::string_view s, T* out) {
    auto bad = [&] { return Status::Invalid("Failed to parse string: '", s, "' as a scalar of type ", TypeTraits<typename std::conditional_t<std::is_same_v<T, int8_t>, Int8Type, std::conditional_t<std::is_same_v<T, int16_t>, Int16Type, std::conditional_t<std::is_same_v<T, int32_t>, Int32Type, Int64Type>>>>::type_singleton()->ToString()); };
    if (s.empty() || s[0] == '+') return bad();
    auto r = std::from_chars(s.data(), s.data() + s.size(), *out);
    if (r.ec != std::errc() || r.ptr != s.data() + s.size()) return bad();
    return Status::OK();
}
Status Convert(const Array& a, const std::shared_ptr<DataType>& to, const CastOptions& o, ArrayBuilder* b) {
    Type::type f = a.type_id(), t = to->id();
    auto& d = *a.data();
    int64_t n = a.length();
    auto each = [&](auto&& fn) -> Status {
        for (int64_t i = 0; i < n; i++) {
            if (a.IsNull(i)) ARROW_RETURN_NOT_OK(b->AppendNull());
            else ARROW_RETURN_NOT_OK(fn(i));
        }
        return Status::OK();
    };
    auto put_text = [&](std::string_view s) { return t == Type::LARGE_STRING || t == Type::LARGE_BINARY ? static_cast<LargeBinaryBuilder*>(b)->Append(s) : static_cast<BinaryBuilder*>(b)->Append(s); };
    auto get_text = [&](int64_t i) { return f == Type::LARGE_STRING || f == Type::LARGE_BINARY ? static_cast<const LargeBinaryArray&>(a).GetView(i) : static_cast<const BinaryArray&>(a).GetView(i); };
    auto no = [&] { return Status::NotImplemented("Unsupported cast from ", a.type()->ToString(), " to ", to->ToString()); };
    if (IsNum(f) && IsNum(t))
        return WithNum(f, [&](auto ft) {
            using I = typename decltype(ft)::c_type;
            return WithNum(t, [&](auto tt) {
                using O = typename decltype(tt)::c_type;
                return each([&](int64_t i) {
                    O v;
                    ARROW_RETURN_NOT_OK(NumCast<O>(d.GetValues<I>(1)[i], o, &v));
                    return static_cast<NumericBuilder<decltype(tt)>*>(b)->Append(v);
                });
            });
        });
    if (f == Type::BOOL && IsNum(t))
        return WithNum(t, [&](auto tt) {
            using O = typename decltype(tt)::c_type;
            return each([&](int64_t i) { return static_cast<NumericBuilder<decltype(tt)>*>(b)->Append(O(static_cast<const BooleanArray&>(a).Value(i))); });
        });
    if (IsNum(f) && t == Type::BOOL)
        return WithNum(f, [&](auto ft) {
            using I = typename decltype(ft)::c_type;
            return each([&](int64_t i) { return static_cast<BooleanBuilder*>(b)->Append(d.GetValues<I>(1)[i] != 0); });
        });
    if (IsBin(f) && IsBin(t))
        return each([&](int64_t i) {
            auto s = get_text(i);
            if (IsStr(t) && !IsStr(f) && !o.allow_invalid_utf8 && !text::ValidUtf8(s)) return Status::Invalid("Invalid UTF8 payload");
            return put_text(s);
        });
    if (IsStr(t)) return each([&](int64_t i) { return put_text(text::ValueText(d, i)); });
    if (IsStr(f)) {
        if (IsNum(t))
            return WithNum(t, [&](auto tt) {
                using O = typename decltype(tt)::c_type;
                return each([&](int64_t i) {
                    O v;
                    auto s = get_text(i);
                    if constexpr (std::is_floating_point_v<O>) {
                        if (!internal::StringToFloat(s.data(), s.size(), '.', &v)) return Status::Invalid("Failed to parse string: '", s, "' as a scalar of type ", to->ToString());
                    } else {
                        ARROW_RETURN_NOT_OK(ParseInt(s, &v));
                    }
                    return static_cast<NumericBuilder<decltype(tt)>*>(b)->Append(v);
                });
            });
        auto bad = [&](std::string_view s) { return Status::Invalid("Failed to parse string: '", s, "' as a scalar of type ", to->ToString()); };
        if (t == Type::BOOL)
            return each([&](int64_t i) {
                auto s = get_text(i);
                std::string l(s);
                std::transform(l.begin(), l.end(), l.begin(), ::tolower);
                if (l == "1" || l == "true") return static_cast<BooleanBuilder*>(b)->Append(true);
                if (l == "0" || l == "false") return static_cast<BooleanBuilder*>(b)->Append(false);
                return bad(s);
            });
        if (t == Type::DATE32)
            return each([&](int64_t i) {
                int32_t v;
                auto s = get_text(i);
                if (!text::ParseDate(s, &v)) return bad(s);
                return static_cast<Date32Builder*>(b)->Append(v);
            });
        if (t == Type::TIMESTAMP)
            return each([&](int64_t i) {
                int64_t v;
                bool zone = false;
                auto s = get_text(i);
                auto& ts = static_cast<const TimestampType&>(*to);
                if (!text::ParseTimestamp(s, ts.unit(), &v, &zone)) return bad(s);
                if (ts.timezone().empty() && zone) return Status::Invalid("expected no zone offset in '", s, "'");
                if (!ts.timezone().empty() && !zone) return Status::Invalid("expected a zone offset in '", s, "'. If these timestamps are in local time, parse them as timestamps without timezone, then call assume_timezone.");
                return static_cast<TimestampBuilder*>(b)->Append(v);
            });
        if (t == Type::DECIMAL128)
            return each([&](int64_t i) {
                Decimal128 v;
                int32_t p, s;
                auto& dt = static_cast<const Decimal128Type&>(*to);
                ARROW_RETURN_NOT_OK(Decimal128::FromString(get_text(i), &v, &p, &s));
                ARROW_ASSIGN_OR_RAISE(v, v.Rescale(s, dt.scale()));
                if (!v.FitsInPrecision(dt.precision())) return Status::Invalid("Decimal value does not fit in precision ", dt.precision());
                return static_cast<Decimal128Builder*>(b)->Append(v);
            });
        return no();
    }
    if (f == Type::TIMESTAMP && t == Type::TIMESTAMP) {
        auto &x = static_cast<const TimestampType&>(*a.type()), &y = static_cast<const TimestampType&>(*to);
        int64_t p = PerSecond(x.unit()), q = PerSecond(y.unit());
        return each([&](int64_t i) {
            int64_t v = d.GetValues<int64_t>(1)[i], r;
            if (q >= p) {
                if (__builtin_mul_overflow(v, q / p, &r) && !o.allow_time_overflow)
                    return Status::Invalid("Casting from ", a.type()->ToString(), " to ", to->ToString(), " would result in out of bounds timestamp: ", v);
            } else {
                r = v / (p / q);
                if (r * (p / q) != v && !o.allow_time_truncate) return Status::Invalid("Casting from ", a.type()->ToString(), " to ", to->ToString(), " would lose data: ", v);
            }
            return static_cast<TimestampBuilder*>(b)->Append(r);
        });
    }
    if (f == Type::TIMESTAMP && t == Type::DATE32) {
        auto& x = static_cast<const TimestampType&>(*a.type());
        return each([&](int64_t i) {
            int64_t v = d.GetValues<int64_t>(1)[i];
            if (!x.timezone().empty()) {
                ARROW_ASSIGN_OR_RAISE(v, ToLocal(v, x));
            }
            return static_cast<Date32Builder*>(b)->Append(int32_t(FloorDiv(v, 86400 * PerSecond(x.unit()))));
        });
    }
    if (f == Type::DATE32 && t == Type::TIMESTAMP) {
        auto& y = static_cast<const TimestampType&>(*to);
        return each([&](int64_t i) {
            int64_t r;
            if (__builtin_mul_overflow(int64_t(d.GetValues<int32_t>(1)[i]), 86400 * PerSecond(y.unit()), &r) && !o.allow_time_overflow)
                return Status::Invalid("Casting from ", a.type()->ToString(), " to ", to->ToString(), " would result in out of bounds timestamp: ", d.GetValues<int32_t>(1)[i]);
            return static_cast<TimestampBuilder*>(b)->Append(r);
        });
    }
    if (f == Type::TIMESTAMP && t == Type::INT64) return each([&](int64_t i) { return static_cast<Int64Builder*>(b)->Append(d.GetValues<int64_t>(1)[i]); });
    if (f == Type::INT64 && t == Type::TIMESTAMP) return each([&](int64_t i) { return static_cast<TimestampBuilder*>(b)->Append(d.GetValues<int64_t>(1)[i]); });
    if (f == Type::DATE32 && t == Type::INT32) return each([&](int64_t i) { return static_cast<Int32Builder*>(b)->Append(d.GetValues<int32_t>(1)[i]); });
    if (f == Type::INT32 && t == Type::DATE32) return each([&](int64_t i) { return static_cast<Date32Builder*>(b)->Append(d.GetValues<int32_t>(1)[i]); });
    if (f == Type::DECIMAL128 && IsNum(t)) {
        int32_t scale = static_cast<const Decimal128Type&>(*a.type()).scale();
        return WithNum(t, [&](auto tt) {
            using O = typename decltype(tt)::c_type;
            return each([&](int64_t i) {
                Decimal128 v(static_cast<const Decimal128Array&>(a).GetValue(i));
                O r;
                if constexpr (std::is_same_v<O, float>) r = v.ToFloat(scale);
                else if constexpr (std::is_same_v<O, double>) r = v.ToDouble(scale);
                else {
                    if (o.allow_decimal_truncate) {
                        v = scale < 0 ? Decimal128(v.IncreaseScaleBy(-scale)) : Decimal128(v.ReduceScaleBy(scale, false));
                    } else {
                        ARROW_ASSIGN_OR_RAISE(v, v.Rescale(scale, 0));
                    }
                    if (!o.allow_int_overflow && (v.raw() < static_cast<__int128>(std::numeric_limits<O>::min()) || v.raw() > static_cast<__int128>(std::numeric_limits<O>::max())))
                        return Status::Invalid("Integer value out of bounds");
                    r = static_cast<O>(v.low_bits());
                }
                return static_cast<NumericBuilder<decltype(tt)>*>(b)->Append(r);
            });
        });
    }
    if (f == Type::DECIMAL128 && t == Type::DECIMAL128) {
        int32_t s = static_cast<const Decimal128Type&>(*a.type()).scale();
        auto& y = static_cast<const Decimal128Type&>(*to);
        return each([&](int64_t i) {
            Decimal128 v(static_cast<const Decimal128Array&>(a).GetValue(i));
            ARROW_ASSIGN_OR_RAISE(v, v.Rescale(s, y.scale()));
            if (!v.FitsInPrecision(y.precision())) return Status::Invalid("Decimal value does not fit in precision ", y.precision());
            return static_cast<Decimal128Builder*>(b)->Append(v);
        });
    }
    return no();
}
}  // namespace

bool CanCast(const DataType& from, const DataType& to) {
    Type::type f = from.id(), t = to.id();
    if (from.Equals(to)) return true;
    if (f == Type::NA) return true;
    if (f == Type::DICTIONARY) return CanCast(*static_cast<const DictionaryType&>(from).value_type(), to);
    if (t == Type::DICTIONARY) return false;
    bool fn = IsNum(f) || f == Type::BOOL, tn = IsNum(t) || t == Type::BOOL;
    if (fn && tn) return true;
    if (IsBin(f) && IsBin(t)) return true;
    if (IsStr(t) && (fn || f == Type::DATE32 || f == Type::TIMESTAMP || f == Type::DECIMAL128)) return true;
    if (IsStr(f) && (tn || t == Type::DATE32 || t == Type::TIMESTAMP || t == Type::DECIMAL128)) return true;
    if ((f == Type::DATE32 || f == Type::TIMESTAMP) && (t == Type::DATE32 || t == Type::TIMESTAMP)) return true;
    if ((f == Type::TIMESTAMP && t == Type::INT64) || (f == Type::INT64 && t == Type::TIMESTAMP)) return true;
    if ((f == Type::DATE32 && t == Type::INT32) || (f == Type::INT32 && t == Type::DATE32)) return true;
    if (f == Type::DECIMAL128 && (IsNum(t) || t == Type::DECIMAL128)) return true;
    return false;
}
Result<std::shared_ptr<Array>> Cast(const Array& a, const TypeHolder& to, const CastOptions& o, ExecContext* ctx) {
    auto type = to.GetSharedPtr();
    if (a.type()->Equals(*type)) return MakeArray(a.data());
    if (a.type_id() == Type::NA) return MakeArrayOfNull(type, a.length());
    if (a.type_id() == Type::DICTIONARY && type->id() != Type::DICTIONARY) {
        auto& v = static_cast<const DictionaryType&>(*a.type()).value_type();
        ARROW_ASSIGN_OR_RAISE(auto b, MakeBuilder(v, ctx ? ctx->memory_pool() : default_memory_pool()));
        ARROW_RETURN_NOT_OK(b->AppendArraySlice(*a.data(), 0, a.length()));
        ARROW_ASSIGN_OR_RAISE(std::shared_ptr<Array> plain, b->Finish());
        return Cast(*plain, to, o, ctx);
    }
    if (!CanCast(*a.type(), *type)) return Status::NotImplemented("Unsupported cast from ", a.type()->ToString(), " to ", type->ToString(), " using function cast");
    ARROW_ASSIGN_OR_RAISE(auto b, MakeBuilder(type, ctx ? ctx->memory_pool() : default_memory_pool()));
    ARROW_RETURN_NOT_OK(Convert(a, type, o, b.get()));
    return b->Finish();
}
Result<Datum> Cast(const Datum& v, const TypeHolder& to, const CastOptions& o, ExecContext* ctx) {
    if (v.is_scalar()) {
        ARROW_ASSIGN_OR_RAISE(std::shared_ptr<Array> a, MakeArrayFromScalar(*v.scalar(), 1));
        ARROW_ASSIGN_OR_RAISE(a, Cast(*a, to, o, ctx));
        ARROW_ASSIGN_OR_RAISE(std::shared_ptr<Scalar> s, a->GetScalar(0));
        return Datum(s);
    }
    ARROW_ASSIGN_OR_RAISE(std::shared_ptr<Array> a, Cast(*v.make_array(), to, o, ctx));
    return Datum(a);
}
template <typename F>
static Result<Datum> MapTimestamps(const Datum& v, const std::shared_ptr<DataType>& type, F&& fn) {
    auto one = [&](const Array& a) -> Result<std::shared_ptr<Array>> {
        ARROW_ASSIGN_OR_RAISE(auto b, MakeBuilder(type));
        for (int64_t i = 0; i < a.length(); i++) {
            if (a.IsNull(i)) {
                ARROW_RETURN_NOT_OK(b->AppendNull());
                continue;
            }
            ARROW_ASSIGN_OR_RAISE(int64_t r, fn(static_cast<const TimestampArray&>(a).Value(i)));
            ARROW_RETURN_NOT_OK(static_cast<TimestampBuilder&>(*b).Append(r));
        }
        return b->Finish();
    };
    if (v.is_scalar()) {
        ARROW_ASSIGN_OR_RAISE(std::shared_ptr<Array> a, MakeArrayFromScalar(*v.scalar(), 1));
        ARROW_ASSIGN_OR_RAISE(a, one(*a));
        ARROW_ASSIGN_OR_RAISE(std::shared_ptr<Scalar> s, a->GetScalar(0));
        return Datum(s);
    }
    ARROW_ASSIGN_OR_RAISE(std::shared_ptr<Array> a, one(*v.make_array()));
    return Datum(a);
}
Result<Datum> AssumeTimezone(const Datum& v, AssumeTimezoneOptions o, ExecContext*) {
    auto t = std::static_pointer_cast<TimestampType>(v.type());
    if (!t->timezone().empty()) return Status::Invalid("Timestamps already have a timezone: '", t->timezone(), "'. Cannot localize to '", o.timezone, "'.");
    return MapTimestamps(v, timestamp(t->unit(), o.timezone), [&](int64_t x) { return FromLocal(x, t->unit(), o); });
}
Result<Datum> LocalTimestamp(const Datum& v, ExecContext*) {
    auto t = std::static_pointer_cast<TimestampType>(v.type());
    if (t->timezone().empty()) return v;
    return MapTimestamps(v, timestamp(t->unit()), [&](int64_t x) { return ToLocal(x, *t); });
}

namespace {
template <typename T>
int Cmp(T a, T b) { return a < b ? -1 : b < a ? 1 : 0; }
Result<int> CompareAt(const ArrayData& a, int64_t i, int64_t j) {
    switch (a.type->id()) {
#define CASE(ID, C) case Type::ID: return Cmp(a.GetValues<C>(1)[i], a.GetValues<C>(1)[j]);
        CASE(INT8, int8_t)
        CASE(UINT8, uint8_t)
        CASE(INT16, int16_t)
        CASE(UINT16, uint16_t)
        CASE(INT32, int32_t)
        CASE(UINT32, uint32_t)
        CASE(INT64, int64_t)
        CASE(UINT64, uint64_t)
        CASE(FLOAT, float)
        CASE(DOUBLE, double)
        CASE(DATE32, int32_t)
        CASE(TIMESTAMP, int64_t)
#undef CASE
        case Type::BOOL: return Cmp<int>(bit_util::GetBit(a.buffers[1]->data(), a.offset + i), bit_util::GetBit(a.buffers[1]->data(), a.offset + j));
        case Type::STRING:
        case Type::BINARY: {
            BinaryArray b(std::make_shared<ArrayData>(a));
            return Cmp(b.GetView(i), b.GetView(j));
        }
        case Type::LARGE_STRING:
        case Type::LARGE_BINARY: {
            LargeBinaryArray b(std::make_shared<ArrayData>(a));
            return Cmp(b.GetView(i), b.GetView(j));
        }
        case Type::DECIMAL128: {
            const uint8_t* p = a.buffers[1]->data();
            return Cmp(Decimal128(p + 16 * (a.offset + i)), Decimal128(p + 16 * (a.offset + j)));
        }
        default: return Status::TypeError("Unsupported type for sorting: ", a.type->ToString());
    }
}
bool IsNan(const ArrayData& a, int64_t i) {
    if (a.type->id() == Type::FLOAT) return std::isnan(a.GetValues<float>(1)[i]);
    if (a.type->id() == Type::DOUBLE) return std::isnan(a.GetValues<double>(1)[i]);
    return false;
}
}  // namespace
static Result<std::shared_ptr<Array>> Flat(const Datum& d) {
    if (d.kind() != Datum::CHUNKED_ARRAY) return d.make_array();
    if (d.chunked_array()->num_chunks() == 0) return MakeEmptyArray(d.type());
    return Concatenate(d.chunked_array()->chunks());
}
Result<std::shared_ptr<Array>> SortIndices(const Datum& values, const SortOptions& o, ExecContext* ctx) {
    if (values.type()->id() != Type::STRUCT) return Status::NotImplemented("SortIndices of ", values.type()->ToString());
    ARROW_ASSIGN_OR_RAISE(std::shared_ptr<Array> flat, Flat(values));
    auto a = std::static_pointer_cast<StructArray>(flat);
    if (o.sort_keys.empty()) return Status::Invalid("Must specify one or more sort keys");
    ArrayVector cols;
    for (auto& k : o.sort_keys) {
        auto c = a->GetFieldByName(k.target);
        if (!c) return Status::Invalid("No match for FieldRef.Name(", k.target, ") in ", a->type()->ToString());
        if (c->length() > 0) ARROW_RETURN_NOT_OK(CompareAt(*c->data(), 0, 0).status());
        cols.push_back(c);
    }
    std::vector<uint64_t> idx(a->length());
    for (size_t i = 0; i < idx.size(); i++) idx[i] = i;
    bool start = o.null_placement == NullPlacement::AtStart;
    // rank of a value among null, NaN and ordinary values
    auto rank = [&](const ArrayData& d, int64_t i) { return d.IsNull(i) ? (start ? -2 : 2) : IsNan(d, i) ? (start ? -1 : 1) : 0; };
    std::stable_sort(idx.begin(), idx.end(), [&](uint64_t x, uint64_t y) {
        for (size_t k = 0; k < cols.size(); k++) {
            auto& d = *cols[k]->data();
            int rx = rank(d, x), ry = rank(d, y);
            if (rx != ry) return rx < ry;
            if (rx != 0) continue;
            int c = CompareAt(d, x, y).ValueUnsafe();
            if (c != 0) return o.sort_keys[k].order == SortOrder::Ascending ? c < 0 : c > 0;
        }
        return false;
    });
    ARROW_ASSIGN_OR_RAISE(auto b, MakeBuilder(uint64(), ctx ? ctx->memory_pool() : default_memory_pool()));
    ARROW_RETURN_NOT_OK(static_cast<UInt64Builder&>(*b).AppendValues(idx));
    return b->Finish();
}
Result<Datum> Take(const Datum& values, const Datum& indices, const TakeOptions&, ExecContext* ctx) {
    ARROW_ASSIGN_OR_RAISE(std::shared_ptr<Array> a, Flat(values));
    auto wrap = [&](std::shared_ptr<Array> r) {
        return values.kind() == Datum::CHUNKED_ARRAY ? Datum(std::make_shared<ChunkedArray>(r)) : Datum(r);
    };
    ARROW_ASSIGN_OR_RAISE(std::shared_ptr<Array> ix, Cast(*indices.make_array(), int64()));
    auto& x = static_cast<const Int64Array&>(*ix);
    ArrayVector parts;
    for (int64_t i = 0; i < x.length(); i++) {
        if (x.IsNull(i)) {
            ARROW_ASSIGN_OR_RAISE(std::shared_ptr<Array> n, MakeArrayOfNull(a->type(), 1));
            parts.push_back(n);
            continue;
        }
        if (x.Value(i) < 0 || x.Value(i) >= a->length()) return Status::IndexError("Index ", x.Value(i), " out of bounds");
        parts.push_back(a->Slice(x.Value(i), 1));
    }
    if (parts.empty()) return wrap(a->Slice(0, 0));
    ARROW_ASSIGN_OR_RAISE(std::shared_ptr<Array> r, Concatenate(parts, ctx ? ctx->memory_pool() : default_memory_pool()));
    return wrap(r);
}
}  // namespace compute
}  // namespace arrow

namespace arrow_vendored::date {
const time_zone* current_zone() {
    // like the vendored library: the TZ variable does not count, /etc/localtime does
    static const time_zone* z = new time_zone(std::string(std::chrono::current_zone()->name()));
    return z;
}
}  // namespace arrow_vendored::date
