// Text forms of values: parsing, printing and JSON.
#include "text.h"

#include <charconv>
#include <iostream>

#include "rapidjson/document.h"
#include "rapidjson/error/en.h"
#include "rapidjson/stringbuffer.h"
#include "rapidjson/writer.h"

namespace arrow {
namespace text {
bool ValidUtf8(std::string_view s) {
    for (size_t i = 0; i < s.size();) {
        unsigned char c = s[i];
        size_t n = c < 0x80 ? 1 : (c >> 5) == 6 && c >= 0xC2 ? 2 : (c >> 4) == 14 ? 3 : (c >> 3) == 30 && c <= 0xF4 ? 4 : 0;
        if (n == 0 || i + n > s.size()) return false;
        for (size_t k = 1; k < n; k++)
            if ((static_cast<unsigned char>(s[i + k]) & 0xC0) != 0x80) return false;
        unsigned char d = n > 1 ? s[i + 1] : 0;
        if ((c == 0xE0 && d < 0xA0) || (c == 0xED && d > 0x9F) || (c == 0xF0 && d < 0x90) || (c == 0xF4 && d > 0x8F)) return false;
        i += n;
    }
    return true;
}
static int64_t DaysFromCivil(int64_t y, unsigned m, unsigned d) {
    y -= m <= 2;
    int64_t era = (y >= 0 ? y : y - 399) / 400;
    unsigned yoe = unsigned(y - era * 400), doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + int64_t(doe) - 719468;
}
static void CivilFromDays(int64_t z, int64_t* y, unsigned* m, unsigned* d) {
    z += 719468;
    int64_t era = (z >= 0 ? z : z - 146096) / 146097;
    unsigned doe = unsigned(z - era * 146097), yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    *y = int64_t(yoe) + era * 400;
    unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
    *d = doy - (153 * mp + 2) / 5 + 1;
    *m = mp < 10 ? mp + 3 : mp - 9;
    *y += *m <= 2;
}
static bool Digits(std::string_view s, size_t p, size_t n, int* out) {
    if (p + n > s.size()) return false;
    *out = 0;
    for (size_t i = p; i < p + n; i++) {
        if (s[i] < '0' || s[i] > '9') return false;
        *out = *out * 10 + (s[i] - '0');
    }
    return true;
}
bool ParseDate(std::string_view s, int32_t* out) {
    int y, m, d;
    if (s.size() != 10 || !Digits(s, 0, 4, &y) || s[4] != '-' || !Digits(s, 5, 2, &m) || s[7] != '-' || !Digits(s, 8, 2, &d)) return false;
    static const int dm[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    if (m < 1 || m > 12) return false;
    int last = dm[m - 1] + (m == 2 && ((y % 4 == 0 && y % 100 != 0) || y % 400 == 0));
    if (d < 1 || d > last) return false;
    *out = int32_t(DaysFromCivil(y, m, d));
    return true;
}
bool ParseTimestamp(std::string_view s, TimeUnit::type unit, int64_t* out, bool* zone) {
    int32_t day;
    *zone = false;
    if (s.size() < 10 || !ParseDate(s.substr(0, 10), &day)) return false;
    static const int64_t per[] = {1, 1000, 1000000, 1000000000};
    int64_t secs = int64_t(day) * 86400, frac = 0;
    std::string_view r = s.substr(10);
    if (!r.empty()) {
        if (r[0] != ' ' && r[0] != 'T') return false;
        r.remove_prefix(1);
        if (!r.empty() && r.back() == 'Z') {
            *zone = true;
            r.remove_suffix(1);
        } else if (auto p = r.find_last_of("+-"); p != std::string_view::npos) {
            std::string_view z = r.substr(p + 1);
            int h, m = 0;
            if (!Digits(z, 0, 2, &h)) return false;
            if (z.size() == 4 ? !Digits(z, 2, 2, &m) : z.size() == 5 ? (z[2] != ':' || !Digits(z, 3, 2, &m)) : z.size() != 2) return false;
            int64_t off = h * 3600 + m * 60;
            secs -= r[p] == '-' ? -off : off;
            *zone = true;
            r = r.substr(0, p);
        }
        int h, m = 0, sec = 0;
        if (!Digits(r, 0, 2, &h) || h > 23) return false;
        if (r.size() > 2 && (r[2] != ':' || !Digits(r, 3, 2, &m) || m > 59)) return false;
        if (r.size() > 5 && (r[5] != ':' || !Digits(r, 6, 2, &sec) || sec > 59)) return false;
        if (r.size() > 8) {
            if (r[8] != '.') return false;
            std::string_view f = r.substr(9);
            size_t digits = unit * 3;
            if (f.empty() || f.size() > digits) return false;
            for (size_t i = 0; i < digits; i++) {
                if (i < f.size() && (f[i] < '0' || f[i] > '9')) return false;
                frac = frac * 10 + (i < f.size() ? f[i] - '0' : 0);
            }
        }
        secs += h * 3600 + m * 60 + sec;
    }
    int64_t v;
    __int128 wide = static_cast<__int128>(secs) * per[unit] + frac;
    if (wide < std::numeric_limits<int64_t>::min() || wide > std::numeric_limits<int64_t>::max()) return false;
    v = static_cast<int64_t>(wide);
    *out = v;
    return true;
}
static std::string DateText(int64_t days) {
    int64_t y;
    unsigned m, d;
    CivilFromDays(days, &y, &m, &d);
    char b[64];
    snprintf(b, sizeof b, "%s%04lld-%02u-%02u", y < 0 ? "-" : "", static_cast<long long>(y < 0 ? -y : y), m, d);
    return b;
}
static std::string TimestampText(int64_t v, TimeUnit::type u) {
    static const int64_t per[] = {1, 1000, 1000000, 1000000000};
    int64_t secs = v / per[u], f = v % per[u];
    if (f < 0) f += per[u], secs--;
    int64_t day = secs / 86400, s = secs % 86400;
    if (s < 0) s += 86400, day--;
    char b[64];
    snprintf(b, sizeof b, " %02d:%02d:%02d", int(s / 3600), int(s / 60 % 60), int(s % 60));
    std::string r = DateText(day) + b;
    if (u != TimeUnit::SECOND) {
        snprintf(b, sizeof b, ".%0*lld", int(u) * 3, static_cast<long long>(f));
        r += b;
    }
    return r;
}
template <typename T>
static std::string RealText(T v) {
    if (std::isnan(v)) return "nan";
    if (std::isinf(v)) return v < 0 ? "-inf" : "inf";
    char b[64];
    auto r = std::to_chars(b, b + sizeof b, v, std::chars_format::scientific);
    std::string s(b, r.ptr);
    bool neg = s[0] == '-';
    if (neg) s.erase(0, 1);
    auto e = s.find('e');
    int ex = std::stoi(s.substr(e + 1));
    std::string dig = s.substr(0, 1) + (e > 2 ? s.substr(2, e - 2) : "");
    std::string out;
    if (ex < -5 || ex >= 15) {
        out = dig.substr(0, 1) + (dig.size() > 1 ? "." + dig.substr(1) : "") + "e" + (ex < 0 ? "-" : "+") + std::to_string(std::abs(ex));
    } else if (ex < 0) {
        out = "0." + std::string(-ex - 1, '0') + dig;
    } else if (int(dig.size()) <= ex + 1) {
        out = dig + std::string(ex + 1 - dig.size(), '0');
    } else {
        out = dig.substr(0, ex + 1) + "." + dig.substr(ex + 1);
    }
    return neg ? "-" + out : out;
}
std::string ValueText(const ArrayData& d, int64_t i) {
    switch (d.type->id()) {
#define CASE(ID, C) case Type::ID: return std::to_string(d.GetValues<C>(1)[i]);
        CASE(INT8, int8_t)
        CASE(UINT8, uint8_t)
        CASE(INT16, int16_t)
        CASE(UINT16, uint16_t)
        CASE(INT32, int32_t)
        CASE(UINT32, uint32_t)
        CASE(INT64, int64_t)
        CASE(UINT64, uint64_t)
#undef CASE
        case Type::FLOAT: return RealText(d.GetValues<float>(1)[i]);
        case Type::DOUBLE: return RealText(d.GetValues<double>(1)[i]);
        case Type::BOOL: return bit_util::GetBit(d.buffers[1]->data(), d.offset + i) ? "true" : "false";
        case Type::DATE32: return DateText(d.GetValues<int32_t>(1)[i]);
        case Type::TIMESTAMP: {
            auto& t = static_cast<const TimestampType&>(*d.type);
            int64_t v = d.GetValues<int64_t>(1)[i];
            if (t.timezone().empty()) return TimestampText(v, t.unit());
            auto l = UtcToLocal(v, t);
            if (!l.ok()) return TimestampText(v, t.unit()) + "Z";
            static const int64_t per[] = {1, 1000, 1000000, 1000000000};
            int64_t off = (*l - v) / per[t.unit()];
            if (t.timezone() == "UTC" || off == 0) return TimestampText(*l, t.unit()) + "Z";
            char b[16];
            snprintf(b, sizeof b, "%c%02d%02d", off < 0 ? '-' : '+', int(std::abs(off) / 3600), int(std::abs(off) / 60 % 60));
            return TimestampText(*l, t.unit()) + b;
        }
        case Type::DECIMAL128: return Decimal128(d.buffers[1]->data() + 16 * (d.offset + i)).ToString(static_cast<const Decimal128Type&>(*d.type).scale());
        case Type::STRING:
        case Type::BINARY: return BinaryArray(std::make_shared<ArrayData>(d)).GetString(i);
        case Type::LARGE_STRING:
        case Type::LARGE_BINARY: return LargeBinaryArray(std::make_shared<ArrayData>(d)).GetString(i);
        default: return "?";
    }
}
static std::string Hex(const std::string& s) {
    static const char* h = "0123456789ABCDEF";
    std::string r;
    for (unsigned char c : s) r += h[c >> 4], r += h[c & 15];
    return r;
}
static void Pretty(const Array& a, int in, std::ostream& o) {
    std::string pad(in, ' ');
    switch (a.type_id()) {
        case Type::STRUCT: {
            o << pad << "-- is_valid: ";
            if (a.null_count() == 0) o << "all not null";
            else {
                o << "\n" << std::string(in + 2, ' ') << "[\n";
                for (int64_t i = 0; i < a.length(); i++) o << std::string(in + 4, ' ') << (a.IsValid(i) ? "true" : "false") << (i + 1 < a.length() ? ",\n" : "\n");
                o << std::string(in + 2, ' ') << "]";
            }
            auto& s = static_cast<const StructArray&>(a);
            for (int i = 0; i < s.num_fields(); i++) {
                o << "\n" << pad << "-- child " << i << " type: " << s.field(i)->type()->ToString() << "\n";
                Pretty(*s.field(i), in + 2, o);
            }
            return;
        }
        case Type::DICTIONARY: {
            auto& s = static_cast<const DictionaryArray&>(a);
            o << pad << "\n-- dictionary:\n";
            Pretty(*s.dictionary(), in + 2, o);
            o << "\n" << pad << "-- indices:\n";
            Pretty(*s.indices(), in + 2, o);
            return;
        }
        default: break;
    }
    if (a.length() == 0) {
        o << pad << "[]";
        return;
    }
    o << pad << "[\n";
    for (int64_t i = 0; i < a.length(); i++) {
        std::string in2(in + 2, ' ');
        const char* sep = i + 1 < a.length() ? ",\n" : "\n";
        if (a.IsNull(i)) o << in2 << "null";
        else switch (a.type_id()) {
            case Type::LIST: Pretty(*static_cast<const ListArray&>(a).value_slice(i), in + 2, o); break;
            case Type::MAP: {
                auto& m = static_cast<const MapArray&>(a);
                o << in2 << "keys:\n";
                Pretty(*m.keys()->Slice(m.value_offset(i), m.value_length(i)), in + 2, o);
                o << "\n" << in2 << "values:\n";
                Pretty(*m.items()->Slice(m.value_offset(i), m.value_length(i)), in + 2, o);
                break;
            }
            case Type::STRING:
            case Type::LARGE_STRING: o << in2 << '"' << ValueText(*a.data(), i) << '"'; break;
            case Type::BINARY:
            case Type::LARGE_BINARY: o << in2 << Hex(ValueText(*a.data(), i)); break;
            default: o << in2 << ValueText(*a.data(), i);
        }
        o << sep;
    }
    o << pad << "]";
}
}  // namespace text
std::string Array::ToString() const {
    std::ostringstream o;
    text::Pretty(*this, 0, o);
    return o.str();
}
std::string ChunkedArray::ToString() const {
    std::ostringstream o;
    o << "[\n";
    for (size_t i = 0; i < chunks_.size(); i++) {
        text::Pretty(*chunks_[i], 2, o);
        o << (i + 1 < chunks_.size() ? ",\n" : "\n");
    }
    o << "]";
    return o.str();
}
std::string Scalar::ToString() const {
    if (!is_valid) return "null";
    auto a = MakeArrayFromScalar(*this, 1).ValueOrDie();
    return text::ValueText(*a->data(), 0);
}
Status PrettyPrint(const Array& a, const PrettyPrintOptions& o, std::ostream* sink) { return PrettyPrint(a, o.indent, sink); }
Status PrettyPrint(const Array& a, int indent, std::ostream* sink) { text::Pretty(a, indent, *sink); return Status::OK(); }
Status PrettyPrint(const Array& a, const PrettyPrintOptions& o, std::string* out) {
    std::ostringstream os;
    ARROW_RETURN_NOT_OK(PrettyPrint(a, o, &os));
    *out = os.str();
    return Status::OK();
}
Status PrettyPrint(const ChunkedArray& a, const PrettyPrintOptions& o, std::string* out) {
    std::ostringstream os;
    ARROW_RETURN_NOT_OK(PrettyPrint(a, o, &os));
    *out = os.str();
    return Status::OK();
}
Status PrettyPrint(const ChunkedArray& a, const PrettyPrintOptions&, std::ostream* sink) { *sink << a.ToString(); return Status::OK(); }

namespace ipc::internal::json {
namespace rj = rapidjson;
static Status Put(ArrayBuilder* b, const DataType& t, const rj::Value& v) {
    if (v.IsNull()) return b->AppendNull();
    auto bad = [&] { return Status::Invalid("Expected ", t.ToString(), " but got something else"); };
    switch (t.id()) {
        case Type::BOOL:
            if (v.IsBool()) return static_cast<BooleanBuilder*>(b)->Append(v.GetBool());
            if (v.IsInt()) return static_cast<BooleanBuilder*>(b)->Append(v.GetInt() != 0);
            return bad();
#define INTCASE(ID, B, C)                                                                     \
    case Type::ID: {                                                                          \
        if (v.IsInt64()) {                                                                    \
            C x = static_cast<C>(v.GetInt64());                                               \
            if (static_cast<int64_t>(x) != v.GetInt64()) return Status::Invalid("Value ", v.GetInt64(), " out of bounds for ", t.ToString()); \
            return static_cast<B*>(b)->Append(x);                                             \
        }                                                                                     \
        if (v.IsUint64()) return static_cast<B*>(b)->Append(static_cast<C>(v.GetUint64()));   \
        return bad();                                                                         \
    }
        INTCASE(INT8, Int8Builder, int8_t)
        INTCASE(UINT8, UInt8Builder, uint8_t)
        INTCASE(INT16, Int16Builder, int16_t)
        INTCASE(UINT16, UInt16Builder, uint16_t)
        INTCASE(INT32, Int32Builder, int32_t)
        INTCASE(UINT32, UInt32Builder, uint32_t)
        INTCASE(INT64, Int64Builder, int64_t)
        INTCASE(UINT64, UInt64Builder, uint64_t)
        case Type::DATE32:
            if (v.IsString()) {
                int32_t d;
                if (!text::ParseDate(std::string_view(v.GetString(), v.GetStringLength()), &d)) return bad();
                return static_cast<Date32Builder*>(b)->Append(d);
            }
            if (v.IsInt()) return static_cast<Date32Builder*>(b)->Append(v.GetInt());
            return bad();
        case Type::FLOAT:
        case Type::DOUBLE: {
            double x;
            if (v.IsNumber()) x = v.GetDouble();
            else if (v.IsString() && ::arrow::internal::StringToFloat(v.GetString(), v.GetStringLength(), '.', &x)) {
            } else return bad();
            return t.id() == Type::FLOAT ? static_cast<FloatBuilder*>(b)->Append(float(x)) : static_cast<DoubleBuilder*>(b)->Append(x);
        }
        case Type::STRING:
        case Type::BINARY:
            if (!v.IsString()) return bad();
            return static_cast<BinaryBuilder*>(b)->Append(std::string_view(v.GetString(), v.GetStringLength()));
        case Type::LARGE_STRING:
        case Type::LARGE_BINARY:
            if (!v.IsString()) return bad();
            return static_cast<LargeBinaryBuilder*>(b)->Append(std::string_view(v.GetString(), v.GetStringLength()));
        case Type::TIMESTAMP: {
            int64_t x;
            bool zone;
            if (v.IsInt64()) return static_cast<TimestampBuilder*>(b)->Append(v.GetInt64());
            if (v.IsString() && text::ParseTimestamp(std::string_view(v.GetString(), v.GetStringLength()), static_cast<const TimestampType&>(t).unit(), &x, &zone))
                return static_cast<TimestampBuilder*>(b)->Append(x);
            return Status::Invalid("couldn't parse timestamp from ", v.IsString() ? v.GetString() : "?");
        }
        case Type::DECIMAL128: {
            if (!v.IsString()) return bad();
            Decimal128 d;
            int32_t p, s;
            ARROW_RETURN_NOT_OK(Decimal128::FromString(std::string_view(v.GetString(), v.GetStringLength()), &d, &p, &s));
            auto& dt = static_cast<const Decimal128Type&>(t);
            ARROW_ASSIGN_OR_RAISE(d, d.Rescale(s, dt.scale()));
            return static_cast<Decimal128Builder*>(b)->Append(d);
        }
        case Type::LIST: {
            if (!v.IsArray()) return bad();
            auto* l = static_cast<ListBuilder*>(b);
            ARROW_RETURN_NOT_OK(l->Append());
            for (auto& e : v.GetArray()) ARROW_RETURN_NOT_OK(Put(l->value_builder(), *t.field(0)->type(), e));
            return Status::OK();
        }
        case Type::MAP: {
            if (!v.IsArray()) return bad();
            auto* m = static_cast<MapBuilder*>(b);
            auto& mt = static_cast<const MapType&>(t);
            ARROW_RETURN_NOT_OK(m->Append());
            for (auto& e : v.GetArray()) {
                if (!e.IsArray() || e.Size() != 2) return Status::Invalid("key item pair must have exactly two elements");
                ARROW_RETURN_NOT_OK(Put(m->key_builder(), *mt.key_type(), e[0]));
                ARROW_RETURN_NOT_OK(Put(m->item_builder(), *mt.item_type(), e[1]));
            }
            return Status::OK();
        }
        case Type::STRUCT: {
            auto* s = static_cast<StructBuilder*>(b);
            if (v.IsArray()) {
                if (int(v.Size()) != t.num_fields()) return Status::Invalid("Expected array of size ", t.num_fields(), ", got array of size ", v.Size());
                for (int i = 0; i < t.num_fields(); i++) ARROW_RETURN_NOT_OK(Put(s->field_builder(i), *t.field(i)->type(), v[i]));
                return s->Append();
            }
            if (!v.IsObject()) return bad();
            for (int i = 0; i < t.num_fields(); i++) {
                auto it = v.FindMember(t.field(i)->name().c_str());
                if (it == v.MemberEnd()) ARROW_RETURN_NOT_OK(s->field_builder(i)->AppendNull());
                else ARROW_RETURN_NOT_OK(Put(s->field_builder(i), *t.field(i)->type(), it->value));
            }
            return s->Append();
        }
        default: return Status::NotImplemented("JSON conversion to ", t.ToString());
    }
}
Result<std::shared_ptr<Array>> ArrayFromJSON(const std::shared_ptr<DataType>& type, std::string_view json) {
    rj::Document d;
    d.Parse<rj::kParseFullPrecisionFlag | rj::kParseNanAndInfFlag>(json.data(), json.size());
    if (d.HasParseError()) return Status::Invalid("JSON parse error at offset ", d.GetErrorOffset(), ": ", rj::GetParseError_En(d.GetParseError()));
    if (!d.IsArray()) return Status::Invalid("Expected JSON array");
    if (type->id() == Type::DICTIONARY) {
        auto& t = static_cast<const DictionaryType&>(*type);
        ARROW_ASSIGN_OR_RAISE(std::shared_ptr<Array> v, ArrayFromJSON(t.value_type(), json));
        // each distinct value once, in order of appearance
        ArrayVector distinct;
        ARROW_ASSIGN_OR_RAISE(auto ib, MakeBuilder(int64()));
        for (int64_t i = 0; i < v->length(); i++) {
            if (v->IsNull(i)) {
                ARROW_RETURN_NOT_OK(ib->AppendNull());
                continue;
            }
            auto s = v->Slice(i, 1);
            size_t k = 0;
            while (k < distinct.size() && !distinct[k]->Equals(*s)) k++;
            if (k == distinct.size()) distinct.push_back(s);
            ARROW_RETURN_NOT_OK(static_cast<Int64Builder&>(*ib).Append(k));
        }
        ARROW_ASSIGN_OR_RAISE(std::shared_ptr<Array> idx, ib->Finish());
        ARROW_ASSIGN_OR_RAISE(idx, compute::Cast(*idx, t.index_type()));
        if (distinct.empty()) distinct.push_back(v->Slice(0, 0));
        ARROW_ASSIGN_OR_RAISE(std::shared_ptr<Array> dict, Concatenate(distinct));
        return DictionaryArray::FromArrays(type, idx, dict);
    }
    ARROW_ASSIGN_OR_RAISE(auto b, MakeBuilder(type));
    for (auto& e : d.GetArray()) ARROW_RETURN_NOT_OK(Put(b.get(), *type, e));
    return b->Finish();
}
Status ChunkedArrayFromJSON(const std::shared_ptr<DataType>& type, const std::vector<std::string>& json, std::shared_ptr<ChunkedArray>* out) {
    ArrayVector c;
    for (auto& j : json) {
        ARROW_ASSIGN_OR_RAISE(std::shared_ptr<Array> a, ArrayFromJSON(type, j));
        c.push_back(a);
    }
    *out = std::make_shared<ChunkedArray>(c, type);
    return Status::OK();
}
}  // namespace ipc::internal::json
}  // namespace arrow
