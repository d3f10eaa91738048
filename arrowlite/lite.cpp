#include "arrow/lite.h"

#include <charconv>
#include <cstdlib>
#include <iomanip>
#include <iostream>

namespace arrow {
// ---------------------------------------------------------------- status
std::string Status::CodeAsString() const {
    switch (code_) {
        case StatusCode::OK: return "OK";
        case StatusCode::OutOfMemory: return "Out of memory";
        case StatusCode::KeyError: return "Key error";
        case StatusCode::TypeError: return "Type error";
        case StatusCode::Invalid: return "Invalid";
        case StatusCode::IOError: return "IOError";
        case StatusCode::CapacityError: return "Capacity error";
        case StatusCode::IndexError: return "Index error";
        case StatusCode::Cancelled: return "Cancelled";
        case StatusCode::NotImplemented: return "NotImplemented";
        case StatusCode::SerializationError: return "Serialization error";
        default: return "Unknown error";
    }
}
void Status::Abort() const {
    std::cerr << "-- Arrow Fatal Error --\n" << ToString() << std::endl;
    std::abort();
}
std::ostream& operator<<(std::ostream& os, const Status& s) { return os << s.ToString(); }

// ---------------------------------------------------------------- memory
namespace {
class SystemPool : public MemoryPool {
 public:
    using MemoryPool::Allocate;
    using MemoryPool::Free;
    using MemoryPool::Reallocate;
    Status Allocate(int64_t size, int64_t alignment, uint8_t** out) override {
        if (size < 0) return Status::Invalid("negative malloc size");
        void* p = nullptr;
        if (posix_memalign(&p, std::max<int64_t>(alignment, 8), std::max<int64_t>(size, 1)) != 0)
            return Status::OutOfMemory("malloc of size ", size, " failed");
        *out = static_cast<uint8_t*>(p);
        stats_.DidAllocateBytes(size);
        return Status::OK();
    }
    Status Reallocate(int64_t o, int64_t n, int64_t alignment, uint8_t** ptr) override {
        uint8_t* p = nullptr;
        ARROW_RETURN_NOT_OK(Allocate(n, alignment, &p));
        memcpy(p, *ptr, std::min(o, n));
        Free(*ptr, o, alignment);
        *ptr = p;
        return Status::OK();
    }
    void Free(uint8_t* buffer, int64_t size, int64_t) override {
        free(buffer);
        stats_.DidFreeBytes(size);
    }
    int64_t bytes_allocated() const override { return stats_.bytes_allocated(); }
    int64_t max_memory() const override { return stats_.max_memory(); }
    int64_t total_bytes_allocated() const override { return stats_.total_bytes_allocated(); }
    int64_t num_allocations() const override { return stats_.num_allocations(); }
    std::string backend_name() const override { return "system"; }

 private:
    internal::MemoryPoolStats stats_;
};
class StringBuffer : public Buffer {
 public:
    explicit StringBuffer(std::string s) : Buffer(nullptr, 0), s_(std::move(s)) {
        data_ = reinterpret_cast<const uint8_t*>(s_.data());
        size_ = capacity_ = s_.size();
    }

 private:
    std::string s_;
};
}  // namespace
MemoryPool* default_memory_pool() {
    static SystemPool* pool = new SystemPool();
    return pool;
}
std::shared_ptr<Buffer> Buffer::FromString(std::string s) { return std::make_shared<StringBuffer>(std::move(s)); }
Result<std::unique_ptr<ResizableBuffer>> AllocateResizableBuffer(int64_t size, MemoryPool* pool) {
    auto b = std::make_unique<ResizableBuffer>(pool ? pool : default_memory_pool());
    ARROW_RETURN_NOT_OK(b->Resize(size));
    return b;
}
Result<std::unique_ptr<Buffer>> AllocateBuffer(int64_t size, MemoryPool* pool) {
    ARROW_ASSIGN_OR_RAISE(std::unique_ptr<ResizableBuffer> b, AllocateResizableBuffer(size, pool));
    return std::unique_ptr<Buffer>(std::move(b));
}

namespace internal {
std::string ToString(Type::type id) {
    static const char* names[] = {"NA", "BOOL", "UINT8", "INT8", "UINT16", "INT16", "UINT32", "INT32", "UINT64", "INT64",
        "HALF_FLOAT", "FLOAT", "DOUBLE", "STRING", "BINARY", "FIXED_SIZE_BINARY", "DATE32", "DATE64", "TIMESTAMP", "TIME32",
        "TIME64", "INTERVAL_MONTHS", "INTERVAL_DAY_TIME", "DECIMAL128", "DECIMAL256", "LIST", "STRUCT", "SPARSE_UNION",
        "DENSE_UNION", "DICTIONARY", "MAP", "EXTENSION", "FIXED_SIZE_LIST", "DURATION", "LARGE_STRING", "LARGE_BINARY",
        "LARGE_LIST", "INTERVAL_MONTH_DAY_NANO", "RUN_END_ENCODED"};
    return id < Type::MAX_ID ? names[id] : "unknown";
}
template <typename T>
static bool ParseReal(const char* s, size_t n, T* out) {
    if (n == 0) return false;
    std::string t(s, n);
    // "inf", "nan" are taken in any case; hexadecimal and leading blanks are not.
    for (char c : t)
        if (isspace(static_cast<unsigned char>(c)) || c == 'x' || c == 'X' || c == 'p' || c == 'P' || c == '(') return false;
    char* end = nullptr;
    errno = 0;
    T v = std::is_same_v<T, float> ? static_cast<T>(strtof(t.c_str(), &end)) : static_cast<T>(strtod(t.c_str(), &end));
    if (end != t.c_str() + t.size()) return false;
    *out = v;
    return true;
}
bool StringToFloat(const char* s, size_t n, char, float* out) { return ParseReal(s, n, out); }
bool StringToFloat(const char* s, size_t n, char, double* out) { return ParseReal(s, n, out); }
uint32_t crc32(uint32_t prev, const void* data, size_t length) {
    uint32_t crc = ~prev;
    const uint8_t* p = static_cast<const uint8_t*>(data);
    while (length--) {
        crc ^= *p++;
        for (int k = 0; k < 8; k++) crc = (crc & 1) ? (crc >> 1) ^ 0xEDB88320u : crc >> 1;
    }
    return ~crc;
}
}  // namespace internal

// ---------------------------------------------------------------- types
std::ostream& operator<<(std::ostream& os, TimeUnit::type unit) {
    static const char* n[] = {"s", "ms", "us", "ns"};
    return os << n[unit];
}
bool KeyValueMetadata::Equals(const KeyValueMetadata& o) const {
    auto a = std::vector<std::pair<std::string, std::string>>(), b = a;
    for (size_t i = 0; i < keys_.size(); i++) a.emplace_back(keys_[i], values_[i]);
    for (size_t i = 0; i < o.keys_.size(); i++) b.emplace_back(o.keys_[i], o.values_[i]);
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    return a == b;
}
std::string KeyValueMetadata::ToString() const {
    std::string r = "\n-- metadata --";
    for (size_t i = 0; i < keys_.size(); i++) r += "\n" + keys_[i] + ": " + values_[i];
    return r;
}
std::string DataType::ToString(bool md) const {
    std::ostringstream o;
    switch (id_) {
        case Type::NA: return "null";
        case Type::BOOL: return "bool";
        case Type::UINT8: return "uint8";
        case Type::INT8: return "int8";
        case Type::UINT16: return "uint16";
        case Type::INT16: return "int16";
        case Type::UINT32: return "uint32";
        case Type::INT32: return "int32";
        case Type::UINT64: return "uint64";
        case Type::INT64: return "int64";
        case Type::FLOAT: return "float";
        case Type::DOUBLE: return "double";
        case Type::STRING: return "string";
        case Type::BINARY: return "binary";
        case Type::LARGE_STRING: return "large_string";
        case Type::LARGE_BINARY: return "large_binary";
        case Type::DATE32: return "date32[day]";
        case Type::DATE64: return "date64[ms]";
        case Type::TIME32: o << "time32[" << static_cast<const Time32Type*>(this)->unit() << "]"; return o.str();
        case Type::FIXED_SIZE_BINARY: o << "fixed_size_binary[" << static_cast<const FixedSizeBinaryType*>(this)->byte_width() << "]"; return o.str();
        case Type::DECIMAL128:
        case Type::DECIMAL256: {
            auto* d = static_cast<const DecimalType*>(this);
            o << (id_ == Type::DECIMAL128 ? "decimal128(" : "decimal256(") << d->precision() << ", " << d->scale() << ")";
            return o.str();
        }
        case Type::TIMESTAMP: {
            auto* t = static_cast<const TimestampType*>(this);
            o << "timestamp[" << t->unit();
            if (!t->timezone().empty()) o << ", tz=" << t->timezone();
            o << "]";
            return o.str();
        }
        case Type::LIST: return "list<" + children_[0]->ToString(md) + ">";
        case Type::STRUCT:
        case Type::SPARSE_UNION:
            o << (id_ == Type::STRUCT ? "struct<" : "sparse_union<");
            for (size_t i = 0; i < children_.size(); i++) {
                o << (i ? ", " : "") << children_[i]->ToString(md);
                if (id_ == Type::SPARSE_UNION) o << "=" << i;
            }
            o << ">";
            return o.str();
        case Type::MAP: {
            auto* m = static_cast<const MapType*>(this);
            auto one = [&](const std::shared_ptr<Field>& f, const char* std_name, bool std_null) {
                o << f->type()->ToString(md);
                if (f->name() != std_name) o << " ('" << f->name() << "')";
                if (!f->nullable() && std_null) o << " not null";
            };
            o << "map<";
            one(m->key_field(), "key", false);
            o << ", ";
            one(m->item_field(), "value", true);
            if (m->keys_sorted()) o << ", keys_sorted";
            o << (m->value_field()->name() != "entries" ? " ('" + m->value_field()->name() + "')>" : ">");
            return o.str();
        }
        case Type::DICTIONARY: {
            auto* d = static_cast<const DictionaryType*>(this);
            o << "dictionary<values=" << d->value_type()->ToString() << ", indices=" << d->index_type()->ToString() << ", ordered=" << d->ordered() << ">";
            return o.str();
        }
        default: return internal::ToString(id_);
    }
}
bool DataType::Equals(const DataType& o, bool md) const {
    if (this == &o) return true;
    if (id_ != o.id_) return false;
    switch (id_) {
        case Type::FIXED_SIZE_BINARY: return static_cast<const FixedSizeBinaryType*>(this)->byte_width() == static_cast<const FixedSizeBinaryType&>(o).byte_width();
        case Type::DECIMAL128:
        case Type::DECIMAL256: {
            auto &a = static_cast<const DecimalType&>(*this), &b = static_cast<const DecimalType&>(o);
            return a.precision() == b.precision() && a.scale() == b.scale();
        }
        case Type::TIMESTAMP: {
            auto &a = static_cast<const TimestampType&>(*this), &b = static_cast<const TimestampType&>(o);
            return a.unit() == b.unit() && a.timezone() == b.timezone();
        }
        case Type::TIME32: return static_cast<const Time32Type*>(this)->unit() == static_cast<const Time32Type&>(o).unit();
        case Type::DICTIONARY: {
            auto &a = static_cast<const DictionaryType&>(*this), &b = static_cast<const DictionaryType&>(o);
            return a.index_type()->Equals(b.index_type()) && a.value_type()->Equals(b.value_type(), md) && a.ordered() == b.ordered();
        }
        case Type::LIST: {
            if (md) return children_[0]->Equals(*o.children_[0], true);
            return children_[0]->nullable() == o.children_[0]->nullable() && children_[0]->type()->Equals(*o.children_[0]->type());
        }
        case Type::MAP: {
            auto &a = static_cast<const MapType&>(*this), &b = static_cast<const MapType&>(o);
            return a.keys_sorted() == b.keys_sorted() && a.key_type()->Equals(b.key_type(), md) &&
                   a.item_field()->nullable() == b.item_field()->nullable() && a.item_type()->Equals(b.item_type(), md);
        }
        case Type::STRUCT:
        case Type::SPARSE_UNION: {
            if (children_.size() != o.children_.size()) return false;
            for (size_t i = 0; i < children_.size(); i++)
                if (!children_[i]->Equals(*o.children_[i], md)) return false;
            return true;
        }
        default: return true;
    }
}
int DataType::bit_width() const {
    switch (id_) {
        case Type::BOOL: return 1;
        case Type::INT8:
        case Type::UINT8: return 8;
        case Type::INT16:
        case Type::UINT16: return 16;
        case Type::INT32:
        case Type::UINT32:
        case Type::FLOAT:
        case Type::TIME32:
        case Type::DATE32: return 32;
        case Type::INT64:
        case Type::UINT64:
        case Type::DOUBLE:
        case Type::DATE64:
        case Type::TIMESTAMP: return 64;
        case Type::FIXED_SIZE_BINARY:
        case Type::DECIMAL128:
        case Type::DECIMAL256: return 8 * static_cast<const FixedSizeBinaryType*>(this)->byte_width();
        case Type::DICTIONARY: return static_cast<const DictionaryType*>(this)->index_type()->bit_width();
        default: return -1;
    }
}
bool Field::Equals(const Field& o, bool md) const {
    if (this == &o) return true;
    if (name_ != o.name_ || nullable_ != o.nullable_ || !type_->Equals(*o.type_, md)) return false;
    if (!md) return true;
    if (HasMetadata() != o.HasMetadata()) return false;
    return !HasMetadata() || metadata_->Equals(*o.metadata_);
}
std::string Field::ToString(bool md) const {
    std::string r = name_ + ": " + type_->ToString(md) + (nullable_ ? "" : " not null");
    if (md && HasMetadata()) r += metadata_->ToString();
    return r;
}
std::vector<std::string> Schema::field_names() const {
    std::vector<std::string> r;
    for (auto& f : fields_) r.push_back(f->name());
    return r;
}
static std::vector<int> Indices(const FieldVector& f, std::string_view name) {
    std::vector<int> r;
    for (size_t i = 0; i < f.size(); i++)
        if (f[i]->name() == name) r.push_back(int(i));
    return r;
}
std::vector<int> Schema::GetAllFieldIndices(std::string_view n) const { return Indices(fields_, n); }
int Schema::GetFieldIndex(std::string_view n) const { auto v = Indices(fields_, n); return v.size() == 1 ? v[0] : -1; }
std::shared_ptr<Field> Schema::GetFieldByName(std::string_view n) const { int i = GetFieldIndex(n); return i < 0 ? nullptr : fields_[i]; }
FieldVector Schema::GetAllFieldsByName(std::string_view n) const { FieldVector r; for (int i : Indices(fields_, n)) r.push_back(fields_[i]); return r; }
std::vector<int> StructType::GetAllFieldIndices(std::string_view n) const { return Indices(children_, n); }
int StructType::GetFieldIndex(std::string_view n) const { auto v = Indices(children_, n); return v.size() == 1 ? v[0] : -1; }
FieldVector StructType::GetAllFieldsByName(std::string_view n) const { FieldVector r; for (int i : Indices(children_, n)) r.push_back(children_[i]); return r; }
Result<std::shared_ptr<Schema>> Schema::AddField(int i, const std::shared_ptr<Field>& f) const {
    if (i < 0 || i > num_fields()) return Status::Invalid("Invalid column index to add field.");
    auto v = fields_;
    v.insert(v.begin() + i, f);
    return std::make_shared<Schema>(v, metadata_);
}
Result<std::shared_ptr<Schema>> Schema::RemoveField(int i) const {
    if (i < 0 || i >= num_fields()) return Status::Invalid("Invalid column index to remove field.");
    auto v = fields_;
    v.erase(v.begin() + i);
    return std::make_shared<Schema>(v, metadata_);
}
Result<std::shared_ptr<Schema>> Schema::SetField(int i, const std::shared_ptr<Field>& f) const {
    if (i < 0 || i >= num_fields()) return Status::Invalid("Invalid column index to set field.");
    auto v = fields_;
    v[i] = f;
    return std::make_shared<Schema>(v, metadata_);
}
Result<std::shared_ptr<StructType>> StructType::AddField(int i, const std::shared_ptr<Field>& f) const {
    if (i < 0 || i > num_fields()) return Status::Invalid("Invalid column index to add field.");
    auto v = children_;
    v.insert(v.begin() + i, f);
    return std::make_shared<StructType>(v);
}
Result<std::shared_ptr<StructType>> StructType::RemoveField(int i) const {
    if (i < 0 || i >= num_fields()) return Status::Invalid("Invalid column index to remove field.");
    auto v = children_;
    v.erase(v.begin() + i);
    return std::make_shared<StructType>(v);
}
bool Schema::Equals(const Schema& o, bool md) const {
    if (this == &o) return true;
    if (fields_.size() != o.fields_.size()) return false;
    for (size_t i = 0; i < fields_.size(); i++)
        if (!fields_[i]->Equals(*o.fields_[i], md)) return false;
    if (!md) return true;
    if (HasMetadata() != o.HasMetadata()) return false;
    return !HasMetadata() || metadata_->Equals(*o.metadata_);
}
std::string Schema::ToString(bool md) const {
    std::string r;
    for (size_t i = 0; i < fields_.size(); i++) r += (i ? "\n" : "") + fields_[i]->ToString(md);
    if (md && HasMetadata()) r += metadata_->ToString();
    return r;
}
#define SINGLETON(F, T) std::shared_ptr<DataType> F() { static auto t = std::make_shared<T>(); return t; }
SINGLETON(null, NullType)
SINGLETON(boolean, BooleanType)
SINGLETON(int8, Int8Type)
SINGLETON(int16, Int16Type)
SINGLETON(int32, Int32Type)
SINGLETON(int64, Int64Type)
SINGLETON(uint8, UInt8Type)
SINGLETON(uint16, UInt16Type)
SINGLETON(uint32, UInt32Type)
SINGLETON(uint64, UInt64Type)
SINGLETON(float32, FloatType)
SINGLETON(float64, DoubleType)
SINGLETON(utf8, StringType)
SINGLETON(large_utf8, LargeStringType)
SINGLETON(binary, BinaryType)
SINGLETON(large_binary, LargeBinaryType)
SINGLETON(date32, Date32Type)
SINGLETON(date64, Date64Type)
std::shared_ptr<DataType> fixed_size_binary(int32_t w) { return std::make_shared<FixedSizeBinaryType>(w); }
std::shared_ptr<DataType> time32(TimeUnit::type u) { return std::make_shared<Time32Type>(u); }
std::shared_ptr<DataType> timestamp(TimeUnit::type u) { return std::make_shared<TimestampType>(u); }
std::shared_ptr<DataType> timestamp(TimeUnit::type u, const std::string& tz) { return std::make_shared<TimestampType>(u, tz); }
std::shared_ptr<DataType> decimal128(int32_t p, int32_t s) { return std::make_shared<Decimal128Type>(p, s); }
std::shared_ptr<DataType> decimal256(int32_t p, int32_t s) { return std::make_shared<Decimal256Type>(p, s); }
Result<std::shared_ptr<DataType>> Decimal128Type::Make(int32_t p, int32_t s) {
    if (p < kMinPrecision || p > kMaxPrecision) return Status::Invalid("Decimal precision out of range [1, 38]: ", p);
    return decimal128(p, s);
}
std::shared_ptr<DataType> list(const std::shared_ptr<DataType>& t) { return std::make_shared<ListType>(t); }
std::shared_ptr<DataType> list(const std::shared_ptr<Field>& f) { return std::make_shared<ListType>(f); }
std::shared_ptr<DataType> map(std::shared_ptr<DataType> k, std::shared_ptr<DataType> v, bool s) { return std::make_shared<MapType>(k, v, s); }
std::shared_ptr<DataType> map(std::shared_ptr<DataType> k, std::shared_ptr<Field> v, bool s) { return std::make_shared<MapType>(k, v, s); }
std::shared_ptr<DataType> map(std::shared_ptr<Field> k, std::shared_ptr<Field> v, bool s) { return std::make_shared<MapType>(k, v, s); }
std::shared_ptr<DataType> struct_(const FieldVector& f) { return std::make_shared<StructType>(f); }
std::shared_ptr<DataType> struct_(std::initializer_list<std::pair<std::string, std::shared_ptr<DataType>>> f) {
    FieldVector v;
    for (auto& [n, t] : f) v.push_back(field(n, t));
    return struct_(v);
}
std::shared_ptr<DataType> dictionary(const std::shared_ptr<DataType>& i, const std::shared_ptr<DataType>& v, bool o) { return std::make_shared<DictionaryType>(i, v, o); }
std::shared_ptr<DataType> sparse_union(FieldVector f, std::vector<int8_t>) { return std::make_shared<UnionType>(std::move(f)); }

// ---------------------------------------------------------------- decimal
BasicDecimal128 BasicDecimal128::GetScaleMultiplier(int32_t scale) {
    __int128 v = 1;
    for (int i = 0; i < scale; i++) v *= 10;
    return FromRaw(v);
}
BasicDecimal128 BasicDecimal128::GetMaxValue(int32_t p) { return FromRaw(GetScaleMultiplier(p).raw() - 1); }
bool BasicDecimal128::FitsInPrecision(int32_t p) const {
    __int128 m = GetScaleMultiplier(p).raw();
    return raw() > -m && raw() < m;
}
BasicDecimal128 BasicDecimal128::ReduceScaleBy(int32_t by, bool round) const {
    if (by == 0) return *this;
    __int128 m = GetScaleMultiplier(by).raw(), q = raw() / m, r = raw() % m;
    if (round) {
        __int128 h = m / 2;
        if ((r < 0 ? -r : r) >= h) q += r < 0 ? -1 : 1;
    }
    return FromRaw(q);
}
Decimal128::Decimal128(const std::string& s) { *this = FromString(s).ValueOrDie(); }
std::string Decimal128::ToIntegerString() const {
    unsigned __int128 u = IsNegative() ? -v_ : v_;
    std::string r;
    do {
        r.insert(r.begin(), char('0' + int(u % 10)));
        u /= 10;
    } while (u);
    return IsNegative() ? "-" + r : r;
}
std::string Decimal128::ToString(int32_t scale) const {
    std::string s = ToIntegerString();
    if (scale == 0) return s;
    bool neg = s[0] == '-';
    std::string digits = neg ? s.substr(1) : s;
    int32_t exponent = int32_t(digits.size()) - 1 - scale;
    if (scale < 0 || exponent < -6) {
        std::string r = neg ? "-" : "";
        r += digits[0];
        if (digits.size() > 1) r += "." + digits.substr(1);
        r += "E";
        r += exponent >= 0 ? "+" : "";
        return r + std::to_string(exponent);
    }
    if (int32_t(digits.size()) > scale) {
        digits.insert(digits.size() - scale, ".");
    } else {
        digits = "0." + std::string(scale - digits.size(), '0') + digits;
    }
    return (neg ? "-" : "") + digits;
}
Status Decimal128::FromString(std::string_view s, Decimal128* out, int32_t* precision, int32_t* scale) {
    if (s.empty()) return Status::Invalid("Empty string cannot be converted to decimal128");
    size_t p = 0;
    bool neg = false;
    if (s[p] == '+' || s[p] == '-') neg = s[p++] == '-';
    std::string whole, frac;
    while (p < s.size() && isdigit(static_cast<unsigned char>(s[p]))) whole += s[p++];
    if (p < s.size() && s[p] == '.') {
        p++;
        while (p < s.size() && isdigit(static_cast<unsigned char>(s[p]))) frac += s[p++];
    }
    auto bad = [&] { return Status::Invalid("The string '", s, "' is not a valid decimal128 number"); };
    if (whole.empty() && frac.empty()) return bad();
    int64_t exponent = 0;
    bool has_exp = false;
    if (p < s.size() && (s[p] == 'e' || s[p] == 'E')) {
        p++;
        has_exp = true;
        bool en = false;
        if (p < s.size() && (s[p] == '+' || s[p] == '-')) en = s[p++] == '-';
        if (p >= s.size()) return bad();
        while (p < s.size() && isdigit(static_cast<unsigned char>(s[p]))) {
            exponent = exponent * 10 + (s[p++] - '0');
            if (exponent > 1000000000) return bad();
        }
        if (en) exponent = -exponent;
    }
    if (p != s.size()) return bad();
    size_t z = whole.find_first_not_of('0');
    size_t significant = frac.size() + (z == std::string::npos ? 0 : whole.size() - z);
    int32_t parsed_precision = int32_t(significant);
    int64_t parsed_scale = has_exp ? -exponent + int64_t(frac.size()) : int64_t(frac.size());
    if (out) {
        std::string d = whole + frac;
        unsigned __int128 v = 0;
        for (char c : d) v = v * 10 + unsigned(c - '0');
        if (parsed_scale < 0) {
            // the scale would be negative: multiply so that it becomes zero
            if (-parsed_scale > 38) return Status::Invalid("The string '", s, "' cannot be represented as decimal128");
            for (int64_t k = 0; k < -parsed_scale; k++) v *= 10;
            parsed_precision -= int32_t(parsed_scale);
            parsed_scale = 0;
        }
        out->v_ = neg ? -v : v;
    } else if (parsed_scale < 0) {
        parsed_precision -= int32_t(parsed_scale);
        parsed_scale = 0;
    }
    if (parsed_precision > 39) return Status::Invalid("The string '", s, "' cannot be represented as decimal128");
    if (precision) *precision = parsed_precision;
    if (scale) *scale = int32_t(parsed_scale);
    return Status::OK();
}
Result<Decimal128> Decimal128::FromString(std::string_view s) {
    Decimal128 d;
    ARROW_RETURN_NOT_OK(FromString(s, &d, nullptr, nullptr));
    return d;
}
template <typename R>
static Result<Decimal128> RealToDecimal(R real, int32_t precision, int32_t scale) {
    if (!std::isfinite(real)) return Status::Invalid("Cannot convert ", real, " to Decimal128");
    R x = std::fabs(real);
    long double y = static_cast<long double>(x);
    long double m = 1;
    for (int i = 0; i < std::abs(scale); i++) m *= 10;
    y = scale >= 0 ? y * m : y / m;
    y = std::nearbyint(y);
    long double max = 1;
    for (int i = 0; i < precision; i++) max *= 10;
    if (y >= max) return Status::Invalid("Cannot convert ", real, " to Decimal128(precision = ", precision, ", scale = ", scale, "): overflow");
    __int128 v = static_cast<__int128>(y);
    return Decimal128(BasicDecimal128::FromRaw(real < 0 ? -v : v));
}
Result<Decimal128> Decimal128::FromReal(double r, int32_t p, int32_t s) { return RealToDecimal(r, p, s); }
Result<Decimal128> Decimal128::FromReal(float r, int32_t p, int32_t s) { return RealToDecimal(r, p, s); }
Result<Decimal128> Decimal128::FromBigEndian(const uint8_t* data, int32_t n) {
    if (n < 1 || n > 16) return Status::Invalid("Length of byte array passed to Decimal128::FromBigEndian was ", n, ", but must be between 1 and 16");
    unsigned __int128 v = (data[0] & 0x80) ? ~static_cast<unsigned __int128>(0) : 0;
    for (int i = 0; i < n; i++) v = (v << 8) | data[i];
    return Decimal128(BasicDecimal128::FromRaw(static_cast<__int128>(v)));
}
Result<Decimal128> Decimal128::Rescale(int32_t from, int32_t to) const {
    if (from == to) return *this;
    int32_t delta = to - from;
    __int128 m = GetScaleMultiplier(std::abs(delta)).raw();
    auto lost = [&] { return Status::Invalid("Rescaling Decimal128 value would cause data loss"); };
    if (std::abs(delta) > 38) return lost();
    if (delta < 0) {
        if (raw() % m != 0) return lost();
        return Decimal128(FromRaw(raw() / m));
    }
    __int128 r;
    if (__builtin_mul_overflow(raw(), m, &r)) return lost();
    return Decimal128(FromRaw(r));
}
double Decimal128::ToDouble(int32_t scale) const { return strtod(ToString(scale).c_str(), nullptr); }
float Decimal128::ToFloat(int32_t scale) const { return strtof(ToString(scale).c_str(), nullptr); }
std::string Decimal128Array::FormatValue(int64_t i) const { return Decimal128(GetValue(i)).ToString(static_cast<const Decimal128Type&>(*type()).scale()); }

// ---------------------------------------------------------------- arrays
std::shared_ptr<ArrayData> ArrayData::Slice(int64_t off, int64_t len) const {
    len = std::min(length - off, len);
    auto r = Copy();
    r->length = len;
    r->offset = offset + off;
    r->null_count = null_count == 0 ? 0 : (null_count == length ? len : kUnknownNullCount);
    return r;
}
int64_t ArrayData::GetNullCount() const {
    int64_t n = null_count;
    if (n == kUnknownNullCount) {
        n = 0;
        for (int64_t i = 0; i < length; i++) n += IsNull(i);
        null_count = n;
    }
    return n;
}
std::shared_ptr<Array> MakeArray(const std::shared_ptr<ArrayData>& d) {
    switch (d->type->id()) {
        case Type::NA: return std::make_shared<NullArray>(d);
        case Type::BOOL: return std::make_shared<BooleanArray>(d);
        case Type::UINT8: return std::make_shared<UInt8Array>(d);
        case Type::INT8: return std::make_shared<Int8Array>(d);
        case Type::UINT16: return std::make_shared<UInt16Array>(d);
        case Type::INT16: return std::make_shared<Int16Array>(d);
        case Type::UINT32: return std::make_shared<UInt32Array>(d);
        case Type::INT32: return std::make_shared<Int32Array>(d);
        case Type::UINT64: return std::make_shared<UInt64Array>(d);
        case Type::INT64: return std::make_shared<Int64Array>(d);
        case Type::FLOAT: return std::make_shared<FloatArray>(d);
        case Type::DOUBLE: return std::make_shared<DoubleArray>(d);
        case Type::DATE32: return std::make_shared<Date32Array>(d);
        case Type::DATE64: return std::make_shared<Date64Array>(d);
        case Type::TIMESTAMP: return std::make_shared<TimestampArray>(d);
        case Type::STRING: return std::make_shared<StringArray>(d);
        case Type::BINARY: return std::make_shared<BinaryArray>(d);
        case Type::LARGE_STRING: return std::make_shared<LargeStringArray>(d);
        case Type::LARGE_BINARY: return std::make_shared<LargeBinaryArray>(d);
        case Type::FIXED_SIZE_BINARY: return std::make_shared<FixedSizeBinaryArray>(d);
        case Type::DECIMAL128: return std::make_shared<Decimal128Array>(d);
        case Type::LIST: return std::make_shared<ListArray>(d);
        case Type::MAP: return std::make_shared<MapArray>(d);
        case Type::STRUCT: return std::make_shared<StructArray>(d);
        case Type::DICTIONARY: return std::make_shared<DictionaryArray>(d);
        default: Status::NotImplemented("array of ", d->type->ToString()).Abort(); return nullptr;
    }
}
std::shared_ptr<Array> Array::Slice(int64_t off, int64_t len) const { return MakeArray(data_->Slice(off, len)); }
Result<std::shared_ptr<Array>> Array::View(const std::shared_ptr<DataType>& type) const {
    auto d = data_->Copy();
    d->type = type;
    return MakeArray(d);
}
MapArray::MapArray(const std::shared_ptr<ArrayData>& d) : ListArray(d) {
    auto& s = d->child_data[0];
    keys_ = MakeArray(s->child_data[0]);
    items_ = MakeArray(s->child_data[1]);
    if (s->offset || keys_->length() != s->length) keys_ = keys_->Slice(s->offset, s->length);
    if (s->offset || items_->length() != s->length) items_ = items_->Slice(s->offset, s->length);
}
static std::shared_ptr<ArrayData> Entries(const std::shared_ptr<DataType>& type, const std::shared_ptr<Array>& k, const std::shared_ptr<Array>& v) {
    return ArrayData::Make(type->field(0)->type(), k->length(), {nullptr}, {k->data(), v->data()}, 0, 0);
}
MapArray::MapArray(const std::shared_ptr<DataType>& type, int64_t len, const std::shared_ptr<Buffer>& offsets, const std::shared_ptr<Array>& keys,
                   const std::shared_ptr<Array>& items, const std::shared_ptr<Buffer>& nulls, int64_t nc, int64_t off)
    : MapArray(ArrayData::Make(type, len, {nulls, offsets}, {Entries(type, keys, items)}, nc, off)) {}
MapArray::MapArray(const std::shared_ptr<DataType>& type, int64_t len, const std::shared_ptr<Buffer>& offsets, const std::shared_ptr<Array>& values,
                   const std::shared_ptr<Buffer>& nulls, int64_t nc, int64_t off)
    : MapArray(ArrayData::Make(type, len, {nulls, offsets}, {values->data()}, nc, off)) {}
static Status SplitOffsets(const Array& offsets, int64_t* len, std::shared_ptr<Buffer>* off, std::shared_ptr<Buffer>* valid, int64_t* shift) {
    if (offsets.length() == 0) return Status::Invalid("List offsets must have non-zero length");
    if (offsets.type_id() != Type::INT32) return Status::TypeError("List offsets must be int32");
    *len = offsets.length() - 1;
    auto d = offsets.data();
    if (offsets.null_count() == 0) {
        *off = d->buffers[1];
        *shift = d->offset;
        valid->reset();
        return Status::OK();
    }
    // a null offset marks a null list
    auto& a = static_cast<const Int32Array&>(offsets);
    TypedBufferBuilder<int32_t> ob;
    TypedBufferBuilder<uint8_t> vb;
    std::vector<int32_t> o(*len + 1);
    int32_t cur = a.Value(*len);
    for (int64_t i = *len; i >= 0; i--) {
        if (a.IsValid(i)) cur = a.Value(i);
        o[i] = cur;
    }
    ARROW_RETURN_NOT_OK(ob.Append(o.data(), o.size()));
    std::vector<uint8_t> bits(bit_util::BytesForBits(*len + 1), 0);
    for (int64_t i = 0; i < *len; i++)
        if (a.IsValid(i)) bit_util::SetBit(bits.data(), i);
    ARROW_RETURN_NOT_OK(vb.Append(bits.data(), bits.size()));
    ARROW_RETURN_NOT_OK(ob.Finish(off));
    *shift = 0;
    return vb.Finish(valid);
}
Result<std::shared_ptr<ListArray>> ListArray::FromArrays(const Array& offsets, const Array& values, MemoryPool*) {
    int64_t len, shift;
    std::shared_ptr<Buffer> o, v;
    ARROW_RETURN_NOT_OK(SplitOffsets(offsets, &len, &o, &v, &shift));
    return std::make_shared<ListArray>(ArrayData::Make(list(values.type()), len, {v, o}, {values.data()}, kUnknownNullCount, shift));
}
Result<std::shared_ptr<Array>> MapArray::FromArrays(const std::shared_ptr<Array>& offsets, const std::shared_ptr<Array>& k, const std::shared_ptr<Array>& i, MemoryPool*) {
    int64_t len, shift;
    std::shared_ptr<Buffer> o, v;
    if (k->length() != i->length()) return Status::Invalid("Map key and item arrays must be equal length");
    ARROW_RETURN_NOT_OK(SplitOffsets(*offsets, &len, &o, &v, &shift));
    auto type = map(k->type(), i->type());
    return std::static_pointer_cast<Array>(std::make_shared<MapArray>(ArrayData::Make(type, len, {v, o}, {Entries(type, k, i)}, kUnknownNullCount, shift)));
}
StructArray::StructArray(const std::shared_ptr<DataType>& type, int64_t len, const ArrayVector& children, std::shared_ptr<Buffer> nulls, int64_t nc, int64_t off) {
    std::vector<std::shared_ptr<ArrayData>> c;
    for (auto& a : children) c.push_back(a->data());
    data_ = ArrayData::Make(type, len, {std::move(nulls)}, std::move(c), nc, off);
}
Result<std::shared_ptr<StructArray>> StructArray::Make(const ArrayVector& children, const FieldVector& fields, std::shared_ptr<Buffer> nulls, int64_t nc, int64_t off) {
    if (children.size() != fields.size()) return Status::Invalid("Mismatching number of fields and children");
    if (children.empty()) return Status::Invalid("Can't infer struct array length with 0 child arrays");
    int64_t len = children[0]->length();
    for (auto& c : children)
        if (c->length() != len) return Status::Invalid("Mismatching child array lengths");
    if (off > len) return Status::IndexError("Offset greater than length of child arrays");
    if (!nulls) {
        if (nc > 0) return Status::Invalid("null_count = ", nc, " but no null bitmap given");
        nc = 0;
    }
    return std::make_shared<StructArray>(struct_(fields), len - off, children, nulls, nc, off);
}
Result<std::shared_ptr<StructArray>> StructArray::Make(const ArrayVector& children, const std::vector<std::string>& names, std::shared_ptr<Buffer> nulls, int64_t nc, int64_t off) {
    if (children.size() != names.size()) return Status::Invalid("Mismatching number of field names and child arrays");
    FieldVector f;
    for (size_t i = 0; i < names.size(); i++) f.push_back(arrow::field(names[i], children[i]->type()));
    return Make(children, f, std::move(nulls), nc, off);
}
const std::shared_ptr<Array>& StructArray::field(int i) const {
    return fields()[i];
}
const ArrayVector& StructArray::fields() const {
    // children are boxed on first use; the array may be shared by several threads
    static std::atomic_flag lock = ATOMIC_FLAG_INIT;
    while (lock.test_and_set(std::memory_order_acquire)) {
    }
    if (boxed_.empty()) {
        ArrayVector b;
        for (auto& c : data_->child_data) {
            if (data_->offset != 0 || c->length != data_->length) b.push_back(MakeArray(c->Slice(data_->offset, data_->length)));
            else b.push_back(MakeArray(c));
        }
        boxed_ = std::move(b);
    }
    lock.clear(std::memory_order_release);
    return boxed_;
}
std::shared_ptr<Array> StructArray::GetFieldByName(const std::string& name) const {
    int i = struct_type()->GetFieldIndex(name);
    return i < 0 ? nullptr : field(i);
}
Result<ArrayVector> StructArray::Flatten(MemoryPool*) const {
    ArrayVector r;
    for (int i = 0; i < num_fields(); i++) {
        auto f = field(i);
        if (null_count() == 0) {
            r.push_back(f);
            continue;
        }
        auto d = f->data()->Copy();
        std::vector<uint8_t> bits(bit_util::BytesForBits(d->offset + d->length) + 1, 0);
        for (int64_t k = 0; k < length(); k++)
            if (IsValid(k) && f->IsValid(k)) bit_util::SetBit(bits.data(), d->offset + k);
        d->buffers[0] = Buffer::FromString(std::string(bits.begin(), bits.end()));
        d->null_count = kUnknownNullCount;
        r.push_back(MakeArray(d));
    }
    return r;
}
DictionaryArray::DictionaryArray(const std::shared_ptr<ArrayData>& d) {
    data_ = d;
    auto i = d->Copy();
    i->type = static_cast<const DictionaryType&>(*d->type).index_type();
    i->dictionary.reset();
    indices_ = MakeArray(i);
    dict_ = MakeArray(d->dictionary);
}
static std::shared_ptr<ArrayData> DictData(const std::shared_ptr<DataType>& t, const std::shared_ptr<Array>& i, const std::shared_ptr<Array>& v) {
    auto d = i->data()->Copy();
    d->type = t;
    d->dictionary = v->data();
    return d;
}
DictionaryArray::DictionaryArray(const std::shared_ptr<DataType>& t, const std::shared_ptr<Array>& i, const std::shared_ptr<Array>& v) : DictionaryArray(DictData(t, i, v)) {}
int64_t DictionaryArray::GetValueIndex(int64_t i) const {
    switch (indices_->type_id()) {
        case Type::INT8: return static_cast<const Int8Array&>(*indices_).Value(i);
        case Type::UINT8: return static_cast<const UInt8Array&>(*indices_).Value(i);
        case Type::INT16: return static_cast<const Int16Array&>(*indices_).Value(i);
        case Type::UINT16: return static_cast<const UInt16Array&>(*indices_).Value(i);
        case Type::INT32: return static_cast<const Int32Array&>(*indices_).Value(i);
        case Type::UINT32: return static_cast<const UInt32Array&>(*indices_).Value(i);
        default: return static_cast<const Int64Array&>(*indices_).Value(i);
    }
}

// Equality of one element of a with one of b.
static bool Same(const ArrayData& a, int64_t i, const ArrayData& b, int64_t j, const EqualOptions& opt) {
    bool na = a.IsNull(i), nb = b.IsNull(j);
    if (na || nb) return na && nb;
    auto fixed = [&](int w) { return memcmp(a.buffers[1]->data() + (a.offset + i) * w, b.buffers[1]->data() + (b.offset + j) * w, w) == 0; };
    auto range = [&](int64_t ao, int64_t an, int64_t bo, int64_t bn) {
        if (an != bn) return false;
        for (int64_t k = 0; k < an; k++)
            if (!Same(*a.child_data[0], ao + k, *b.child_data[0], bo + k, opt)) return false;
        return true;
    };
    switch (a.type->id()) {
        case Type::BOOL: return bit_util::GetBit(a.buffers[1]->data(), a.offset + i) == bit_util::GetBit(b.buffers[1]->data(), b.offset + j);
        case Type::FLOAT: {
            float x = a.GetValues<float>(1)[i], y = b.GetValues<float>(1)[j];
            return x == y || (opt.nans_equal() && std::isnan(x) && std::isnan(y));
        }
        case Type::DOUBLE: {
            double x = a.GetValues<double>(1)[i], y = b.GetValues<double>(1)[j];
            return x == y || (opt.nans_equal() && std::isnan(x) && std::isnan(y));
        }
        case Type::STRING:
        case Type::BINARY: {
            auto *x = a.GetValues<int32_t>(1) + i, *y = b.GetValues<int32_t>(1) + j;
            return x[1] - x[0] == y[1] - y[0] && (x[1] == x[0] || memcmp(a.buffers[2]->data() + x[0], b.buffers[2]->data() + y[0], x[1] - x[0]) == 0);
        }
        case Type::LARGE_STRING:
        case Type::LARGE_BINARY: {
            auto *x = a.GetValues<int64_t>(1) + i, *y = b.GetValues<int64_t>(1) + j;
            return x[1] - x[0] == y[1] - y[0] && (x[1] == x[0] || memcmp(a.buffers[2]->data() + x[0], b.buffers[2]->data() + y[0], x[1] - x[0]) == 0);
        }
        case Type::LIST:
        case Type::MAP: {
            auto *x = a.GetValues<int32_t>(1) + i, *y = b.GetValues<int32_t>(1) + j;
            return range(x[0], x[1] - x[0], y[0], y[1] - y[0]);
        }
        case Type::STRUCT:
            for (size_t k = 0; k < a.child_data.size(); k++)
                if (!Same(*a.child_data[k], a.offset + i, *b.child_data[k], b.offset + j, opt)) return false;
            return true;
        case Type::DICTIONARY: {
            DictionaryArray x(std::make_shared<ArrayData>(a)), y(std::make_shared<ArrayData>(b));
            return Same(*a.dictionary, x.GetValueIndex(i), *b.dictionary, y.GetValueIndex(j), opt);
        }
        default: return fixed(a.type->byte_width());
    }
}
bool Array::Equals(const Array& o, const EqualOptions& opt) const {
    if (this == &o) return true;
    if (length() != o.length() || !type()->Equals(*o.type())) return false;
    for (int64_t i = 0; i < length(); i++)
        if (!Same(*data_, i, *o.data_, i, opt)) return false;
    return true;
}
bool Array::RangeEquals(const Array& o, int64_t s, int64_t e, int64_t os) const {
    for (int64_t i = s; i < e; i++)
        if (!Same(*data_, i, *o.data_, os + i - s, EqualOptions())) return false;
    return true;
}
ChunkedArray::ChunkedArray(ArrayVector chunks, std::shared_ptr<DataType> type) : chunks_(std::move(chunks)), type_(std::move(type)) {
    if (!type_ && !chunks_.empty()) type_ = chunks_[0]->type();
    for (auto& c : chunks_) length_ += c->length();
}
int64_t ChunkedArray::null_count() const { int64_t n = 0; for (auto& c : chunks_) n += c->null_count(); return n; }
bool ChunkedArray::Equals(const ChunkedArray& o, const EqualOptions& opt) const {
    if (length_ != o.length_ || !type_->Equals(*o.type_)) return false;
    size_t c = 0, d = 0;
    int64_t i = 0, j = 0;
    for (int64_t n = 0; n < length_; n++) {
        while (i >= chunks_[c]->length()) c++, i = 0;
        while (j >= o.chunks_[d]->length()) d++, j = 0;
        if (!Same(*chunks_[c]->data(), i++, *o.chunks_[d]->data(), j++, opt)) return false;
    }
    return true;
}
std::shared_ptr<ChunkedArray> ChunkedArray::Slice(int64_t off, int64_t len) const {
    ArrayVector r;
    for (auto& c : chunks_) {
        if (off >= c->length()) { off -= c->length(); continue; }
        if (len <= 0) break;
        auto s = c->Slice(off, std::min(len, c->length() - off));
        len -= s->length();
        off = 0;
        r.push_back(s);
    }
    if (r.empty() && !chunks_.empty()) r.push_back(chunks_[0]->Slice(0, 0));
    return std::make_shared<ChunkedArray>(r, type_);
}
Result<std::shared_ptr<RecordBatch>> RecordBatch::FromStructArray(const std::shared_ptr<Array>& a, MemoryPool*) {
    if (a->type_id() != Type::STRUCT) return Status::TypeError("Cannot construct record batch from array of type ", a->type()->ToString());
    return Make(std::make_shared<Schema>(a->type()->fields()), a->length(), static_cast<const StructArray&>(*a).fields());
}
Result<std::shared_ptr<StructArray>> RecordBatch::ToStructArray() const {
    return std::make_shared<StructArray>(struct_(schema_->fields()), rows_, columns_, nullptr, 0);
}
std::shared_ptr<DataType> Datum::type() const {
    if (is_scalar()) return scalar()->type;
    if (is_array()) return array()->type;
    return chunked_array()->type();
}

// ---------------------------------------------------------------- builders
Status BooleanBuilder::FinishInternal(std::shared_ptr<ArrayData>* out) {
    std::shared_ptr<Buffer> v, d;
    int64_t n = null_count_;
    ARROW_RETURN_NOT_OK(FinishValid(&v));
    ARROW_RETURN_NOT_OK(data_.Finish(&d));
    *out = ArrayData::Make(type_, length_, {v, d}, n);
    return Status::OK();
}
Status ListBuilder::FinishInternal(std::shared_ptr<ArrayData>* out) {
    std::shared_ptr<Buffer> v, o;
    std::shared_ptr<ArrayData> c;
    int64_t n = null_count_;
    ARROW_RETURN_NOT_OK(offsets_.Append(int32_t(children_[0]->length())));
    ARROW_RETURN_NOT_OK(FinishValid(&v));
    ARROW_RETURN_NOT_OK(offsets_.Finish(&o));
    ARROW_RETURN_NOT_OK(children_[0]->FinishInternal(&c));
    *out = ArrayData::Make(type_, length_, {v, o}, {c}, n);
    return Status::OK();
}
Status StructBuilder::FinishInternal(std::shared_ptr<ArrayData>* out) {
    std::shared_ptr<Buffer> v;
    std::vector<std::shared_ptr<ArrayData>> c(children_.size());
    int64_t n = null_count_;
    ARROW_RETURN_NOT_OK(FinishValid(&v));
    for (size_t i = 0; i < children_.size(); i++) ARROW_RETURN_NOT_OK(children_[i]->FinishInternal(&c[i]));
    *out = ArrayData::Make(type_, length_, {v}, c, n);
    return Status::OK();
}
Status MapBuilder::FinishInternal(std::shared_ptr<ArrayData>* out) {
    std::shared_ptr<Buffer> v, o;
    std::shared_ptr<ArrayData> k, i;
    int64_t n = null_count_;
    if (children_[0]->null_count()) return Status::Invalid("Map cannot contain NULL valued keys");
    ARROW_RETURN_NOT_OK(offsets_.Append(int32_t(children_[0]->length())));
    ARROW_RETURN_NOT_OK(FinishValid(&v));
    ARROW_RETURN_NOT_OK(offsets_.Finish(&o));
    ARROW_RETURN_NOT_OK(children_[0]->FinishInternal(&k));
    ARROW_RETURN_NOT_OK(children_[1]->FinishInternal(&i));
    auto e = ArrayData::Make(type_->field(0)->type(), k->length, {nullptr}, {k, i}, 0);
    *out = ArrayData::Make(type_, length_, {v, o}, {e}, n);
    return Status::OK();
}
Status MakeBuilder(MemoryPool* pool, const std::shared_ptr<DataType>& type, std::unique_ptr<ArrayBuilder>* out) {
#define CASE(ID, B) case Type::ID: *out = std::make_unique<B>(type, pool); return Status::OK();
    switch (type->id()) {
        CASE(NA, NullBuilder)
        CASE(BOOL, BooleanBuilder)
        CASE(UINT8, UInt8Builder)
        CASE(INT8, Int8Builder)
        CASE(UINT16, UInt16Builder)
        CASE(INT16, Int16Builder)
        CASE(UINT32, UInt32Builder)
        CASE(INT32, Int32Builder)
        CASE(UINT64, UInt64Builder)
        CASE(INT64, Int64Builder)
        CASE(FLOAT, FloatBuilder)
        CASE(DOUBLE, DoubleBuilder)
        CASE(DATE32, Date32Builder)
        CASE(DATE64, Date64Builder)
        CASE(TIMESTAMP, TimestampBuilder)
        CASE(STRING, StringBuilder)
        CASE(BINARY, BinaryBuilder)
        CASE(LARGE_STRING, LargeStringBuilder)
        CASE(LARGE_BINARY, LargeBinaryBuilder)
        CASE(FIXED_SIZE_BINARY, FixedSizeBinaryBuilder)
        CASE(DECIMAL128, Decimal128Builder)
        case Type::LIST: {
            std::unique_ptr<ArrayBuilder> c;
            ARROW_RETURN_NOT_OK(MakeBuilder(pool, type->field(0)->type(), &c));
            *out = std::make_unique<ListBuilder>(pool, std::shared_ptr<ArrayBuilder>(std::move(c)), type);
            return Status::OK();
        }
        case Type::MAP: {
            auto& m = static_cast<const MapType&>(*type);
            std::unique_ptr<ArrayBuilder> k, v;
            ARROW_RETURN_NOT_OK(MakeBuilder(pool, m.key_type(), &k));
            ARROW_RETURN_NOT_OK(MakeBuilder(pool, m.item_type(), &v));
            *out = std::make_unique<MapBuilder>(pool, std::shared_ptr<ArrayBuilder>(std::move(k)), std::shared_ptr<ArrayBuilder>(std::move(v)), type);
            return Status::OK();
        }
        case Type::STRUCT: {
            std::vector<std::shared_ptr<ArrayBuilder>> c;
            for (auto& f : type->fields()) {
                std::unique_ptr<ArrayBuilder> b;
                ARROW_RETURN_NOT_OK(MakeBuilder(pool, f->type(), &b));
                c.push_back(std::move(b));
            }
            *out = std::make_unique<StructBuilder>(type, pool, std::move(c));
            return Status::OK();
        }
        default: return Status::NotImplemented("MakeBuilder: cannot construct builder for type ", type->ToString());
    }
#undef CASE
}
Result<std::unique_ptr<ArrayBuilder>> MakeBuilder(const std::shared_ptr<DataType>& type, MemoryPool* pool) {
    std::unique_ptr<ArrayBuilder> b;
    ARROW_RETURN_NOT_OK(MakeBuilder(pool, type, &b));
    return b;
}
// Appends element i of a to b; b has a's type (dictionary values are appended decoded).
static Status AppendOne(ArrayBuilder* b, const ArrayData& a, int64_t i) {
    if (a.IsNull(i)) return b->AppendNull();
    switch (a.type->id()) {
#define CASE(ID, B, C) case Type::ID: return static_cast<B*>(b)->Append(a.GetValues<C>(1)[i]);
        CASE(UINT8, UInt8Builder, uint8_t)
        CASE(INT8, Int8Builder, int8_t)
        CASE(UINT16, UInt16Builder, uint16_t)
        CASE(INT16, Int16Builder, int16_t)
        CASE(UINT32, UInt32Builder, uint32_t)
        CASE(INT32, Int32Builder, int32_t)
        CASE(UINT64, UInt64Builder, uint64_t)
        CASE(INT64, Int64Builder, int64_t)
        CASE(FLOAT, FloatBuilder, float)
        CASE(DOUBLE, DoubleBuilder, double)
        CASE(DATE32, Date32Builder, int32_t)
        CASE(DATE64, Date64Builder, int64_t)
        CASE(TIMESTAMP, TimestampBuilder, int64_t)
#undef CASE
        case Type::BOOL: return static_cast<BooleanBuilder*>(b)->Append(bit_util::GetBit(a.buffers[1]->data(), a.offset + i));
        case Type::STRING:
        case Type::BINARY: {
            auto* o = a.GetValues<int32_t>(1) + i;
            auto* base = a.buffers[2] ? reinterpret_cast<const char*>(a.buffers[2]->data()) : "";
            return static_cast<BinaryBuilder*>(b)->Append(std::string_view(base + o[0], o[1] - o[0]));
        }
        case Type::LARGE_STRING:
        case Type::LARGE_BINARY: {
            auto* o = a.GetValues<int64_t>(1) + i;
            auto* base = a.buffers[2] ? reinterpret_cast<const char*>(a.buffers[2]->data()) : "";
            return static_cast<LargeBinaryBuilder*>(b)->Append(std::string_view(base + o[0], o[1] - o[0]));
        }
        case Type::FIXED_SIZE_BINARY:
        case Type::DECIMAL128: return static_cast<FixedSizeBinaryBuilder*>(b)->Append(a.buffers[1]->data() + (a.offset + i) * a.type->byte_width());
        case Type::LIST: {
            auto* l = static_cast<ListBuilder*>(b);
            ARROW_RETURN_NOT_OK(l->Append());
            auto* o = a.GetValues<int32_t>(1) + i;
            for (int32_t k = o[0]; k < o[1]; k++) ARROW_RETURN_NOT_OK(AppendOne(l->value_builder(), *a.child_data[0], k));
            return Status::OK();
        }
        case Type::MAP: {
            auto* m = static_cast<MapBuilder*>(b);
            ARROW_RETURN_NOT_OK(m->Append());
            auto* o = a.GetValues<int32_t>(1) + i;
            auto& e = *a.child_data[0];
            for (int32_t k = o[0]; k < o[1]; k++) {
                ARROW_RETURN_NOT_OK(AppendOne(m->key_builder(), *e.child_data[0], e.offset + k));
                ARROW_RETURN_NOT_OK(AppendOne(m->item_builder(), *e.child_data[1], e.offset + k));
            }
            return Status::OK();
        }
        case Type::STRUCT: {
            auto* s = static_cast<StructBuilder*>(b);
            ARROW_RETURN_NOT_OK(s->Append());
            for (int k = 0; k < s->num_fields(); k++) ARROW_RETURN_NOT_OK(AppendOne(s->field_builder(k), *a.child_data[k], a.offset + i));
            return Status::OK();
        }
        case Type::DICTIONARY: {
            DictionaryArray d(std::make_shared<ArrayData>(a));
            return AppendOne(b, *a.dictionary, d.GetValueIndex(i));
        }
        default: return Status::NotImplemented("append of ", a.type->ToString());
    }
}
Status ArrayBuilder::AppendArraySlice(const ArrayData& a, int64_t off, int64_t len) {
    for (int64_t i = 0; i < len; i++) ARROW_RETURN_NOT_OK(AppendOne(this, a, off + i));
    return Status::OK();
}

// ---------------------------------------------------------------- scalars
Result<std::shared_ptr<Scalar>> Array::GetScalar(int64_t i) const {
    if (i < 0 || i >= length()) return Status::IndexError("index ", i, " out of bounds");
    if (IsNull(i)) return MakeNullScalar(type());
    auto& d = *data_;
    switch (type_id()) {
#define CASE(ID, S, C) case Type::ID: return std::static_pointer_cast<Scalar>(std::make_shared<S>(d.GetValues<C>(1)[i], d.type));
        CASE(UINT8, UInt8Scalar, uint8_t)
        CASE(INT8, Int8Scalar, int8_t)
        CASE(UINT16, UInt16Scalar, uint16_t)
        CASE(INT16, Int16Scalar, int16_t)
        CASE(UINT32, UInt32Scalar, uint32_t)
        CASE(INT32, Int32Scalar, int32_t)
        CASE(UINT64, UInt64Scalar, uint64_t)
        CASE(INT64, Int64Scalar, int64_t)
        CASE(FLOAT, FloatScalar, float)
        CASE(DOUBLE, DoubleScalar, double)
        CASE(DATE32, Date32Scalar, int32_t)
        CASE(TIMESTAMP, TimestampScalar, int64_t)
#undef CASE
        case Type::BOOL: return std::static_pointer_cast<Scalar>(std::make_shared<BooleanScalar>(static_cast<const BooleanArray*>(this)->Value(i)));
        case Type::STRING: return std::static_pointer_cast<Scalar>(std::make_shared<StringScalar>(static_cast<const BinaryArray*>(this)->GetString(i), d.type));
        case Type::BINARY: return std::static_pointer_cast<Scalar>(std::make_shared<BinaryScalar>(static_cast<const BinaryArray*>(this)->GetString(i), d.type));
        case Type::LARGE_STRING:
        case Type::LARGE_BINARY: return std::static_pointer_cast<Scalar>(std::make_shared<BinaryScalar>(static_cast<const LargeBinaryArray*>(this)->GetString(i), d.type));
        case Type::DECIMAL128: return std::static_pointer_cast<Scalar>(std::make_shared<Decimal128Scalar>(Decimal128(static_cast<const Decimal128Array*>(this)->GetValue(i)), d.type));
        default: return std::static_pointer_cast<Scalar>(std::make_shared<BoxedScalar>(Slice(i, 1), true));
    }
}
std::shared_ptr<Scalar> MakeNullScalar(std::shared_ptr<DataType> type) {
    switch (type->id()) {
#define CASE(ID, S) case Type::ID: return std::make_shared<S>(type);
        CASE(UINT8, UInt8Scalar)
        CASE(INT8, Int8Scalar)
        CASE(UINT16, UInt16Scalar)
        CASE(INT16, Int16Scalar)
        CASE(UINT32, UInt32Scalar)
        CASE(INT32, Int32Scalar)
        CASE(UINT64, UInt64Scalar)
        CASE(INT64, Int64Scalar)
        CASE(FLOAT, FloatScalar)
        CASE(DOUBLE, DoubleScalar)
        CASE(DATE32, Date32Scalar)
        CASE(TIMESTAMP, TimestampScalar)
#undef CASE
        case Type::BOOL: return std::make_shared<BooleanScalar>();
        case Type::STRING: return std::make_shared<StringScalar>(std::shared_ptr<Buffer>(), type);
        case Type::BINARY:
        case Type::LARGE_STRING:
        case Type::LARGE_BINARY: return std::make_shared<BinaryScalar>(std::shared_ptr<Buffer>(), type);
        case Type::DECIMAL128: {
            auto r = std::make_shared<Decimal128Scalar>(Decimal128(), type);
            r->is_valid = false;
            return r;
        }
        case Type::NA: return std::make_shared<NullScalar>();
        default: return std::make_shared<BoxedScalar>(MakeArrayOfNull(type, 1).ValueOrDie(), false);
    }
}
Result<std::shared_ptr<Array>> MakeArrayFromScalar(const Scalar& s, int64_t n, MemoryPool* pool) {
    if (s.type->id() == Type::DICTIONARY && s.is_valid) {
        auto& v = static_cast<const DictionaryArray&>(*static_cast<const BoxedScalar&>(s).value);
        auto& t = static_cast<const DictionaryType&>(*s.type);
        ARROW_ASSIGN_OR_RAISE(auto b, MakeBuilder(t.index_type(), pool));
        for (int64_t i = 0; i < n; i++) ARROW_RETURN_NOT_OK(b->AppendArraySlice(*v.indices()->data(), 0, 1));
        ARROW_ASSIGN_OR_RAISE(std::shared_ptr<Array> idx, b->Finish());
        return DictionaryArray::FromArrays(s.type, idx, v.dictionary());
    }
    ARROW_ASSIGN_OR_RAISE(auto b, MakeBuilder(s.type, pool));
    for (int64_t i = 0; i < n; i++) ARROW_RETURN_NOT_OK(b->AppendScalar(s));
    return b->Finish();
}
Status ArrayBuilder::AppendScalar(const Scalar& s) {
    if (!s.is_valid) return AppendNull();
    switch (s.type->id()) {
#define CASE(ID, S, B) case Type::ID: return static_cast<B*>(this)->Append(static_cast<const S&>(s).value);
        CASE(UINT8, UInt8Scalar, UInt8Builder)
        CASE(INT8, Int8Scalar, Int8Builder)
        CASE(UINT16, UInt16Scalar, UInt16Builder)
        CASE(INT16, Int16Scalar, Int16Builder)
        CASE(UINT32, UInt32Scalar, UInt32Builder)
        CASE(INT32, Int32Scalar, Int32Builder)
        CASE(UINT64, UInt64Scalar, UInt64Builder)
        CASE(INT64, Int64Scalar, Int64Builder)
        CASE(FLOAT, FloatScalar, FloatBuilder)
        CASE(DOUBLE, DoubleScalar, DoubleBuilder)
        CASE(DATE32, Date32Scalar, Date32Builder)
        CASE(TIMESTAMP, TimestampScalar, TimestampBuilder)
        CASE(BOOL, BooleanScalar, BooleanBuilder)
        CASE(DECIMAL128, Decimal128Scalar, Decimal128Builder)
#undef CASE
        case Type::STRING:
        case Type::BINARY: return static_cast<BinaryBuilder*>(this)->Append(static_cast<const BaseBinaryScalar&>(s).view());
        case Type::LARGE_STRING:
        case Type::LARGE_BINARY: return static_cast<LargeBinaryBuilder*>(this)->Append(static_cast<const BaseBinaryScalar&>(s).view());
        default: return AppendArraySlice(*static_cast<const BoxedScalar&>(s).value->data(), 0, 1);
    }
}
Result<std::shared_ptr<Array>> MakeArrayOfNull(const std::shared_ptr<DataType>& type, int64_t n, MemoryPool* pool) {
    if (type->id() == Type::NA) return std::static_pointer_cast<Array>(std::make_shared<NullArray>(n));
    if (type->id() == Type::DICTIONARY) {
        auto& t = static_cast<const DictionaryType&>(*type);
        ARROW_ASSIGN_OR_RAISE(std::shared_ptr<Array> i, MakeArrayOfNull(t.index_type(), n, pool));
        ARROW_ASSIGN_OR_RAISE(std::shared_ptr<Array> d, MakeEmptyArray(t.value_type(), pool));
        return DictionaryArray::FromArrays(type, i, d);
    }
    if (type->id() == Type::STRUCT) {
        // the children of a null struct are null, as in Arrow
        std::vector<std::shared_ptr<ArrayData>> c;
        for (auto& f : type->fields()) {
            ARROW_ASSIGN_OR_RAISE(std::shared_ptr<Array> a, MakeArrayOfNull(f->type(), n, pool));
            c.push_back(a->data());
        }
        auto bits = Buffer::FromString(std::string(bit_util::BytesForBits(n) + 1, 0));
        return MakeArray(ArrayData::Make(type, n, {bits}, c, n));
    }
    ARROW_ASSIGN_OR_RAISE(auto b, MakeBuilder(type, pool));
    ARROW_RETURN_NOT_OK(b->AppendNulls(n));
    return b->Finish();
}
Result<std::shared_ptr<Array>> MakeEmptyArray(std::shared_ptr<DataType> type, MemoryPool* pool) {
    if (type->id() == Type::DICTIONARY) return MakeArrayOfNull(type, 0, pool);
    ARROW_ASSIGN_OR_RAISE(auto b, MakeBuilder(type, pool));
    return b->Finish();
}
Result<std::shared_ptr<Array>> Concatenate(const ArrayVector& arrays, MemoryPool* pool) {
    if (arrays.empty()) return Status::Invalid("Must pass at least one array");
    for (auto& a : arrays)
        if (!a->type()->Equals(*arrays[0]->type()))
            return Status::Invalid("arrays to be concatenated must be identically typed, but ", arrays[0]->type()->ToString(), " and ", a->type()->ToString(), " were encountered.");
    auto type = arrays[0]->type();
    if (type->id() == Type::STRUCT) {
        // column by column, so that dictionaries below keep their type
        int64_t n = 0, nulls = 0;
        for (auto& a : arrays) n += a->length(), nulls += a->null_count();
        std::vector<std::shared_ptr<ArrayData>> c;
        for (int f = 0; f < type->num_fields(); f++) {
            ArrayVector parts;
            for (auto& a : arrays) parts.push_back(static_cast<const StructArray&>(*a).field(f));
            ARROW_ASSIGN_OR_RAISE(std::shared_ptr<Array> r, Concatenate(parts, pool));
            c.push_back(r->data());
        }
        std::shared_ptr<Buffer> bits;
        if (nulls) {
            std::string s(bit_util::BytesForBits(n) + 1, 0);
            int64_t k = 0;
            for (auto& a : arrays)
                for (int64_t i = 0; i < a->length(); i++, k++)
                    if (a->IsValid(i)) bit_util::SetBit(reinterpret_cast<uint8_t*>(s.data()), k);
            bits = Buffer::FromString(std::move(s));
        }
        return MakeArray(ArrayData::Make(type, n, {bits}, c, nulls));
    }
    if (type->id() == Type::DICTIONARY) {
        auto& t = static_cast<const DictionaryType&>(*type);
        ARROW_ASSIGN_OR_RAISE(auto ib, MakeBuilder(int64(), pool));
        ARROW_ASSIGN_OR_RAISE(auto db, MakeBuilder(t.value_type(), pool));
        int64_t base = 0;
        for (auto& a : arrays) {
            auto& d = static_cast<const DictionaryArray&>(*a);
            for (int64_t i = 0; i < d.length(); i++)
                ARROW_RETURN_NOT_OK(d.IsNull(i) ? ib->AppendNull() : static_cast<Int64Builder&>(*ib).Append(base + d.GetValueIndex(i)));
            ARROW_RETURN_NOT_OK(db->AppendArraySlice(*d.dictionary()->data(), 0, d.dictionary()->length()));
            base += d.dictionary()->length();
        }
        ARROW_ASSIGN_OR_RAISE(std::shared_ptr<Array> i, ib->Finish());
        ARROW_ASSIGN_OR_RAISE(std::shared_ptr<Array> v, db->Finish());
        ARROW_ASSIGN_OR_RAISE(i, compute::Cast(*i, t.index_type()));
        return DictionaryArray::FromArrays(type, i, v);
    }
    ARROW_ASSIGN_OR_RAISE(auto b, MakeBuilder(type, pool));
    for (auto& a : arrays) ARROW_RETURN_NOT_OK(b->AppendArraySlice(*a->data(), 0, a->length()));
    return b->Finish();
}
bool Scalar::Equals(const Scalar& o) const {
    if (!type->Equals(*o.type) || is_valid != o.is_valid) return false;
    if (!is_valid) return true;
    return MakeArrayFromScalar(*this, 1).ValueOrDie()->Equals(*MakeArrayFromScalar(o, 1).ValueOrDie());
}

// ---------------------------------------------------------------- C data interface
namespace {
struct SchemaPriv {
    std::string format, name, metadata;
    std::vector<ArrowSchema> kids;
    std::vector<ArrowSchema*> ptrs;
    ArrowSchema dict;
};
void ReleaseSchema(ArrowSchema* s) {
    if (!s->release) return;
    for (int64_t i = 0; i < s->n_children; i++)
        if (s->children[i]->release) s->children[i]->release(s->children[i]);
    if (s->dictionary && s->dictionary->release) s->dictionary->release(s->dictionary);
    delete static_cast<SchemaPriv*>(s->private_data);
    s->release = nullptr;
}
std::string EncodeMetadata(const KeyValueMetadata* m) {
    std::string r;
    if (!m || !m->size()) return r;
    auto put = [&](int32_t v) { r.append(reinterpret_cast<const char*>(&v), 4); };
    put(int32_t(m->size()));
    for (int64_t i = 0; i < m->size(); i++) {
        put(int32_t(m->key(i).size()));
        r += m->key(i);
        put(int32_t(m->value(i).size()));
        r += m->value(i);
    }
    return r;
}
std::shared_ptr<KeyValueMetadata> DecodeMetadata(const char* p) {
    if (!p) return nullptr;
    auto get = [&] { int32_t v; memcpy(&v, p, 4); p += 4; return v; };
    int32_t n = get();
    if (!n) return nullptr;
    auto r = std::make_shared<KeyValueMetadata>();
    for (int32_t i = 0; i < n; i++) {
        int32_t k = get();
        std::string key(p, k);
        p += k;
        int32_t v = get();
        r->Append(key, std::string(p, v));
        p += v;
    }
    return r;
}
Result<std::string> FormatOf(const DataType& t) {
    switch (t.id()) {
        case Type::NA: return std::string("n");
        case Type::BOOL: return std::string("b");
        case Type::INT8: return std::string("c");
        case Type::UINT8: return std::string("C");
        case Type::INT16: return std::string("s");
        case Type::UINT16: return std::string("S");
        case Type::INT32: return std::string("i");
        case Type::UINT32: return std::string("I");
        case Type::INT64: return std::string("l");
        case Type::UINT64: return std::string("L");
        case Type::FLOAT: return std::string("f");
        case Type::DOUBLE: return std::string("g");
        case Type::STRING: return std::string("u");
        case Type::BINARY: return std::string("z");
        case Type::LARGE_STRING: return std::string("U");
        case Type::LARGE_BINARY: return std::string("Z");
        case Type::DATE32: return std::string("tdD");
        case Type::DATE64: return std::string("tdm");
        case Type::FIXED_SIZE_BINARY: return "w:" + std::to_string(t.byte_width());
        case Type::DECIMAL128: {
            auto& d = static_cast<const DecimalType&>(t);
            return "d:" + std::to_string(d.precision()) + "," + std::to_string(d.scale());
        }
        case Type::TIMESTAMP: {
            auto& s = static_cast<const TimestampType&>(t);
            return std::string("ts") + "smun"[s.unit()] + ":" + s.timezone();
        }
        case Type::LIST: return std::string("+l");
        case Type::STRUCT: return std::string("+s");
        case Type::MAP: return std::string("+m");
        case Type::SPARSE_UNION: return std::string("+us:");
        case Type::DICTIONARY: return FormatOf(*static_cast<const DictionaryType&>(t).index_type());
        default: return Status::NotImplemented("Exporting ", t.ToString(), " array not supported");
    }
}
Status DoExport(const DataType& type, const std::string& name, int64_t flags, const KeyValueMetadata* md, ArrowSchema* out) {
    auto p = std::make_unique<SchemaPriv>();
    memset(out, 0, sizeof(*out));
    ARROW_ASSIGN_OR_RAISE(p->format, FormatOf(type));
    p->name = name;
    p->metadata = EncodeMetadata(md);
    if (type.id() == Type::MAP && static_cast<const MapType&>(type).keys_sorted()) flags |= ARROW_FLAG_MAP_KEYS_SORTED;
    p->kids.resize(type.num_fields());
    for (int i = 0; i < type.num_fields(); i++) {
        auto& f = *type.field(i);
        ARROW_RETURN_NOT_OK(DoExport(*f.type(), f.name(), f.nullable() ? ARROW_FLAG_NULLABLE : 0, f.metadata().get(), &p->kids[i]));
    }
    for (auto& k : p->kids) p->ptrs.push_back(&k);
    if (type.id() == Type::DICTIONARY) {
        auto& d = static_cast<const DictionaryType&>(type);
        ARROW_RETURN_NOT_OK(DoExport(*d.value_type(), "", ARROW_FLAG_NULLABLE, nullptr, &p->dict));
        out->dictionary = &p->dict;
        if (d.ordered()) flags |= ARROW_FLAG_DICTIONARY_ORDERED;
    }
    out->format = p->format.c_str();
    out->name = p->name.c_str();
    out->metadata = p->metadata.empty() ? nullptr : p->metadata.data();
    out->flags = flags;
    out->n_children = int64_t(p->ptrs.size());
    out->children = p->ptrs.empty() ? nullptr : p->ptrs.data();
    out->release = ReleaseSchema;
    out->private_data = p.release();
    return Status::OK();
}
struct ArrayPriv {
    std::shared_ptr<ArrayData> data;
    std::vector<const void*> buffers;
    std::vector<ArrowArray> kids;
    std::vector<ArrowArray*> ptrs;
    ArrowArray dict;
};
void ReleaseArray(ArrowArray* a) {
    if (!a->release) return;
    for (int64_t i = 0; i < a->n_children; i++)
        if (a->children[i]->release) a->children[i]->release(a->children[i]);
    if (a->dictionary && a->dictionary->release) a->dictionary->release(a->dictionary);
    delete static_cast<ArrayPriv*>(a->private_data);
    a->release = nullptr;
}
void DoExport(const std::shared_ptr<ArrayData>& d, ArrowArray* out) {
    auto p = new ArrayPriv();
    memset(out, 0, sizeof(*out));
    p->data = d;
    bool no_buffers = d->type->id() == Type::NA;
    if (!no_buffers)
        for (auto& b : d->buffers) p->buffers.push_back(b ? b->data() : nullptr);
    p->kids.resize(d->child_data.size());
    for (size_t i = 0; i < p->kids.size(); i++) DoExport(d->child_data[i], &p->kids[i]);
    for (auto& k : p->kids) p->ptrs.push_back(&k);
    if (d->dictionary) {
        DoExport(d->dictionary, &p->dict);
        out->dictionary = &p->dict;
    }
    out->length = d->length;
    out->null_count = d->null_count;
    out->offset = d->offset;
    out->n_buffers = int64_t(p->buffers.size());
    out->buffers = p->buffers.data();
    out->n_children = int64_t(p->ptrs.size());
    out->children = p->ptrs.empty() ? nullptr : p->ptrs.data();
    out->release = ReleaseArray;
    out->private_data = p;
}
Result<std::shared_ptr<Field>> FieldOf(const ArrowSchema* s);
Result<std::shared_ptr<DataType>> TypeOf(const ArrowSchema* s, bool ignore_dict = false) {
    if (s->dictionary && !ignore_dict) {
        ARROW_ASSIGN_OR_RAISE(std::shared_ptr<DataType> i, TypeOf(s, true));
        ARROW_ASSIGN_OR_RAISE(std::shared_ptr<DataType> v, TypeOf(s->dictionary));
        return dictionary(i, v, (s->flags & ARROW_FLAG_DICTIONARY_ORDERED) != 0);
    }
    std::string f = s->format;
    FieldVector kids;
    for (int64_t i = 0; i < s->n_children; i++) {
        ARROW_ASSIGN_OR_RAISE(std::shared_ptr<Field> k, FieldOf(s->children[i]));
        kids.push_back(k);
    }
    static const std::map<std::string, std::shared_ptr<DataType>> simple = {
        {"n", null()}, {"b", boolean()}, {"c", int8()}, {"C", uint8()}, {"s", int16()}, {"S", uint16()}, {"i", int32()}, {"I", uint32()},
        {"l", int64()}, {"L", uint64()}, {"f", float32()}, {"g", float64()}, {"u", utf8()}, {"z", binary()}, {"U", large_utf8()},
        {"Z", large_binary()}, {"tdD", date32()}, {"tdm", date64()}};
    if (auto it = simple.find(f); it != simple.end()) return it->second;
    if (f.rfind("w:", 0) == 0) return fixed_size_binary(std::stoi(f.substr(2)));
    if (f.rfind("d:", 0) == 0) {
        auto c = f.find(',');
        return decimal128(std::stoi(f.substr(2)), std::stoi(f.substr(c + 1)));
    }
    if (f.rfind("ts", 0) == 0 && f.size() >= 4) {
        static const std::string units = "smun";
        return timestamp(TimeUnit::type(units.find(f[2])), f.substr(4));
    }
    if (f == "+l") return list(kids[0]);
    if (f == "+s") return struct_(kids);
    if (f == "+m") return std::static_pointer_cast<DataType>(std::make_shared<MapType>(kids[0], (s->flags & ARROW_FLAG_MAP_KEYS_SORTED) != 0));
    if (f.rfind("+us", 0) == 0) return sparse_union(kids);
    return Status::Invalid("Invalid or unsupported format string: '", f, "'");
}
Result<std::shared_ptr<Field>> FieldOf(const ArrowSchema* s) {
    ARROW_ASSIGN_OR_RAISE(std::shared_ptr<DataType> t, TypeOf(s));
    return field(s->name ? s->name : "", t, (s->flags & ARROW_FLAG_NULLABLE) != 0, DecodeMetadata(s->metadata));
}
struct SchemaGuard {
    ArrowSchema* s;
    ~SchemaGuard() { if (s->release) s->release(s); }
};
struct Imported {
    ArrowArray a;
    ~Imported() { if (a.release) a.release(&a); }
};
class ImportedBuffer : public Buffer {
 public:
    ImportedBuffer(const void* p, int64_t size, std::shared_ptr<Imported> owner) : Buffer(static_cast<const uint8_t*>(p), size), owner_(std::move(owner)) {}

 private:
    std::shared_ptr<Imported> owner_;
};
Result<std::shared_ptr<ArrayData>> DoImport(const ArrowArray* a, const std::shared_ptr<DataType>& type, const std::shared_ptr<Imported>& owner) {
    auto d = std::make_shared<ArrayData>();
    d->type = type;
    d->length = a->length;
    d->null_count = a->null_count;
    d->offset = a->offset;
    auto storage = type->id() == Type::DICTIONARY ? static_cast<const DictionaryType&>(*type).index_type() : type;
    size_t want = storage->id() == Type::NA ? 0 : storage->id() == Type::STRUCT ? 1
        : (storage->id() == Type::STRING || storage->id() == Type::BINARY || storage->id() == Type::LARGE_STRING || storage->id() == Type::LARGE_BINARY) ? 3 : 2;
    if (a->n_children != type->num_fields()) return Status::Invalid("Expected ", type->num_fields(), " children for imported type ", type->ToString(), ", ArrowArray struct has ", a->n_children, " children");
    if (size_t(a->n_buffers) != want) return Status::Invalid("Expected ", want, " buffers for imported type ", type->ToString(), ", ArrowArray struct has ", a->n_buffers);
    int64_t n = a->length + a->offset;
    for (size_t i = 0; i < want; i++) {
        const void* p = a->buffers[i];
        int64_t size = 0;
        if (i == 0) size = bit_util::BytesForBits(n);
        else if (want == 2 && (storage->id() == Type::LIST || storage->id() == Type::MAP)) size = 4 * (n + 1);
        else if (want == 2) size = bit_util::BytesForBits(storage->bit_width() * n);
        else {
            bool large = storage->id() == Type::LARGE_STRING || storage->id() == Type::LARGE_BINARY;
            if (i == 1) size = (large ? 8 : 4) * (n + 1);
            else if (a->buffers[1]) size = large ? static_cast<const int64_t*>(a->buffers[1])[n] : static_cast<const int32_t*>(a->buffers[1])[n];
        }
        d->buffers.push_back(p ? std::make_shared<ImportedBuffer>(p, size, owner) : (i == 0 ? nullptr : std::make_shared<Buffer>(reinterpret_cast<const uint8_t*>("\0\0\0\0\0\0\0\0"), 0)));
    }
    if (want == 0) d->buffers.push_back(nullptr), d->null_count = a->length;
    else if (!d->buffers[0]) d->null_count = 0;
    for (int64_t i = 0; i < a->n_children; i++) {
        ARROW_ASSIGN_OR_RAISE(std::shared_ptr<ArrayData> c, DoImport(a->children[i], type->field(int(i))->type(), owner));
        d->child_data.push_back(c);
    }
    if (type->id() == Type::DICTIONARY) {
        if (!a->dictionary) return Status::Invalid("Import type is dictionary but imported array has no dictionary");
        ARROW_ASSIGN_OR_RAISE(d->dictionary, DoImport(a->dictionary, static_cast<const DictionaryType&>(*type).value_type(), owner));
    }
    return d;
}
}  // namespace
Status ExportType(const DataType& t, ArrowSchema* out) { return DoExport(t, "", ARROW_FLAG_NULLABLE, nullptr, out); }
Status ExportField(const Field& f, ArrowSchema* out) { return DoExport(*f.type(), f.name(), f.nullable() ? ARROW_FLAG_NULLABLE : 0, f.metadata().get(), out); }
Status ExportSchema(const Schema& s, ArrowSchema* out) { return DoExport(StructType(s.fields()), "", 0, s.metadata().get(), out); }
Status ExportArray(const Array& a, ArrowArray* out, ArrowSchema* schema) {
    if (schema) ARROW_RETURN_NOT_OK(ExportType(*a.type(), schema));
    DoExport(a.data(), out);
    return Status::OK();
}
Result<std::shared_ptr<DataType>> ImportType(ArrowSchema* s) {
    if (!s->release) return Status::Invalid("Cannot import released ArrowSchema");
    SchemaGuard g{s};
    return TypeOf(s);
}
Result<std::shared_ptr<Field>> ImportField(ArrowSchema* s) {
    if (!s->release) return Status::Invalid("Cannot import released ArrowSchema");
    SchemaGuard g{s};
    return FieldOf(s);
}
Result<std::shared_ptr<Schema>> ImportSchema(ArrowSchema* s) {
    if (!s->release) return Status::Invalid("Cannot import released ArrowSchema");
    SchemaGuard g{s};
    ARROW_ASSIGN_OR_RAISE(std::shared_ptr<DataType> t, TypeOf(s));
    if (t->id() != Type::STRUCT) return Status::Invalid("Cannot import schema: ArrowSchema describes non-struct type ", t->ToString());
    return schema(t->fields(), DecodeMetadata(s->metadata));
}
Result<std::shared_ptr<Array>> ImportArray(ArrowArray* a, std::shared_ptr<DataType> type) {
    if (!a->release) return Status::Invalid("Cannot import released ArrowArray");
    auto owner = std::make_shared<Imported>();
    ArrowArrayMove(a, &owner->a);
    ARROW_ASSIGN_OR_RAISE(std::shared_ptr<ArrayData> d, DoImport(&owner->a, type, owner));
    return MakeArray(d);
}
Result<std::shared_ptr<Array>> ImportArray(ArrowArray* a, ArrowSchema* s) {
    auto t = ImportType(s);
    if (!t.ok()) {
        if (a->release) a->release(a);
        return t.status();
    }
    return ImportArray(a, *t);
}
}  // namespace arrow
