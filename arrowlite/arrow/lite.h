// A small stand-in for the parts of Apache Arrow that the repository uses.  Arrow itself is not
// installed here, so the table-level sources are compiled against this header.  It keeps Arrow's
// memory layout (validity bitmaps, offsets, slices, C data interface) and names.
#pragma once

#include <algorithm>
#include <array>
#include <atomic>
#include <cassert>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <functional>
#include <iosfwd>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <sstream>
#include <string>
#include <string_view>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <variant>
#include <vector>

#ifndef ARROW_C_DATA_INTERFACE
#define ARROW_C_DATA_INTERFACE
#define ARROW_FLAG_DICTIONARY_ORDERED 1
#define ARROW_FLAG_NULLABLE 2
#define ARROW_FLAG_MAP_KEYS_SORTED 4
extern "C" {
struct ArrowSchema {
    const char* format;
    const char* name;
    const char* metadata;
    int64_t flags;
    int64_t n_children;
    struct ArrowSchema** children;
    struct ArrowSchema* dictionary;
    void (*release)(struct ArrowSchema*);
    void* private_data;
};
struct ArrowArray {
    int64_t length;
    int64_t null_count;
    int64_t offset;
    int64_t n_buffers;
    int64_t n_children;
    const void** buffers;
    struct ArrowArray** children;
    struct ArrowArray* dictionary;
    void (*release)(struct ArrowArray*);
    void* private_data;
};
}
#endif

inline int ArrowSchemaIsReleased(const struct ArrowSchema* s) { return s->release == nullptr; }
inline void ArrowSchemaMarkReleased(struct ArrowSchema* s) { s->release = nullptr; }
inline void ArrowSchemaMove(struct ArrowSchema* src, struct ArrowSchema* dest) {
    assert(dest != src && !ArrowSchemaIsReleased(src));
    memcpy(dest, src, sizeof(*src));
    ArrowSchemaMarkReleased(src);
}
inline void ArrowSchemaRelease(struct ArrowSchema* s) {
    if (!ArrowSchemaIsReleased(s)) {
        s->release(s);
        assert(ArrowSchemaIsReleased(s));
    }
}
inline int ArrowArrayIsReleased(const struct ArrowArray* a) { return a->release == nullptr; }
inline void ArrowArrayMarkReleased(struct ArrowArray* a) { a->release = nullptr; }
inline void ArrowArrayMove(struct ArrowArray* src, struct ArrowArray* dest) {
    assert(dest != src && !ArrowArrayIsReleased(src));
    memcpy(dest, src, sizeof(*src));
    ArrowArrayMarkReleased(src);
}
inline void ArrowArrayRelease(struct ArrowArray* a) {
    if (!ArrowArrayIsReleased(a)) {
        a->release(a);
        assert(ArrowArrayIsReleased(a));
    }
}

namespace arrow {

// ---------------------------------------------------------------- status and result
enum class StatusCode : char {
    OK = 0,
    OutOfMemory = 1,
    KeyError = 2,
    TypeError = 3,
    Invalid = 4,
    IOError = 5,
    CapacityError = 6,
    IndexError = 7,
    Cancelled = 8,
    UnknownError = 9,
    NotImplemented = 10,
    SerializationError = 11,
    AlreadyExists = 45
};

class Status {
 public:
    Status() = default;
    Status(StatusCode code, std::string msg) : code_(code), msg_(std::move(msg)) {}
    static Status OK() { return Status(); }
    template <typename... A>
    static Status FromArgs(StatusCode code, A&&... args) {
        std::ostringstream out;
        (void)(out << ... << args);
        return Status(code, out.str());
    }
#define ARROWLITE_STATUS(NAME)                                                                  \
    template <typename... A>                                                                    \
    static Status NAME(A&&... args) { return FromArgs(StatusCode::NAME, std::forward<A>(args)...); } \
    bool Is##NAME() const { return code_ == StatusCode::NAME; }
    ARROWLITE_STATUS(OutOfMemory)
    ARROWLITE_STATUS(KeyError)
    ARROWLITE_STATUS(TypeError)
    ARROWLITE_STATUS(Invalid)
    ARROWLITE_STATUS(IOError)
    ARROWLITE_STATUS(CapacityError)
    ARROWLITE_STATUS(IndexError)
    ARROWLITE_STATUS(Cancelled)
    ARROWLITE_STATUS(UnknownError)
    ARROWLITE_STATUS(NotImplemented)
    ARROWLITE_STATUS(SerializationError)
#undef ARROWLITE_STATUS
    bool ok() const { return code_ == StatusCode::OK; }
    StatusCode code() const { return code_; }
    const std::string& message() const { return msg_; }
    std::string ToString() const { return ok() ? "OK" : CodeAsString() + ": " + msg_; }
    std::string CodeAsString() const;
    bool Equals(const Status& o) const { return code_ == o.code_ && msg_ == o.msg_; }
    bool operator==(const Status& o) const { return Equals(o); }
    bool operator!=(const Status& o) const { return !Equals(o); }
    void Warn() const {}
    void Abort() const;

 private:
    StatusCode code_ = StatusCode::OK;
    std::string msg_;
};
std::ostream& operator<<(std::ostream& os, const Status& s);

template <typename T>
class Result {
 public:
    using ValueType = T;
    Result() : v_(Status::UnknownError("uninitialised result")) {}
    Result(const Status& s) : v_(s) { assert(!s.ok()); }
    Result(Status&& s) : v_(std::move(s)) {}
    template <typename U, typename = std::enable_if_t<std::is_convertible_v<U, T> &&
                                                      !std::is_same_v<std::decay_t<U>, Status> &&
                                                      !std::is_same_v<std::decay_t<U>, Result>>>
    Result(U&& u) : v_(std::in_place_index<1>, std::forward<U>(u)) {}
    template <typename U, typename = std::enable_if_t<std::is_convertible_v<U, T> && !std::is_same_v<U, T>>>
    Result(Result<U>&& o) : v_(Status::UnknownError("")) {
        if (o.ok()) v_.template emplace<1>(std::move(o).ValueUnsafe());
        else v_ = o.status();
    }
    Result(const Result&) = default;
    Result(Result&&) = default;
    Result& operator=(const Result&) = default;
    Result& operator=(Result&&) = default;
    bool ok() const { return v_.index() == 1; }
    Status status() const { return ok() ? Status::OK() : std::get<0>(v_); }
    const T& ValueOrDie() const& { Check(); return std::get<1>(v_); }
    T& ValueOrDie() & { Check(); return std::get<1>(v_); }
    T ValueOrDie() && { Check(); return std::move(std::get<1>(v_)); }
    const T& operator*() const& { return ValueOrDie(); }
    T& operator*() & { return ValueOrDie(); }
    T operator*() && { return std::move(*this).ValueOrDie(); }
    const T* operator->() const { return &ValueOrDie(); }
    T* operator->() { return &ValueOrDie(); }
    const T& ValueUnsafe() const& { return std::get<1>(v_); }
    T& ValueUnsafe() & { return std::get<1>(v_); }
    T ValueUnsafe() && { return std::move(std::get<1>(v_)); }
    T MoveValueUnsafe() { return std::move(std::get<1>(v_)); }
    Status Value(T* out) && {
        if (!ok()) return status();
        *out = std::move(std::get<1>(v_));
        return Status::OK();
    }
    T ValueOr(T alt) && { return ok() ? std::move(std::get<1>(v_)) : std::move(alt); }
    bool Equals(const Result& o) const { return v_ == o.v_; }

 private:
    void Check() const { if (!ok()) std::get<0>(v_).Abort(); }
    std::variant<Status, T> v_;
};

#define ARROW_CONCAT_(a, b) a##b
#define ARROW_CONCAT(a, b) ARROW_CONCAT_(a, b)
#define ARROW_RETURN_NOT_OK(expr)                 \
    do {                                          \
        ::arrow::Status _st = (expr);             \
        if (!_st.ok()) return _st;                \
    } while (false)
#define ARROW_ASSIGN_OR_RAISE_IMPL(name, lhs, rexpr) \
    auto&& name = (rexpr);                           \
    if (!name.ok()) return name.status();            \
    lhs = std::move(name).ValueUnsafe();
#define ARROW_ASSIGN_OR_RAISE(lhs, rexpr) \
    ARROW_ASSIGN_OR_RAISE_IMPL(ARROW_CONCAT(_error_or_value, __COUNTER__), lhs, rexpr);

namespace internal {
template <typename O, typename I>
inline O checked_cast(I&& value) {
    static_assert(std::is_class_v<std::remove_pointer_t<std::remove_reference_t<I>>>);
#ifdef NDEBUG
    return static_cast<O>(value);
#else
    return dynamic_cast<O>(value);
#endif
}
template <class T, class U>
std::shared_ptr<T> checked_pointer_cast(std::shared_ptr<U> r) noexcept {
#ifdef NDEBUG
    return std::static_pointer_cast<T>(std::move(r));
#else
    return std::dynamic_pointer_cast<T>(std::move(r));
#endif
}
template <class T, class U>
std::unique_ptr<T> checked_pointer_cast(std::unique_ptr<U> r) noexcept {
    return std::unique_ptr<T>(static_cast<T*>(r.release()));
}
bool StringToFloat(const char* s, size_t length, char decimal_point, float* out);
bool StringToFloat(const char* s, size_t length, char decimal_point, double* out);
uint32_t crc32(uint32_t prev, const void* data, size_t length);
template <typename T>
std::vector<T> Iota(T start, T stop) {
    std::vector<T> r;
    for (T i = start; i < stop; ++i) r.push_back(i);
    return r;
}
template <typename T>
std::vector<T> Iota(T stop) { return Iota(T(0), stop); }
}  // namespace internal
using internal::checked_cast;
using internal::checked_pointer_cast;

// ---------------------------------------------------------------- memory
class MemoryPool {
 public:
    virtual ~MemoryPool() = default;
    Status Allocate(int64_t size, uint8_t** out) { return Allocate(size, 64, out); }
    virtual Status Allocate(int64_t size, int64_t alignment, uint8_t** out) = 0;
    virtual Status Reallocate(int64_t old_size, int64_t new_size, int64_t alignment, uint8_t** ptr) = 0;
    Status Reallocate(int64_t o, int64_t n, uint8_t** ptr) { return Reallocate(o, n, 64, ptr); }
    virtual void Free(uint8_t* buffer, int64_t size, int64_t alignment) = 0;
    void Free(uint8_t* buffer, int64_t size) { Free(buffer, size, 64); }
    virtual void ReleaseUnused() {}
    virtual int64_t bytes_allocated() const = 0;
    virtual int64_t max_memory() const { return -1; }
    virtual int64_t total_bytes_allocated() const = 0;
    virtual int64_t num_allocations() const = 0;
    virtual std::string backend_name() const = 0;
};
MemoryPool* default_memory_pool();
inline MemoryPool* system_memory_pool() { return default_memory_pool(); }

namespace internal {
class MemoryPoolStats {
 public:
    int64_t max_memory() const { return max_; }
    int64_t bytes_allocated() const { return cur_; }
    int64_t total_bytes_allocated() const { return total_; }
    int64_t num_allocations() const { return num_; }
    void DidAllocateBytes(int64_t size) {
        int64_t now = (cur_ += size);
        int64_t m = max_;
        while (now > m && !max_.compare_exchange_weak(m, now)) {
        }
        total_ += size;
        num_++;
    }
    void DidReallocateBytes(int64_t old_size, int64_t new_size) {
        if (new_size > old_size) DidAllocateBytes(new_size - old_size);
        else DidFreeBytes(old_size - new_size);
    }
    void DidFreeBytes(int64_t size) { cur_ -= size; }

 private:
    std::atomic<int64_t> max_{0}, cur_{0}, total_{0}, num_{0};
};
}  // namespace internal

class Buffer {
 public:
    Buffer(const uint8_t* data, int64_t size) : data_(data), size_(size), capacity_(size) {}
    Buffer(std::shared_ptr<Buffer> parent, int64_t offset, int64_t size)
        : data_(parent->data_ + offset), size_(size), capacity_(size), parent_(std::move(parent)) {}
    virtual ~Buffer() = default;
    Buffer(const Buffer&) = delete;
    const uint8_t* data() const { return data_; }
    uint8_t* mutable_data() { return is_mutable_ ? const_cast<uint8_t*>(data_) : nullptr; }
    template <typename T> const T* data_as() const { return reinterpret_cast<const T*>(data_); }
    template <typename T> T* mutable_data_as() { return reinterpret_cast<T*>(mutable_data()); }
    int64_t size() const { return size_; }
    int64_t capacity() const { return capacity_; }
    bool is_mutable() const { return is_mutable_; }
    uint8_t operator[](int64_t i) const { return data_[i]; }
    std::string ToString() const { return std::string(reinterpret_cast<const char*>(data_), size_); }
    operator std::string_view() const { return std::string_view(reinterpret_cast<const char*>(data_), size_); }
    bool Equals(const Buffer& o) const { return size_ == o.size_ && (data_ == o.data_ || memcmp(data_, o.data_, size_) == 0); }
    static std::shared_ptr<Buffer> FromString(std::string s);
    template <typename T>
    static std::shared_ptr<Buffer> Wrap(const T* data, int64_t n) {
        return std::make_shared<Buffer>(reinterpret_cast<const uint8_t*>(data), n * int64_t(sizeof(T)));
    }
    template <typename T>
    static std::shared_ptr<Buffer> Wrap(const std::vector<T>& v) { return Wrap(v.data(), v.size()); }

 protected:
    const uint8_t* data_;
    int64_t size_;
    int64_t capacity_;
    bool is_mutable_ = false;
    std::shared_ptr<Buffer> parent_;
};

class ResizableBuffer : public Buffer {
 public:
    explicit ResizableBuffer(MemoryPool* pool) : Buffer(nullptr, 0), pool_(pool) { is_mutable_ = true; }
    ~ResizableBuffer() override { if (data_) pool_->Free(mutable_data(), capacity_); }
    Status Reserve(int64_t capacity) {
        if (capacity <= capacity_ && data_) return Status::OK();
        int64_t n = (capacity + 63) / 64 * 64;
        if (n == 0) n = 64;
        uint8_t* p = mutable_data();
        if (p) {
            ARROW_RETURN_NOT_OK(pool_->Reallocate(capacity_, n, &p));
        } else {
            ARROW_RETURN_NOT_OK(pool_->Allocate(n, &p));
        }
        data_ = p;
        capacity_ = n;
        return Status::OK();
    }
    Status Resize(int64_t size, bool shrink = true) {
        (void)shrink;
        ARROW_RETURN_NOT_OK(Reserve(size));
        size_ = size;
        return Status::OK();
    }

 private:
    MemoryPool* pool_;
};
Result<std::unique_ptr<Buffer>> AllocateBuffer(int64_t size, MemoryPool* pool = nullptr);
Result<std::unique_ptr<ResizableBuffer>> AllocateResizableBuffer(int64_t size, MemoryPool* pool = nullptr);

class BufferBuilder {
 public:
    explicit BufferBuilder(MemoryPool* pool = default_memory_pool()) : pool_(pool) {}
    Status Reserve(int64_t more) {
        if (!buf_) buf_ = std::make_unique<ResizableBuffer>(pool_);
        if (size_ + more > buf_->capacity() || !buf_->data())
            return buf_->Reserve(std::max(size_ + more, buf_->capacity() * 2));
        return Status::OK();
    }
    Status Append(const void* data, int64_t n) {
        ARROW_RETURN_NOT_OK(Reserve(n));
        UnsafeAppend(data, n);
        return Status::OK();
    }
    Status Append(std::string_view v) { return Append(v.data(), v.size()); }
    void UnsafeAppend(const void* data, int64_t n) {
        if (n) memcpy(buf_->mutable_data() + size_, data, n);
        size_ += n;
    }
    int64_t length() const { return size_; }
    uint8_t* mutable_data() { return buf_ ? buf_->mutable_data() : nullptr; }
    const uint8_t* data() const { return buf_ ? buf_->data() : nullptr; }
    Result<std::shared_ptr<Buffer>> Finish(bool = true) {
        ARROW_RETURN_NOT_OK(Reserve(0));
        ARROW_RETURN_NOT_OK(buf_->Resize(size_));
        if (buf_->capacity() > size_) memset(buf_->mutable_data() + size_, 0, buf_->capacity() - size_);
        std::shared_ptr<Buffer> r = std::move(buf_);
        size_ = 0;
        return r;
    }
    Status Finish(std::shared_ptr<Buffer>* out, bool = true) { return Finish().Value(out); }
    void Reset() { buf_.reset(); size_ = 0; }

 private:
    MemoryPool* pool_;
    std::unique_ptr<ResizableBuffer> buf_;
    int64_t size_ = 0;
};

template <typename T>
class TypedBufferBuilder {
 public:
    explicit TypedBufferBuilder(MemoryPool* pool = default_memory_pool()) : b_(pool) {}
    Status Append(T v) { return b_.Append(&v, sizeof(T)); }
    Status Append(const T* v, int64_t n) { return b_.Append(v, n * sizeof(T)); }
    void UnsafeAppend(T v) { b_.UnsafeAppend(&v, sizeof(T)); }
    Status Reserve(int64_t n) { return b_.Reserve(n * sizeof(T)); }
    int64_t length() const { return b_.length() / int64_t(sizeof(T)); }
    const T* data() const { return reinterpret_cast<const T*>(b_.data()); }
    T* mutable_data() { return reinterpret_cast<T*>(b_.mutable_data()); }
    Result<std::shared_ptr<Buffer>> Finish(bool s = true) { return b_.Finish(s); }
    Status Finish(std::shared_ptr<Buffer>* out, bool = true) { return b_.Finish(out); }
    void Reset() { b_.Reset(); }

 private:
    BufferBuilder b_;
};

namespace bit_util {
inline bool GetBit(const uint8_t* bits, int64_t i) { return (bits[i >> 3] >> (i & 7)) & 1; }
inline void SetBit(uint8_t* bits, int64_t i) { bits[i >> 3] |= uint8_t(1 << (i & 7)); }
inline void ClearBit(uint8_t* bits, int64_t i) { bits[i >> 3] &= uint8_t(~(1 << (i & 7))); }
inline void SetBitTo(uint8_t* bits, int64_t i, bool v) { v ? SetBit(bits, i) : ClearBit(bits, i); }
inline int64_t BytesForBits(int64_t n) { return (n + 7) / 8; }
}  // namespace bit_util

// ---------------------------------------------------------------- types
struct Type {
    enum type {
        NA = 0, BOOL, UINT8, INT8, UINT16, INT16, UINT32, INT32, UINT64, INT64, HALF_FLOAT, FLOAT, DOUBLE,
        STRING, BINARY, FIXED_SIZE_BINARY, DATE32, DATE64, TIMESTAMP, TIME32, TIME64, INTERVAL_MONTHS,
        INTERVAL_DAY_TIME, DECIMAL128, DECIMAL = DECIMAL128, DECIMAL256, LIST, STRUCT, SPARSE_UNION,
        DENSE_UNION, DICTIONARY, MAP, EXTENSION, FIXED_SIZE_LIST, DURATION, LARGE_STRING, LARGE_BINARY,
        LARGE_LIST, INTERVAL_MONTH_DAY_NANO, RUN_END_ENCODED, MAX_ID
    };
};
namespace internal {
std::string ToString(Type::type id);
}

struct TimeUnit {
    enum type { SECOND = 0, MILLI = 1, MICRO = 2, NANO = 3 };
};
std::ostream& operator<<(std::ostream& os, TimeUnit::type unit);

class KeyValueMetadata {
 public:
    KeyValueMetadata() = default;
    KeyValueMetadata(std::vector<std::string> k, std::vector<std::string> v) : keys_(std::move(k)), values_(std::move(v)) {}
    explicit KeyValueMetadata(const std::unordered_map<std::string, std::string>& m) {
        for (const auto& [k, v] : m) Append(k, v);
    }
    static std::shared_ptr<KeyValueMetadata> Make(std::vector<std::string> k, std::vector<std::string> v) {
        return std::make_shared<KeyValueMetadata>(std::move(k), std::move(v));
    }
    void ToUnorderedMap(std::unordered_map<std::string, std::string>* out) const {
        for (size_t i = 0; i < keys_.size(); i++) (*out)[keys_[i]] = values_[i];
    }
    void Append(std::string k, std::string v) { keys_.push_back(std::move(k)); values_.push_back(std::move(v)); }
    int FindKey(std::string_view key) const {
        for (size_t i = 0; i < keys_.size(); i++) if (keys_[i] == key) return int(i);
        return -1;
    }
    bool Contains(std::string_view key) const { return FindKey(key) >= 0; }
    Result<std::string> Get(std::string_view key) const {
        int i = FindKey(key);
        if (i < 0) return Status::KeyError(key);
        return values_[i];
    }
    Status Set(std::string k, std::string v) {
        int i = FindKey(k);
        if (i < 0) Append(std::move(k), std::move(v));
        else values_[i] = std::move(v);
        return Status::OK();
    }
    int64_t size() const { return keys_.size(); }
    const std::string& key(int64_t i) const { return keys_[i]; }
    const std::string& value(int64_t i) const { return values_[i]; }
    const std::vector<std::string>& keys() const { return keys_; }
    const std::vector<std::string>& values() const { return values_; }
    std::shared_ptr<KeyValueMetadata> Copy() const { return std::make_shared<KeyValueMetadata>(keys_, values_); }
    std::shared_ptr<KeyValueMetadata> Merge(const KeyValueMetadata& o) const {
        auto r = Copy();
        for (size_t i = 0; i < o.keys_.size(); i++) (void)r->Set(o.keys_[i], o.values_[i]);
        return r;
    }
    bool Equals(const KeyValueMetadata& o) const;
    std::string ToString() const;

 private:
    std::vector<std::string> keys_, values_;
};
inline std::shared_ptr<KeyValueMetadata> key_value_metadata(std::vector<std::string> k, std::vector<std::string> v) {
    return KeyValueMetadata::Make(std::move(k), std::move(v));
}
inline std::shared_ptr<KeyValueMetadata> key_value_metadata(const std::unordered_map<std::string, std::string>& m) {
    return std::make_shared<KeyValueMetadata>(m);
}

class Field;
class DataType;
class Array;
class ArrayBuilder;
struct Scalar;
using FieldVector = std::vector<std::shared_ptr<Field>>;
using ArrayVector = std::vector<std::shared_ptr<Array>>;
using DataTypeVector = std::vector<std::shared_ptr<DataType>>;

class DataType : public std::enable_shared_from_this<DataType> {
 public:
    explicit DataType(Type::type id) : id_(id) {}
    virtual ~DataType() = default;
    Type::type id() const { return id_; }
    virtual std::string name() const { return ToString(false); }
    std::string ToString(bool show_metadata = false) const;
    bool Equals(const DataType& o, bool check_metadata = false) const;
    bool Equals(const std::shared_ptr<DataType>& o, bool check_metadata = false) const { return o && Equals(*o, check_metadata); }
    bool operator==(const DataType& o) const { return Equals(o); }
    bool operator!=(const DataType& o) const { return !Equals(o); }
    const FieldVector& fields() const { return children_; }
    const std::shared_ptr<Field>& field(int i) const { return children_[i]; }
    int num_fields() const { return int(children_.size()); }
    int bit_width() const;
    int byte_width() const { return bit_width() < 0 ? -1 : bit_width() / 8; }
    std::shared_ptr<DataType> GetSharedPtr() const { return const_cast<DataType*>(this)->shared_from_this(); }

 protected:
    Type::type id_;
    FieldVector children_;
};
inline std::ostream& operator<<(std::ostream& os, const DataType& t) { return os << t.ToString(); }

class Field {
 public:
    Field(std::string name, std::shared_ptr<DataType> type, bool nullable = true,
          std::shared_ptr<const KeyValueMetadata> md = nullptr)
        : name_(std::move(name)), type_(std::move(type)), nullable_(nullable), metadata_(std::move(md)) {}
    const std::string& name() const { return name_; }
    const std::shared_ptr<DataType>& type() const { return type_; }
    bool nullable() const { return nullable_; }
    std::shared_ptr<const KeyValueMetadata> metadata() const { return metadata_; }
    bool HasMetadata() const { return metadata_ && metadata_->size() > 0; }
    std::shared_ptr<Field> WithMetadata(std::shared_ptr<const KeyValueMetadata> md) const { return std::make_shared<Field>(name_, type_, nullable_, std::move(md)); }
    std::shared_ptr<Field> WithMergedMetadata(std::shared_ptr<const KeyValueMetadata> md) const {
        return WithMetadata(metadata_ ? metadata_->Merge(*md) : md);
    }
    std::shared_ptr<Field> RemoveMetadata() const { return WithMetadata(nullptr); }
    std::shared_ptr<Field> WithType(std::shared_ptr<DataType> t) const { return std::make_shared<Field>(name_, std::move(t), nullable_, metadata_); }
    std::shared_ptr<Field> WithName(std::string n) const { return std::make_shared<Field>(std::move(n), type_, nullable_, metadata_); }
    std::shared_ptr<Field> WithNullable(bool n) const { return std::make_shared<Field>(name_, type_, n, metadata_); }
    bool Equals(const Field& o, bool check_metadata = false) const;
    bool Equals(const std::shared_ptr<Field>& o, bool check_metadata = false) const { return Equals(*o, check_metadata); }
    bool operator==(const Field& o) const { return Equals(o); }
    bool operator!=(const Field& o) const { return !Equals(o); }
    std::string ToString(bool show_metadata = false) const;

 private:
    std::string name_;
    std::shared_ptr<DataType> type_;
    bool nullable_;
    std::shared_ptr<const KeyValueMetadata> metadata_;
};

class Schema {
 public:
    explicit Schema(FieldVector fields, std::shared_ptr<const KeyValueMetadata> md = nullptr) : fields_(std::move(fields)), metadata_(std::move(md)) {}
    const FieldVector& fields() const { return fields_; }
    const std::shared_ptr<Field>& field(int i) const { return fields_[i]; }
    int num_fields() const { return int(fields_.size()); }
    std::vector<std::string> field_names() const;
    std::shared_ptr<Field> GetFieldByName(std::string_view name) const;
    FieldVector GetAllFieldsByName(std::string_view name) const;
    int GetFieldIndex(std::string_view name) const;
    std::vector<int> GetAllFieldIndices(std::string_view name) const;
    std::shared_ptr<const KeyValueMetadata> metadata() const { return metadata_; }
    bool HasMetadata() const { return metadata_ && metadata_->size() > 0; }
    std::shared_ptr<Schema> WithMetadata(std::shared_ptr<const KeyValueMetadata> md) const { return std::make_shared<Schema>(fields_, std::move(md)); }
    std::shared_ptr<Schema> RemoveMetadata() const { return WithMetadata(nullptr); }
    Result<std::shared_ptr<Schema>> AddField(int i, const std::shared_ptr<Field>& f) const;
    Result<std::shared_ptr<Schema>> RemoveField(int i) const;
    Result<std::shared_ptr<Schema>> SetField(int i, const std::shared_ptr<Field>& f) const;
    bool Equals(const Schema& o, bool check_metadata = false) const;
    bool Equals(const std::shared_ptr<Schema>& o, bool check_metadata = false) const { return o && Equals(*o, check_metadata); }
    bool operator==(const Schema& o) const { return Equals(o); }
    bool operator!=(const Schema& o) const { return !Equals(o); }
    std::string ToString(bool show_metadata = false) const;

 private:
    FieldVector fields_;
    std::shared_ptr<const KeyValueMetadata> metadata_;
};

class Decimal128;
#define ARROWLITE_CTYPE(NAME, ID, C)                        \
    class NAME : public DataType {                          \
     public:                                                \
        static constexpr Type::type type_id = Type::ID;     \
        using c_type = C;                                   \
        NAME() : DataType(Type::ID) {}                      \
        static const char* type_name();                     \
    };
ARROWLITE_CTYPE(BooleanType, BOOL, bool)
ARROWLITE_CTYPE(UInt8Type, UINT8, uint8_t)
ARROWLITE_CTYPE(Int8Type, INT8, int8_t)
ARROWLITE_CTYPE(UInt16Type, UINT16, uint16_t)
ARROWLITE_CTYPE(Int16Type, INT16, int16_t)
ARROWLITE_CTYPE(UInt32Type, UINT32, uint32_t)
ARROWLITE_CTYPE(Int32Type, INT32, int32_t)
ARROWLITE_CTYPE(UInt64Type, UINT64, uint64_t)
ARROWLITE_CTYPE(Int64Type, INT64, int64_t)
ARROWLITE_CTYPE(FloatType, FLOAT, float)
ARROWLITE_CTYPE(DoubleType, DOUBLE, double)
ARROWLITE_CTYPE(Date32Type, DATE32, int32_t)
ARROWLITE_CTYPE(Date64Type, DATE64, int64_t)
class NullType : public DataType {
 public:
    static constexpr Type::type type_id = Type::NA;
    NullType() : DataType(Type::NA) {}
};
class BaseBinaryType : public DataType { using DataType::DataType; };
class BinaryType : public BaseBinaryType {
 public:
    static constexpr Type::type type_id = Type::BINARY;
    using offset_type = int32_t;
    explicit BinaryType(Type::type id = Type::BINARY) : BaseBinaryType(id) {}
};
class StringType : public BinaryType {
 public:
    static constexpr Type::type type_id = Type::STRING;
    StringType() : BinaryType(Type::STRING) {}
};
class LargeBinaryType : public BaseBinaryType {
 public:
    static constexpr Type::type type_id = Type::LARGE_BINARY;
    using offset_type = int64_t;
    explicit LargeBinaryType(Type::type id = Type::LARGE_BINARY) : BaseBinaryType(id) {}
};
class LargeStringType : public LargeBinaryType {
 public:
    static constexpr Type::type type_id = Type::LARGE_STRING;
    LargeStringType() : LargeBinaryType(Type::LARGE_STRING) {}
};
class FixedSizeBinaryType : public DataType {
 public:
    static constexpr Type::type type_id = Type::FIXED_SIZE_BINARY;
    explicit FixedSizeBinaryType(int32_t w, Type::type id = Type::FIXED_SIZE_BINARY) : DataType(id), width_(w) {}
    int32_t byte_width() const { return width_; }

 private:
    int32_t width_;
};
class DecimalType : public FixedSizeBinaryType {
 public:
    DecimalType(Type::type id, int32_t width, int32_t p, int32_t s) : FixedSizeBinaryType(width, id), precision_(p), scale_(s) {}
    int32_t precision() const { return precision_; }
    int32_t scale() const { return scale_; }

 private:
    int32_t precision_, scale_;
};
class Decimal128Type : public DecimalType {
 public:
    static constexpr Type::type type_id = Type::DECIMAL128;
    static constexpr int32_t kMinPrecision = 1, kMaxPrecision = 38;
    Decimal128Type(int32_t p, int32_t s) : DecimalType(type_id, 16, p, s) {}
    static Result<std::shared_ptr<DataType>> Make(int32_t p, int32_t s);
};
class Decimal256Type : public DecimalType {
 public:
    static constexpr Type::type type_id = Type::DECIMAL256;
    Decimal256Type(int32_t p, int32_t s) : DecimalType(type_id, 32, p, s) {}
};
class TimestampType : public DataType {
 public:
    static constexpr Type::type type_id = Type::TIMESTAMP;
    using Unit = TimeUnit;
    using c_type = int64_t;
    explicit TimestampType(TimeUnit::type u = TimeUnit::MILLI, std::string tz = "") : DataType(type_id), unit_(u), tz_(std::move(tz)) {}
    TimeUnit::type unit() const { return unit_; }
    const std::string& timezone() const { return tz_; }

 private:
    TimeUnit::type unit_;
    std::string tz_;
};
class Time32Type : public DataType {
 public:
    static constexpr Type::type type_id = Type::TIME32;
    using c_type = int32_t;
    explicit Time32Type(TimeUnit::type u = TimeUnit::MILLI) : DataType(type_id), unit_(u) {}
    TimeUnit::type unit() const { return unit_; }

 private:
    TimeUnit::type unit_;
};
class BaseListType : public DataType {
 public:
    using DataType::DataType;
    const std::shared_ptr<Field>& value_field() const { return children_[0]; }
    const std::shared_ptr<DataType>& value_type() const { return children_[0]->type(); }
};
class ListType : public BaseListType {
 public:
    static constexpr Type::type type_id = Type::LIST;
    using offset_type = int32_t;
    explicit ListType(std::shared_ptr<Field> f) : BaseListType(type_id) { children_ = {std::move(f)}; }
    explicit ListType(std::shared_ptr<DataType> t) : ListType(std::make_shared<Field>("item", std::move(t))) {}

 protected:
    ListType(std::shared_ptr<Field> f, Type::type id) : BaseListType(id) { children_ = {std::move(f)}; }
};
class StructType : public DataType {
 public:
    static constexpr Type::type type_id = Type::STRUCT;
    explicit StructType(FieldVector f) : DataType(type_id) { children_ = std::move(f); }
    std::shared_ptr<Field> GetFieldByName(std::string_view name) const { int i = GetFieldIndex(name); return i < 0 ? nullptr : children_[i]; }
    FieldVector GetAllFieldsByName(std::string_view name) const;
    int GetFieldIndex(std::string_view name) const;
    std::vector<int> GetAllFieldIndices(std::string_view name) const;
    Result<std::shared_ptr<StructType>> AddField(int i, const std::shared_ptr<Field>& f) const;
    Result<std::shared_ptr<StructType>> RemoveField(int i) const;
};
class MapType : public ListType {
 public:
    static constexpr Type::type type_id = Type::MAP;
    MapType(std::shared_ptr<DataType> k, std::shared_ptr<DataType> v, bool sorted = false)
        : MapType(std::make_shared<Field>("key", std::move(k), false), std::make_shared<Field>("value", std::move(v)), sorted) {}
    MapType(std::shared_ptr<DataType> k, std::shared_ptr<Field> v, bool sorted = false)
        : MapType(std::make_shared<Field>("key", std::move(k), false), std::move(v), sorted) {}
    MapType(std::shared_ptr<Field> k, std::shared_ptr<Field> v, bool sorted = false)
        : MapType(std::make_shared<Field>("entries", std::make_shared<StructType>(FieldVector{k, v}), false), sorted) {}
    explicit MapType(std::shared_ptr<Field> entries, bool sorted = false) : ListType(std::move(entries), Type::MAP), sorted_(sorted) {}
    std::shared_ptr<Field> key_field() const { return value_type()->field(0); }
    std::shared_ptr<DataType> key_type() const { return key_field()->type(); }
    std::shared_ptr<Field> item_field() const { return value_type()->field(1); }
    std::shared_ptr<DataType> item_type() const { return item_field()->type(); }
    bool keys_sorted() const { return sorted_; }

 private:
    bool sorted_;
};
class DictionaryType : public DataType {
 public:
    static constexpr Type::type type_id = Type::DICTIONARY;
    DictionaryType(std::shared_ptr<DataType> i, std::shared_ptr<DataType> v, bool ordered = false) : DataType(type_id), index_(std::move(i)), value_(std::move(v)), ordered_(ordered) {}
    const std::shared_ptr<DataType>& index_type() const { return index_; }
    const std::shared_ptr<DataType>& value_type() const { return value_; }
    bool ordered() const { return ordered_; }

 private:
    std::shared_ptr<DataType> index_, value_;
    bool ordered_;
};
class UnionType : public DataType {
 public:
    explicit UnionType(FieldVector f) : DataType(Type::SPARSE_UNION) { children_ = std::move(f); }
};

std::shared_ptr<DataType> null();
std::shared_ptr<DataType> boolean();
std::shared_ptr<DataType> int8();
std::shared_ptr<DataType> int16();
std::shared_ptr<DataType> int32();
std::shared_ptr<DataType> int64();
std::shared_ptr<DataType> uint8();
std::shared_ptr<DataType> uint16();
std::shared_ptr<DataType> uint32();
std::shared_ptr<DataType> uint64();
std::shared_ptr<DataType> float32();
std::shared_ptr<DataType> float64();
std::shared_ptr<DataType> utf8();
std::shared_ptr<DataType> large_utf8();
std::shared_ptr<DataType> binary();
std::shared_ptr<DataType> large_binary();
std::shared_ptr<DataType> fixed_size_binary(int32_t w);
std::shared_ptr<DataType> date32();
std::shared_ptr<DataType> date64();
std::shared_ptr<DataType> time32(TimeUnit::type unit);
std::shared_ptr<DataType> timestamp(TimeUnit::type unit);
std::shared_ptr<DataType> timestamp(TimeUnit::type unit, const std::string& tz);
std::shared_ptr<DataType> decimal128(int32_t p, int32_t s);
std::shared_ptr<DataType> decimal256(int32_t p, int32_t s);
std::shared_ptr<DataType> list(const std::shared_ptr<DataType>& t);
std::shared_ptr<DataType> list(const std::shared_ptr<Field>& f);
std::shared_ptr<DataType> map(std::shared_ptr<DataType> k, std::shared_ptr<DataType> v, bool sorted = false);
std::shared_ptr<DataType> map(std::shared_ptr<DataType> k, std::shared_ptr<Field> v, bool sorted = false);
std::shared_ptr<DataType> map(std::shared_ptr<Field> k, std::shared_ptr<Field> v, bool sorted = false);
std::shared_ptr<DataType> struct_(const FieldVector& f);
std::shared_ptr<DataType> struct_(std::initializer_list<std::pair<std::string, std::shared_ptr<DataType>>> f);
std::shared_ptr<DataType> dictionary(const std::shared_ptr<DataType>& i, const std::shared_ptr<DataType>& v, bool ordered = false);
std::shared_ptr<DataType> sparse_union(FieldVector f, std::vector<int8_t> = {});
inline std::shared_ptr<Field> field(std::string name, std::shared_ptr<DataType> type, bool nullable = true, std::shared_ptr<const KeyValueMetadata> md = nullptr) {
    return std::make_shared<Field>(std::move(name), std::move(type), nullable, std::move(md));
}
inline std::shared_ptr<Field> field(std::string name, std::shared_ptr<DataType> type, std::shared_ptr<const KeyValueMetadata> md) {
    return std::make_shared<Field>(std::move(name), std::move(type), true, std::move(md));
}
inline std::shared_ptr<Schema> schema(FieldVector f, std::shared_ptr<const KeyValueMetadata> md = nullptr) { return std::make_shared<Schema>(std::move(f), std::move(md)); }
inline bool is_integer(Type::type t) { return t >= Type::UINT8 && t <= Type::INT64; }
inline bool is_nested(Type::type t) { return t == Type::LIST || t == Type::STRUCT || t == Type::MAP || t == Type::LARGE_LIST; }

// ---------------------------------------------------------------- decimal
enum class DecimalStatus { kSuccess, kDivideByZero, kOverflow, kRescaleDataLoss };
class BasicDecimal128 {
 public:
    static constexpr int kMaxPrecision = 38, kMaxScale = 38, kBitWidth = 128, kByteWidth = 16;
    constexpr BasicDecimal128() : v_(0) {}
    constexpr BasicDecimal128(int64_t high, uint64_t low) : v_((static_cast<unsigned __int128>(static_cast<uint64_t>(high)) << 64) | low) {}
    template <typename T, typename = std::enable_if_t<std::is_integral_v<T>>>
    constexpr BasicDecimal128(T v) : v_(static_cast<unsigned __int128>(static_cast<__int128>(v))) {}
    explicit BasicDecimal128(const uint8_t* bytes) { memcpy(&v_, bytes, 16); }
    int64_t high_bits() const { return static_cast<int64_t>(static_cast<uint64_t>(v_ >> 64)); }
    uint64_t low_bits() const { return static_cast<uint64_t>(v_); }
    __int128 raw() const { return static_cast<__int128>(v_); }
    static BasicDecimal128 FromRaw(__int128 v) { BasicDecimal128 d; d.v_ = static_cast<unsigned __int128>(v); return d; }
    BasicDecimal128& Negate() { v_ = -v_; return *this; }
    BasicDecimal128 operator-() const { return FromRaw(static_cast<__int128>(-v_)); }
    BasicDecimal128& operator+=(const BasicDecimal128& o) { v_ += o.v_; return *this; }
    BasicDecimal128& operator-=(const BasicDecimal128& o) { v_ -= o.v_; return *this; }
    BasicDecimal128& operator*=(const BasicDecimal128& o) { v_ *= o.v_; return *this; }
    BasicDecimal128& operator/=(const BasicDecimal128& o) { v_ = static_cast<unsigned __int128>(raw() / o.raw()); return *this; }
    bool IsNegative() const { return raw() < 0; }
    bool FitsInPrecision(int32_t precision) const;
    static BasicDecimal128 GetScaleMultiplier(int32_t scale);
    static BasicDecimal128 GetMaxSentinel() { return BasicDecimal128(std::numeric_limits<int64_t>::max(), std::numeric_limits<uint64_t>::max()); }
    static BasicDecimal128 GetMinSentinel() { return BasicDecimal128(std::numeric_limits<int64_t>::min(), 0); }
    static BasicDecimal128 GetMaxValue(int32_t precision);
    BasicDecimal128 IncreaseScaleBy(int32_t by) const { return FromRaw(static_cast<__int128>(v_ * GetScaleMultiplier(by).v_)); }
    BasicDecimal128 ReduceScaleBy(int32_t by, bool round = true) const;
    bool operator==(const BasicDecimal128& o) const { return v_ == o.v_; }
    bool operator!=(const BasicDecimal128& o) const { return v_ != o.v_; }
    bool operator<(const BasicDecimal128& o) const { return raw() < o.raw(); }
    bool operator<=(const BasicDecimal128& o) const { return raw() <= o.raw(); }
    bool operator>(const BasicDecimal128& o) const { return raw() > o.raw(); }
    bool operator>=(const BasicDecimal128& o) const { return raw() >= o.raw(); }
    std::array<uint8_t, 16> ToBytes() const { std::array<uint8_t, 16> r; memcpy(r.data(), &v_, 16); return r; }

 protected:
    unsigned __int128 v_;
};
inline BasicDecimal128 operator*(const BasicDecimal128& a, const BasicDecimal128& b) { BasicDecimal128 r = a; return r *= b; }
inline BasicDecimal128 operator+(const BasicDecimal128& a, const BasicDecimal128& b) { BasicDecimal128 r = a; return r += b; }
inline BasicDecimal128 operator-(const BasicDecimal128& a, const BasicDecimal128& b) { BasicDecimal128 r = a; return r -= b; }
inline BasicDecimal128 operator/(const BasicDecimal128& a, const BasicDecimal128& b) { BasicDecimal128 r = a; return r /= b; }

class Decimal128 : public BasicDecimal128 {
 public:
    using BasicDecimal128::BasicDecimal128;
    constexpr Decimal128() = default;
    Decimal128(const BasicDecimal128& b) : BasicDecimal128(b) {}
    explicit Decimal128(const std::string& s);
    std::string ToString(int32_t scale) const;
    std::string ToIntegerString() const;
    static Status FromString(std::string_view s, Decimal128* out, int32_t* precision, int32_t* scale = nullptr);
    static Result<Decimal128> FromString(std::string_view s);
    static Result<Decimal128> FromReal(double real, int32_t precision, int32_t scale);
    static Result<Decimal128> FromReal(float real, int32_t precision, int32_t scale);
    static Result<Decimal128> FromBigEndian(const uint8_t* data, int32_t length);
    Result<Decimal128> Rescale(int32_t original_scale, int32_t new_scale) const;
    template <typename T>
    Result<T> ToInteger() const {
        if (raw() < std::numeric_limits<T>::min() || raw() > std::numeric_limits<T>::max()) return Status::Invalid("Invalid cast from Decimal128 to integer");
        return static_cast<T>(raw());
    }
    float ToFloat(int32_t scale) const;
    double ToDouble(int32_t scale) const;
    template <typename T> T ToReal(int32_t scale) const { return static_cast<T>(ToDouble(scale)); }
};
using Decimal = Decimal128;

// ---------------------------------------------------------------- array data
constexpr int64_t kUnknownNullCount = -1;
struct ArrayData {
    std::shared_ptr<DataType> type;
    int64_t length = 0;
    mutable std::atomic<int64_t> null_count{0};
    int64_t offset = 0;
    std::vector<std::shared_ptr<Buffer>> buffers;
    std::vector<std::shared_ptr<ArrayData>> child_data;
    std::shared_ptr<ArrayData> dictionary;

    ArrayData() = default;
    ArrayData(std::shared_ptr<DataType> t, int64_t len, std::vector<std::shared_ptr<Buffer>> b,
              std::vector<std::shared_ptr<ArrayData>> c = {}, int64_t nulls = kUnknownNullCount, int64_t off = 0)
        : type(std::move(t)), length(len), null_count(nulls), offset(off), buffers(std::move(b)), child_data(std::move(c)) {}
    ArrayData(const ArrayData& o)
        : type(o.type), length(o.length), null_count(o.null_count.load()), offset(o.offset), buffers(o.buffers), child_data(o.child_data), dictionary(o.dictionary) {}
    ArrayData& operator=(const ArrayData& o) {
        type = o.type; length = o.length; null_count = o.null_count.load(); offset = o.offset;
        buffers = o.buffers; child_data = o.child_data; dictionary = o.dictionary;
        return *this;
    }
    static std::shared_ptr<ArrayData> Make(std::shared_ptr<DataType> t, int64_t len, std::vector<std::shared_ptr<Buffer>> b,
                                           int64_t nulls = kUnknownNullCount, int64_t off = 0) {
        return std::make_shared<ArrayData>(std::move(t), len, std::move(b), std::vector<std::shared_ptr<ArrayData>>{}, nulls, off);
    }
    static std::shared_ptr<ArrayData> Make(std::shared_ptr<DataType> t, int64_t len, std::vector<std::shared_ptr<Buffer>> b,
                                           std::vector<std::shared_ptr<ArrayData>> c, int64_t nulls = kUnknownNullCount, int64_t off = 0) {
        return std::make_shared<ArrayData>(std::move(t), len, std::move(b), std::move(c), nulls, off);
    }
    std::shared_ptr<ArrayData> Copy() const { return std::make_shared<ArrayData>(*this); }
    std::shared_ptr<ArrayData> Slice(int64_t off, int64_t len) const;
    template <typename T>
    const T* GetValues(int i) const { return buffers[i] ? reinterpret_cast<const T*>(buffers[i]->data()) + offset : nullptr; }
    int64_t GetNullCount() const;
    void SetNullCount(int64_t n) { null_count = n; }
    bool IsNull(int64_t i) const {
        if (type->id() == Type::NA) return true;
        return !buffers.empty() && buffers[0] && !bit_util::GetBit(buffers[0]->data(), i + offset);
    }
};

class EqualOptions {
 public:
    bool nans_equal() const { return nans_equal_; }
    EqualOptions nans_equal(bool v) const { auto r = *this; r.nans_equal_ = v; return r; }
    std::ostream* diff_sink() const { return sink_; }
    EqualOptions diff_sink(std::ostream* s) const { auto r = *this; r.sink_ = s; return r; }
    static EqualOptions Defaults() { return EqualOptions(); }

 private:
    bool nans_equal_ = false;
    std::ostream* sink_ = nullptr;
};

class Array {
 public:
    virtual ~Array() = default;
    bool IsNull(int64_t i) const { return data_->IsNull(i); }
    bool IsValid(int64_t i) const { return !data_->IsNull(i); }
    int64_t length() const { return data_->length; }
    int64_t offset() const { return data_->offset; }
    int64_t null_count() const { return data_->GetNullCount(); }
    const std::shared_ptr<DataType>& type() const { return data_->type; }
    Type::type type_id() const { return data_->type->id(); }
    const std::shared_ptr<Buffer>& null_bitmap() const { return data_->buffers[0]; }
    const uint8_t* null_bitmap_data() const { return data_->buffers.empty() || !data_->buffers[0] ? nullptr : data_->buffers[0]->data(); }
    const std::shared_ptr<ArrayData>& data() const { return data_; }
    int num_fields() const { return int(data_->child_data.size()); }
    std::shared_ptr<Array> Slice(int64_t off, int64_t len) const;
    std::shared_ptr<Array> Slice(int64_t off) const { return Slice(off, std::max<int64_t>(0, length() - off)); }
    bool Equals(const Array& o, const EqualOptions& opt = EqualOptions::Defaults()) const;
    bool Equals(const std::shared_ptr<Array>& o, const EqualOptions& opt = EqualOptions::Defaults()) const { return o && Equals(*o, opt); }
    bool ApproxEquals(const std::shared_ptr<Array>& o, const EqualOptions& opt = EqualOptions::Defaults()) const { return Equals(o, opt); }
    bool RangeEquals(const Array& o, int64_t start, int64_t end, int64_t other_start) const;
    std::string ToString() const;
    Status Validate() const { return Status::OK(); }
    Status ValidateFull() const { return Status::OK(); }
    Result<std::shared_ptr<Scalar>> GetScalar(int64_t i) const;
    Result<std::shared_ptr<Array>> View(const std::shared_ptr<DataType>& type) const;

 protected:
    std::shared_ptr<ArrayData> data_;
};
std::shared_ptr<Array> MakeArray(const std::shared_ptr<ArrayData>& data);

class FlatArray : public Array {};
class NullArray : public FlatArray {
 public:
    explicit NullArray(const std::shared_ptr<ArrayData>& d) { data_ = d; }
    explicit NullArray(int64_t n) { data_ = ArrayData::Make(null(), n, {nullptr}, n); }
};
class PrimitiveArray : public FlatArray {
 public:
    std::shared_ptr<Buffer> values() const { return data_->buffers[1]; }
};
template <typename T>
class NumericArray : public PrimitiveArray {
 public:
    using TypeClass = T;
    using value_type = typename T::c_type;
    explicit NumericArray(const std::shared_ptr<ArrayData>& d) { data_ = d; }
    NumericArray(std::shared_ptr<DataType> type, int64_t len, const std::shared_ptr<Buffer>& d,
                 const std::shared_ptr<Buffer>& nulls = nullptr, int64_t nc = kUnknownNullCount, int64_t off = 0) {
        data_ = ArrayData::Make(std::move(type), len, {nulls, d}, nc, off);
    }
    template <typename U = T, typename = std::enable_if_t<!std::is_same_v<U, TimestampType>>>
    NumericArray(int64_t len, const std::shared_ptr<Buffer>& d, const std::shared_ptr<Buffer>& nulls = nullptr, int64_t nc = kUnknownNullCount, int64_t off = 0) {
        data_ = ArrayData::Make(std::make_shared<U>(), len, {nulls, d}, nc, off);
    }
    const value_type* raw_values() const { return data_->GetValues<value_type>(1); }
    value_type Value(int64_t i) const { return raw_values()[i]; }
    value_type GetView(int64_t i) const { return Value(i); }
    std::optional<value_type> operator[](int64_t i) const { return IsNull(i) ? std::nullopt : std::optional<value_type>(Value(i)); }
};
class BooleanArray : public PrimitiveArray {
 public:
    using TypeClass = BooleanType;
    explicit BooleanArray(const std::shared_ptr<ArrayData>& d) { data_ = d; }
    bool Value(int64_t i) const { return bit_util::GetBit(data_->buffers[1]->data(), i + data_->offset); }
    bool GetView(int64_t i) const { return Value(i); }
};
using UInt8Array = NumericArray<UInt8Type>;
using Int8Array = NumericArray<Int8Type>;
using UInt16Array = NumericArray<UInt16Type>;
using Int16Array = NumericArray<Int16Type>;
using UInt32Array = NumericArray<UInt32Type>;
using Int32Array = NumericArray<Int32Type>;
using UInt64Array = NumericArray<UInt64Type>;
using Int64Array = NumericArray<Int64Type>;
using FloatArray = NumericArray<FloatType>;
using DoubleArray = NumericArray<DoubleType>;
using Date32Array = NumericArray<Date32Type>;
using Date64Array = NumericArray<Date64Type>;
using TimestampArray = NumericArray<TimestampType>;

template <typename T>
class BaseBinaryArray : public FlatArray {
 public:
    using TypeClass = T;
    using offset_type = typename T::offset_type;
    std::string_view GetView(int64_t i) const {
        const offset_type* o = raw_value_offsets();
        const char* base = data_->buffers[2] ? reinterpret_cast<const char*>(data_->buffers[2]->data()) : "";
        return std::string_view(base + o[i], o[i + 1] - o[i]);
    }
    std::string_view Value(int64_t i) const { return GetView(i); }
    std::string GetString(int64_t i) const { return std::string(GetView(i)); }
    const uint8_t* GetValue(int64_t i, offset_type* len) const {
        auto v = GetView(i);
        *len = offset_type(v.size());
        return reinterpret_cast<const uint8_t*>(v.data());
    }
    const offset_type* raw_value_offsets() const { return data_->GetValues<offset_type>(1); }
    offset_type value_offset(int64_t i) const { return raw_value_offsets()[i]; }
    offset_type value_length(int64_t i) const { return raw_value_offsets()[i + 1] - raw_value_offsets()[i]; }
    offset_type total_values_length() const { return length() ? raw_value_offsets()[length()] - raw_value_offsets()[0] : 0; }
    std::shared_ptr<Buffer> value_offsets() const { return data_->buffers[1]; }
    std::shared_ptr<Buffer> value_data() const { return data_->buffers[2]; }

 protected:
    void Set(std::shared_ptr<DataType> t, int64_t len, const std::shared_ptr<Buffer>& o, const std::shared_ptr<Buffer>& d,
             const std::shared_ptr<Buffer>& nulls, int64_t nc, int64_t off) {
        data_ = ArrayData::Make(std::move(t), len, {nulls, o, d}, nc, off);
    }
};
#define ARROWLITE_BIN(NAME, BASE, TYPE, FACTORY)                                                     \
    class NAME : public BASE {                                                                       \
     public:                                                                                         \
        using TypeClass = TYPE;                                                                      \
        explicit NAME(const std::shared_ptr<ArrayData>& d) { data_ = d; }                            \
        NAME(int64_t len, const std::shared_ptr<Buffer>& o, const std::shared_ptr<Buffer>& d,        \
             const std::shared_ptr<Buffer>& nulls = nullptr, int64_t nc = kUnknownNullCount,         \
             int64_t off = 0) { Set(FACTORY(), len, o, d, nulls, nc, off); }                         \
     protected:                                                                                      \
        NAME() = default;                                                                            \
    };
ARROWLITE_BIN(BinaryArray, BaseBinaryArray<BinaryType>, BinaryType, binary)
ARROWLITE_BIN(StringArray, BinaryArray, StringType, utf8)
ARROWLITE_BIN(LargeBinaryArray, BaseBinaryArray<LargeBinaryType>, LargeBinaryType, large_binary)
ARROWLITE_BIN(LargeStringArray, LargeBinaryArray, LargeStringType, large_utf8)

class FixedSizeBinaryArray : public PrimitiveArray {
 public:
    using TypeClass = FixedSizeBinaryType;
    explicit FixedSizeBinaryArray(const std::shared_ptr<ArrayData>& d) { data_ = d; }
    int32_t byte_width() const { return static_cast<const FixedSizeBinaryType&>(*type()).byte_width(); }
    const uint8_t* GetValue(int64_t i) const { return data_->buffers[1]->data() + (i + data_->offset) * byte_width(); }
    const uint8_t* Value(int64_t i) const { return GetValue(i); }
    std::string_view GetView(int64_t i) const { return std::string_view(reinterpret_cast<const char*>(GetValue(i)), byte_width()); }
};
class DecimalArray : public FixedSizeBinaryArray {
 public:
    using FixedSizeBinaryArray::FixedSizeBinaryArray;
};
class Decimal128Array : public FixedSizeBinaryArray {
 public:
    using TypeClass = Decimal128Type;
    explicit Decimal128Array(const std::shared_ptr<ArrayData>& d) : FixedSizeBinaryArray(d) {}
    std::string FormatValue(int64_t i) const;
};

class ListArray : public Array {
 public:
    using TypeClass = ListType;
    using offset_type = int32_t;
    explicit ListArray(const std::shared_ptr<ArrayData>& d) { Init(d); }
    ListArray(std::shared_ptr<DataType> type, int64_t len, std::shared_ptr<Buffer> offsets, std::shared_ptr<Array> values,
              std::shared_ptr<Buffer> nulls = nullptr, int64_t nc = kUnknownNullCount, int64_t off = 0) {
        Init(ArrayData::Make(std::move(type), len, {nulls, offsets}, {values->data()}, nc, off));
    }
    static Result<std::shared_ptr<ListArray>> FromArrays(const Array& offsets, const Array& values, MemoryPool* pool = nullptr);
    const std::shared_ptr<Array>& values() const { return values_; }
    std::shared_ptr<DataType> value_type() const { return values_->type(); }
    std::shared_ptr<Buffer> value_offsets() const { return data_->buffers[1]; }
    const int32_t* raw_value_offsets() const { return data_->GetValues<int32_t>(1); }
    int32_t value_offset(int64_t i) const { return raw_value_offsets()[i]; }
    int32_t value_length(int64_t i) const { return raw_value_offsets()[i + 1] - raw_value_offsets()[i]; }
    std::shared_ptr<Array> value_slice(int64_t i) const { return values_->Slice(value_offset(i), value_length(i)); }

 protected:
    ListArray() = default;
    void Init(const std::shared_ptr<ArrayData>& d) { data_ = d; values_ = MakeArray(d->child_data[0]); }
    std::shared_ptr<Array> values_;
};
class MapArray : public ListArray {
 public:
    using TypeClass = MapType;
    explicit MapArray(const std::shared_ptr<ArrayData>& d);
    MapArray(const std::shared_ptr<DataType>& type, int64_t len, const std::shared_ptr<Buffer>& offsets, const std::shared_ptr<Array>& keys,
             const std::shared_ptr<Array>& items, const std::shared_ptr<Buffer>& nulls = nullptr, int64_t nc = kUnknownNullCount, int64_t off = 0);
    MapArray(const std::shared_ptr<DataType>& type, int64_t len, const std::shared_ptr<Buffer>& offsets, const std::shared_ptr<Array>& values,
             const std::shared_ptr<Buffer>& nulls = nullptr, int64_t nc = kUnknownNullCount, int64_t off = 0);
    static Result<std::shared_ptr<Array>> FromArrays(const std::shared_ptr<Array>& offsets, const std::shared_ptr<Array>& keys, const std::shared_ptr<Array>& items, MemoryPool* pool = nullptr);
    const std::shared_ptr<Array>& keys() const { return keys_; }
    const std::shared_ptr<Array>& items() const { return items_; }
    const MapType* map_type() const { return static_cast<const MapType*>(data_->type.get()); }

 private:
    std::shared_ptr<Array> keys_, items_;
};
class StructArray : public Array {
 public:
    using TypeClass = StructType;
    explicit StructArray(const std::shared_ptr<ArrayData>& d) { data_ = d; }
    StructArray(const std::shared_ptr<DataType>& type, int64_t len, const ArrayVector& children,
                std::shared_ptr<Buffer> nulls = nullptr, int64_t nc = kUnknownNullCount, int64_t off = 0);
    static Result<std::shared_ptr<StructArray>> Make(const ArrayVector& children, const std::vector<std::string>& names,
                                                     std::shared_ptr<Buffer> nulls = nullptr, int64_t nc = kUnknownNullCount, int64_t off = 0);
    static Result<std::shared_ptr<StructArray>> Make(const ArrayVector& children, const FieldVector& fields,
                                                     std::shared_ptr<Buffer> nulls = nullptr, int64_t nc = kUnknownNullCount, int64_t off = 0);
    const StructType* struct_type() const { return static_cast<const StructType*>(data_->type.get()); }
    const ArrayVector& fields() const;
    const std::shared_ptr<Array>& field(int i) const;
    std::shared_ptr<Array> GetFieldByName(const std::string& name) const;
    Result<ArrayVector> Flatten(MemoryPool* pool = nullptr) const;

 private:
    mutable ArrayVector boxed_;
};
class DictionaryArray : public Array {
 public:
    using TypeClass = DictionaryType;
    explicit DictionaryArray(const std::shared_ptr<ArrayData>& d);
    DictionaryArray(const std::shared_ptr<DataType>& type, const std::shared_ptr<Array>& indices, const std::shared_ptr<Array>& dictionary);
    static Result<std::shared_ptr<Array>> FromArrays(const std::shared_ptr<DataType>& type, const std::shared_ptr<Array>& indices, const std::shared_ptr<Array>& dictionary) {
        return std::static_pointer_cast<Array>(std::make_shared<DictionaryArray>(type, indices, dictionary));
    }
    const std::shared_ptr<Array>& dictionary() const { return dict_; }
    const std::shared_ptr<Array>& indices() const { return indices_; }
    const DictionaryType* dict_type() const { return static_cast<const DictionaryType*>(data_->type.get()); }
    int64_t GetValueIndex(int64_t i) const;

 private:
    std::shared_ptr<Array> indices_, dict_;
};

class ChunkedArray {
 public:
    explicit ChunkedArray(ArrayVector chunks, std::shared_ptr<DataType> type = nullptr);
    explicit ChunkedArray(std::shared_ptr<Array> a) : ChunkedArray(ArrayVector{std::move(a)}) {}
    static Result<std::shared_ptr<ChunkedArray>> Make(ArrayVector chunks, std::shared_ptr<DataType> type = nullptr) {
        if (chunks.empty() && !type) return Status::Invalid("cannot construct ChunkedArray from empty vector and omitted type");
        for (auto& c : chunks) {
            if (type == nullptr) type = c->type();
            if (!c->type()->Equals(*type)) return Status::TypeError("Array chunks must all be same type");
        }
        return std::make_shared<ChunkedArray>(std::move(chunks), std::move(type));
    }
    int64_t length() const { return length_; }
    int64_t null_count() const;
    int num_chunks() const { return int(chunks_.size()); }
    const std::shared_ptr<Array>& chunk(int i) const { return chunks_[i]; }
    const ArrayVector& chunks() const { return chunks_; }
    const std::shared_ptr<DataType>& type() const { return type_; }
    bool Equals(const ChunkedArray& o, const EqualOptions& opt = EqualOptions::Defaults()) const;
    bool Equals(const std::shared_ptr<ChunkedArray>& o, const EqualOptions& opt = EqualOptions::Defaults()) const { return o && Equals(*o, opt); }
    bool ApproxEquals(const ChunkedArray& o, const EqualOptions& opt = EqualOptions::Defaults()) const { return Equals(o, opt); }
    std::shared_ptr<ChunkedArray> Slice(int64_t off, int64_t len) const;
    std::shared_ptr<ChunkedArray> Slice(int64_t off) const { return Slice(off, length_); }
    std::string ToString() const;

 private:
    ArrayVector chunks_;
    std::shared_ptr<DataType> type_;
    int64_t length_ = 0;
};

class RecordBatch {
 public:
    RecordBatch(std::shared_ptr<Schema> s, int64_t n, ArrayVector c) : schema_(std::move(s)), rows_(n), columns_(std::move(c)) {}
    static std::shared_ptr<RecordBatch> Make(std::shared_ptr<Schema> s, int64_t n, ArrayVector c) { return std::make_shared<RecordBatch>(std::move(s), n, std::move(c)); }
    static Result<std::shared_ptr<RecordBatch>> FromStructArray(const std::shared_ptr<Array>& a, MemoryPool* = nullptr);
    Result<std::shared_ptr<StructArray>> ToStructArray() const;
    const std::shared_ptr<Schema>& schema() const { return schema_; }
    int64_t num_rows() const { return rows_; }
    int num_columns() const { return int(columns_.size()); }
    const std::shared_ptr<Array>& column(int i) const { return columns_[i]; }
    const ArrayVector& columns() const { return columns_; }

 private:
    std::shared_ptr<Schema> schema_;
    int64_t rows_;
    ArrayVector columns_;
};

// ---------------------------------------------------------------- builders
class ArrayBuilder {
 public:
    explicit ArrayBuilder(std::shared_ptr<DataType> type, MemoryPool* pool) : type_(std::move(type)), pool_(pool ? pool : default_memory_pool()), valid_(pool_) {}
    virtual ~ArrayBuilder() = default;
    virtual std::shared_ptr<DataType> type() const { return type_; }
    ArrayBuilder* child(int i) { return children_[i].get(); }
    ArrayBuilder* child_builder_ptr(int i) const { return children_[i].get(); }
    const std::shared_ptr<ArrayBuilder>& child_builder(int i) const { return children_[i]; }
    int num_children() const { return int(children_.size()); }
    virtual int64_t length() const { return length_; }
    int64_t null_count() const { return null_count_; }
    virtual int64_t capacity() const { return capacity_; }
    virtual Status Resize(int64_t capacity) { capacity_ = std::max(capacity, length_); return Status::OK(); }
    Status Reserve(int64_t more) { return length_ + more > capacity_ ? Resize(std::max(length_ + more, capacity_ * 2)) : Status::OK(); }
    virtual void Reset() {
        length_ = null_count_ = capacity_ = 0;
        valid_.Reset();
        for (auto& c : children_) c->Reset();
    }
    virtual Status AppendNull() = 0;
    virtual Status AppendNulls(int64_t n) { for (int64_t i = 0; i < n; i++) ARROW_RETURN_NOT_OK(AppendNull()); return Status::OK(); }
    virtual Status AppendEmptyValue() = 0;
    virtual Status AppendEmptyValues(int64_t n) { for (int64_t i = 0; i < n; i++) ARROW_RETURN_NOT_OK(AppendEmptyValue()); return Status::OK(); }
    Status AppendScalar(const Scalar& s);
    virtual Status AppendArraySlice(const ArrayData& a, int64_t off, int64_t len);
    virtual Status FinishInternal(std::shared_ptr<ArrayData>* out) = 0;
    Result<std::shared_ptr<Array>> Finish() {
        std::shared_ptr<ArrayData> d;
        ARROW_RETURN_NOT_OK(FinishInternal(&d));
        Reset();
        return MakeArray(d);
    }
    Status Finish(std::shared_ptr<Array>* out) { return Finish().Value(out); }
    MemoryPool* pool() const { return pool_; }

 protected:
    Status AppendValid(bool v) {
        if (length_ % 8 == 0) ARROW_RETURN_NOT_OK(valid_.Append(uint8_t(0)));
        if (v) bit_util::SetBit(valid_.mutable_data(), length_);
        else null_count_++;
        length_++;
        if (length_ > capacity_) capacity_ = length_;
        return Status::OK();
    }
    Status FinishValid(std::shared_ptr<Buffer>* out) {
        if (null_count_ == 0) { out->reset(); return Status::OK(); }
        return valid_.Finish(out);
    }
    std::shared_ptr<DataType> type_;
    MemoryPool* pool_;
    TypedBufferBuilder<uint8_t> valid_;
    int64_t length_ = 0, null_count_ = 0, capacity_ = 0;
    std::vector<std::shared_ptr<ArrayBuilder>> children_;
};

class NullBuilder : public ArrayBuilder {
 public:
    explicit NullBuilder(MemoryPool* pool = nullptr) : ArrayBuilder(null(), pool) {}
    NullBuilder(const std::shared_ptr<DataType>&, MemoryPool* pool) : NullBuilder(pool) {}
    Status AppendNull() override { length_++; null_count_++; return Status::OK(); }
    Status AppendEmptyValue() override { return AppendNull(); }
    Status FinishInternal(std::shared_ptr<ArrayData>* out) override { *out = ArrayData::Make(null(), length_, {nullptr}, length_); return Status::OK(); }
};

template <typename T>
class NumericBuilder : public ArrayBuilder {
 public:
    using TypeClass = T;
    using value_type = typename T::c_type;
    template <typename U = T, typename = std::enable_if_t<!std::is_same_v<U, TimestampType>>>
    explicit NumericBuilder(MemoryPool* pool = default_memory_pool()) : ArrayBuilder(std::make_shared<U>(), pool), data_(pool_) {}
    NumericBuilder(const std::shared_ptr<DataType>& type, MemoryPool* pool) : ArrayBuilder(type, pool), data_(pool_) {}
    Status Append(value_type v) { ARROW_RETURN_NOT_OK(data_.Append(v)); return AppendValid(true); }
    void UnsafeAppend(value_type v) { (void)Append(v); }
    void UnsafeAppendNull() { (void)AppendNull(); }
    Status AppendNull() override { ARROW_RETURN_NOT_OK(data_.Append(value_type())); return AppendValid(false); }
    Status AppendEmptyValue() override { return Append(value_type()); }
    Status AppendValues(const value_type* v, int64_t n, const uint8_t* valid = nullptr) {
        for (int64_t i = 0; i < n; i++) {
            if (valid && !valid[i]) ARROW_RETURN_NOT_OK(AppendNull());
            else ARROW_RETURN_NOT_OK(Append(v[i]));
        }
        return Status::OK();
    }
    Status AppendValues(const std::vector<value_type>& v) { return AppendValues(v.data(), v.size()); }
    Status AppendValues(const std::vector<value_type>& v, const std::vector<bool>& valid) {
        for (size_t i = 0; i < v.size(); i++) ARROW_RETURN_NOT_OK(valid[i] ? Append(v[i]) : AppendNull());
        return Status::OK();
    }
    value_type GetValue(int64_t i) const { return data_.data()[i]; }
    value_type operator[](int64_t i) const { return GetValue(i); }
    void Reset() override { ArrayBuilder::Reset(); data_.Reset(); }
    Status FinishInternal(std::shared_ptr<ArrayData>* out) override {
        std::shared_ptr<Buffer> v, d;
        int64_t n = null_count_;
        ARROW_RETURN_NOT_OK(FinishValid(&v));
        ARROW_RETURN_NOT_OK(data_.Finish(&d));
        *out = ArrayData::Make(type_, length_, {v, d}, n);
        return Status::OK();
    }

 private:
    TypedBufferBuilder<value_type> data_;
};
using UInt8Builder = NumericBuilder<UInt8Type>;
using Int8Builder = NumericBuilder<Int8Type>;
using UInt16Builder = NumericBuilder<UInt16Type>;
using Int16Builder = NumericBuilder<Int16Type>;
using UInt32Builder = NumericBuilder<UInt32Type>;
using Int32Builder = NumericBuilder<Int32Type>;
using UInt64Builder = NumericBuilder<UInt64Type>;
using Int64Builder = NumericBuilder<Int64Type>;
using FloatBuilder = NumericBuilder<FloatType>;
using DoubleBuilder = NumericBuilder<DoubleType>;
using Date32Builder = NumericBuilder<Date32Type>;
using Date64Builder = NumericBuilder<Date64Type>;
using TimestampBuilder = NumericBuilder<TimestampType>;

class BooleanBuilder : public ArrayBuilder {
 public:
    using TypeClass = BooleanType;
    using value_type = bool;
    explicit BooleanBuilder(MemoryPool* pool = default_memory_pool()) : ArrayBuilder(boolean(), pool), data_(pool_) {}
    BooleanBuilder(const std::shared_ptr<DataType>& type, MemoryPool* pool) : ArrayBuilder(type, pool), data_(pool_) {}
    Status Append(bool v) { ARROW_RETURN_NOT_OK(Bit(v)); return AppendValid(true); }
    void UnsafeAppend(bool v) { (void)Append(v); }
    Status AppendNull() override { ARROW_RETURN_NOT_OK(Bit(false)); return AppendValid(false); }
    Status AppendEmptyValue() override { return Append(false); }
    Status AppendValues(const std::vector<bool>& v) { for (bool b : v) ARROW_RETURN_NOT_OK(Append(b)); return Status::OK(); }
    Status AppendValues(const std::vector<bool>& v, const std::vector<bool>& valid) {
        for (size_t i = 0; i < v.size(); i++) ARROW_RETURN_NOT_OK(valid[i] ? Append(v[i]) : AppendNull());
        return Status::OK();
    }
    void Reset() override { ArrayBuilder::Reset(); data_.Reset(); }
    Status FinishInternal(std::shared_ptr<ArrayData>* out) override;

 private:
    Status Bit(bool v) {
        if (length_ % 8 == 0) ARROW_RETURN_NOT_OK(data_.Append(uint8_t(0)));
        if (v) bit_util::SetBit(data_.mutable_data(), length_);
        return Status::OK();
    }
    TypedBufferBuilder<uint8_t> data_;
};

template <typename T>
class BaseBinaryBuilder : public ArrayBuilder {
 public:
    using TypeClass = T;
    using offset_type = typename T::offset_type;
    explicit BaseBinaryBuilder(MemoryPool* pool = default_memory_pool()) : ArrayBuilder(std::make_shared<T>(), pool), offsets_(pool_), data_(pool_) {}
    BaseBinaryBuilder(const std::shared_ptr<DataType>& type, MemoryPool* pool) : ArrayBuilder(type, pool), offsets_(pool_), data_(pool_) {}
    Status Append(const char* d, offset_type n) { return Append(std::string_view(d, n)); }
    Status Append(const uint8_t* d, offset_type n) { return Append(std::string_view(reinterpret_cast<const char*>(d), n)); }
    Status Append(std::string_view v) {
        ARROW_RETURN_NOT_OK(offsets_.Append(offset_type(data_.length())));
        ARROW_RETURN_NOT_OK(data_.Append(v));
        return AppendValid(true);
    }
    Status Append(const char* s) { return Append(std::string_view(s)); }
    Status Append(const std::string& s) { return Append(std::string_view(s)); }
    void UnsafeAppend(std::string_view v) { (void)Append(v); }
    Status AppendNull() override { ARROW_RETURN_NOT_OK(offsets_.Append(offset_type(data_.length()))); return AppendValid(false); }
    void UnsafeAppendNull() { (void)AppendNull(); }
    Status AppendEmptyValue() override { return Append(std::string_view()); }
    Status AppendValues(const std::vector<std::string>& v, const uint8_t* valid = nullptr) {
        for (size_t i = 0; i < v.size(); i++) ARROW_RETURN_NOT_OK(valid && !valid[i] ? AppendNull() : Append(v[i]));
        return Status::OK();
    }
    Status ReserveData(int64_t n) { return data_.Reserve(n); }
    int64_t value_data_length() const { return data_.length(); }
    std::string_view GetView(int64_t i) const {
        offset_type o = offsets_.data()[i], e = i + 1 < length_ ? offsets_.data()[i + 1] : offset_type(data_.length());
        return std::string_view(reinterpret_cast<const char*>(data_.data()) + o, e - o);
    }
    void Reset() override { ArrayBuilder::Reset(); data_.Reset(); offsets_.Reset(); }
    Status FinishInternal(std::shared_ptr<ArrayData>* out) override {
        std::shared_ptr<Buffer> v, o, d;
        int64_t n = null_count_;
        ARROW_RETURN_NOT_OK(offsets_.Append(offset_type(data_.length())));
        ARROW_RETURN_NOT_OK(FinishValid(&v));
        ARROW_RETURN_NOT_OK(offsets_.Finish(&o));
        ARROW_RETURN_NOT_OK(data_.Finish(&d));
        *out = ArrayData::Make(type_, length_, {v, o, d}, n);
        return Status::OK();
    }

 private:
    TypedBufferBuilder<offset_type> offsets_;
    BufferBuilder data_;
};
class BinaryBuilder : public BaseBinaryBuilder<BinaryType> { public: using BaseBinaryBuilder::BaseBinaryBuilder; };
class StringBuilder : public BinaryBuilder {
 public:
    explicit StringBuilder(MemoryPool* pool = default_memory_pool()) : BinaryBuilder(utf8(), pool) {}
    StringBuilder(const std::shared_ptr<DataType>& t, MemoryPool* pool) : BinaryBuilder(t, pool) {}
};
class LargeBinaryBuilder : public BaseBinaryBuilder<LargeBinaryType> { public: using BaseBinaryBuilder::BaseBinaryBuilder; };
class LargeStringBuilder : public LargeBinaryBuilder {
 public:
    explicit LargeStringBuilder(MemoryPool* pool = default_memory_pool()) : LargeBinaryBuilder(large_utf8(), pool) {}
    LargeStringBuilder(const std::shared_ptr<DataType>& t, MemoryPool* pool) : LargeBinaryBuilder(t, pool) {}
};
class FixedSizeBinaryBuilder : public ArrayBuilder {
 public:
    FixedSizeBinaryBuilder(const std::shared_ptr<DataType>& type, MemoryPool* pool = nullptr)
        : ArrayBuilder(type, pool), width_(static_cast<const FixedSizeBinaryType&>(*type).byte_width()), data_(pool_) {}
    Status Append(const uint8_t* v) { ARROW_RETURN_NOT_OK(data_.Append(v, width_)); return AppendValid(true); }
    Status AppendNull() override { std::string z(width_, 0); ARROW_RETURN_NOT_OK(data_.Append(z.data(), width_)); return AppendValid(false); }
    Status AppendEmptyValue() override { std::string z(width_, 0); return Append(reinterpret_cast<const uint8_t*>(z.data())); }
    void Reset() override { ArrayBuilder::Reset(); data_.Reset(); }
    Status FinishInternal(std::shared_ptr<ArrayData>* out) override {
        std::shared_ptr<Buffer> v, d;
        int64_t n = null_count_;
        ARROW_RETURN_NOT_OK(FinishValid(&v));
        ARROW_RETURN_NOT_OK(data_.Finish(&d));
        *out = ArrayData::Make(type_, length_, {v, d}, n);
        return Status::OK();
    }

 protected:
    int32_t width_;
    BufferBuilder data_;
};
class Decimal128Builder : public FixedSizeBinaryBuilder {
 public:
    using TypeClass = Decimal128Type;
    using FixedSizeBinaryBuilder::FixedSizeBinaryBuilder;
    using FixedSizeBinaryBuilder::Append;
    Status Append(const Decimal128& v) { auto b = v.ToBytes(); return FixedSizeBinaryBuilder::Append(b.data()); }
};

class ListBuilder : public ArrayBuilder {
 public:
    using TypeClass = ListType;
    ListBuilder(MemoryPool* pool, const std::shared_ptr<ArrayBuilder>& values, const std::shared_ptr<DataType>& type = nullptr)
        : ArrayBuilder(type ? type : list(values->type()), pool), offsets_(pool_) { children_ = {values}; }
    Status Append(bool valid = true) { ARROW_RETURN_NOT_OK(offsets_.Append(int32_t(children_[0]->length()))); return AppendValid(valid); }
    Status AppendNull() override { return Append(false); }
    Status AppendEmptyValue() override { return Append(true); }
    ArrayBuilder* value_builder() const { return children_[0].get(); }
    void Reset() override { ArrayBuilder::Reset(); offsets_.Reset(); }
    Status FinishInternal(std::shared_ptr<ArrayData>* out) override;

 protected:
    TypedBufferBuilder<int32_t> offsets_;
};
class StructBuilder : public ArrayBuilder {
 public:
    using TypeClass = StructType;
    StructBuilder(const std::shared_ptr<DataType>& type, MemoryPool* pool, std::vector<std::shared_ptr<ArrayBuilder>> fields) : ArrayBuilder(type, pool) { children_ = std::move(fields); }
    Status Append(bool valid = true) { return AppendValid(valid); }
    Status AppendNull() override {
        for (auto& c : children_) ARROW_RETURN_NOT_OK(c->AppendEmptyValue());
        return Append(false);
    }
    Status AppendEmptyValue() override {
        for (auto& c : children_) ARROW_RETURN_NOT_OK(c->AppendEmptyValue());
        return Append(true);
    }
    Status AppendValues(int64_t n, const uint8_t* valid) {
        for (int64_t i = 0; i < n; i++) ARROW_RETURN_NOT_OK(AppendValid(!valid || valid[i]));
        return Status::OK();
    }
    ArrayBuilder* field_builder(int i) const { return children_[i].get(); }
    int num_fields() const { return int(children_.size()); }
    Status FinishInternal(std::shared_ptr<ArrayData>* out) override;
};
class MapBuilder : public ArrayBuilder {
 public:
    using TypeClass = MapType;
    MapBuilder(MemoryPool* pool, const std::shared_ptr<ArrayBuilder>& k, const std::shared_ptr<ArrayBuilder>& v, const std::shared_ptr<DataType>& type = nullptr)
        : ArrayBuilder(type ? type : map(k->type(), v->type()), pool), offsets_(pool_) { children_ = {k, v}; }
    Status Append() { ARROW_RETURN_NOT_OK(offsets_.Append(int32_t(children_[0]->length()))); return AppendValid(true); }
    Status AppendNull() override { ARROW_RETURN_NOT_OK(offsets_.Append(int32_t(children_[0]->length()))); return AppendValid(false); }
    Status AppendEmptyValue() override { return Append(); }
    ArrayBuilder* key_builder() const { return children_[0].get(); }
    ArrayBuilder* item_builder() const { return children_[1].get(); }
    void Reset() override { ArrayBuilder::Reset(); offsets_.Reset(); }
    Status FinishInternal(std::shared_ptr<ArrayData>* out) override;

 private:
    TypedBufferBuilder<int32_t> offsets_;
};
Status MakeBuilder(MemoryPool* pool, const std::shared_ptr<DataType>& type, std::unique_ptr<ArrayBuilder>* out);
Result<std::unique_ptr<ArrayBuilder>> MakeBuilder(const std::shared_ptr<DataType>& type, MemoryPool* pool = default_memory_pool());

// ---------------------------------------------------------------- scalars
struct Scalar : std::enable_shared_from_this<Scalar> {
    virtual ~Scalar() = default;
    std::shared_ptr<DataType> type;
    bool is_valid = false;
    Scalar(std::shared_ptr<DataType> t, bool v) : type(std::move(t)), is_valid(v) {}
    std::string ToString() const;
    bool Equals(const Scalar& o) const;
};
struct NullScalar : Scalar { NullScalar() : Scalar(null(), false) {} };
template <typename T>
struct NumericScalar : Scalar {
    using TypeClass = T;
    using ValueType = typename T::c_type;
    ValueType value{};
    const void* data() const { return &value; }
    void* mutable_data() { return &value; }
    NumericScalar(ValueType v, std::shared_ptr<DataType> t) : Scalar(std::move(t), true), value(v) {}
    template <typename U = T, typename = std::enable_if_t<!std::is_same_v<U, TimestampType>>>
    explicit NumericScalar(ValueType v) : Scalar(std::make_shared<U>(), true), value(v) {}
    template <typename U = T, typename = std::enable_if_t<!std::is_same_v<U, TimestampType>>>
    NumericScalar() : Scalar(std::make_shared<U>(), false) {}
    explicit NumericScalar(std::shared_ptr<DataType> t) : Scalar(std::move(t), false) {}
    template <typename U = T, typename = std::enable_if_t<std::is_same_v<U, TimestampType>>>
    NumericScalar(ValueType v, TimeUnit::type unit, std::string tz = "") : NumericScalar(v, timestamp(unit, tz)) {}
};
using Int8Scalar = NumericScalar<Int8Type>;
using Int16Scalar = NumericScalar<Int16Type>;
using Int32Scalar = NumericScalar<Int32Type>;
using Int64Scalar = NumericScalar<Int64Type>;
using UInt8Scalar = NumericScalar<UInt8Type>;
using UInt16Scalar = NumericScalar<UInt16Type>;
using UInt32Scalar = NumericScalar<UInt32Type>;
using UInt64Scalar = NumericScalar<UInt64Type>;
using FloatScalar = NumericScalar<FloatType>;
using DoubleScalar = NumericScalar<DoubleType>;
using Date32Scalar = NumericScalar<Date32Type>;
using TimestampScalar = NumericScalar<TimestampType>;
struct BooleanScalar : Scalar {
    using TypeClass = BooleanType;
    bool value = false;
    const void* data() const { return &value; }
    explicit BooleanScalar(bool v, std::shared_ptr<DataType> t = boolean()) : Scalar(std::move(t), true), value(v) {}
    BooleanScalar() : Scalar(boolean(), false) {}
};
struct BaseBinaryScalar : Scalar {
    std::shared_ptr<Buffer> value;
    BaseBinaryScalar(std::shared_ptr<Buffer> v, std::shared_ptr<DataType> t) : Scalar(std::move(t), v != nullptr), value(std::move(v)) {}
    std::string_view view() const { return value ? std::string_view(*value) : std::string_view(); }
};
struct BinaryScalar : BaseBinaryScalar {
    using TypeClass = BinaryType;
    explicit BinaryScalar(std::shared_ptr<Buffer> v, std::shared_ptr<DataType> t = binary()) : BaseBinaryScalar(std::move(v), std::move(t)) {}
    explicit BinaryScalar(std::string s) : BinaryScalar(Buffer::FromString(std::move(s))) {}
    BinaryScalar(std::string s, std::shared_ptr<DataType> t) : BinaryScalar(Buffer::FromString(std::move(s)), std::move(t)) {}
};
struct StringScalar : BinaryScalar {
    using TypeClass = StringType;
    explicit StringScalar(std::shared_ptr<Buffer> v, std::shared_ptr<DataType> t = utf8()) : BinaryScalar(std::move(v), std::move(t)) {}
    explicit StringScalar(std::string s) : BinaryScalar(Buffer::FromString(std::move(s)), utf8()) {}
    StringScalar(std::string s, std::shared_ptr<DataType> t) : BinaryScalar(Buffer::FromString(std::move(s)), std::move(t)) {}
};
struct LargeBinaryScalar : BinaryScalar {
    explicit LargeBinaryScalar(std::shared_ptr<Buffer> v) : BinaryScalar(std::move(v), large_binary()) {}
};
struct Decimal128Scalar : Scalar {
    using TypeClass = Decimal128Type;
    Decimal128 value;
    Decimal128Scalar(Decimal128 v, std::shared_ptr<DataType> t) : Scalar(std::move(t), true), value(v) {}
};
// Any nested or dictionary value: a one-element array.
struct BoxedScalar : Scalar {
    std::shared_ptr<Array> value;
    BoxedScalar(std::shared_ptr<Array> v, bool valid) : Scalar(v->type(), valid), value(std::move(v)) {}
};
template <typename T>
std::shared_ptr<Scalar> MakeScalarOf(T v);
inline std::shared_ptr<Scalar> MakeScalar(bool v) { return std::make_shared<BooleanScalar>(v); }
inline std::shared_ptr<Scalar> MakeScalar(int8_t v) { return std::make_shared<Int8Scalar>(v); }
inline std::shared_ptr<Scalar> MakeScalar(int16_t v) { return std::make_shared<Int16Scalar>(v); }
inline std::shared_ptr<Scalar> MakeScalar(int32_t v) { return std::make_shared<Int32Scalar>(v); }
inline std::shared_ptr<Scalar> MakeScalar(int64_t v) { return std::make_shared<Int64Scalar>(v); }
inline std::shared_ptr<Scalar> MakeScalar(float v) { return std::make_shared<FloatScalar>(v); }
inline std::shared_ptr<Scalar> MakeScalar(double v) { return std::make_shared<DoubleScalar>(v); }
inline std::shared_ptr<Scalar> MakeScalar(std::string v) { return std::make_shared<StringScalar>(std::move(v)); }
std::shared_ptr<Scalar> MakeNullScalar(std::shared_ptr<DataType> type);

Result<std::shared_ptr<Array>> MakeArrayFromScalar(const Scalar& s, int64_t n, MemoryPool* pool = default_memory_pool());
Result<std::shared_ptr<Array>> MakeArrayOfNull(const std::shared_ptr<DataType>& type, int64_t n, MemoryPool* pool = default_memory_pool());
Result<std::shared_ptr<Array>> MakeEmptyArray(std::shared_ptr<DataType> type, MemoryPool* pool = default_memory_pool());
Result<std::shared_ptr<Array>> Concatenate(const ArrayVector& arrays, MemoryPool* pool = default_memory_pool());

struct Datum {
    std::variant<std::monostate, std::shared_ptr<Scalar>, std::shared_ptr<ArrayData>, std::shared_ptr<ChunkedArray>> value;
    enum Kind { NONE, SCALAR, ARRAY, CHUNKED_ARRAY };
    Datum() = default;
    Datum(std::shared_ptr<Scalar> s) : value(std::move(s)) {}
    Datum(std::shared_ptr<ArrayData> a) : value(std::move(a)) {}
    Datum(const Array& a) : value(a.data()) {}
    Datum(const std::shared_ptr<Array>& a) : value(a->data()) {}
    Datum(std::shared_ptr<ChunkedArray> a) : value(std::move(a)) {}
    template <typename T, typename = std::enable_if_t<std::is_base_of_v<Array, T> || std::is_base_of_v<Scalar, T>>>
    Datum(const std::shared_ptr<T>& v) {
        if constexpr (std::is_base_of_v<Array, T>) value = v->data();
        else value = std::static_pointer_cast<Scalar>(v);
    }
    Kind kind() const { return Kind(value.index()); }
    bool is_array() const { return kind() == ARRAY; }
    bool is_scalar() const { return kind() == SCALAR; }
    const std::shared_ptr<Scalar>& scalar() const { return std::get<1>(value); }
    template <typename T> std::shared_ptr<T> scalar_as_ptr() const { return std::static_pointer_cast<T>(scalar()); }
    template <typename T> const T& scalar_as() const { return static_cast<const T&>(*scalar()); }
    const std::shared_ptr<ArrayData>& array() const { return std::get<2>(value); }
    template <typename T> std::shared_ptr<T> array_as() const { return std::static_pointer_cast<T>(MakeArray(array())); }
    std::shared_ptr<Array> make_array() const { return MakeArray(array()); }
    const std::shared_ptr<ChunkedArray>& chunked_array() const { return std::get<3>(value); }
    std::shared_ptr<DataType> type() const;
};

// ---------------------------------------------------------------- type traits
template <typename T> struct TypeTraits {};
template <typename T> struct CTypeTraits {};
#define ARROWLITE_TRAITS(T, A, B, S, F)                         \
    template <> struct TypeTraits<T> {                          \
        using ArrayType = A;                                    \
        using BuilderType = B;                                  \
        using ScalarType = S;                                   \
        static std::shared_ptr<DataType> type_singleton() { return F(); } \
    };
#define ARROWLITE_CTRAITS(T, A, B, S, F)                        \
    template <> struct TypeTraits<T> {                          \
        using ArrayType = A;                                    \
        using BuilderType = B;                                  \
        using ScalarType = S;                                   \
        using CType = T::c_type;                                \
        static std::shared_ptr<DataType> type_singleton() { return F(); } \
    };
ARROWLITE_CTRAITS(BooleanType, BooleanArray, BooleanBuilder, BooleanScalar, boolean)
ARROWLITE_CTRAITS(Int8Type, Int8Array, Int8Builder, Int8Scalar, int8)
ARROWLITE_CTRAITS(Int16Type, Int16Array, Int16Builder, Int16Scalar, int16)
ARROWLITE_CTRAITS(Int32Type, Int32Array, Int32Builder, Int32Scalar, int32)
ARROWLITE_CTRAITS(Int64Type, Int64Array, Int64Builder, Int64Scalar, int64)
ARROWLITE_CTRAITS(UInt8Type, UInt8Array, UInt8Builder, UInt8Scalar, uint8)
ARROWLITE_CTRAITS(UInt16Type, UInt16Array, UInt16Builder, UInt16Scalar, uint16)
ARROWLITE_CTRAITS(UInt32Type, UInt32Array, UInt32Builder, UInt32Scalar, uint32)
ARROWLITE_CTRAITS(UInt64Type, UInt64Array, UInt64Builder, UInt64Scalar, uint64)
ARROWLITE_CTRAITS(FloatType, FloatArray, FloatBuilder, FloatScalar, float32)
ARROWLITE_CTRAITS(DoubleType, DoubleArray, DoubleBuilder, DoubleScalar, float64)
ARROWLITE_CTRAITS(Date32Type, Date32Array, Date32Builder, Date32Scalar, date32)
ARROWLITE_TRAITS(StringType, StringArray, StringBuilder, StringScalar, utf8)
ARROWLITE_TRAITS(BinaryType, BinaryArray, BinaryBuilder, BinaryScalar, binary)
ARROWLITE_TRAITS(LargeStringType, LargeStringArray, LargeStringBuilder, StringScalar, large_utf8)
ARROWLITE_TRAITS(LargeBinaryType, LargeBinaryArray, LargeBinaryBuilder, LargeBinaryScalar, large_binary)
template <> struct TypeTraits<TimestampType> {
    using ArrayType = TimestampArray;
    using BuilderType = TimestampBuilder;
    using ScalarType = TimestampScalar;
    using CType = int64_t;
};
template <> struct TypeTraits<Decimal128Type> {
    using ArrayType = Decimal128Array;
    using BuilderType = Decimal128Builder;
    using ScalarType = Decimal128Scalar;
    using CType = Decimal128;
};
template <> struct TypeTraits<ListType> { using ArrayType = ListArray; using BuilderType = ListBuilder; };
template <> struct TypeTraits<MapType> { using ArrayType = MapArray; using BuilderType = MapBuilder; };
template <> struct TypeTraits<StructType> { using ArrayType = StructArray; using BuilderType = StructBuilder; };

struct TypeHolder {
    const DataType* type = nullptr;
    std::shared_ptr<DataType> owned_type;
    TypeHolder() = default;
    TypeHolder(const DataType* t) : type(t) {}
    TypeHolder(std::shared_ptr<DataType> t) : type(t.get()), owned_type(std::move(t)) {}
    std::shared_ptr<DataType> GetSharedPtr() const { return owned_type ? owned_type : type->GetSharedPtr(); }
};

// ---------------------------------------------------------------- C data interface
Status ExportType(const DataType& type, struct ArrowSchema* out);
Status ExportField(const Field& field, struct ArrowSchema* out);
Status ExportSchema(const Schema& schema, struct ArrowSchema* out);
Status ExportArray(const Array& array, struct ArrowArray* out, struct ArrowSchema* out_schema = nullptr);
Result<std::shared_ptr<DataType>> ImportType(struct ArrowSchema* schema);
Result<std::shared_ptr<Field>> ImportField(struct ArrowSchema* schema);
Result<std::shared_ptr<Schema>> ImportSchema(struct ArrowSchema* schema);
Result<std::shared_ptr<Array>> ImportArray(struct ArrowArray* array, std::shared_ptr<DataType> type);
Result<std::shared_ptr<Array>> ImportArray(struct ArrowArray* array, struct ArrowSchema* type);

// ---------------------------------------------------------------- compute
namespace compute {
class ExecContext {
 public:
    explicit ExecContext(MemoryPool* pool = default_memory_pool()) : pool_(pool) {}
    MemoryPool* memory_pool() const { return pool_; }

 private:
    MemoryPool* pool_;
};
struct FunctionOptions { virtual ~FunctionOptions() = default; };
struct CastOptions : FunctionOptions {
    explicit CastOptions(bool safe = true)
        : allow_int_overflow(!safe), allow_time_truncate(!safe), allow_time_overflow(!safe), allow_decimal_truncate(!safe),
          allow_float_truncate(!safe), allow_invalid_utf8(!safe) {}
    static CastOptions Safe(TypeHolder t = {}) { CastOptions o(true); o.to_type = t; return o; }
    static CastOptions Unsafe(TypeHolder t = {}) { CastOptions o(false); o.to_type = t; return o; }
    TypeHolder to_type;
    bool allow_int_overflow, allow_time_truncate, allow_time_overflow, allow_decimal_truncate, allow_float_truncate, allow_invalid_utf8;
};
bool CanCast(const DataType& from, const DataType& to);
Result<std::shared_ptr<Array>> Cast(const Array& value, const TypeHolder& to, const CastOptions& options = CastOptions::Safe(), ExecContext* ctx = nullptr);
Result<Datum> Cast(const Datum& value, const TypeHolder& to, const CastOptions& options = CastOptions::Safe(), ExecContext* ctx = nullptr);
struct AssumeTimezoneOptions : FunctionOptions {
    enum Ambiguous { AMBIGUOUS_RAISE, AMBIGUOUS_EARLIEST, AMBIGUOUS_LATEST };
    enum Nonexistent { NONEXISTENT_RAISE, NONEXISTENT_EARLIEST, NONEXISTENT_LATEST };
    explicit AssumeTimezoneOptions(std::string tz, Ambiguous a = AMBIGUOUS_RAISE, Nonexistent n = NONEXISTENT_RAISE) : timezone(std::move(tz)), ambiguous(a), nonexistent(n) {}
    std::string timezone;
    Ambiguous ambiguous;
    Nonexistent nonexistent;
};
Result<Datum> AssumeTimezone(const Datum& values, AssumeTimezoneOptions options, ExecContext* ctx = nullptr);
Result<Datum> LocalTimestamp(const Datum& values, ExecContext* ctx = nullptr);
enum class SortOrder { Ascending, Descending };
enum class NullPlacement { AtStart, AtEnd };
struct SortKey {
    explicit SortKey(std::string name, SortOrder o = SortOrder::Ascending) : target(std::move(name)), order(o) {}
    std::string target;
    SortOrder order;
};
struct SortOptions : FunctionOptions {
    explicit SortOptions(std::vector<SortKey> k = {}, NullPlacement n = NullPlacement::AtEnd) : sort_keys(std::move(k)), null_placement(n) {}
    std::vector<SortKey> sort_keys;
    NullPlacement null_placement;
};
Result<std::shared_ptr<Array>> SortIndices(const Datum& values, const SortOptions& options, ExecContext* ctx = nullptr);
struct TakeOptions : FunctionOptions {
    explicit TakeOptions(bool b = true) : boundscheck(b) {}
    bool boundscheck;
    static TakeOptions Defaults() { return TakeOptions(); }
};
Result<Datum> Take(const Datum& values, const Datum& indices, const TakeOptions& options = TakeOptions::Defaults(), ExecContext* ctx = nullptr);
}  // namespace compute

// ---------------------------------------------------------------- printing and JSON
struct PrettyPrintOptions {
    int indent = 0, window = 10, container_window = 2;
    static PrettyPrintOptions Defaults() { return {}; }
};
Status PrettyPrint(const Array& a, const PrettyPrintOptions& o, std::ostream* sink);
Status PrettyPrint(const Array& a, int indent, std::ostream* sink);
Status PrettyPrint(const ChunkedArray& a, const PrettyPrintOptions& o, std::ostream* sink);
Status PrettyPrint(const Array& a, const PrettyPrintOptions& o, std::string* out);
Status PrettyPrint(const ChunkedArray& a, const PrettyPrintOptions& o, std::string* out);
namespace ipc::internal::json {
Result<std::shared_ptr<Array>> ArrayFromJSON(const std::shared_ptr<DataType>& type, std::string_view json);
Status ChunkedArrayFromJSON(const std::shared_ptr<DataType>& type, const std::vector<std::string>& json, std::shared_ptr<ChunkedArray>* out);
}  // namespace ipc::internal::json
}  // namespace arrow

namespace arrow_vendored::date {
class time_zone {
 public:
    explicit time_zone(std::string n) : name_(std::move(n)) {}
    const std::string& name() const { return name_; }

 private:
    std::string name_;
};
const time_zone* current_zone();
}  // namespace arrow_vendored::date
