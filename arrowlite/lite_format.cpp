// A self-contained columnar file format used in place of ORC, Parquet and Avro (whose libraries
// are not installed here).  It implements only the public plug-in interface
// (paimon/format/*.h) and is registered under the three names, so that everything above the
// format layer runs unchanged.
//
// File: chunk* footer(tree of the schema, chunk table) footer-length crc magic.
#include <algorithm>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include "arrow/lite.h"
#include "paimon/common/metrics/metrics_impl.h"
#include "paimon/common/predicate/leaf_predicate_impl.h"
#include "paimon/common/utils/arrow/status_utils.h"
#include "paimon/data/decimal.h"
#include "paimon/data/timestamp.h"
#include "paimon/factories/factory_creator.h"
#include "paimon/format/column_stats.h"
#include "paimon/format/file_format.h"
#include "paimon/format/file_format_factory.h"
#include "paimon/format/format_writer.h"
#include "paimon/fs/file_system.h"
#include "paimon/predicate/compound_predicate.h"
#include "paimon/reader/prefetch_file_batch_reader.h"

namespace litefmt {
using namespace paimon;

static const char kMagic[] = "LITEFMT1";
static uint32_t Sum(const std::string& s) {
    uint32_t h = 2166136261u;
    for (unsigned char c : s) h = (h ^ c) * 16777619u;
    return h;
}
struct W {
    std::string s;
    void I(int64_t v) { s.append(reinterpret_cast<char*>(&v), 8); }
    void B(const void* p, size_t n) { I(int64_t(n)); s.append(static_cast<const char*>(p), n); }
    void S(const std::string& v) { B(v.data(), v.size()); }
};
struct R {
    const std::string& s;
    size_t p = 0;
    bool bad = false;
    int64_t I() {
        int64_t v = 0;
        if (p + 8 > s.size()) { bad = true; return 0; }
        memcpy(&v, s.data() + p, 8);
        p += 8;
        return v;
    }
    std::string S() {
        int64_t n = I();
        if (bad || n < 0 || size_t(n) > s.size() - p) { bad = true; return ""; }
        p += n;
        return s.substr(p - n, n);
    }
};

// ---- schema
static void PutField(W* w, const arrow::Field& f) {
    ::ArrowSchema c;
    (void)arrow::ExportType(*f.type(), &c);
    std::string format = c.format;
    if (c.release) c.release(&c);
    w->S(f.name());
    w->I(f.nullable());
    w->S(format);
    auto md = f.metadata();
    w->I(md ? md->size() : 0);
    for (int64_t i = 0; md && i < md->size(); i++) {
        w->S(md->key(i));
        w->S(md->value(i));
    }
    w->I(f.type()->num_fields());
    for (int i = 0; i < f.type()->num_fields(); i++) PutField(w, *f.type()->field(i));
}
static std::shared_ptr<arrow::Field> GetField(R* r) {
    std::string name = r->S();
    bool nullable = r->I();
    std::string format = r->S();
    std::vector<std::string> k, v;
    int64_t n = r->I();
    for (int64_t i = 0; i < n && !r->bad; i++) {
        k.push_back(r->S());
        v.push_back(r->S());
    }
    n = r->I();
    arrow::FieldVector sub;
    for (int64_t i = 0; i < n && !r->bad; i++) sub.push_back(GetField(r));
    if (r->bad) return arrow::field("", arrow::null());
    std::shared_ptr<arrow::DataType> t;
    if (format == "+s") t = arrow::struct_(sub);
    else if (format == "+l") t = arrow::list(sub[0]);
    else if (format == "+m") t = arrow::map(sub[0]->type()->field(0), sub[0]->type()->field(1));
    else {
        ::ArrowSchema c;
        memset(&c, 0, sizeof(c));
        c.format = format.c_str();
        c.name = "";
        c.flags = 2;
        c.release = [](::ArrowSchema* s) { s->release = nullptr; };
        auto res = arrow::ImportType(&c);
        if (!res.ok()) { r->bad = true; return arrow::field("", arrow::null()); }
        t = *res;
    }
    std::shared_ptr<arrow::KeyValueMetadata> md;
    if (!k.empty()) md = std::make_shared<arrow::KeyValueMetadata>(k, v);
    return arrow::field(name, t, nullable, md);
}

// ---- data
static void PutData(W* w, const arrow::ArrayData& d) {
    w->I(d.length);
    w->I(d.buffers.size());
    for (auto& b : d.buffers) {
        if (b) w->B(b->data(), b->size());
        else w->I(-1);
    }
    w->I(d.child_data.size());
    for (auto& c : d.child_data) PutData(w, *c);
}
static std::shared_ptr<arrow::ArrayData> GetData(R* r, const std::shared_ptr<arrow::DataType>& t) {
    int64_t n = r->I(), nb = r->I();
    std::vector<std::shared_ptr<arrow::Buffer>> bufs;
    for (int64_t i = 0; i < nb && !r->bad; i++) {
        size_t at = r->p;
        if (r->I() < 0) { bufs.push_back(nullptr); continue; }
        r->p = at;
        std::string b = r->S();
        auto buf = arrow::AllocateBuffer(b.size()).ValueOrDie();
        if (!b.empty()) memcpy(buf->mutable_data(), b.data(), b.size());
        bufs.push_back(std::shared_ptr<arrow::Buffer>(std::move(buf)));
    }
    int64_t nc = r->I();
    std::vector<std::shared_ptr<arrow::ArrayData>> ch;
    for (int64_t i = 0; i < nc && !r->bad; i++) ch.push_back(GetData(r, t->field(int(i))->type()));
    return arrow::ArrayData::Make(t, n, bufs, ch);
}

// ---- writer
class Writer : public FormatWriter {
 public:
    Writer(std::shared_ptr<OutputStream> out, std::shared_ptr<arrow::DataType> type, int64_t chunk)
        : out_(std::move(out)), type_(std::move(type)), chunk_(chunk), metrics_(std::make_shared<MetricsImpl>()) {}
    Status AddBatch(::ArrowArray* batch) override {
        PAIMON_ASSIGN_OR_RAISE_FROM_ARROW(std::shared_ptr<arrow::Array> a, arrow::ImportArray(batch, type_));
        for (int64_t at = 0; at < a->length(); at += chunk_) {
            int64_t n = std::min(chunk_, a->length() - at);
            auto slice = a->Slice(at, n);
            PAIMON_ASSIGN_OR_RAISE_FROM_ARROW(std::shared_ptr<arrow::Array> flat, arrow::Concatenate({slice}));
            W w;
            PutData(&w, *flat->data());
            PAIMON_RETURN_NOT_OK(Put(w.s));
            chunks_.push_back({n, int64_t(w.s.size())});
        }
        return Status::OK();
    }
    Status Flush() override { return out_->Flush(); }
    Status Finish() override {
        W w;
        w.I(type_->num_fields());
        for (int i = 0; i < type_->num_fields(); i++) PutField(&w, *type_->field(i));
        w.I(chunks_.size());
        for (auto& c : chunks_) { w.I(c.first); w.I(c.second); }
        int64_t n = w.s.size();
        uint32_t crc = Sum(w.s);
        w.I(n);
        w.I(crc);
        w.s.append(kMagic, 8);
        PAIMON_RETURN_NOT_OK(Put(w.s));
        return out_->Flush();
    }
    Result<bool> ReachTargetSize(bool check, int64_t target) const override {
        if (!check) return false;
        return written_ >= target;
    }
    std::shared_ptr<Metrics> GetWriterMetrics() const override { return metrics_; }

 private:
    Status Put(const std::string& s) {
        PAIMON_ASSIGN_OR_RAISE(int32_t n, out_->Write(s.data(), uint32_t(s.size())));
        if (size_t(n) != s.size()) return Status::IOError("short write");
        written_ += n;
        return Status::OK();
    }
    std::shared_ptr<OutputStream> out_;
    std::shared_ptr<arrow::DataType> type_;
    int64_t chunk_, written_ = 0;
    std::vector<std::pair<int64_t, int64_t>> chunks_;
    std::shared_ptr<MetricsImpl> metrics_;
};

// which rows of the file can satisfy a predicate; its columns are those of the file, by name
static Result<std::vector<char>> Fits(const arrow::StructArray& rows, const std::shared_ptr<Predicate>& p) {
    if (auto leaf = std::dynamic_pointer_cast<LeafPredicateImpl>(p)) {
        auto col = rows.GetFieldByName(leaf->FieldName());
        if (!col) return Status::Invalid("no column ", leaf->FieldName(), " for the predicate");
        PAIMON_ASSIGN_OR_RAISE_FROM_ARROW(std::shared_ptr<arrow::Array> one, arrow::StructArray::Make({col}, std::vector<std::string>{leaf->FieldName()}));
        return leaf->NewLeafPredicate(0)->Test(*one);
    }
    auto all = std::dynamic_pointer_cast<CompoundPredicate>(p);
    if (!all) return Status::Invalid("unknown predicate");
    bool both = all->GetFunction().GetType() == Function::Type::AND;
    std::vector<char> out(rows.length(), both);
    for (auto& c : all->Children()) {
        PAIMON_ASSIGN_OR_RAISE(std::vector<char> v, Fits(rows, c));
        for (size_t i = 0; i < out.size(); i++) out[i] = both ? out[i] && v[i] : out[i] || v[i];
    }
    return out;
}

// ---- reader
class Reader : public PrefetchFileBatchReader {
 public:
    static Result<std::unique_ptr<Reader>> Open(const std::shared_ptr<InputStream>& in, int32_t batch) {
        auto r = std::unique_ptr<Reader>(new Reader);
        r->in_ = in;
        r->batch_ = batch;
        PAIMON_ASSIGN_OR_RAISE(uint64_t len, in->Length());
        if (len < 24) return Status::Invalid("lite file too short");
        std::string tail(24, 0);
        PAIMON_RETURN_NOT_OK(r->Get(len - 24, &tail));
        if (tail.compare(16, 8, kMagic, 8) != 0) return Status::Invalid("not a lite file");
        int64_t n, crc;
        memcpy(&n, tail.data(), 8);
        memcpy(&crc, tail.data() + 8, 8);
        if (n < 0 || uint64_t(n) > len - 24) return Status::Invalid("bad lite footer");
        std::string foot(n, 0);
        PAIMON_RETURN_NOT_OK(r->Get(len - 24 - n, &foot));
        if (Sum(foot) != uint32_t(crc)) return Status::Invalid("lite footer checksum");
        R rd{foot};
        int64_t nf = rd.I();
        arrow::FieldVector fs;
        for (int64_t i = 0; i < nf && !rd.bad; i++) fs.push_back(GetField(&rd));
        int64_t nc = rd.I();
        int64_t at = 0, row = 0;
        for (int64_t i = 0; i < nc && !rd.bad; i++) {
            int64_t rows = rd.I(), bytes = rd.I();
            r->chunks_.push_back({row, rows, at, bytes});
            row += rows;
            at += bytes;
        }
        if (rd.bad) return Status::Invalid("bad lite footer");
        r->rows_ = row;
        r->file_type_ = arrow::struct_(fs);
        r->read_type_ = r->file_type_;
        r->ResetRanges();
        return r;
    }
    Result<std::unique_ptr<::ArrowSchema>> GetFileSchema() const override {
        auto c = std::make_unique<::ArrowSchema>();
        PAIMON_RETURN_NOT_OK_FROM_ARROW(arrow::ExportSchema(*arrow::schema(file_type_->fields()), c.get()));
        return c;
    }
    Status SetReadSchema(::ArrowSchema* schema, const std::shared_ptr<Predicate>& predicate,
                         const std::optional<RoaringBitmap32>& selection) override {
        if (!schema) return Status::Invalid("SetReadSchema failed: read schema cannot be nullptr");
        PAIMON_ASSIGN_OR_RAISE_FROM_ARROW(std::shared_ptr<arrow::Schema> s, arrow::ImportSchema(schema));
        auto t = arrow::struct_(s->fields());
        PAIMON_RETURN_NOT_OK(CheckProject(*file_type_, *t));
        read_type_ = t;
        selection_ = selection;
        predicate_ = predicate;
        pos_ = 0;
        previous_ = std::numeric_limits<uint64_t>::max();
        ResetRanges();
        return Status::OK();
    }
    Result<ReadBatch> NextBatch() override {
        while (true) {
            Advance();
            if (pos_ >= rows_) {
                previous_ = rows_;
                return MakeEofBatch();
            }
            auto c = std::find_if(chunks_.begin(), chunks_.end(), [&](const Chunk& k) { return pos_ < uint64_t(k.row + k.rows); });
            auto g = std::find_if(ranges_.begin(), ranges_.end(), [&](const std::pair<uint64_t, uint64_t>& k) { return pos_ < k.second; });
            uint64_t end = std::min<uint64_t>({pos_ + batch_, uint64_t(c->row + c->rows), g->second});
            uint64_t from = pos_;
            if (selection_ && !selection_->ContainsAny(int32_t(from), int32_t(end))) {
                pos_ = end;
                continue;
            }
            PAIMON_ASSIGN_OR_RAISE(std::shared_ptr<arrow::Array> a, Load(*c));
            a = a->Slice(from - c->row, end - from);
            if (predicate_) {
                // a batch without a fitting row may be left out
                PAIMON_ASSIGN_OR_RAISE(std::vector<char> fits, Fits(static_cast<const arrow::StructArray&>(*a), predicate_));
                if (std::find(fits.begin(), fits.end(), 1) == fits.end()) {
                    pos_ = end;
                    continue;
                }
            }
            PAIMON_ASSIGN_OR_RAISE(a, Project(a, read_type_));
            PAIMON_ASSIGN_OR_RAISE_FROM_ARROW(a, arrow::Concatenate({a}));
            auto ca = std::make_unique<::ArrowArray>();
            auto cs = std::make_unique<::ArrowSchema>();
            PAIMON_RETURN_NOT_OK_FROM_ARROW(arrow::ExportArray(*a, ca.get(), cs.get()));
            previous_ = from;
            pos_ = end;
            return std::make_pair(std::move(ca), std::move(cs));
        }
    }
    std::shared_ptr<Metrics> GetReaderMetrics() const override { return metrics_; }
    void Close() override {}
    uint64_t GetPreviousBatchFirstRowNumber() const override { return previous_; }
    uint64_t GetNumberOfRows() const override { return rows_; }
    bool SupportPreciseBitmapSelection() const override { return false; }
    Status SeekToRow(uint64_t row) override { pos_ = row; return Status::OK(); }
    uint64_t GetNextRowToRead() const override { return pos_; }
    Result<std::vector<std::pair<uint64_t, uint64_t>>> GenReadRanges(bool* need) const override {
        std::vector<std::pair<uint64_t, uint64_t>> r;
        for (auto& c : chunks_) r.emplace_back(c.row, c.row + c.rows);
        *need = true;
        return r;
    }
    Status SetReadRanges(const std::vector<std::pair<uint64_t, uint64_t>>& r) override {
        ranges_ = r;
        return Status::OK();
    }
    Result<std::shared_ptr<arrow::Array>> All() {
        arrow::ArrayVector v;
        for (auto& c : chunks_) {
            PAIMON_ASSIGN_OR_RAISE(std::shared_ptr<arrow::Array> a, Load(c));
            v.push_back(a);
        }
        if (v.empty()) {
            PAIMON_ASSIGN_OR_RAISE_FROM_ARROW(std::shared_ptr<arrow::Array> e, arrow::MakeEmptyArray(file_type_));
            return e;
        }
        PAIMON_ASSIGN_OR_RAISE_FROM_ARROW(std::shared_ptr<arrow::Array> a, arrow::Concatenate(v));
        return a;
    }

 private:
    struct Chunk { int64_t row, rows, at, bytes; };
    void ResetRanges() { ranges_ = {{0, rows_}}; }
    void Advance() {
        for (auto& g : ranges_) {
            if (pos_ < g.first) { pos_ = g.first; return; }
            if (pos_ < g.second) return;
        }
        pos_ = std::max(pos_, rows_);
    }
    Status Get(uint64_t at, std::string* s) {
        if (s->empty()) return Status::OK();
        PAIMON_RETURN_NOT_OK(in_->Seek(int64_t(at), FS_SEEK_SET));
        PAIMON_ASSIGN_OR_RAISE(int32_t n, in_->Read(s->data(), uint32_t(s->size())));
        if (size_t(n) != s->size()) return Status::IOError("short read");
        return Status::OK();
    }
    Result<std::shared_ptr<arrow::Array>> Load(const Chunk& c) {
        if (loaded_ && loaded_row_ == c.row) return loaded_;
        std::string s(c.bytes, 0);
        PAIMON_RETURN_NOT_OK(Get(c.at, &s));
        R rd{s};
        auto d = GetData(&rd, file_type_);
        if (rd.bad) return Status::Invalid("bad lite chunk");
        loaded_ = arrow::MakeArray(d);
        loaded_row_ = c.row;
        return loaded_;
    }
    static Status CheckProject(const arrow::DataType& have, const arrow::DataType& want) {
        if (have.id() != want.id())
            return Status::Invalid("lite format: cannot read " + have.ToString() + " as " + want.ToString());
        if (want.id() == arrow::Type::STRUCT) {
            for (auto& f : want.fields()) {
                int k = static_cast<const arrow::StructType&>(have).GetFieldIndex(f->name());
                if (k < 0) return Status::Invalid("lite format: no field " + f->name());
                PAIMON_RETURN_NOT_OK(CheckProject(*have.field(k)->type(), *f->type()));
            }
            return Status::OK();
        }
        for (int i = 0; i < want.num_fields(); i++)
            PAIMON_RETURN_NOT_OK(CheckProject(*have.field(i)->type(), *want.field(i)->type()));
        if (want.num_fields() == 0 && !have.Equals(want))
            return Status::Invalid("lite format: cannot read " + have.ToString() + " as " + want.ToString());
        return Status::OK();
    }
    static Result<std::shared_ptr<arrow::Array>> Project(const std::shared_ptr<arrow::Array>& a, const std::shared_ptr<arrow::DataType>& want) {
        auto d = a->data()->Copy();
        d->type = want;
        if (want->id() == arrow::Type::STRUCT) {
            auto& have = static_cast<const arrow::StructType&>(*a->type());
            d->child_data.clear();
            for (auto& f : want->fields()) {
                int k = have.GetFieldIndex(f->name());
                PAIMON_ASSIGN_OR_RAISE(std::shared_ptr<arrow::Array> c, Project(arrow::MakeArray(a->data()->child_data[k]), f->type()));
                d->child_data.push_back(c->data());
            }
        } else {
            for (int i = 0; i < want->num_fields(); i++) {
                PAIMON_ASSIGN_OR_RAISE(std::shared_ptr<arrow::Array> c, Project(arrow::MakeArray(a->data()->child_data[i]), want->field(i)->type()));
                d->child_data[i] = c->data();
            }
        }
        return arrow::MakeArray(d);
    }
    std::shared_ptr<InputStream> in_;
    int32_t batch_ = 1;
    uint64_t rows_ = 0, pos_ = 0, previous_ = std::numeric_limits<uint64_t>::max();
    std::vector<Chunk> chunks_;
    std::vector<std::pair<uint64_t, uint64_t>> ranges_;
    std::shared_ptr<arrow::DataType> file_type_, read_type_;
    std::optional<RoaringBitmap32> selection_;
    std::shared_ptr<Predicate> predicate_;
    std::shared_ptr<arrow::Array> loaded_;
    int64_t loaded_row_ = -1;
    std::shared_ptr<MetricsImpl> metrics_ = std::make_shared<MetricsImpl>();
};

// ---- statistics
template <typename A, typename F>
static auto MinMax(const arrow::Array& a, F get) {
    using T = decltype(get(static_cast<const A&>(a), 0));
    std::optional<T> lo, hi;
    for (int64_t i = 0; i < a.length(); i++) {
        if (a.IsNull(i)) continue;
        T v = get(static_cast<const A&>(a), i);
        if constexpr (std::is_floating_point_v<T>) {
            if (v != v) continue;
        }
        if (!lo || v < *lo) lo = v;
        if (!hi || *hi < v) hi = v;
    }
    return std::make_pair(lo, hi);
}
#define LITE_NUM(ID, ARR, C, MAKE)                                                                         \
    case arrow::Type::ID: {                                                                                \
        auto m = MinMax<arrow::ARR>(a, [](const arrow::ARR& x, int64_t i) -> C { return C(x.Value(i)); }); \
        return ColumnStats::MAKE(m.first, m.second, nulls);                                                \
    }
static std::unique_ptr<ColumnStats> StatsOf(const arrow::Array& a) {
    int64_t nulls = a.null_count();
    switch (a.type_id()) {
        LITE_NUM(BOOL, BooleanArray, bool, CreateBooleanColumnStats)
        LITE_NUM(INT8, Int8Array, int8_t, CreateTinyIntColumnStats)
        LITE_NUM(INT16, Int16Array, int16_t, CreateSmallIntColumnStats)
        LITE_NUM(INT32, Int32Array, int32_t, CreateIntColumnStats)
        LITE_NUM(INT64, Int64Array, int64_t, CreateBigIntColumnStats)
        LITE_NUM(FLOAT, FloatArray, float, CreateFloatColumnStats)
        LITE_NUM(DOUBLE, DoubleArray, double, CreateDoubleColumnStats)
        LITE_NUM(DATE32, Date32Array, int32_t, CreateDateColumnStats)
        case arrow::Type::STRING: {
            auto m = MinMax<arrow::StringArray>(a, [](const arrow::StringArray& x, int64_t i) { return x.GetString(i); });
            return ColumnStats::CreateStringColumnStats(m.first, m.second, nulls);
        }
        case arrow::Type::TIMESTAMP: {
            auto unit = static_cast<const arrow::TimestampType&>(*a.type()).unit();
            auto m = MinMax<arrow::TimestampArray>(a, [](const arrow::TimestampArray& x, int64_t i) { return x.Value(i); });
            auto conv = [&](const std::optional<int64_t>& v) -> std::optional<Timestamp> {
                if (!v) return std::nullopt;
                auto floordiv = [](int64_t x, int64_t y) { return x / y - (x % y < 0 ? 1 : 0); };
                switch (unit) {
                    case arrow::TimeUnit::SECOND: return Timestamp(*v * 1000, 0);
                    case arrow::TimeUnit::MILLI: return Timestamp(*v, 0);
                    case arrow::TimeUnit::MICRO: { int64_t q = floordiv(*v, 1000); return Timestamp(q, int32_t((*v - q * 1000) * 1000)); }
                    default: { int64_t q = floordiv(*v, 1000000); return Timestamp(q, int32_t(*v - q * 1000000)); }
                }
            };
            int precision = unit == arrow::TimeUnit::SECOND ? 0 : unit == arrow::TimeUnit::MILLI ? 3 : unit == arrow::TimeUnit::MICRO ? 6 : 9;
            return ColumnStats::CreateTimestampColumnStats(conv(m.first), conv(m.second), nulls, precision);
        }
        case arrow::Type::DECIMAL128: {
            auto& t = static_cast<const arrow::Decimal128Type&>(*a.type());
            int p = t.precision(), s = t.scale();
            auto m = MinMax<arrow::Decimal128Array>(a, [](const arrow::Decimal128Array& x, int64_t i) {
                __int128 v;
                memcpy(&v, x.GetValue(i), 16);
                return v;
            });
            auto conv = [&](const std::optional<__int128>& v) -> std::optional<Decimal> {
                if (!v) return std::nullopt;
                return Decimal(p, s, *v);
            };
            return ColumnStats::CreateDecimalColumnStats(conv(m.first), conv(m.second), nulls, p, s);
        }
        case arrow::Type::LIST: return ColumnStats::CreateNestedColumnStats(FieldType::ARRAY, nulls);
        case arrow::Type::MAP: return ColumnStats::CreateNestedColumnStats(FieldType::MAP, nulls);
        case arrow::Type::STRUCT: return ColumnStats::CreateNestedColumnStats(FieldType::STRUCT, nulls);
        default: return ColumnStats::CreateStringColumnStats(std::nullopt, std::nullopt, nulls);
    }
}
class Stats : public FormatStatsExtractor {
 public:
    Result<ColumnStatsVector> Extract(const std::shared_ptr<FileSystem>& fs, const std::string& path,
                                      const std::shared_ptr<MemoryPool>& pool) override {
        PAIMON_ASSIGN_OR_RAISE(auto r, ExtractWithFileInfo(fs, path, pool));
        return r.first;
    }
    Result<std::pair<ColumnStatsVector, FileInfo>> ExtractWithFileInfo(const std::shared_ptr<FileSystem>& fs, const std::string& path,
                                                                       const std::shared_ptr<MemoryPool>&) override {
        PAIMON_ASSIGN_OR_RAISE(std::shared_ptr<InputStream> in, fs->Open(path));
        PAIMON_ASSIGN_OR_RAISE(std::unique_ptr<Reader> r, Reader::Open(in, 1024));
        PAIMON_ASSIGN_OR_RAISE(std::shared_ptr<arrow::Array> a, r->All());
        ColumnStatsVector v;
        for (auto& c : std::static_pointer_cast<arrow::StructArray>(a)->fields()) v.push_back(StatsOf(*c));
        return std::make_pair(v, FileInfo(a->length()));
    }
};

// ---- builders, format, factories
class RBuilder : public ReaderBuilder {
 public:
    explicit RBuilder(int32_t b) : batch_(b) {}
    ReaderBuilder* WithMemoryPool(const std::shared_ptr<MemoryPool>&) override { return this; }
    Result<std::unique_ptr<FileBatchReader>> Build(const std::shared_ptr<InputStream>& in) const override {
        PAIMON_ASSIGN_OR_RAISE(std::unique_ptr<Reader> r, Reader::Open(in, batch_));
        return std::unique_ptr<FileBatchReader>(std::move(r));
    }
    Result<std::unique_ptr<FileBatchReader>> Build(const std::string&) const override {
        return Status::Invalid("lite format does not support reading by path");
    }

 private:
    int32_t batch_;
};
class WBuilder : public WriterBuilder {
 public:
    WBuilder(std::shared_ptr<arrow::DataType> t, int64_t c) : type_(std::move(t)), chunk_(c) {}
    WriterBuilder* WithMemoryPool(const std::shared_ptr<MemoryPool>&) override { return this; }
    Result<std::unique_ptr<FormatWriter>> Build(const std::shared_ptr<OutputStream>& out, const std::string&) override {
        return std::unique_ptr<FormatWriter>(new Writer(out, type_, chunk_));
    }

 private:
    std::shared_ptr<arrow::DataType> type_;
    int64_t chunk_;
};
class Format : public FileFormat {
 public:
    Format(std::string id, const std::map<std::string, std::string>& o) : id_(std::move(id)) {
        auto k = o.find("lite.chunk-rows");
        if (k != o.end()) chunk_ = std::max(1, atoi(k->second.c_str()));
    }
    const std::string& Identifier() const override { return id_; }
    Result<std::unique_ptr<ReaderBuilder>> CreateReaderBuilder(int32_t b) const override {
        return std::unique_ptr<ReaderBuilder>(new RBuilder(b));
    }
    Result<std::unique_ptr<WriterBuilder>> CreateWriterBuilder(::ArrowSchema* schema, int32_t) const override {
        if (!schema) return Status::Invalid("schema is nullptr");
        PAIMON_ASSIGN_OR_RAISE_FROM_ARROW(std::shared_ptr<arrow::Schema> s, arrow::ImportSchema(schema));
        return std::unique_ptr<WriterBuilder>(new WBuilder(arrow::struct_(s->fields()), chunk_));
    }
    Result<std::unique_ptr<FormatStatsExtractor>> CreateStatsExtractor(::ArrowSchema* schema) const override {
        ArrowSchemaRelease(schema);
        if (id_ == "avro") return Status::NotImplemented("do not support extract stats in avro format for now");
        return std::unique_ptr<FormatStatsExtractor>(new Stats);
    }

 private:
    std::string id_;
    int64_t chunk_ = 1024;
};
#define LITE_FACTORY(NAME, ID)                                                                                            \
    class NAME : public FileFormatFactory {                                                                               \
     public:                                                                                                              \
        const char* Identifier() const override { return ID; }                                                            \
        Result<std::unique_ptr<FileFormat>> Create(const std::map<std::string, std::string>& o) const override {          \
            return std::unique_ptr<FileFormat>(new Format(ID, o));                                                        \
        }                                                                                                                 \
    };                                                                                                                    \
    REGISTER_PAIMON_FACTORY(NAME);
LITE_FACTORY(LiteOrc, "orc")
LITE_FACTORY(LiteParquet, "parquet")
LITE_FACTORY(LiteAvro, "avro")
}  // namespace litefmt
