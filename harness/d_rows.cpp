// C15, C17: rows and arrays in all their representations, and buckets of keys.
#include <cstring>
#include <limits>

#include "arrow/api.h"
#include "arrow/c/abi.h"
#include "arrow/c/bridge.h"
#include "paimon/common/data/binary_array.h"
#include "paimon/common/data/binary_array_writer.h"
#include "paimon/common/data/binary_row.h"
#include "paimon/common/data/binary_row_writer.h"
#include "paimon/common/data/columnar/columnar_array.h"
#include "paimon/common/data/columnar/columnar_map.h"
#include "paimon/common/data/columnar/columnar_row.h"
#include "paimon/common/data/generic_row.h"
#include "paimon/common/data/serializer/binary_row_serializer.h"
#include "paimon/common/io/memory_segment_output_stream.h"
#include "paimon/common/reader/data_evolution_array.h"
#include "paimon/common/reader/data_evolution_row.h"
#include "paimon/common/utils/projected_array.h"
#include "paimon/common/utils/projected_row.h"
#include "paimon/common/utils/serialization_utils.h"
#include "paimon/core/utils/offset_row.h"
#include "paimon/io/byte_array_input_stream.h"
#include "paimon/utils/bucket_id_calculator.h"
#include "vtrace.h"

using namespace paimon;  // NOLINT
using vt::J;
using vt::Out;
using I128 = __int128_t;

static std::shared_ptr<MemoryPool> pool = GetMemoryPool();

struct Type {
    std::string k;  // bool i8 i16 i32 i64 f32 f64 date str bin ts dec row arr
    int p = 0, s = 0;
    std::vector<Type> kids;
    bool Wide() const { return k == "str" || k == "bin" || k == "row" || k == "arr" || ((k == "ts") && p > 3) || (k == "dec" && p > 18); }
    int Bytes() const {
        if (k == "bool" || k == "i8") return 1;
        if (k == "i16") return 2;
        if (k == "i32" || k == "f32" || k == "date") return 4;
        return 8;
    }
    std::string Kind() const {
        if (k == "str" || k == "bin") return "text";
        if (k == "ts") return p > 3 ? "ts" : "b8";
        if (k == "dec") return p > 18 ? "dec" : "b8";
        if (k == "row" || k == "arr") return k;
        return "b" + std::to_string(Bytes());
    }
};
struct Val {
    bool null = false;
    std::string raw;  // numbers and texts
    int64_t ms = 0;
    int nano = 0;
    I128 dec = 0;
    int kind = 0;
    std::vector<Val> kids;
};
using Row = std::vector<Val>;
using Types = std::vector<Type>;

static std::string List(const std::string& b) {
    std::string s = "[";
    for (unsigned char c : b) s += (s.size() > 1 ? "," : "") + std::to_string(c);
    return s + "]";
}
template <class T>
static std::string Raw(T v) { return std::string(reinterpret_cast<const char*>(&v), sizeof v); }
template <class T>
static T Of(const std::string& raw) {
    T v;
    memcpy(&v, raw.data(), sizeof v);
    return v;
}
static std::string Wide(I128 v) {
    std::string s;
    for (int i = 15; i >= 0; i--) s += static_cast<char>(static_cast<unsigned char>(v >> (8 * i)));
    return s;
}
static std::string Show(const Types& ts, const Row& r);
static std::string Show(const Type& t, const Val& v) {
    std::string x;
    if (!v.null) {
        if (t.k == "ts") x = t.p > 3 ? "[" + List(Raw(v.ms)) + "," + std::to_string(v.nano) + "]" : List(Raw(v.ms));
        else if (t.k == "dec") x = t.p > 18 ? List(Wide(v.dec)) : List(Raw(static_cast<int64_t>(v.dec)));
        else if (t.k == "row") x = "{\"k\":" + std::to_string(v.kind) + ",\"f\":" + Show(t.kids, v.kids) + "}";
        else if (t.k == "arr") x = "{\"w\":" + std::to_string(t.kids[0].Wide() ? 8 : t.kids[0].Bytes()) + ",\"f\":" + Show(Types(v.kids.size(), t.kids[0]), v.kids) + "}";
        else x = List(v.raw);
    }
    return "{\"t\":\"" + t.Kind() + "\",\"v\":[" + x + "]}";
}
static std::string Show(const Types& ts, const Row& r) {
    std::string s = "[";
    for (size_t i = 0; i < r.size(); i++) s += (i ? "," : "") + Show(ts[i], r[i]);
    return s + "]";
}

// ---- random types and values
static Type SomeType(vt::Rng& r, int nest) {
    static const std::vector<std::string> ks = {"bool", "i8", "i16", "i32", "i64", "f32", "f64", "date", "str", "bin", "ts", "dec"};
    if (nest && r.Chance(20)) {
        Type t{r.Chance(50) ? "row" : "arr"};
        int n = t.k == "arr" ? 1 : r.In(1, 4);
        for (int i = 0; i < n; i++) t.kids.push_back(SomeType(r, nest - 1));
        return t;
    }
    Type t{r.Pick(ks)};
    if (t.k == "ts") t.p = r.Pick(std::vector<int>{0, 3, 6, 9});
    if (t.k == "dec") {
        t.p = r.Pick(std::vector<int>{1, 9, 18, 19, 38});
        t.s = r.In(0, std::min(t.p, 10));
    }
    return t;
}
static Types SomeTypes(vt::Rng& r, int nest) {
    int n = r.Chance(10) ? r.Pick(std::vector<int>{55, 56, 57, 64, 120, 121}) : r.In(1, 8);
    Types ts;
    for (int i = 0; i < n; i++) ts.push_back(n > 10 && r.Chance(80) ? Type{r.Chance(50) ? "i8" : "str"} : SomeType(r, nest));
    return ts;
}
static int large = 0;  // at most one long text in a trace
template <class T>
static T Int(vt::Rng& r) {
    switch (r.Below(4)) {
        case 0: return static_cast<T>(r.In(-2, 2));
        case 1: return r.Chance(50) ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min();
        default: return static_cast<T>(r.Next());
    }
}
static Val SomeVal(vt::Rng& r, const Type& t, int nulls) {
    Val v;
    if (r.Chance(nulls)) {
        v.null = true;
        return v;
    }
    if (t.k == "bool") v.raw = Raw<char>(r.Below(2));
    else if (t.k == "i8") v.raw = Raw(Int<int8_t>(r));
    else if (t.k == "i16") v.raw = Raw(Int<int16_t>(r));
    else if (t.k == "i32" || t.k == "date") v.raw = Raw(Int<int32_t>(r));
    else if (t.k == "i64") v.raw = Raw(Int<int64_t>(r));
    else if (t.k == "f32") v.raw = Raw(r.Pick(std::vector<float>{0, -0.0f, 1.5f, -3e38f, 1e-40f, std::numeric_limits<float>::infinity(), static_cast<float>(r.Next())}));
    else if (t.k == "f64") v.raw = Raw(r.Pick(std::vector<double>{0, -0.0, 1.5, -1e308, 1e-310, std::numeric_limits<double>::infinity(), static_cast<double>(r.Next())}));
    else if (t.k == "str" || t.k == "bin") {
        int n = r.Chance(2) && !large++ ? r.In(100, 600) : r.Pick(std::vector<int>{0, 1, 2, 6, 7, 8, 9, 15, 16, 17, 31});
        unsigned char c = r.Below(256);
        for (int i = 0; i < n; i++) v.raw += static_cast<char>(n > 40 ? c + i : r.Pick(std::vector<int>{0, 1, 97, 127, 128, 255}));
    } else if (t.k == "ts") {
        v.ms = r.Chance(30) ? r.In(-3, 3) : r.In(-62135596800000ll, 253402300799999ll);
        if (t.p == 0) v.ms = v.ms / 1000 * 1000;
        if (t.p == 6) v.nano = r.Pick(std::vector<int>{0, 1000, 999000});
        if (t.p == 9) v.nano = r.Pick(std::vector<int>{0, 1, 999999, static_cast<int>(r.Below(1000000))}), v.ms /= 100000;
    } else if (t.k == "dec") {
        I128 max = 1;
        for (int i = 0; i < t.p; i++) max *= 10;
        max--;
        switch (r.Below(4)) {
            case 0: v.dec = r.In(-2, 2); break;
            case 1: v.dec = max; break;
            case 2: v.dec = static_cast<I128>(1) << r.Below(126); break;
            default: v.dec = (static_cast<I128>(r.Next()) << 64) | r.Next(); break;
        }
        if (r.Chance(50)) v.dec += r.In(-1, 1);
        v.dec %= max + 1;
        if (r.Chance(50)) v.dec = -v.dec;
    } else if (t.k == "row") {
        v.kind = r.Below(4);
        for (auto& k : t.kids) v.kids.push_back(SomeVal(r, k, nulls));
    } else {
        int n = r.Chance(8) && !t.kids[0].Wide() ? r.In(30, 70) : r.In(0, 4);
        for (int i = 0; i < n; i++) v.kids.push_back(SomeVal(r, t.kids[0], nulls));
    }
    return v;
}
static Row SomeRow(vt::Rng& r, const Types& ts, int nulls) {
    Row x;
    for (auto& t : ts) x.push_back(SomeVal(r, t, nulls));
    return x;
}

// ---- writing
static void Put(AbstractBinaryWriter* w, int pos, const Type& t, const Val& v, vt::Rng& r);
static void FillRow(BinaryRowWriter* w, const Types& ts, const Row& x, int kind, vt::Rng& r) {
    w->WriteRowKind(RowKind::FromByteValue(static_cast<int8_t>(kind)).value());
    for (size_t i = 0; i < ts.size(); i++) Put(w, i, ts[i], x[i], r);
    w->Complete();
}
static void FillArray(BinaryArrayWriter* w, const Type& t, const Row& x, vt::Rng& r) {
    for (size_t i = 0; i < x.size(); i++) {
        if (x[i].null && !t.Wide() && t.Bytes() < 8) {
            if (t.Bytes() == 1) w->SetNullValue<int8_t>(i);
            else if (t.Bytes() == 2) w->SetNullValue<int16_t>(i);
            else w->SetNullValue<int32_t>(i);
        } else {
            Put(w, i, t, x[i], r);
        }
    }
    w->Complete();
}
// the same bytes in several pieces
static std::vector<MemorySegment> Pieces(const std::string& bytes, int lead, int piece) {
    std::string all = std::string(lead, '\x5a') + bytes;
    std::vector<MemorySegment> segs;
    for (size_t at = 0; at < all.size(); at += piece) {
        std::shared_ptr<Bytes> b = Bytes::AllocateBytes(piece, pool.get());
        memset(b->data(), 0x6b, piece);
        memcpy(b->data(), all.data() + at, std::min<size_t>(piece, all.size() - at));
        segs.push_back(MemorySegment::Wrap(b));
    }
    return segs;
}
static std::string BytesOf(const BinarySection& s) {
    auto b = MemorySegmentUtils::CopyToBytes(s.GetSegments(), s.GetOffset(), s.GetSizeInBytes(), pool.get());
    return std::string(b->data(), b->size());
}
static void Put(AbstractBinaryWriter* w, int pos, const Type& t, const Val& v, vt::Rng& r) {
    if (v.null) {
        if (t.k == "ts" && t.p > 3) w->WriteTimestamp(pos, std::nullopt, t.p);
        else if (t.k == "dec" && t.p > 18) w->WriteDecimal(pos, std::nullopt, t.p);
        else w->SetNullAt(pos);
        return;
    }
    if (t.k == "bool") w->WriteBoolean(pos, v.raw[0]);
    else if (t.k == "i8") w->WriteByte(pos, v.raw[0]);
    else if (t.k == "i16") w->WriteShort(pos, Of<int16_t>(v.raw));
    else if (t.k == "i32" || t.k == "date") w->WriteInt(pos, Of<int32_t>(v.raw));
    else if (t.k == "i64") w->WriteLong(pos, Of<int64_t>(v.raw));
    else if (t.k == "f32") w->WriteFloat(pos, Of<float>(v.raw));
    else if (t.k == "f64") w->WriteDouble(pos, Of<double>(v.raw));
    else if (t.k == "str") {
        switch (r.Below(3)) {
            case 0: w->WriteString(pos, BinaryString::FromString(v.raw, pool.get())); break;
            case 1: w->WriteStringView(pos, v.raw); break;
            default: {
                int lead = r.In(0, 9);
                w->WriteString(pos, BinaryString::FromAddress(Pieces(v.raw + "?", lead, 1 << r.In(1, 5)), lead, v.raw.size()));
            }
        }
    } else if (t.k == "bin") {
        if (r.Chance(50)) w->WriteBinary(pos, Bytes(v.raw, pool.get()));
        else w->WriteStringView(pos, v.raw);
    } else if (t.k == "ts") w->WriteTimestamp(pos, Timestamp(v.ms, v.nano), t.p);
    else if (t.k == "dec") w->WriteDecimal(pos, Decimal(t.p, t.s, v.dec), t.p);
    else if (t.k == "row") {
        BinaryRow row(t.kids.size());
        BinaryRowWriter rw(&row, r.Below(40), pool.get());
        rw.Reset();
        FillRow(&rw, t.kids, v.kids, v.kind, r);
        if (r.Chance(40)) {
            std::string b = BytesOf(row);
            int lead = r.In(0, 20);
            row.PointTo(Pieces(b, lead, 1 << r.In(3, 6)), lead, b.size());
        }
        w->WriteRow(pos, row);
    } else {
        BinaryArray arr;
        BinaryArrayWriter aw(&arr, v.kids.size(), t.kids[0].Wide() ? 8 : t.kids[0].Bytes(), pool.get());
        FillArray(&aw, t.kids[0], v.kids, r);
        if (r.Chance(40)) {
            std::string b = BytesOf(arr);
            int lead = r.In(0, 20);
            arr.PointTo(Pieces(b, lead, 1 << r.In(3, 6)), lead, b.size());
        }
        w->WriteArray(pos, arr);
    }
}

// ---- reading
static Row ReadAll(const DataGetters& g, const Types& ts, bool view = false);
static Val Read(const DataGetters& g, int pos, const Type& t, bool view) {
    Val v;
    if (g.IsNullAt(pos)) {
        v.null = true;
        return v;
    }
    if (t.k == "bool") v.raw = Raw<char>(g.GetBoolean(pos));
    else if (t.k == "i8") v.raw = Raw(g.GetByte(pos));
    else if (t.k == "i16") v.raw = Raw(g.GetShort(pos));
    else if (t.k == "i32") v.raw = Raw(g.GetInt(pos));
    else if (t.k == "date") v.raw = Raw(g.GetDate(pos));
    else if (t.k == "i64") v.raw = Raw(g.GetLong(pos));
    else if (t.k == "f32") v.raw = Raw(g.GetFloat(pos));
    else if (t.k == "f64") v.raw = Raw(g.GetDouble(pos));
    else if (view && (t.k == "str" || t.k == "bin")) v.raw = std::string(g.GetStringView(pos));
    else if (t.k == "str") v.raw = g.GetString(pos).ToString();
    else if (t.k == "bin") {
        auto b = g.GetBinary(pos);
        v.raw = std::string(b->data(), b->size());
    } else if (t.k == "ts") {
        auto x = g.GetTimestamp(pos, t.p);
        v.ms = x.GetMillisecond(), v.nano = x.GetNanoOfMillisecond();
    } else if (t.k == "dec") {
        auto x = g.GetDecimal(pos, t.p, t.s);
        v.dec = x.Precision() == t.p && x.Scale() == t.s ? x.Value() : 123456789;
    } else if (t.k == "row") {
        auto x = g.GetRow(pos, t.kids.size());
        auto kind = x->GetRowKind();
        v.kind = kind.ok() ? kind.value()->ToByteValue() : 99;
        v.kids = ReadAll(*x, t.kids, view);
    } else {
        auto x = g.GetArray(pos);
        v.kids = ReadAll(*x, Types(x->Size(), t.kids[0]), view);
    }
    return v;
}
static Row ReadAll(const DataGetters& g, const Types& ts, bool view) {
    Row x;
    for (size_t i = 0; i < ts.size(); i++) x.push_back(Read(g, i, ts[i], view));
    return x;
}

// ---- columns
static std::shared_ptr<arrow::DataType> ArrowType(const Type& t) {
    if (t.k == "bool") return arrow::boolean();
    if (t.k == "i8") return arrow::int8();
    if (t.k == "i16") return arrow::int16();
    if (t.k == "i32") return arrow::int32();
    if (t.k == "date") return arrow::date32();
    if (t.k == "i64") return arrow::int64();
    if (t.k == "f32") return arrow::float32();
    if (t.k == "f64") return arrow::float64();
    if (t.k == "str") return arrow::utf8();
    if (t.k == "bin") return arrow::binary();
    if (t.k == "ts")
        return arrow::timestamp(t.p == 0 ? arrow::TimeUnit::SECOND : t.p == 3 ? arrow::TimeUnit::MILLI : t.p == 6 ? arrow::TimeUnit::MICRO : arrow::TimeUnit::NANO);
    if (t.k == "dec") return arrow::decimal128(t.p, t.s);
    if (t.k == "arr") return arrow::list(ArrowType(t.kids[0]));
    arrow::FieldVector fs;
    for (size_t i = 0; i < t.kids.size(); i++) fs.push_back(arrow::field("f" + std::to_string(i), ArrowType(t.kids[i])));
    return arrow::struct_(fs);
}
static void Must(const arrow::Status& s) {
    if (!s.ok()) {
        fprintf(stderr, "driver error: %s\n", s.ToString().c_str());
        _exit(97);
    }
}
static void Append(arrow::ArrayBuilder* b, const Type& t, const Val& v) {
    if (v.null) return Must(b->AppendNull());
    if (t.k == "bool") Must(static_cast<arrow::BooleanBuilder*>(b)->Append(v.raw[0]));
    else if (t.k == "i8") Must(static_cast<arrow::Int8Builder*>(b)->Append(v.raw[0]));
    else if (t.k == "i16") Must(static_cast<arrow::Int16Builder*>(b)->Append(Of<int16_t>(v.raw)));
    else if (t.k == "i32") Must(static_cast<arrow::Int32Builder*>(b)->Append(Of<int32_t>(v.raw)));
    else if (t.k == "date") Must(static_cast<arrow::Date32Builder*>(b)->Append(Of<int32_t>(v.raw)));
    else if (t.k == "i64") Must(static_cast<arrow::Int64Builder*>(b)->Append(Of<int64_t>(v.raw)));
    else if (t.k == "f32") Must(static_cast<arrow::FloatBuilder*>(b)->Append(Of<float>(v.raw)));
    else if (t.k == "f64") Must(static_cast<arrow::DoubleBuilder*>(b)->Append(Of<double>(v.raw)));
    else if (t.k == "str") Must(static_cast<arrow::StringBuilder*>(b)->Append(v.raw));
    else if (t.k == "bin") Must(static_cast<arrow::BinaryBuilder*>(b)->Append(v.raw));
    else if (t.k == "ts") {
        int64_t x = t.p == 0 ? v.ms / 1000 : t.p == 3 ? v.ms : t.p == 6 ? v.ms * 1000 + v.nano / 1000 : v.ms * 1000000 + v.nano;
        Must(static_cast<arrow::TimestampBuilder*>(b)->Append(x));
    } else if (t.k == "dec") {
        Must(static_cast<arrow::Decimal128Builder*>(b)->Append(arrow::Decimal128(static_cast<int64_t>(v.dec >> 64), static_cast<uint64_t>(v.dec))));
    } else if (t.k == "row") {
        auto s = static_cast<arrow::StructBuilder*>(b);
        for (size_t i = 0; i < t.kids.size(); i++) Append(s->field_builder(i), t.kids[i], v.kids[i]);
        Must(s->Append());
    } else {
        auto l = static_cast<arrow::ListBuilder*>(b);
        Must(l->Append());
        for (auto& k : v.kids) Append(l->value_builder(), t.kids[0], k);
    }
}
static std::shared_ptr<arrow::Array> Column(const Type& t, const std::vector<Val>& vs) {
    auto b = arrow::MakeBuilder(ArrowType(t)).ValueOrDie();
    for (auto& v : vs) Append(b.get(), t, v);
    std::shared_ptr<arrow::Array> a;
    Must(b->Finish(&a));
    return a;
}
// a struct of columns; the rows may lie in the middle of longer columns
static std::shared_ptr<arrow::Array> Table(const Types& ts, const std::vector<Row>& rows, vt::Rng& r) {
    int lead = r.Chance(30) ? r.In(1, 9) : 0, tail = r.Chance(30) ? r.In(1, 3) : 0;
    std::vector<Row> all;
    for (int i = 0; i < lead; i++) all.push_back(SomeRow(r, ts, 30));
    all.insert(all.end(), rows.begin(), rows.end());
    for (int i = 0; i < tail; i++) all.push_back(SomeRow(r, ts, 30));
    arrow::ArrayVector cols;
    std::vector<std::string> names;
    for (size_t c = 0; c < ts.size(); c++) {
        std::vector<Val> vs;
        for (auto& row : all) vs.push_back(row[c]);
        cols.push_back(Column(ts[c], vs));
        names.push_back("c" + std::to_string(c));
    }
    std::shared_ptr<arrow::Array> a = arrow::StructArray::Make(cols, names).ValueOrDie();
    return lead || tail ? a->Slice(lead, rows.size()) : a;
}
// nested rows in columns have no kind of their own
static void Plain(const Type& t, Val* v) {
    v->kind = 0;
    for (size_t i = 0; i < v->kids.size(); i++) Plain(t.k == "row" ? t.kids[i] : t.kids[0], &v->kids[i]);
}

static VariantType Variant(const Type& t, const Val& v, bool view) {
    if (v.null) return NullType();
    if (t.k == "bool") return static_cast<bool>(v.raw[0]);
    if (t.k == "i8") return static_cast<char>(v.raw[0]);
    if (t.k == "i16") return Of<int16_t>(v.raw);
    if (t.k == "i32" || t.k == "date") return Of<int32_t>(v.raw);
    if (t.k == "i64") return Of<int64_t>(v.raw);
    if (t.k == "f32") return Of<float>(v.raw);
    if (t.k == "f64") return Of<double>(v.raw);
    if (t.k == "ts") return Timestamp(v.ms, v.nano);
    if (t.k == "dec") return Decimal(t.p, t.s, v.dec);
    if (view) return std::string_view(v.raw);
    if (t.k == "str") return BinaryString::FromString(v.raw, pool.get());
    return std::make_shared<Bytes>(v.raw, pool.get());
}

static std::string Hash4(int32_t h) { return List(Raw(h)); }
static J Views(const Types& ts, const Row& x, const std::vector<int>& m, const Types& to) {
    std::string s = "[";
    for (size_t i = 0; i < m.size(); i++) s += (i ? ",[" : "[") + std::to_string(m[i] + 1) + ",\"" + to[i].Kind() + "\"]";
    return J().raw("f", Show(ts, x)).raw("m", s + "]");
}

static void BinaryRows(vt::Trace& tr) {
    auto& r = tr.rng;
    Types ts = SomeTypes(r, 2);
    BinaryRow row(ts.size());
    BinaryRowWriter w(&row, r.Pick(std::vector<int>{0, 8, 64, 1024}), pool.get());
    std::vector<std::pair<int, Row>> kept;
    std::vector<BinaryRow> rows;
    int nulls = r.Pick(std::vector<int>{0, 10, 50});
    std::vector<InternalRow::FieldGetterFunc> get;
    std::vector<BinaryRowWriter::FieldSetterFunc> set;
    bool flat = true;
    for (auto& t : ts) flat = flat && t.k != "row" && t.k != "arr";
    for (size_t i = 0; flat && i < ts.size(); i++) {
        get.push_back(InternalRow::CreateFieldGetter(i, ArrowType(ts[i]), false).value());
        set.push_back(BinaryRowWriter::CreateFieldSetter(i, ArrowType(ts[i])).value());
    }
    for (int n = r.In(1, 4); n > 0 && tr.last_ok; n--) {
        Row x = !kept.empty() && r.Chance(30) ? kept.back().second : SomeRow(r, ts, nulls);
        if (!kept.empty() && r.Chance(50)) {
            // equal but for one field
            size_t c = r.Below(x.size());
            x[c] = SomeVal(r, ts[c], nulls);
        }
        int kind = r.Below(4);
        tr.Op("row", J().k("kind", kind).raw("f", Show(ts, x)), [&]() -> Out {
            w.Reset();
            if (flat && r.Chance(40)) {
                // through the generic setters
                w.WriteRowKind(RowKind::FromByteValue(static_cast<int8_t>(kind)).value());
                bool view = r.Chance(50);
                for (size_t i = 0; i < ts.size(); i++) set[i](Variant(ts[i], x[i], view), &w);
                w.Complete();
            } else {
                FillRow(&w, ts, x, kind, r);
            }
            std::string b = BytesOf(row);
            BinaryRow other(ts.size());
            int lead = r.In(0, 17), piece = 64;
            while (piece < lead + row.GetFixedLengthPartSize()) piece *= 2;
            if (r.Chance(50)) other = row;
            else other.PointTo(Pieces(b, lead, piece), lead, b.size());
            BinaryRow copy = other.Copy(pool.get());
            BinaryRowSerializer ser(ts.size(), pool);
            MemorySegmentOutputStream out(r.Pick(std::vector<int>{8, 64, 1024}), pool);
            auto st = ser.Serialize(other, &out);
            if (!st.ok()) return Out::Err();
            auto packed = MemorySegmentUtils::CopyToBytes(out.Segments(), 0, out.CurrentSize(), pool.get());
            auto packed2 = SerializationUtils::SerializeBinaryRow(other, pool.get());
            Row back;
            if (r.Chance(50)) {
                DataInputStream in(std::make_shared<ByteArrayInputStream>(packed->data(), packed->size()));
                auto d = ser.Deserialize(&in);
                if (!d.ok()) return Out::Err();
                back = ReadAll(d.value(), ts);
            } else if (r.Chance(50)) {
                std::shared_ptr<Bytes> p = Bytes::AllocateBytes(packed2->size(), pool.get());
                memcpy(p->data(), packed2->data(), p->size());
                auto d = SerializationUtils::DeserializeBinaryRow(p);
                if (!d.ok() || d.value().GetFieldCount() != static_cast<int>(ts.size())) return Out::Err();
                back = ReadAll(d.value(), ts);
            } else {
                MemorySegmentOutputStream o2(r.Pick(std::vector<int>{8, 64, 1024}), pool);
                if (!SerializationUtils::SerializeBinaryRow(other, &o2).ok()) return Out::Err();
                auto p = MemorySegmentUtils::CopyToBytes(o2.Segments(), 0, o2.CurrentSize(), pool.get());
                DataInputStream in(std::make_shared<ByteArrayInputStream>(p->data(), p->size()));
                auto d = SerializationUtils::DeserializeBinaryRow(&in, pool.get());
                if (!d.ok()) return Out::Err();
                back = ReadAll(d.value(), ts);
            }
            Row seen = ReadAll(other, ts);
            if (flat && r.Chance(40)) {
                GenericRow g(ts.size());
                for (size_t i = 0; i < ts.size(); i++) g.SetField(i, get[i](other));
                seen = ReadAll(g, ts);
            }
            auto k = other.GetRowKind();
            bool any = other.AnyNull();
            std::vector<int32_t> fs;
            for (size_t i = 0; i < ts.size(); i++) fs.push_back(i);
            if (other.AnyNull(fs) != any) return Out::Err();
            rows.push_back(copy);
            return Out(J().raw("bytes", List(b)).raw("hash", Hash4(other.HashCode())).k("any", any).raw("seen", Show(ts, seen)).k("k", k.ok() ? k.value()->ToByteValue() : 99)
                           .raw("copy", List(BytesOf(copy))).raw("back", Show(ts, back))
                           .raw("packed", List(std::string(packed->data(), packed->size()))).raw("packed2", List(std::string(packed2->data(), packed2->size()))));
        });
        if (!tr.last_ok) return;
        kept.emplace_back(kind, x);
        // fields replaced in place
        Row y = x;
        std::vector<size_t> changed;
        for (int k = r.Below(4); k > 0; k--) {
            size_t c = r.Below(ts.size());
            if (ts[c].Wide() || ts[c].k == "dec" || ts[c].k == "ts") continue;
            y[c] = SomeVal(r, ts[c], 30);
            changed.push_back(c);
        }
        if (!changed.empty()) {
            tr.Op("set", J().k("kind", kind).raw("f", Show(ts, x)).raw("g", Show(ts, y)), [&] {
                BinaryRow b = rows.back().Copy(pool.get());
                if (r.Chance(50)) {
                    std::string all = BytesOf(b);
                    int lead = r.In(0, 17), piece = 64;
                    while (piece < lead + b.GetFixedLengthPartSize()) piece *= 2;
                    b.PointTo(Pieces(all, lead, piece), lead, all.size());
                }
                for (size_t c : changed) {
                    const Val& v = y[c];
                    if (v.null) b.SetNullAt(c);
                    else if (ts[c].k == "bool") b.SetBoolean(c, v.raw[0]);
                    else if (ts[c].k == "i8") b.SetByte(c, v.raw[0]);
                    else if (ts[c].k == "i16") b.SetShort(c, Of<int16_t>(v.raw));
                    else if (ts[c].k == "i32" || ts[c].k == "date") b.SetInt(c, Of<int32_t>(v.raw));
                    else if (ts[c].k == "i64") b.SetLong(c, Of<int64_t>(v.raw));
                    else if (ts[c].k == "f32") b.SetFloat(c, Of<float>(v.raw));
                    else b.SetDouble(c, Of<double>(v.raw));
                }
                return Out(J().raw("bytes", List(BytesOf(b))).raw("seen", Show(ts, ReadAll(b, ts))));
            });
        }
        size_t a = r.Below(kept.size()), c = kept.size() - 1;
        tr.Op("same", J().k("xk", kept[a].first).raw("x", Show(ts, kept[a].second)).k("yk", kept[c].first).raw("y", Show(ts, kept[c].second)), [&] {
            BinaryRow x(ts.size());
            std::string b = BytesOf(rows[a]);
            int lead = r.In(0, 9), piece = 64;
            while (piece < lead + rows[a].GetFixedLengthPartSize()) piece *= 2;
            x.PointTo(Pieces(b, lead, piece), lead, b.size());
            bool eq = x == rows[c];
            if (eq != (rows[c] == rows[a])) return Out::Err();
            if (eq && std::hash<BinaryRow>()(x) != std::hash<BinaryRow>()(rows[c])) return Out::Err();
            if (eq && std::hash<std::pair<BinaryRow, int32_t>>()({x, 3}) != std::hash<std::pair<BinaryRow, int32_t>>()({rows[c], 3})) return Out::Err();
            return Out(J().k("eq", eq));
        });
    }
}
static void Arrays(vt::Trace& tr) {
    auto& r = tr.rng;
    Type t = SomeType(r, 1);
    int width = t.Wide() ? 8 : t.Bytes();
    for (int n = r.In(1, 4); n > 0 && tr.last_ok; n--) {
        Row x;
        int nulls = r.Pick(std::vector<int>{0, 0, 20});
        for (int k = r.Chance(20) && t.k != "row" && t.k != "arr" ? r.In(30, 70) : r.In(0, 9); k > 0; k--) x.push_back(SomeVal(r, t, nulls));
        Types ts(x.size(), t);
        BinaryArray arr;
        tr.Op("array", J().k("w", width).raw("f", Show(ts, x)), [&] {
            BinaryArrayWriter w(&arr, x.size(), width, pool.get());
            if (r.Chance(30)) {
                Row y;
                for (size_t i = 0; i < x.size(); i++) y.push_back(SomeVal(r, t, 30));
                FillArray(&w, t, y, r);
                w.Reset();
            }
            FillArray(&w, t, x, r);
            if (r.Chance(20) && t.k == "i32" && nulls == 0) {
                std::vector<int32_t> v;
                for (auto& k : x) v.push_back(Of<int32_t>(k.raw));
                arr = BinaryArray::FromIntArray(v, pool.get());
            }
            if (r.Chance(20) && t.k == "i64" && nulls == 0) {
                std::vector<int64_t> v;
                for (auto& k : x) v.push_back(Of<int64_t>(k.raw));
                arr = BinaryArray::FromLongArray(v, pool.get());
            }
            std::string b = BytesOf(arr);
            if (r.Chance(50)) {
                int lead = r.In(0, 17);
                arr.PointTo(Pieces(b, lead, 1 << r.In(3, 7)), lead, b.size());
            }
            auto copy = arr.Copy(pool.get());
            return Out(J().raw("bytes", List(b)).k("any", arr.AnyNull()).raw("seen", Show(ts, ReadAll(arr, ts))).k("n", arr.Size()).raw("copy", List(BytesOf(copy)))
                           .raw("hash", Hash4(arr.HashCode())));
        });
        if (!tr.last_ok) return;
        std::shared_ptr<arrow::Array> col;
        std::unique_ptr<ColumnarArray> ca;
        if (t.k != "row" && t.k != "arr") {
            // the column holds more than the array
            int lead = r.In(0, 5);
            Row y(lead, x.empty() ? Val{true} : x[0]);
            y.insert(y.end(), x.begin(), x.end());
            for (int k = r.Below(3); k > 0; k--) y.push_back(Val{true});
            col = Column(t, y);
            ca = std::make_unique<ColumnarArray>(col, pool, lead, x.size());
            std::vector<int> m;
            for (size_t i = 0; i < x.size(); i++) m.push_back(i);
            if (!x.empty()) tr.Op("view", Views(ts, x, m, ts), [&] { return Out(J().raw("seen", Show(ts, ReadAll(*ca, ts, r.Chance(50)))).k("n", ca->Size())); });
        }
        auto numbers = [&](const InternalArray& a) -> Out {
            Row y;
            auto fill = [&](auto res) {
                if (!res.ok()) return false;
                for (auto v : res.value()) {
                    Val k;
                    k.raw = Raw(v);
                    y.push_back(k);
                }
                return true;
            };
            bool ok = t.k == "bool" ? fill(a.ToBooleanArray()) : t.k == "i8" ? fill(a.ToByteArray()) : t.k == "i16" ? fill(a.ToShortArray()) : t.k == "i32" ? fill(a.ToIntArray())
                      : t.k == "i64" ? fill(a.ToLongArray()) : t.k == "f32" ? fill(a.ToFloatArray()) : fill(a.ToDoubleArray());
            return ok ? Out(J().raw("seen", Show(ts, y))) : Out::Err();
        };
        bool number = t.k == "bool" || t.k[0] == 'i' || t.k[0] == 'f';
        if (number) {
            tr.Op("numbers", J().raw("f", Show(ts, x)), [&] { return numbers(arr); });
            if (!Show(ts, x).empty() && std::none_of(x.begin(), x.end(), [](const Val& v) { return v.null; }))
                tr.Op("numbers", J().raw("f", Show(ts, x)), [&] { return numbers(*ca); });
            tr.last_ok = true;
        }
        if (t.k == "i64") tr.Op("array", J().k("w", 8).raw("f", Show(ts, x)), [&] {
            auto a = BinaryArray::FromLongArray(r.Chance(50) ? static_cast<InternalArray*>(ca.get()) : &arr, pool.get());
            std::string b = BytesOf(a);
            return Out(J().raw("bytes", List(b)).k("any", a.AnyNull()).raw("seen", Show(ts, ReadAll(a, ts))).k("n", a.Size()).raw("copy", List(b)).raw("hash", Hash4(a.HashCode())));
        });
        if (x.empty()) continue;
        // several elements in another order, some of them missing
        std::vector<int> m;
        for (int k = r.In(1, 6); k > 0; k--) m.push_back(r.In(-1, static_cast<int>(x.size()) - 1));
        Types to(m.size(), t);
        tr.Op("view", Views(ts, x, m, to), [&] {
            if (r.Chance(50)) {
                ProjectedArray p(std::make_shared<BinaryArray>(arr), m);
                return Out(J().raw("seen", Show(to, ReadAll(p, to))).k("n", p.Size()));
            }
            // the same array twice, every element from one of them
            std::vector<int32_t> which;
            for (int k : m) which.push_back(k < 0 ? -1 : r.Below(2));
            DataEvolutionArray p({arr, arr}, which, m);
            return Out(J().raw("seen", Show(to, ReadAll(p, to))).k("n", p.Size()));
        });
    }
}
static void RowViews(vt::Trace& tr) {
    auto& r = tr.rng;
    bool cols = r.Chance(50);
    Types ts = SomeTypes(r, cols ? 2 : 0);
    std::vector<Row> rows;
    for (int n = r.In(1, 4); n > 0; n--) {
        rows.push_back(SomeRow(r, ts, 20));
        if (cols)
            for (size_t i = 0; i < ts.size(); i++) Plain(ts[i], &rows.back()[i]);
    }
    std::shared_ptr<arrow::Array> table = cols ? Table(ts, rows, r) : nullptr;
    for (int n = r.In(2, 5); n > 0 && tr.last_ok; n--) {
        size_t at = r.Below(rows.size());
        const Row& x = rows[at];
        bool view = r.Chance(50);
        std::shared_ptr<InternalRow> base;
        std::vector<BinaryRow> parts;
        std::vector<int32_t> part_of, place_in;
        int form = cols ? 0 : r.In(1, 3);
        auto sa = std::static_pointer_cast<arrow::StructArray>(table);
        arrow::ArrayVector fields;
        if (form == 0) {
            for (int i = 0; i < sa->num_fields(); i++) fields.push_back(sa->field(i));
            base = std::make_shared<ColumnarRow>(fields, pool, at);
        } else if (form == 1) {
            auto g = std::make_shared<GenericRow>(ts.size());
            for (size_t i = 0; i < ts.size(); i++) g->SetField(i, Variant(ts[i], x[i], view));
            base = g;
        } else {
            view = false;
            // binary rows that hold the fields between them
            int k = form == 2 ? 1 : r.In(1, 3);
            std::vector<std::vector<int>> own(k);
            for (size_t i = 0; i < ts.size(); i++) own[r.Below(k)].push_back(i);
            part_of.resize(ts.size()), place_in.resize(ts.size());
            for (int p = 0; p < k; p++) {
                Types pt;
                Row px;
                for (size_t i = 0; i < own[p].size(); i++) {
                    pt.push_back(ts[own[p][i]]), px.push_back(x[own[p][i]]);
                    part_of[own[p][i]] = p, place_in[own[p][i]] = i;
                }
                BinaryRow b(pt.size());
                BinaryRowWriter w(&b, 16, pool.get());
                w.Reset();
                FillRow(&w, pt, px, 0, r);
                parts.push_back(b);
            }
            if (form == 2) base = std::make_shared<BinaryRow>(parts[0]);
            else base = std::make_shared<DataEvolutionRow>(parts, part_of, place_in);
        }
        std::vector<int> m;
        int how = r.Below(3);
        if (how == 0)
            for (size_t i = 0; i < ts.size(); i++) m.push_back(i);
        else if (how == 1)
            for (int k = r.In(1, 6); k > 0; k--) m.push_back(r.In(-1, static_cast<int>(ts.size()) - 1));
        else {
            int from = r.Below(ts.size());
            for (int i = from, e = r.In(from, static_cast<int>(ts.size()) - 1); i <= e; i++) m.push_back(i);
        }
        // a date of a column cannot be asked through a projection
        if (how == 1 && form == 0)
            for (auto& k : m)
                if (k >= 0 && ts[k].k == "date") k = -1;
        Types to;
        for (int k : m) to.push_back(k < 0 ? Type{"i8"} : ts[k]);
        tr.Op("view", Views(ts, x, m, to), [&]() -> Out {
            std::shared_ptr<InternalRow> v = base;
            if (how == 1) v = std::make_shared<ProjectedRow>(base, m);
            if (how == 2) v = std::make_shared<OffsetRow>(*base, m.size(), m[0]);
            int kind = r.Below(4);
            if (how != 2) {
                v->SetRowKind(RowKind::FromByteValue(static_cast<int8_t>(kind)).value());
                auto k = v->GetRowKind();
                if (!k.ok() || k.value()->ToByteValue() != kind) return Out::Err();
            }
            bool vw = form == 1 ? view : form == 0 ? r.Chance(50) : false;
            Row seen = ReadAll(*v, to, vw);
            return Out(J().raw("seen", Show(to, seen)).k("n", v->GetFieldCount()));
        });
    }
}
// a number whose key row has the given hash; its low half is free
static int64_t NumberOfHash(uint32_t h, uint32_t low) {
    auto inv = [](uint32_t a) {
        uint32_t x = a;
        for (int i = 0; i < 5; i++) x *= 2 - a * x;
        return x;
    };
    auto rotl = [](uint32_t x, int n) { return (x << n) | (x >> (32 - n)); };
    auto k1 = [&](uint32_t k) { return rotl(k * 0xcc9e2d51u, 15) * 0x1b873593u; };
    uint32_t before = 42;
    for (uint32_t k : {0u, 0u, low}) before = rotl(before ^ k1(k), 13) * 5 + 0xe6546b64u;
    h ^= h >> 16;
    h *= inv(0xc2b2ae35u);
    h ^= (h >> 13) ^ (h >> 26);
    h *= inv(0x85ebca6bu);
    h ^= h >> 16;
    h ^= 16;
    uint32_t k = rotl((h - 0xe6546b64u) * inv(5), 19) ^ before;
    k = rotl(k * inv(0x1b873593u), 17) * inv(0xcc9e2d51u);
    return static_cast<int64_t>(static_cast<uint64_t>(k) << 32 | low);
}
static void Buckets(vt::Trace& tr) {
    auto& r = tr.rng;
    Types ts;
    bool chosen = r.Chance(15);
    if (chosen) ts.push_back(Type{"i64"});
    for (int n = chosen ? 0 : r.In(1, 4); n > 0; n--) ts.push_back(SomeType(r, 0));
    for (int n = r.In(1, 3); n > 0 && tr.last_ok; n--) {
        int count = r.Pick(std::vector<int>{-2, -1, 1, 2, 3, 7, 16, 100, 1000, 8000000});
        bool pk = count == -2 || (count != -1 && r.Chance(50));
        std::vector<Row> rows;
        for (int k = r.In(0, 6); k > 0; k--) rows.push_back(!rows.empty() && r.Chance(20) ? r.Pick(rows) : SomeRow(r, ts, 20));
        // hashes at the ends of the range
        for (auto& x : rows)
            if (chosen && r.Chance(80)) x[0].null = false, x[0].raw = Raw(NumberOfHash(r.Pick(std::vector<uint32_t>{0, 1, 0x7fffffff, 0x80000000, 0x80000001, 0xffffffff}), r.Next()));
        std::string all = "[";
        for (auto& x : rows) all += (all.size() > 1 ? "," : "") + Show(ts, x);
        tr.Op("bucket", J().k("n", count).raw("rows", all + "]"), [&]() -> Out {
            auto c = r.Chance(50) ? BucketIdCalculator::Create(pk, count, pool) : BucketIdCalculator::Create(pk, count);
            if (!c.ok()) return Out::Err();
            auto table = Table(ts, rows, r);
            ArrowArray a;
            ArrowSchema s;
            Must(arrow::ExportArray(*table, &a, &s));
            std::vector<int32_t> ids(rows.size() + 2, -77);
            auto st = c.value()->CalculateBucketIds(&a, &s, ids.data());
            if (!st.ok() || ids[rows.size()] != -77) return Out::Err();
            ids.resize(rows.size());
            return Out(J().k("ids", ids));
        });
    }
    int count = r.In(-4, 3);
    bool pk = r.Chance(50);
    tr.Op("refused", J().k("n", count).k("pk", pk), [&] { return BucketIdCalculator::Create(pk, count).ok() ? Out(J()) : Out::Err(); });
}

static std::string mode;
static void Gen(vt::Trace& tr) {
    tr.Init(J());
    large = 0;
    if (mode == "bucket") return Buckets(tr);
    switch (tr.rng.Below(3)) {
        case 0: return BinaryRows(tr);
        case 1: return Arrays(tr);
        default: return RowViews(tr);
    }
}
int main(int argc, char** argv) {
    for (int i = 1; i + 1 < argc; i++)
        if (std::string(argv[i]) == "--mode") mode = argv[i + 1];
    return vt::Run(argc, argv, Gen);
}
