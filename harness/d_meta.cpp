// C14: descriptions of files, messages, splits, manifest entries and snapshots, written and read back.
#include <cstring>

#include "paimon/commit_message.h"
#include "paimon/common/data/binary_array_writer.h"
#include "paimon/common/data/binary_row_writer.h"
#include "paimon/common/io/memory_segment_output_stream.h"
#include "paimon/common/utils/internal_row_utils.h"
#include "paimon/common/utils/serialization_utils.h"
#include "paimon/core/global_index/indexed_split_impl.h"
#include "paimon/core/index/index_file_meta_serializer.h"
#include "paimon/core/io/data_file_meta_serializer.h"
#include "paimon/core/manifest/index_manifest_entry_serializer.h"
#include "paimon/core/manifest/manifest_entry_serializer.h"
#include "paimon/core/manifest/manifest_file_meta_serializer.h"
#include "paimon/core/snapshot.h"
#include "paimon/core/table/sink/commit_message_impl.h"
#include "paimon/core/table/source/data_split_impl.h"
#include "paimon/core/table/source/fallback_data_split.h"
#include "paimon/memory/memory_pool.h"
#include "rapidjson/document.h"
#include "vtrace.h"

using namespace paimon;  // NOLINT
using vt::J;
using vt::Out;

static std::shared_ptr<MemoryPool> pool = GetMemoryPool();
using File = std::shared_ptr<DataFileMeta>;
using Index = std::shared_ptr<IndexFileMeta>;
using Strings = std::vector<std::string>;

static std::string List(std::string_view b) {
    std::string s = "[";
    for (unsigned char c : b) s += (s.size() > 1 ? "," : "") + std::to_string(c);
    return s + "]";
}
static std::string Join(const Strings& v) {
    std::string s = "[";
    for (auto& x : v) s += (s.size() > 1 ? "," : "") + x;
    return s + "]";
}
template <class T>
static std::string Le(T v) { return List(std::string_view(reinterpret_cast<const char*>(&v), sizeof v)); }
template <class T>
static std::string Be(T v) {
    std::string s(reinterpret_cast<const char*>(&v), sizeof v);
    std::reverse(s.begin(), s.end());
    return List(s);
}
// a field of a row
static std::string F(const char* t, const std::string& v) { return std::string("{\"t\":\"") + t + "\",\"v\":[" + v + "]}"; }
static std::string Text(std::string_view s) { return F("text", List(s)); }
static std::string OptText(const std::optional<std::string>& s) { return s ? Text(*s) : F("text", ""); }
static std::string B8(int64_t v) { return F("b8", Le(v)); }
static std::string B4(int32_t v) { return F("b4", Le(v)); }
static std::string OptB8(const std::optional<int64_t>& v) { return v ? B8(*v) : F("b8", ""); }
static std::string OptB4(const std::optional<int32_t>& v) { return v ? B4(*v) : F("b4", ""); }
static std::string RowText(const BinaryRow& r) {
    auto b = SerializationUtils::SerializeBinaryRow(r, pool.get());
    return std::string(b->data(), b->size());
}
static std::string RowF(const Strings& f) { return F("row", "{\"k\":0,\"f\":" + Join(f) + "}"); }
static std::string ArrF(int w, const Strings& f) { return F("arr", "{\"w\":" + std::to_string(w) + ",\"f\":" + Join(f) + "}"); }
static std::string Texts(const std::optional<Strings>& v) {
    if (!v) return F("arr", "");
    Strings f;
    for (auto& x : *v) f.push_back(Text(x));
    return ArrF(8, f);
}
static std::string StatsF(const SimpleStats& s) {
    Strings n;
    for (int i = 0; i < s.NullCounts().Size(); i++) n.push_back(s.NullCounts().IsNullAt(i) ? F("b8", "") : B8(s.NullCounts().GetLong(i)));
    return RowF({Text(RowText(s.MinValues())), Text(RowText(s.MaxValues())), ArrF(8, n)});
}
static Strings FileF(const DataFileMeta& m) {
    Strings extra;
    for (auto& x : m.extra_files) extra.push_back(OptText(x));
    return {Text(m.file_name), B8(m.file_size), B8(m.row_count), Text(RowText(m.min_key)), Text(RowText(m.max_key)), StatsF(m.key_stats), StatsF(m.value_stats),
            B8(m.min_sequence_number), B8(m.max_sequence_number), B8(m.schema_id), B4(m.level), ArrF(8, extra), B8(m.creation_time.GetMillisecond()),
            OptB8(m.delete_row_count), m.embedded_index ? Text(std::string_view(m.embedded_index->data(), m.embedded_index->size())) : F("text", ""),
            m.file_source ? F("b1", Le<int8_t>(m.file_source->ToByteValue())) : F("b1", ""), Texts(m.value_stats_cols), OptText(m.external_path), OptB8(m.first_row_id),
            Texts(m.write_cols)};
}
static Strings IndexF(const IndexFileMeta& m) {
    std::string dv = F("arr", ""), global = F("row", "");
    if (m.DvRanges()) {
        Strings rows;
        for (const auto& kv : *m.DvRanges()) {
            const auto& d = kv.second;
            rows.push_back(RowF({Text(kv.first == d.data_file_name ? kv.first : "?"), B4(d.offset), B4(d.length), OptB8(d.cardinality)}));
        }
        dv = ArrF(8, rows);
    }
    if (auto& g = m.GetGlobalIndexMeta()) {
        std::string ids = F("arr", "");
        if (g->extra_field_ids) {
            Strings v;
            for (int x : *g->extra_field_ids) v.push_back(B4(x));
            ids = ArrF(4, v);
        }
        global = RowF({B8(g->row_range_start), B8(g->row_range_end), B4(g->index_field_id), ids,
                       g->index_meta ? Text(std::string_view(g->index_meta->data(), g->index_meta->size())) : F("text", "")});
    }
    return {Text(m.IndexType()), Text(m.FileName()), B8(m.FileSize()), B8(m.RowCount()), dv, OptText(m.ExternalPath()), global};
}
template <class T, class S>
static std::string All(const std::vector<T>& v, S show) {
    Strings s;
    for (auto& x : v) s.push_back(Join(show(*x)));
    return Join(s);
}
static std::string Show(const CommitMessageImpl& m) {
    auto& d = m.GetNewFilesIncrement();
    auto& c = m.GetCompactIncrement();
    J j;
    j.raw("part", List(RowText(m.Partition()))).raw("bucket", Be(m.Bucket())).raw("total", m.TotalBuckets() ? "[" + Be(*m.TotalBuckets()) + "]" : "[]");
    j.raw("data", Join({All(d.NewFiles(), FileF), All(d.DeletedFiles(), FileF), All(d.ChangelogFiles(), FileF), All(d.NewIndexFiles(), IndexF), All(d.DeletedIndexFiles(), IndexF)}));
    j.raw("compact", Join({All(c.CompactBefore(), FileF), All(c.CompactAfter(), FileF), All(c.ChangelogFiles(), FileF), All(c.NewIndexFiles(), IndexF), All(c.DeletedIndexFiles(), IndexF)}));
    return j.str();
}
static std::string Show(const std::vector<std::optional<DeletionFile>>& v) {
    Strings s;
    for (auto& d : v)
        s.push_back(!d ? "[]" : "[" + J().raw("path", List(d->path)).raw("from", Be(d->offset)).raw("len", Be(d->length)).raw("card", d->cardinality ? "[" + Be(*d->cardinality) + "]" : "[]").str() + "]");
    return Join(s);
}
static std::string Show(const DataSplitImpl& s) {
    return J()
        .raw("snapshot", Be(s.SnapshotId())).raw("part", List(RowText(s.Partition()))).raw("bucket", Be(s.Bucket())).raw("path", List(s.BucketPath()))
        .raw("total", s.TotalBuckets() ? "[" + Be(*s.TotalBuckets()) + "]" : "[]").raw("before", All(s.BeforeFiles(), FileF)).raw("beforeDel", Show(s.BeforeDeletionFiles()))
        .raw("files", All(s.DataFiles(), FileF)).raw("del", Show(s.DeletionFiles())).k("streaming", s.IsStreaming()).k("raw", s.RawConvertible()).str();
}

// ---- random values
static int64_t Long(vt::Rng& r) {
    return r.Pick(std::vector<int64_t>{0, 1, -1, 255, 65536, 2147483647, 2147483648ll, 4294967296ll, -2147483649ll, INT64_MAX, INT64_MIN, static_cast<int64_t>(r.Next())});
}
static int32_t Int(vt::Rng& r) { return r.Pick(std::vector<int32_t>{0, 1, -1, -2, 255, 65536, INT32_MAX, INT32_MIN}); }
static std::string Name(vt::Rng& r) {
    std::string s;
    for (int n = r.Pick(std::vector<int>{0, 1, 6, 7, 8, 9, 20}); n > 0; n--) s += r.Pick(std::vector<char>{'a','b','/','-','.','\x01','\x7f','\xc3','\xa9'});
    return s;
}
template <class G>
static auto Maybe(vt::Rng& r, G g) -> std::optional<decltype(g(r))> {
    if (r.Chance(50)) return std::nullopt;
    return g(r);
}
static Strings Names(vt::Rng& r) {
    Strings v;
    for (int n = r.Below(4); n > 0; n--) v.push_back(Name(r));
    return v;
}
static BinaryRow Row(vt::Rng& r) {
    int n = r.Below(4);
    if (n == 0) return BinaryRow::EmptyRow();
    BinaryRow row(n);
    BinaryRowWriter w(&row, 32, pool.get());
    w.Reset();
    for (int i = 0; i < n; i++) {
        if (r.Chance(20)) w.SetNullAt(i);
        else if (r.Chance(50)) w.WriteLong(i, Long(r));
        else w.WriteStringView(i, Name(r));
    }
    w.Complete();
    return row;
}
static std::shared_ptr<Bytes> SomeBytes(vt::Rng& r) { return r.Chance(50) ? nullptr : std::make_shared<Bytes>(Name(r), pool.get()); }
static SimpleStats Stats(vt::Rng& r) {
    if (r.Chance(30)) return SimpleStats::EmptyStats();
    BinaryArray nulls;
    int n = r.Below(4);
    BinaryArrayWriter w(&nulls, n, 8, pool.get());
    for (int i = 0; i < n; i++) {
        if (r.Chance(20)) w.SetNullAt(i);
        else w.WriteLong(i, Long(r));
    }
    w.Complete();
    return SimpleStats(Row(r), Row(r), nulls);
}
static File SomeFile(vt::Rng& r) {
    std::vector<std::optional<std::string>> extra;
    for (int n = r.Below(3); n > 0; n--) extra.push_back(Maybe(r, Name));
    auto source = [](vt::Rng& r) { return r.Chance(50) ? FileSource::Append() : FileSource::Compact(); };
    return std::make_shared<DataFileMeta>(Name(r), Long(r), Long(r), Row(r), Row(r), Stats(r), Stats(r), Long(r), Long(r), Long(r), Int(r), extra, Timestamp(Long(r), 0),
                                          Maybe(r, Long), SomeBytes(r), Maybe(r, source), Maybe(r, Names), Maybe(r, Name), Maybe(r, Long), Maybe(r, Names));
}
static Index SomeIndex(vt::Rng& r) {
    std::optional<LinkedHashMap<std::string, DeletionVectorMeta>> dv;
    if (r.Chance(60)) {
        dv.emplace();
        for (int n = r.Below(4); n > 0; n--) {
            std::string f = Name(r);
            dv->insert_or_assign(f, DeletionVectorMeta(f, Int(r), Int(r), Maybe(r, Long)));
        }
    }
    std::optional<GlobalIndexMeta> g;
    if (r.Chance(50)) {
        std::optional<std::vector<int32_t>> ids;
        if (r.Chance(50)) {
            ids.emplace();
            for (int n = r.Below(4); n > 0; n--) ids->push_back(Int(r));
        }
        g.emplace(Long(r), Long(r), Int(r), ids, SomeBytes(r));
    }
    return std::make_shared<IndexFileMeta>(Name(r), Name(r), Long(r), Long(r), dv, Maybe(r, Name), g);
}
static std::vector<File> Files(vt::Rng& r) {
    std::vector<File> v;
    if (r.Chance(30))
        for (int n = r.In(1, 2); n > 0; n--) v.push_back(SomeFile(r));
    return v;
}
static std::vector<Index> Indexes(vt::Rng& r) {
    std::vector<Index> v;
    if (r.Chance(30))
        for (int n = r.In(1, 2); n > 0; n--) v.push_back(SomeIndex(r));
    return v;
}
static std::shared_ptr<CommitMessageImpl> SomeMessage(vt::Rng& r, bool old) {
    auto before = Files(r), after = Files(r), log = Files(r);
    bool compacts = !before.empty() || !after.empty() || !log.empty();
    std::vector<Index> none;
    return std::make_shared<CommitMessageImpl>(
        Row(r), Int(r), Maybe(r, Int), DataIncrement(Files(r), Files(r), Files(r), old && compacts ? std::move(none) : Indexes(r), old && compacts ? std::move(none) : Indexes(r)),
        CompactIncrement(std::move(before), std::move(after), std::move(log), old && !compacts ? std::vector<Index>() : Indexes(r), old && !compacts ? std::vector<Index>() : Indexes(r)));
}
static std::vector<std::optional<DeletionFile>> Dels(vt::Rng& r, size_t n) {
    std::vector<std::optional<DeletionFile>> v;
    if (n == 0 || r.Chance(40)) return v;
    // -1 says that the number is not known
    auto card = [](vt::Rng& r) { int64_t c = Long(r); return c < 0 ? 5 : c; };
    for (size_t i = 0; i < n; i++) v.push_back(r.Chance(30) ? std::nullopt : std::optional<DeletionFile>(DeletionFile(Name(r), Long(r), Long(r), Maybe(r, card))));
    return v;
}
static std::shared_ptr<DataSplitImpl> SomeSplit(vt::Rng& r) {
    auto files = Files(r), before = Files(r);
    auto d1 = Dels(r, files.size()), d2 = Dels(r, before.size());
    int32_t bucket = Int(r);  // -1 is refused by the builder
    DataSplitImpl::Builder b(Row(r), bucket == -1 ? 7 : bucket, Name(r), std::move(files));
    b.WithTotalBuckets(Maybe(r, Int)).WithSnapshot(Long(r)).WithBeforeFiles(std::move(before)).WithBeforeDeletionFiles(d2).WithDataDeletionFiles(d1).IsStreaming(r.Chance(50)).RawConvertible(r.Chance(50));
    return b.Build().value();
}

// ---- layouts of earlier versions: the rows of the current one without the columns added later
struct Old {
    MemorySegmentOutputStream out{64, pool};
    void RowOf(const BinaryRow& full, int n, const std::function<void(BinaryRowWriter*)>& fill) {
        BinaryRow row(n);
        BinaryRowWriter w(&row, 64, pool.get());
        w.Reset();
        fill(&w);
        w.Complete();
        out.WriteValue<int32_t>(row.GetSizeInBytes());
        auto b = MemorySegmentUtils::CopyToBytes(row.GetSegments(), row.GetOffset(), row.GetSizeInBytes(), pool.get());
        out.Write(b->data(), b->size());
    }
    void Strs(BinaryRowWriter* w, int pos, const std::optional<Strings>& v) {
        if (!v) w->SetNullAt(pos);
        else w->WriteArray(pos, InternalRowUtils::ToNotNullStringArrayData(*v, pool));
    }
    void Str(BinaryRowWriter* w, int pos, const std::optional<std::string>& v) {
        if (!v) w->SetNullAt(pos);
        else w->WriteStringView(pos, *v);
    }
    void Num(BinaryRowWriter* w, int pos, const std::optional<int64_t>& v) {
        if (!v) w->SetNullAt(pos);
        else w->WriteLong(pos, *v);
    }
    void Files(const std::vector<File>& v, int cols) {
        out.WriteValue<int32_t>(v.size());
        for (auto& m : v)
            RowOf(BinaryRow(0), cols, [&](BinaryRowWriter* w) {
                w->WriteStringView(0, m->file_name);
                w->WriteLong(1, m->file_size);
                w->WriteLong(2, m->row_count);
                w->WriteStringView(3, RowText(m->min_key));
                w->WriteStringView(4, RowText(m->max_key));
                w->WriteRow(5, m->key_stats.ToRow());
                w->WriteRow(6, m->value_stats.ToRow());
                w->WriteLong(7, m->min_sequence_number);
                w->WriteLong(8, m->max_sequence_number);
                w->WriteLong(9, m->schema_id);
                w->WriteInt(10, m->level);
                w->WriteArray(11, InternalRowUtils::ToStringArrayData(m->extra_files, pool));
                w->WriteTimestamp(12, m->creation_time, 3);
                Num(w, 13, m->delete_row_count);
                if (m->embedded_index) w->WriteBinary(14, *m->embedded_index);
                else w->SetNullAt(14);
                if (m->file_source) w->WriteByte(15, m->file_source->ToByteValue());
                else w->SetNullAt(15);
                if (cols > 16) Strs(w, 16, m->value_stats_cols);
                if (cols > 17) Str(w, 17, m->external_path);
                if (cols > 18) Num(w, 18, m->first_row_id);
                if (cols > 19) Strs(w, 19, m->write_cols);
            });
    }
    void Indexes(const std::vector<Index>& v, int cols, int dv) {
        out.WriteValue<int32_t>(v.size());
        for (auto& m : v)
            RowOf(BinaryRow(0), cols, [&](BinaryRowWriter* w) {
                w->WriteStringView(0, m->IndexType());
                w->WriteStringView(1, m->FileName());
                w->WriteLong(2, m->FileSize());
                w->WriteLong(3, m->RowCount());
                if (!m->DvRanges()) {
                    w->SetNullAt(4);
                } else {
                    BinaryArray a;
                    BinaryArrayWriter aw(&a, m->DvRanges()->size(), 8, pool.get());
                    int i = 0;
                    for (const auto& kv : *m->DvRanges()) {
                        BinaryRow row(dv);
                        BinaryRowWriter rw(&row, 64, pool.get());
                        rw.Reset();
                        rw.WriteStringView(0, kv.first);
                        rw.WriteInt(1, kv.second.offset);
                        rw.WriteInt(2, kv.second.length);
                        if (dv > 3) Num(&rw, 3, kv.second.cardinality);
                        rw.Complete();
                        aw.WriteRow(i++, row);
                    }
                    aw.Complete();
                    w->WriteArray(4, a);
                }
                if (cols > 5) Str(w, 5, m->ExternalPath());
            });
    }
    std::string Done() {
        auto b = MemorySegmentUtils::CopyToBytes(out.Segments(), 0, out.CurrentSize(), pool.get());
        return std::string(b->data(), b->size());
    }
    void Part(const BinaryRow& p) {
        std::string b = RowText(p);
        out.WriteValue<int32_t>(b.size());
        out.Write(b.data(), b.size());
    }
    void Total(const std::optional<int32_t>& t) {
        out.WriteValue<bool>(t.has_value());
        if (t) out.WriteValue<int32_t>(*t);
    }
    void Dels(const std::vector<std::optional<DeletionFile>>& v, int version) {
        out.WriteValue<char>(!v.empty());
        if (v.empty()) return;
        out.WriteValue<int32_t>(v.size());
        for (auto& d : v) {
            out.WriteValue<char>(d.has_value());
            if (!d) continue;
            out.WriteString(d->path);
            out.WriteValue<int64_t>(d->offset);
            out.WriteValue<int64_t>(d->length);
            if (version >= 4) out.WriteValue<int64_t>(d->cardinality ? *d->cardinality : -1);
        }
    }
};
static std::string OldMessage(const CommitMessageImpl& m, int v) {
    Old o;
    int cols = v >= 9 ? 20 : v == 8 ? 19 : v >= 6 ? 18 : v >= 4 ? 17 : 16, icols = v >= 9 ? 6 : 5, dv = v <= 4 ? 3 : 4;
    auto& d = m.GetNewFilesIncrement();
    auto& c = m.GetCompactIncrement();
    auto with = [](std::vector<Index> a, const std::vector<Index>& b) {
        a.insert(a.end(), b.begin(), b.end());
        return a;
    };
    o.Part(m.Partition());
    o.out.WriteValue<int32_t>(m.Bucket());
    if (v >= 7) o.Total(m.TotalBuckets());
    for (auto* l : {&d.NewFiles(), &d.DeletedFiles(), &d.ChangelogFiles()}) o.Files(*l, cols);
    if (v >= 10) o.Indexes(d.NewIndexFiles(), icols, dv), o.Indexes(d.DeletedIndexFiles(), icols, dv);
    for (auto* l : {&c.CompactBefore(), &c.CompactAfter(), &c.ChangelogFiles()}) o.Files(*l, cols);
    if (v >= 10) o.Indexes(c.NewIndexFiles(), icols, dv), o.Indexes(c.DeletedIndexFiles(), icols, dv);
    else o.Indexes(with(d.NewIndexFiles(), c.NewIndexFiles()), icols, dv), o.Indexes(with(d.DeletedIndexFiles(), c.DeletedIndexFiles()), icols, dv);
    return o.Done();
}
static std::string OldSplit(const DataSplitImpl& s, int v) {
    Old o;
    int cols = v >= 8 ? 20 : v == 7 ? 19 : v >= 5 ? 18 : v >= 3 ? 17 : 16;
    o.out.WriteValue<int64_t>(DataSplitImpl::MAGIC);
    o.out.WriteValue<int32_t>(v);
    o.out.WriteValue<int64_t>(s.SnapshotId());
    o.Part(s.Partition());
    o.out.WriteValue<int32_t>(s.Bucket());
    o.out.WriteString(s.BucketPath());
    if (v >= 6) o.Total(s.TotalBuckets());
    o.Files(s.BeforeFiles(), cols);
    o.Dels(s.BeforeDeletionFiles(), v);
    o.Files(s.DataFiles(), cols);
    o.Dels(s.DeletionFiles(), v);
    o.out.WriteValue<bool>(s.IsStreaming());
    o.out.WriteValue<bool>(s.RawConvertible());
    return o.Done();
}

// the reader sees exactly these bytes and no others
static Result<std::shared_ptr<CommitMessage>> ReadMessage(int version, const std::string& b) {
    std::unique_ptr<char[]> own(new char[b.size()]);
    memcpy(own.get(), b.data(), b.size());
    return CommitMessage::Deserialize(version, own.get(), b.size(), pool);
}
static Result<std::shared_ptr<Split>> ReadSplit(const std::string& b) {
    std::unique_ptr<char[]> own(new char[b.size()]);
    memcpy(own.get(), b.data(), b.size());
    return Split::Deserialize(own.get(), b.size(), pool);
}
static void Put4(std::string* b, size_t at, uint32_t v) {
    for (int i = 0; i < 4; i++) (*b)[at + i] = static_cast<char>(v >> (24 - 8 * i));
}

static void Messages(vt::Trace& tr) {
    auto& r = tr.rng;
    int v = r.Chance(40) ? 11 : r.Chance(5) ? r.Pick(std::vector<int>{-1, 0, 1, 2, 12, 100}) : r.In(3, 10);
    auto m = SomeMessage(r, v < 10);
    std::string bytes;
    tr.Op("message", J().k("version", v).raw("m", Show(*m)), [&]() -> Out {
        if (v == 11) {
            auto b = CommitMessage::Serialize(m, pool);
            if (!b.ok()) return Out::Err();
            bytes = b.value();
        } else {
            bytes = OldMessage(*m, v);
        }
        auto back = ReadMessage(v, bytes);
        if (!back.ok()) return Out::Err();
        return Out(J().raw("bytes", List(bytes)).raw("back", Show(*std::dynamic_pointer_cast<CommitMessageImpl>(back.value()))));
    });
    if (!tr.last_ok || v < 3 || v > 11) return;
    for (int n = 3; n > 0; n--) {
        size_t k = r.Chance(30) ? bytes.size() - 1 : r.Below(bytes.size());
        tr.Op("damaged", J().k("cut", k), [&] { return ReadMessage(v, bytes.substr(0, k)).ok() ? Out(J()) : Out::Err(); });
    }
    // counts and sizes that cannot be
    size_t part = RowText(m->Partition()).size(), list = 4 + part + 4 + (v >= 7 ? (m->TotalBuckets() ? 5 : 1) : 0);
    for (size_t at : {size_t(0), list, list + 4}) {
        if (at > list && m->GetNewFilesIncrement().NewFiles().empty()) continue;
        std::string b = bytes;
        Put4(&b, at, r.Pick(std::vector<uint32_t>{0xffffffff, 0x80000000, 0xfffffff0}));
        tr.Op("damaged", J().k("at", at), [&] { return ReadMessage(v, b).ok() ? Out(J()) : Out::Err(); });
    }
    if (r.Chance(30)) {
        std::vector<std::shared_ptr<CommitMessage>> ms;
        Strings shown;
        for (int n = r.Below(3); n > 0; n--) {
            auto x = SomeMessage(r, false);
            ms.push_back(x);
            shown.push_back(Show(*x));
        }
        tr.Op("messages", J().raw("ms", Join(shown)), [&]() -> Out {
            auto b = CommitMessage::SerializeList(ms, pool);
            if (!b.ok()) return Out::Err();
            auto back = CommitMessage::DeserializeList(11, b.value().data(), b.value().size(), pool);
            if (!back.ok()) return Out::Err();
            Strings s;
            for (auto& x : back.value()) s.push_back(Show(*std::dynamic_pointer_cast<CommitMessageImpl>(x)));
            return Out(J().raw("bytes", List(b.value())).raw("back", Join(s)));
        });
    }
}
static void Splits(vt::Trace& tr) {
    auto& r = tr.rng;
    int v = r.Chance(40) ? 8 : r.In(2, 7);
    auto s = SomeSplit(r);
    std::string bytes, extra;
    if (r.Chance(30)) extra = std::string(1, static_cast<char>(r.Below(2)));
    tr.Op("split", J().k("version", v).raw("s", Show(*s)).raw("extra", List(extra)), [&]() -> Out {
        if (v == 8) {
            auto b = Split::Serialize(s, pool);
            if (!b.ok()) return Out::Err();
            bytes = b.value();
        } else {
            bytes = OldSplit(*s, v);
        }
        auto back = ReadSplit(bytes + extra);
        if (!back.ok()) return Out::Err();
        auto x = back.value();
        std::string fb = "[]";
        if (auto f = std::dynamic_pointer_cast<FallbackDataSplit>(x)) fb = f->IsFallback() ? "[true]" : "[false]", x = f->GetSplit();
        return Out(J().raw("bytes", List(bytes + extra)).raw("back", Show(*std::dynamic_pointer_cast<DataSplitImpl>(x))).raw("fallback", fb));
    });
    if (!tr.last_ok) return;
    for (int n = 3; n > 0; n--) {
        size_t k = r.Chance(30) ? bytes.size() - 1 : r.Below(bytes.size());
        tr.Op("damaged", J().k("cut", k), [&] { return ReadSplit(bytes.substr(0, k)).ok() ? Out(J()) : Out::Err(); });
    }
    tr.Op("damaged", J().k("more", 2), [&] { return ReadSplit(bytes + "??").ok() ? Out(J()) : Out::Err(); });
    size_t part = RowText(s->Partition()).size(), list = 20 + 4 + part + 4 + 2 + s->BucketPath().size() + (v >= 6 ? (s->TotalBuckets() ? 5 : 1) : 0);
    for (size_t at : {size_t(20), list, size_t(8)}) {
        std::string b = bytes;
        Put4(&b, at, r.Pick(std::vector<uint32_t>{0xffffffff, 0x80000000, 0xfffffff0}));
        tr.Op("damaged", J().k("at", at), [&] { return ReadSplit(b).ok() ? Out(J()) : Out::Err(); });
    }
    if (r.Chance(50)) {
        std::vector<Range> ranges;
        std::vector<float> scores;
        Strings rs, ss;
        for (int n = r.Below(3); n > 0; n--) {
            int64_t a = Long(r), b = Long(r);
            ranges.emplace_back(std::min(a, b), std::max(a, b));
            rs.push_back("[" + Be(ranges.back().from) + "," + Be(ranges.back().to) + "]");
        }
        for (int n = r.Below(3); n > 0; n--) scores.push_back(r.Pick(std::vector<float>{0, -0.0f, 1.5f, 1e-40f})), ss.push_back(Be(scores.back()));
        std::string ib;
        tr.Op("indexed", J().raw("s", Show(*s)).raw("ranges", Join(rs)).raw("scores", Join(ss)), [&]() -> Out {
            auto b = Split::Serialize(std::make_shared<IndexedSplitImpl>(s, ranges, scores), pool);
            if (!b.ok()) return Out::Err();
            ib = b.value();
            auto back = ReadSplit(ib);
            if (!back.ok()) return Out::Err();
            auto x = std::dynamic_pointer_cast<IndexedSplitImpl>(back.value());
            Strings r2, s2;
            for (auto& q : x->RowRanges()) r2.push_back("[" + Be(q.from) + "," + Be(q.to) + "]");
            for (float q : x->Scores()) s2.push_back(Be(q));
            return Out(J().raw("bytes", List(ib)).raw("back", Show(*std::dynamic_pointer_cast<DataSplitImpl>(x->GetDataSplit()))).raw("ranges2", Join(r2)).raw("scores2", Join(s2)));
        });
        if (!tr.last_ok) return;
        size_t k = r.Below(ib.size());
        tr.Op("damaged", J().k("cut", k), [&] { return ReadSplit(ib.substr(0, k)).ok() ? Out(J()) : Out::Err(); });
        tr.Op("damaged", J().k("more", 2), [&] { return ReadSplit(ib + "?").ok() ? Out(J()) : Out::Err(); });
        std::string b = ib;
        bool at_scores = !scores.empty() && r.Chance(50);
        size_t tail = scores.empty() ? 1 : 5 + 4 * scores.size();
        Put4(&b, at_scores ? ib.size() - tail + 1 : ib.size() - tail - 16 * ranges.size() - 4, 0xfffffff0);
        tr.Op("damaged", J().k("at", at_scores), [&] { return ReadSplit(b).ok() ? Out(J()) : Out::Err(); });
    }
}
static std::string BytesOf(const BinaryRow& row) {
    auto b = MemorySegmentUtils::CopyToBytes(row.GetSegments(), row.GetOffset(), row.GetSizeInBytes(), pool.get());
    return std::string(b->data(), b->size());
}
template <class S, class T, class H>
static void Entry(vt::Trace& tr, const T& x, H show) {
    S ser(pool);
    tr.Op("entry", J().raw("f", Join(show(x))), [&]() -> Out {
        auto row = ser.ToRow(x);
        if (!row.ok()) return Out::Err();
        auto back = ser.FromRow(row.value());
        if (!back.ok()) return Out::Err();
        return Out(J().raw("bytes", List(BytesOf(row.value()))).raw("back", Join(show(back.value()))));
    });
}
static void Entries(vt::Trace& tr) {
    auto& r = tr.rng;
    auto b1 = [](int8_t v) { return F("b1", Le(v)); };
    FileKind kind = r.Chance(50) ? FileKind::Add() : FileKind::Delete();
    Entry<ManifestEntrySerializer>(tr, ManifestEntry(kind, Row(r), Int(r), Int(r), SomeFile(r)), [&](const ManifestEntry& e) {
        return Strings{B4(2), b1(e.Kind().ToByteValue()), Text(RowText(e.Partition())), B4(e.Bucket()), B4(e.TotalBuckets()), RowF(FileF(*e.File()))};
    });
    Entry<IndexManifestEntrySerializer>(tr, IndexManifestEntry(kind, Row(r), Int(r), SomeIndex(r)), [&](const IndexManifestEntry& e) {
        Strings s{B4(1), b1(e.kind.ToByteValue()), Text(RowText(e.partition)), B4(e.bucket)};
        for (auto& f : IndexF(*e.index_file)) s.push_back(f);
        return s;
    });
    Entry<ManifestFileMetaSerializer>(
        tr, ManifestFileMeta(Name(r), Long(r), Long(r), Long(r), Stats(r), Long(r), Maybe(r, Int), Maybe(r, Int), Maybe(r, Int), Maybe(r, Int), Maybe(r, Long), Maybe(r, Long)),
        [&](const ManifestFileMeta& m) {
            return Strings{B4(2), Text(m.FileName()), B8(m.FileSize()), B8(m.NumAddedFiles()), B8(m.NumDeletedFiles()), StatsF(m.PartitionStats()), B8(m.SchemaId()),
                           OptB4(m.MinBucket()), OptB4(m.MaxBucket()), OptB4(m.MinLevel()), OptB4(m.MaxLevel()), OptB8(m.MinRowId()), OptB8(m.MaxRowId())};
        });
    Entry<DataFileMetaSerializer>(tr, SomeFile(r), [&](const File& f) { return FileF(*f); });
    Entry<IndexFileMetaSerializer>(tr, SomeIndex(r), [&](const Index& f) { return IndexF(*f); });
}

static std::string Q(const std::string& s) { return "[" + List(s) + "]"; }
static std::string N(const std::optional<int64_t>& v) { return v ? Q(std::to_string(*v)) : "[]"; }
static std::string OptQ(const std::optional<std::string>& v) { return v ? Q(*v) : "[]"; }
template <class M>
static std::string MapQ(const std::optional<M>& m) {
    if (!m) return "[]";
    std::string s;
    for (auto& [k, v] : *m) {
        if constexpr (std::is_same_v<typename M::key_type, std::string>) s += k + "=" + v + ";";
        else s += std::to_string(k) + "=" + std::to_string(v) + ";";
    }
    return Q(s);
}
static std::string SnapF(const Snapshot& s) {
    Strings f;
    auto add = [&](const char* k, const std::string& v) { f.push_back(std::string("[\"") + k + "\"," + v + "]"); };
    add("version", N(s.Version())), add("id", N(s.Id())), add("schemaId", N(s.SchemaId()));
    add("baseManifestList", Q(s.BaseManifestList())), add("baseManifestListSize", N(s.BaseManifestListSize()));
    add("deltaManifestList", Q(s.DeltaManifestList())), add("deltaManifestListSize", N(s.DeltaManifestListSize()));
    add("changelogManifestList", OptQ(s.ChangelogManifestList())), add("changelogManifestListSize", N(s.ChangelogManifestListSize()));
    add("indexManifest", OptQ(s.IndexManifest())), add("commitUser", Q(s.CommitUser())), add("commitIdentifier", N(s.CommitIdentifier()));
    add("commitKind", Q(Snapshot::CommitKind::ToString(s.GetCommitKind()))), add("timeMillis", N(s.TimeMillis())), add("logOffsets", MapQ(s.LogOffsets()));
    add("totalRecordCount", N(s.TotalRecordCount())), add("deltaRecordCount", N(s.DeltaRecordCount())), add("changelogRecordCount", N(s.ChangelogRecordCount()));
    add("watermark", N(s.Watermark())), add("statistics", OptQ(s.Statistics())), add("properties", MapQ(s.Properties())), add("nextRowId", N(s.NextRowId()));
    return Join(f);
}
static void Snapshots(vt::Trace& tr) {
    auto& r = tr.rng;
    auto name = [](vt::Rng& r) {
        std::string s;
        for (int n = r.Below(9); n > 0; n--) s += r.Pick(Strings{"a", "/", "\"", "\\", "\n", "\x01", "\xc3\xa9", "{", " ", "\xe4\xb8\xad"});
        return s;
    };
    std::optional<std::map<int32_t, int64_t>> offsets;
    if (r.Chance(50)) {
        offsets.emplace();
        for (int n = r.Below(3); n > 0; n--) (*offsets)[Int(r)] = Long(r);
    }
    std::optional<std::map<std::string, std::string>> props;
    if (r.Chance(50)) {
        props.emplace();
        for (int n = r.Below(3); n > 0; n--) (*props)[name(r)] = name(r);
    }
    Snapshot s(r.In(1, 3), Long(r), Long(r), name(r), Maybe(r, Long), name(r), Maybe(r, Long), Maybe(r, name), Maybe(r, Long), Maybe(r, name), name(r), Long(r),
               Snapshot::CommitKind(r.Below(4)), Long(r), offsets, Long(r), Long(r), Maybe(r, Long), Maybe(r, Long), Maybe(r, name), props, Maybe(r, Long));
    std::string json;
    tr.Op("snapshot", J().raw("f", SnapF(s)), [&]() -> Out {
        auto j = s.ToJsonString();
        if (!j.ok()) return Out::Err();
        json = j.value();
        auto back = Snapshot::FromJsonString(json);
        if (!back.ok() || !(back.value() == s)) return Out::Err();
        rapidjson::Document d;
        d.Parse(json.data(), json.size());
        if (d.HasParseError() || !d.IsObject()) return Out::Err();
        Strings f;
        for (auto& m : d.GetObject()) {
            std::string v = "[]";
            auto& x = m.value;
            if (x.IsString()) v = Q(std::string(x.GetString(), x.GetStringLength()));
            else if (x.IsInt64()) v = N(x.GetInt64());
            else if (x.IsObject()) {
                std::map<std::string, std::string> all;
                std::map<int32_t, int64_t> nums;
                for (auto& y : x.GetObject()) {
                    std::string k(y.name.GetString(), y.name.GetStringLength());
                    if (y.value.IsString()) all[k] = std::string(y.value.GetString(), y.value.GetStringLength());
                    else nums[std::stoi(k)] = y.value.GetInt64();
                }
                v = nums.empty() ? MapQ(std::make_optional(all)) : MapQ(std::make_optional(nums));
            } else if (!x.IsNull()) v = Q("?");
            f.push_back("[" + vt::Quote(m.name.GetString()) + "," + v + "]");
        }
        return Out(J().raw("json", Join(f)).raw("back", SnapF(back.value())));
    });
    if (!tr.last_ok) return;
    for (int n = 2; n > 0; n--) {
        size_t k = r.Below(json.size());
        while (k > 0 && (json[k - 1] == '\n' || json[k - 1] == '}') && json.find_first_not_of("\n ", k) == std::string::npos) k--;
        tr.Op("damaged", J().k("cut", k), [&] { return Snapshot::FromJsonString(json.substr(0, k)).ok() ? Out(J()) : Out::Err(); });
    }
    // a required field is missing
    std::string key = r.Pick(Strings{"\"id\"", "\"schemaId\"", "\"baseManifestList\"", "\"deltaManifestList\"", "\"commitUser\"", "\"commitIdentifier\"", "\"commitKind\"", "\"timeMillis\""});
    std::string b = json;
    size_t at = b.find(key);
    if (at != std::string::npos) {
        b[at + 1] = 'X';
        tr.Op("damaged", J().k("without", key.substr(1, key.size() - 2)), [&] { return Snapshot::FromJsonString(b).ok() ? Out(J()) : Out::Err(); });
    }
}

static void Gen(vt::Trace& tr) {
    tr.Init(J());
    switch (tr.rng.Below(4)) {
        case 0: return Messages(tr);
        case 1: return Splits(tr);
        case 2: return Entries(tr);
        default: return Snapshots(tr);
    }
}
int main(int argc, char** argv) { return vt::Run(argc, argv, Gen); }
