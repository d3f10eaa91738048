// Tables written under changing schemas and read with predicates, filters and deletion vectors.
#include "paimon/core/deletionvectors/bitmap_deletion_vector.h"
#include "paimon/core/io/data_file_meta.h"
#include "paimon/core/schema/schema_manager.h"
#include "paimon/core/schema/table_schema.h"
#include "paimon/core/table/sink/commit_message_impl.h"
#include "paimon/core/table/source/data_split_impl.h"
#include "paimon/core/table/source/deletion_file.h"
#include "paimon/fs/file_system_factory.h"
#include "preds.h"
#include "tbl.h"
#include "vals.h"
#include "vclock.h"
#include "vtrace.h"

namespace {
using paimon::Predicate;
using preds::Pred;
using vals::Domain;
using vt::J;
using memfs::FsFactory;
REGISTER_PAIMON_FACTORY(FsFactory);
std::string mode;  // "filter", "hide", "evolve" or any mixture

using Val = std::vector<int>;  // empty: null
using Dom = std::shared_ptr<Domain>;
using Family = std::vector<Dom>;

// types of one family are converted into each other without changing what a number stands for
const std::vector<Family>& Families() {
    static const std::vector<Family> all = [] {
        auto num = [](const char* name, const std::shared_ptr<arrow::DataType>& t, const std::string& pre, const std::string& post) {
            std::vector<std::string> v;
            for (int i = 0; i < 6; i++) v.push_back(pre + std::to_string(i) + post);
            return vals::Make(name, t, v);
        };
        auto ts = [](const char* name, arrow::TimeUnit::type u, long long per) {
            std::vector<std::string> v;
            for (int i = 0; i < 6; i++) v.push_back(std::to_string(per * 86400 * (i - 2)));
            return vals::Make(name, arrow::timestamp(u), v);
        };
        std::vector<std::string> days, iso;
        for (int i = 0; i < 6; i++) days.push_back(std::to_string(i - 2));
        iso = {"\"1969-12-30\"", "\"1969-12-31\"", "\"1970-01-01\"", "\"1970-01-02\"", "\"1970-01-03\"", "\"1970-01-04\""};
        std::vector<std::string> texts = {"\"\"", "\"a\"", "\"ab\"", "\"b\"", "\"zz\"", "\"é中\""};
        return std::vector<Family>{
            {num("tinyint", arrow::int8(), "", ""), num("smallint", arrow::int16(), "", ""), num("int", arrow::int32(), "", ""),
             num("bigint", arrow::int64(), "", ""), num("string", arrow::utf8(), "\"", "\""), num("float", arrow::float32(), "", ""),
             num("double", arrow::float64(), "", ""), num("dec10", arrow::decimal128(10, 2), "\"", ".00\""),
             num("dec20", arrow::decimal128(20, 1), "\"", ".0\"")},
            {vals::Make("date", arrow::date32(), days), vals::Make("string", arrow::utf8(), iso), ts("ts0", arrow::TimeUnit::SECOND, 1),
             ts("ts3", arrow::TimeUnit::MILLI, 1000), ts("ts6", arrow::TimeUnit::MICRO, 1000000), ts("ts9", arrow::TimeUnit::NANO, 1000000000)},
            {vals::Bool(), vals::Make("tinyint", arrow::int8(), {"0", "1"}), vals::Make("int", arrow::int32(), {"0", "1"}),
             vals::Make("bigint", arrow::int64(), {"0", "1"})},
            {vals::Make("string", arrow::utf8(), texts), vals::Make("binary", arrow::binary(), texts)},
        };
    }();
    return all;
}
std::string Sql(const arrow::DataType& t) {
    using T = arrow::Type;
    switch (t.id()) {
        case T::BOOL: return "BOOLEAN";
        case T::INT8: return "TINYINT";
        case T::INT16: return "SMALLINT";
        case T::INT32: return "INT";
        case T::INT64: return "BIGINT";
        case T::FLOAT: return "FLOAT";
        case T::DOUBLE: return "DOUBLE";
        case T::STRING: return "STRING";
        case T::BINARY: return "BYTES";
        case T::DATE32: return "DATE";
        case T::DECIMAL128: {
            auto& d = static_cast<const arrow::Decimal128Type&>(t);
            return "DECIMAL(" + std::to_string(d.precision()) + ", " + std::to_string(d.scale()) + ")";
        }
        default: return "TIMESTAMP(" + std::to_string(3 * static_cast<int>(static_cast<const arrow::TimestampType&>(t).unit())) + ")";
    }
}
struct Col {
    int id;
    std::string name;
    Dom dom;
    int family = -1;  // -1: the type does not change
    bool part = false, key = false;
    std::set<std::string> had;
};
struct File {
    std::string name;
    int rows = 0;
    std::set<int> hidden;
    std::vector<Val> p;
    int b = 0, lo = 0, hi = 0;
    std::string dir;
    paimon::BinaryRow part = paimon::BinaryRow::EmptyRow();
    std::shared_ptr<paimon::DataFileMeta> meta;
};
void Die(const std::string& s) {
    fprintf(stderr, "driver error: %s\n", s.c_str());
    _exit(97);
}

struct World {
    vt::Trace& tr;
    vt::Rng& rng;
    tbl::Table t;
    std::vector<Col> cols;
    std::vector<std::string> parts;  // partition columns, in the order of the table
    bool pk = false, levels = false;
    int nkeys = 0, next_field = 0, next_row = 0, commits = 0, version = 0, dvs = 0, buckets = 1;
    std::vector<File> files;
    std::string engine = "deduplicate";
    bool parallel = false;  // manifests are read by several threads

    explicit World(vt::Trace& trace) : tr(trace), rng(trace.rng) {
        memfs::W().Reset();
        memfs::W().shuffle = &rng;
        memfs::W().now_ms = [] { return vclock::NowMs(); };
        vclock::now_us = 1700000000000000;
        vclock::names = trace.rng.Next();
    }
    ~World() { memfs::W().Reset(); }

    // types of the column k, with many values each
    static const std::vector<Dom>& Keys() {
        static const std::vector<Dom> all = [] {
            auto list = [](const char* name, const std::shared_ptr<arrow::DataType>& type, const std::function<std::string(int)>& lit) {
                std::vector<std::string> v;
                for (int i = 0; i <= 60; i++) v.push_back(lit(i));
                return vals::Make(name, type, v);
            };
            auto num = [](int64_t per) { return [per](int i) { return std::to_string(per * (i - 9)); }; };
            auto text = [](int i) { return "\"" + std::string(1, static_cast<char>('a' + i / 10)) + std::string(i % 10 * 3, static_cast<char>('a' + i % 10)) + "\""; };
            auto dec = [](int i) { return "\"" + std::to_string(i) + ".5\""; };
            return std::vector<Dom>{list("int", arrow::int32(), num(1)), list("int", arrow::int32(), num(30000000)), list("bigint", arrow::int64(), num(5000000000)),
                                    list("smallint", arrow::int16(), num(100)), list("tinyint", arrow::int8(), num(1)), list("string", arrow::utf8(), text),
                                    list("binary", arrow::binary(), text), list("date", arrow::date32(), num(1000)), list("dec10", arrow::decimal128(10, 1), dec),
                                    list("dec30", arrow::decimal128(30, 1), dec), list("ts0", arrow::timestamp(arrow::TimeUnit::SECOND), num(7)),
                                    list("ts3", arrow::timestamp(arrow::TimeUnit::MILLI), num(500)), list("ts6", arrow::timestamp(arrow::TimeUnit::MICRO), num(1)),
                                    list("ts9", arrow::timestamp(arrow::TimeUnit::NANO), num(1))};
        }();
        return all;
    }
    Col Fresh(const std::string& name) {
        Col c;
        c.id = next_field++;
        c.name = name;
        if (mode == "evolve" || rng.Chance(30)) {
            c.family = rng.Below(Families().size());
            c.dom = rng.Pick(Families()[c.family]);
        } else {
            c.dom = rng.Chance(8) ? vals::Bool() : rng.Pick(vals::Ordered());
        }
        c.had = {c.dom->name};
        return c;
    }
    const Col& ById(int id) const {
        for (auto& c : cols)
            if (c.id == id) return c;
        Die("no column");
        abort();
    }
    std::vector<int> Ids() const {
        std::vector<int> v;
        for (auto& c : cols) v.push_back(c.id);
        return v;
    }
    void Renew() {
        arrow::FieldVector fs;
        for (auto& c : cols) fs.push_back(arrow::field(c.name, c.dom->type, !c.key));
        t.schema = arrow::schema(fs);
    }
    void Make() {
        pk = !parallel && rng.Chance(45);
        levels = rng.Chance(50);
        buckets = rng.In(1, 2);
        nkeys = rng.In(2, 8);
        int n = rng.In(1, 4), np = rng.Chance(40) ? rng.In(1, 2) : 0;
        Col k;
        k.name = "k";
        k.dom = rng.Chance(40) ? Keys()[0] : rng.Pick(Keys());
        k.key = pk;
        std::vector<Col> made = {k};
        for (int i = 0; i < n; i++) made.push_back(Col{-1, "c" + std::to_string(i), nullptr});
        static const std::vector<Dom> kPart = {vals::Make("int", arrow::int32(), {"-7", "0", "12"}), vals::Make("string", arrow::utf8(), {"\"a\"", "\"b\"", "\"ba\""}),
                                               vals::Make("bigint", arrow::int64(), {"-5000000000", "1", "10"}), vals::Bool(),
                                               vals::Make("smallint", arrow::int16(), {"-3", "4", "300"})};
        for (int i = 0; i < np; i++) {
            Col p;
            p.name = "p" + std::to_string(i);
            p.dom = rng.Pick(kPart);
            p.part = true;
            p.key = pk;
            made.push_back(p);
            parts.push_back(p.name);
        }
        if (np == 2 && rng.Chance(50)) std::swap(parts[0], parts[1]);
        for (size_t i = made.size(); i > 1; i--)
            if (rng.Chance(60)) std::swap(made[i - 1], made[rng.Below(i)]);
        for (auto& c : made) {
            if (!c.dom) {
                cols.push_back(Fresh(c.name));
            } else {
                c.id = next_field++;
                c.had = {c.dom->name};
                cols.push_back(c);
            }
        }
        Renew();
        t.parts = parts;
        if (pk) {
            t.keys = parts;
            t.keys.insert(t.keys.begin() + rng.Below(t.keys.size() + 1), "k");
        }
        auto& o = t.options;
        o["file-system"] = "mem";
        o["file.format"] = rng.Chance(70) ? "orc" : "parquet";
        o["manifest.format"] = "orc";
        if (pk) engine = rng.Pick<std::string>({"deduplicate", "deduplicate", "partial-update", "first-row"});
        if (engine != "deduplicate" || (pk && rng.Chance(20))) o["merge-engine"] = engine;
        if (engine == "first-row") levels = false;
        if (pk) o["bucket"] = std::to_string(buckets);
        else if (buckets == 1 && rng.Chance(50)) o["bucket"] = "-1";
        else o["bucket"] = std::to_string(buckets), o["bucket-key"] = "k";
        if (rng.Chance(50)) o["lite.chunk-rows"] = std::to_string(rng.In(1, 5));
        if (rng.Chance(30)) o["manifest.target-file-size"] = rng.Pick<std::string>({"1b", "2kb"});
        if (!parallel && rng.Chance(30)) o["manifest.merge-min-count"] = std::to_string(rng.In(1, 3));
        std::vector<int> pids;
        for (auto& p : parts)
            for (auto& c : cols)
                if (c.name == p) pids.push_back(c.id);
        int key = 0;
        for (auto& c : cols)
            if (c.name == "k") key = c.id;
        tr.Init(J().k("pk", pk).k("engine", engine).k("key", key).k("pids", pids).k("fields", Ids()).raw("types", Types()));
        auto s = t.Make();
        if (!s.ok()) Die(s.ToString());
    }
    std::string Types() const {
        std::vector<std::string> v;
        for (auto& c : cols) v.push_back(c.name + " " + c.dom->name);
        return J::List(v);
    }
    static vt::Out Told(const paimon::Status& s) {
        if (!s.ok() && getenv("TELL")) fprintf(stderr, "%s\n", s.ToString().c_str());
        return vt::Out::Of(s);
    }
    static std::string Plain(const std::string& lit) { return lit[0] == '"' ? lit.substr(1, lit.size() - 2) : lit; }

    // rows for one to three partitions and buckets, committed together
    void Write() {
        struct Group {
            std::vector<Val> p;
            tbl::Spec spec;
            int b;
            std::vector<std::vector<Val>> rows;
        };
        std::vector<Group> gs;
        int n = rng.In(1, 3);
        for (int g = 0; g < n; g++) {
            Group x;
            for (auto& name : parts) {
                Val v;
                for (auto& c : cols)
                    if (c.name == name) {
                        if (pk || !rng.Chance(12)) v.push_back(rng.Below(c.dom->Size()));
                        x.spec[name] = v.empty() ? "__DEFAULT_PARTITION__" : Plain(c.dom->Lit(v[0]));
                    }
                x.p.push_back(v);
            }
            x.b = rng.Below(buckets);
            bool dup = false;
            for (auto& y : gs) dup |= y.p == x.p && y.b == x.b;
            if (dup) continue;
            int nr = rng.In(1, 7);
            // a narrow range of values lets statistics exclude files
            int lo = rng.Below(6), hi = rng.In(lo, 5), nulls = rng.Pick<int>({0, 0, 20, 60, 100});
            for (int i = 0; i < nr; i++) {
                std::vector<Val> r;
                for (auto& c : cols) {
                    Val v;
                    if (c.name == "k") {
                        v.push_back(pk ? rng.Below(nkeys) * buckets + x.b : next_row++ % 60);
                    } else if (c.part) {
                        v = x.p[std::find(parts.begin(), parts.end(), c.name) - parts.begin()];
                    } else if (!rng.Chance(nulls)) {
                        v.push_back(c.dom->Size() == 2 ? (lo >= 3 ? 1 : hi < 3 ? 0 : rng.Below(2)) : rng.In(lo, hi));
                    }
                    r.push_back(v);
                }
                x.rows.push_back(r);
            }
            gs.push_back(x);
        }
        std::string ev = "[";
        for (auto& g : gs) {
            std::string rows = "[";
            for (auto& r : g.rows) rows += (rows.size() > 1 ? "," : "") + J::List(r);
            ev += (ev.size() > 1 ? "," : "") + J().k("p", g.p).k("b", g.b).raw("rows", rows + "]").str();
        }
        tr.Op("commit", J().raw("files", ev + "]"), [&]() -> vt::Out {
            auto w = t.Writer("u", false);
            if (!w.ok()) return Told(w.status());
            for (auto& g : gs) {
                std::string json = "[";
                for (auto& r : g.rows) {
                    json += json.size() > 1 ? ",[" : "[";
                    for (size_t i = 0; i < cols.size(); i++) json += (i ? "," : "") + (r[i].empty() ? std::string("null") : cols[i].dom->Lit(r[i][0]));
                    json += "]";
                }
                auto b = t.Batch(json + "]", g.spec, g.b);
                if (!b.ok()) Die(b.status().ToString() + json);
                auto s = w.value()->Write(std::move(b).value());
                if (!s.ok()) return Told(s);
            }
            auto m = w.value()->PrepareCommit(true, commits + 1);
            if (!m.ok()) return Told(m.status());
            std::vector<File> made(gs.size());
            for (auto& x : m.value()) {
                auto impl = std::dynamic_pointer_cast<paimon::CommitMessageImpl>(x);
                auto& fs = impl->GetNewFilesIncrement().NewFiles();
                if (fs.size() != 1) Die("files of a batch");
                std::vector<Val> p;
                for (size_t i = 0; i < parts.size(); i++) p.push_back(PartVal(impl->Partition(), i));
                bool found = false;
                for (size_t g = 0; g < gs.size(); g++)
                    if (gs[g].p == p && gs[g].b == impl->Bucket()) {
                        auto& f = made[g];
                        f.name = fs[0]->file_name;
                        f.rows = fs[0]->row_count;
                        f.p = p;
                        f.b = impl->Bucket();
                        f.dir = t.path;
                        for (auto& name : parts) f.dir += "/" + name + "=" + gs[g].spec[name];
                        f.dir += "/bucket-" + std::to_string(f.b);
                        f.part = impl->Partition();
                        f.meta = fs[0];
                        f.lo = 100;
                        for (auto& r : gs[g].rows) {
                            int k = r[KeyAt()][0];
                            f.lo = std::min(f.lo, k);
                            f.hi = std::max(f.hi, k);
                        }
                        if (pk && levels) f.meta->level = Level(f);
                        found = true;
                    }
                if (!found) return vt::Out::Err();
            }
            files.insert(files.end(), made.begin(), made.end());
            auto c = t.Committer("u");
            if (!c.ok()) return Told(c.status());
            return Told(c.value()->Commit(m.value(), ++commits));
        });
    }
    int KeyAt() const {
        for (size_t i = 0; i < cols.size(); i++)
            if (cols[i].name == "k") return i;
        abort();
    }
    // where a compaction could have put the file: above all that it overlaps
    int Level(const File& f) const {
        int l = rng.In(1, 4);
        for (auto& o : files)
            if (o.p == f.p && o.b == f.b && !(o.meta->level > l || (o.meta->level == l && (o.hi < f.lo || f.hi < o.lo)))) return 0;
        return l;
    }
    Val PartVal(const paimon::BinaryRow& row, int i) const {
        if (row.IsNullAt(i)) return {};
        for (auto& c : cols) {
            if (c.name != parts[i]) continue;
            for (int n = 0; n < c.dom->Size(); n++) {
                const std::string lit = Plain(c.dom->Lit(n));
                std::string is;
                switch (c.dom->type->id()) {
                    case arrow::Type::BOOL: is = row.GetBoolean(i) ? "true" : "false"; break;
                    case arrow::Type::INT16: is = std::to_string(row.GetShort(i)); break;
                    case arrow::Type::INT32: is = std::to_string(row.GetInt(i)); break;
                    case arrow::Type::INT64: is = std::to_string(row.GetLong(i)); break;
                    default: is = row.GetString(i).ToString();
                }
                if (is == lit) return {n};
            }
        }
        return {99};
    }

    // deletion vectors: more positions of one file
    void Hide() {
        if (files.empty()) return;
        int n = rng.Below(files.size());
        auto& f = files[n];
        std::vector<int> pos;
        int style = rng.Below(4);
        for (int i = 0; i < f.rows; i++)
            if (style == 0 ? rng.Chance(20) : style == 1 ? rng.Chance(70) : style == 2 ? i < f.rows / 2 : true) pos.push_back(i);
        if (pos.empty()) return;
        std::vector<int> shown;
        for (int p : pos) shown.push_back(p + 1);
        for (size_t i = pos.size(); i > 1; i--) std::swap(pos[i - 1], pos[rng.Below(i)]);
        tr.Op("hide", J().k("file", n + 1).k("pos", shown), [&]() -> vt::Out {
            f.hidden.insert(pos.begin(), pos.end());
            return vt::Out(J().k("now", static_cast<int>(f.hidden.size())));
        });
    }
    // writes the vectors of all files into one or more files
    std::map<std::string, paimon::DeletionFile> Vectors() {
        std::map<std::string, paimon::DeletionFile> out;
        auto pool = paimon::GetDefaultPool();
        auto fs = paimon::FileSystemFactory::Get("mem", t.path, t.options);
        if (!fs.ok()) Die(fs.status().ToString());
        std::string bytes(1, '\1'), path = t.path + "/index/dv-" + std::to_string(dvs++);
        std::vector<std::pair<std::string, paimon::DeletionFile>> here;
        for (auto& f : files) {
            if (f.hidden.empty() && !rng.Chance(20)) continue;
            if (!here.empty() && rng.Chance(30)) Flush(fs.value().get(), path, &bytes, &here, &out), path = t.path + "/index/dv-" + std::to_string(dvs++);
            paimon::BitmapDeletionVector dv((paimon::RoaringBitmap32()));
            std::vector<int> order(f.hidden.begin(), f.hidden.end());
            for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[rng.Below(i)]);
            for (int p : order) {
                if (!dv.Delete(p).ok()) Die("delete");
            }
            auto b = dv.SerializeToBytes(pool);
            if (!b.ok()) Die(b.status().ToString());
            int32_t len = b.value()->size();
            int64_t at = bytes.size();
            for (int s = 24; s >= 0; s -= 8) bytes.push_back(static_cast<char>(len >> s));
            bytes.append(b.value()->data(), len);
            bytes.append(4, 'x');
            here.emplace_back(f.name, paimon::DeletionFile(path, at, len, rng.Chance(50) ? std::optional<int64_t>(f.hidden.size()) : std::nullopt));
        }
        Flush(fs.value().get(), path, &bytes, &here, &out);
        return out;
    }
    static void Flush(paimon::FileSystem* fs, const std::string& path, std::string* bytes, std::vector<std::pair<std::string, paimon::DeletionFile>>* here,
                      std::map<std::string, paimon::DeletionFile>* out) {
        if (!fs->WriteFile(path, *bytes, true).ok()) Die("write vectors");
        for (auto& [n, d] : *here) out->emplace(n, d);
        here->clear();
        *bytes = std::string(1, '\1');
    }

    // a new schema, written as another engine would write it
    void Alter() {
        int changes = rng.In(1, 3);
        for (int i = 0; i < changes; i++) {
            int what = rng.Below(6);
            std::vector<int> free;
            for (size_t j = 0; j < cols.size(); j++)
                if (cols[j].name != "k" && !cols[j].part) free.push_back(j);
            if (what == 0 && cols.size() < 8) {
                Col c = Fresh("");
                // perhaps a name that was in use before
                do c.name = "c" + std::to_string(rng.Below(8));
                while (std::any_of(cols.begin(), cols.end(), [&](const Col& x) { return x.name == c.name; }));
                cols.insert(cols.begin() + (rng.Chance(50) ? cols.size() : rng.Below(cols.size() + 1)), c);
            } else if (what == 1 && !free.empty()) {
                cols.erase(cols.begin() + rng.Pick(free));
            } else if (what == 2 && free.size() >= 2) {
                // two columns exchange their names
                int a = rng.Pick(free), b = rng.Pick(free);
                std::swap(cols[a].name, cols[b].name);
            } else if (what == 3 && !free.empty()) {
                auto& c = cols[rng.Pick(free)];
                std::string name = "c" + std::to_string(rng.Below(8));
                if (std::none_of(cols.begin(), cols.end(), [&](const Col& x) { return x.name == name; })) c.name = name;
            } else if (what == 4 && !free.empty()) {
                auto& c = cols[rng.Pick(free)];
                if (c.family >= 0) {
                    auto d = rng.Pick(Families()[c.family]);
                    // text of fractions and times is not the text of the number or day
                    bool plain = true;
                    for (auto& h : c.had) plain &= h == "string" || h == "date" || h == "binary" || h == "boolean" || h.find("int") != std::string::npos;
                    // times and numbers of days are not converted into each other
                    if (d->name == "string" && !plain) d = c.dom;
                    c.dom = d;
                    c.had.insert(d->name);
                }
            } else if (what == 5) {
                std::swap(cols[rng.Below(cols.size())], cols[rng.Below(cols.size())]);
            }
        }
        Renew();
        tr.Op("alter", J().k("fields", Ids()).raw("types", Types()), [&]() -> vt::Out {
            std::string fs = "[", opts = "{";
            for (auto& c : cols)
                fs += (fs.size() > 1 ? "," : "") + J().k("id", c.id).k("name", c.name).k("type", Sql(*c.dom->type) + (c.key ? " NOT NULL" : "")).str();
            for (auto& [k, v] : t.options) opts += (opts.size() > 1 ? "," : "") + vt::Quote(k) + ":" + vt::Quote(v);
            version++;
            std::string text = J().k("version", 3).k("id", version).raw("fields", fs + "]").k("highestFieldId", next_field - 1).k("partitionKeys", t.parts)
                                   .k("primaryKeys", t.keys).raw("options", opts + "}").raw("timeMillis", "1700000000000").str();
            auto fsys = paimon::FileSystemFactory::Get("mem", t.path, t.options);
            return Told(fsys.value()->WriteFile(t.path + "/schema/schema-" + std::to_string(version), text, false));
        });
    }
    void Schemas() {
        tr.Op("schemas", J(), [&]() -> vt::Out {
            auto fs = paimon::FileSystemFactory::Get("mem", t.path, t.options);
            paimon::SchemaManager m(std::shared_ptr<paimon::FileSystem>(std::move(fs).value()), t.path);
            auto last = m.Latest();
            if (!last.ok() || !last.value()) return vt::Out::Err();
            auto ids = m.ListAllIds();
            if (!ids.ok()) return Told(ids.status());
            std::vector<std::vector<int>> of;
            for (int i = 0; i <= version; i++) {
                auto s = m.ReadSchema(i);
                if (!s.ok()) return Told(s.status());
                std::vector<int> v;
                for (auto& f : s.value()->Fields()) v.push_back(f.Id());
                of.push_back(v);
            }
            std::vector<int> v;
            for (auto id : ids.value()) v.push_back(id);
            return vt::Out(J().k("latest", static_cast<int>(last.value().value()->Id())).k("ids", v).k("of", of));
        });
    }

    void Again() {
        tr.Op("again", J(), [&]() -> vt::Out { return vt::Out::Of(t.Make()); });
        tr.last_ok = true;
        Schemas();
    }
    Pred MakePred(const std::vector<int>& ids, int depth) {
        return preds::Make(rng, ids, depth, [this](int f) { auto& c = ById(f); return std::min(c.dom->Size(), c.name == "k" ? 20 : 6); });
    }
    std::shared_ptr<Predicate> Build(const Pred& p, const std::vector<std::string>& names) const {
        return preds::Build(p, [&](int f) {
            auto& c = ById(f);
            return preds::Field{static_cast<int>(std::find(names.begin(), names.end(), c.name) - names.begin()), c.name, c.dom.get()};
        });
    }
    paimon::Status Plan(const tbl::Options& so, const std::shared_ptr<Predicate>& pred, const std::vector<tbl::Spec>& specs, const Val& bucket,
                        std::vector<std::shared_ptr<paimon::Split>>* splits) {
        auto vectors = Vectors();
        paimon::ScanContextBuilder sb(t.path);
        tbl::real = parallel ? 8 : 0;
        sb.SetOptions(so).WithExecutor(tbl::Exec());
        if (pred) sb.SetPredicate(pred);
        if (!specs.empty()) sb.SetPartitionFilter(specs);
        if (!bucket.empty()) sb.SetBucketFilter(bucket[0]);
        PAIMON_ASSIGN_OR_RAISE(auto sc, sb.Finish());
        PAIMON_ASSIGN_OR_RAISE(auto scan, paimon::TableScan::Create(std::move(sc)));
        tbl::real = 0;
        PAIMON_ASSIGN_OR_RAISE(auto plan, scan->CreatePlan());
        for (auto& s : plan->Splits()) {
            auto d = std::dynamic_pointer_cast<paimon::DataSplitImpl>(s);
            auto fl = d->DataFiles();
            std::vector<std::optional<paimon::DeletionFile>> dl;
            bool any = false;
            for (auto& f : fl) {
                auto it = vectors.find(f->file_name);
                if (it == vectors.end()) dl.push_back(std::nullopt);
                else dl.push_back(it->second), any = true;
            }
            if (!any) {
                splits->push_back(s);
                continue;
            }
            PAIMON_ASSIGN_OR_RAISE(auto made, paimon::DataSplitImpl::Builder(d->Partition(), d->Bucket(), d->BucketPath(), std::move(fl)).WithSnapshot(d->SnapshotId())
                                                  .WithTotalBuckets(d->TotalBuckets()).IsStreaming(d->IsStreaming()).RawConvertible(d->RawConvertible()).WithDataDeletionFiles(dl).Build());
            splits->push_back(made);
        }
        return paimon::Status::OK();
    }
    // one split for each bucket, of all its files
    paimon::Status Gather(const std::vector<tbl::Spec>& specs, const Val& bucket, std::vector<std::shared_ptr<paimon::Split>>* splits) {
        auto vectors = Vectors();
        std::vector<bool> done(files.size());
        for (size_t i = 0; i < files.size(); i++) {
            if (done[i]) continue;
            auto& f = files[i];
            std::vector<std::shared_ptr<paimon::DataFileMeta>> fl;
            std::vector<std::optional<paimon::DeletionFile>> dl;
            bool any = false;
            for (size_t j = i; j < files.size(); j++) {
                if (files[j].p != f.p || files[j].b != f.b) continue;
                done[j] = true;
                fl.push_back(files[j].meta);
                auto it = vectors.find(files[j].name);
                if (it == vectors.end()) dl.push_back(std::nullopt);
                else dl.push_back(it->second), any = true;
            }
            bool keep = specs.empty();
            for (auto& sp : specs) {
                bool fits = true;
                for (auto& [k, v] : sp) fits &= f.dir.find("/" + k + "=" + v + "/") != std::string::npos;
                keep |= fits;
            }
            if (!keep || (!bucket.empty() && bucket[0] != f.b)) continue;
            paimon::DataSplitImpl::Builder b(f.part, f.b, f.dir, std::move(fl));
            b.WithSnapshot(1).WithTotalBuckets(buckets).IsStreaming(false).RawConvertible(false);
            if (any) b.WithDataDeletionFiles(dl);
            PAIMON_ASSIGN_OR_RAISE(auto made, b.Build());
            splits->push_back(made);
        }
        return paimon::Status::OK();
    }
    void Read() {
        Pred p;
        if (rng.Chance(mode == "filter" ? 90 : 40)) p = MakePred(Ids(), rng.Below(3));
        std::set<int> need;
        p.Fields(&need);
        std::vector<int> out;
        for (auto& c : cols)
            if (need.count(c.id) || rng.Chance(60)) out.push_back(c.id);
        if (out.empty()) out.push_back(cols[0].id);
        bool all = rng.Chance(30);
        if (all) out = Ids();
        else
            for (size_t i = out.size(); i > 1; i--) std::swap(out[i - 1], out[rng.Below(i)]);
        std::vector<std::string> names, table;
        for (int id : out) names.push_back(ById(id).name);
        for (auto& c : cols) table.push_back(c.name);
        bool exact = rng.Chance(50);
        // partitions: any of some combinations
        std::string pf = "[";
        std::vector<tbl::Spec> specs;
        if (!parts.empty() && rng.Chance(30)) {
            int n = rng.In(1, 2);
            for (int i = 0; i < n; i++) {
                tbl::Spec sp;
                std::string one = "[";
                for (size_t j = 0; j < parts.size(); j++) {
                    if (rng.Chance(30) && !(j + 1 == parts.size() && sp.empty())) continue;
                    for (auto& c : cols) {
                        if (c.name != parts[j]) continue;
                        Val v;
                        if (!rng.Chance(15)) v.push_back(rng.Below(c.dom->Size()));
                        sp[c.name] = v.empty() ? "__DEFAULT_PARTITION__" : Plain(c.dom->Lit(v[0]));
                        one += (one.size() > 1 ? "," : "") + J().k("i", static_cast<int>(j) + 1).k("v", v).str();
                    }
                }
                specs.push_back(sp);
                pf += (pf.size() > 1 ? "," : "") + one + "]";
            }
        }
        Val bucket;
        if (rng.Chance(20)) bucket.push_back(rng.Below(buckets));
        tbl::Options o;
        if (rng.Chance(60)) o["read.batch-size"] = std::to_string(rng.In(1, 5));
        if (rng.Chance(40)) o["source.split.target-size"] = rng.Pick<std::string>({"1b", "500b", "2kb"});
        if (rng.Chance(30)) o["source.split.open-file-cost"] = rng.Pick<std::string>({"1b", "500b"});
        bool push_scan = rng.Chance(80), push_read = exact || rng.Chance(70), prefetch = rng.Chance(30);
        // tables with keys are not planned any more once their schema changed; plans leave out what is not compacted in first-row tables
        bool direct = pk && (version > 0 || engine == "first-row" || rng.Chance(15));
        int threads = rng.Chance(15) ? rng.In(1, 3) : 0;
        tr.Op("read", J().k("cols", out).raw("pred", p.Json()).k("exact", exact).raw("parts", pf + "]").k("bucket", bucket), [&]() -> vt::Out {
            tbl::Options so = t.options;
            for (auto& [k, v] : o) so[k] = v;
            std::vector<std::shared_ptr<paimon::Split>> splits;
            auto st = direct ? Gather(specs, bucket, &splits) : Plan(so, p.t != "all" && push_scan ? Build(p, table) : nullptr, specs, bucket, &splits);
            if (!st.ok()) return Told(st);
            paimon::ReadContextBuilder rb(t.path);
            rb.SetOptions(so).WithExecutor(tbl::Exec());
            if (!all) rb.SetReadSchema(names);
            if (p.t != "all" && push_read) rb.SetPredicate(Build(p, names)).EnablePredicateFilter(exact);
            if (threads) rb.EnableMultiThreadRowToBatch(true).SetRowToBatchThreadNumber(threads);
            if (prefetch) rb.EnablePrefetch(true).SetPrefetchBatchCount(3).SetPrefetchMaxParallelNum(2);
            auto rc = rb.Finish();
            if (!rc.ok()) return Told(rc.status());
            auto read = paimon::TableRead::Create(std::move(rc).value());
            if (!read.ok()) return Told(read.status());
            std::string rows = "[";
            for (size_t at = 0; at < splits.size();) {
                size_t n = rng.In(1, static_cast<int>(splits.size() - at));
                auto reader = read.value()->CreateReader({splits.begin() + at, splits.begin() + at + n});
                if (!reader.ok()) return Told(reader.status());
                std::vector<std::shared_ptr<arrow::StructArray>> arrays;
                auto s = tbl::Table::Drain(reader.value().get(), &arrays);
                if (!s.ok()) return Told(s);
                for (auto& a : arrays)
                    for (int64_t i = 0; i < a->length(); i++) {
                        std::vector<Val> r;
                        for (size_t j = 0; j < out.size(); j++) {
                            auto col = a->GetFieldByName(names[j]);
                            // the row kind comes first, then the columns in the order asked for
                            if (!col || a->field(j + 1) != col) {
                                r.push_back({-999});
                                continue;
                            }
                            auto& want = *ById(out[j]).dom;
                            bool dict = col->type_id() == arrow::Type::DICTIONARY;
                            if (!dict && !col->type()->Equals(want.type)) r.push_back({-998});
                            else if (col->IsNull(i)) r.push_back({});
                            else r.push_back({want.Code(*col, i)});
                        }
                        rows += (rows.size() > 1 ? "," : "") + J::List(r);
                    }
                arrays.clear();
                at += n;
            }
            return vt::Out(J().raw("rows", rows + "]"));
        });
    }
};

void Gen(vt::Trace& tr) {
    World w(tr);
    vt::Rng& r = tr.rng;
    if (mode == "threads") {
        // many manifests of many versions of the schema
        w.parallel = true;
        w.Make();
        for (int i = 0, n = r.In(4, 10); i < n && tr.last_ok; i++) {
            w.Write();
            if (tr.last_ok && r.Chance(80)) w.Alter();
        }
        for (int i = 0; i < 4 && tr.last_ok; i++) w.Read();
        return;
    }
    w.Make();
    int n = r.In(4, 12);
    for (int i = 0; i < n; i++) {
        int x = r.Below(100);
        if (i == 0 || x < 25) w.Write();
        else if (x < (mode == "hide" ? 60 : 32)) w.Hide();
        else if (x < (mode == "evolve" ? 60 : mode == "hide" ? 65 : 40)) w.Alter();
        else w.Read();
        if (!tr.last_ok) return;
    }
    if (r.Chance(20)) w.Schemas();
    if (r.Chance(5)) w.Again();
    w.Read();
    w.Read();
}
}  // namespace

int main(int argc, char** argv) {
    for (int i = 1; i + 1 < argc; i++)
        if (std::string(argv[i]) == "--mode") mode = argv[i + 1];
    return vt::Run(argc, argv, Gen);
}
