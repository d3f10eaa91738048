// Primary-key tables: records written in batches, flushes and commits, read back merged.
#include "paimon/core/io/data_file_meta.h"
#include "paimon/core/table/sink/commit_message_impl.h"
#include "paimon/core/table/source/data_split_impl.h"
#include "tbl.h"
#include "vals.h"
#include "vclock.h"
#include "vtrace.h"

namespace {
using vt::J;
using Kind = paimon::RecordBatch::RowKind;
using memfs::FsFactory;
REGISTER_PAIMON_FACTORY(FsFactory);
std::string mode;

using Val = std::vector<int>;  // empty: null
struct Rec {
    int key;
    std::string kind;
    std::vector<Val> f;
};
struct Rule {
    std::string engine = "dedup";
    bool ign = false, asc = true, rod = false;
    std::vector<int> seq, grp;
    std::vector<std::string> agg;
    std::vector<bool> ir;
    std::vector<std::vector<int>> keys;
    J Json() const {
        return J().k("engine", engine).k("ign", ign).k("asc", asc).k("rod", rod).k("seq", seq).k("grp", grp).k("agg", agg).k("ir", ir).k("keys", keys);
    }
    bool Grouped() const {
        for (int g : grp)
            if (g) return true;
        return false;
    }
};
const std::vector<std::string> kCommutes = {"sum", "min", "max", "bool_and", "bool_or"};
const std::vector<std::string> kAll = {"sum", "min", "max", "bool_and", "bool_or", "last_value", "last_non_null_value", "first_value", "first_non_null_value", ""};

// the rules of the specification's Supported; *retracts as its Retracts
Rule MakeRule(vt::Rng& r, int nf, bool* retracts) {
    Rule c;
    c.grp.assign(nf, 0);
    c.agg.assign(nf, "");
    c.ir.assign(nf, false);
    int e = r.Below(10);
    *retracts = true;
    if (e < 3) {
        c.engine = "dedup";
        c.ign = r.Chance(30);
        int n = r.Below(3);
        for (int i = 1; i <= nf && static_cast<int>(c.seq.size()) < n; i++) c.seq.push_back(i);
        if (n == 2 && r.Chance(50)) std::swap(c.seq[0], c.seq.back());
        c.asc = r.Chance(60);
    } else if (e < 4) {
        c.engine = "first";
        c.ign = r.Chance(70);
    } else if (e < 7) {
        c.engine = "agg";
        bool ordered = r.Chance(30);
        if (ordered) {
            c.seq = {1};
            c.asc = r.Chance(60);
        }
        int style = r.Below(3);
        for (int i = 0; i < nf; i++) {
            if (ordered) {
                if (i > 0) c.agg[i] = r.Chance(20) ? "last_value" : r.Pick(kCommutes);
            } else if (style == 0) {
                c.agg[i] = r.Pick(kCommutes);
                c.ir[i] = c.agg[i] != "sum" || r.Chance(30);
            } else {
                c.agg[i] = r.Pick(kAll);
                c.ir[i] = r.Chance(20);
            }
        }
        bool grows = true, refuses = false;
        for (int i = 0; i < nf; i++) {
            bool com = std::find(kCommutes.begin(), kCommutes.end(), c.agg[i]) != kCommutes.end();
            if (!(c.agg[i] == "sum" || (c.ir[i] && (com || c.agg[i] == "first_non_null_value")))) grows = false;
            if (!c.ir[i] && ((com && c.agg[i] != "sum") || c.agg[i] == "first_value" || c.agg[i] == "first_non_null_value")) refuses = true;
        }
        *retracts = !ordered && (grows || refuses);
    } else {
        c.engine = "partial";
        int style = r.Below(4);
        if (style == 0) {
            c.rod = true;
        } else if (style == 1) {
            c.ign = r.Chance(60);
        } else {
            // groups: the first field of each orders the others
            c.ign = r.Chance(30);
            int ng = nf >= 4 && r.Chance(50) ? 2 : 1;
            int g = 1, i = 0;
            bool clean = true;
            while (g <= ng) {
                int size = ng == 2 ? nf / 2 : r.In(2, nf);
                int nk = size >= 3 && r.Chance(30) ? 2 : 1;
                c.keys.push_back({});
                for (int k = 0; k < size; k++, i++) {
                    c.grp[i] = g;
                    if (k < nk) {
                        c.keys.back().push_back(i + 1);
                    } else if (r.Chance(60)) {
                        c.agg[i] = r.Chance(15) ? "last_value" : r.Pick(kCommutes);
                        c.ir[i] = r.Chance(70);
                        if (c.agg[i] == "last_value" || !(c.agg[i] == "sum" || c.ir[i])) clean = false;
                    }
                }
                g++;
            }
            *retracts = !c.ign && clean;
        }
    }
    return c;
}

struct World {
    vt::Trace& tr;
    vt::Rng& rng;
    tbl::Table t;
    Rule c;
    int nf = 0, nkeys = 0, nkc = 1, buckets = 1;
    bool part = false, retracts = true;
    std::vector<std::shared_ptr<vals::Domain>> dom, kdom;
    std::vector<std::string> columns;
    std::vector<std::shared_ptr<paimon::DataFileMeta>> files;  // of the only bucket
    std::vector<int> rank;  // key -> values of the key columns

    explicit World(vt::Trace& trace) : tr(trace), rng(trace.rng) {
        memfs::W().Reset();
        memfs::W().shuffle = &rng;
        memfs::W().now_ms = [] { return vclock::NowMs(); };
        vclock::now_us = 1700000000000000;
        vclock::names = trace.rng.Next();
    }
    ~World() { memfs::W().Reset(); }

    std::string F(int i) const { return "f" + std::to_string(i); }
    std::string K(int i) const { return "k" + std::to_string(i); }
    int PartOf(int key) const { return part ? key % 2 : 0; }
    int BucketOf(int key) const { return (key / 2) % buckets; }
    // key columns of key n: distinct pairs
    int KeyVal(int key, int col) const { return nkc == 1 ? key : col == 0 ? key / 3 : key % 3; }
    int KeyOf(const std::vector<int>& v) const { return nkc == 1 ? v[0] : v[0] * 3 + v[1]; }

    void Make(const Rule* fixed = nullptr) {
        nf = rng.In(1, 4);
        c = MakeRule(rng, nf < 2 ? (nf = 2) : nf, &retracts);
        if (fixed) {
            c = *fixed;
            nf = c.agg.size();
        }
        nkeys = rng.In(1, 6);
        nkc = rng.Chance(40) ? 2 : 1;
        part = c.engine != "first" && rng.Chance(25);
        buckets = c.engine != "first" && rng.Chance(25) ? 2 : 1;
        for (int i = 0; i < nf; i++) {
            auto& a = c.agg[i];
            if (a == "sum") dom.push_back(rng.Pick(vals::Additive()));
            else if (a == "bool_and" || a == "bool_or") dom.push_back(vals::Bool());
            else dom.push_back(rng.Pick(vals::Ordered()));
        }
        for (int i = 0; i < nkc; i++) kdom.push_back(rng.Pick(vals::Ordered()));
        arrow::FieldVector fs;
        for (int i = 0; i < nkc; i++) fs.push_back(arrow::field(K(i), kdom[i]->type, false));
        for (int i = 0; i < nf; i++) fs.push_back(arrow::field(F(i), dom[i]->type));
        if (part) fs.push_back(arrow::field("p", arrow::int32(), false));
        for (size_t i = fs.size(); i > 1; i--)
            if (rng.Chance(50)) std::swap(fs[i - 1], fs[rng.Below(i)]);
        t.schema = arrow::schema(fs);
        for (int i = 0; i < nkc; i++) t.keys.push_back(K(i));
        if (nkc == 2 && rng.Chance(30)) std::swap(t.keys[0], t.keys[1]);
        if (part) {
            t.parts = {"p"};
            t.keys.insert(t.keys.begin() + rng.Below(t.keys.size() + 1), "p");
        }
        auto& o = t.options;
        o["file-system"] = "mem";
        o["file.format"] = "orc";
        o["manifest.format"] = "orc";
        o["bucket"] = std::to_string(buckets);
        o["merge-engine"] = c.engine == "dedup" ? "deduplicate" : c.engine == "first" ? "first-row" : c.engine == "agg" ? "aggregation" : "partial-update";
        if (c.ign) o["ignore-delete"] = "true";
        if (c.rod) o["partial-update.remove-record-on-delete"] = "true";
        if (!c.seq.empty()) {
            std::string s;
            for (int i : c.seq) s += (s.empty() ? "" : ",") + F(i - 1);
            o["sequence.field"] = s;
            if (!c.asc || rng.Chance(30)) o["sequence.field.sort-order"] = c.asc ? "ascending" : "descending";
        }
        // a common function can be the default
        for (int i = 0; i < nf; i++) {
            if (!c.agg[i].empty()) o["fields." + F(i) + ".aggregate-function"] = c.agg[i];
            if (c.ir[i]) o["fields." + F(i) + ".ignore-retract"] = "true";
        }
        for (size_t g = 0; g < c.keys.size(); g++) {
            std::string k, v;
            for (int i : c.keys[g]) k += (k.empty() ? "" : ",") + F(i - 1);
            for (int i = 0; i < nf; i++)
                if (c.grp[i] == static_cast<int>(g) + 1 && std::find(c.keys[g].begin(), c.keys[g].end(), i + 1) == c.keys[g].end()) v += (v.empty() ? "" : ",") + F(i);
            o["fields." + k + ".sequence-group"] = v;
        }
        if (rng.Chance(50)) o["write-buffer-size"] = rng.Pick<std::string>({"1b", "60b", "200b", "1kb"});
        if (rng.Chance(50)) o["write.batch-size"] = std::to_string(rng.In(1, 4));
        if (rng.Chance(40)) o["target-file-size"] = rng.Pick<std::string>({"1b", "300b", "1kb"});
        if (rng.Chance(10)) o["force-lookup"] = "true";
        tr.Init(c.Json().k("types", [&] {
            std::vector<std::string> v;
            for (auto& d : kdom) v.push_back(d->name);
            for (auto& d : dom) v.push_back(d->name);
            return v;
        }()));
        Status s = t.Make();
        if (!s.ok()) {
            fprintf(stderr, "driver error: %s\n", s.ToString().c_str());
            _exit(97);
        }
    }
    using Status = paimon::Status;

    Rec MakeRec() {
        Rec r;
        r.key = rng.Below(nkeys);
        bool down = retracts && rng.Chance(c.engine == "agg" || (c.engine == "partial" && !c.ign && !c.rod && !c.Grouped()) || (c.engine == "first" && !c.ign) ? 8 : 25);
        r.kind = down ? (rng.Chance(70) ? "-D" : "-U") : (rng.Chance(60) ? "+I" : "+U");
        for (int i = 0; i < nf; i++) {
            Val v;
            if (!rng.Chance(30)) v.push_back(c.agg[i] == "sum" ? rng.In(-3, 3) : c.agg[i].compare(0, 5, "bool_") == 0 ? rng.Below(2) : rng.Below(6));
            r.f.push_back(v);
        }
        return r;
    }
    std::string Cell(const std::string& col, const Rec& r) const {
        if (col == "p") return std::to_string(PartOf(r.key));
        int i = atoi(col.c_str() + 1);
        if (col[0] == 'k') return kdom[i]->Lit(KeyVal(r.key, i));
        return r.f[i].empty() ? "null" : dom[i]->Lit(r.f[i][0]);
    }
    // one batch per partition and bucket; false: refused
    bool Write(paimon::FileStoreWrite* w, const std::vector<Rec>& recs) {
        std::map<std::pair<int, int>, std::vector<Rec>> by;
        for (auto& r : recs) by[{PartOf(r.key), BucketOf(r.key)}].push_back(r);
        for (auto& [pb, rs] : by) {
            std::string json = "[";
            std::vector<Kind> kinds;
            std::string ev = "[";
            bool plain = true;
            for (auto& r : rs) {
                json += json.size() > 1 ? ",[" : "[";
                for (int i = 0; i < t.schema->num_fields(); i++) json += (i ? "," : "") + Cell(t.schema->field(i)->name(), r);
                json += "]";
                kinds.push_back(r.kind == "+I" ? Kind::INSERT : r.kind == "-U" ? Kind::UPDATE_BEFORE : r.kind == "+U" ? Kind::UPDATE_AFTER : Kind::DELETE);
                if (r.kind != "+I") plain = false;
                if (ev.size() > 1) ev += ",";
                ev += J().k("key", r.key).k("k", r.kind).k("f", r.f).str();
            }
            if (plain && rng.Chance(50)) kinds.clear();
            tr.Op("write", J().raw("recs", ev + "]"), [&, &pb = pb]() -> vt::Out {
                tbl::Spec sp;
                if (part) sp["p"] = std::to_string(pb.first);
                auto b = t.Batch(json + "]", sp, pb.second, kinds);
                if (!b.ok()) {
                    fprintf(stderr, "driver error: %s %s\n", b.status().ToString().c_str(), json.c_str());
                    _exit(97);
                }
                return Told(w->Write(std::move(b).value()));
            });
            if (!tr.last_ok) return false;
        }
        return true;
    }
    bool Commit(paimon::FileStoreWrite* w, int64_t id) {
        tr.Op("commit", J(), [&]() -> vt::Out {
            auto m = w->PrepareCommit(true, id);
            if (!m.ok()) return Told(m.status());
            for (auto& x : m.value()) {
                auto impl = std::dynamic_pointer_cast<paimon::CommitMessageImpl>(x);
                for (auto& f : impl->GetNewFilesIncrement().NewFiles()) files.push_back(f);
            }
            auto c = t.Committer("u");
            if (!c.ok()) return Told(c.status());
            return Told(c.value()->Commit(m.value(), id));
        });
        return tr.last_ok;
    }
    static vt::Out Told(const paimon::Status& s) {
        if (!s.ok() && getenv("TELL")) fprintf(stderr, "%s\n", s.ToString().c_str());
        return vt::Out::Of(s);
    }
    void Read(bool whole = false) {
        std::vector<std::string> cols;
        std::vector<int> fs;
        bool key = rng.Chance(80), all = whole || rng.Chance(30);
        if (all) {
            key = true;
        } else {
            for (int i = 0; i < nf; i++)
                if (rng.Chance(60)) cols.push_back(F(i));
            if (key)
                for (int i = 0; i < nkc; i++) cols.push_back(K(i));
            if (part && rng.Chance(50)) cols.push_back("p");
            if (cols.empty()) cols.push_back(F(0));
            for (size_t i = cols.size(); i > 1; i--) std::swap(cols[i - 1], cols[rng.Below(i)]);
        }
        for (int i = 0; i < nf; i++)
            if (all || std::find(cols.begin(), cols.end(), F(i)) != cols.end()) fs.push_back(i + 1);
        tbl::Options o;
        if (rng.Chance(60)) o["read.batch-size"] = std::to_string(rng.In(1, 4));
        if (rng.Chance(50)) o["sort-engine"] = rng.Pick<std::string>({"min-heap", "loser-tree"});
        if (rng.Chance(40)) o["source.split.target-size"] = rng.Pick<std::string>({"1b", "500b", "2kb"});
        if (rng.Chance(40)) o["source.split.open-file-cost"] = rng.Pick<std::string>({"1b", "500b"});
        bool crafted = c.engine == "first" || (!part && buckets == 1 && rng.Chance(25));
        int threads = rng.Chance(25) ? rng.In(1, 3) : 0;
        tr.Op("read", J().k("key", key).k("cols", fs), [&]() -> vt::Out {
            std::vector<std::shared_ptr<paimon::Split>> splits;
            if (crafted) {
                auto fl = files;
                for (size_t i = fl.size(); i > 1; i--) std::swap(fl[i - 1], fl[rng.Below(i)]);
                if (!fl.empty()) {
                    auto sp = paimon::DataSplitImpl::Builder(paimon::BinaryRow::EmptyRow(), 0, t.path + "/bucket-0", std::move(fl)).WithSnapshot(1).WithTotalBuckets(1).IsStreaming(false).RawConvertible(false).Build();
                    if (!sp.ok()) return Told(sp.status());
                    splits.push_back(sp.value());
                }
            } else {
                auto sc = t.Scan(false, o);
                if (!sc.ok()) return Told(sc.status());
                auto pl = sc.value()->CreatePlan();
                if (!pl.ok()) return Told(pl.status());
                splits = pl.value()->Splits();
            }
            auto rows = t.Rows(splits, cols, o, threads);
            if (!rows.ok()) return Told(rows.status());
            std::string out = "[";
            for (auto& a : rows.value().arrays) {
                for (int64_t i = 0; i < a->length(); i++) {
                    std::vector<int> kv;
                    if (key)
                        for (int k = 0; k < nkc; k++) kv.push_back(Code(*kdom[k], a->GetFieldByName(K(k)), i));
                    std::vector<Val> f;
                    for (int x : fs) {
                        auto col = a->GetFieldByName(F(x - 1));
                        if (!col) f.push_back({888888});
                        else if (col->IsNull(i)) f.push_back({});
                        else f.push_back({dom[x - 1]->Code(*col, i)});
                    }
                    if (out.size() > 1) out += ",";
                    int k = key ? KeyOf(kv) : 0;
                    auto pc = a->GetFieldByName("p");
                    if (pc && key && (pc->IsNull(i) || !pc->RangeEquals(**arrow::ipc::internal::json::ArrayFromJSON(arrow::int32(), "[" + std::to_string(PartOf(k)) + "]"), i, i + 1, 0))) k = 777777;
                    out += J().k("key", k).k("f", f).str();
                }
            }
            return vt::Out(J().raw("rows", out + "]"));
        });
    }
    int Code(const vals::Domain& d, const std::shared_ptr<arrow::Array>& a, int64_t i) { return !a ? 888 : a->IsNull(i) ? 777 : d.Code(*a, i); }
};

void History(vt::Trace& tr) {
    World w(tr);
    w.Make();
    auto& rng = tr.rng;
    std::unique_ptr<paimon::FileStoreWrite> wr;
    int commits = rng.In(1, 4);
    int64_t id = 1;
    bool streaming = false;
    std::set<int> gone;  // keys removed since the last commit
    for (int ci = 0; ci < commits; ci++) {
        if (!wr || !streaming || rng.Chance(40)) {
            if (wr) (void)wr->Close();
            streaming = rng.Chance(60);
            auto made = w.t.Writer("u", streaming);
            if (!made.ok()) {
                fprintf(stderr, "driver error: %s\n", made.status().ToString().c_str());
                _exit(97);
            }
            wr = std::move(made).value();
        }
        gone.clear();
        int nb = rng.In(1, 3);
        for (int b = 0; b < nb; b++) {
            std::vector<Rec> recs;
            int n = rng.In(1, 5);
            for (int k = 0; k < n; k++) {
                Rec r = w.MakeRec();
                if (w.c.rod && gone.count(r.key) && r.kind[0] == '+') continue;
                if (r.kind == "-D") gone.insert(r.key);
                recs.push_back(r);
            }
            if (recs.empty()) continue;
            if (!w.Write(wr.get(), recs)) return;
        }
        if (!w.Commit(wr.get(), id++)) return;
        if (rng.Chance(40)) w.Read();
    }
    w.Read();
    w.Read();
}

// partial update that removes records: written again in the flush that removes
void Rod(vt::Trace& tr) {
    World w(tr);
    Rule c;
    c.engine = "partial";
    c.rod = true;
    c.grp = {0, 0};
    c.agg = {"", ""};
    c.ir = {false, false};
    w.Make(&c);
    w.t.options.erase("write-buffer-size");
    auto made = w.t.Writer("u", true);
    if (!made.ok()) _exit(97);
    auto wr = std::move(made).value();
    w.Write(wr.get(), {{0, "+I", {{1}, {1}}}});
    w.Commit(wr.get(), 1);
    w.Write(wr.get(), {{0, "-D", {{}, {}}}, {0, "+I", {{2}, {}}}});
    w.Commit(wr.get(), 2);
    w.Read(true);
}
}  // namespace

int main(int argc, char** argv) {
    mode = vt::Arg(argc, argv, "--mode", "table");
    if (mode == "rod") return vt::Run(argc, argv, Rod);
    return vt::Run(argc, argv, History);
}
