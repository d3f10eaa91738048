// A table under observation: processes work on it, everything that becomes visible is recorded.
#pragma once
#include <condition_variable>
#include <mutex>
#include <thread>

#include "paimon/common/types/data_field.h"
#include "paimon/core/core_options.h"
#include "paimon/core/manifest/file_kind.h"
#include "paimon/core/manifest/index_manifest_entry.h"
#include "paimon/core/manifest/index_manifest_file.h"
#include "paimon/core/manifest/manifest_entry.h"
#include "paimon/core/manifest/manifest_file.h"
#include "paimon/core/manifest/manifest_file_meta.h"
#include "paimon/core/manifest/manifest_list.h"
#include "paimon/core/schema/schema_manager.h"
#include "paimon/core/schema/table_schema.h"
#include "paimon/core/snapshot.h"
#include "paimon/core/utils/field_mapping.h"
#include "paimon/core/utils/file_store_path_factory.h"
#include "paimon/core/utils/snapshot_manager.h"
#include "paimon/orphan_files_cleaner.h"
#include "tbl.h"
#include "vclock.h"
#include "vtrace.h"

namespace sim {
using memfs::Client;
using paimon::Result;
using paimon::Status;
using tbl::Messages;
using tbl::Options;
using vt::J;

// rows carry a number of their own and the index of their partition values
struct Row {
    int64_t v;
    int p, q;
    bool operator<(const Row& o) const { return std::tie(v, p, q) < std::tie(o.v, o.p, o.q); }
};
inline const char* PNAME[] = {"a", "b", "x/y=z", nullptr};
inline std::string RowsJson(const std::vector<Row>& rows) {
    std::string s = "[";
    for (auto& r : rows) {
        if (s.size() > 1) s += ",";
        s += "[" + vt::Num(r.v) + "," + vt::Num(r.p) + "," + vt::Num(r.q) + "]";
    }
    return s + "]";
}

// lets one of several processes run at a time and chooses at every file operation who goes on
class Baton {
 public:
    vt::Rng* rng = nullptr;
    int sticky = 3;               // one switch in so many points
    std::vector<int64_t> switch_at;  // or: at exactly these points
    int64_t steps = 0;
    void Run(std::vector<std::pair<Client*, std::function<void()>>> jobs) {
        n_ = jobs.size();
        alive_.assign(n_, true);
        turn_ = rng ? rng->Below(n_) : 0;
        steps = 0;
        std::vector<std::thread> th;
        for (int i = 0; i < n_; i++) {
            th.emplace_back([this, i, &jobs] {
                me_ = i;
                Wait(i);
                {
                    memfs::As as(jobs[i].first);
                    jobs[i].second();
                }
                std::unique_lock<std::mutex> l(m_);
                alive_[i] = false;
                turn_ = Other(i);
                cv_.notify_all();
            });
        }
        for (auto& t : th) t.join();
    }
    void Yield() {
        if (me_ < 0) return;
        steps++;
        bool sw = switch_at.empty() ? (rng && rng->Below(sticky) == 0)
                                    : std::find(switch_at.begin(), switch_at.end(), steps) != switch_at.end();
        if (!sw) return;
        int i = me_;
        std::unique_lock<std::mutex> l(m_);
        int o = Other(i);
        if (o < 0 || o == i) return;
        turn_ = o;
        cv_.notify_all();
        cv_.wait(l, [&] { return turn_ == i; });
    }

 private:
    int Other(int i) {
        std::vector<int> c;
        for (int k = 1; k < n_; k++)
            if (alive_[(i + k) % n_]) c.push_back((i + k) % n_);
        if (c.empty()) return alive_[i] ? i : -1;
        return switch_at.empty() && rng ? c[rng->Below(c.size())] : c[0];
    }
    void Wait(int i) {
        std::unique_lock<std::mutex> l(m_);
        cv_.wait(l, [&] { return turn_ == i; });
    }
    std::mutex m_;
    std::condition_variable cv_;
    int n_ = 0, turn_ = 0;
    std::vector<bool> alive_;
    static thread_local int me_;
};
inline thread_local int Baton::me_ = -1;

class Sim {
 public:
    vt::Trace& tr;
    vt::Rng& rng;
    tbl::Table t;
    int np = 0;              // partition columns
    int buckets = -1;
    bool rowids = false;     // row tracking
    bool quiet = false;      // a rehearsal: nothing is recorded
    bool conc = false;
    Baton baton;
    int64_t next_v = 1;
    std::map<std::string, int> fid;
    std::map<int, std::unique_ptr<Client>> clients;

    explicit Sim(vt::Trace& trace) : tr(trace), rng(trace.rng) {
        memfs::W().Reset();
        memfs::W().shuffle = &rng;
        memfs::W().now_ms = [] { return vclock::NowMs(); };
        vclock::now_us = 1700000000000000;
        vclock::names = trace.rng.Next();
    }
    ~Sim() { memfs::W().Reset(); }

    void Ev(const char* op, const J& args, bool ok = true) {
        if (quiet) return;
        tr.Op(op, args, [&] {
            vt::Out o;
            o.ok = ok;
            return o;
        });
    }

    // -- the table ---------------------------------------------------------------
    bool Make(const Options& more = {}) {
        t.schema = arrow::schema({arrow::field("p", arrow::utf8()), arrow::field("q", arrow::int32()),
                                  arrow::field("v", arrow::int64())});
        t.parts.clear();
        if (np >= 1) t.parts.push_back("p");
        if (np >= 2) t.parts.push_back("q");
        t.options = {{"file-system", "mem"}, {"file.format", "orc"}, {"bucket", std::to_string(buckets)},
                     {"commit.max-retries", "3"}};
        if (buckets > 0) t.options["bucket-key"] = "v";
        if (rowids) t.options["row-tracking.enabled"] = "true";
        for (auto& [k, v] : more) t.options[k] = v;
        Status s = t.Make();
        if (!s.ok()) {
            fprintf(stderr, "driver error: create table: %s\n", s.ToString().c_str());
            _exit(97);
        }
        Watch();
        return true;
    }
    void Watch() {
        memfs::W().changed = [this](Client* c, memfs::Change k, const std::string& p) { Changed(c, k, p); };
        memfs::W().yield = [this](Client*, memfs::Kind, const std::string&) { baton.Yield(); };
    }
    Client* C(int id) {
        auto& c = clients[id];
        if (!c) {
            c = std::make_unique<Client>();
            c->id = id;
        }
        return c.get();
    }
    static std::string User(int id) { return "user" + std::to_string(id); }

    int Fid(const std::string& path) {
        std::string n = path.substr(path.rfind('/') + 1);
        auto it = fid.find(n);
        if (it == fid.end()) it = fid.emplace(n, int(fid.size()) + 1).first;
        return it->second;
    }
    void Changed(Client* c, memfs::Change k, const std::string& path) {
        if (path.compare(0, t.path.size() + 1, t.path + "/") != 0) return;
        std::string rel = path.substr(t.path.size() + 1);
        if (rel.compare(0, 7, "schema/") == 0) return;
        int who = c ? c->id : 0;
        if (rel.compare(0, 9, "snapshot/") == 0) {
            std::string n = rel.substr(9);
            if (n == "LATEST" || n == "EARLIEST") return;
            if (n.compare(0, 9, "snapshot-") == 0) {
                int64_t id = atoll(n.c_str() + 9);
                if (quiet) return;
                memfs::As as(nullptr);
                if (k != memfs::GONE) {
                    Published(who, id);
                } else {
                    Ev("unpub", J().k("c", who).k("id", id));
                }
                return;
            }
        }
        const char* op[] = {"mk", "rm", "mod"};
        J j;
        j.k("c", who).k("f", Fid(path));
        if (k == memfs::MADE) j.k("g", Managed(path)).k("t", Ms());
        Ev(op[k], j);
    }

    static int64_t Ms() { return vclock::NowMs() - 1700000000000; }
    // whole seconds, so that nothing depends on how often the clock is read
    static void Tick(int64_t s) { vclock::now_us = (vclock::now_us / 1000000 + 1 + s) * 1000000; }
    // whether a file is of a kind, and in a place, that cleaning deals with
    bool Managed(const std::string& path) {
        if (path.compare(0, t.path.size() + 1, t.path + "/") != 0) return false;
        std::vector<std::string> way;
        std::stringstream in(path.substr(t.path.size() + 1));
        for (std::string x; std::getline(in, x, '/');) way.push_back(x);
        std::string n = way.back();
        way.pop_back();
        bool place = way.size() == 1 && (way[0] == "snapshot" || way[0] == "manifest");
        if (!place) {
            place = way.size() == t.parts.size() + 1 && way.back().compare(0, 7, "bucket-") == 0;
            for (size_t i = 0; place && i + 1 < way.size(); i++) place = way[i].find('=') != std::string::npos;
        }
        if (!place) return false;
        auto ends = [&](const char* e) { return n.size() >= strlen(e) && n.compare(n.size() - strlen(e), strlen(e), e) == 0; };
        return n.compare(0, 9, "manifest-") == 0 || (n[0] == '.' && ends(".tmp")) ||
               (n.compare(0, 5, "data-") == 0 && (ends(".orc") || ends(".parquet") || ends(".avro") || ends(".lance")));
    }

    // -- looking at the table ------------------------------------------------------
    Status RowsOf(const std::vector<std::shared_ptr<arrow::StructArray>>& arrays, std::vector<Row>* out,
                  std::vector<std::pair<int64_t, int64_t>>* rids = nullptr) {
        for (auto& a : arrays) {
            auto p = std::static_pointer_cast<arrow::StringArray>(a->GetFieldByName("p"));
            auto q = std::static_pointer_cast<arrow::Int32Array>(a->GetFieldByName("q"));
            auto v = std::static_pointer_cast<arrow::Int64Array>(a->GetFieldByName("v"));
            if (!p || !q || !v) return Status::Invalid("column missing");
            std::shared_ptr<arrow::Int64Array> r;
            if (rids) {
                r = std::static_pointer_cast<arrow::Int64Array>(a->GetFieldByName("_ROW_ID"));
                if (!r) return Status::Invalid("no row ids");
            }
            for (int64_t i = 0; i < a->length(); i++) {
                Row row;
                row.v = v->IsNull(i) ? -1 : v->Value(i);
                row.q = q->IsNull(i) ? 99 : q->Value(i);
                row.p = 99;
                for (int k = 0; k < 4; k++) {
                    if (PNAME[k] == nullptr ? p->IsNull(i) : (!p->IsNull(i) && p->GetString(i) == PNAME[k])) row.p = k;
                }
                out->push_back(row);
                if (rids) rids->emplace_back(row.v, r->IsNull(i) ? -1 : r->Value(i));
            }
        }
        std::sort(out->begin(), out->end());
        if (rids) std::sort(rids->begin(), rids->end());
        return Status::OK();
    }
    Status ReadPlan(const std::shared_ptr<paimon::Plan>& plan, std::vector<Row>* out,
                    std::vector<std::pair<int64_t, int64_t>>* rids = nullptr, const Options& more = {}) {
        std::vector<std::string> cols = {"p", "q", "v"};
        if (rids) cols.push_back("_ROW_ID");
        if (plan->Splits().empty()) return Status::OK();
        PAIMON_ASSIGN_OR_RAISE(auto got, t.Rows(plan->Splits(), cols, more));
        return RowsOf(got.arrays, out, rids);
    }
    Status ReadAt(int64_t id, std::vector<Row>* out, std::vector<std::pair<int64_t, int64_t>>* rids = nullptr,
                  const Options& more0 = {}) {
        Options more = more0;
        more["scan.snapshot-id"] = std::to_string(id);
        more["scan.mode"] = "from-snapshot";
        PAIMON_ASSIGN_OR_RAISE(auto scan, t.Scan(false, more));
        PAIMON_ASSIGN_OR_RAISE(auto plan, scan->CreatePlan());
        return ReadPlan(plan, out, rids, more0);
    }

    struct Meta {
        std::shared_ptr<paimon::FileSystem> fs;
        std::shared_ptr<paimon::ManifestList> list;
        std::shared_ptr<paimon::ManifestFile> file;
        std::shared_ptr<paimon::IndexManifestFile> index;
        std::shared_ptr<paimon::SnapshotManager> snaps;
    };
    Result<Meta> Open() {
        Meta m;
        PAIMON_ASSIGN_OR_RAISE(auto options, paimon::CoreOptions::FromMap(t.options));
        m.fs = options.GetFileSystem();
        auto pool = paimon::GetDefaultPool();
        paimon::SchemaManager sm(m.fs, t.path);
        PAIMON_ASSIGN_OR_RAISE(auto latest, sm.Latest());
        auto schema = paimon::DataField::ConvertDataFieldsToArrowSchema(latest.value()->Fields());
        PAIMON_ASSIGN_OR_RAISE(std::shared_ptr<paimon::FileStorePathFactory> pf,
                               paimon::FileStorePathFactory::Create(
                                   t.path, schema, t.parts, options.GetPartitionDefaultName(),
                                   options.GetWriteFileFormat()->Identifier(), options.DataFilePrefix(),
                                   options.LegacyPartitionNameEnabled(), {}, options.IndexFileInDataFileDir(), pool));
        m.snaps = std::make_shared<paimon::SnapshotManager>(m.fs, t.path);
        PAIMON_ASSIGN_OR_RAISE(m.list, paimon::ManifestList::Create(m.fs, options.GetManifestFormat(),
                                                                    options.GetManifestCompression(), pf, pool));
        PAIMON_ASSIGN_OR_RAISE(auto ps, paimon::FieldMapping::GetPartitionSchema(schema, t.parts));
        PAIMON_ASSIGN_OR_RAISE(m.file, paimon::ManifestFile::Create(
                                           m.fs, options.GetManifestFormat(), options.GetManifestCompression(), pf,
                                           options.GetManifestTargetFileSize(), pool, options, ps));
        PAIMON_ASSIGN_OR_RAISE(m.index, paimon::IndexManifestFile::Create(m.fs, options.GetManifestFormat(),
                                                                          options.GetManifestCompression(), pf, pool, options));
        return m;
    }
    // the names of all files snapshot `s` needs
    Status RefsOf(const Meta& m, const paimon::Snapshot& s, std::set<std::string>* out) {
        out->insert(s.BaseManifestList());
        out->insert(s.DeltaManifestList());
        std::vector<paimon::ManifestFileMeta> metas;
        PAIMON_RETURN_NOT_OK(m.list->ReadDataManifests(s, &metas));
        std::set<std::string> add, del;
        for (auto& meta : metas) {
            out->insert(meta.FileName());
            std::vector<paimon::ManifestEntry> es;
            PAIMON_RETURN_NOT_OK(m.file->Read(meta.FileName(), nullptr, &es));
            for (auto& e : es) {
                auto& set = e.Kind() == paimon::FileKind::Add() ? add : del;
                set.insert(e.FileName());
                for (auto& x : e.File()->extra_files)
                    if (x) set.insert(x.value());
            }
        }
        for (auto& f : add)
            if (!del.count(f)) out->insert(f);
        if (s.IndexManifest()) {
            out->insert(s.IndexManifest().value());
            std::vector<paimon::IndexManifestEntry> es;
            PAIMON_RETURN_NOT_OK(m.index->Read(s.IndexManifest().value(), nullptr, &es));
            for (auto& e : es) out->insert(e.index_file->FileName());
        }
        return Status::OK();
    }
    static int64_t Wm(const std::optional<int64_t>& w) { return w ? *w : -1; }
    void Published(int who, int64_t id) {
        J j;
        j.k("c", who).k("id", id);
        Status st = [&]() -> Status {
            PAIMON_ASSIGN_OR_RAISE(auto m, Open());
            PAIMON_ASSIGN_OR_RAISE(auto s, m.snaps->LoadSnapshot(id));
            std::set<std::string> refs;
            PAIMON_RETURN_NOT_OK(RefsOf(m, s, &refs));
            std::vector<int> ids;
            for (auto& r : refs) ids.push_back(Fid(r));
            std::vector<Row> rows;
            std::vector<std::pair<int64_t, int64_t>> rids;
            PAIMON_RETURN_NOT_OK(ReadAt(id, &rows, rowids ? &rids : nullptr));
            j.k("user", s.CommitUser()).k("ident", s.CommitIdentifier());
            j.k("kind", paimon::Snapshot::CommitKind::ToString(s.GetCommitKind()));
            j.k("sid", s.Id()).raw("rows", RowsJson(rows)).k("refs", ids);
            j.k("total", s.TotalRecordCount() ? *s.TotalRecordCount() : -1);
            j.k("delta", s.DeltaRecordCount() ? *s.DeltaRecordCount() : -1000);
            j.k("wm", Wm(s.Watermark())).k("nrid", s.NextRowId() ? *s.NextRowId() : -1);
            j.k("time", s.TimeMillis() - 1700000000000);
            if (rowids) j.k("rids", rids);
            return Status::OK();
        }();
        if (!st.ok() && getenv("VDEBUG")) fprintf(stderr, "publish: %s\n", st.ToString().c_str());
        Ev("pub", j, st.ok());
    }
    // a fresh observer opens the table and reads what it finds
    void Look() {
        memfs::As as(nullptr);
        J j;
        Status st = LookInto(&j);
        if (!st.ok() && getenv("VDEBUG")) fprintf(stderr, "look: %s\n", st.ToString().c_str());
        Ev("look", j, st.ok());
    }
    Status LookInto(J* j) {
        PAIMON_ASSIGN_OR_RAISE(auto scan, t.Scan(false));
        PAIMON_ASSIGN_OR_RAISE(auto plan, scan->CreatePlan());
        std::vector<Row> rows;
        PAIMON_RETURN_NOT_OK(ReadPlan(plan, &rows));
        j->k("id", plan->SnapshotId() ? *plan->SnapshotId() : 0).raw("rows", RowsJson(rows));
        return Status::OK();
    }
    // the same while others are at work
    void LookAs(Client* c) {
        memfs::As as(c);
        Call(c, J().k("k", "look"));
        J j;
        Status st = LookInto(&j);
        if (!st.ok() && getenv("VDEBUG")) fprintf(stderr, "reader: %s\n", st.ToString().c_str());
        Ev("seen", j.k("c", c->id), st.ok());
    }
    void ReadSnapshot(int64_t id, const Options& more = {}) {
        memfs::As as(nullptr);
        J j;
        j.k("id", id);
        std::vector<Row> rows;
        std::vector<std::pair<int64_t, int64_t>> rids;
        Status st = ReadAt(id, &rows, rowids ? &rids : nullptr, more);
        if (st.ok()) j.raw("rows", RowsJson(rows));
        if (st.ok() && rowids) j.k("rids", rids);
        Ev("read", j, st.ok());
    }

    // -- what a process does ----------------------------------------------------------
    std::vector<Row> NewRows(int n) {
        std::vector<Row> r;
        for (int i = 0; i < n; i++) r.push_back({next_v++, int(rng.Below(np >= 1 ? 4 : 2)), int(rng.Below(3))});
        return r;
    }
    // partitions of rows are limited to few
    std::vector<Row> NewRowsIn(int n, int p, int q) {
        std::vector<Row> r;
        for (int i = 0; i < n; i++) r.push_back({next_v++, p, q});
        return r;
    }
    static std::string PText(int p) { return PNAME[p] ? PNAME[p] : "__DEFAULT_PARTITION__"; }
    Status WriteRows(paimon::FileStoreWrite* w, const std::vector<Row>& rows, bool split) {
        std::map<std::tuple<int, int, int>, std::vector<Row>> groups;
        for (auto& r : rows)
            groups[{np >= 1 ? r.p : -1, np >= 2 ? r.q : -1, buckets > 0 ? int(r.v % buckets) : 0}].push_back(r);
        for (auto& [key, g] : groups) {
            tbl::Spec part;
            if (np >= 1) part["p"] = PText(std::get<0>(key));
            if (np >= 2) part["q"] = std::to_string(std::get<1>(key));
            size_t at = 0;
            while (at < g.size()) {
                size_t n = split ? 1 : g.size() - at;
                std::string json = "[";
                for (size_t i = at; i < at + n; i++) {
                    if (i > at) json += ",";
                    json += "[" + (PNAME[g[i].p] ? std::string("\"") + PNAME[g[i].p] + "\"" : std::string("null")) + "," +
                            std::to_string(g[i].q) + "," + std::to_string(g[i].v) + "]";
                }
                PAIMON_ASSIGN_OR_RAISE(auto batch, t.Batch(json + "]", part, std::get<2>(key)));
                PAIMON_RETURN_NOT_OK(w->Write(std::move(batch)));
                at += n;
            }
        }
        return Status::OK();
    }
    void Call(Client* c, J j) { Ev("call", J().k("c", c->id).k("flt", c->fault != memfs::NONE).k("conc", conc).raw("a", j.str())); }
    // a status that says the attempts were used up without publishing
    static bool Lost(const Status& s) { return s.ToString().find("Commit failed after") != std::string::npos; }
    void Ret(Client* c, const Status& s, int n = -1) {
        if (!s.ok() && getenv("VDEBUG")) fprintf(stderr, "client %d: %s\n", c->id, s.ToString().c_str());
        if (c->dead) return Died(c);
        Ev("ret", J().k("c", c->id).k("lost", Lost(s)).k("n", n), s.ok());
    }

    bool Write(Client* c, const std::vector<Row>& rows, int64_t ident, Messages* out, bool split = false,
               const Options& more = {}) {
        memfs::As as(c);
        Call(c, J().k("k", "write"));
        Status s = [&]() -> Status {
            PAIMON_ASSIGN_OR_RAISE(auto w, t.Writer(User(c->id), false, more));
            PAIMON_RETURN_NOT_OK(WriteRows(w.get(), rows, split));
            PAIMON_ASSIGN_OR_RAISE(*out, w->PrepareCommit(false, ident));
            return w->Close();
        }();
        Ret(c, s);
        return s.ok();
    }
    bool Commit(Client* c, const std::vector<Row>& rows, const Messages& msgs, int64_t ident, int64_t wm = -1,
                bool ignore_empty = true) {
        memfs::As as(c);
        Call(c, J().k("k", "commit").k("user", User(c->id)).k("ident", ident).raw("rows", RowsJson(rows)).k("wm", wm)
                    .k("ign", ignore_empty));
        Status s = [&]() -> Status {
            PAIMON_ASSIGN_OR_RAISE(auto cm, t.Committer(User(c->id), ignore_empty));
            return cm->Commit(msgs, ident, wm < 0 ? std::optional<int64_t>() : std::optional<int64_t>(wm));
        }();
        Ret(c, s);
        return s.ok();
    }
    struct Unit {
        std::vector<Row> rows;
        Messages msgs;
    };
    bool Filter(Client* c, const std::map<int64_t, Unit>& units, int64_t wm = -1, bool ignore_empty = true) {
        memfs::As as(c);
        std::string list = "[";
        std::map<int64_t, Messages> in;
        for (auto& [ident, u] : units) {
            if (list.size() > 1) list += ",";
            list += J().k("ident", ident).raw("rows", RowsJson(u.rows)).str();
            in[ident] = u.msgs;
        }
        Call(c, J().k("k", "filter").k("user", User(c->id)).raw("units", list + "]").k("wm", wm).k("ign", ignore_empty));
        int n = -1;
        Status s = [&]() -> Status {
            PAIMON_ASSIGN_OR_RAISE(auto cm, t.Committer(User(c->id), ignore_empty));
            PAIMON_ASSIGN_OR_RAISE(n, cm->FilterAndCommit(in, wm < 0 ? std::optional<int64_t>() : std::optional<int64_t>(wm)));
            return Status::OK();
        }();
        Ret(c, s, n);
        return s.ok();
    }
    // partition specifications: -1 leaves a column open
    using PSpec = std::pair<int, int>;
    tbl::Spec ToSpec(const PSpec& s) {
        tbl::Spec r;
        if (s.first >= 0) r["p"] = PText(s.first);
        if (s.second >= 0) r["q"] = std::to_string(s.second);
        return r;
    }
    // how: 0 overwrite, 1 filter-and-overwrite, 2 drop
    bool Overwrite(Client* c, int how, const std::vector<PSpec>& specs, const std::vector<Row>& rows, const Messages& msgs,
                   int64_t ident, int64_t wm = -1) {
        memfs::As as(c);
        const char* k[] = {"over", "fover", "drop"};
        Call(c, J().k("k", k[how]).k("user", User(c->id)).k("ident", ident).raw("rows", RowsJson(rows)).k("specs", specs)
                    .k("wm", wm));
        std::vector<tbl::Spec> parts;
        for (auto& s : specs) parts.push_back(ToSpec(s));
        int n = -1;
        Status s = [&]() -> Status {
            PAIMON_ASSIGN_OR_RAISE(auto cm, t.Committer(User(c->id)));
            auto w = wm < 0 ? std::optional<int64_t>() : std::optional<int64_t>(wm);
            if (how == 0) return cm->Overwrite(parts, msgs, ident, w);
            if (how == 2) return cm->DropPartition(parts, ident);
            PAIMON_ASSIGN_OR_RAISE(n, cm->FilterAndOverwrite(parts, msgs, ident, w));
            return Status::OK();
        }();
        Ret(c, s, n);
        return s.ok();
    }
    // the calls that remove things
    bool Expire(Client* c, int min, int max, int lim, int64_t age_ms) {
        memfs::As as(c);
        Call(c, J().k("k", "expire").k("min", min).k("max", max).k("lim", lim).k("age", age_ms).k("now", Ms()));
        int n = -1;
        Status s = [&]() -> Status {
            Options o = {{"snapshot.num-retained.min", std::to_string(min)},
                         {"snapshot.num-retained.max", std::to_string(max)},
                         {"snapshot.expire.limit", std::to_string(lim)},
                         {"snapshot.time-retained", std::to_string(age_ms) + " ms"},
                         {"snapshot.clean-empty-directories", rng.Chance(50) ? "true" : "false"}};
            PAIMON_ASSIGN_OR_RAISE(auto cm, t.Committer(User(c->id), true, o));
            PAIMON_ASSIGN_OR_RAISE(n, cm->Expire());
            return Status::OK();
        }();
        Ret(c, s, n);
        return s.ok();
    }
    bool Clean(Client* c, int64_t older_ms, const std::set<std::string>& keep) {
        memfs::As as(c);
        std::vector<int> kept;
        for (auto& k : keep) kept.push_back(Fid(k));
        Call(c, J().k("k", "clean").k("old", older_ms).k("keep", kept));
        std::vector<int> gone;
        Status s = [&]() -> Status {
            paimon::CleanContextBuilder b(t.path);
            b.SetOptions(t.options).WithOlderThanMs(1700000000000 + older_ms).WithExecutor(tbl::Exec());
            if (!keep.empty()) b.WithFileRetainCondition([keep](const std::string& n) { return keep.count(n) > 0; });
            PAIMON_ASSIGN_OR_RAISE(auto ctx, b.Finish());
            PAIMON_ASSIGN_OR_RAISE(auto cleaner, paimon::OrphanFilesCleaner::Create(std::move(ctx)));
            PAIMON_ASSIGN_OR_RAISE(auto set, cleaner->Clean());
            for (auto& g : set) gone.push_back(Fid(g));
            return Status::OK();
        }();
        if (!s.ok() && getenv("VDEBUG")) fprintf(stderr, "clean: %s\n", s.ToString().c_str());
        if (c->dead) {
            Died(c);
        } else {
            Ev("ret", J().k("c", c->id).k("lost", false).k("n", -1).k("gone", gone), s.ok());
        }
        return s.ok();
    }
    // streams
    struct Stream {
        std::unique_ptr<paimon::TableScan> scan;
    };
    std::vector<Stream> streams;
    // mode: latest-full, latest, from-snapshot, from-snapshot-full
    void OpenStream(const std::string& how, int64_t start) {
        memfs::As as(nullptr);
        Options o = {{"scan.mode", how}};
        if (start > 0) o["scan.snapshot-id"] = std::to_string(start);
        auto r = t.Scan(true, o);
        Ev("sopen", J().k("s", int(streams.size()) + 1).k("how", how).k("start", start), r.ok());
        streams.emplace_back();
        if (r.ok()) streams.back().scan = std::move(r).value();
    }
    void Poll(Client* c, int s) {
        if (!streams[s].scan) return;
        memfs::As as(c);
        Call(c, J().k("k", "poll").k("s", s + 1));
        J j;
        Status st = [&]() -> Status {
            PAIMON_ASSIGN_OR_RAISE(auto plan, streams[s].scan->CreatePlan());
            std::vector<Row> rows;
            PAIMON_RETURN_NOT_OK(ReadPlan(plan, &rows));
            j.k("id", plan->SnapshotId() ? *plan->SnapshotId() : 0).raw("rows", RowsJson(rows));
            return Status::OK();
        }();
        if (!st.ok() && getenv("VDEBUG")) fprintf(stderr, "poll: %s\n", st.ToString().c_str());
        Ev("polled", j.k("c", c->id), st.ok());
    }
    // what a look-up without the table's help finds
    void Find() {
        memfs::As as(nullptr);
        J j;
        Status st = [&]() -> Status {
            paimon::SnapshotManager m(std::make_shared<memfs::Fs>(), t.path);
            PAIMON_ASSIGN_OR_RAISE(auto latest, m.LatestSnapshotId());
            PAIMON_ASSIGN_OR_RAISE(auto earliest, m.EarliestSnapshotId());
            PAIMON_ASSIGN_OR_RAISE(auto snap, m.LatestSnapshot());
            j.k("latest", latest ? *latest : 0).k("earliest", earliest ? *earliest : 0).k("snap", snap ? snap->Id() : 0);
            std::vector<int64_t> users;
            for (int u = 1; u <= 3; u++) {
                PAIMON_ASSIGN_OR_RAISE(auto us, m.LatestSnapshotOfUser(User(u)));
                users.push_back(us ? us->Id() : 0);
            }
            j.k("users", users);
            return Status::OK();
        }();
        if (!st.ok() && getenv("VDEBUG")) fprintf(stderr, "find: %s\n", st.ToString().c_str());
        Ev("find", j, st.ok());
    }
    // the table is dropped and made again
    void Recreate() {
        auto& n = memfs::W().nodes;
        for (auto it = n.begin(); it != n.end();)
            it = it->first.compare(0, t.path.size(), t.path) == 0 ? n.erase(it) : std::next(it);
        Ev("recreate", J());
        Status st = t.Make();
        if (!st.ok()) _exit(97);
    }
    // puts text into a hint file; none: removes it
    void Hint(const char* which, const std::optional<std::string>& text) {
        std::string p = t.path + "/snapshot/" + which;
        if (!text) {
            memfs::W().nodes.erase(p);
        } else {
            memfs::Node n;
            n.data = std::make_shared<memfs::Data>();
            n.data->bytes = *text;
            n.mtime = vclock::NowMs();
            memfs::W().nodes[p] = n;
        }
        int64_t v = text && !text->empty() && text->size() < 9 && text->find_first_not_of("0123456789") == std::string::npos
                        ? atoll(text->c_str()) : -1;
        Ev("hint", J().k("which", which).k("v", v));
    }
    int64_t IdentOf(int user) {
        memfs::As as(nullptr);
        paimon::SnapshotManager m(std::make_shared<memfs::Fs>(), t.path);
        auto r = m.LatestSnapshotOfUser(User(user));
        return r.ok() && r.value() ? r.value()->CommitIdentifier() : 0;
    }
    int64_t Newest() {
        int64_t best = 0;
        std::string pre = t.path + "/snapshot/snapshot-";
        for (auto& [k, n] : memfs::W().nodes)
            if (k.compare(0, pre.size(), pre) == 0) best = std::max<int64_t>(best, atoll(k.c_str() + pre.size()));
        return best;
    }
    // a file nobody asked for
    void Junk(const std::string& rel) {
        memfs::As as(nullptr);
        memfs::Fs fs;
        auto o = fs.Create(t.path + "/" + rel, true);
        if (o.ok()) (void)o.value()->Write("junk", 4);
    }
    void Died(Client* c) { Ev("died", J().k("c", c->id)); }

    // -- rehearsals ----------------------------------------------------------------------
    // how many file operations f takes; everything is as before afterwards
    int64_t Rehearse(Client* c, const std::function<void()>& f) {
        auto files = memfs::W().nodes;
        for (auto& [k, n] : files)
            if (n.data) n.data = std::make_shared<memfs::Data>(*n.data);
        auto r = rng;
        int64_t now = vclock::now_us, names = vclock::names, v = next_v;
        Client keep = *c;
        c->ops = 0;
        c->fault = memfs::NONE;
        c->fault_at = -1;
        quiet = true;
        f();
        quiet = false;
        int64_t n = c->ops;
        *c = keep;
        vclock::now_us = now;
        vclock::names = names;
        next_v = v;
        rng = r;
        memfs::W().nodes = files;
        return n;
    }
    void Arm(Client* c, int64_t at, memfs::Fault f) {
        c->ops = 0;
        c->fault_at = at;
        c->fault = f;
        c->hit = false;
        c->dead = false;
    }
    // f with a fault at one of its operations; false if the process stopped there
    bool Disturbed(Client* c, const std::function<void()>& f, int64_t at, memfs::Fault fault) {
        Arm(c, at, fault);
        f();
        bool stopped = c->dead;
        Arm(c, -1, memfs::NONE);
        return !stopped;
    }
    memfs::Fault AnyFault() {
        return rng.Pick<memfs::Fault>({memfs::FAIL, memfs::LOST, memfs::TORN, memfs::STOP});
    }
};

}  // namespace sim
