// C38: the file system that chooses by scheme, the registry of factories, look-ups by name, uris.
#include "paimon/common/fs/resolving_file_system.h"
#include "paimon/factories/factory.h"
#include "paimon/factories/factory_creator.h"
#include "paimon/file_index/file_indexer.h"
#include "paimon/file_index/file_indexer_factory.h"
#include "paimon/format/file_format.h"
#include "paimon/format/file_format_factory.h"
#include "paimon/fs/file_system_factory.h"
#include "paimon/global_index/global_indexer.h"
#include "paimon/global_index/global_indexer_factory.h"
#include "paimon/common/factories/io_hook.h"
// not part of every library build
#include "paimon/common/utils/path_util.cpp"     // NOLINT
#include "paimon/common/utils/string_utils.cpp"  // NOLINT
#include "paimon/common/fs/file_system.cpp"      // NOLINT
#include "vtrace.h"
#include "vsched_trace.h"

using namespace paimon;  // NOLINT
using vt::J;
using vt::Out;

struct Uri {
    std::string text, scheme, auth;
};
struct World {
    vt::Trace* t = nullptr;
    int insts = 0, results = 0;
    std::vector<int> fails;  // per asking of the flaky factory: fail?
    int asked = 0;
    std::map<std::string, std::string> options;
    std::map<std::string, Uri> uris;
    std::vector<int> plan;  // per delegated call: does it fail?
};
static World* W;
static thread_local int me = 0;

static J Res(bool ok, int v) { return J().k("ok", ok).k("v", v); }
static int Tail(const std::string& s) {
    size_t p = s.rfind('#');
    return p == std::string::npos ? -1 : atoi(s.c_str() + p + 1);
}

struct In : InputStream {
    explicit In(std::string u) : u_(std::move(u)) {}
    Status Close() override { return Status::OK(); }
    Status Seek(int64_t, SeekOrigin) override { return Status::OK(); }
    Result<int64_t> GetPos() const override { return 0; }
    Result<int32_t> Read(char*, uint32_t) override { return 0; }
    Result<int32_t> Read(char*, uint32_t, uint64_t) override { return 0; }
    void ReadAsync(char*, uint32_t, uint64_t, std::function<void(Status)>&& cb) override { cb(Status::OK()); }
    Result<std::string> GetUri() const override { return u_; }
    Result<uint64_t> Length() const override { return 0; }
    std::string u_;
};
struct OutS : OutputStream {
    explicit OutS(std::string u) : u_(std::move(u)) {}
    Status Close() override { return Status::OK(); }
    Result<int32_t> Write(const char*, uint32_t n) override { return n; }
    Status Flush() override { return Status::OK(); }
    Result<int64_t> GetPos() const override { return 0; }
    Result<std::string> GetUri() const override { return u_; }
    std::string u_;
};
struct St : FileStatus {
    explicit St(int n) : n_(n) {}
    uint64_t GetLen() const override { return n_; }
    bool IsDir() const override { return n_ % 2; }
    std::string GetPath() const override { return "p#" + std::to_string(n_); }
    int64_t GetModificationTime() const override { return n_; }
    int n_;
};
struct BSt : BasicFileStatus {
    explicit BSt(int n) : n_(n) {}
    bool IsDir() const override { return n_ % 2; }
    std::string GetPath() const override { return "p#" + std::to_string(n_); }
    int n_;
};

// an instance: says who was called with what and answers with something unique
struct Fs : FileSystem {
    explicit Fs(int n) : n_(n) {}
    bool Say(const char* m, const std::vector<std::string>& args, int* v, Status* st, bool yesno = false) const {
        vs::Yield();
        int k;
        bool ok;
        {
            vs::Quiet q;
            k = ++W->results;
            ok = !W->plan[k % W->plan.size()];
        }
        if (ok && yesno) k = k % 2;
        *v = k;
        if (!ok) {
            std::string msg = "no #" + std::to_string(k);
            switch (k % 4) {
                case 0: *st = Status::IOError(msg); break;
                case 1: *st = Status::NotExist(msg); break;
                case 2: *st = Status::Exist(msg); break;
                default: *st = Status::Invalid(msg);
            }
        }
        vs::Event(*W->t, "pass", J().k("t", me).k("n", n_).k("m", m).k("args", args).k("r", Res(ok, Val(ok, k, *st))));
        return ok;
    }
    static int Val(bool ok, int k, const Status& st) { return ok ? k : -1000 * int(st.code()) - k; }
    Result<std::unique_ptr<InputStream>> Open(const std::string& p) const override {
        int v;
        Status s;
        if (!Say("open", {p}, &v, &s)) return s;
        return std::unique_ptr<InputStream>(new In("u#" + std::to_string(v)));
    }
    Result<std::unique_ptr<OutputStream>> Create(const std::string& p, bool ow) const override {
        int v;
        Status s;
        if (!Say("create", {p, ow ? "1" : "0"}, &v, &s)) return s;
        return std::unique_ptr<OutputStream>(new OutS("u#" + std::to_string(v)));
    }
    Status Mkdirs(const std::string& p) const override { return Plain("mkdirs", {p}); }
    Status Rename(const std::string& a, const std::string& b) const override { return Plain("rename", {a, b}); }
    Status Delete(const std::string& p, bool rec) const override { return Plain("delete", {p, rec ? "1" : "0"}); }
    Status Plain(const char* m, const std::vector<std::string>& args) const {
        int v;
        Status s;
        vs::Yield();
        bool ok;
        {
            vs::Quiet q;
            v = ++W->results;
            ok = !W->plan[v % W->plan.size()];
        }
        if (!ok) s = v % 2 ? Status::IOError("no #" + std::to_string(v)) : Status::NotImplemented("no #" + std::to_string(v));
        vs::Event(*W->t, "pass", J().k("t", me).k("n", n_).k("m", m).k("args", args).k("r", Res(ok, ok ? 0 : Val(ok, v, s))));
        return s;
    }
    Result<std::unique_ptr<FileStatus>> GetFileStatus(const std::string& p) const override {
        int v;
        Status s;
        if (!Say("status", {p}, &v, &s)) return s;
        return std::unique_ptr<FileStatus>(new St(v));
    }
    Status ListDir(const std::string& p, std::vector<std::unique_ptr<BasicFileStatus>>* l) const override {
        int v;
        Status s;
        if (!Say("listdir", {p}, &v, &s)) return s;
        l->push_back(std::make_unique<BSt>(v));
        return Status::OK();
    }
    Status ListFileStatus(const std::string& p, std::vector<std::unique_ptr<FileStatus>>* l) const override {
        int v;
        Status s;
        if (!Say("liststatus", {p}, &v, &s)) return s;
        l->push_back(std::make_unique<St>(v));
        return Status::OK();
    }
    Result<bool> Exists(const std::string& p) const override {
        int v;
        Status s;
        if (!Say("exists", {p}, &v, &s, true)) return s;
        return v == 1;
    }
    int n_;
};
struct FsFactory : FileSystemFactory {
    explicit FsFactory(std::string id, int fail) : id_(std::move(id)), fail_(fail) {}
    const char* Identifier() const override { return id_.c_str(); }
    Result<std::unique_ptr<FileSystem>> Create(const std::string& path,
                                               const std::map<std::string, std::string>& o) const override {
        vs::Yield();
        bool ok = fail_ != 2, same;
        int n = 0;
        std::vector<std::string> key;
        {
            vs::Quiet q;
            if (fail_ == 1) ok = !W->fails[W->asked++ % W->fails.size()];
            same = o == W->options && W->uris.count(path);
            key = W->uris.count(path) ? std::vector<std::string>{W->uris[path].scheme, W->uris[path].auth}
                                      : std::vector<std::string>{"?", "?"};
            if (ok) n = ++W->insts;
        }
        vs::Event(*W->t, "make", J().k("t", me).k("id", id_).k("key", key).k("same", same).k("n", n).k("ok", ok));
        vs::Yield();
        if (!ok) return Status::IOError("cannot");
        return std::unique_ptr<FileSystem>(new Fs(n));
    }
    std::string id_;
    int fail_;
};
struct OtherFactory : Factory {
    explicit OtherFactory(std::string id, int n = 0) : id_(std::move(id)), n_(n) {}
    const char* Identifier() const override { return id_.c_str(); }
    std::string id_;
    int n_;
};

static void Setup() {
    static bool done = false;
    if (done) return;
    done = true;
    auto* c = FactoryCreator::GetInstance();
    for (const char* id : {"local", "dfs", "oss", "loc"}) c->Register(std::string("v-") + id, new FsFactory(std::string("v-") + id, 0));
    c->Register("v-flaky", new FsFactory("v-flaky", 1));
    c->Register("v-bad", new FsFactory("v-bad", 2));
    c->Register("v-other", new OtherFactory("v-other"));
}

static void Resolving(vt::Trace& t) {
    auto& r = t.rng;
    Setup();
    World w;
    W = &w;
    w.t = &t;
    static const std::vector<std::string> schemes = {"", "file", "hdfs", "oss", "FILE", "x"};
    static const std::vector<std::string> ids = {"v-local", "v-dfs", "v-oss", "v-loc", "v-flaky", "v-bad", "v-other", "v-none"};
    std::map<std::string, std::string> mapping;
    int maps = r.Below(5);
    for (int k = 0; k < maps; k++) mapping[r.Pick(schemes)] = r.Chance(60) ? ids[r.Below(5)] : r.Pick(ids);
    std::string dflt = r.Chance(75) ? ids[r.Below(5)] : r.Pick(ids);
    int options = r.Below(3);
    for (int k = 0; k < options; k++) w.options["o" + std::to_string(k)] = std::to_string(r.Below(9));
    int nf = r.In(1, 4);
    for (int k = 0; k < nf; k++) w.fails.push_back(r.Chance(50));
    int np = r.In(1, 6);
    for (int k = 0; k < np; k++) w.plan.push_back(r.Chance(30));
    // uris of few keys, in several spellings
    std::vector<std::string> texts;
    int nu = r.In(1, 6);
    static const std::vector<std::string> auths = {"", "", "h1", "h2:80", "b"};
    for (int k = 0; k < nu; k++) {
        Uri u;
        u.scheme = r.Pick(schemes);
        u.auth = r.Chance(70) && u.scheme.empty() ? "" : r.Pick(auths);
        std::string tail = r.Chance(10) && !(u.scheme.empty() && u.auth.empty()) ? "" : "/" + std::string(1, 'a' + r.Below(3));
        if (r.Chance(20) && !tail.empty()) tail += r.Chance(50) ? "/" : "/c:d//e";
        u.text = u.scheme.empty() ? "" : u.scheme + ":";
        if (!u.auth.empty()) u.text += "//" + u.auth;
        else if (r.Chance(25) && !u.scheme.empty() && !tail.empty()) u.text += "//";
        else if (r.Chance(15) && u.scheme.empty() && tail.size() == 2) tail = tail.substr(1);
        u.text += tail;
        w.uris[u.text] = u;
        texts.push_back(u.text);
    }
    int threads = r.Chance(25) ? 1 : r.In(2, 4);
    int per = threads == 1 ? r.In(4, 20) : r.In(1, 5);
    struct Call {
        int m, u, u2;
        bool flag;
    };
    std::vector<std::vector<Call>> plan(threads);
    for (auto& p : plan)
        for (int n = 0; n < per; n++)
            p.push_back({int(r.Below(9)), int(r.Chance(50) ? 0 : r.Below(nu)), int(r.Below(nu)), r.Chance(50)});
    std::vector<std::pair<std::string, std::string>> maplist(mapping.begin(), mapping.end());
    t.Init(J().k("map", maplist).k("default", dflt)
               .k("works", std::vector<std::string>{"v-local", "v-dfs", "v-oss", "v-loc", "v-flaky"})
               .k("flaky", std::vector<std::string>{"v-flaky"}));
    vs::Begin(t, true);
    {
        ResolvingFileSystem fs(mapping, dflt, w.options);
        auto work = [&](int th) {
            me = th + 1;
            for (const Call& c : plan[th]) {
                static const char* names[] = {"open", "create", "mkdirs", "rename", "delete", "status", "listdir", "liststatus", "exists"};
                const std::string& p = texts[c.u];
                std::vector<std::string> args = {p};
                if (c.m == 1 || c.m == 4) args.push_back(c.flag ? "1" : "0");
                if (c.m == 3) args.push_back(texts[c.u2]);
                const Uri& u = w.uris[p];
                vs::Event(t, "call", J().k("t", me).k("m", names[c.m]).k("u", J().k("scheme", u.scheme).k("auth", u.auth)).k("args", args));
                J res;
                auto bad = [](const Status& s) { return Res(false, -1000 * int(s.code()) - Tail(s.message())); };
                switch (c.m) {
                    case 0: {
                        auto x = fs.Open(p);
                        res = x.ok() ? Res(true, x.value() ? Tail(x.value()->GetUri().value()) : -3) : bad(x.status());
                        break;
                    }
                    case 1: {
                        auto x = fs.Create(p, c.flag);
                        res = x.ok() ? Res(true, x.value() ? Tail(x.value()->GetUri().value()) : -3) : bad(x.status());
                        break;
                    }
                    case 2: {
                        auto s = fs.Mkdirs(p);
                        res = s.ok() ? Res(true, 0) : bad(s);
                        break;
                    }
                    case 3: {
                        auto s = fs.Rename(p, texts[c.u2]);
                        res = s.ok() ? Res(true, 0) : bad(s);
                        break;
                    }
                    case 4: {
                        auto s = fs.Delete(p, c.flag);
                        res = s.ok() ? Res(true, 0) : bad(s);
                        break;
                    }
                    case 5: {
                        auto x = fs.GetFileStatus(p);
                        res = x.ok() ? Res(true, x.value() ? int(x.value()->GetLen()) : -3) : bad(x.status());
                        break;
                    }
                    case 6: {
                        std::vector<std::unique_ptr<BasicFileStatus>> l;
                        auto s = fs.ListDir(p, &l);
                        res = s.ok() ? Res(true, l.size() == 1 ? Tail(l[0]->GetPath()) : -3) : bad(s);
                        break;
                    }
                    case 7: {
                        std::vector<std::unique_ptr<FileStatus>> l;
                        auto s = fs.ListFileStatus(p, &l);
                        res = s.ok() ? Res(true, l.size() == 1 ? Tail(l[0]->GetPath()) : -3) : bad(s);
                        break;
                    }
                    default: {
                        auto x = fs.Exists(p);
                        res = x.ok() ? Res(true, x.value() ? 1 : 0) : bad(x.status());
                    }
                }
                vs::Event(t, "ret", J().k("t", me).k("r", res));
            }
        };
        if (threads == 1) {
            work(0);
            auto x = fs.Exists("");
            vs::Event(t, "odd", J().k("r", Res(x.ok(), 0)));
        } else {
            std::vector<std::thread> th;
            for (int k = 0; k < threads; k++) th.emplace_back(work, k);
            for (auto& x : th) x.join();
        }
    }
    vs::End();
    W = nullptr;
}

// one instance of a global object for all threads, whoever is first
static void One(vt::Trace& t) {
    t.Init(J().k("map", std::vector<int>{}).k("default", "").k("works", std::vector<int>{}).k("flaky", std::vector<int>{}));
    int n = t.rng.In(2, 4);
    uint64_t seed = t.rng.Next();
    bool hook = t.rng.Chance(50);
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        vt::Trace* own = new vt::Trace(t);
        own->rng = vt::Rng(seed);
        vs::Begin(*own, false);
        std::vector<void*> got(n);
        std::vector<std::thread> th;
        for (int k = 0; k < n; k++)
            th.emplace_back([&, k] { got[k] = hook ? static_cast<void*>(IOHook::GetInstance()) : FactoryCreator::GetInstance(); });
        for (auto& x : th) x.join();
        vs::End();
        bool same = got[0] != nullptr;
        for (void* p : got) same = same && p == got[0];
        _exit(same ? 0 : 1);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    t.Op("one", J().k("same", WIFEXITED(st) && WEXITSTATUS(st) == 0), [] { return Out(); });
}

// look-ups by name: factories of four kinds
struct Numbered {
    virtual ~Numbered() = default;
    int n = 0;
};
struct Fmt : FileFormat, Numbered {
    std::string id;
    const std::string& Identifier() const override { return id; }
    Result<std::unique_ptr<ReaderBuilder>> CreateReaderBuilder(int32_t) const override { return Status::NotImplemented(""); }
    Result<std::unique_ptr<WriterBuilder>> CreateWriterBuilder(::ArrowSchema*, int32_t) const override { return Status::NotImplemented(""); }
    Result<std::unique_ptr<FormatStatsExtractor>> CreateStatsExtractor(::ArrowSchema*) const override { return Status::NotImplemented(""); }
};
struct FInd : FileIndexer, Numbered {
    Result<std::shared_ptr<FileIndexReader>> CreateReader(::ArrowSchema*, int32_t, int32_t, const std::shared_ptr<InputStream>&,
                                                          const std::shared_ptr<MemoryPool>&) const override { return Status::NotImplemented(""); }
    Result<std::shared_ptr<FileIndexWriter>> CreateWriter(::ArrowSchema*, const std::shared_ptr<MemoryPool>&) const override { return Status::NotImplemented(""); }
};
struct GInd : GlobalIndexer, Numbered {
    Result<std::shared_ptr<GlobalIndexWriter>> CreateWriter(const std::string&, ::ArrowSchema*, const std::shared_ptr<GlobalIndexFileWriter>&,
                                                            const std::shared_ptr<MemoryPool>&) const override { return Status::NotImplemented(""); }
    Result<std::shared_ptr<GlobalIndexReader>> CreateReader(::ArrowSchema*, const std::shared_ptr<GlobalIndexFileReader>&,
                                                            const std::vector<GlobalIndexIOMeta>&, const std::shared_ptr<MemoryPool>&) const override { return Status::NotImplemented(""); }
};
using Opts = std::map<std::string, std::string>;
static Opts want_opts;
template <typename Base, typename Made>
struct Maker : Base {
    Maker(std::string id, int n) : id_(std::move(id)), n_(n) {}
    const char* Identifier() const override { return id_.c_str(); }
    std::string id_;
    int n_;
    template <typename I>
    Result<std::unique_ptr<I>> Do(const Opts& o) const {
        auto m = std::make_unique<Made>();
        m->n = o == want_opts ? n_ : -9;
        return std::unique_ptr<I>(std::move(m));
    }
};
struct FmtMaker : Maker<FileFormatFactory, Fmt> {
    using Maker::Maker;
    Result<std::unique_ptr<FileFormat>> Create(const Opts& o) const override { return Do<FileFormat>(o); }
};
struct FIndMaker : Maker<FileIndexerFactory, FInd> {
    using Maker::Maker;
    Result<std::unique_ptr<FileIndexer>> Create(const Opts& o) const override { return Do<FileIndexer>(o); }
};
struct GIndMaker : Maker<GlobalIndexerFactory, GInd> {
    using Maker::Maker;
    Result<std::unique_ptr<GlobalIndexer>> Create(const Opts& o) const override { return Do<GlobalIndexer>(o); }
};
struct NFs : Fs, Numbered {
    NFs() : Fs(0) {}
};
struct FsMaker : FileSystemFactory {
    FsMaker(std::string id, int n) : id_(std::move(id)), n_(n) {}
    const char* Identifier() const override { return id_.c_str(); }
    Result<std::unique_ptr<FileSystem>> Create(const std::string& p, const Opts& o) const override {
        auto m = std::make_unique<NFs>();
        m->n = o == want_opts && p == "pp" ? n_ : -9;
        return std::unique_ptr<FileSystem>(std::move(m));
    }
    std::string id_;
    int n_;
};
static void Lookups(vt::Trace& t) {
    auto& r = t.rng;
    t.Init(J().k("map", std::vector<int>{}).k("default", "").k("works", std::vector<int>{}).k("flaky", std::vector<int>{}));
    auto* c = FactoryCreator::GetInstance();
    static const std::vector<std::string> names = {"w-a", "w-b", "w-a-global", "W-A", "", "w-a-global-global", "-global"};
    static const char* kinds[] = {"fs", "format", "findex", "gindex", "none"};
    std::map<std::string, std::pair<int, int>> there;  // name -> kind, number
    int serial = 0;
    auto reg = [&](const std::string& n) {
        int k = r.Below(5);
        ++serial;
        there[n] = {k, serial};
        if (k == 0) c->Register(n, new FsMaker(n, serial));
        else if (k == 1) c->Register(n, new FmtMaker(n, serial));
        else if (k == 2) c->Register(n, new FIndMaker(n, serial));
        else if (k == 3) c->Register(n, new GIndMaker(n, serial));
        else c->Register(n, new OtherFactory(n, serial));
    };
    int steps = r.In(3, 20);
    for (int s = 0; s < steps; s++) {
        std::string n = r.Pick(names);
        if (r.Chance(35)) {
            if (!there.count(n)) reg(n);
            continue;
        }
        if (r.Chance(15)) {
            c->TEST_Unregister(n);
            there.erase(n);
            continue;
        }
        want_opts.clear();
        if (r.Chance(60)) want_opts["k"] = std::to_string(r.Below(9));
        int of = r.Below(4);
        std::string full = of == 3 ? n + "-global" : n;
        bool in = there.count(full);
        J a = J().k("of", kinds[of]).k("there", in).k("kind", in ? kinds[there[full].first] : "none").k("id", in ? there[full].second : 0);
        t.Op("get", a, [&]() -> Out {
            auto num = [](auto& x) {
                if (!x.ok()) return Res(false, 0);
                if (!x.value()) return Res(true, 0);
                auto* m = dynamic_cast<Numbered*>(x.value().get());
                return Res(true, m ? m->n : -5);
            };
            J res;
            if (of == 0) { auto x = FileSystemFactory::Get(n, "pp", want_opts); res = num(x); }
            else if (of == 1) { auto x = FileFormatFactory::Get(n, want_opts); res = num(x); }
            else if (of == 2) { auto x = FileIndexerFactory::Get(n, want_opts); res = num(x); }
            else { auto x = GlobalIndexerFactory::Get(n, want_opts); res = num(x); }
            return Out(J().k("r", res));
        });
    }
    for (auto& [n, k] : there) c->TEST_Unregister(n);
}

static void Uris(vt::Trace& t) {
    auto& r = t.rng;
    t.Init(J().k("map", std::vector<int>{}).k("default", "").k("works", std::vector<int>{}).k("flaky", std::vector<int>{}));
    auto text = [&](int min) {
        std::string s;
        int n = r.In(min, 14);
        static const std::string pool = "///::ab.x";
        if (r.Chance(40)) s = r.Chance(50) ? "oss://bkt" : "file:/";
        for (int k = 0; k < n; k++) s += pool[r.Below(pool.size())];
        return s;
    };
    int steps = r.In(3, 12);
    for (int s = 0; s < steps; s++) {
        std::string p = text(r.Chance(5) ? 0 : 1), q = text(0);
        int f = r.Below(5);
        if (f == 0) {
            t.Op("parse", J().k("p", vt::BytesOf(p)), [&]() -> Out {
                auto x = PathUtil::ToPath(p);
                if (!x.ok()) return Out::Err();
                auto y = PathUtil::NormalizePath(p);
                if (!y.ok()) return Out::Err();
                return Out(J().k("u", J().k("scheme", vt::BytesOf(x.value().scheme)).k("auth", vt::BytesOf(x.value().authority))
                                   .k("path", vt::BytesOf(x.value().path))).k("show", vt::BytesOf(x.value().ToString())).k("norm", vt::BytesOf(y.value())));
            });
        } else if (f == 1) {
            t.Op("join", J().k("p", vt::BytesOf(p)).k("q", vt::BytesOf(q)), [&]() -> Out { return Out(J().k("r", vt::BytesOf(PathUtil::JoinPath(p, q)))); });
        } else if (f == 2) {
            t.Op("name", J().k("p", vt::BytesOf(p)), [&]() -> Out { return Out(J().k("r", vt::BytesOf(PathUtil::GetName(p)))); });
        } else if (f == 3) {
            t.Op("parent", J().k("p", vt::BytesOf(p)), [&]() -> Out { return Out(J().k("r", vt::BytesOf(PathUtil::GetParentDirPath(p)))); });
        } else {
            std::string d = "/d" + p + "/n" + std::string(1, 'a' + r.Below(3));
            t.Op("temp", J().k("p", vt::BytesOf(d)), [&]() -> Out {
                auto x = PathUtil::CreateTempPath(d), y = PathUtil::CreateTempPath(d);
                if (!x.ok() || !y.ok()) return Out::Err();
                return Out(J().k("a", vt::BytesOf(x.value())).k("b", vt::BytesOf(y.value())));
            });
        }
    }
}

// the registry under several threads
static const int kTypes = 4;
static void Registry(vt::Trace& t) {
    auto& r = t.rng;
    int threads = r.Chance(20) ? 1 : r.In(2, 3);
    struct Call {
        std::string f;
        int k, v;
    };
    std::vector<std::vector<Call>> plan(threads);
    int serial = 0;
    std::vector<int> state(kTypes + 1, 0);  // registered by its owner, in plan order
    int per = threads == 1 ? r.In(5, 25) : r.In(1, 6);
    for (int n = 0; n < per; n++)
        for (int th = 0; th < threads; th++) {
            int k = r.In(1, kTypes);
            int w = r.Below(10);
            bool own = k % threads == th;  // each type is registered and removed by one thread
            Call c{"find", k, 0};
            if (w < 4 && own && !state[k]) {
                c.f = "insert";
                c.v = ++serial;
                state[k] = 1;
            } else if (w < 6 && own && state[k] && threads == 1) {
                c.f = "erase";
                state[k] = 0;
            } else if (w < 8) {
                c.f = "keys";
            }
            plan[th].push_back(c);
        }
    t.Init(J().k("kind", "registry").k("threads", threads).k("obj", std::vector<int>(kTypes, -1)));
    vs::Begin(t, true);
    auto reg = std::make_unique<FactoryCreator>();
    auto name = [](int k) { return k == 1 ? std::string() : k == 2 ? std::string("a") : k == 3 ? std::string("A") : std::string("a\0b", 3); };
    auto flat = [&](const std::vector<std::string>& l) {
        std::vector<int> v(kTypes, 0);
        for (auto& s : l) {
            bool hit = false;
            for (int k = 1; k <= kTypes; k++)
                if (name(k) == s) v[k - 1]++, hit = true;
            if (!hit) v.push_back(-7);
        }
        return v;
    };
    auto find = [&](int k) -> std::vector<int> {
        auto* f = reg->Create(name(k));
        if (!f) return {};
        auto* o = dynamic_cast<OtherFactory*>(f);
        return {o ? o->n_ : -5};
    };
    auto act = [&](const Call& c) -> std::vector<int> {
        if (c.f == "insert") {
            reg->Register(name(c.k), new OtherFactory("x", c.v));
            return {};
        }
        if (c.f == "find") return find(c.k);
        if (c.f == "erase") {
            reg->TEST_Unregister(name(c.k));
            return {};
        }
        return flat(reg->GetRegisteredType());
    };
    auto work = [&](int th) {
        for (const Call& c : plan[th]) {
            vs::Event(t, "inv", J().k("t", th + 1).k("p", J().k("f", c.f).k("k", c.k).k("v", c.v)));
            auto res = act(c);
            vs::Event(t, "ret", J().k("t", th + 1).k("r", res));
        }
    };
    if (threads == 1) {
        work(0);
    } else {
        std::vector<std::thread> th;
        for (int k = 0; k < threads; k++) th.emplace_back(work, k);
        for (auto& x : th) x.join();
    }
    vs::End();
    std::vector<int> last;
    for (int k = 1; k <= kTypes; k++) {
        auto v = find(k);
        last.push_back(v.empty() ? -1 : v[0]);
    }
    vs::Event(t, "final", J().k("obj", last));
}

int main(int argc, char** argv) {
    std::string mode = vt::Arg(argc, argv, "--mode", "resolve");
    return vt::Run(argc, argv, mode == "registry" ? Registry : mode == "one" ? One : mode == "get" ? Lookups : mode == "uri" ? Uris : Resolving, 60);
}
