// Local files and the local file system against a tree of named byte sequences: single operations
// with textual variants of their paths, injected failures, several threads at once.
// Everything happens in a scratch directory; calls that would change something elsewhere are
// refused and recorded, and the process gives up its privileges first.
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <grp.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <condition_variable>
#include <cstdarg>
#include <map>
#include <mutex>
#include <thread>

#include "paimon/common/factories/io_hook.h"
#include "paimon/fs/local/local_file.h"
#include "paimon/fs/local/local_file_status.h"
#include "paimon/fs/local/local_file_system.h"
#include "vtrace.h"

using namespace paimon;
using vt::J;
using vt::Out;
using P = std::vector<std::string>;

// ---------------------------------------------------------------- containment and switch points
static std::string g_root;          // all effects stay below
static std::atomic<int> g_escape{0};
static std::unique_ptr<vt::Rng> g_short;  // when reads are cut short
static std::atomic<int> g_syncs{0};
static thread_local int t_me = -1;  // number of the racing thread

class Baton {
 public:
    void Start(int n, uint64_t seed) {
        live_.clear();
        for (int i = 0; i < n; i++) live_.push_back(i);
        rng_ = std::make_unique<vt::Rng>(seed);
        turn_ = live_[rng_->Below(n)];
        on_ = true;
    }
    void Wait() {
        std::unique_lock<std::mutex> l(m_);
        c_.wait(l, [&] { return turn_ == t_me; });
    }
    void Yield() {
        if (t_me < 0 || !on_) return;
        std::unique_lock<std::mutex> l(m_);
        turn_ = live_[rng_->Below(live_.size())];
        c_.notify_all();
        c_.wait(l, [&] { return turn_ == t_me; });
    }
    void Leave() {
        std::unique_lock<std::mutex> l(m_);
        live_.erase(std::find(live_.begin(), live_.end(), t_me));
        turn_ = live_.empty() ? -1 : live_[rng_->Below(live_.size())];
        c_.notify_all();
    }
    void Stop() { on_ = false; }

 private:
    std::mutex m_;
    std::condition_variable c_;
    std::vector<int> live_;
    std::unique_ptr<vt::Rng> rng_;
    int turn_ = -1;
    std::atomic<bool> on_{false};
};
static Baton g_baton;

static bool Inside(const char* p) {
    if (g_root.empty()) return true;  // before the first trace
    std::string s(p ? p : "");
    if (s.compare(0, g_root.size() + 1, g_root + "/") != 0) return false;
    return s.find("/../") == std::string::npos && (s.size() < 3 || s.substr(s.size() - 3) != "/..");
}
static bool Refuse(const char* p) {
    if (Inside(p)) return false;
    g_escape++;
    errno = EACCES;
    return true;
}
#define REAL(name) (*reinterpret_cast<decltype(&::name)>(Sym(#name)))
static void* Sym(const char* n) {
    static std::mutex m;
    static std::map<std::string, void*> cache;
    std::lock_guard<std::mutex> l(m);
    void*& p = cache[n];
    if (!p) p = dlsym(RTLD_NEXT, n);
    return p;
}
extern "C" {
int access(const char* p, int m) noexcept {
    g_baton.Yield();
    return REAL(access)(p, m);
}
DIR* opendir(const char* p) {
    g_baton.Yield();
    return REAL(opendir)(p);
}
int remove(const char* p) noexcept {
    g_baton.Yield();
    return Refuse(p) ? -1 : REAL(remove)(p);
}
int unlink(const char* p) noexcept {
    g_baton.Yield();
    return Refuse(p) ? -1 : REAL(unlink)(p);
}
int rmdir(const char* p) noexcept {
    g_baton.Yield();
    return Refuse(p) ? -1 : REAL(rmdir)(p);
}
int unlinkat(int d, const char* p, int f) noexcept {
    g_baton.Yield();
    return (d == AT_FDCWD || p[0] == '/') && Refuse(p) ? -1 : REAL(unlinkat)(d, p, f);
}
int rename(const char* a, const char* b) noexcept {
    g_baton.Yield();
    return Refuse(a) || Refuse(b) ? -1 : REAL(rename)(a, b);
}
int renameat(int x, const char* a, int y, const char* b) noexcept {
    g_baton.Yield();
    return Refuse(a) || Refuse(b) ? -1 : REAL(renameat)(x, a, y, b);
}
int renameat2(int x, const char* a, int y, const char* b, unsigned f) noexcept {
    g_baton.Yield();
    return Refuse(a) || Refuse(b) ? -1 : REAL(renameat2)(x, a, y, b, f);
}
int link(const char* a, const char* b) noexcept {
    g_baton.Yield();
    return Refuse(a) || Refuse(b) ? -1 : REAL(link)(a, b);
}
ssize_t pread(int fd, void* b, size_t n, off_t off) {
    // fewer bytes than asked for are allowed
    if (g_short && n > 1 && g_short->Chance(40)) n = static_cast<size_t>(g_short->In(1, static_cast<int64_t>(n) - 1));
    return REAL(pread)(fd, b, n, off);
}
int fsync(int fd) {
    g_syncs++;
    return REAL(fsync)(fd);
}
int fdatasync(int fd) {
    g_syncs++;
    return REAL(fdatasync)(fd);
}
int truncate(const char* p, off_t n) noexcept { return Refuse(p) ? -1 : REAL(truncate)(p, n); }
int mkdir(const char* p, mode_t m) noexcept {
    g_baton.Yield();
    return Refuse(p) ? -1 : REAL(mkdir)(p, m);
}
int mkdirat(int d, const char* p, mode_t m) noexcept {
    g_baton.Yield();
    return Refuse(p) ? -1 : REAL(mkdirat)(d, p, m);
}
FILE* fopen(const char* p, const char* m) {
    g_baton.Yield();
    if (m[0] != 'r' || strchr(m, '+')) {
        if (Refuse(p)) return nullptr;
    }
    return REAL(fopen)(p, m);
}
int open(const char* p, int f, ...) {
    va_list ap;
    va_start(ap, f);
    mode_t m = (f & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0;
    va_end(ap);
    g_baton.Yield();
    if ((f & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) && strcmp(p, "/dev/urandom") && Refuse(p)) return -1;
    return REAL(open)(p, f, m);
}
}

// ---------------------------------------------------------------- the driver's own view
static std::string Plain(const P& p) {
    std::string s = g_root;
    for (auto& n : p) s += "/" + n;
    return s;
}
static P Split(const std::string& full) {
    P r;
    std::string s = full;
    if (s.compare(0, 5, "file:") == 0) s = s.substr(5);
    if (s.compare(0, g_root.size(), g_root) != 0) return {"?", s};
    std::string rest = s.substr(g_root.size()), cur;
    for (char c : rest + "/") {
        if (c == '/') {
            if (!cur.empty()) r.push_back(cur);
            cur.clear();
        } else {
            cur += c;
        }
    }
    return r;
}
static void Walk(const P& at, std::vector<J>* out) {
    std::string dir = Plain(at);
    J d;
    d.k("p", at).k("d", true).k("b", std::vector<int>{});
    out->push_back(d);
    DIR* dp = REAL(opendir)(dir.c_str());
    if (!dp) return;
    std::vector<std::string> names;
    while (auto* e = readdir(dp)) {
        std::string n = e->d_name;
        if (n != "." && n != "..") names.push_back(n);
    }
    closedir(dp);
    std::sort(names.begin(), names.end());
    for (auto& n : names) {
        P q = at;
        q.push_back(n);
        struct stat b;
        if (::lstat(Plain(q).c_str(), &b) != 0) continue;
        if (S_ISDIR(b.st_mode)) {
            Walk(q, out);
        } else {
            std::string c;
            int fd = REAL(open)(Plain(q).c_str(), O_RDONLY);
            char buf[4096];
            ssize_t k;
            while (fd >= 0 && (k = ::read(fd, buf, sizeof(buf))) > 0) c.append(buf, k);
            if (fd >= 0) ::close(fd);
            out->push_back(J().k("p", q).k("d", false).k("b", vt::BytesOf(c)));
        }
    }
}
static void Wipe(const std::string& dir) {
    if (!Inside(dir.c_str()) && dir != g_root) return;
    REAL(chmod)(dir.c_str(), 0755);
    DIR* dp = REAL(opendir)(dir.c_str());
    if (!dp) return;
    std::vector<std::string> names;
    while (auto* e = readdir(dp)) {
        std::string n = e->d_name;
        if (n != "." && n != "..") names.push_back(n);
    }
    closedir(dp);
    for (auto& n : names) {
        std::string q = dir + "/" + n;
        struct stat b;
        if (::lstat(q.c_str(), &b) != 0) continue;
        if (S_ISDIR(b.st_mode)) {
            Wipe(q);
            REAL(rmdir)(q.c_str());
        } else {
            REAL(unlink)(q.c_str());
        }
    }
}
// 32-bit picture of an offset
static int64_t Enc(int64_t v) {
    if (v < 0) return -1;
    if (v < 1000000000) return v;
    if (v >= (1ll << 32) - 100000 && v < (1ll << 32) + 100000) return 2000000000 + (v - (1ll << 32));
    return 1999999999;
}

struct H {
    int id;
    bool stream, w, spoiled = false;
    std::unique_ptr<LocalFile> f;
    std::unique_ptr<InputStream> in;
    std::unique_ptr<OutputStream> out;
};

class Run {
 public:
    explicit Run(vt::Trace& t) : t(t), r(t.rng) {}
    vt::Trace& t;
    vt::Rng& r;
    LocalFileSystem fs;
    std::vector<H> hs;
    int next = 1;
    bool fault = false, throws = false, limited = false;
    P locked;
    std::vector<P> recent;  // paths that probably exist

    IOHook* Hook() { return IOHook::GetInstance(); }
    int64_t Count() { return std::min<int64_t>(Hook()->IOCount(), 1000000); }

    // an operation with the number of I/O steps before and after it
    void Op(const char* name, J args, const std::function<Out()>& f, const P* at = nullptr) {
        int64_t c0 = Count(), c1 = c0;
        args.k("c0", c0);
        bool threw = false;
        int syncs = g_syncs;
        t.Op(name, args, [&]() -> Out {
            Out o;
            try {
                o = f();
            } catch (...) {
                threw = true;
                o = Out();
                o.ok = false;
            }
            c1 = Count();
            if (!o.ok) o.f = J();
            if (o.ok && at) {
                recent.push_back(*at);
                if (recent.size() > 4) recent.erase(recent.begin());
            }
            o.f.k("c1", c1).k("thrown", threw).k("sync", g_syncs > syncs);
            return o;
        });
    }
    bool WriterOpen() {
        for (auto& h : hs)
            if (h.w) return true;
        return false;
    }
    P Path(int depth = 3) {
        static const std::vector<std::string> names{"a", "b", "c", "x y", ".h", "\xc3\xa9", "k=v", "%41"};
        P p;
        if (!recent.empty() && r.Chance(45)) return r.Pick(recent);
        int n = static_cast<int>(r.In(1, depth));
        if (r.Chance(60)) n = std::min(n, 2);
        for (int i = 0; i < n; i++) p.push_back(names[r.Chance(85) ? r.Below(3) : r.Below(names.size())]);
        return p;
    }
    bool NearLocked(const P& p) {
        if (locked.empty()) return false;
        size_t n = std::min(p.size(), locked.size());
        return std::equal(p.begin(), p.begin() + n, locked.begin());
    }
    // the same path in other words
    std::string Text(const P& p, bool* slash = nullptr) {
        std::string s = g_root;
        for (auto& n : p) {
            s += "/";
            if (r.Chance(6)) s += "/";
            s += n;
        }
        bool sl = r.Chance(8);
        if (sl) s += "/";
        if (slash) *slash = sl;
        if (r.Chance(12)) s = (r.Chance(70) ? "file:" : "FILE:") + s;
        return s;
    }
    std::vector<int> Content(std::string* c) {
        int n = static_cast<int>(r.Chance(20) ? 0 : r.Chance(10) ? r.In(50, 5000) : r.In(1, 6));
        if (n > 60) {
            // contents longer than the library's buffer
            n = static_cast<int>(r.In(4090, 4100));
        }
        c->clear();
        for (int i = 0; i < n; i++) c->push_back(static_cast<char>(r.Chance(90) ? r.In(1, 9) : r.Below(256)));
        return vt::BytesOf(*c);
    }
    void Dump() {
        t.Op("dump", J(), [&] {
            std::vector<J> nodes;
            Walk({}, &nodes);
            Out o;
            o.f.k("nodes", nodes).k("esc", static_cast<int>(g_escape.load()));
            return o;
        });
    }
    static Out Val(const Result<bool>& x) {
        Out o = Out::Of(x.status());
        if (o.ok) o.f.k("v", x.value());
        return o;
    }
    void AddHandle(H h, const char* op, const P& p, const std::function<Status(H*)>& f) {
        h.id = next++;
        bool ok = false;
        Op(op, J().k("p", p).k("h", h.id), [&] {
            Status s = f(&h);
            ok = s.ok();
            return Out::Of(s);
        }, h.w ? &p : nullptr);
        if (ok) hs.push_back(std::move(h));
    }
    static int64_t Ms(int64_t ms) { return ms / 1000; }

    void FileOp() {
        P p = Path();
        int what = static_cast<int>(r.Below(15));
        if ((what == 3 || what == 4) && r.Chance(30)) p.clear();
        LocalFile f(Plain(p));
        J a = J().k("p", p);
        switch (what) {
            case 0: return Op("exists", a, [&] { return Val(f.Exists()); });
            case 1: return Op("isfile", a, [&] { return Val(f.IsFile()); });
            case 2: return Op("isdir", a, [&] { return Val(f.IsDir()); });
            case 3: {
                return Op("list", a, [&] {
                    std::vector<std::string> l{"stale"};
                    Out o = Out::Of(f.List(&l));
                    if (o.ok) o.f.k("l", l);
                    return o;
                });
            }
            case 4: {
                return Op("listfiles", a, [&] {
                    std::vector<LocalFile> l;
                    Out o = Out::Of(f.ListFiles(&l));
                    std::vector<P> ps;
                    for (auto& x : l) ps.push_back(Split(x.GetAbsolutePath()));
                    if (o.ok) o.f.k("l", ps);
                    return o;
                });
            }
            case 5:
            case 6:
                if (NearLocked(p)) return;
                return Op("fdelete", a, [&] { return Out::Of(f.Delete()); });
            case 7:
            case 8: return Op("fmkdir", a, [&] { return Val(f.Mkdir()); });
            case 9: {
                return Op("fstatus", a, [&] {
                    auto s = f.GetFileStatus();
                    Out o = Out::Of(s.status());
                    if (o.ok)
                        o.f.k("len", Enc(s.value()->GetLen())).k("d", s.value()->IsDir())
                            .k("at", Split(s.value()->GetPath()));
                    return o;
                });
            }
            case 10:
                return Op("flength", a, [&] {
                    auto s = f.Length();
                    Out o = Out::Of(s.status());
                    if (o.ok) o.f.k("len", Enc(s.value()));
                    return o;
                });
            case 11: {
                int64_t when = r.In(1, 2000000000);
                struct timespec ts[2] = {{when, 0}, {when, 999000000}};
                ::utimensat(AT_FDCWD, Plain(p).c_str(), ts, 0);
                bool st = r.Chance(50);
                return Op("mtime", a.k("when", when), [&] {
                    if (st) {
                        auto s = f.GetFileStatus();
                        Out o = Out::Of(s.status());
                        if (o.ok) o.f.k("sec", Ms(s.value()->GetModificationTime()));
                        return o;
                    }
                    auto s = f.LastModifiedTimeMs();
                    Out o = Out::Of(s.status());
                    if (o.ok) o.f.k("sec", Ms(s.value()));
                    return o;
                });
            }
            case 12: {
                return t.Op("parent", a, [&] {
                    Out o;
                    LocalFile q = f.GetParentFile();
                    o.f.k("at", Split(q.GetAbsolutePath())).k("empty", q.IsEmpty());
                    return o;
                });
            }
            case 13: {
                H h;
                h.stream = false;
                h.w = false;
                h.f = std::make_unique<LocalFile>(Plain(p));
                return AddHandle(std::move(h), "fopenr", p, [&](H* x) { return x->f->OpenFile(true); });
            }
            default: {
                if (WriterOpen()) return;
                H h;
                h.stream = false;
                h.w = true;
                h.f = std::make_unique<LocalFile>(Plain(p));
                return AddHandle(std::move(h), "fopenw", p, [&](H* x) { return x->f->OpenFile(false); });
            }
        }
    }
    static Out Status1(const Result<std::unique_ptr<FileStatus>>& s) {
        Out o = Out::Of(s.status());
        if (o.ok)
            o.f.k("len", Enc(s.value()->GetLen())).k("d", s.value()->IsDir()).k("at", Split(s.value()->GetPath()));
        return o;
    }
    // an operation of several steps that failed by injection may be half done
    void After() {
        if (fault || (limited && !t.last_ok)) Dump();
    }
    // files cannot grow beyond the limit
    void Limit(int64_t n) {
        t.Op("limit", J().k("n", n), [&] {
            ::signal(SIGXFSZ, SIG_IGN);
            struct rlimit l;
            ::getrlimit(RLIMIT_FSIZE, &l);
            l.rlim_cur = n < 0 ? l.rlim_max : static_cast<rlim_t>(n);
            Out o;
            o.ok = ::setrlimit(RLIMIT_FSIZE, &l) == 0;
            return o;
        });
        limited = n >= 0;
    }
    void FsOp() {
        P p = Path();
        bool slash = false;
        std::string s = Text(p, &slash);
        J a = J().k("p", p);
        int what = static_cast<int>(r.Below(18));
        // clean-up in destructors does not survive injected exceptions
        if (throws && what >= 11 && what <= 15) return;
        switch (what) {
            case 0: return Op("exists", a, [&] { return Val(fs.Exists(s)); });
            case 1: return Op("status", a, [&] { return Status1(fs.GetFileStatus(s)); });
            case 2: {
                if (r.Chance(30)) p = {}, s = g_root, a = J().k("p", p);
                return Op("listdir", a, [&] {
                    std::vector<std::unique_ptr<BasicFileStatus>> l;
                    Out o = Out::Of(fs.ListDir(s, &l));
                    std::vector<J> v;
                    for (auto& x : l) v.push_back(J().k("at", Split(x->GetPath())).k("d", x->IsDir()));
                    if (o.ok) o.f.k("l", v);
                    return o;
                });
            }
            case 3: {
                if (r.Chance(30)) p = {}, s = g_root, a = J().k("p", p);
                return Op("liststatus", a, [&] {
                    std::vector<std::unique_ptr<FileStatus>> l;
                    Out o = Out::Of(fs.ListFileStatus(s, &l));
                    std::vector<J> v;
                    for (auto& x : l)
                        v.push_back(J().k("at", Split(x->GetPath())).k("d", x->IsDir()).k("len", Enc(x->GetLen())));
                    if (o.ok) o.f.k("l", v);
                    return o;
                });
            }
            case 4:
            case 5: {
                if (NearLocked(p)) return;
                bool rec = r.Chance(50);
                Op("delete", a.k("rec", rec), [&] { return Out::Of(fs.Delete(s, rec)); });
                return After();
            }
            case 6:
            case 7: Op("mkdirs", a, [&] { return Out::Of(fs.Mkdirs(s)); }, &p); return After();
            case 8:
            case 9:
            case 10: {
                P q = Path();
                if (!locked.empty()) return;
                bool sl = false;
                std::string d = Text(q, &sl);
                bool in = q.size() > p.size() && std::equal(p.begin(), p.end(), q.begin());
                Op("rename", a.k("q", q).k("slash", sl), [&] { return Out::Of(fs.Rename(s, d)); }, &q);
                if (in || fault) Dump();
                return;
            }
            case 11:
            case 12: {
                if (WriterOpen()) return;
                std::string c;
                auto b = Content(&c);
                bool over = r.Chance(50);
                Op("writefile", a.k("b", b).k("over", over), [&] { return Out::Of(fs.WriteFile(s, c, over)); }, &p);
                return After();
            }
            case 13:
            case 14: {
                std::string c;
                auto b = Content(&c);
                if (slash) s = Plain(p);
                Op("store", a.k("b", b), [&] { return Out::Of(fs.AtomicStore(s, c)); }, &p);
                return After();
            }
            case 15: {
                return Op("readfile", a, [&] {
                    std::string c = "old";
                    Out o = Out::Of(fs.ReadFile(s, &c));
                    if (o.ok) o.f.k("b", vt::BytesOf(c));
                    return o;
                });
            }
            case 16: {
                if (r.Chance(10)) {
                    std::string odd = r.Pick(std::vector<std::string>{"", "hdfs:/a", "oss://bucket/a", "filex:/a"});
                    return Op("odd", J(), [&] {
                        switch (r.Below(6)) {
                            case 0: return Out::Of(fs.Exists(odd).status());
                            case 1: return Out::Of(fs.Open(odd).status());
                            case 2: return Out::Of(fs.Mkdirs(odd));
                            case 3: return Out::Of(fs.Delete(odd));
                            case 4: return Out::Of(fs.Create(odd, true).status());
                            default: return Out::Of(fs.Rename(odd, odd));
                        }
                    });
                }
                H h;
                h.stream = true;
                h.w = false;
                return AddHandle(std::move(h), "fopenr", p, [&](H* x) -> Status {
                    PAIMON_ASSIGN_OR_RAISE(x->in, fs.Open(s));
                    return Status::OK();
                });
            }
            default: {
                if (WriterOpen()) return;
                H h;
                h.stream = true;
                h.w = true;
                h.id = next++;
                bool over = r.Chance(50), ok = false;
                Op("create", a.k("over", over).k("h", h.id), [&]() -> Out {
                    auto x = fs.Create(s, over);
                    ok = x.ok();
                    if (ok) h.out = std::move(x).value();
                    return Out::Of(x.status());
                }, &p);
                if (ok) hs.push_back(std::move(h));
                return After();
            }
        }
    }
    void CloseAt(size_t k) {
        H& h = hs[k];
        bool ok = false;
        Op("close", J().k("h", h.id), [&] {
            Status s = !h.stream ? h.f->Close() : h.w ? h.out->Close() : h.in->Close();
            ok = s.ok();
            return Out::Of(s);
        });
        if (!ok && !limited) return;
        if (r.Chance(30))
            Op("again", J().k("h", h.id).k("what", "close"), [&] {
                return Out::Of(!h.stream ? h.f->Close() : h.w ? h.out->Close() : h.in->Close());
            });
        if (r.Chance(30)) {
            char c = 0;
            Op("again", J().k("h", h.id).k("what", "use"), [&] {
                if (h.w) return Out::Of((h.stream ? h.out->Write(&c, 1) : h.f->Write(&c, 1)).status());
                switch (r.Below(4)) {
                    case 0: return Out::Of((h.stream ? h.in->Read(&c, 1) : h.f->Read(&c, 1)).status());
                    case 1: return Out::Of((h.stream ? h.in->Read(&c, 1, 0) : h.f->Read(&c, 1, 0)).status());
                    case 2: return Out::Of(h.stream ? h.in->Seek(0, FS_SEEK_SET) : h.f->Seek(0, SEEK_SET));
                    default: return Out::Of((h.stream ? h.in->GetPos() : h.f->Tell()).status());
                }
            });
        }
        hs.erase(hs.begin() + k);
    }
    void HandleOp() {
        if (hs.empty()) return;
        size_t k = r.Below(hs.size());
        H& h = hs[k];
        J a = J().k("h", h.id);
        if (h.spoiled || r.Chance(12)) return CloseAt(k);
        if (r.Chance(12))
            return Op("tell", a, [&] {
                auto x = !h.stream ? h.f->Tell() : h.w ? h.out->GetPos() : h.in->GetPos();
                Out o = Out::Of(x.status());
                if (o.ok) o.f.k("v", Enc(x.value()));
                return o;
            });
        if (h.w) {
            if (r.Chance(20))
                return Op("flush", a, [&] { return Out::Of(h.stream ? h.out->Flush() : h.f->Flush()); });
            if (!h.stream && r.Chance(6)) {
                char c;
                h.spoiled = true;
                return Op("wrong", a, [&] {
                    return Out::Of((r.Chance(50) ? h.f->Read(&c, 1) : h.f->Read(&c, 1, 0)).status());
                });
            }
            if (r.Chance(5))
                return Op("wrong", a, [&] {
                    return Out::Of((h.stream ? h.out->Write("", 0x80000000u) : h.f->Write("", 0x80000000u)).status());
                });
            std::string c;
            auto b = Content(&c);
            return Op("write", a.k("b", b), [&] {
                auto x = h.stream ? h.out->Write(c.data(), c.size()) : h.f->Write(c.data(), c.size());
                Out o = Out::Of(x.status());
                if (o.ok) o.f.k("n", static_cast<int>(x.value()));
                return o;
            });
        }
        switch (r.Below(8)) {
            case 0:
            case 1:
            case 2: {
                int n = static_cast<int>(r.Chance(15) ? r.In(4000, 5000) : r.In(0, 6));
                return Op("read", a.k("n", n).k("stream", h.stream), [&] {
                    std::string c(n + 4, '\7');
                    auto x = h.stream ? h.in->Read(c.data(), n) : h.f->Read(c.data(), n);
                    Out o = Out::Of(x.status());
                    if (o.ok) {
                        int got = std::max(0, std::min(n, static_cast<int>(x.value())));
                        o.f.k("n2", static_cast<int>(x.value())).k("b", vt::BytesOf(c.data(), got))
                            .k("rest", c.substr(got) == std::string(n + 4 - got, '\7'));
                    }
                    return o;
                });
            }
            case 3:
            case 4: {
                int n = static_cast<int>(r.Chance(15) ? r.In(4000, 5000) : r.In(0, 6));
                int64_t off = r.Chance(10) ? (1ll << 32) + r.Below(4) : r.Chance(10) ? r.In(4000, 5000) : r.In(0, 8);
                int how = h.stream ? static_cast<int>(r.Below(2)) : 0;
                return Op("pread", a.k("n", n).k("off", Enc(off)).k("stream", h.stream), [&] {
                    std::string c(n + 4, '\7');
                    Out o;
                    int got = n, said = n;
                    if (how == 1) {
                        int calls = 0;
                        Status st;
                        h.in->ReadAsync(c.data(), n, off, [&](Status s) {
                            calls++;
                            st = s;
                        });
                        o = Out::Of(st);
                        if (calls != 1) said = -1;
                    } else {
                        auto x = h.stream ? h.in->Read(c.data(), n, off) : h.f->Read(c.data(), n, off);
                        o = Out::Of(x.status());
                        if (o.ok) said = x.value(), got = std::max(0, std::min(n, said));
                    }
                    if (o.ok)
                        o.f.k("n2", said).k("b", vt::BytesOf(c.data(), got))
                            .k("rest", c.substr(got) == std::string(n + 4 - got, '\7'));
                    return o;
                });
            }
            case 5: {
                int org = static_cast<int>(r.Below(3));
                int64_t off = r.Chance(8) ? (1ll << 32) + r.Below(4) : r.In(org == 0 ? -1 : -6, 8);
                if (off > (1ll << 30)) org = 0;
                return Op("seek", a.k("off", off < 0 ? off : Enc(off)).k("org", org), [&] {
                    static const int so[3] = {SEEK_SET, SEEK_CUR, SEEK_END};
                    static const SeekOrigin fo[3] = {FS_SEEK_SET, FS_SEEK_CUR, FS_SEEK_END};
                    return Out::Of(h.stream ? h.in->Seek(off, fo[org]) : h.f->Seek(off, so[org]));
                });
            }
            case 6: {
                if (!h.stream && r.Chance(30)) {
                    h.spoiled = true;
                    char c = 0;
                    return Op("wrong", a, [&] { return Out::Of(h.f->Write(&c, 1).status()); });
                }
                if (r.Chance(30)) {
                    char c = 0;
                    return Op("wrong", a, [&] {
                        return Out::Of((r.Chance(50) ? (h.stream ? h.in->Read(&c, 0x80000000u) : h.f->Read(&c, 0x80000000u))
                                                     : (h.stream ? h.in->Read(&c, 0xffffffffu, 0)
                                                                 : h.f->Read(&c, 0xffffffffu, 0)))
                                           .status());
                    });
                }
                return;
            }
            default:
                return Op("hlength", a, [&] {
                    auto x = h.stream ? h.in->Length() : h.f->Length();
                    Out o = Out::Of(x.status());
                    if (o.ok) o.f.k("len", Enc(x.value()));
                    return o;
                });
        }
    }
    void Sparse() {
        // a file of more than four gigabytes, without its blocks
        std::string f = g_root + "/sparse";
        t.Op("sparse", J(), [&] {
            int fd = REAL(open)(f.c_str(), O_CREAT | O_RDWR, 0644);
            int64_t n = (1ll << 32) + 5;
            if (fd < 0 || ::ftruncate(fd, n) != 0 || ::pwrite(fd, "\1\2\3", 3, n - 3) != 3) _exit(97);
            ::close(fd);
            Out o;
            LocalFile lf(f);
            auto len = lf.Length();
            auto st = fs.GetFileStatus(f);
            auto in = fs.Open(f);
            std::vector<std::unique_ptr<FileStatus>> l;
            o.ok = len.ok() && st.ok() && in.ok();
            if (!o.ok) return o;
            char b[4] = {9, 9, 9, 9};
            auto rd = in.value()->Read(b, 3, n - 3);
            auto sl = in.value()->Length();
            char b2[4] = {9, 9, 9, 9};
            Status sk = in.value()->Seek(-3, FS_SEEK_END);
            auto pos = in.value()->GetPos();
            auto rd2 = in.value()->Read(b2, 3);
            (void)in.value()->Close();
            o.ok = rd.ok() && sl.ok() && sk.ok() && pos.ok() && rd2.ok();
            if (!o.ok) return o;
            o.f.k("len", Enc(len.value())).k("slen", Enc(st.value()->GetLen())).k("ilen", Enc(sl.value()))
                .k("pos", Enc(pos.value())).k("b", vt::BytesOf(b, 3)).k("b2", vt::BytesOf(b2, 3));
            return o;
        });
        REAL(unlink)(f.c_str());
        Count();
        // counts steps outside of the recorded operations
        Reset(-1, 2);
    }
    void Reset(int64_t pos, int mode) {
        static const IOHook::Mode modes[3] = {IOHook::Mode::RETURN_ERROR, IOHook::Mode::THROW_EXCEPTION,
                                              IOHook::Mode::SILENT};
        t.Op("reset", J().k("pos", pos).k("mode", mode), [&] {
            Hook()->Reset(pos, modes[mode]);
            Out o;
            o.f.k("c1", Count());
            return o;
        });
        fault = mode != 2;
        throws = mode == 1;
    }
    void Clear() {
        t.Op("clear", J(), [&] {
            Hook()->Clear();
            Out o;
            o.f.k("c1", Count());
            return o;
        });
        fault = throws = false;
    }
    void HookOp() {
        if (!fault) {
            Reset(r.Chance(20) ? 0 : r.In(0, 25), static_cast<int>(r.Below(10) < 5 ? 0 : r.Below(10) < 8 ? 1 : 2));
        } else if (r.Chance(50)) {
            Op("try", J(), [&] { return Out::Of(Hook()->Try("x")); });
        } else {
            Clear();
        }
    }
    void Race() {
        struct One {
            std::string k;
            P p, q;
            std::string c;
            bool ok = false;
            bool threw = false;
        };
        if (fault || !hs.empty() || !locked.empty()) return;
        int n = static_cast<int>(r.In(2, 3));
        std::vector<One> ops(n);
        P dst = Path(2);
        int kind = static_cast<int>(r.Below(4));
        for (int i = 0; i < n; i++) {
            One& o = ops[i];
            if (kind == 0 || (kind == 2 && r.Chance(50))) {
                o.k = "store";
                o.p = dst;
                o.c = std::string(static_cast<size_t>(r.In(1, 3)), static_cast<char>('0' + i));
            } else if (kind == 3) {
                o.k = r.Chance(70) ? "mkdirs" : "store";
                o.p = dst;
                if (o.k == "mkdirs" && r.Chance(60)) o.p.push_back(r.Pick(P{"a", "b"}));
                o.c = std::string(1, static_cast<char>('0' + i));
            } else {
                o.k = "rename";
                o.p = {"src" + std::to_string(r.Chance(75) ? i : 0)};
                o.q = dst;
            }
        }
        // the sources exist
        for (auto& o : ops)
            if (o.k == "rename") {
                bool dir = r.Chance(20);
                std::string s = Plain(o.p), c = "s" + o.p[0];
                if (dir) {
                    Op("mkdirs", J().k("p", o.p), [&] { return Out::Of(fs.Mkdirs(s)); });
                } else {
                    Op("writefile", J().k("p", o.p).k("b", vt::BytesOf(c)).k("over", true),
                       [&] { return Out::Of(fs.WriteFile(s, c, true)); });
                }
            }
        std::vector<J> js;
        for (auto& o : ops)
            js.push_back(J().k("k", o.k).k("p", o.p).k("q", o.q).k("b", vt::BytesOf(o.c)).k("slash", false).k("over", false));
        int64_t c0 = Count();
        uint64_t seed = r.Next();
        t.Op("race", J().k("ops", js).k("c0", c0), [&] {
            g_baton.Start(n, seed);
            std::vector<std::thread> ts;
            for (int i = 0; i < n; i++)
                ts.emplace_back([&, i] {
                    t_me = i;
                    g_baton.Wait();
                    One& o = ops[i];
                    try {
                        Status s = o.k == "store" ? fs.AtomicStore(Plain(o.p), o.c)
                                   : o.k == "mkdirs" ? fs.Mkdirs(Plain(o.p))
                                                     : fs.Rename(Plain(o.p), Plain(o.q));
                        o.ok = s.ok();
                    } catch (...) {
                        o.threw = true;
                    }
                    g_baton.Leave();
                });
            for (auto& x : ts) x.join();
            g_baton.Stop();
            std::vector<J> nodes;
            Walk({}, &nodes);
            std::vector<bool> oks;
            bool threw = false;
            for (auto& o : ops) oks.push_back(o.ok), threw = threw || o.threw;
            Out out;
            out.f.k("oks", oks).k("nodes", nodes).k("c1", Count()).k("thrown", threw);
            return out;
        });
    }
    void Lock() {
        if (!locked.empty() || fault || geteuid() == 0) return;
        P p = Path(2);
        P q = p;
        q.push_back("in");
        std::string c = "z";
        Op("writefile", J().k("p", q).k("b", vt::BytesOf(c)).k("over", true),
           [&] { return Out::Of(fs.WriteFile(Plain(q), c, true)); });
        if (!t.last_ok) return;
        t.Op("lock", J().k("p", p), [&] {
            Out o;
            o.ok = ::chmod(Plain(p).c_str(), 0) == 0;
            return o;
        });
        locked = p;
    }
    void Unlock() {
        if (locked.empty()) return;
        t.Op("unlock", J().k("p", locked), [&] {
            Out o;
            o.ok = ::chmod(Plain(locked).c_str(), 0755) == 0;
            return o;
        });
        locked.clear();
    }
    void All(const std::string& mode) {
        int n = static_cast<int>(r.In(10, mode == "race" ? 20 : 45));
        // nothing is left of earlier injections
        Op("try", J(), [&] { return Out::Of(Hook()->Try("x")); });
        Clear();
        if (mode == "full") Limit(r.Chance(50) ? r.In(0, 8) : r.In(4080, 4100));
        for (int i = 0; i < n; i++) {
            if (mode == "race" && r.Chance(30)) {
                Race();
                continue;
            }
            if (mode == "fault" && r.Chance(12)) HookOp();
            if (mode == "plain" && r.Chance(1)) Sparse();
            if (mode == "plain" && r.Chance(2)) Lock();
            if (r.Chance(25)) Unlock();
            int w = static_cast<int>(r.Below(100));
            if (w < 40 && !hs.empty()) {
                HandleOp();
            } else if (w < 70) {
                FileOp();
            } else {
                FsOp();
            }
            if (r.Chance(locked.empty() ? 5 : 0)) Dump();
        }
        Unlock();
        if (fault) Clear();
        if (limited) Dump();
        while (!hs.empty()) {
            size_t before = hs.size();
            CloseAt(0);
            if (hs.size() == before) break;
        }
        Dump();
        if (limited) Limit(-1);
    }
};

int main(int argc, char** argv) {
    std::string mode = vt::Arg(argc, argv, "--mode", "plain");
    char dir[] = "/tmp/vlocalXXXXXX";
    if (!mkdtemp(dir)) return 2;
    bool root = geteuid() == 0;
    if (root && (::chown(dir, 65534, 65534) != 0)) return 2;
    static std::string base = dir;
    bool first = true;
    int rc = vt::Run(argc, argv, [&](vt::Trace& t) {
        if (first) {
            if (root) {
                if (::setgroups(0, nullptr) != 0 || ::setgid(65534) != 0 || ::setuid(65534) != 0) _exit(97);
            }
            g_root = base;
            first = false;
        }
        Wipe(g_root);
        g_short = std::make_unique<vt::Rng>(t.rng.Next());
        IOHook::GetInstance()->Clear();
        g_escape = 0;
        t.Init(J().k("mode", mode));
        Run x(t);
        x.All(mode);
    });
    g_root = base;
    Wipe(base);
    REAL(rmdir)(base.c_str());
    return rc;
}
