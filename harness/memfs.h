// A file system in memory for driving the whole table code: deterministic, with a switch point and
// a fault point at every operation.  Nothing outside the process is touched.
#pragma once
#include <algorithm>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <vector>

#include "paimon/fs/file_system.h"
#include "paimon/fs/file_system_factory.h"
#include "paimon/factories/factory_creator.h"
#include "paimon/result.h"
#include "paimon/status.h"
#include "vtrace.h"

namespace memfs {
using paimon::Result;
using paimon::Status;

enum Kind { OPEN, READ, CREATE, WRITE, FLUSH, CLOSE, MKDIRS, RENAME, DELETE, STATUS, LIST, EXISTS };
inline const char* Name(Kind k) {
    static const char* n[] = {"open", "read", "create", "write", "flush", "close",
                              "mkdirs", "rename", "delete", "status", "list", "exists"};
    return n[k];
}
enum Change { MADE, GONE, REPLACED };
enum Fault { NONE, FAIL, LOST, TORN, STOP };

// one process working on the table
struct Client {
    int id = 0;
    int64_t ops = 0;            // operations so far
    int64_t fault_at = -1;      // number of the operation that fails
    Fault fault = NONE;
    bool dead = false;          // after STOP nothing has an effect any more
    bool hit = false;
    std::vector<std::string>* log = nullptr;
};

struct Data {
    std::string bytes;
};
struct Node {
    bool dir = false;
    std::shared_ptr<Data> data;
    int64_t mtime = 0;
};

struct World {
    std::map<std::string, Node> nodes;
    std::function<void(Client*, Kind, const std::string&)> yield;
    // after a file came into being, was removed, or had its content replaced
    std::function<void(Client*, Change, const std::string&)> changed;
    std::function<int64_t()> now_ms = [] { return int64_t(1700000000000); };
    vt::Rng* shuffle = nullptr;
    std::recursive_mutex m;  // for tasks in threads of their own
    void Reset() {
        nodes.clear();
        nodes["/"].dir = true;
        yield = nullptr;
        changed = nullptr;
        shuffle = nullptr;
    }
};
inline World& W() {
    static World w;
    return w;
}
// the process on whose behalf the running thread works; none: an observer, never disturbed
inline thread_local Client* self = nullptr;
struct As {
    Client* old;
    explicit As(Client* c) : old(self) { self = c; }
    ~As() { self = old; }
};

inline std::string Norm(const std::string& p0) {
    std::string p = p0;
    size_t c = p.find(':');
    if (c != std::string::npos && p.find('/') > c) p = p.substr(c + 1);
    std::string r;
    for (char ch : p)
        if (!(ch == '/' && !r.empty() && r.back() == '/')) r += ch;
    while (r.size() > 1 && r.back() == '/') r.pop_back();
    return r;
}
inline std::string Parent(const std::string& p) {
    size_t s = p.rfind('/');
    return s == 0 || s == std::string::npos ? "/" : p.substr(0, s);
}

// what happens to the operation that is about to be done
inline Fault Enter(Kind k, const std::string& path) {
    Client* c = self;
    if (!c) return NONE;
    if (c->dead) return FAIL;
    if (W().yield && k != READ) W().yield(c, k, path);
    std::lock_guard<std::recursive_mutex> l(W().m);
    c->ops++;
    if (c->log) c->log->push_back(std::string(Name(k)) + " " + path);
    if (c->ops == c->fault_at) {
        c->hit = true;
        if (c->fault == STOP) {
            c->dead = true;
            return FAIL;
        }
        if (c->fault == TORN && k != WRITE) return FAIL;
        return c->fault;
    }
    return NONE;
}
struct Lock {
    std::lock_guard<std::recursive_mutex> l{W().m};
};
inline Status Io(const char* what, const std::string& path) {
    return Status::IOError("injected failure of ", what, " ", path);
}
inline void Changed(Change k, const std::string& p) {
    if (W().changed) W().changed(self, k, p);
}

class In : public paimon::InputStream {
 public:
    In(std::shared_ptr<Data> d, std::string path) : d_(std::move(d)), path_(std::move(path)) {}
    Status Close() override { return Status::OK(); }
    Status Seek(int64_t offset, paimon::SeekOrigin origin) override {
        int64_t base = origin == paimon::FS_SEEK_SET ? 0 : origin == paimon::FS_SEEK_CUR ? pos_ : int64_t(d_->bytes.size());
        if (base + offset < 0) return Status::Invalid("seek before start");
        pos_ = base + offset;
        return Status::OK();
    }
    Result<int64_t> GetPos() const override { return pos_; }
    Result<int32_t> Read(char* b, uint32_t n) override {
        if (Enter(READ, path_) != NONE) return Io("read", path_);
        Lock l;
        return At(b, n, pos_, true);
    }
    Result<int32_t> Read(char* b, uint32_t n, uint64_t off) override {
        if (Enter(READ, path_) != NONE) return Io("read", path_);
        Lock l;
        return At(b, n, off, false);
    }
    void ReadAsync(char* b, uint32_t n, uint64_t off, std::function<void(Status)>&& cb) override {
        auto r = Read(b, n, off);
        cb(r.ok() ? Status::OK() : r.status());
    }
    Result<std::string> GetUri() const override { return path_; }
    Result<uint64_t> Length() const override { return uint64_t(d_->bytes.size()); }

 private:
    Result<int32_t> At(char* b, uint32_t n, int64_t off, bool move) {
        if (off + int64_t(n) > int64_t(d_->bytes.size()))
            return Status::IOError("read beyond the end of ", path_);
        memcpy(b, d_->bytes.data() + off, n);
        if (move) pos_ += n;
        return int32_t(n);
    }
    std::shared_ptr<Data> d_;
    std::string path_;
    int64_t pos_ = 0;
};

class Out : public paimon::OutputStream {
 public:
    Out(std::shared_ptr<Data> d, std::string path) : d_(std::move(d)), path_(std::move(path)) {}
    Result<int32_t> Write(const char* b, uint32_t n) override {
        Fault f = Enter(WRITE, path_);
        Lock l;
        if (f == FAIL) return Io("write", path_);
        size_t len = f == TORN ? n / 2 : n;
        if (d_->bytes.size() < pos_ + len) d_->bytes.resize(pos_ + len);
        d_->bytes.replace(pos_, len, b, len);
        pos_ += len;
        if (f != NONE) return Io("write", path_);
        return int32_t(n);
    }
    Status Flush() override { return Enter(FLUSH, path_) == NONE ? Status::OK() : Io("flush", path_); }
    Result<int64_t> GetPos() const override { return int64_t(pos_); }
    Result<std::string> GetUri() const override { return path_; }
    Status Close() override { return Enter(CLOSE, path_) == NONE ? Status::OK() : Io("close", path_); }

 private:
    std::shared_ptr<Data> d_;
    std::string path_;
    size_t pos_ = 0;
};

class St : public paimon::FileStatus {
 public:
    St(std::string p, bool d, uint64_t l, int64_t m) : p_(std::move(p)), d_(d), l_(l), m_(m) {}
    uint64_t GetLen() const override { return l_; }
    bool IsDir() const override { return d_; }
    std::string GetPath() const override { return p_; }
    int64_t GetModificationTime() const override { return m_; }

 private:
    std::string p_;
    bool d_;
    uint64_t l_;
    int64_t m_;
};
class BSt : public paimon::BasicFileStatus {
 public:
    BSt(std::string p, bool d) : p_(std::move(p)), d_(d) {}
    bool IsDir() const override { return d_; }
    std::string GetPath() const override { return p_; }

 private:
    std::string p_;
    bool d_;
};

class Fs : public paimon::FileSystem {
 public:
    Result<std::unique_ptr<paimon::InputStream>> Open(const std::string& p0) const override {
        std::string p = Norm(p0);
        if (Enter(OPEN, p) != NONE) return Io("open", p);
        Lock l;
        auto it = W().nodes.find(p);
        if (it == W().nodes.end()) return Status::NotExist("no file ", p);
        if (it->second.dir) return Status::IOError("is a directory ", p);
        return std::unique_ptr<paimon::InputStream>(new In(it->second.data, p));
    }
    Result<std::unique_ptr<paimon::OutputStream>> Create(const std::string& p0, bool overwrite) const override {
        std::string p = Norm(p0);
        Fault f = Enter(CREATE, p);
        Lock l;
        if (f == FAIL) return Io("create", p);
        auto it = W().nodes.find(p);
        if (it != W().nodes.end()) {
            if (it->second.dir) return Status::IOError("is a directory ", p);
            if (!overwrite) return Status::Invalid("exists ", p);
            it->second.data->bytes.clear();
            it->second.mtime = W().now_ms();
            Changed(REPLACED, p);
        } else {
            MakeDirs(Parent(p));
            Node n;
            n.data = std::make_shared<Data>();
            n.mtime = W().now_ms();
            it = W().nodes.emplace(p, n).first;
            auto data = it->second.data;
            Changed(MADE, p);
            if (f != NONE) return Io("create", p);
            return std::unique_ptr<paimon::OutputStream>(new Out(data, p));
        }
        if (f != NONE) return Io("create", p);
        return std::unique_ptr<paimon::OutputStream>(new Out(it->second.data, p));
    }
    Status Mkdirs(const std::string& p0) const override {
        std::string p = Norm(p0);
        Fault f = Enter(MKDIRS, p);
        Lock l;
        if (f == FAIL) return Io("mkdirs", p);
        if (!MakeDirs(p)) return Status::IOError("not a directory ", p);
        return f == NONE ? Status::OK() : Io("mkdirs", p);
    }
    // never replaces an existing destination
    Status Rename(const std::string& s0, const std::string& d0) const override {
        std::string s = Norm(s0), d = Norm(d0);
        Fault f = Enter(RENAME, d);
        Lock l;
        if (f == FAIL) return Io("rename", s);
        auto& n = W().nodes;
        auto it = n.find(s);
        if (it == n.end()) return Status::NotExist("no file ", s);
        if (n.count(d)) return Status::Invalid("destination exists ", d);
        MakeDirs(Parent(d));
        if (it->second.dir) {
            std::vector<std::pair<std::string, Node>> moved;
            for (auto k = n.begin(); k != n.end();) {
                if (k->first == s || k->first.compare(0, s.size() + 1, s + "/") == 0) {
                    moved.emplace_back(d + k->first.substr(s.size()), k->second);
                    k = n.erase(k);
                } else {
                    ++k;
                }
            }
            for (auto& m : moved) n.insert(m);
        } else {
            Node node = it->second;
            n.erase(it);
            n[d] = node;
            Changed(GONE, s);
            Changed(MADE, d);
        }
        return f == NONE ? Status::OK() : Io("rename", s);
    }
    Status Delete(const std::string& p0, bool recursive = true) const override {
        std::string p = Norm(p0);
        Fault f = Enter(DELETE, p);
        Lock l;
        if (f == FAIL) return Io("delete", p);
        auto& n = W().nodes;
        auto it = n.find(p);
        if (it == n.end()) return Status::IOError("cannot delete, no file ", p);
        std::vector<std::string> gone;
        if (it->second.dir) {
            for (auto& [k, v] : n)
                if (k.compare(0, p.size() + 1, p + "/") == 0) gone.push_back(k);
            if (!recursive && !gone.empty()) return Status::IOError("directory is not empty ", p);
        }
        gone.push_back(p);
        for (auto& g : gone) {
            bool dir = n[g].dir;
            n.erase(g);
            if (!dir) Changed(GONE, g);
        }
        return f == NONE ? Status::OK() : Io("delete", p);
    }
    Result<std::unique_ptr<paimon::FileStatus>> GetFileStatus(const std::string& p0) const override {
        std::string p = Norm(p0);
        if (Enter(STATUS, p) != NONE) return Io("status", p);
        Lock l;
        auto it = W().nodes.find(p);
        if (it == W().nodes.end()) return Status::NotExist("no file ", p);
        return Stat(it->first, it->second);
    }
    Status ListDir(const std::string& p0, std::vector<std::unique_ptr<paimon::BasicFileStatus>>* out) const override {
        std::string p = Norm(p0);
        if (Enter(LIST, p) != NONE) return Io("list", p);
        Lock l;
        std::vector<std::string> names;
        PAIMON_RETURN_NOT_OK(Names(p, &names));
        for (auto& k : names) out->emplace_back(new BSt(k, W().nodes[k].dir));
        return Status::OK();
    }
    Status ListFileStatus(const std::string& p0, std::vector<std::unique_ptr<paimon::FileStatus>>* out) const override {
        std::string p = Norm(p0);
        if (Enter(LIST, p) != NONE) return Io("list", p);
        Lock l;
        std::vector<std::string> names;
        auto it = W().nodes.find(p);
        if (it != W().nodes.end() && !it->second.dir) {
            out->push_back(Stat(it->first, it->second));
            return Status::OK();
        }
        PAIMON_RETURN_NOT_OK(Names(p, &names));
        for (auto& k : names) out->push_back(Stat(k, W().nodes[k]));
        return Status::OK();
    }
    Result<bool> Exists(const std::string& p0) const override {
        std::string p = Norm(p0);
        if (Enter(EXISTS, p) != NONE) return Io("exists", p);
        Lock l;
        return W().nodes.count(p) > 0;
    }

 private:
    static std::unique_ptr<paimon::FileStatus> Stat(const std::string& p, const Node& n) {
        return std::unique_ptr<paimon::FileStatus>(new St(p, n.dir, n.dir ? 0 : n.data->bytes.size(), n.mtime));
    }
    static bool MakeDirs(const std::string& p) {
        auto it = W().nodes.find(p);
        if (it != W().nodes.end()) return it->second.dir;
        if (p != "/" && !MakeDirs(Parent(p))) return false;
        Node n;
        n.dir = true;
        n.mtime = W().now_ms();
        W().nodes[p] = n;
        return true;
    }
    static Status Names(const std::string& p, std::vector<std::string>* out) {
        auto it = W().nodes.find(p);
        if (it == W().nodes.end()) return Status::OK();
        if (!it->second.dir) return Status::IOError("not a directory ", p);
        std::string pre = p == "/" ? "/" : p + "/";
        for (auto k = W().nodes.lower_bound(pre); k != W().nodes.end() && k->first.compare(0, pre.size(), pre) == 0; ++k)
            if (k->first.size() > pre.size() && k->first.find('/', pre.size()) == std::string::npos) out->push_back(k->first);
        if (W().shuffle)
            for (size_t i = out->size(); i > 1; i--) std::swap((*out)[i - 1], (*out)[W().shuffle->Below(i)]);
        return Status::OK();
    }
};

class FsFactory : public paimon::FileSystemFactory {
 public:
    static constexpr char IDENTIFIER[] = "mem";
    const char* Identifier() const override { return IDENTIFIER; }
    Result<std::unique_ptr<paimon::FileSystem>> Create(const std::string&, const std::map<std::string, std::string>&) const override {
        return std::unique_ptr<paimon::FileSystem>(new Fs());
    }
};

}  // namespace memfs
