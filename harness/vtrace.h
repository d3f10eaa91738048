// Recording of driver traces: every operation performed on the code under test becomes one event
// {"op":..,<arguments>,"o":"ok|err|exc|crash|hang",<results>}.  A child process runs the traces;
// if it dies or hangs, the parent completes the event that was in flight.
#pragma once
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <set>
#include <string>
#include <vector>

#include "paimon/result.h"
#include "paimon/status.h"

namespace vt {

class Rng {
 public:
    explicit Rng(uint64_t seed) : s_(seed) {
        // neighbouring seeds must not give shifted copies of one stream
        uint64_t a = Next() ^ (seed << 17);
        s_ = a;
        s_ = Next() ^ 0x5851F42D4C957F2Dull;
    }
    uint64_t Next() {
        uint64_t z = (s_ += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    // uniform in [0, n)
    int64_t Below(int64_t n) { return n <= 0 ? 0 : static_cast<int64_t>(Next() % n); }
    int64_t In(int64_t lo, int64_t hi) { return lo + Below(hi - lo + 1); }
    bool Chance(int pct) { return Below(100) < pct; }
    template <typename T>
    const T& Pick(const std::vector<T>& v) {
        return v[Below(v.size())];
    }

 private:
    uint64_t s_;
};

inline std::string Quote(const std::string& s) {
    std::string r = "\"";
    char buf[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += static_cast<char>(c);
        } else if (c < 0x20 || c >= 0x7f) {
            snprintf(buf, sizeof(buf), "\\u%04x", c);
            r += buf;
        } else {
            r += static_cast<char>(c);
        }
    }
    return r + "\"";
}

inline std::string Num(int64_t v) {
    if (v > INT32_MAX || v < -INT32_MAX) {
        // the specification language has 32-bit integers: drivers must abstract first
        fprintf(stderr, "driver error: %lld does not fit\n", static_cast<long long>(v));
        _exit(97);
    }
    return std::to_string(v);
}

// a JSON object under construction
class J {
 public:
    J& raw(const char* k, const std::string& v) {
        if (!s_.empty()) s_ += ",";
        s_ += Quote(k);
        s_ += ":";
        s_ += v;
        return *this;
    }
    J& k(const char* key, int v) { return raw(key, Num(v)); }
    J& k(const char* key, int64_t v) { return raw(key, Num(v)); }
    J& k(const char* key, uint64_t v) { return raw(key, Num(static_cast<int64_t>(v))); }
    J& k(const char* key, uint32_t v) { return raw(key, Num(v)); }
    J& k(const char* key, long long v) { return raw(key, Num(v)); }
    J& k(const char* key, bool v) { return raw(key, v ? "true" : "false"); }
    J& k(const char* key, const char* v) { return raw(key, Quote(v)); }
    J& k(const char* key, const std::string& v) { return raw(key, Quote(v)); }
    J& k(const char* key, const J& v) { return raw(key, v.str()); }
    template <typename T>
    J& k(const char* key, const std::vector<T>& v) {
        return raw(key, List(v));
    }
    template <typename T>
    J& k(const char* key, const std::set<T>& v) {
        return raw(key, List(std::vector<T>(v.begin(), v.end())));
    }
    template <typename A, typename B>
    J& k(const char* key, const std::pair<A, B>& v) {
        return raw(key, V(v));
    }
    static std::string V(int v) { return Num(v); }
    static std::string V(int64_t v) { return Num(v); }
    static std::string V(uint32_t v) { return Num(v); }
    static std::string V(uint8_t v) { return Num(v); }
    static std::string V(uint64_t v) { return Num(static_cast<int64_t>(v)); }
    static std::string V(bool v) { return v ? "true" : "false"; }
    static std::string V(const std::string& v) { return Quote(v); }
    static std::string V(const J& v) { return v.str(); }
    template <typename A, typename B>
    static std::string V(const std::pair<A, B>& v) {
        return "[" + V(v.first) + "," + V(v.second) + "]";
    }
    template <typename T>
    static std::string V(const std::vector<T>& v) {
        return List(v);
    }
    template <typename T>
    static std::string List(const std::vector<T>& v) {
        std::string r = "[";
        bool first = true;
        for (const auto& x : v) {
            if (!first) r += ",";
            first = false;
            r += V(static_cast<const T&>(x));
        }
        return r + "]";
    }
    std::string str() const { return "{" + s_ + "}"; }
    const std::string& body() const { return s_; }
    bool empty() const { return s_.empty(); }

 private:
    std::string s_;
};

template <>
inline std::string J::List<bool>(const std::vector<bool>& v) {
    std::string r = "[";
    for (size_t i = 0; i < v.size(); i++) {
        if (i) r += ",";
        r += v[i] ? "true" : "false";
    }
    return r + "]";
}

// outcome of one operation
struct Out {
    bool ok = true;
    J f;
    Out() = default;
    Out(const J& j) : f(j) {}  // NOLINT
    static Out Err() {
        Out o;
        o.ok = false;
        return o;
    }
    static Out Of(const paimon::Status& s) {
        Out o;
        o.ok = s.ok();
        return o;
    }
};

struct Shared {
    volatile size_t done;      // number of finished traces
    volatile size_t len;       // bytes of the current trace (without pending event)
    volatile size_t plen;      // bytes of the pending event
    char text[48 << 20];
    char pending[4 << 20];
};

class Trace {
 public:
    Trace(Shared* sh, uint64_t seed, int64_t index) : sh_(sh), rng(seed * 1000003ull + index), index(index) {}
    void Init(const J& init) {
        text_ = "{\"id\":" + std::to_string(index) + ",\"init\":" + init.str() + ",\"ev\":[";
        Publish();
    }
    // performs f; f's exceptions and crashes are outcomes
    void Op(const char* name, const J& args, const std::function<Out()>& f) {
        std::string head = J().k("op", name).body();
        if (!args.empty()) head += "," + args.body();
        if (nev_ > 0) head = ",{" + head; else head = "{" + head;
        Pending(head);
        Out out;
        const char* o = "ok";
        try {
            out = f();
            o = out.ok ? "ok" : "err";
        } catch (const std::exception&) {
            o = "exc";
            out = Out();
        } catch (...) {
            o = "exc";
            out = Out();
        }
        text_ += head + ",\"o\":\"" + o + "\"";
        if (!out.f.empty()) text_ += "," + out.f.body();
        text_ += "}";
        nev_++;
        last_ok = (strcmp(o, "ok") == 0);
        Publish();
    }
    std::string Finish() { return text_ + "]}\n"; }
    int64_t Events() const { return nev_; }
    bool last_ok = true;

 private:
    void Publish() {
        if (text_.size() >= sizeof(sh_->text)) _exit(98);
        memcpy(sh_->text + pub_, text_.data() + pub_, text_.size() - pub_);
        pub_ = text_.size();
        sh_->plen = 0;
        sh_->len = text_.size();
    }
    void Pending(const std::string& p) {
        if (p.size() >= sizeof(sh_->pending)) _exit(98);
        memcpy(sh_->pending, p.data(), p.size());
        sh_->plen = p.size();
    }
    Shared* sh_;
    std::string text_;
    size_t pub_ = 0;
    int64_t nev_ = 0;

 public:
    Rng rng;
    int64_t index;
};

using Gen = std::function<void(Trace&)>;

inline const char* Arg(int argc, char** argv, const char* name, const char* dflt) {
    for (int i = 1; i + 1 < argc; i++)
        if (strcmp(argv[i], name) == 0) return argv[i + 1];
    return dflt;
}

// driver OUT --seed S --count N [--only K] [--from K]
inline int Run(int argc, char** argv, const Gen& gen, unsigned hang_s = 60) {
    const char* outp = argv[1];
    uint64_t seed = strtoull(Arg(argc, argv, "--seed", "1"), nullptr, 10);
    int64_t count = atoll(Arg(argc, argv, "--count", "10"));
    int64_t only = atoll(Arg(argc, argv, "--only", "0"));
    int64_t first = atoll(Arg(argc, argv, "--from", "1")), last = count;
    if (only > 0) first = last = only;
    FILE* out = fopen(outp, "w");
    if (!out) return 2;
    auto* sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                                         MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    int64_t crashes = 0;
    int64_t k = first;
    while (k <= last) {
        fflush(out);
        sh->done = 0;
        sh->len = sh->plen = 0;
        pid_t pid = fork();
        if (pid == 0) {
            for (int64_t t = k; t <= last; t++) {
                sh->len = sh->plen = 0;
                alarm(hang_s);
                Trace tr(sh, seed, t);
                gen(tr);
                alarm(0);
                std::string line = tr.Finish();
                fwrite(line.data(), 1, line.size(), out);
                fflush(out);
                sh->done = sh->done + 1;
            }
            _exit(0);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        k += sh->done;
        fseek(out, 0, SEEK_END);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
        if (WIFEXITED(st) && (WEXITSTATUS(st) == 97 || WEXITSTATUS(st) == 98)) return 3;
        if (k > last) break;
        // trace k died
        std::string text(sh->text, sh->len);
        bool hang = WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM;
        std::string o = hang ? "hang" : "crash";
        if (text.empty()) {
            fprintf(stderr, "driver error: died before the trace started (%d)\n", st);
            return 4;
        }
        if (sh->plen > 0) {
            text += std::string(sh->pending, sh->plen) + ",\"o\":\"" + o + "\"}";
        } else {
            // outside any operation: clean-up of the objects under test
            bool any = text.back() == '}';
            text += std::string(any ? "," : "") + "{\"op\":\"cleanup\",\"o\":\"" + o + "\"}";
        }
        text += "]}\n";
        fwrite(text.data(), 1, text.size(), out);
        k++;
        if (++crashes >= 20) break;  // enough evidence
    }
    fclose(out);
    return 0;
}

template <typename C>
inline std::vector<int> BytesOf(const C& s) {
    std::vector<int> v;
    for (char c : s) v.push_back(static_cast<unsigned char>(c));
    return v;
}
inline std::vector<int> BytesOf(const char* p, size_t n) {
    std::vector<int> v;
    for (size_t i = 0; i < n; i++) v.push_back(static_cast<unsigned char>(p[i]));
    return v;
}

}  // namespace vt
