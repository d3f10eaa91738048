// C32: shared objects used by several threads under a controlled schedule.
#include "paimon/common/metrics/metrics_impl.h"
#include "paimon/common/utils/concurrent_hash_map.h"
#include "paimon/common/utils/threadsafe_queue.h"
#include "vtrace.h"
#include "vsched_trace.h"

using namespace paimon;  // NOLINT
using vt::J;
using vt::Out;

static const int kNames = 3;
static std::string Name(int k) { return k == 1 ? "" : k == 2 ? "a\"b" : "zz"; }
static std::vector<int> Flat(const std::map<std::string, uint64_t>& m) {
    std::vector<int> v(kNames, -1);
    int seen = 0;
    for (int k = 1; k <= kNames; k++)
        if (m.count(Name(k))) {
            v[k - 1] = m.at(Name(k));
            seen++;
        }
    if (seen != int(m.size())) v.push_back(-7);
    return v;
}

static void Gen(vt::Trace& t) {
    auto& r = t.rng;
    int kind = r.Below(3);
    int threads = r.Chance(25) ? 1 : r.In(2, 3);
    int per = threads == 1 ? r.In(5, 30) : threads == 2 ? r.In(1, 6) : r.In(1, 4);
    struct Call {
        std::string f;
        int k = 0, v = 0;
        std::vector<int> other;
    };
    std::vector<std::vector<Call>> plan(threads);
    int serial = 0;
    for (int th = 0; th < threads; th++)
        for (int n = 0; n < per; n++) {
            Call c;
            c.k = r.In(1, kNames);
            c.v = r.Chance(80) ? ++serial : 0;
            for (int q = 0; q < kNames; q++) c.other.push_back(r.Chance(40) ? -1 : int(r.Below(5)));
            int w = r.Below(12);
            if (kind == 0) c.f = w < 5 ? "push" : w < 9 ? "pop" : w < 10 ? "size" : w < 11 ? "empty" : threads == 1 ? "front" : "pop";
            else if (kind == 1) c.f = w < 5 ? "insert" : w < 8 ? "find" : w < 11 ? "erase" : threads == 1 ? "count" : "find";
            else c.f = w < 3 ? "insert" : w < 5 ? "find" : w < 7 ? "all" : w < 10 ? "merge" : w < 11 ? "overwrite" : "mergeself";
            plan[th].push_back(c);
        }
    static const char* kinds[] = {"queue", "map", "metrics"};
    std::vector<int> none(kNames, -1);
    t.Init(J().k("kind", kinds[kind]).k("threads", threads).k("obj", kind == 0 ? std::vector<int>{} : none));
    vs::Begin(t, kind != 1);
    ThreadsafeQueue<std::string> queue;  // values with heap storage: torn moves show
    ConcurrentHashMap<std::vector<std::string>, std::string, VectorStringHashCompare> map;
    auto metrics = std::make_shared<MetricsImpl>();
    auto text = [](int v) { return "value number " + std::to_string(v) + " with some length"; };
    auto num = [](const std::string& s) {
        int v = -5;
        return sscanf(s.c_str(), "value number %d with some length", &v) == 1 ? v : -6;
    };
    auto key = [](int k) { return k == 1 ? std::vector<std::string>{} : k == 2 ? std::vector<std::string>{"ab", "c"} : std::vector<std::string>{"a", "bc"}; };
    auto act = [&](const Call& c) -> std::vector<int> {
        if (kind == 0) {
            if (c.f == "push") {
                std::string s = text(c.v);
                if (c.v % 2) queue.push(s); else queue.push(std::move(s));
                return {};
            }
            if (c.f == "pop") {
                auto p = queue.try_pop();
                return p ? std::vector<int>{num(*p)} : std::vector<int>{};
            }
            if (c.f == "front") {
                auto* p = queue.try_front();
                return p ? std::vector<int>{num(*p)} : std::vector<int>{};
            }
            if (c.f == "size") return {int(queue.size())};
            return {queue.empty() ? 1 : 0};
        }
        if (kind == 1) {
            if (c.f == "insert") { map.Insert(key(c.k), text(c.v)); return {}; }
            if (c.f == "find") {
                auto p = map.Find(key(c.k));
                return p ? std::vector<int>{num(*p)} : std::vector<int>{};
            }
            if (c.f == "erase") { map.Erase(key(c.k)); return {}; }
            return {int(map.Size())};
        }
        if (c.f == "insert") { metrics->SetCounter(Name(c.k), c.v); return {}; }
        if (c.f == "find") {
            auto p = metrics->GetCounter(Name(c.k));
            return p.ok() ? std::vector<int>{int(p.value())} : std::vector<int>{};
        }
        if (c.f == "all") return Flat(metrics->GetAllCounters());
        if (c.f == "mergeself") {
            metrics->Merge(metrics);
            metrics->Overwrite(metrics);
            metrics->Merge(nullptr);
            metrics->Overwrite(nullptr);
            return {};
        }
        auto other = std::make_shared<MetricsImpl>();
        for (int k = 1; k <= kNames; k++)
            if (c.other[k - 1] >= 0) other->SetCounter(Name(k), c.other[k - 1]);
        if (c.f == "merge") metrics->Merge(other); else metrics->Overwrite(other);
        return Flat(other->GetAllCounters()) == c.other ? std::vector<int>{} : std::vector<int>{-8};
    };
    auto work = [&](int th) {
        for (const Call& c : plan[th]) {
            J p = J().k("f", c.f).k("k", c.k).k("v", c.v).k("other", c.other);
            vs::Event(t, "inv", J().k("t", th + 1).k("p", p));
            auto res = act(c);
            vs::Event(t, "ret", J().k("t", th + 1).k("r", res));
        }
    };
    if (threads == 1) {
        work(0);
    } else {
        std::vector<std::thread> th;
        for (int k = 0; k < threads; k++) th.emplace_back(work, k);
        for (auto& x : th) x.join();
    }
    vs::End();
    std::vector<int> last;
    if (kind == 0) {
        while (auto p = queue.try_pop()) last.push_back(num(*p));
    } else if (kind == 1) {
        for (int k = 1; k <= kNames; k++) {
            auto p = map.Find(key(k));
            last.push_back(p ? num(*p) : -1);
        }
    } else {
        last = Flat(metrics->GetAllCounters());
    }
    vs::Event(t, "final", J().k("obj", last));
}

int main(int argc, char** argv) { return vt::Run(argc, argv, Gen, 60); }
