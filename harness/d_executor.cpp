// C31: executor and asynchronous calls under a controlled schedule.
#include "paimon/common/executor/future.h"
#include "paimon/executor.h"
#include "vtrace.h"
#include "vsched_trace.h"

using namespace paimon;  // NOLINT
using vt::J;
using vt::Out;

static void Gen(vt::Trace& t) {
    auto& r = t.rng;
    int workers = r.In(1, 3), submitters = r.In(1, 3), per = r.In(1, 4);
    int total = 0;
    struct Plan {
        int id;
        int kind;  // 0 plain, 1 nested, 2 asked for a value, 3 throws, 4 void request, 5 nested plain
        int spins;
        int child;
    };
    std::vector<std::vector<Plan>> plans(submitters);
    std::vector<int> asked;
    auto fresh = [&](int kind) {
        total++;
        asked.push_back(kind == 2 ? int(r.Below(1000)) : kind == 3 ? -total : kind == 4 ? 0 : -1000000);
        return total;
    };
    for (auto& p : plans)
        for (int k = 0, n = r.In(0, per); k < n; k++) {
            Plan q{0, int(r.Below(5)), int(r.Below(3)), 0};
            q.id = fresh(q.kind);
            if (q.kind == 1) q.child = fresh(0);
            p.push_back(q);
        }
    t.Init(J().k("n", workers).k("asked", asked));
    vs::Begin(t, true);
    auto ev = [&](const char* op, int id) { vs::Event(t, op, J().k("t", id)); };
    std::unique_ptr<Executor> ex = CreateDefaultExecutor(workers);
    Executor* e = ex.get();
    auto body = [&, e](const Plan& q) {
        ev("start", q.id);
        for (int k = 0; k < q.spins; k++) vs::Yield();
        if (q.child) {
            int c = q.child;
            ev("add", c);
            e->Add([&ev, c] { ev("start", c); vs::Yield(); ev("end", c); });
            ev("added", c);
        }
        ev("end", q.id);
    };
    if (r.Chance(10)) e->Add(nullptr);
    bool late = r.Chance(40);  // futures are read after the executor is gone
    bool all = r.Chance(40);
    auto collect = [&](std::vector<std::pair<int, std::future<int>>>& vals, std::vector<std::pair<int, std::future<void>>>& voids) {
        if (all) {
            std::vector<std::future<int>> fs;
            std::vector<int> ids;
            for (auto& v : vals)
                if (asked[v.first - 1] >= 0) {
                    ids.push_back(v.first);
                    fs.push_back(std::move(v.second));
                }
            auto got = CollectAll(fs);
            vs::Event(t, "gotall", J().k("ts", ids).k("v", got));
        }
        for (auto& v : vals) {
            if (!v.second.valid()) continue;
            int x;
            try {
                x = v.second.get();
            } catch (const std::runtime_error& er) {
                x = -atoi(er.what());
            } catch (...) {
                x = -999999;
            }
            vs::Event(t, "got", J().k("t", v.first).k("v", x));
        }
        std::vector<std::future<void>> fs;
        std::vector<int> ids, zero;
        for (auto& v : voids) {
            ids.push_back(v.first);
            zero.push_back(0);
            fs.push_back(std::move(v.second));
        }
        Wait(fs);
        vs::Event(t, "gotall", J().k("ts", ids).k("v", zero));
    };
    std::vector<std::vector<std::pair<int, std::future<int>>>> vals(submitters);
    std::vector<std::vector<std::pair<int, std::future<void>>>> voids(submitters);
    std::vector<std::thread> th;
    for (int s = 0; s < submitters; s++)
        th.emplace_back([&, s] {
            for (const Plan& q : plans[s]) {
                ev("add", q.id);
                if (q.kind == 2) {
                    int v = asked[q.id - 1];
                    vals[s].emplace_back(q.id, Via(e, [&body, q, v] { body(q); return v; }));
                } else if (q.kind == 3) {
                    vals[s].emplace_back(q.id, Via(e, [&body, q]() -> int {
                        body(q);
                        throw std::runtime_error(std::to_string(q.id));
                    }));
                } else if (q.kind == 4) {
                    voids[s].emplace_back(q.id, Via(e, [&body, q] { body(q); }));
                } else {
                    e->Add([&body, q] { body(q); });
                }
                ev("added", q.id);
            }
            if (!late) collect(vals[s], voids[s]);
        });
    for (auto& x : th) x.join();
    vs::Event(t, "destroy", J());
    ex.reset();
    vs::Event(t, "gone", J());
    if (late)
        for (int s = 0; s < submitters; s++) collect(vals[s], voids[s]);
    vs::End();
}

int main(int argc, char** argv) { return vt::Run(argc, argv, Gen, 60); }
