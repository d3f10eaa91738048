// Recording of concurrent traces: only one thread runs at a time, so events have a total order.
#pragma once
#include "vtrace.h"
#ifndef VS_NATIVE
#include "vsched.h"
namespace vs {
inline void Begin(vt::Trace& t, bool races = false) {
    Sched::I().races = races;
    Sched::I().Start(t.rng.Next());
}
inline void End() {
    Sched::I().strategy = 0;
    Sched::I().races = false;
    self = nullptr;
}
inline void Event(vt::Trace& t, const char* op, const vt::J& j) {
    Quiet q;
    t.Op(op, j, [] { return vt::Out(); });
}
}  // namespace vs
#else  // ordinary threads, used only if the sources do not compile under the scheduler
#include <mutex>
#include <thread>
namespace vs {
inline std::mutex& Lock() {
    static std::mutex m;
    return m;
}
inline void Begin(vt::Trace&, bool = false) {}
inline void End() {}
inline void Yield() { std::this_thread::yield(); }
inline void Event(vt::Trace& t, const char* op, const vt::J& j) {
    std::lock_guard<std::mutex> g(Lock());
    t.Op(op, j, [] { return vt::Out(); });
}
struct Quiet {
    Quiet() { Lock().lock(); }
    ~Quiet() { Lock().unlock(); }
};
}  // namespace vs
#endif
