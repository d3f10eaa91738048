// Runtime of the deterministic scheduler (never instrumented, compiled with VS_RUNTIME).
#include "vsched.h"

namespace vs {

thread_local Th* self = nullptr;

// ---- happens-before tracking ----
namespace {
struct Cell {
    int wt = -1;
    uint64_t wc = 0;
    std::vector<uint64_t> rd;  // per thread
};
std::unordered_map<uintptr_t, Cell>* cells = nullptr;
std::unordered_map<const void*, std::vector<uint64_t>>* clocks = nullptr;
void Join(std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
    if (a.size() < b.size()) a.resize(b.size());
    for (size_t i = 0; i < b.size(); i++) a[i] = std::max(a[i], b[i]);
}
int busy = 0;  // inside the tracking itself
struct Busy {
    Busy() { busy++; }
    ~Busy() { busy--; }
};
bool Covers(const std::vector<uint64_t>& vc, size_t t, uint64_t c) { return t < vc.size() && vc[t] >= c; }
}  // namespace

void Sched::Acquire(const void* o) {
    if (!races || !self) return;
    Quiet q;
    Busy b;
    auto it = clocks->find(o);
    if (it != clocks->end()) Join(self->vc, it->second);
}
void Sched::Release(const void* o) {
    if (!races || !self) return;
    Quiet q;
    Busy b;
    Join((*clocks)[o], self->vc);
    self->vc[self->id]++;
}
void Sched::Access(const void* a, size_t n, bool write) {
    if (!races || !self || self != cur || self->quiet) return;
    uintptr_t p = reinterpret_cast<uintptr_t>(a);
    if (p >= self->lo && p < self->hi) return;
    Quiet q;
    Busy b;
    Th* me = self;
    for (uintptr_t g = p; g < p + n; g++) {
        Cell& c = (*cells)[g];
        if (c.wt >= 0 && c.wt != me->id && !Covers(me->vc, c.wt, c.wc)) Fail("unordered conflicting accesses");
        if (write) {
            for (size_t t = 0; t < c.rd.size(); t++)
                if (int(t) != me->id && c.rd[t] && !Covers(me->vc, t, c.rd[t])) Fail("unordered conflicting accesses");
            c.wt = me->id;
            c.wc = me->vc[me->id];
            c.rd.clear();
        } else {
            if (c.rd.size() <= size_t(me->id)) c.rd.resize(me->id + 1);
            c.rd[me->id] = me->vc[me->id];
        }
    }
}
void Sched::Forget(const void* a, size_t n) {
    if (!races || !cells || !self || self != cur || busy) return;
    Quiet q;
    Busy b;
    uintptr_t p = reinterpret_cast<uintptr_t>(a);
    for (uintptr_t g = p; g < p + n; g++) cells->erase(g);
}
void Enter(Th* t) {
    pthread_attr_t at;
    void* base = nullptr;
    size_t size = 0;
    if (pthread_getattr_np(pthread_self(), &at) == 0) {
        pthread_attr_getstack(&at, &base, &size);
        pthread_attr_destroy(&at);
    }
    t->lo = reinterpret_cast<uintptr_t>(base);
    t->hi = t->lo + size;
    self = t;
    Sched::I().Acquire(t);
}

Quiet::Quiet() : t_(self) {
    if (t_) t_->quiet++;
}
Quiet::~Quiet() {
    if (t_) t_->quiet--;
}

void Sched::Yield(bool mem) {
    if (!strategy || !self || self != cur || (mem && self->quiet)) return;
    Switch(mem);
}

Sched& Sched::I() {
    static Sched* s = nullptr;
    if (!s) s = new Sched();
    return *s;
}

uint64_t Sched::Rand() {
    uint64_t z = (rnd += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

void Sched::Fail(const char* why) {
    fprintf(stderr, "scheduler: %s\n", why);
    if (dead) dead(why);
    _exit(96);
}

void Sched::Start(uint64_t seed) {
    self = nullptr;
    // threads of an earlier trace have been joined
    for (Th* t : th)
        if (t->st == Th::Done) {
            sem_destroy(&t->sem);
            delete t;
        }
    th.clear();
    rnd = seed * 0x2545F4914F6CDD1Dull + 99991;
    for (int i = 0; i < 4; i++) Rand();
    steps = same = low = switches = 0;
    strategy = 1 + Below(3);
    static const int st[] = {2, 4, 8, 20};
    static const int ms[] = {8, 30, 100, 400};
    sticky = st[Below(4)];
    mem_sticky = ms[Below(4)];
    change.clear();
    int d = 1 + Below(5);
    int64_t span = Below(2) ? 100 : 1500;
    for (int i = 0; i < d; i++) change.push_back(Below(span));
    Th* m = NewThread();
    if (!cells) {
        cells = new std::unordered_map<uintptr_t, Cell>();
        clocks = new std::unordered_map<const void*, std::vector<uint64_t>>();
    }
    cells->clear();
    clocks->clear();
    cur = m;
    Enter(m);
}

Th* Sched::NewThread() {
    Quiet q;
    Th* t = new Th();
    t->id = th.size();
    t->prio = 1000000 + Below(1000000);
    sem_init(&t->sem, 0, 0);
    th.push_back(t);
    t->vc.assign(t->id + 1, 0);
    t->vc[t->id] = 1;
    if (races && self) {
        Release(t);  // what the creator did is known to the new thread
        Join(t->vc, self->vc);
    }
    return t;
}

void Sched::Block(const void* on, bool cond, bool timed) {
    cur->st = Th::Blocked;
    cur->on = on;
    cur->cond = cond;
    cur->timed = timed;
    Switch(false);
}

void Sched::Wake(const void* on, bool one) {
    Quiet q;
    if (one) {
        std::vector<Th*> w;
        for (Th* t : th)
            if (t->st == Th::Blocked && t->on == on) w.push_back(t);
        if (!w.empty()) w[Below(w.size())]->st = Th::Run;
        return;
    }
    for (Th* t : th)
        if (t->st == Th::Blocked && t->on == on) t->st = Th::Run;
}

void Sched::Switch(bool mem) {
    Quiet q;
    Th* me = cur;
    if (++steps > limit) Fail("no progress");
    if (me->st == Th::Run && mem) {
        // cheap path: most memory accesses are not switch points
        if (strategy != 3) {
            if (Below(mem_sticky) != 0) return;
        } else {
            bool hit = false;
            for (int64_t c : change) hit |= (c == steps);
            if (!hit && ++same < 20000) return;
        }
    }
    // a condition may be reported without reason, a time limit may expire
    if (Below(64) == 0) {
        std::vector<Th*> w;
        for (Th* t : th)
            if (t->st == Th::Blocked && (t->cond || t->timed)) w.push_back(t);
        if (!w.empty()) {
            Th* t = w[Below(w.size())];
            if (t->timed) t->expired = true;
            t->st = Th::Run;
        }
    }
    std::vector<Th*> r;
    for (Th* t : th)
        if (t->st == Th::Run) r.push_back(t);
    if (r.empty()) {
        for (Th* t : th)
            if (t->st == Th::Blocked && t->timed) r.push_back(t);
        if (r.empty()) Fail("deadlock");
        Th* t = r[Below(r.size())];
        t->expired = true;
        t->st = Th::Run;
        r = {t};
    }
    Th* next = nullptr;
    bool can = me->st == Th::Run;
    if (can && same > 300 && r.size() > 1 && !mem) {  // fairness for busy waiting
        do next = r[Below(r.size())];
        while (next == me);
        if (strategy == 3) me->prio = --low;
    } else if (strategy == 1) {
        next = r[Below(r.size())];
    } else if (strategy == 2) {
        next = can && Below(sticky) != 0 ? me : r[Below(r.size())];
    } else {
        for (int64_t c : change)
            if (c == steps) me->prio = --low;
        if (mem && same >= 20000) me->prio = --low;
        for (Th* t : r)
            if (!next || t->prio > next->prio) next = t;
    }
    if (next == me) {
        same++;
        return;
    }
    same = 0;
    switches++;
    cur = next;
    sem_post(&next->sem);
    if (me->st != Th::Done)
        while (sem_wait(&me->sem) != 0) {
        }
}

void Sched::Finish() {
    Th* me = cur;
    Release(me);
    me->st = Th::Done;
    Wake(me);
    Switch(false);
    self = nullptr;
}

}  // namespace vs

// initialisation of function-local statics may switch threads inside
extern "C" int __cxa_guard_acquire(long long* g) {
    auto* b = reinterpret_cast<volatile unsigned char*>(g);
    vs::Sched& s = vs::Sched::I();
    while (true) {
        if (b[0]) {
            s.Acquire(g);
            return 0;
        }
        if (!b[1]) break;
        if (!s.strategy) abort();
        s.Block(g);
    }
    b[1] = 1;
    return 1;
}
extern "C" void __cxa_guard_release(long long* g) {
    auto* b = reinterpret_cast<volatile unsigned char*>(g);
    b[1] = 0;
    b[0] = 1;
    vs::Sched::I().Release(g);
    if (vs::Sched::I().strategy) vs::Sched::I().Wake(g);
}
extern "C" void __cxa_guard_abort(long long* g) {
    auto* b = reinterpret_cast<volatile unsigned char*>(g);
    b[1] = 0;
    if (vs::Sched::I().strategy) vs::Sched::I().Wake(g);
}

// the calls the compiler inserts for -fsanitize=thread
#ifdef VS_MEMORY
#define Y vs::Sched::I().Yield(true)
#define R(a, n) (vs::Sched::I().Yield(true), vs::Sched::I().Access(a, n, false))
#define W(a, n) (vs::Sched::I().Yield(true), vs::Sched::I().Access(a, n, true))
#define A(p) (vs::Sched::I().Yield(true), vs::Sched::I().Acquire(const_cast<const void*>(reinterpret_cast<const volatile void*>(p))), vs::Sched::I().Release(const_cast<const void*>(reinterpret_cast<const volatile void*>(p))))
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n)                                    \
    void __tsan_read##n(void* p) { R(p, n); }            \
    void __tsan_write##n(void* p) { W(p, n); }           \
    void __tsan_unaligned_read##n(void* p) { R(p, n); }  \
    void __tsan_unaligned_write##n(void* p) { W(p, n); } \
    void __tsan_volatile_read##n(void* p) { R(p, n); }   \
    void __tsan_volatile_write##n(void* p) { W(p, n); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
void __tsan_read_range(void* p, unsigned long n) { R(p, n); }
void __tsan_write_range(void* p, unsigned long n) { W(p, n); }
#define AT(n, T)                                                                                          \
    T __tsan_atomic##n##_load(const volatile T* p, int) { A(p); return __atomic_load_n(p, 5); }              \
    void __tsan_atomic##n##_store(volatile T* p, T v, int) { A(p); __atomic_store_n(p, v, 5); }              \
    T __tsan_atomic##n##_exchange(volatile T* p, T v, int) { A(p); return __atomic_exchange_n(p, v, 5); }    \
    T __tsan_atomic##n##_fetch_add(volatile T* p, T v, int) { A(p); return __atomic_fetch_add(p, v, 5); }    \
    T __tsan_atomic##n##_fetch_sub(volatile T* p, T v, int) { A(p); return __atomic_fetch_sub(p, v, 5); }    \
    T __tsan_atomic##n##_fetch_and(volatile T* p, T v, int) { A(p); return __atomic_fetch_and(p, v, 5); }    \
    T __tsan_atomic##n##_fetch_or(volatile T* p, T v, int) { A(p); return __atomic_fetch_or(p, v, 5); }      \
    T __tsan_atomic##n##_fetch_xor(volatile T* p, T v, int) { A(p); return __atomic_fetch_xor(p, v, 5); }    \
    int __tsan_atomic##n##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) {                  \
        A(p); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); }                                        \
    int __tsan_atomic##n##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) {                    \
        A(p); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); }                                        \
    T __tsan_atomic##n##_compare_exchange_val(volatile T* p, T e, T v, int, int) {                        \
        A(p); __atomic_compare_exchange_n(p, &e, v, 0, 5, 5); return e; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) { Y; }
void __tsan_atomic_signal_fence(int) {}
}
// memory that is freed and handed out again starts without history
#include <malloc.h>
void* operator new(size_t n) {
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    if (vs::self) vs::Sched::I().Forget(p, malloc_usable_size(p));  // also what a thread freed after its end
    return p;
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept {
    if (p) vs::Sched::I().Forget(p, malloc_usable_size(p));
    free(p);
}
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
#endif
