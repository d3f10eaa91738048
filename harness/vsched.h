// A deterministic scheduler for real multi-threaded code.  Force-included (-include) in front of
// the sources under test it renames the standard synchronisation types to cooperative ones: one
// thread runs at a time, and a seeded strategy decides at every synchronisation operation (and,
// in builds instrumented with -fsanitize=thread, at every shared memory access) who goes on.
#pragma once
#ifdef __cplusplus
#include <bits/stdc++.h>
#include <semaphore.h>
#include <unistd.h>
#include <fmt/format.h>
#include <tbb/concurrent_hash_map.h>

namespace vs {

#define VS_RAW __attribute__((no_sanitize("thread")))

struct Th {
    int id = 0;
    sem_t sem;
    enum { Run, Blocked, Done } st = Run;
    const void* on = nullptr;  // what a blocked thread waits for
    bool cond = false;         // waits for a condition: may wake without reason
    bool timed = false;        // waits with a time limit
    bool expired = false;
    int64_t prio = 0;
    std::vector<uint64_t> vc;  // happens-before clock
    uintptr_t lo = 0, hi = 0;  // own stack
    int quiet = 0;  // memory accesses are no switch points inside the scheduler's own types
};

extern thread_local Th* self;

struct Sched {
    std::vector<Th*> th;
    Th* cur = nullptr;
    uint64_t rnd = 1;
    int strategy = 0;  // 0 off, 1 random, 2 sticky random, 3 priorities
    int sticky = 10;   // sticky: one switch in so many points
    int mem_sticky = 60;
    std::vector<int64_t> change;  // priorities: step numbers at which the running thread is demoted
    int64_t steps = 0, limit = 2000000, same = 0, low = 0, switches = 0;
    std::function<void(const char*)> dead;
    bool races = false;  // report unordered conflicting accesses (instrumented builds)
    void Acquire(const void* o);
    void Release(const void* o);
    void Access(const void* a, size_t n, bool write);
    void Forget(const void* a, size_t n);

    static Sched& I();
    uint64_t Rand();
    int64_t Below(int64_t n) { return n <= 1 ? 0 : static_cast<int64_t>(Rand() % n); }
    void Fail(const char* why);
    void Start(uint64_t seed);
    Th* NewThread();
    void Switch(bool mem);
    void Yield(bool mem = false);
    void Block(const void* on, bool cond = false, bool timed = false);
    void Wake(const void* on, bool one = false);
    void Finish();  // the running thread ends
};

void Enter(Th* t);  // a new thread begins
inline void Yield() { Sched::I().Yield(); }
struct Quiet {
    Quiet();
    ~Quiet();
    Th* t_;
};

struct Mutex {
    constexpr Mutex() noexcept = default;
    Mutex(const Mutex&) = delete;
    Mutex& operator=(const Mutex&) = delete;
    void lock() {
        Quiet q;
        Sched& s = Sched::I();
        if (!s.strategy) return;
        s.Yield();
        while (owner || readers) s.Block(this);
        owner = s.cur;
        s.Acquire(this);
    }
    bool try_lock() {
        Quiet q;
        Sched& s = Sched::I();
        if (!s.strategy) return true;
        s.Yield();
        if (owner || readers) return false;
        owner = s.cur;
        s.Acquire(this);
        return true;
    }
    void unlock() {
        Quiet q;
        Sched& s = Sched::I();
        if (!s.strategy) return;
        if (owner != s.cur) s.Fail("unlock of a mutex that is not held");
        owner = nullptr;
        s.Release(this);
        s.Wake(this);
        s.Yield();
    }
    template <typename D>
    bool try_lock_for(const D&) { return try_lock(); }
    template <typename D>
    bool try_lock_until(const D&) { return try_lock(); }
    void lock_shared() {
        Quiet q;
        Sched& s = Sched::I();
        if (!s.strategy) return;
        s.Yield();
        while (owner) s.Block(this);
        readers++;
        s.Acquire(this);
    }
    bool try_lock_shared() {
        Quiet q;
        Sched& s = Sched::I();
        if (!s.strategy) return true;
        s.Yield();
        if (owner) return false;
        readers++;
        s.Acquire(this);
        return true;
    }
    void unlock_shared() {
        Quiet q;
        Sched& s = Sched::I();
        if (!s.strategy) return;
        if (readers <= 0) s.Fail("shared unlock without lock");
        readers--;
        s.Release(this);
        s.Wake(this);
        s.Yield();
    }
    Th* owner = nullptr;
    int readers = 0;
};

struct RecursiveMutex {
    void lock() {
        Sched& s = Sched::I();
        if (depth && m.owner == s.cur) { depth++; return; }
        m.lock();
        depth = 1;
    }
    bool try_lock() {
        Sched& s = Sched::I();
        if (depth && m.owner == s.cur) { depth++; return true; }
        if (!m.try_lock()) return false;
        depth = 1;
        return true;
    }
    void unlock() {
        if (--depth == 0) m.unlock();
    }
    Mutex m;
    int depth = 0;
};

struct Cond {
    Cond() = default;
    Cond(const Cond&) = delete;
    void notify_one() noexcept {
        Quiet q;
        Sched& s = Sched::I();
        if (!s.strategy) return;
        s.Wake(this, true);
        s.Yield();
    }
    void notify_all() noexcept {
        Quiet q;
        Sched& s = Sched::I();
        if (!s.strategy) return;
        s.Wake(this);
        s.Yield();
    }
    template <typename L>
    bool Park(L& l, bool timed) {
        Quiet q;
        Sched& s = Sched::I();
        Th* me = s.cur;
        me->st = Th::Blocked;
        me->on = this;
        me->cond = true;
        me->timed = timed;
        me->expired = false;
        l.unlock();  // releases and switches away
        if (me->st == Th::Blocked) s.Switch(false);
        bool expired = me->expired;
        me->cond = me->timed = me->expired = false;
        l.lock();
        return !expired;
    }
    template <typename L>
    void wait(L& l) { Park(l, false); }
    template <typename L, typename P>
    void wait(L& l, P p) {
        while (!p()) Park(l, false);
    }
    template <typename L, typename D>
    std::cv_status wait_for(L& l, const D&) { return Park(l, true) ? std::cv_status::no_timeout : std::cv_status::timeout; }
    template <typename L, typename D, typename P>
    bool wait_for(L& l, const D&, P p) {
        while (!p())
            if (!Park(l, true)) return p();
        return true;
    }
    template <typename L, typename D>
    std::cv_status wait_until(L& l, const D& d) { return wait_for(l, d); }
    template <typename L, typename D, typename P>
    bool wait_until(L& l, const D& d, P p) { return wait_for(l, d, p); }
};

class Thread {
 public:
    using id = std::thread::id;
    Thread() noexcept = default;
    Thread(Thread&& o) noexcept { *this = std::move(o); }
    Thread& operator=(Thread&& o) noexcept {
        if (joinable()) std::terminate();
        t_ = std::move(o.t_);
        th_ = o.th_;
        o.th_ = nullptr;
        return *this;
    }
    template <typename F, typename... A, typename = std::enable_if_t<!std::is_same_v<std::decay_t<F>, Thread>>>
    explicit Thread(F&& f, A&&... a) {
        Quiet q;
        Sched& s = Sched::I();
        Th* th = s.NewThread();
        th_ = th;
        auto call = [fn = std::decay_t<F>(std::forward<F>(f)), args = std::make_tuple(std::decay_t<A>(std::forward<A>(a))...)]() mutable {
            std::apply([&](auto&&... x) { std::invoke(std::move(fn), std::move(x)...); }, std::move(args));
        };
        t_ = std::thread([th, call = std::move(call)]() mutable {
            while (sem_wait(&th->sem) != 0) {
            }
            vs::Enter(th);
            { auto c = std::move(call); c(); }
            Sched::I().Finish();
        });
        s.Yield();
    }
    ~Thread() {
        if (joinable()) std::terminate();
    }
    bool joinable() const noexcept { return th_ != nullptr; }
    void join() {
        Quiet q;
        Sched& s = Sched::I();
        if (!th_) throw std::system_error(std::make_error_code(std::errc::invalid_argument));
        s.Yield();
        while (th_->st != Th::Done) s.Block(th_);
        s.Acquire(th_);
        t_.join();
        th_ = nullptr;
    }
    void detach() {
        t_.detach();
        th_ = nullptr;
    }
    id get_id() const noexcept { return t_.get_id(); }
    static unsigned hardware_concurrency() noexcept { return 4; }

 private:
    std::thread t_;
    Th* th_ = nullptr;
};

template <typename T>
struct Shared {
    bool ready = false, taken = false;
    std::conditional_t<std::is_void_v<T>, std::optional<char>,
                       std::conditional_t<std::is_reference_v<T>, std::optional<char>, std::optional<T>>> value;
    std::exception_ptr ex;
    void Set() {
        Quiet q;
        Sched::I().Release(this);
        ready = true;
        Sched::I().Wake(this);
        Yield();
    }
    void Wait() {
        Quiet q;
        Yield();
        while (!ready) Sched::I().Block(this);
        Sched::I().Acquire(this);
    }
};

template <typename T>
class SharedFuture;

template <typename T>
class Future {
 public:
    Future() noexcept = default;
    Future(Future&&) noexcept = default;
    Future& operator=(Future&&) noexcept = default;
    explicit Future(std::shared_ptr<Shared<T>> s) : s_(std::move(s)) {}
    bool valid() const noexcept { return s_ != nullptr; }
    void wait() const { s_->Wait(); }
    template <typename D>
    std::future_status wait_for(const D&) const {
        Yield();
        return s_->ready ? std::future_status::ready : std::future_status::timeout;
    }
    template <typename D>
    std::future_status wait_until(const D& d) const { return wait_for(d); }
    T get() {
        if (!s_) throw std::future_error(std::future_errc::no_state);
        auto s = std::move(s_);
        s->Wait();
        if (s->ex) std::rethrow_exception(s->ex);
        if constexpr (!std::is_void_v<T>) return std::move(*s->value);
    }
    SharedFuture<T> share() noexcept { return SharedFuture<T>(std::move(s_), std::move(hold_)); }
    std::shared_ptr<Thread> hold_;  // of async: joined when the last future goes away

 private:
    std::shared_ptr<Shared<T>> s_;
};

template <typename T>
class SharedFuture {
 public:
    SharedFuture() noexcept = default;
    SharedFuture(std::shared_ptr<Shared<T>> s, std::shared_ptr<Thread> h) : s_(std::move(s)), hold_(std::move(h)) {}
    SharedFuture(Future<T>&& f) : SharedFuture(f.share()) {}  // NOLINT
    bool valid() const noexcept { return s_ != nullptr; }
    void wait() const { s_->Wait(); }
    template <typename D>
    std::future_status wait_for(const D&) const {
        Yield();
        return s_->ready ? std::future_status::ready : std::future_status::timeout;
    }
    std::conditional_t<std::is_void_v<T>, void, std::add_lvalue_reference_t<const T>> get() const {
        if (!s_) throw std::future_error(std::future_errc::no_state);
        s_->Wait();
        if (s_->ex) std::rethrow_exception(s_->ex);
        if constexpr (!std::is_void_v<T>) return *s_->value;
    }

 private:
    std::shared_ptr<Shared<T>> s_;
    std::shared_ptr<Thread> hold_;
};

template <typename T>
class PromiseBase {
 public:
    PromiseBase() : s_(std::make_shared<Shared<T>>()) {}
    PromiseBase(PromiseBase&&) noexcept = default;
    PromiseBase& operator=(PromiseBase&&) noexcept = default;
    ~PromiseBase() {
        if (s_ && !s_->ready) {
            s_->ex = std::make_exception_ptr(std::future_error(std::future_errc::broken_promise));
            s_->Set();
        }
    }
    Future<T> get_future() {
        if (s_->taken) throw std::future_error(std::future_errc::future_already_retrieved);
        s_->taken = true;
        return Future<T>(s_);
    }
    void set_exception(std::exception_ptr e) {
        Check();
        s_->ex = e;
        s_->Set();
    }

 protected:
    void Check() {
        if (s_->ready) throw std::future_error(std::future_errc::promise_already_satisfied);
    }
    std::shared_ptr<Shared<T>> s_;
};
template <typename T>
class Promise : public PromiseBase<T> {
 public:
    void set_value(const T& v) {
        this->Check();
        this->s_->value = v;
        this->s_->Set();
    }
    void set_value(T&& v) {
        this->Check();
        this->s_->value = std::move(v);
        this->s_->Set();
    }
};
template <>
class Promise<void> : public PromiseBase<void> {
 public:
    void set_value() {
        Check();
        s_->Set();
    }
};

template <typename F, typename... A>
auto Async(std::launch, F&& f, A&&... a) {
    using R = std::invoke_result_t<std::decay_t<F>, std::decay_t<A>...>;
    auto p = std::make_shared<Promise<R>>();
    Future<R> fut = p->get_future();
    Thread t([p, fn = std::decay_t<F>(std::forward<F>(f)), args = std::make_tuple(std::decay_t<A>(std::forward<A>(a))...)]() mutable {
        try {
            if constexpr (std::is_void_v<R>) {
                std::apply([&](auto&&... x) { std::invoke(fn, x...); }, args);
                p->set_value();
            } else {
                p->set_value(std::apply([&](auto&&... x) { return std::invoke(fn, x...); }, args));
            }
        } catch (...) {
            p->set_exception(std::current_exception());
        }
    });
    fut.hold_ = std::shared_ptr<Thread>(new Thread(std::move(t)), [](Thread* x) {
        if (x->joinable()) x->join();
        delete x;
    });
    return fut;
}
template <typename F, typename... A, typename = std::enable_if_t<!std::is_same_v<std::decay_t<F>, std::launch>>>
auto Async(F&& f, A&&... a) {
    return Async(std::launch::async, std::forward<F>(f), std::forward<A>(a)...);
}

struct OnceFlag {
    Mutex m;
    bool done = false;
};
template <typename F, typename... A>
void CallOnce(OnceFlag& o, F&& f, A&&... a) {
    std::lock_guard<Mutex> l(o.m);
    if (o.done) return;
    std::invoke(std::forward<F>(f), std::forward<A>(a)...);
    o.done = true;
}

#ifdef VS_ATOMIC  // builds without memory-access instrumentation: atomics are switch points
template <typename T>
struct Atomic {
    std::atomic<T> a;
    constexpr Atomic() noexcept = default;
    constexpr Atomic(T v) noexcept : a(v) {}  // NOLINT
    Atomic(const Atomic&) = delete;
    T load(std::memory_order = std::memory_order_seq_cst) const noexcept { Yield(); return a.load(); }
    void store(T v, std::memory_order = std::memory_order_seq_cst) noexcept { Yield(); a.store(v); }
    operator T() const noexcept { return load(); }
    T operator=(T v) noexcept { store(v); return v; }
    T exchange(T v, std::memory_order = std::memory_order_seq_cst) noexcept { Yield(); return a.exchange(v); }
    bool compare_exchange_strong(T& e, T d, std::memory_order = std::memory_order_seq_cst, std::memory_order = std::memory_order_seq_cst) noexcept { Yield(); return a.compare_exchange_strong(e, d); }
    bool compare_exchange_weak(T& e, T d, std::memory_order = std::memory_order_seq_cst, std::memory_order = std::memory_order_seq_cst) noexcept { Yield(); return a.compare_exchange_strong(e, d); }
    template <typename U> T fetch_add(U v, std::memory_order = std::memory_order_seq_cst) noexcept { Yield(); return a.fetch_add(v); }
    template <typename U> T fetch_sub(U v, std::memory_order = std::memory_order_seq_cst) noexcept { Yield(); return a.fetch_sub(v); }
    template <typename U> T fetch_or(U v, std::memory_order = std::memory_order_seq_cst) noexcept { Yield(); return a.fetch_or(v); }
    template <typename U> T fetch_and(U v, std::memory_order = std::memory_order_seq_cst) noexcept { Yield(); return a.fetch_and(v); }
    template <typename U> T operator+=(U v) noexcept { return fetch_add(v) + v; }
    template <typename U> T operator-=(U v) noexcept { return fetch_sub(v) - v; }
    T operator++() noexcept { return fetch_add(1) + 1; }
    T operator++(int) noexcept { return fetch_add(1); }
    T operator--() noexcept { return fetch_sub(1) - 1; }
    T operator--(int) noexcept { return fetch_sub(1); }
};
#endif

template <typename D>
inline void Sleep(const D&) { Yield(); }
inline void YieldThread() { Yield(); }
}  // namespace vs

namespace std {
using vs_mutex = ::vs::Mutex;
using vs_shared_mutex = ::vs::Mutex;
using vs_timed_mutex = ::vs::Mutex;
using vs_shared_timed_mutex = ::vs::Mutex;
using vs_recursive_mutex = ::vs::RecursiveMutex;
using vs_condition_variable = ::vs::Cond;
using vs_condition_variable_any = ::vs::Cond;
using vs_thread = ::vs::Thread;
using vs_jthread = ::vs::Thread;
template <typename T> using vs_future = ::vs::Future<T>;
template <typename T> using vs_shared_future = ::vs::SharedFuture<T>;
template <typename T> using vs_promise = ::vs::Promise<T>;
using vs_once_flag = ::vs::OnceFlag;
template <typename F, typename... A> void vs_call_once(F&& f, A&&... a) { ::vs::CallOnce(std::forward<F>(f), std::forward<A>(a)...); }
template <typename F, typename... A> auto vs_async(F&& f, A&&... a) { return ::vs::Async(std::forward<F>(f), std::forward<A>(a)...); }
#ifdef VS_ATOMIC
template <typename T> using vs_atomic = ::vs::Atomic<T>;
using vs_atomic_bool = ::vs::Atomic<bool>;
#endif
namespace this_thread {
template <typename D> void vs_sleep_for(const D& d) { ::vs::Sleep(d); }
template <typename D> void vs_sleep_until(const D& d) { ::vs::Sleep(d); }
inline void vs_yield() { ::vs::Yield(); }
}  // namespace this_thread
}  // namespace std

#ifndef VS_RUNTIME
#define mutex vs_mutex
#define shared_mutex vs_shared_mutex
#define timed_mutex vs_timed_mutex
#define shared_timed_mutex vs_shared_timed_mutex
#define recursive_mutex vs_recursive_mutex
#define condition_variable vs_condition_variable
#define condition_variable_any vs_condition_variable_any
#define thread vs_thread
#define jthread vs_jthread
#define future vs_future
#define shared_future vs_shared_future
#define promise vs_promise
#define once_flag vs_once_flag
#define call_once vs_call_once
#define async vs_async
#define sleep_for vs_sleep_for
#define sleep_until vs_sleep_until
#ifdef VS_ATOMIC
#define atomic vs_atomic
#define atomic_bool vs_atomic_bool
#endif
#endif
#endif  // __cplusplus
