// The wall clock, sleeping and random names of the process under test (include in one source of a driver).
#pragma once
#include <dlfcn.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <random>

namespace vclock {
inline std::atomic<int64_t> now_us{1700000000000000};  // never stands still
inline int64_t NowMs() { return now_us / 1000; }
inline void AdvanceMs(int64_t ms) { now_us += ms * 1000; }
inline uint64_t names = 1;  // state of the generator of random names
inline FILE* Uuid(const char* mode) {
    char text[38];
    for (int i = 0; i < 36; i++) {
        uint64_t z = (names += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        text[i] = i == 8 || i == 13 || i == 18 || i == 23 ? '-' : "0123456789abcdef"[(z >> 40) & 15];
    }
    text[36] = '\n';
    int fd = memfd_create("uuid", 0);
    if (fd < 0 || write(fd, text, 37) != 37) _exit(97);
    lseek(fd, 0, SEEK_SET);
    return fdopen(fd, mode);
}
}  // namespace vclock

// waiting times are the same in every run
std::random_device::result_type std::random_device::_M_getval() { return 42; }

extern "C" {
#define VCLOCK_FOPEN(NAME)                                                          \
    FILE* NAME(const char* path, const char* mode) {                                \
        if (strcmp(path, "/proc/sys/kernel/random/uuid") == 0) return vclock::Uuid(mode); \
        using Fn = FILE* (*)(const char*, const char*);                             \
        static Fn real = reinterpret_cast<Fn>(dlsym(RTLD_NEXT, #NAME));             \
        return real(path, mode);                                                    \
    }
VCLOCK_FOPEN(fopen)
VCLOCK_FOPEN(fopen64)
int clock_gettime(clockid_t id, struct timespec* ts) noexcept {
    if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) {
        int64_t t = ++vclock::now_us;
        ts->tv_sec = t / 1000000;
        ts->tv_nsec = (t % 1000000) * 1000;
        return 0;
    }
    return syscall(SYS_clock_gettime, id, ts);
}
int gettimeofday(struct timeval* tv, void*) noexcept {
    int64_t t = ++vclock::now_us;
    tv->tv_sec = t / 1000000;
    tv->tv_usec = t % 1000000;
    return 0;
}
time_t time(time_t* t) noexcept {
    time_t v = vclock::now_us / 1000000;
    if (t) *t = v;
    return v;
}
int nanosleep(const struct timespec* ts, struct timespec*) {
    vclock::now_us += ts->tv_sec * 1000000 + ts->tv_nsec / 1000;
    return 0;
}
int clock_nanosleep(clockid_t, int flags, const struct timespec* ts, struct timespec*) {
    if (!(flags & TIMER_ABSTIME)) vclock::now_us += ts->tv_sec * 1000000 + ts->tv_nsec / 1000;
    return 0;
}
int usleep(useconds_t us) {
    vclock::now_us += us;
    return 0;
}
}
