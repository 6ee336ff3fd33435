// The system calls the library makes, wrapped at link time (-Wl,--wrap=...):
// every call is a place where the environment may do something legal but
// unusual, and a point at which the process may be lost.
#pragma once
#include <cerrno>
#include <functional>
#include <string>
#include <vector>
#include <unistd.h>

// Depth-first enumeration of the choices met during a run.
struct chooser {
    std::vector<unsigned> taken;
    std::vector<unsigned> radix;
    std::size_t at = 0;
    unsigned deviations = 0;
    unsigned bound = 0;
    // A storm treats all transfers alike instead: interrupted this often first ...
    unsigned storm = 0;
    unsigned waited = 0;

    static constexpr unsigned storms = 8;

    // What becomes of a transfer of n bytes in a storm: -1 interrupted, else the size to transfer.
    long
    stormy (
        std::size_t n
    ) {
        static const unsigned often[] = {0, 0, 1, 9, 100, 1, 0, 0, 3};
        if (waited < often[storm]) { ++waited; return -1; }
        waited = 0;
        switch (storm) { // ... and then cut short
        case 1: case 5: return n > 1 ? 1 : n;
        case 6: return n > 1 ? n - 1 : n;
        case 7: case 8: return n > 1 ? n / 2 : n;
        default: return n;
        }
    }
    void
    start ()
    {
        at = 0;
        deviations = 0;
        waited = 0;
        radix.clear();
    }
    // 0 is the usual behaviour; anything else is a deviation.
    unsigned
    pick (
        unsigned n
    ) {
        if (deviations >= bound) n = 1;
        if (at == taken.size()) taken.push_back(0);
        unsigned c = taken[at];
        if (c >= n) c = taken[at] = 0; // only if the run isn't repeatable
        radix.push_back(n);
        ++at;
        if (c) ++deviations;
        return c;
    }
    bool
    advance ()
    {
        taken.resize(at);
        while (!taken.empty()) {
            if (taken.back() + 1 < radix[taken.size() - 1]) {
                ++taken.back();
                return true;
            }
            taken.pop_back();
        }
        return false;
    }
    std::string
    show () const
    {
        if (storm) return "storm " + std::to_string(storm);
        std::string s = "[";
        for (std::size_t i = 0; i < taken.size(); ++i) s += std::to_string(taken[i]);
        return s + "]";
    }
};

#ifndef VP_OWN_CALLS
namespace sys {

inline bool active = false;
inline chooser* choices = nullptr;
inline bool fault_reads = false;
inline bool fault_writes = false;
inline bool hard_reads = false;
inline bool hard_writes = false;
inline unsigned hard_errors = 0;
inline unsigned interrupted = 0;
inline unsigned cut_short = 0;
inline unsigned calls = 0;
inline std::function<void(const char*)> crash_point;

// What happens to a transfer of n bytes: -1 interrupted, -2 failed, else the size to transfer.
inline long
fate (
    std::size_t n,
    bool hard
) {
    if (!choices || n == 0) return n;
    if (choices->storm) {
        const long k = choices->stormy(n);
        if (k == -1) ++interrupted;
        else if (std::size_t(k) < n) ++cut_short;
        return k;
    }
    unsigned kinds = 2 + (n > 1) + (n > 3) + (n > 6) + hard;
    unsigned c = choices->pick(kinds);
    if (c == 0) return n;
    if (c == 1) { ++interrupted; return -1; }
    if (n > 1 && c == 2) { ++cut_short; return 1; }
    if (n > 3 && c == 3) { ++cut_short; return n / 2; }
    if (n > 6 && c == 4) { ++cut_short; return n - 1; }
    ++hard_errors;
    return -2;
}

} // namespace sys

extern "C" {
ssize_t __real_read (int, void*, size_t);
ssize_t __real_write (int, const void*, size_t);

ssize_t
__wrap_read (
    int fd,
    void* data,
    size_t n
) {
    if (!sys::active) return __real_read(fd, data, n);
    ++sys::calls;
    if (sys::fault_reads) {
        long f = sys::fate(n, sys::hard_reads);
        if (f == -1) { errno = EINTR; return -1; }
        if (f == -2) { errno = EIO; return -1; }
        n = f;
    }
    return __real_read(fd, data, n);
}

ssize_t
__wrap_write (
    int fd,
    const void* data,
    size_t n
) {
    if (!sys::active) return __real_write(fd, data, n);
    ++sys::calls;
    if (sys::crash_point) sys::crash_point("before a write call");
    if (sys::fault_writes) {
        long f = sys::fate(n, sys::hard_writes);
        if (f == -1) { errno = EINTR; return -1; }
        if (f == -2) { errno = ENOSPC; return -1; }
        n = f;
    }
    ssize_t r = __real_write(fd, data, n);
    if (sys::crash_point) sys::crash_point("after a write call");
    return r;
}
}
#endif // VP_OWN_CALLS
