// S04: the standard streams, on stand-ins for descriptors 0, 1 and 2; and W02:
// the same on a stand-in for the Windows console.
#include <utility>
#ifdef VP_WINDOWS
#include <Windows.h>
#endif
#include <cmp/io/uio.hpp>

#include <cerrno>
#include <sys/wait.h>

#include "ref_unicode.hpp"
#include "vp.hpp"

// The chooser only; the calls are wrapped here.
#define VP_OWN_CALLS
#include "syscalls.hpp"

using vp::u64;

struct terminal {
    std::string in;
    std::size_t in_at = 0;
    std::string out[3];
    std::string want_out; // what was written to the standard output so far
    std::size_t enough = 0; // input that completes the current request
    bool reading = false;
    std::string problem;
    unsigned reads = 0;
};

static bool failing_calls = false; // transfers may also fail outright
static unsigned failures[3] = {0, 0, 0};
static terminal* term = nullptr;
static chooser* faults = nullptr;

#ifndef VP_WINDOWS
// What becomes of a transfer of n bytes: -1 interrupted, else the size to transfer.
static long
fate (
    std::size_t n
) {
    if (faults->storm) return faults->stormy(n);
    unsigned c = faults->pick(2 + (n > 1) + (n > 3) + (n > 6));
    if (c == 1) return -1;
    if (c == 2) return 1;
    if (c == 3) return n / 2;
    if (c == 4) return n - 1;
    return n;
}

// With outright failures: -1 failed with errno set, 0 nothing transferred, else the size.
static long
failing_fate (
    int fd,
    std::size_t n
) {
    unsigned c = faults->pick(5 + (n > 1) + (n > 3));
    if (c == 0) return n;
    if (c == 5) return 1;
    if (c == 6) return n / 2;
    if (c == 1) { errno = EINTR; return -1; }
    ++failures[fd];
    if (c == 4) return fd ? 0 : (errno = EAGAIN, -1);
    errno = c == 2 ? EIO : fd ? EPIPE : EBADF;
    return -1;
}

extern "C" {
ssize_t __real_read (int, void*, size_t);
ssize_t __real_write (int, const void*, size_t);

ssize_t
__wrap_read (
    int fd,
    void* data,
    size_t n
) {
    if (!term || fd != 0) return __real_read(fd, data, n);
    terminal& t = *term;
    ++t.reads;
    if (t.problem.empty()) {
        if (t.out[1] != t.want_out) t.problem = "input is asked for while '" + t.want_out.substr(std::min(t.out[1].size(), t.want_out.size())) + "' isn't out yet";
        if (!t.reading) t.problem = "input is asked for out of turn";
        else if (t.in_at >= t.enough) t.problem = "more input is asked for than the request needs";
    }
    std::size_t k = std::min(n, t.in.size() - t.in_at);
    if (faults && failing_calls) {
        long f = failing_fate(0, n);
        if (f == -1) return -1;
        k = std::min<std::size_t>(k, f);
    } else if (k && faults) {
        long f = fate(k);
        if (f == -1) { errno = EINTR; return -1; }
        k = f;
    }
    std::memcpy(data, t.in.data() + t.in_at, k);
    t.in_at += k;
    return k;
}

ssize_t
__wrap_write (
    int fd,
    const void* data,
    size_t n
) {
    if (!term || (fd != 1 && fd != 2)) return __real_write(fd, data, n);
    if (n && faults && failing_calls) {
        long f = failing_fate(fd, n);
        if (f == -1) return -1;
        n = f;
    } else if (n && faults) {
        long f = fate(n);
        if (f == -1) { errno = EINTR; return -1; }
        n = f;
    }
    term->out[fd].append(static_cast<const char*>(data), n);
    return n;
}
}

struct attached {
    attached (terminal& t, chooser* c) { term = &t; faults = c; }
    ~attached () { term = nullptr; faults = nullptr; }
};

static const int standard_output = 1, standard_error = 2;
static const unsigned input_count = 6;
#else
static const DWORD standard_output = STD_OUTPUT_HANDLE, standard_error = STD_ERROR_HANDLE;
static const unsigned input_count = 8;

struct attached {
    win::console_state c;
    attached (
        terminal& t,
        chooser*,
        bool redirected = false
    ) {
        std::vector<std::size_t> at; // of each code unit, in bytes
        for (std::size_t k = 0; k < t.in.size();) {
            unsigned char b = t.in[k];
            unsigned n = b >= 0xF0 ? 4 : b >= 0xE0 ? 3 : b >= 0xC0 ? 2 : 1;
            char32_t u = n == 1 ? b : b & (0x7F >> n);
            for (unsigned j = 1; j < n; ++j) u = u << 6 | (t.in[k + j] & 0x3F);
            at.push_back(k);
            if (u >= 0x10000) {
                c.in += char16_t(0xD7C0 + (u >> 10));
                u = 0xDC00 + (u & 0x3FF);
                at.push_back(k);
            }
            c.in += char16_t(u);
            k += n;
        }
        at.push_back(t.in.size());
        c.redirected = redirected;
        c.on_read = [this, &t, at] (std::size_t n) {
            ++t.reads;
            t.in_at = at[c.in_at];
            if (!t.problem.empty()) return;
            if (t.out[1] != t.want_out) t.problem = "input is asked for while '" + t.want_out.substr(std::min(t.out[1].size(), t.want_out.size())) + "' isn't out yet";
            if (!t.reading) t.problem = "input is asked for out of turn";
            else if (t.in_at >= t.enough) t.problem = "more input is asked for than the request needs";
            else if (n == 0) t.problem = "no input is asked for";
        };
        c.on_write = [&t] (int i, const void* data, DWORD n) { t.out[i].append(static_cast<const char*>(data), n); return n; };
        win::problem.clear();
        win::console = &c;
    }
    ~attached () { win::console = nullptr; }
};
#endif

static const char* op_names[] = {"out ab", "out e9", "out flush", "err x", "err flush", "in code point", "in line", "in word", "out long"};
static const unsigned op_count = 9;
static const std::string inputs[] = {"", "ab\n", "a b\r\nc", " \xC3\xA9 \nq\n", "\n\nword ", "xyz uvw\nlast\n",
    "\xF0\x9D\x84\x9E\xE2\x82\xAC \xC3\xA9\r\n\xF0\x90\x80\x80", "\xEF\xBF\xBF\xF4\x8F\xBF\xBF\xE2\x82\xAC\n \xF0\x9D\x84\x9E "};

static bool
white (
    unsigned char c
) {
    return c == ' ' || (c >= 9 && c <= 13);
}

// Letters beyond ASCII aren't white space.
struct reader_model {
    const std::string& s;
    std::size_t at;
    bool ended = false;
    std::string
    next ()
    {
        if (at == s.size()) { ended = true; return ""; }
        if (s[at] == '\r' && at + 1 < s.size()) ++at;
        const unsigned char b = s[at];
        std::size_t n = b >= 0xF0 ? 4 : b >= 0xE0 ? 3 : b >= 0xC0 ? 2 : 1;
        at += n;
        return s.substr(at - n, n);
    }
    std::string
    line ()
    {
        std::string r;
        for (;;) {
            std::string c = next();
            if (ended || c == "\n") return r;
            r += c;
        }
    }
    std::string
    word ()
    {
        std::string r, c;
        do { c = next(); if (ended) return r; } while (white(c[0]));
        while (!ended && !white(c[0])) { r += c; c = next(); }
        return r;
    }
};

template <typename In, typename Out, typename Err>
void
history (
    terminal& t,
    In& in,
    Out& out,
    Err& err,
    const std::vector<unsigned>& ops,
    std::string trace
) {
    std::string want_err;
    std::size_t consumed = 0;
    const std::string long_text(1500, 'L');
    for (unsigned o : ops) {
        trace += std::string(" ") + op_names[o];
        t.reading = o >= 5 && o <= 7;
        switch (o) {
        case 0: t.want_out += "ab"; out << "ab"; break;
        case 1: t.want_out += "\xC3\xA9"; out << U'\u00E9'; break;
        case 2: out.flush(); VP_CHECK(t.out[1] == t.want_out, trace, ": '", t.out[1], "' not '", t.want_out, "'"); break;
        case 3: want_err += "x"; err << u8"x"; break;
        case 4: err.flush(); VP_CHECK(t.out[2] == want_err, trace, ": '", t.out[2], "' not '", want_err, "'"); break;
        case 8: t.want_out += long_text; out << long_text; break;
        case 5: case 6: case 7: {
            reader_model m{t.in, consumed};
            std::string want = o == 5 ? m.next() : o == 6 ? m.line() : m.word();
            t.enough = m.ended ? ~std::size_t(0) : m.at;
            consumed = m.at;
            std::u8string got;
            bool thrown = false;
            try {
                if (o == 5) { char32_t c; in >> c; cmp::append_code_point(got, c); }
                else if (o == 6) in.read_line(got);
                else in >> got;
            } catch (const cmp::read_past_end&) { thrown = true; }
            VP_CHECK(thrown == m.ended, trace, thrown ? ": past the end" : ": not past the end");
            if (!thrown) VP_CHECK(std::string(got.begin(), got.end()) == want, trace, ": '", std::string(got.begin(), got.end()), "' not '", want, "'");
            VP_CHECK(t.out[1] == t.want_out, trace, ": output withheld while reading");
            vp::outcome(thrown ? "input ended" : "input read");
            break;
        }
        }
        VP_CHECK(t.problem.empty(), trace, ": ", t.problem);
#ifdef VP_WINDOWS
        VP_CHECK(win::problem.empty(), trace, ": ", win::problem);
#endif
        VP_CHECK(t.want_out.compare(0, t.out[1].size(), t.out[1]) == 0, trace, ": out of order: '", t.out[1], "'");
        VP_CHECK(want_err.compare(0, t.out[2].size(), t.out[2]) == 0, trace, ": errors out of order");
        vp::step(vp::mix(vp::mix(consumed, t.in_at), vp::mix(t.want_out.size() * 64 + t.out[1].size(), vp::hash_bytes(t.in.data(), t.in.size()))));
    }
    t.reading = false;
    out.flush();
    err.flush();
    VP_CHECK(t.out[1] == t.want_out, trace, " flush: '", t.out[1], "' not '", t.want_out, "'");
    VP_CHECK(t.out[2] == want_err, trace, " flush: errors '", t.out[2], "' not '", want_err, "'");
}

static void
fresh (
    std::size_t cap,
    unsigned input,
    unsigned bound,
    const std::vector<unsigned>& ops,
    unsigned storm = 0
) {
    chooser ch;
    ch.bound = bound;
    ch.storm = storm;
    do {
        ch.start();
        terminal t;
        t.in = inputs[input];
        std::string late;
#ifdef VP_WINDOWS
        win::code_page = 437;
#endif
        {
            cmp::stdout_resource ro{standard_output, cap}, re{standard_error, cap};
            cmp::stdin_resource ri{cap};
            ri.tie(ro);
            attached a(t, &ch);
            {
                cmp::stdin_stream in{ri};
                cmp::stdout_stream out{ro}, err{re};
                history(t, in, out, err, ops, "capacity " + std::to_string(cap) + ", input " + std::to_string(input) + ", faults " + ch.show() + ":");
                late = "tail";
                out << late;
                t.want_out += late;
            }
            VP_CHECK(t.out[1] == t.want_out, "what was written last isn't out when the stream is gone");
        }
        vp::outcome("schedules");
    } while (ch.advance());
}

#ifdef VP_WINDOWS
// Input that doesn't come from the console cannot be read: nothing is made up.
static void
redirected (
    std::size_t cap,
    const std::vector<unsigned>& ops
) {
    terminal t;
    t.in = "abc";
    std::string trace = "capacity " + std::to_string(cap) + ", redirected:";
    cmp::stdout_resource ro{standard_output, cap};
    cmp::stdin_resource ri{cap};
    ri.tie(ro);
    attached a(t, nullptr, true);
    cmp::stdin_stream in{ri};
    cmp::stdout_stream out{ro};
    t.enough = ~std::size_t(0);
    for (unsigned o : ops) {
        t.reading = o < 3;
        bool thrown = false;
        std::u8string got;
        char32_t c = 0x5A5A;
        try {
            switch (o) {
            case 0: in >> c; break;
            case 1: in.read_line(got); break;
            case 2: in >> got; break;
            case 3: out << "x"; t.want_out += "x"; break;
            }
        } catch (const cmp::read_past_end&) { thrown = true; }
        VP_CHECK(thrown == t.reading && c == 0x5A5A, trace, " something was read");
        VP_CHECK(t.problem.empty(), trace, ": ", t.problem);
        if (thrown) VP_CHECK(t.out[1] == t.want_out, trace, " output withheld while reading");
        vp::outcome(thrown ? "input refused" : "output");
        vp::step(vp::mix(o, t.reads));
    }
}
#else
// Transfers that fail outright: nothing is repeated or made up, the other
// streams don't notice, and what is written or asked for afterwards works.
static const char* fail_names[] = {"out 1", "out 3", "out 20", "out flush", "err 2", "err flush", "in code point"};

static void
failing (
    std::size_t cap,
    unsigned bound,
    const std::vector<unsigned>& ops
) {
    chooser ch;
    ch.bound = bound;
    do {
        ch.start();
        terminal t;
        t.in = "abcdefgh";
        for (auto& f : failures) f = 0;
        failing_calls = true;
        struct off { ~off () { failing_calls = false; } } turn_off;
        std::string trace = "capacity " + std::to_string(cap) + ", faults " + ch.show() + ":";
        std::string all[3], since[3]; // everything written; what was after the last failure
        std::size_t consumed = 0;
        char next = '0';
        {
            cmp::stdout_resource ro{standard_output, cap}, re{standard_error, cap};
            cmp::stdin_resource ri{cap};
            ri.tie(ro);
            attached a(t, &ch);
            {
                cmp::stdin_stream in{ri};
                cmp::stdout_stream out{ro}, err{re};
                for (unsigned o : ops) {
                    trace += std::string(" ") + fail_names[o];
                    const unsigned before[3] = {failures[0], failures[1], failures[2]};
                    std::string text;
                    int fd = o <= 3 ? 1 : o <= 5 ? 2 : 0;
                    for (int n = o == 0 ? 1 : o == 1 ? 3 : o == 2 ? 20 : o == 4 ? 2 : 0; n; --n) text += next++;
                    t.reading = o == 6;
                    t.enough = ~std::size_t(0);
                    if (fd) { all[fd] += text; since[fd] += text; }
                    switch (o) {
                    case 0: case 1: case 2: out << text; break;
                    case 3: out.flush(); break;
                    case 4: err << text; break;
                    case 5: err.flush(); break;
                    case 6: {
                        t.want_out = t.out[1]; // not judged here
                        char32_t c = 0x5A5A;
                        bool thrown = false;
                        t.problem = "-";
                        try { in >> c; } catch (const cmp::read_past_end&) { thrown = true; }
                        t.problem.clear();
                        if (thrown) VP_CHECK(failures[0] != before[0], trace, ": refused");
                        if (!thrown) VP_CHECK(c == char32_t(t.in[consumed++]), trace, ": ", unsigned(c));
                        else VP_CHECK(c == 0x5A5A, trace);
                        vp::outcome(thrown ? "input failed" : "input read");
                        break;
                    }
                    }
                    for (int k = 1; k < 3; ++k) {
                        if (failures[k] != before[k]) { since[k].clear(); vp::outcome("output failed"); }
                        // Each byte is out at most once and in order.
                        std::size_t at = 0;
                        for (char x : t.out[k]) {
                            at = all[k].find(x, at);
                            VP_CHECK(at != std::string::npos, trace, ": '", t.out[k], "' from '", all[k], "'");
                            ++at;
                        }
                        if (!failures[k]) VP_CHECK(all[k].compare(0, t.out[k].size(), t.out[k]) == 0, trace, ": '", t.out[k], "' from '", all[k], "'");
                    }
                    vp::step(vp::mix(vp::mix(consumed, t.in_at), vp::hash_bytes(t.out[1].data(), t.out[1].size(), t.out[2].size() * 64 + all[1].size())));
                }
                t.reading = false;
                failing_calls = false;
                ch.bound = 0;
                out << "yz";
                since[1] += "yz";
                all[1] += "yz";
                out.flush();
                err.flush();
                ch.bound = bound;
            }
        }
        for (int k = 1; k < 3; ++k) {
            if (!failures[k]) VP_CHECK(t.out[k] == all[k], trace, ": '", t.out[k], "' not '", all[k], "'");
            VP_CHECK(t.out[k].size() >= since[k].size() && t.out[k].compare(t.out[k].size() - since[k].size(), since[k].size(), since[k]) == 0, trace, ": '", t.out[k], "' doesn't end with '", since[k], "'");
        }
        vp::outcome("schedules");
    } while (ch.advance());
}

#endif

// Long output and long lines, through buffers of every kind of capacity.
static void
size_case (
    std::size_t cap,
    std::size_t n,
    unsigned bound
) {
    chooser ch;
    ch.bound = bound;
    std::string a(n, 'a'), b;
    for (std::size_t k = 0; k < n; ++k) b += char('b' + k % 23);
    do {
        ch.start();
        std::string trace = "capacity " + std::to_string(cap) + ", length " + std::to_string(n) + ", faults " + ch.show() + ":";
        terminal t;
        t.in = a + "\n" + b + " end\n";
        {
            cmp::stdout_resource ro{standard_output, cap}, re{standard_error, cap};
            cmp::stdin_resource ri{cap};
            ri.tie(ro);
            attached at(t, &ch);
            {
                cmp::stdin_stream in{ri};
                cmp::stdout_stream out{ro}, err{re};
                out << "?" << b;
                t.want_out = "?" + b;
                VP_CHECK(t.want_out.compare(0, t.out[1].size(), t.out[1]) == 0, trace, " out of order");
                t.reading = true;
                std::u8string got;
                t.enough = n + 1;
                in.read_line(got);
                VP_CHECK(std::string(got.begin(), got.end()) == a, trace, " another line of ", got.size(), " units");
                err << b;
                out << a;
                t.want_out += a;
                t.enough = 2 * n + 2;
                in >> got;
                VP_CHECK(std::string(got.begin(), got.end()) == b, trace, " another word of ", got.size(), " units");
                VP_CHECK(t.problem.empty(), trace, " ", t.problem.substr(0, 100));
                VP_CHECK(t.out[1] == t.want_out, trace, " output withheld while reading");
                err.flush();
                VP_CHECK(t.out[2] == b, trace, " other errors");
                out << b;
                t.want_out += b;
            }
            VP_CHECK(t.out[1] == t.want_out, trace, " what was written last isn't out when the stream is gone");
        }
        vp::outcome("schedules");
    } while (ch.advance());
    vp::step(vp::mix(cap, n));
}

static void
global (
    unsigned input,
    const std::vector<unsigned>& ops
) {
    {
        // Whatever an earlier case left: see the end of the input with nothing buffered.
        terminal t;
        t.reading = true;
        t.enough = ~std::size_t(0);
        attached a(t, nullptr);
        cmp::uout.flush();
        cmp::uerr.flush();
        t.want_out = t.out[1];
        for (int k = 0; k < 5000; ++k) {
            char32_t c;
            try { cmp::uin >> c; } catch (const cmp::read_past_end&) { break; }
        }
    }
    terminal t;
    t.in = inputs[input];
    attached a(t, nullptr);
    history(t, cmp::uin, cmp::uout, cmp::uerr, ops, "the global streams, input " + std::to_string(input) + ":");
}

// What is written is out when the program ends normally.
static void
at_exit (
    std::size_t n,
    bool error
) {
    int p[2];
    if (::pipe(p) != 0) throw vp::fail{"no pipe"};
    pid_t child = ::fork();
    if (child == 0) {
#ifdef VP_WINDOWS
        static win::console_state c;
        static int to = p[1], wanted = error ? 2 : 1;
        c.on_write = [] (int i, const void* data, DWORD n) -> DWORD { return i == wanted ? ::write(to, data, n) : n; };
        win::console = &c;
#else
        ::dup2(p[1], error ? 2 : 1);
        ::close(p[1]);
#endif
        ::close(p[0]);
        std::string s(n, 'e');
        if (error) cmp::uerr << s; else cmp::uout << s;
        std::exit(0);
    }
    ::close(p[1]);
    std::string got;
    char buf[4096];
    ssize_t k;
    while ((k = ::read(p[0], buf, sizeof buf)) > 0) got.append(buf, k);
    ::close(p[0]);
    int status;
    ::waitpid(child, &status, 0);
    VP_CHECK(got == std::string(n, 'e'), n, " bytes written, ", got.size(), " out at exit");
    vp::outcome("exits");
    vp::step(vp::mix(n, error));
}

static void
setup (
    const std::string&,
    bool thorough
) {
    const unsigned depth = thorough ? 6 : 5;
    auto names = [] (const std::vector<unsigned>& ops) { std::string s; for (unsigned o : ops) s += std::string(" ") + op_names[o]; return s; };
    static const std::size_t caps[] = {0, 2, 16};
    auto decode = [] (vp::digits& d, unsigned depth) { std::vector<unsigned> ops; for (unsigned k = 0; k < depth; ++k) ops.push_back(d.next(op_count)); return ops; };
#ifdef VP_WINDOWS
    static const std::size_t win_caps[] = {0, 2, 3, 5, 16, 1024};
    vp::add_space("console", "all " + std::to_string(depth - 1) + "-operation histories over 9 operations of the three streams, 8 inputs, 6 buffer capacities",
        vp::ipow(op_count, depth - 1) * 48,
        [=] (u64 i) { vp::digits d{i}; std::size_t cap = win_caps[d.next(6)]; unsigned in = d.next(8); fresh(cap, in, 0, decode(d, depth - 1)); },
        [=] (u64 i) { vp::digits d{i}; std::size_t cap = win_caps[d.next(6)]; unsigned in = d.next(8); return "capacity " + std::to_string(cap) + ", input " + std::to_string(in) + ":" + names(decode(d, depth - 1)); });
    vp::add_space("no console", "all 6-operation histories over 4 operations with input that doesn't come from the console, 6 buffer capacities", vp::ipow(4, 6) * 6,
        [=] (u64 i) { vp::digits d{i / 6}; std::vector<unsigned> ops; for (unsigned k = 0; k < 6; ++k) ops.push_back(d.next(4)); redirected(win_caps[i % 6], ops); });
    static const std::size_t win_size_caps[] = {0, 2, 16, 256, 1024, 4096, 65534, 65536, 65538};
    vp::add_space("sizes", "output, lines and words of every length 2^k-1, 2^k, 2^k+1 to 2^16, 9 buffer capacities to 65538", vp::sizes().size() * 9,
        [] (u64 i) { size_case(win_size_caps[i % 9], vp::sizes()[i / 9], 0); },
        [] (u64 i) { return "capacity " + std::to_string(win_size_caps[i % 9]) + ", length " + std::to_string(vp::sizes()[i / 9]); });
#elif !defined VP_GLOBAL_ONLY
    vp::add_space("fresh streams", "all " + std::to_string(depth) + "-operation histories over 9 operations of the three streams, 6 inputs, 3 buffer capacities, every placement of up to 1 interrupted or partial transfer",
        vp::ipow(op_count, depth) * 18,
        [=] (u64 i) { vp::digits d{i}; std::size_t cap = caps[d.next(3)]; unsigned in = d.next(6); fresh(cap, in, 1, decode(d, depth)); },
        [=] (u64 i) { vp::digits d{i}; std::size_t cap = caps[d.next(3)]; unsigned in = d.next(6); return "capacity " + std::to_string(cap) + ", input " + std::to_string(in) + ":" + names(decode(d, depth)); });
    vp::add_space("two faults", "all 3-operation histories, every placement of up to 2 interrupted or partial transfers", vp::ipow(op_count, 3) * 18,
        [=] (u64 i) { vp::digits d{i}; std::size_t cap = caps[d.next(3)]; unsigned in = d.next(6); fresh(cap, in, 2, decode(d, 3)); },
        [=] (u64 i) { vp::digits d{i}; std::size_t cap = caps[d.next(3)]; unsigned in = d.next(6); return "capacity " + std::to_string(cap) + ", input " + std::to_string(in) + ":" + names(decode(d, 3)); });
    vp::add_space("storms", "all 3-operation histories with every transfer interrupted 1 to 100 times or cut to one byte, half or all but one byte", vp::ipow(op_count, 3) * 18 * chooser::storms,
        [=] (u64 i) { vp::digits d{i}; unsigned storm = 1 + d.next(chooser::storms); std::size_t cap = caps[d.next(3)]; unsigned in = d.next(6); fresh(cap, in, 0, decode(d, 3), storm); },
        [=] (u64 i) { vp::digits d{i}; unsigned storm = 1 + d.next(chooser::storms); std::size_t cap = caps[d.next(3)]; unsigned in = d.next(6); return "storm " + std::to_string(storm) + ", capacity " + std::to_string(cap) + ", input " + std::to_string(in) + ":" + names(decode(d, 3)); });
    const unsigned fail_depth = thorough ? 5 : 4;
    auto fail_ops = [=] (u64 v) { vp::digits d{v}; std::vector<unsigned> ops; for (unsigned k = 0; k < fail_depth; ++k) ops.push_back(d.next(7)); return ops; };
    vp::add_space("failures", "all " + std::to_string(fail_depth) + "-operation histories over 7 operations, every placement of up to 2 transfers that fail outright, are interrupted or cut short, 4 buffer capacities",
        vp::ipow(7, fail_depth) * 4,
        [=] (u64 i) { static const std::size_t c[] = {0, 2, 4, 16}; failing(c[i % 4], 2, fail_ops(i / 4)); },
        [=] (u64 i) { std::string s = "capacity case " + std::to_string(i % 4) + ":"; for (unsigned o : fail_ops(i / 4)) s += std::string(" ") + fail_names[o]; return s; });
    static const std::size_t size_caps[] = {0, 1, 16, 255, 256, 1024, 4096, 65535, 65536, 65537};
    vp::add_space("sizes", "output, lines and words of every length 2^k-1, 2^k, 2^k+1 to 2^16, 10 buffer capacities to 65537, every placement of up to 1 interrupted or partial transfer where the buffer is large enough for few transfers", vp::sizes().size() * 10,
        [] (u64 i) { std::size_t c = size_caps[i % 10], n = vp::sizes()[i / 10]; size_case(c, n, n / (c ? c : 1) <= 16 ? 1 : 0); },
        [] (u64 i) { return "capacity " + std::to_string(size_caps[i % 10]) + ", length " + std::to_string(vp::sizes()[i / 10]); });
#endif
    vp::add_space("global streams", "all " + std::to_string(depth) + "-operation histories of the program's own standard streams, " + std::to_string(input_count) + " inputs", vp::ipow(op_count, depth) * input_count,
        [=] (u64 i) { vp::digits d{i}; unsigned in = d.next(input_count); global(in, decode(d, depth)); },
        [=] (u64 i) { vp::digits d{i}; unsigned in = d.next(input_count); return "input " + std::to_string(in) + ":" + names(decode(d, depth)); });
    vp::add_space("exit", "0, 1, 1023, 1024, 1025 and 5000 bytes written to either output before the program ends", 12,
        [] (u64 i) { static const std::size_t n[] = {0, 1, 1023, 1024, 1025, 5000}; at_exit(n[i / 2], i % 2); });
}

int
main (
    int argc,
    char** argv
) {
    return vp::main_(argc, argv, setup);
}
