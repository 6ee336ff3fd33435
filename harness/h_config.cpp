// C01: buffer capacities chosen when building. VP_D, VP_O, VP_E and VP_I are the
// capacities that have to be in effect: by default, and for the standard
// output, error and input.
#include <utility>
#ifdef VP_WINDOWS
#include <Windows.h>
#endif
#include <cmp/io/file.hpp>
#include <cmp/io/uio.hpp>

#include <cstdlib>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

#include "vp.hpp"

using vp::u64;

// What passes between the program and descriptors 0, 1, 2 or a file.
struct channel {
    std::string out;
    std::string in;
    std::size_t in_at = 0;
    std::vector<std::size_t> asked;

    std::size_t
    ask (
        void* data,
        std::size_t n
    ) {
        asked.push_back(n);
        std::size_t k = std::min(n, in.size() - in_at);
        std::memcpy(data, in.data() + in_at, k);
        in_at += k;
        return k;
    }
};
static channel* ends[3] = {nullptr, nullptr, nullptr};
static channel* disk = nullptr;

#ifndef VP_WINDOWS
extern "C" {
ssize_t __real_read (int, void*, size_t);
ssize_t __real_write (int, const void*, size_t);

ssize_t
__wrap_read (
    int fd,
    void* data,
    size_t n
) {
    if (fd == 0 && ends[0]) return ends[0]->ask(data, n);
    if (disk && fd > 2) disk->asked.push_back(n);
    return __real_read(fd, data, n);
}

ssize_t
__wrap_write (
    int fd,
    const void* data,
    size_t n
) {
    if ((fd == 1 || fd == 2) && ends[fd]) {
        ends[fd]->out.append(static_cast<const char*>(data), n);
        return n;
    }
    if (disk && fd > 2) disk->out.append(static_cast<const char*>(data), n);
    return __real_write(fd, data, n);
}
}
#endif

struct attached {
    channel c[3];
#ifdef VP_WINDOWS
    win::console_state s;
#endif
    attached ()
    {
        for (int k = 0; k < 3; ++k) ends[k] = c + k;
#ifdef VP_WINDOWS
        s.on_write = [this] (int i, const void* data, DWORD n) { c[i].out.append(static_cast<const char*>(data), n); return n; };
        win::console = &s;
#endif
    }
    ~attached ()
    {
        for (auto& e : ends) e = nullptr;
#ifdef VP_WINDOWS
        win::console = nullptr;
#endif
    }
};

// What is written through a buffer: held back up to its capacity, and held back
// as long as there is room.
struct writer {
    std::size_t cap;
    std::string name;
    std::string want, before;
    char next = 'a';

    std::string
    text (
        std::size_t n
    ) {
        std::string s;
        for (; n; --n) { s += next; next = next == 'z' ? 'a' : next + 1; }
        return s;
    }
    void
    wrote (
        const std::string& s,
        const std::string& out,
        const std::string& trace
    ) {
        const std::size_t held = want.size() - before.size();
        want += s;
        VP_CHECK(want.compare(0, out.size(), out) == 0, trace, ": ", name, " got '", out, "' not '", want, "'");
        VP_CHECK(want.size() - out.size() <= cap, trace, ": ", name, " lacks ", want.size() - out.size(), " bytes with a capacity of ", cap);
        if (held + s.size() < cap) VP_CHECK(out == before, trace, ": ", name, " got something while there was room for ", cap, " bytes");
        vp::outcome(out == before ? "held back" : "passed on");
        before = out;
    }
    void
    flushed (
        const std::string& out,
        const std::string& trace
    ) {
        VP_CHECK(out == want, trace, ": ", name, " got '", out, "' not '", want, "'");
        before = out;
    }
};

static std::size_t
length (
    unsigned l,
    std::size_t cap
) {
    return l == 0 ? 1 : l == 1 ? 3 : l == 2 ? cap : cap + 2;
}

static const unsigned std_ops = 12;

static void
standard (
    const std::vector<unsigned>& ops
) {
    {
        attached a;
        cmp::uout.flush();
        cmp::uerr.flush();
#ifndef VP_WINDOWS
        for (int k = 0; k < 9000; ++k) {
            char32_t c;
            try { cmp::uin >> c; } catch (const cmp::read_past_end&) { break; }
        }
#endif
    }
    attached a;
    for (std::size_t k = 0; k < 6 * (VP_I + 1); ++k) a.c[0].in += char('a' + k % 26);
    writer w[2] = {{VP_O, "the standard output"}, {VP_E, "the standard error output"}};
    std::size_t consumed = 0;
    std::string trace = "standard streams:";
    for (unsigned o : ops) {
        if (o < 8) {
            const unsigned k = o / 4;
            const std::string s = w[k].text(length(o % 4, w[k].cap));
            trace += (k ? " err " : " out ") + std::to_string(s.size());
            if (k) cmp::uerr << s; else cmp::uout << s;
            w[k].wrote(s, a.c[k + 1].out, trace);
        } else if (o < 10) {
            trace += o == 8 ? " out flush" : " err flush";
            if (o == 8) cmp::uout.flush(); else cmp::uerr.flush();
            w[o - 8].flushed(a.c[o - 7].out, trace);
        } else {
#ifndef VP_WINDOWS
            for (std::size_t n = o == 10 ? 1 : VP_I + 1; n; --n) {
                trace += " in";
                const std::size_t had = a.c[0].in_at;
                a.c[0].asked.clear();
                char32_t c = 0;
                cmp::uin >> c;
                VP_CHECK(c == char32_t(a.c[0].in[consumed]), trace, ": ", unsigned(c));
                ++consumed;
                if (had >= consumed) VP_CHECK(a.c[0].asked.empty(), trace, ": asked for although it was there");
                for (std::size_t n : a.c[0].asked) VP_CHECK(n == std::max<std::size_t>(VP_I, 1), trace, ": asked for ", n, " bytes with a capacity of ", VP_I);
                if (n > 8) trace.resize(trace.size() - 3);
            }
            w[0].flushed(a.c[1].out, trace);
            vp::outcome("read");
#endif
        }
        vp::step(vp::mix(vp::mix(consumed, a.c[0].in_at), vp::mix(w[0].want.size() * 8192 + a.c[1].out.size(), w[1].want.size() * 8192 + a.c[2].out.size())));
    }
}

// A resource of the program's own with the default buffer.
struct sink : cmp::output_resource {
    std::string got;
    bool is_at_end () const noexcept override { return false; }
    std::size_t
    write_raw (
        const std::byte* data,
        std::size_t n
    ) override
    {
        got.append(reinterpret_cast<const char*>(data), n);
        return n;
    }
};

struct source : cmp::input_resource {
    channel c;
    bool is_at_end () const noexcept override { return c.in_at == c.in.size(); }
    std::size_t read_raw (std::byte* data, std::size_t n, cmp::read_request) override { return c.ask(data, n); }
};

static void
own (
    const std::vector<unsigned>& ops
) {
    sink s;
    source r;
    for (std::size_t k = 0; k < 8 * (VP_D + 3); ++k) r.c.in += char('a' + k % 26);
    writer w{VP_D, "the sink"};
    std::size_t consumed = 0;
    std::string trace = "own resources:";
    for (unsigned o : ops) {
        if (o < 4) {
            const std::string t = w.text(length(o, VP_D));
            trace += " write " + std::to_string(t.size());
            s.write(reinterpret_cast<const std::byte*>(t.data()), t.size());
            w.wrote(t, s.got, trace);
        } else if (o == 4) {
            trace += " flush";
            s.flush();
            w.flushed(s.got, trace);
        } else {
            const std::size_t n = o == 5 ? 1 : o == 6 ? VP_D : VP_D + 2, had = r.c.in_at;
            trace += " read " + std::to_string(n);
            std::string got(n, '?');
            r.c.asked.clear();
            VP_CHECK(r.read(reinterpret_cast<std::byte*>(got.data()), n) == n, trace);
            VP_CHECK(r.c.in.compare(consumed, n, got) == 0, trace, ": '", got, "'");
            consumed += n;
            if (had >= consumed) VP_CHECK(r.c.asked.empty(), trace, ": asked for although it was there");
            for (std::size_t k : r.c.asked) VP_CHECK(k <= std::max<std::size_t>(VP_D, n), trace, ": asked for ", k, " bytes with a capacity of ", VP_D);
            if (o == 5 && had < consumed) VP_CHECK(r.c.asked.size() == 1 && r.c.asked[0] == std::max<std::size_t>(VP_D, 1), trace, ": asked for ", r.c.asked[0], " bytes with a capacity of ", VP_D);
            vp::outcome("read");
        }
        vp::step(vp::mix(vp::mix(consumed, r.c.in_at), w.want.size() * 8192 + s.got.size()));
    }
}

#ifndef VP_WINDOWS
// A file that is opened as it's made, or later, with the default buffer.
static void
files (
    bool later,
    const std::vector<unsigned>& ops
) {
    static const char* const path = "f";
    channel c;
    {
        cmp::file f;
        if (later) f.open(path, cmp::write_only, cmp::if_not_there::create); else f = cmp::file(path, cmp::write_only, cmp::if_not_there::create);
        VP_CHECK(f.is_open(), "not open");
        writer w{VP_D, "the file"};
        std::string trace = later ? "file opened later:" : "file:";
        disk = &c;
        struct off { ~off () { disk = nullptr; } } turn_off;
        for (unsigned o : ops) {
            if (o < 4) {
                const std::string t = w.text(length(o, VP_D));
                trace += " write " + std::to_string(t.size());
                f.write(reinterpret_cast<const std::byte*>(t.data()), t.size());
                w.wrote(t, c.out, trace);
            } else {
                trace += " flush";
                f.flush();
                w.flushed(c.out, trace);
            }
            vp::step(vp::mix(later, w.want.size() * 8192 + c.out.size()));
        }
        f.close();
        w.flushed(c.out, trace + " close");
    }
    ::unlink(path);
}
#endif

// The buffer itself.
static void
buffer (
    std::size_t cap,
    const std::vector<unsigned>& ops
) {
    cmp::io_buffer b{cap};
    if (cap == VP_D) b = cmp::io_buffer{};
    std::string m(cap, '\0');
    std::size_t size = 0, at = 0;
    bool rd = b.is_read_dirty(), wd = b.is_write_dirty();
    VP_CHECK(b.get_size() == 0 && b.get_position() == 0 && !wd && rd, "a new buffer isn't empty");
    std::memset(b.get_data_ptr(), 0, cap);
    std::string trace = "buffer of " + std::to_string(cap) + ":";
    char next = 'a';
    for (unsigned o : ops) {
        switch (o) {
        case 0: case 1: case 2: {
            const std::size_t n = std::min<std::size_t>(o + 1, cap - at);
            trace += " write " + std::to_string(n);
            std::string t;
            for (std::size_t k = 0; k < n; ++k) t += next++;
            VP_CHECK(b.write(reinterpret_cast<const std::byte*>(t.data()), n) == n, trace);
            m.replace(at, n, t);
            at += n;
            wd = true;
            break;
        }
        case 3: case 4: case 5: {
            if (at > size) continue; // nothing there to read
            const std::size_t n = o == 5 ? cap + 1 : o - 2, want = std::min(n, size - at);
            trace += " read " + std::to_string(n);
            std::string t(n, '?');
            const std::size_t k = b.read(reinterpret_cast<std::byte*>(t.data()), n);
            VP_CHECK(k == want, trace, ": ", k, " bytes");
            VP_CHECK(t == m.substr(at, want) + std::string(n - want, '?'), trace, ": '", t, "'");
            at += want;
            vp::outcome(want < n ? "read less" : "read");
            break;
        }
        case 6: trace += " size = capacity"; b.set_size(size = cap); break;
        case 7: trace += " size = position"; b.set_size(size = at); break;
        case 8: trace += " position = 0"; b.set_position(at = 0); break;
        case 9: trace += " position = 1"; b.set_position(at = std::min<std::size_t>(1, cap)); break;
        case 10: trace += " read-dirty"; b.set_read_dirty(rd = !rd); b.set_position(at); break;
        case 11: trace += " write-dirty"; b.set_write_dirty(wd = !wd); b.set_position(at); break;
        case 12: { trace += " copied"; cmp::io_buffer c{b}; std::memset(b.get_data_ptr(), 'X', cap); b.set_position(0); b.set_size(0); b = c; break; }
        case 13: { trace += " moved"; cmp::io_buffer c{std::move(b)}; b = cmp::io_buffer{cap + 1}; b = std::move(c); break; }
        }
        VP_CHECK(b.get_capacity() == cap, trace, ": capacity ", b.get_capacity());
        VP_CHECK(b.get_size() == size && b.get_position() == at, trace, ": size ", b.get_size(), " and position ", b.get_position(), " not ", size, " and ", at);
        VP_CHECK(b.is_read_dirty() == rd && b.is_write_dirty() == wd, trace, ": dirty?");
        VP_CHECK(cap == 0 || std::memcmp(b.get_data_ptr(), m.data(), cap) == 0, trace, ": other content");
        vp::step(vp::mix(vp::hash_bytes(m.data(), m.size()), size * 64 + at * 4 + rd * 2 + wd));
    }
}

static void
setup (
    const std::string&,
    bool thorough
) {
    const unsigned depth = thorough ? 5 : 4;
    auto decode = [] (u64 i, unsigned ops, unsigned depth) { vp::digits d{i}; std::vector<unsigned> v; for (unsigned k = 0; k < depth; ++k) v.push_back(d.next(ops)); return v; };
    const std::string with = " with capacities " + std::to_string(VP_D) + ", " + std::to_string(VP_O) + ", " + std::to_string(VP_E) + ", " + std::to_string(VP_I);
    vp::add_space("standard streams", "all " + std::to_string(depth) + "-operation histories over 12 operations of the global streams" + with, vp::ipow(std_ops, depth),
        [=] (u64 i) { standard(decode(i, std_ops, depth)); });
    vp::add_space("own resources", "all " + std::to_string(depth) + "-operation histories over 8 operations" + with, vp::ipow(8, depth),
        [=] (u64 i) { own(decode(i, 8, depth)); });
#ifndef VP_WINDOWS
    vp::add_space("files", "all " + std::to_string(depth) + "-operation histories over 5 operations of a file, opened at once or later," + with, vp::ipow(5, depth) * 2,
        [=] (u64 i) { files(i % 2, decode(i / 2, 5, depth)); });
#endif
#ifdef VP_BUFFER
    vp::add_space("buffers", "all " + std::to_string(depth) + "-operation histories over 14 operations of a buffer of 0 to 5 bytes", vp::ipow(14, depth) * 6,
        [=] (u64 i) { buffer(i % 6, decode(i / 6, 14, depth)); });
#endif
}

int
main (
    int argc,
    char** argv
) {
    return vp::main_(argc, argv, setup);
}
