// R02 to R05: files; and W01: the same on a stand-in for Windows, with smaller bounds.
#include <utility>
#ifdef VP_WINDOWS
#include <Windows.h>
#endif
#include <cmp/io/file.hpp>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>

#include "resource_runner.hpp"
#include "syscalls.hpp"

using cmp::access_mode;
using cmp::if_not_there;

static const char* const path_name = "f";

// The file as the rest of the system sees it.
struct disk {
    std::string name;
    int fd = -1;
    explicit disk (const char* n) : name(n) {}
    void
    reset (
        const bytes& b
    ) {
        if (fd == -1) fd = ::open(name.c_str(), O_RDWR | O_CREAT, 0600);
        if (::ftruncate(fd, 0) != 0) throw vp::fail{"cannot prepare the file"};
        if (!b.empty() && ::pwrite(fd, b.data(), b.size(), 0) != ssize_t(b.size())) throw vp::fail{"cannot prepare the file"};
    }
    bytes
    content () const
    {
        struct stat s;
        ::fstat(fd, &s);
        bytes b(s.st_size);
        if (!b.empty()) (void)!::pread(fd, b.data(), b.size(), 0);
        return b;
    }
};

static disk the_disk{path_name};

struct file_device : device {
    cmp::file& r;
    explicit file_device (cmp::file& x) : r(x) {}
    std::size_t read (std::byte* d, std::size_t n) override { return r.read(d, n); }
    std::size_t write (const std::byte* d, std::size_t n) override { return r.write(d, n); }
    void flush () override { r.flush(); }
    void
    seek (
        std::int64_t o,
        int ref
    ) override {
        r.set_position(o, ref == 0 ? cmp::position_reference::begin : ref == 1 ? cmp::position_reference::current : cmp::position_reference::end);
    }
    void back (std::int64_t n) override { r.go_back(n); }
    void forward (std::int64_t n) override { r.go_forward(n); }
    std::int64_t pos () override { return std::as_const(r).get_position(); }
    bool at_end () override { return std::as_const(r).is_at_end(); }
    bytes content () override { return the_disk.content(); }
    bytes const_content () override { return the_disk.content(); }
};

static const access_mode modes[] = {cmp::read_only, cmp::write_only, cmp::read_and_write};
static const char* mode_names[] = {"read-only", "write-only", "read-write"};

static bytes
filled (
    std::size_t n
) {
    bytes b;
    for (std::size_t i = 0; i < n; ++i) b.push_back((i * 37 + 11) % 251);
    return b;
}

static std::string
show_ops (
    const std::vector<op>& ops
) {
    std::string s;
    for (auto& o : ops) s += " " + bm::name(o);
    return s;
}

struct on_disk {
    on_disk () { sys::active = true; }
    ~on_disk () { sys::active = false; sys::choices = nullptr; sys::crash_point = nullptr; sys::fault_reads = sys::fault_writes = sys::hard_reads = sys::hard_writes = false; }
};

// ------------------------------------------------------------------------ R02
static void
r02_run (
    int side,
    std::size_t cap,
    std::size_t size,
    const std::vector<op>& ops
) {
    const bytes b = filled(size);
    the_disk.reset(b);
    std::string trace = std::string(mode_names[side]) + " file of " + std::to_string(size) + ", capacity " + std::to_string(cap) + ":";
    bytes final_content;
    {
        std::unique_ptr<cmp::file> f(cap == cmp::io_buffer::default_buffer_capacity
            ? new cmp::file(path_name, modes[side], if_not_there::fail)
            : new cmp::file(path_name, modes[side], if_not_there::fail, cap));
        if (!f->is_open()) throw vp::fail{trace + " not open"};
        file_device d(*f);
        runner run{d, {b, 0, 1}, side, cap == 0};
        run.trace = trace;
        run.observe();
        for (const op& o : ops) run.apply(o);
        final_content = run.m.content;
        trace = run.trace;
        if (ops.size() & 1) { f->close(); trace += " close()"; if (f->is_open()) throw vp::fail{trace + ": still open"}; }
    }
    if (the_disk.content() != final_content) throw vp::fail{trace + " closed: content " + vp::show(the_disk.content()) + " not " + vp::show(final_content)};
}

static void
r02_space (
    const std::string& label,
    int side,
    unsigned depth,
    std::vector<std::size_t> caps,
    std::vector<std::size_t> sizes,
    std::vector<op> al
) {
    auto decode = [=] (u64 i, std::size_t& cap, std::size_t& size, std::vector<op>& ops) {
        vp::digits d{i};
        cap = caps[d.next(caps.size())];
        size = sizes[d.next(sizes.size())];
        for (unsigned k = 0; k < depth; ++k) ops.push_back(al[d.next(al.size())]);
    };
    vp::add_space(std::string(mode_names[side]) + " " + label + " " + std::to_string(depth),
        "all " + std::to_string(depth) + "-operation histories over " + std::to_string(al.size()) + " operations, " + std::to_string(caps.size())
        + " buffer capacities, " + std::to_string(sizes.size()) + " initial sizes", caps.size() * sizes.size() * vp::ipow(al.size(), depth),
        [=] (u64 i) { std::size_t c, s; std::vector<op> o; decode(i, c, s, o); r02_run(side, c, s, o); },
        [=] (u64 i) { std::size_t c, s; std::vector<op> o; decode(i, c, s, o);
            return std::string(mode_names[side]) + " file of " + std::to_string(s) + ", capacity " + std::to_string(c) + ":" + show_ops(o); });
}

static std::vector<op>
big_alphabet (
    int side
) {
    using namespace bm;
    std::vector<op> a;
    if (side != 1) for (std::int64_t n : {1, 1023, 1024, 1025, 2049}) a.push_back({op_read, n, 0});
    if (side != 0) for (std::int64_t n : {1, 1023, 1024, 1025, 2049}) a.push_back({op_write, n, 0});
    a.push_back({op_seek, 0, 0});
    a.push_back({op_seek, 1024, 0});
    a.push_back({op_seek, -1, 1});
    a.push_back({op_seek, 1000, 1});
    a.push_back({op_seek, -1025, 2});
    return a;
}

static void
r02_sizes (
    int side,
    unsigned depth
) {
    const std::size_t letters = size_alphabet(side, 16).size();
    auto decode = [=] (u64 i, std::size_t& cap, std::size_t& size, std::vector<op>& ops) {
        vp::digits d{i};
        cap = content_caps[d.next(content_cap_count)];
        size = content_sizes[d.next(content_size_count)];
        auto al = size_alphabet(side, size);
        for (unsigned k = 0; k < depth; ++k) ops.push_back(al[d.next(letters)]);
        if (side != 1) { ops.push_back({bm::op_seek, 1, 0}); ops.push_back({bm::op_read, std::int64_t(size) * 3, 0}); }
    };
    vp::add_space(std::string(mode_names[side]) + " sizes", "files of 16..65538 bytes around the powers of two, buffer capacities 0, 3, 255, 257, 1024, 65535, 65537, all "
        + std::to_string(depth) + "-operation histories over " + std::to_string(letters) + " operations of that size",
        content_cap_count * content_size_count * vp::ipow(letters, depth),
        [=] (u64 i) { std::size_t c, s; std::vector<op> o; decode(i, c, s, o); r02_run(side, c, s, o); },
        [=] (u64 i) { std::size_t c, s; std::vector<op> o; decode(i, c, s, o);
            return std::string(mode_names[side]) + " file of " + std::to_string(s) + ", capacity " + std::to_string(c) + ":" + show_ops(o); });
}

// Far into a sparse file.
static void
r02_far (
    std::size_t cap,
    unsigned power,
    int by
) {
    const std::int64_t far = (std::int64_t(1) << power) + by;
    the_disk.reset(filled(5));
    std::string trace = "capacity " + std::to_string(cap) + ", position " + std::to_string(far);
    const std::byte data[] = {std::byte{0x51}, std::byte{0x52}, std::byte{0x53}, std::byte{0x54}};
    auto expect = [&] (std::int64_t got, std::int64_t want, const char* what) {
        VP_CHECK(got == want, trace, ": ", what, " is ", got, " not ", want);
        vp::step(vp::mix(want, cap));
    };
    {
        cmp::file f(path_name, cmp::read_and_write, if_not_there::fail, cap);
        f.set_position(far, cmp::position_reference::begin);
        expect(f.get_position(), far, "position after moving there");
        expect(f.is_at_end(), true, "the end test there");
        expect(f.write(data, 4), 4, "the result of writing");
        expect(f.get_position(), far + 4, "position after writing");
        f.go_back(3);
        expect(f.get_position(), far + 1, "position after going back");
        expect(f.is_at_end(), false, "the end test before the last bytes");
        std::byte got[8] = {};
        expect(f.read(got, 2), 2, "the result of reading");
        expect(int(got[0]) * 256 + int(got[1]), 0x5253, "what was read");
        expect(f.get_position(), far + 3, "position after reading");
        f.set_position(-4, cmp::position_reference::end);
        expect(f.get_position(), far, "position before the end");
        expect(f.read(got, 8), 4, "the result of reading the rest");
        expect(int(got[0]) * 256 + int(got[3]), 0x5154, "the rest");
        expect(f.is_at_end(), true, "the end test at the end");
        f.set_position(-far - 2, cmp::position_reference::current);
        expect(f.get_position(), 2, "position after going back all the way");
        expect(f.read(got, 2), 2, "the result of reading at the beginning");
        expect(int(got[0]) * 256 + int(got[1]), filled(5)[2] * 256 + filled(5)[3], "what is at the beginning");
        f.go_forward(far - 2);
        expect(f.get_position(), far + 2, "position after going forward");
        expect(f.write(data, 1), 1, "the result of writing again");
    }
    struct stat st;
    ::fstat(the_disk.fd, &st);
    expect(st.st_size, far + 4, "the size of the file");
    unsigned char tail[4] = {};
    (void)!::pread(the_disk.fd, tail, 4, far);
    expect((tail[0] << 24 | tail[1] << 16 | tail[2] << 8 | tail[3]), 0x51525154, "the last bytes");
    the_disk.reset({});
    vp::outcome("far position");
}

// ------------------------------------------------------------------------ R03
static void
r03_run (
    std::size_t cap,
    std::size_t size,
    const std::vector<op>& ops,
    unsigned bound,
    int hard, // 1: reads may fail, 2: writes may fail
    unsigned storm = 0
) {
    chooser ch;
    ch.bound = bound;
    ch.storm = storm;
    do {
        ch.start();
        const bytes b = filled(size);
        the_disk.reset(b);
        std::string trace;
        bytes final_content;
        unsigned before_i = sys::interrupted, before_s = sys::cut_short, before_h = sys::hard_errors;
        {
            on_disk guard;
            cmp::file f(path_name, cmp::read_and_write, if_not_there::fail, cap);
            sys::choices = &ch;
            sys::fault_reads = hard != 2;
            sys::fault_writes = hard != 1;
            sys::hard_reads = hard == 1;
            sys::hard_writes = hard == 2;
            file_device d(f);
            runner run{d, {b, 0, 1}, 2, cap == 0};
            run.trace = "capacity " + std::to_string(cap) + ", faults:";
            run.observe();
            for (const op& o : ops) {
                if (hard == 1 && o.kind == bm::op_read) {
                    // After an error a read may stop short, but only that.
                    run.trace += " " + bm::name(o);
                    std::unique_ptr<std::byte[]> x(new std::byte[o.arg]);
                    unsigned errors = sys::hard_errors;
                    std::size_t n = f.read(x.get(), o.arg);
                    bm::model m = run.m;
                    bytes want = m.read(o.arg);
                    if (n > want.size() || (n < want.size() && sys::hard_errors == errors)) run.fail("faults " + ch.show() + ": returned " + std::to_string(n));
                    for (std::size_t i = 0; i < n; ++i)
                        if (static_cast<unsigned char>(x[i]) != want[i]) run.fail("faults " + ch.show() + ": byte " + std::to_string(i) + " is wrong");
                    run.m.read(n);
                    run.pending = false;
                    run.observe();
                    vp::step(vp::mix(run.m.hash(), 77));
                } else if (hard == 2 && o.kind == bm::op_write) {
                    // A write that fails returns what it did write.
                    run.trace += " " + bm::name(o);
                    std::unique_ptr<std::byte[]> x(new std::byte[o.arg]);
                    bytes b;
                    for (std::int64_t i = 0; i < o.arg; ++i) { b.push_back(run.next); x[i] = std::byte(run.next); run.next = following(run.next); }
                    unsigned errors = sys::hard_errors;
                    std::size_t n = f.write(x.get(), o.arg);
                    if (n > b.size() || (n < b.size() && sys::hard_errors == errors)) run.fail("faults " + ch.show() + ": returned " + std::to_string(n));
                    b.resize(n);
                    if (n) run.m.write(b);
                    try { run.observe(); }
                    catch (vp::fail& e) { throw vp::fail{e.what + " with faults " + ch.show()}; }
                    vp::step(vp::mix(run.m.hash(), 78));
                } else {
                    try { run.apply(o); }
                    catch (vp::fail& e) { throw vp::fail{e.what + " with faults " + ch.show()}; }
                }
            }
            final_content = run.m.content;
            trace = run.trace;
        }
        if (the_disk.content() != final_content)
            throw vp::fail{trace + " with faults " + ch.show() + " closed: content " + vp::show(the_disk.content()) + " not " + vp::show(final_content)};
        vp::outcome("schedules");
        if (sys::interrupted > before_i) vp::outcome("with interruptions");
        if (sys::cut_short > before_s) vp::outcome("with partial transfers");
        if (sys::hard_errors > before_h) vp::outcome(hard == 1 ? "with read errors" : "with write errors");
    } while (ch.advance());
}

static std::vector<op>
fault_alphabet (
    bool hard
) {
    using namespace bm;
    std::vector<op> a = {{op_read, 1, 0}, {op_read, 3, 0}, {op_read, 6, 0}};
    if (!hard) { a.push_back({op_write, 1, 0}); a.push_back({op_write, 3, 0}); }
    a.push_back({op_write, 6, 0});
    a.push_back({op_seek, 1, 0});
    a.push_back({op_seek, -1, 1});
    a.push_back({op_seek, -2, 2});
    if (!hard) a.push_back({op_flush, 0, 0});
    return a;
}

// ------------------------------------------------------------------------ R04
// Every byte that was written, in order; what is on disk is always the
// result of a beginning of that, at least up to the last synchronization.
struct history {
    bytes start;
    std::vector<std::pair<std::size_t, unsigned char>> written;
    std::size_t synced = 0;
    std::string problem;

    bytes
    after (
        std::size_t k
    ) const {
        bytes b = start;
        for (std::size_t i = 0; i < k; ++i) {
            if (written[i].first >= b.size()) b.resize(written[i].first + 1, 0);
            b[written[i].first] = written[i].second;
        }
        return b;
    }
    void
    look (
        const std::string& when
    ) {
        if (!problem.empty()) return;
        const bytes c = the_disk.content();
        bytes b = after(synced);
        std::size_t different = 0; // places at which b and c differ, up to the end of the shorter
        for (std::size_t i = 0; i < b.size() && i < c.size(); ++i) different += b[i] != c[i];
        for (std::size_t k = synced;; ++k) {
            if (b.size() == c.size() && different == 0) { vp::outcome(k == written.size() ? "crash points, all written" : k == synced ? "crash points, only what was flushed" : "crash points, in between"); return; }
            if (k == written.size()) break;
            const std::size_t at = written[k].first;
            while (at >= b.size()) {
                if (b.size() < c.size()) different += c[b.size()] != 0;
                b.push_back(0);
            }
            if (at < c.size()) {
                different -= b[at] != c[at];
                different += written[k].second != c[at];
            }
            b[at] = written[k].second;
        }
        problem = when + ": the file holds " + vp::show(c) + " although " + std::to_string(synced) + " of the "
            + std::to_string(written.size()) + " bytes written were flushed: " + vp::show(after(synced));
    }
};

static const char* ending_names[] = {"close", "destroy", "reopen", "assign over", "move away and destroy"};

static void
r04_run (
    int side,
    std::size_t cap,
    std::size_t size,
    const std::vector<op>& ops,
    unsigned ending,
    unsigned bound,
    unsigned storm = 0
) {
    chooser ch;
    ch.bound = bound;
    ch.storm = storm;
    do {
        ch.start();
        history h;
        h.start = filled(size);
        the_disk.reset(h.start);
        std::string trace = std::string(mode_names[side]) + " capacity " + std::to_string(cap) + ", faults " + ch.show() + ":";
        auto settle = [&] (const std::string& when) {
            h.look(when);
            if (!h.problem.empty()) throw vp::fail{trace + " " + h.problem};
        };
        {
            on_disk guard;
            std::unique_ptr<cmp::file> f(new cmp::file(path_name, modes[side], if_not_there::fail, cap));
            sys::choices = &ch;
            sys::fault_writes = true;
            sys::crash_point = [&] (const char* when) { h.look(when); };
            bm::model m{h.start, 0, 1};
            unsigned char next = 0x41;
            for (const op& o : ops) {
                trace += " " + bm::name(o);
                const bool transfer = o.kind == bm::op_write || o.kind == bm::op_read;
                std::unique_ptr<std::byte[]> room(new std::byte[transfer ? o.arg : 1]);
                std::byte* data = room.get();
                switch (o.kind) {
                case bm::op_write: {
                    bytes b;
                    for (std::int64_t i = 0; i < o.arg; ++i) { h.written.push_back({std::size_t(m.pos) + i, next}); b.push_back(next); data[i] = std::byte(next); next = following(next); }
                    m.write(b);
                    f->write(data, o.arg);
                    if (cap == 0) h.synced = h.written.size();
                    break;
                }
                case bm::op_read: { f->read(data, o.arg); m.read(o.arg); h.synced = h.written.size(); break; }
                case bm::op_seek:
                    f->set_position(o.arg, o.ref == 0 ? cmp::position_reference::begin : o.ref == 1 ? cmp::position_reference::current : cmp::position_reference::end);
                    m.seek(o.arg, o.ref);
                    h.synced = h.written.size();
                    break;
                case bm::op_flush: f->flush(); h.synced = h.written.size(); break;
                default: break;
                }
                settle("afterwards");
                vp::step(vp::mix(m.hash(), vp::mix(h.synced, h.written.size())));
            }
            trace += std::string(" ") + ending_names[ending];
            switch (ending) {
            case 0: f->close(); break;
            case 1: f.reset(); break;
            case 2: f->open("g", cmp::read_and_write, if_not_there::create); break;
            case 3: *f = cmp::file(); break;
            case 4: { cmp::file g(std::move(*f)); break; }
            }
            h.synced = h.written.size();
            settle("afterwards");
        }
        vp::outcome("histories with faults");
    } while (ch.advance());
}

// An input tied to an output: everything written is on disk when a read starts to be served.
static void
r04_tied (
    std::size_t cap_out,
    std::size_t cap_in,
    const std::vector<unsigned>& ops
) {
    static disk other{"g"};
    other.reset(filled(9));
    the_disk.reset({});
    on_disk guard;
    cmp::file out(path_name, cmp::write_only, if_not_there::fail, cap_out);
    cmp::file in("g", cmp::read_only, if_not_there::fail, cap_in);
    in.tie(out);
    bytes want;
    bm::model m{filled(9), 0, 1};
    unsigned char next = 0x41;
    std::string trace = "capacities " + std::to_string(cap_out) + ", " + std::to_string(cap_in) + ":";
    for (unsigned o : ops) {
        std::byte data[16];
        switch (o) {
        case 0: case 1: case 2: {
            std::size_t n = o == 0 ? 1 : o == 1 ? 2 : 5;
            for (std::size_t i = 0; i < n; ++i) { want.push_back(next); data[i] = std::byte(next++); }
            out.write(data, n);
            trace += " write(" + std::to_string(n) + ")";
            break;
        }
        case 3: case 4: case 5: {
            std::size_t n = o == 3 ? 1 : o == 4 ? 3 : 6;
            trace += " read(" + std::to_string(n) + ")";
            std::size_t got = in.read(data, n);
            bytes w = m.read(n);
            VP_CHECK(got == w.size(), trace);
            for (std::size_t i = 0; i < got; ++i) VP_CHECK(static_cast<unsigned char>(data[i]) == w[i], trace);
            VP_CHECK(the_disk.content() == want, trace, ": the tied output still lacks what was written before");
            vp::outcome("tied reads");
            break;
        }
        case 6: in.set_position(0, cmp::position_reference::begin); m.seek(0, 0); trace += " rewind"; break;
        }
        vp::step(vp::mix(m.hash(), want.size()));
    }
}

// ------------------------------------------------------------------------ R05
static unsigned
open_descriptors ()
{
    unsigned n = 0;
    for (int fd = 0; fd < 16; ++fd) if (::fcntl(fd, F_GETFD) != -1) ++n;
    return n;
}

// Frees the lowest descriptors for a while, so that files get those.
struct low_descriptors {
    unsigned count;
    int kept[2] = {-1, -1};
    explicit low_descriptors (unsigned n) : count{n} {
        for (unsigned k = 0; k < count; ++k) {
            kept[k] = ::fcntl(k, F_DUPFD_CLOEXEC, 60);
            ::close(k);
        }
    }
    ~low_descriptors () {
        for (unsigned k = 0; k < count; ++k) {
            if (kept[k] == -1) continue;
            ::dup2(kept[k], k);
            ::close(kept[k]);
        }
    }
};

static const char* r05_names[] = {"open(p,rw,create)", "open(q,rw,fail)", "open(p,r,fail)", "open(q,w,create)", "close", "read(2)", "write(3)", "seek(1)", "new default", "new(q,rw,create)"};
static const unsigned r05_per = 10;
static const unsigned r05_ops = 2 * r05_per + 4;

static std::string
r05_name (
    unsigned o
) {
    if (o < 2 * r05_per) return std::string(o % 2 ? "b." : "a.") + r05_names[o / 2];
    static const char* n[] = {"a=move(b)", "b=move(a)", "a=new(move(b))", "b=new(move(a))"};
    return n[o - 2 * r05_per];
}

static bytes
read_path (
    const char* p
) {
    bytes b;
    int fd = ::open(p, O_RDONLY);
    if (fd == -1) return b;
    struct stat s;
    ::fstat(fd, &s);
    b.resize(s.st_size);
    if (!b.empty()) (void)!::pread(fd, b.data(), b.size(), 0);
    ::close(fd);
    return b;
}

static void
r05_run (
    std::size_t cap,
    unsigned start,
    const std::vector<unsigned>& ops,
    unsigned low = 0
) {
    low_descriptors lowest{low};
    static const char* names[2] = {"p", "q"};
    ::unlink("q");
    {
        int fd = ::open("p", O_RDWR | O_CREAT | O_TRUNC, 0600);
        bytes b = filled(5);
        (void)!::write(fd, b.data(), b.size());
        ::close(fd);
    }
    bytes disk_model[2] = {filled(5), {}};
    bool exists[2] = {true, false};
    struct object {
        std::unique_ptr<cmp::file> f;
        bool open = false;
        int path = 0;
        access_mode mode = cmp::read_only;
        std::int64_t pos = 0;
    } o[2];
    const unsigned base = open_descriptors();
    std::string trace = "capacity " + std::to_string(cap) + ":";
    {
        for (auto& x : o) x.f.reset(new cmp::file("missing", cmp::read_and_write, if_not_there::fail, cap));
        unsigned char next = 0x41;
        auto closed = [&] (object& x) {
            if (!x.open) return;
            x.open = false;
            bytes c = read_path(names[x.path]);
            VP_CHECK(c == disk_model[x.path], trace, ": ", names[x.path], " holds ", vp::show(c), " not ", vp::show(disk_model[x.path]));
        };
        auto verify = [&] () {
            unsigned n = 0;
            for (int k = 0; k < 2; ++k) {
                object& x = o[k];
                VP_CHECK(x.f->is_open() == x.open, trace, ": ", k ? "b" : "a");
                if (!x.open) continue;
                ++n;
                VP_CHECK(x.f->get_access_mode() == x.mode, trace, ": ", k ? "b" : "a");
                VP_CHECK(x.f->get_position() == x.pos, trace, ": ", k ? "b" : "a", " is at ", x.f->get_position(), " not ", x.pos);
                bool end = x.pos >= std::int64_t(disk_model[x.path].size());
                VP_CHECK(x.f->is_at_end() == end, trace, ": ", k ? "b" : "a");
            }
            VP_CHECK(open_descriptors() == base + n, trace, ": ", open_descriptors() - base, " descriptors for ", n, " open files");
            for (int p = 0; p < 2; ++p) VP_CHECK((::access(names[p], F_OK) == 0) == exists[p], trace, ": ", names[p]);
            vp::u64 h = 7;
            for (auto& x : o) h = vp::mix(h, x.open ? 1 + x.path + 2 * x.mode + 16 * x.pos : 0);
            vp::step(vp::mix(h, vp::hash_bytes(disk_model[0].data(), disk_model[0].size())));
        };
        verify();
        std::vector<unsigned> all;
        if (start == 1) all = {0, 7}; // a open on p, b on q
        if (start == 2) all = {0, 10}; // a open on p with data read ahead
        all.insert(all.end(), ops.begin(), ops.end());
        for (unsigned code : all) {
            if (code >= 2 * r05_per) {
                unsigned which = code - 2 * r05_per;
                int to = which % 2, from = 1 - to;
                trace += " " + r05_name(code);
                std::unique_ptr<cmp::file> fresh;
                if (which < 2) *o[to].f = std::move(*o[from].f);
                else { fresh.reset(new cmp::file(std::move(*o[from].f))); o[to].f = std::move(fresh); }
                closed(o[to]);
                o[to].open = o[from].open;
                o[to].path = o[from].path;
                o[to].mode = o[from].mode;
                o[to].pos = o[from].pos;
                o[from].open = false;
                vp::outcome(o[to].open ? "moved an open file" : "moved a closed file");
                verify();
                continue;
            }
            object& x = o[code % 2];
            object& y = o[1 - code % 2];
            const unsigned what = code / 2;
            std::byte data[4];
            int path = -1;
            access_mode mode = cmp::read_only;
            bool create = false;
            switch (what) {
            case 0: path = 0; mode = cmp::read_and_write; create = true; break;
            case 1: path = 1; mode = cmp::read_and_write; break;
            case 2: path = 0; mode = cmp::read_only; break;
            case 3: path = 1; mode = cmp::write_only; create = true; break;
            case 9: path = 1; mode = cmp::read_and_write; create = true; break;
            }
            if (path != -1 && y.open && y.path == path) { trace += " -"; continue; }
            if ((what == 5 || what == 6 || what == 7) && !x.open) { trace += " -"; continue; }
            trace += " " + r05_name(code);
            if (path != -1) {
                bool ok = exists[path] || create;
                if (what == 9) {
                    x.f.reset();
                    closed(x);
                    x.f.reset(new cmp::file(names[path], mode, if_not_there::create, cap));
                } else {
                    bool got = x.f->open(names[path], mode, create ? if_not_there::create : if_not_there::fail);
                    closed(x);
                    VP_CHECK(got == ok, trace, ": open returned ", got);
                }
                if (ok) {
                    exists[path] = true;
                    x.open = true;
                    x.path = path;
                    x.mode = mode;
                    x.pos = 0;
                }
                vp::outcome(ok ? "opened" : "could not open");
            } else switch (what) {
            case 4: x.f->close(); closed(x); vp::outcome("closed"); break;
            case 8: x.f.reset(new cmp::file()); closed(x); vp::outcome("replaced"); break;
            case 5: {
                bool refused = false;
                std::size_t n = 0;
                try { n = x.f->read(data, 2); } catch (const cmp::invalid_access_mode&) { refused = true; }
                VP_CHECK(refused == (x.mode == cmp::write_only), trace, ": refused ", refused);
                if (refused) { vp::outcome("read refused"); break; }
                bm::model m{disk_model[x.path], x.pos, 1};
                bytes w = m.read(2);
                VP_CHECK(n == w.size(), trace, ": read ", n, " not ", w.size());
                for (std::size_t i = 0; i < n; ++i) VP_CHECK(static_cast<unsigned char>(data[i]) == w[i], trace);
                x.pos = m.pos;
                vp::outcome("read");
                break;
            }
            case 6: {
                bytes b;
                for (int i = 0; i < 3; ++i) { b.push_back(next); data[i] = std::byte(next++); }
                bool refused = false;
                std::size_t n = 0;
                try { n = x.f->write(data, 3); } catch (const cmp::invalid_access_mode&) { refused = true; }
                VP_CHECK(refused == (x.mode == cmp::read_only), trace, ": refused ", refused);
                if (refused) { vp::outcome("write refused"); break; }
                VP_CHECK(n == 3, trace, ": wrote ", n);
                bm::model m{disk_model[x.path], x.pos, 1};
                m.write(b);
                disk_model[x.path] = m.content;
                x.pos = m.pos;
                vp::outcome("wrote");
                break;
            }
            case 7: x.f->set_position(1, cmp::position_reference::begin); x.pos = 1; break;
            }
            verify();
        }
        for (auto& x : o) { x.f.reset(); closed(x); }
    }
    VP_CHECK(open_descriptors() == base, trace, ": a descriptor was left open");
}

// Opening asks for what the mode needs and no more: as another user than root,
// whom permissions bind.
static void
r05_permission (
    std::size_t cap,
    unsigned file_permissions, // 4: none there, else 0..3 for none, write, read, both
    unsigned directory_permissions,
    access_mode mode,
    bool create,
    unsigned from // 0 closed, 1 open on another file with data pending, 2 by the constructor
) {
    static const uid_t other_user = 65534;
    static const mode_t directory_modes[] = {0700, 0500, 0600, 0000};
    namespace fs = std::filesystem;
    struct cleaner {
        ~cleaner () { (void)!::seteuid(0); std::error_code ec; ::chmod("perm/dir", 0700); fs::remove_all("perm", ec); }
    } cleaned;
    std::error_code ec;
    if (::geteuid() != 0) { vp::outcome("permissions not tried"); return; }
    ::chmod(".", 0755);
    fs::remove_all("perm", ec);
    fs::create_directories("perm/dir", ec);
    ::chmod("perm", 0755);
    const bytes content = filled(5);
    auto put = [] (const char* p, const bytes& b, mode_t m) {
        int fd = ::open(p, O_RDWR | O_CREAT | O_TRUNC, 0600);
        (void)!::write(fd, b.data(), b.size());
        ::close(fd);
        (void)!::chown(p, other_user, static_cast<gid_t>(-1));
        ::chmod(p, m);
    };
    const bool exists = file_permissions != 4;
    if (exists) put("perm/dir/it", content, (file_permissions & 1 ? 0200 : 0) | (file_permissions & 2 ? 0400 : 0));
    put("perm/other", {}, 0600);
    (void)!::chown("perm/dir", other_user, static_cast<gid_t>(-1));
    ::chmod("perm/dir", directory_modes[directory_permissions]);
    if (::seteuid(other_user) != 0) { vp::outcome("permissions not tried"); return; }
    const bool needs_read = mode != cmp::write_only, needs_write = mode != cmp::read_only;
    const bool ok = directory_permissions < 2
        && (exists ? (!needs_read || file_permissions & 2) && (!needs_write || file_permissions & 1) : create && directory_permissions == 0);
    const std::string trace = std::string("file ") + (exists ? file_permissions & 2 ? "r" : "-" : "none") + (exists ? file_permissions & 1 ? "w" : "-" : "")
        + ", directory case " + std::to_string(directory_permissions) + ", " + (mode == cmp::read_only ? "read" : mode == cmp::write_only ? "write" : "both") + (create ? ", create" : "");
    const auto if_missing = create ? if_not_there::create : if_not_there::fail;
    const unsigned base = open_descriptors();
    const std::byte three[3] = {std::byte(0x61), std::byte(0x62), std::byte(0x63)};
    {
        std::unique_ptr<cmp::file> f;
        if (from == 2) f.reset(new cmp::file("perm/dir/it", mode, if_missing, cap));
        else {
            f.reset(new cmp::file("perm/other", cmp::read_and_write, if_not_there::fail, cap));
            VP_CHECK(f->is_open(), trace);
            f->write(three, 3);
            if (from == 0) f->close();
            VP_CHECK(f->open("perm/dir/it", mode, if_missing) == ok, trace, ": open returned ", !ok);
        }
        VP_CHECK(f->is_open() == ok, trace, ": is_open is ", !ok);
        VP_CHECK(open_descriptors() == base + ok, trace, ": ", open_descriptors() - base, " descriptors");
        if (ok && needs_read) {
            std::byte data[8];
            VP_CHECK(f->read(data, 8) == (exists ? content.size() : 0), trace, ": not all was read");
        }
        if (ok && needs_write) {
            f->set_position(0, cmp::position_reference::begin);
            VP_CHECK(f->write(three, 3) == 3, trace, ": not written");
        }
    }
    VP_CHECK(open_descriptors() == base, trace, ": a descriptor was left open");
    (void)!::seteuid(0);
    if (from != 2) VP_CHECK((read_path("perm/other") == bytes{0x61, 0x62, 0x63}), trace, ": the file before lost data");
    bytes want = exists ? content : bytes{};
    if (ok && needs_write) {
        if (want.size() < 3) want.resize(3);
        for (int i = 0; i < 3; ++i) want[i] = 0x61 + i;
    }
    VP_CHECK(fs::exists("perm/dir/it", ec) == (exists || ok), trace, ": it's ", exists || ok ? "not " : "", "there");
    if (exists || ok) VP_CHECK(read_path("perm/dir/it") == want, trace, ": other content");
    vp::outcome(ok ? "permitted" : "not permitted");
    vp::step(vp::mix(file_permissions * 8 + directory_permissions, mode * 2 + create));
}

static void
r05_permission_space ()
{
    vp::add_space("permissions", "a file without or with permission to read or write it, or none, in a directory with 4 sets of permissions x 3 modes x fail or create x 3 ways to open, 3 buffer capacities, as an unprivileged user",
        3 * 5 * 4 * 3 * 2 * 3,
        [] (u64 i) {
            static const std::size_t caps[] = {0, 2, 1024};
            static const access_mode all[] = {cmp::read_only, cmp::write_only, cmp::read_and_write};
            vp::digits d{i};
            std::size_t cap = caps[d.next(3)];
            unsigned file = d.next(5), directory = d.next(4);
            access_mode mode = all[d.next(3)];
            bool create = d.next(2);
            r05_permission(cap, file, directory, mode, create, d.next(3));
        });
}

// What opening each kind of path does.
static const unsigned r05_kinds = 20;

static void
r05_path (
    std::size_t cap,
    unsigned kind,
    access_mode mode,
    bool create,
    unsigned from // 0 closed, 1 open on another file with data pending, 2 by the constructor
) {
    static const std::string long_name(255, 'n');
    namespace fs = std::filesystem;
    struct cleaner {
        ~cleaner () { std::error_code ec; fs::remove_all("kinds", ec); }
    } cleaned;
    std::error_code ec;
    fs::remove_all("kinds", ec);
    fs::create_directories("kinds/sub/deep", ec);
    auto put = [] (const fs::path& p, const bytes& b) {
        int fd = ::open(p.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
        (void)!::write(fd, b.data(), b.size());
        ::close(fd);
    };
    const bytes content = filled(5);
    put("kinds/there", content);
    put("kinds/other", {});
    fs::create_symlink("there", "kinds/link", ec);
    fs::create_symlink("nowhere", "kinds/dangling", ec);
    fs::create_symlink("/dev/null", "kinds/null", ec);
    fs::create_symlink("link", "kinds/link2", ec);
    fs::create_symlink("loop", "kinds/loop", ec);
    fs::create_directory_symlink("sub", "kinds/dirlink", ec);
    fs::path path, target; // target: where the data is; empty when it must not open
    bool exists = false, can_create = false, special = false;
    auto there = [&] (const fs::path& p, const fs::path& t) { path = p; target = t; exists = true; };
    auto missing = [&] (const fs::path& p, const fs::path& t) { path = p; target = t; can_create = true; };
    switch (kind) {
    case 0: there("kinds/there", "kinds/there"); break;
    case 1: missing("kinds/new", "kinds/new"); break;
    case 2: there("kinds/link", "kinds/there"); break;
    case 3: missing("kinds/dangling", "kinds/nowhere"); break;
    case 4: there("kinds/link2", "kinds/there"); break;
    case 5: path = "kinds/loop"; break;
    case 6: path = "kinds/none/new"; break;
    case 7: path = "kinds/there/new"; break;
    case 8: path = ""; break;
    case 9: path = "kinds/" + long_name + "n"; break;
    case 10: missing("kinds/" + long_name, "kinds/" + long_name); break;
    case 11: there(fs::current_path() / "kinds/there", "kinds/there"); break;
    case 12: missing(fs::current_path() / "kinds/new", "kinds/new"); break;
    case 13: missing(fs::path(u8"kinds/\u00E9\u20AC\U0001D11E"), fs::path(u8"kinds/\u00E9\u20AC\U0001D11E")); break;
    case 14: missing("kinds/a b\t%s\n'\"*", "kinds/a b\t%s\n'\"*"); break;
    case 15: there("kinds/sub/../there", "kinds/there"); break;
    case 16: missing("kinds/sub/deep/new", "kinds/sub/deep/new"); break;
    case 17: missing("kinds/dirlink/new", "kinds/sub/new"); break;
    case 18: path = "kinds/null"; exists = true; special = true; break;
    case 19: path = "kinds/sub"; if (mode == cmp::read_only) return; break; // a directory cannot be written
    }
    const bool ok = exists || (can_create && create);
    const unsigned base = open_descriptors();
    const auto if_missing = create ? if_not_there::create : if_not_there::fail;
    {
        std::unique_ptr<cmp::file> f;
        const std::byte three[3] = {std::byte(0x61), std::byte(0x62), std::byte(0x63)};
        if (from == 2) f.reset(new cmp::file(path, mode, if_missing, cap));
        else {
            f.reset(new cmp::file("kinds/other", cmp::read_and_write, if_not_there::fail, cap));
            VP_CHECK(f->is_open());
            f->write(three, 3);
            if (from == 0) f->close();
            bool got = f->open(path, mode, if_missing);
            VP_CHECK(got == ok, path.string(), ": open returned ", got);
            VP_CHECK((read_path("kinds/other") == bytes{0x61, 0x62, 0x63}), path.string(), ": the file before lost data");
        }
        VP_CHECK(f->is_open() == ok, path.string(), ": is_open is ", f->is_open());
        VP_CHECK(open_descriptors() == base + ok, path.string(), ": ", open_descriptors() - base, " descriptors");
        vp::outcome(ok ? exists ? "opened" : "created" : "could not open");
        if (ok) {
            VP_CHECK(f->get_access_mode() == mode, path.string());
            if (mode != cmp::write_only) {
                std::byte data[8];
                std::size_t n = f->read(data, 8);
                const bytes want = exists && !special ? content : bytes{};
                VP_CHECK(n == want.size(), path.string(), ": read ", n);
                for (std::size_t i = 0; i < n; ++i) VP_CHECK(static_cast<unsigned char>(data[i]) == want[i], path.string());
            }
            if (mode != cmp::read_only) {
                f->set_position(0, cmp::position_reference::begin);
                VP_CHECK(f->write(three, 3) == 3, path.string());
            }
            vp::step(vp::mix(kind * 16 + mode * 4 + create * 2, cap + 1));
        }
        f->close();
        VP_CHECK(!f->is_open(), path.string());
        vp::step(kind);
    }
    VP_CHECK(open_descriptors() == base, path.string(), ": a descriptor was left open");
    if (ok && !special) {
        bytes want = exists ? content : bytes{};
        if (mode != cmp::read_only) {
            if (want.size() < 3) want.resize(3);
            for (int i = 0; i < 3; ++i) want[i] = 0x61 + i;
        }
        if (!exists) {
            struct stat st;
            VP_CHECK(::stat(target.c_str(), &st) == 0 && (st.st_mode & 0600) == 0600, path.string(), ": its owner can't read and write it");
        }
        bytes c = read_path(target.c_str());
        VP_CHECK(c == want, path.string(), ": holds ", vp::show(c), " not ", vp::show(want));
    }
    if (!ok) {
        struct stat s;
        if (can_create) VP_CHECK(::stat(target.c_str(), &s) == -1, path.string(), ": was created");
        bytes c = read_path("kinds/there");
        VP_CHECK(c == content, path.string(), ": changed another file");
    }
}

// Six files open at once, closed in every order by every means.
static void
r05_many (
    std::size_t cap,
    unsigned order,
    unsigned means
) {
    const unsigned count = 6;
    const unsigned base = open_descriptors();
    std::vector<std::unique_ptr<cmp::file>> f;
    std::vector<std::string> name;
    std::vector<bytes> model(count);
    unsigned char next = 1;
    auto add = [&] (unsigned k, unsigned n) {
        std::byte b[8];
        for (unsigned i = 0; i < n; ++i) { b[i] = std::byte(next); model[k].push_back(next++); }
        VP_CHECK(f[k]->write(b, n) == n);
    };
    for (unsigned k = 0; k < count; ++k) {
        name.push_back("m" + std::to_string(k));
        ::unlink(name[k].c_str());
        f.emplace_back(new cmp::file(name[k], cmp::read_and_write, if_not_there::create, cap));
        VP_CHECK(f[k]->is_open());
    }
    for (unsigned round = 0; round < 2; ++round) for (unsigned k = 0; k < count; ++k) add(k, 1 + (k + round) % 3);
    VP_CHECK(open_descriptors() == base + count);
    std::vector<unsigned> left = {0, 1, 2, 3, 4, 5};
    unsigned open = count;
    while (!left.empty()) {
        unsigned at = order % left.size();
        order /= left.size();
        unsigned k = left[at];
        left.erase(left.begin() + at);
        switch (means) {
        case 0: f[k]->close(); break;
        case 1: f[k].reset(); break;
        case 2: *f[k] = cmp::file(); break;
        case 3: VP_CHECK(!f[k]->open("missing", cmp::read_only, if_not_there::fail)); break;
        }
        --open;
        VP_CHECK(open_descriptors() == base + open, "after closing file ", k, ": ", open_descriptors() - base, " descriptors for ", open);
        bytes c = read_path(name[k].c_str());
        VP_CHECK(c == model[k], "file ", k, " holds ", vp::show(c), " not ", vp::show(model[k]));
        for (unsigned j : left) add(j, 1);
        vp::step(vp::mix(order, k + 8 * open));
    }
    vp::outcome("all closed");
    for (auto& n : name) ::unlink(n.c_str());
}

#ifdef VP_WINDOWS
// Transfers of more bytes than one call takes: every byte is asked for once, in order.
static void
w01_huge (
    bool write,
    std::size_t cap,
    std::size_t n
) {
    // Only the parts that go through a buffer are touched.
    static std::byte* const memory = static_cast<std::byte*>(::mmap(nullptr, 13 * (std::size_t(1) << 30), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (memory == MAP_FAILED) throw vp::fail{"no addresses"};
    the_disk.reset(filled(5));
    cmp::file f(path_name, write ? cmp::write_only : cmp::read_only, if_not_there::fail, cap);
    std::vector<win::transfer> log;
    std::size_t got;
    {
        struct noting {
            noting (std::vector<win::transfer>& l) { win::noted = &l; }
            ~noting () { win::noted = nullptr; }
        } on(log);
        got = write ? f.write(memory, n) : f.read(memory, n);
    }
    if (cap && write) f.flush();
    std::size_t at = 0;
    for (auto& t : log) {
        vp::step(vp::mix(at, n));
        const std::byte* data = static_cast<const std::byte*>(t.data);
        if (data < memory || data >= memory + n) continue; // by way of the buffer
        if (at == 0 && cap) at = data - memory;
        VP_CHECK(data == memory + at, write ? "a write of " : "a read of ", n, " bytes goes on ", data - memory, " bytes in after ", at);
        at += t.count;
    }
    VP_CHECK(got == n, write ? "a write of " : "a read of ", n, " bytes returned ", got);
    VP_CHECK(at <= n && n - at <= cap, write ? "a write of " : "a read of ", n, " bytes transferred ", at);
    vp::outcome("huge transfers");
}

static void
windows_spaces (
    bool thorough
) {
    using namespace bm;
    vp::after_case = [] {
        std::string p;
        std::swap(p, win::problem);
        VP_CHECK(p.empty(), p);
        VP_CHECK(win::handles.empty(), "a handle was left open");
    };
    vp::add_space("far positions", "positions around every power of two from 2^7 to 2^42 in a sparse file, 7 buffer capacities", 7 * 36 * 3,
        [] (u64 i) {
            static const std::size_t c[] = {0, 1, 2, 3, 4, 7, 16};
            vp::digits d{i};
            std::size_t cap = c[d.next(7)];
            unsigned power = 7 + d.next(36);
            r02_far(cap, power, int(d.next(3)) - 1);
        },
        [] (u64 i) { return "far position case " + std::to_string(i); });
    static const std::size_t huge[] = {(std::size_t(1) << 32) - 2, (std::size_t(1) << 32) - 1, std::size_t(1) << 32, (std::size_t(1) << 32) + 1, (std::size_t(1) << 33) - 2, (std::size_t(1) << 33) - 1,
        std::size_t(1) << 33, (std::size_t(1) << 33) + 5, 3 * (std::size_t(1) << 32)};
    vp::add_space("huge transfers", "reads and writes of 9 sizes around multiples of 4 GiB, 3 buffer capacities", 9 * 2 * 3,
        [] (u64 i) { static const std::size_t c[] = {0, 4, 1024}; w01_huge(i % 2, c[i / 2 % 3], huge[i / 6]); },
        [] (u64 i) { return std::string(i % 2 ? "write of " : "read of ") + std::to_string(huge[i / 6]); });
    for (int side = 0; side < 3; ++side) {
        r02_space("small", side, thorough ? 4 : 3, {0, 1, 2, 3, 4, 7, 16}, {0, 5, 8}, alphabet(side, 1, true));
        r02_space("idle", side, 3, {0, 3, 4}, {0, 5}, idle_alphabet(side));
        if (thorough) r02_sizes(side, 2);
        r02_space("large", side, thorough ? 3 : 2, {1024}, {0, 1024, 3000}, big_alphabet(side));
    }
    for (int hard = 0; hard < 3; ++hard) {
        auto al = fault_alphabet(hard == 1);
        std::vector<std::size_t> c = {0, 2, 4};
        if (hard == 2) c = {0};
        const unsigned depth = thorough ? 4 : 3;
        auto decode = [=] (u64 i, std::size_t& cap, std::vector<op>& ops) {
            vp::digits d{i};
            cap = c[d.next(c.size())];
            for (unsigned k = 0; k < depth; ++k) ops.push_back(al[d.next(al.size())]);
        };
        vp::add_space(hard == 2 ? "write errors" : hard ? "read errors" : "short reads", "all " + std::to_string(depth) + "-operation histories over " + std::to_string(al.size())
            + " operations, every placement of up to 2 " + (hard == 2 ? "write errors" : hard ? "read errors and short reads" : "short reads"),
            c.size() * vp::ipow(al.size(), depth),
            [=] (u64 i) { std::size_t cap; std::vector<op> o; decode(i, cap, o); r03_run(cap, 7, o, 2, hard); },
            [=] (u64 i) { std::size_t cap; std::vector<op> o; decode(i, cap, o); return "capacity " + std::to_string(cap) + ":" + show_ops(o); });
    }
    for (int side = 1; side < 3; ++side) {
        std::vector<op> al = {{op_write, 1, 0}, {op_write, 2, 0}, {op_write, 3, 0}, {op_write, 6, 0}, {op_seek, 1, 0}, {op_seek, 9, 0}, {op_seek, -1, 1}, {op_seek, 0, 2}, {op_flush, 0, 0}};
        if (side == 2) { al.push_back({op_read, 1, 0}); al.push_back({op_read, 6, 0}); }
        const unsigned depth = thorough ? 4 : 3;
        static const std::size_t c[] = {0, 1, 3, 4};
        auto decode = [=] (u64 i, std::size_t& cap, unsigned& ending, std::vector<op>& ops) {
            vp::digits d{i};
            cap = c[d.next(4)];
            ending = d.next(5);
            for (unsigned k = 0; k < depth; ++k) ops.push_back(al[d.next(al.size())]);
        };
        vp::add_space(std::string(mode_names[side]) + " crash points", "all " + std::to_string(depth) + "-operation histories over " + std::to_string(al.size())
            + " operations, 4 buffer capacities, 5 ways to end, every crash point around a write call",
            20 * vp::ipow(al.size(), depth),
            [=] (u64 i) { std::size_t cap; unsigned e; std::vector<op> o; decode(i, cap, e, o); r04_run(side, cap, 5, o, e, 0); },
            [=] (u64 i) { std::size_t cap; unsigned e; std::vector<op> o; decode(i, cap, e, o); return "capacity " + std::to_string(cap) + ":" + show_ops(o) + " " + ending_names[e]; });
    }
    const unsigned tied_depth = thorough ? 5 : 4;
    vp::add_space("tied", "all " + std::to_string(tied_depth) + "-operation histories of an input tied to an output, 3x3 buffer capacities", 9 * vp::ipow(7, tied_depth),
        [=] (u64 i) {
            static const std::size_t c[] = {0, 3, 16};
            vp::digits d{i};
            std::size_t a = c[d.next(3)], b = c[d.next(3)];
            std::vector<unsigned> ops;
            for (unsigned k = 0; k < tied_depth; ++k) ops.push_back(d.next(7));
            r04_tied(a, b, ops);
        });
    const unsigned depth = thorough ? 4 : 3;
    static const std::size_t c[] = {0, 2, 16};
    auto decode = [=] (u64 i) {
        vp::digits d{i / 9};
        std::vector<unsigned> ops;
        for (unsigned k = 0; k < depth; ++k) ops.push_back(d.next(r05_ops));
        return ops;
    };
    vp::add_space("lifecycle", "all " + std::to_string(depth) + "-operation histories of two file objects and two paths over " + std::to_string(r05_ops) + " operations from 3 starting points, 3 buffer capacities",
        9 * vp::ipow(r05_ops, depth),
        [=] (u64 i) { r05_run(c[i % 3], i / 3 % 3, decode(i)); },
        [=] (u64 i) { std::string s = "capacity " + std::to_string(c[i % 3]) + ", start " + std::to_string(i / 3 % 3) + ":"; for (unsigned o : decode(i)) s += " " + r05_name(o); return s; });
    vp::add_space("kinds of paths", std::to_string(r05_kinds) + " kinds of paths x 3 modes x fail or create x 3 ways to open, 3 buffer capacities",
        r05_kinds * 3 * 2 * 3 * 3,
        [] (u64 i) {
            vp::digits d{i};
            std::size_t cap = c[d.next(3)];
            static const access_mode modes[] = {cmp::read_only, cmp::write_only, cmp::read_and_write};
            access_mode mode = modes[d.next(3)];
            bool create = d.next(2);
            unsigned from = d.next(3);
            r05_path(cap, d.next(r05_kinds), mode, create, from);
        });
    r05_permission_space();
    vp::add_space("six files", "six files open at once, closed in each of the 720 orders by each of 4 means while the others are written, 3 buffer capacities",
        720 * 4 * 3,
        [] (u64 i) { r05_many(c[i % 3], i / 12, i / 3 % 4); });
}
#endif

static void
setup (
    const std::string& property,
    bool thorough
) {
    std::vector<std::size_t> caps = {0, 1, 2, 3, 4, 7, 16};
#ifdef VP_WINDOWS
    windows_spaces(thorough);
    return;
#endif
    if (property == "R02") {
        vp::add_space("far positions", "positions around every power of two from 2^7 to 2^42 in a sparse file, 7 buffer capacities", 7 * 36 * 3,
            [] (u64 i) {
                static const std::size_t c[] = {0, 1, 2, 3, 4, 7, 16};
                vp::digits d{i};
                std::size_t cap = c[d.next(7)];
                unsigned power = 7 + d.next(36);
                r02_far(cap, power, int(d.next(3)) - 1);
            },
            [] (u64 i) { return "far position case " + std::to_string(i); });
        for (int side = 0; side < 3; ++side) {
            r02_space("small", side, 3, caps, {0, 5, 8}, alphabet(side, 1, true));
            if (side < 2) r02_space("small", side, 4, {0, 1, 3, 4}, {5}, alphabet(side, 1, true));
            else r02_space("core", side, 4, {0, 1, 3, 4}, {5}, alphabet(side, 1, false));
            r02_space("idle", side, side == 2 && !thorough ? 3 : 4, {0, 1, 3, 4}, {0, 5}, idle_alphabet(side));
            r02_sizes(side, thorough ? 3 : 2);
            r02_space("large", side, thorough ? 4 : 3, {1024}, {0, 1024, 3000}, big_alphabet(side));
            if (thorough) {
                if (side < 2) r02_space("small", side, 5, {2, 4}, {5}, alphabet(side, 1, true));
                else r02_space("small", side, 4, {0, 1, 2, 3, 4, 7}, {5}, alphabet(side, 1, true));
            }
        }
    } else if (property == "R03") {
        for (int hard = 0; hard < 3; ++hard) {
            // What becomes of data that was buffered when it can't be written is not claimed.
            auto al = fault_alphabet(hard == 1);
            std::vector<std::size_t> c = {0, 2, 4};
            if (hard == 2) c = {0};
            const unsigned depth = thorough ? 5 : 4;
            const unsigned bound = 2;
            auto decode = [=] (u64 i, std::size_t& cap, std::vector<op>& ops) {
                vp::digits d{i};
                cap = c[d.next(c.size())];
                for (unsigned k = 0; k < depth; ++k) ops.push_back(al[d.next(al.size())]);
            };
            vp::add_space(hard == 2 ? "write errors" : hard ? "read errors" : "interruptions", "all " + std::to_string(depth) + "-operation histories over " + std::to_string(al.size())
                + " operations, " + (hard == 2 ? "without a buffer" : "3 buffer capacities") + ", every placement of up to " + std::to_string(bound) + (hard == 2 ? " faults including write errors" : hard ? " faults including read errors" : " interruptions and partial transfers"),
                c.size() * vp::ipow(al.size(), depth),
                [=] (u64 i) { std::size_t cap; std::vector<op> o; decode(i, cap, o); r03_run(cap, 7, o, bound, hard); },
                [=] (u64 i) { std::size_t cap; std::vector<op> o; decode(i, cap, o); return "capacity " + std::to_string(cap) + ":" + show_ops(o); });
        }
        for (int hard = 0; hard < 2; ++hard) {
            static const std::int64_t sizes[] = {256, 1026, 65538};
            static const std::size_t c[] = {0, 255, 1024, 65537};
            const std::size_t kinds = size_alphabet(2, 16).size();
            auto decode = [=] (u64 i, std::size_t& cap, std::size_t& size, std::vector<op>& ops) {
                vp::digits d{i};
                cap = c[d.next(4)];
                size = sizes[d.next(3)];
                auto al = size_alphabet(2, size);
                for (unsigned k = 0; k < 2; ++k) ops.push_back(al[d.next(kinds)]);
            };
            vp::add_space(hard ? "read errors, sizes" : "interruptions, sizes", std::string("all 2-operation histories over ") + std::to_string(kinds)
                + " operations with transfers of up to 65539 bytes in files of 256, 1026 and 65538, 4 buffer capacities to 65537, every placement of " + (thorough ? "up to 2 faults" : "1 fault"),
                12 * kinds * kinds,
                [=] (u64 i) { std::size_t cap, n; std::vector<op> o; decode(i, cap, n, o); r03_run(cap, n, o, thorough ? 2 : 1, hard); },
                [=] (u64 i) { std::size_t cap, n; std::vector<op> o; decode(i, cap, n, o); return "capacity " + std::to_string(cap) + ", size " + std::to_string(n) + ":" + show_ops(o); });
        }
        {
            const auto al = fault_alphabet(false);
            static const std::size_t c[] = {0, 2, 4, 16};
            const unsigned depth = thorough ? 4 : 3;
            auto decode = [=] (u64 i, unsigned& storm, std::size_t& cap, std::vector<op>& ops) {
                vp::digits d{i};
                storm = 1 + d.next(chooser::storms);
                cap = c[d.next(4)];
                for (unsigned k = 0; k < depth; ++k) ops.push_back(al[d.next(al.size())]);
            };
            vp::add_space("storms", "all " + std::to_string(depth) + "-operation histories over " + std::to_string(al.size())
                + " operations, 4 buffer capacities, every transfer interrupted 1 to 100 times or cut to one byte, half or all but one byte",
                chooser::storms * 4 * vp::ipow(al.size(), depth),
                [=] (u64 i) { unsigned st; std::size_t cap; std::vector<op> o; decode(i, st, cap, o); r03_run(cap, 7, o, 0, 0, st); },
                [=] (u64 i) { unsigned st; std::size_t cap; std::vector<op> o; decode(i, st, cap, o); return "storm " + std::to_string(st) + ", capacity " + std::to_string(cap) + ":" + show_ops(o); });
            static const std::int64_t sizes[] = {16, 256, 1026, 4098};
            static const std::size_t sc[] = {0, 255, 1024};
            const std::size_t kinds = size_alphabet(2, 16).size();
            auto sized = [=] (u64 i, unsigned& storm, std::size_t& cap, std::size_t& size, std::vector<op>& ops) {
                vp::digits d{i};
                storm = 1 + d.next(chooser::storms);
                cap = sc[d.next(3)];
                size = sizes[d.next(4)];
                auto al = size_alphabet(2, size);
                for (unsigned k = 0; k < 2; ++k) ops.push_back(al[d.next(kinds)]);
            };
            vp::add_space("storms, sizes", "all 2-operation histories over " + std::to_string(kinds) + " operations with transfers of up to 4099 bytes, 3 buffer capacities, the same storms",
                chooser::storms * 12 * kinds * kinds,
                [=] (u64 i) { unsigned st; std::size_t cap, n; std::vector<op> o; sized(i, st, cap, n, o); r03_run(cap, n, o, 0, 0, st); },
                [=] (u64 i) { unsigned st; std::size_t cap, n; std::vector<op> o; sized(i, st, cap, n, o); return "storm " + std::to_string(st) + ", capacity " + std::to_string(cap) + ", size " + std::to_string(n) + ":" + show_ops(o); });
        }
    } else if (property == "R04") {
        using namespace bm;
        for (int side = 1; side < 3; ++side) {
            std::vector<op> al = {{op_write, 1, 0}, {op_write, 2, 0}, {op_write, 3, 0}, {op_write, 6, 0}, {op_seek, 1, 0}, {op_seek, 9, 0}, {op_seek, -1, 1}, {op_seek, 0, 2}, {op_flush, 0, 0}};
            if (side == 2) { al.push_back({op_read, 1, 0}); al.push_back({op_read, 6, 0}); }
            const unsigned depth = thorough ? 4 : 3;
            const unsigned bound = thorough ? 2 : 1;
            std::vector<std::size_t> c = {0, 1, 3, 4};
            auto decode = [=] (u64 i, std::size_t& cap, unsigned& ending, std::vector<op>& ops) {
                vp::digits d{i};
                cap = c[d.next(c.size())];
                ending = d.next(5);
                for (unsigned k = 0; k < depth; ++k) ops.push_back(al[d.next(al.size())]);
            };
            vp::add_space(std::string(mode_names[side]) + " crash points", "all " + std::to_string(depth) + "-operation histories over " + std::to_string(al.size())
                + " operations, 4 buffer capacities, 5 ways to end, every crash point around a write call, up to " + std::to_string(bound) + " interrupted or partial writes",
                c.size() * 5 * vp::ipow(al.size(), depth),
                [=] (u64 i) { std::size_t cap; unsigned e; std::vector<op> o; decode(i, cap, e, o); r04_run(side, cap, 5, o, e, bound); },
                [=] (u64 i) { std::size_t cap; unsigned e; std::vector<op> o; decode(i, cap, e, o); return "capacity " + std::to_string(cap) + ":" + show_ops(o) + " " + ending_names[e]; });
        }
        {
            static const std::vector<op> al = {{op_write, 1, 0}, {op_write, 2, 0}, {op_write, 3, 0}, {op_write, 6, 0}, {op_write, 9, 0}, {op_seek, 1, 0}, {op_seek, 9, 0}, {op_flush, 0, 0}, {op_read, 1, 0}};
            static const std::size_t c[] = {0, 1, 3, 4};
            auto decode = [] (u64 i, unsigned& storm, std::size_t& cap, unsigned& ending, std::vector<op>& ops) {
                vp::digits d{i};
                storm = 1 + d.next(chooser::storms);
                cap = c[d.next(4)];
                ending = d.next(5);
                for (unsigned k = 0; k < 2; ++k) ops.push_back(al[d.next(al.size())]);
            };
            vp::add_space("storms", "all 2-operation histories over 9 operations, 4 buffer capacities, 5 ways to end, every crash point around a write call, every write interrupted 1 to 100 times or cut to one byte, half or all but one byte", chooser::storms * 20 * 81,
                [=] (u64 i) { unsigned st; std::size_t cap; unsigned e; std::vector<op> o; decode(i, st, cap, e, o); r04_run(2, cap, 5, o, e, 0, st); },
                [=] (u64 i) { unsigned st; std::size_t cap; unsigned e; std::vector<op> o; decode(i, st, cap, e, o); return "storm " + std::to_string(st) + ", capacity " + std::to_string(cap) + ":" + show_ops(o) + " " + ending_names[e]; });
        }
        {
            static const std::vector<op> al = {{op_write, 3, 0}, {op_write, 254, 0}, {op_write, 1025, 0}, {op_write, 4096, 0}, {op_write, 65538, 0}, {op_seek, 100, 0}, {op_seek, -255, 1}, {op_seek, 300, 1}, {op_flush, 0, 0}, {op_read, 257, 0}};
            static const std::size_t c[] = {0, 255, 256, 1024, 65537};
            auto decode = [] (u64 i, std::size_t& cap, unsigned& ending, std::vector<op>& ops) {
                vp::digits d{i};
                cap = c[d.next(5)];
                ending = d.next(5);
                for (unsigned k = 0; k < 2; ++k) ops.push_back(al[d.next(al.size())]);
            };
            vp::add_space("sizes", "all 2-operation histories over 10 operations with writes of up to 65538 bytes, 5 buffer capacities to 65537, 5 ways to end, every crash point around a write call, up to 1 interrupted or partial write", 25 * 100,
                [=] (u64 i) { std::size_t cap; unsigned e; std::vector<op> o; decode(i, cap, e, o); r04_run(2, cap, 600, o, e, 1); },
                [=] (u64 i) { std::size_t cap; unsigned e; std::vector<op> o; decode(i, cap, e, o); return "capacity " + std::to_string(cap) + ":" + show_ops(o) + " " + ending_names[e]; });
        }
        const unsigned depth = thorough ? 6 : 5;
        vp::add_space("tied", "all " + std::to_string(depth) + "-operation histories of an input tied to an output, 3x3 buffer capacities", 9 * vp::ipow(7, depth),
            [=] (u64 i) {
                static const std::size_t c[] = {0, 3, 16};
                vp::digits d{i};
                std::size_t a = c[d.next(3)], b = c[d.next(3)];
                std::vector<unsigned> ops;
                for (unsigned k = 0; k < depth; ++k) ops.push_back(d.next(7));
                r04_tied(a, b, ops);
            });
    } else if (property == "R05") {
        const unsigned depth = thorough ? 5 : 4;
        static const std::size_t c[] = {0, 2, 16};
        auto decode = [=] (u64 i) {
            vp::digits d{i / 9};
            std::vector<unsigned> ops;
            for (unsigned k = 0; k < depth; ++k) ops.push_back(d.next(r05_ops));
            return ops;
        };
        vp::add_space("lifecycle", "all " + std::to_string(depth) + "-operation histories of two file objects and two paths over " + std::to_string(r05_ops) + " operations from 3 starting points, 3 buffer capacities",
            9 * vp::ipow(r05_ops, depth),
            [=] (u64 i) { r05_run(c[i % 3], i / 3 % 3, decode(i)); },
            [=] (u64 i) { std::string s = "capacity " + std::to_string(c[i % 3]) + ", start " + std::to_string(i / 3 % 3) + ":"; for (unsigned o : decode(i)) s += " " + r05_name(o); return s; });
        const unsigned short_depth = thorough ? 4 : 3;
        auto decode_short = [=] (u64 i) {
            vp::digits d{i / 12};
            std::vector<unsigned> ops;
            for (unsigned k = 0; k < short_depth; ++k) ops.push_back(d.next(r05_ops));
            return ops;
        };
        vp::add_space("lowest descriptors", "all " + std::to_string(short_depth) + "-operation histories of the same operations with descriptor 0, or 0 and 1, free for the files to get, 3 starting points, 2 buffer capacities",
            12 * vp::ipow(r05_ops, short_depth),
            [=] (u64 i) { r05_run(c[i % 2 * 2], i / 2 % 3, decode_short(i), 1 + i / 6 % 2); },
            [=] (u64 i) { std::string s = "capacity " + std::to_string(c[i % 2 * 2]) + ", start " + std::to_string(i / 2 % 3) + ", " + std::to_string(1 + i / 6 % 2) + " low descriptors free:"; for (unsigned o : decode_short(i)) s += " " + r05_name(o); return s; });
        vp::add_space("kinds of paths", std::to_string(r05_kinds) + " kinds of paths (existing, missing, links, dangling links, no directory, long, absolute, unusual names, a device) x 3 modes x fail or create x 3 ways to open, 3 buffer capacities",
            r05_kinds * 3 * 2 * 3 * 3,
            [] (u64 i) {
                vp::digits d{i};
                std::size_t cap = c[d.next(3)];
                static const access_mode modes[] = {cmp::read_only, cmp::write_only, cmp::read_and_write};
                access_mode mode = modes[d.next(3)];
                bool create = d.next(2);
                unsigned from = d.next(3);
                r05_path(cap, d.next(r05_kinds), mode, create, from);
            });
        r05_permission_space();
        vp::add_space("six files", "six files open at once, closed in each of the 720 orders by each of 4 means while the others are written, 3 buffer capacities",
            720 * 4 * 3,
            [] (u64 i) { r05_many(c[i % 3], i / 12, i / 3 % 4); });
    }
}

int
main (
    int argc,
    char** argv
) {
    return vp::main_(argc, argv, setup);
}
