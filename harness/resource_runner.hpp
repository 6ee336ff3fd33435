// A resource under test next to its byte-array model.
#pragma once
#include <iterator>
#include <memory>
#include <string>
#include <vector>

#include "byte_model.hpp"

using bm::bytes;
using bm::op;
using vp::u64;

static const char* side_names[] = {"input", "output", "io"};

// A uniform face on the six classes.
struct device {
    virtual ~device () = default;
    virtual std::size_t read (std::byte*, std::size_t) = 0;
    virtual std::size_t write (const std::byte*, std::size_t) = 0;
    virtual void flush () = 0;
    virtual void seek (std::int64_t, int) = 0;
    virtual void back (std::int64_t) = 0;
    virtual void forward (std::int64_t) = 0;
    virtual std::int64_t pos () = 0;
    virtual bool at_end () = 0;
    virtual bytes content () = 0;
    virtual bytes const_content () = 0;
};

static std::vector<op>
alphabet (
    int side,
    std::size_t elem,
    bool rich
) {
    using namespace bm;
    const std::int64_t e = elem;
    std::vector<op> a;
    if (side != 1) for (std::int64_t n : {1, 2, 3, 6}) a.push_back({op_read, n, 0});
    if (side != 0) for (std::int64_t n : {1, 2, 3, 6}) a.push_back({op_write, n * (elem > 2 ? 2 : 1), 0});
    a.push_back({op_seek, 0, 0});
    a.push_back({op_seek, 2, 0});
    a.push_back({op_seek, -1, 1});
    a.push_back({op_seek, 2, 1});
    a.push_back({op_seek, -e, 2});
    if (rich) {
        a.push_back({op_seek, 9, 0});
        a.push_back({op_seek, 1, 2});
        a.push_back({op_seek, 0, 2});
        a.push_back({op_seek, -20, 1});
        a.push_back({op_back, 1, 0});
        a.push_back({op_forward, 1, 0});
    }
    if (side != 0) a.push_back({op_flush, 0, 0});
    return a;
}

// Operations that transfer nothing or go nowhere, among some that do.
static std::vector<op>
idle_alphabet (
    int side
) {
    using namespace bm;
    std::vector<op> a;
    if (side != 1) for (std::int64_t n : {0, 1, 5}) a.push_back({op_read, n, 0});
    if (side != 0) for (std::int64_t n : {0, 2, 6}) a.push_back({op_write, n, 0});
    a.push_back({op_seek, 0, 1});
    a.push_back({op_seek, 1, 0});
    a.push_back({op_seek, -3, 1});
    a.push_back({op_seek, -6, 2});
    a.push_back({op_back, 0, 0});
    a.push_back({op_back, -1, 0});
    a.push_back({op_back, 3, 0});
    a.push_back({op_forward, 0, 0});
    a.push_back({op_forward, -2, 0});
    if (side != 0) a.push_back({op_flush, 0, 0});
    return a;
}

// Operations whose arguments grow with the content.
static std::vector<op>
size_alphabet (
    int side,
    std::int64_t n
) {
    using namespace bm;
    std::vector<op> a;
    if (side != 1) for (std::int64_t k : {std::int64_t(1), n - 1, n + 1}) a.push_back({op_read, k, 0});
    if (side != 0) for (std::int64_t k : {std::int64_t(2), n}) a.push_back({op_write, k / 2 * 2, 0});
    a.push_back({op_seek, n - 1, 0});
    a.push_back({op_seek, -n / 2, 1});
    a.push_back({op_seek, -2, 2});
    a.push_back({op_back, n - 1, 0});
    a.push_back({op_forward, n / 2, 0});
    if (side != 0) a.push_back({op_flush, 0, 0});
    return a;
}

static const std::size_t content_sizes[] = {16, 254, 256, 258, 1022, 1024, 1026, 4094, 4096, 4098, 32766, 32768, 65534, 65536, 65538};
static const std::size_t content_caps[] = {0, 3, 255, 257, 1024, 65535, 65537};
static constexpr std::size_t content_size_count = std::size(content_sizes), content_cap_count = std::size(content_caps);

// The period of what is written isn't a power of two.
inline unsigned char
following (
    unsigned char c
) {
    return c == 250 ? 0 : c + 1;
}

struct runner {
    device& d;
    bm::model m;
    int side;
    bool unbuffered;
    bool pending = false;
    unsigned char next = 0x41;
    std::string trace;

    void
    fail (
        const std::string& what
    ) {
        throw vp::fail{trace + ": " + what};
    }
    void
    same_content (
        const char* when
    ) {
        bytes c = d.content();
        if (c != m.content) fail(std::string("content ") + when + " is " + vp::show(c) + " not " + vp::show(m.content));
        if (d.const_content() != c) fail("constant access to the content differs");
    }
    void
    observe ()
    {
        std::int64_t p = d.pos();
        if (p != m.pos) fail("position " + std::to_string(p) + " not " + std::to_string(m.pos));
        // With data still in the buffer, padding of a partial element isn't there yet.
        if (!(pending && m.elem > 1 && m.pos % std::int64_t(m.elem) != 0)) {
            bool e = d.at_end();
            if (e != m.at_end()) fail(e ? "claims to be at the end" : "doesn't notice the end");
        }
        if (unbuffered || !pending) same_content("without pending data");
    }
    void
    apply (
        const op& o
    ) {
        if (o.kind == bm::op_write && o.arg == 0 && m.pos > std::int64_t(m.content.size())) return; // not claimed
        trace += " " + bm::name(o);
        switch (o.kind) {
        case bm::op_read: {
            std::vector<std::byte> buf(o.arg, std::byte{0xEE});
            std::unique_ptr<std::byte[]> x(new std::byte[o.arg]); // exactly as large as asked for
            std::fill(x.get(), x.get() + o.arg, std::byte{0xEE});
            std::size_t n = d.read(x.get(), o.arg);
            bytes want = m.read(o.arg);
            if (n != want.size()) fail("returned " + std::to_string(n) + " not " + std::to_string(want.size()));
            for (std::size_t i = 0; i < n; ++i)
                if (static_cast<unsigned char>(x[i]) != want[i]) fail("byte " + std::to_string(i) + " is " + std::to_string(int(x[i])) + " not " + std::to_string(want[i]));
            for (std::size_t i = n; i < std::size_t(o.arg); ++i)
                if (x[i] != std::byte{0xEE}) fail("byte " + std::to_string(i) + " beyond what was read was written");
            if (side == 2) pending = false;
            vp::outcome(n == 0 ? "read nothing" : n < std::size_t(o.arg) ? "read part" : "read all");
            break;
        }
        case bm::op_write: {
            std::unique_ptr<std::byte[]> x(new std::byte[o.arg]);
            bytes b;
            for (std::int64_t i = 0; i < o.arg; ++i) { b.push_back(next); x[i] = std::byte(next); next = following(next); }
            bool beyond = m.pos > std::int64_t(m.content.size());
            std::size_t n = d.write(x.get(), o.arg);
            if (n != b.size()) fail("returned " + std::to_string(n) + " not " + std::to_string(b.size()));
            m.write(b);
            pending = true;
            vp::outcome(beyond ? "wrote beyond the end" : "wrote");
            break;
        }
        case bm::op_seek: d.seek(o.arg, o.ref); m.seek(o.arg, o.ref); pending = false; vp::outcome("moved"); break;
        case bm::op_back: d.back(o.arg); m.seek(-o.arg, 1); pending = false; vp::outcome("moved"); break;
        case bm::op_forward: d.forward(o.arg); m.seek(o.arg, 1); pending = false; vp::outcome("moved"); break;
        case bm::op_flush: d.flush(); pending = false; vp::outcome("flushed"); break;
        }
        if (unbuffered) pending = false;
        observe();
        vp::step(vp::mix(m.hash(), (side * 8 + m.elem) * 2 + pending));
    }
};

