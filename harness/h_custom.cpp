// R07: resources that a program defines by raw transfers of its own.
#include <utility>
#include <cmp/io/input_resource.hpp>
#include <cmp/io/output_resource.hpp>
#include <cmp/io/io_resource.hpp>
#include <cmp/io/data_input_stream.hpp>
#include <cmp/io/data_output_stream.hpp>
#include <cmp/io/text_input_stream.hpp>
#include <cmp/io/text_output_stream.hpp>

#include "ref_unicode.hpp"
#include "vp.hpp"

#define VP_OWN_CALLS
#include "syscalls.hpp"

using vp::u64;
using bytes = std::vector<unsigned char>;

// A sink that keeps what it is given.
struct sink : cmp::output_resource {
    bytes got;
    std::vector<std::size_t> chunks;
    explicit sink (std::size_t cap) : cmp::transfer_resource{cap}, cmp::output_resource{cap} {}
    bool is_at_end () const noexcept override { return false; }
    std::size_t
    write_raw (
        const std::byte* data,
        std::size_t n
    ) override
    {
        for (std::size_t i = 0; i < n; ++i) got.push_back(static_cast<unsigned char>(data[i]));
        chunks.push_back(n);
        return n;
    }
};

// A source that hands over as much as it likes: all that is asked for, less, or for now nothing.
struct source : cmp::input_resource {
    const bytes& content;
    chooser& ch;
    std::size_t pulled = 0;
    std::size_t enough = 0;  // what completes the request
    std::size_t most = 0;    // that may be asked for at once
    bool dry_spells = false; // it may have nothing for now
    unsigned nothing = 0;
    unsigned cut = 0;
    std::string problem;
    const sink* tied = nullptr;
    const bytes* want_out = nullptr;

    source (const bytes& b, chooser& c, std::size_t cap) : cmp::transfer_resource{cap}, cmp::input_resource{cap}, content(b), ch(c) {}
    bool is_at_end () const noexcept override { return pulled == content.size(); }
    std::size_t
    read_raw (
        std::byte* data,
        std::size_t n,
        cmp::read_request
    ) override
    {
        if (problem.empty()) {
            if (pulled >= enough) problem = "the source is asked for more than the request needs";
            else if (n > most) problem = std::to_string(n) + " bytes are asked for at once";
            else if (tied && tied->got != *want_out) problem = "the source is asked while tied output isn't out yet";
        }
        std::size_t k = std::min(n, content.size() - pulled);
        if (k) {
            if (ch.storm) k = ch.stormy(k);
            else switch (unsigned c = ch.pick(1 + dry_spells + (k > 1) + (k > 2) + (k > 3)); c && !dry_spells ? c + 1 : c) {
            case 1: k = 0; break;
            case 2: k = 1; ++cut; break;
            case 3: k = k - 1; ++cut; break;
            case 4: k = k / 2; ++cut; break;
            }
        }
        for (std::size_t i = 0; i < k; ++i) data[i] = std::byte(content[pulled + i]);
        // What lies behind may be anything.
        for (std::size_t i = k; i < std::min(n, k + 64); ++i) data[i] = std::byte(0xEE);
        pulled += k;
        if (k == 0) ++nothing;
        return k;
    }
};

static bytes
filled (
    std::size_t n
) {
    bytes b;
    for (std::size_t i = 0; i < n; ++i) b.push_back((i * 37 + i / 256 * 11 + 5) % 251);
    return b;
}

// One request, checked against the content. Returns what was delivered.
static std::size_t
request (
    source& r,
    std::size_t cap,
    std::size_t& consumed,
    std::size_t n,
    const std::string& trace
) {
    std::vector<std::byte> data(n + 1, std::byte{0x77});
    r.enough = n ? consumed + n : ~std::size_t(0); // whether nothing is asked for by way of the buffer is left open
    r.most = std::max(cap, n);
    const unsigned before = r.nothing;
    const std::size_t got = r.read(data.data(), n);
    VP_CHECK(r.problem.empty(), trace, ": ", r.problem);
    VP_CHECK(got <= n, trace, ": ", got, " bytes of ", n);
    VP_CHECK(data[n] == std::byte{0x77}, trace, ": more was stored than asked for");
    VP_CHECK(got == n || r.nothing != before, trace, ": ", got, " of ", n, " although the source had more");
    VP_CHECK(consumed + got <= r.pulled, trace, ": ", got, " bytes out of nowhere");
    for (std::size_t i = 0; i < got; ++i)
        VP_CHECK(static_cast<unsigned char>(data[i]) == r.content[consumed + i], trace, ": byte ", consumed + i, " is ", int(data[i]), " not ", int(r.content[consumed + i]));
    consumed += got;
    if (got < n) VP_CHECK(consumed == r.pulled, trace, ": ", r.pulled - consumed, " bytes are held back");
    vp::outcome(got == n ? "all" : got ? "part" : "nothing");
    vp::step(vp::mix(vp::mix(consumed, r.pulled), vp::mix(cap, n)));
    return got;
}

static const std::size_t amounts[] = {1, 2, 3, 5, 9, 0};
static const std::size_t caps[] = {0, 1, 2, 3, 4, 7, 16};

static void
input_case (
    std::size_t cap,
    std::size_t size,
    const std::vector<std::size_t>& reads,
    unsigned bound,
    bool dry,
    unsigned storm = 0
) {
    const bytes content = filled(size);
    chooser ch;
    ch.bound = bound;
    ch.storm = storm;
    do {
        ch.start();
        source r(content, ch, cap);
        r.dry_spells = dry;
        std::size_t consumed = 0;
        std::string trace = "capacity " + std::to_string(cap) + ", " + std::to_string(size) + " bytes, choices " + ch.show() + ":";
        for (std::size_t n : reads) {
            trace += " read " + std::to_string(n);
            request(r, cap, consumed, n, trace);
        }
        // Whatever was read ahead is still there.
        ch.bound = 0;
        trace += " the rest";
        request(r, cap, consumed, size - consumed + 1, trace);
        ch.bound = bound;
        VP_CHECK(consumed == size, trace, ": ", consumed, " of ", size, " bytes in the end");
        if (r.cut) vp::outcome("cut short");
        vp::outcome("schedules");
    } while (ch.advance());
}

// Write 1, 2, 3, 6, 9 or nothing, or flush.
static const std::size_t written[] = {1, 2, 3, 6, 9, 0};

static void
output_case (
    std::size_t cap,
    const std::vector<unsigned>& ops,
    std::size_t unit = 0 // that much more for every write
) {
    sink w(cap);
    bytes want;
    std::string trace = "capacity " + std::to_string(cap) + ":";
    unsigned char next = 1;
    auto check = [&] {
        VP_CHECK(w.got.size() <= want.size() && std::equal(w.got.begin(), w.got.end(), want.begin()), trace, ": the sink got ", vp::show(w.got), " of ", vp::show(want));
        VP_CHECK(want.size() - w.got.size() <= cap, trace, ": ", want.size() - w.got.size(), " bytes are held back");
        vp::step(vp::mix(vp::mix(want.size(), w.got.size()), cap));
    };
    for (unsigned o : ops) {
        if (o == 6) {
            trace += " flush";
            w.flush();
            VP_CHECK(w.got == want, trace, ": the sink got ", vp::show(w.got), " of ", vp::show(want));
            vp::outcome("flushed");
        } else {
            const std::size_t n = written[o] ? written[o] + unit : 0;
            trace += " write " + std::to_string(n);
            std::vector<std::byte> data(n + 1);
            for (std::size_t i = 0; i < n; ++i) { data[i] = std::byte(next); want.push_back(next); if (++next == 251) next = 1; }
            const std::size_t k = w.write(data.data(), n);
            VP_CHECK(k == n, trace, ": returned ", k);
            for (auto& b : data) b = std::byte{0}; // it's the caller's again
            vp::outcome("written");
        }
        check();
    }
    w.flush();
    VP_CHECK(w.got == want, trace, " flush: the sink got ", vp::show(w.got), " of ", vp::show(want));
}

// Reads of a source tied to a sink.
static void
tied_case (
    std::size_t in_cap,
    std::size_t out_cap,
    const std::vector<unsigned>& ops
) {
    const bytes content = filled(12);
    chooser ch;
    ch.bound = 1;
    do {
        ch.start();
        sink w(out_cap), other(out_cap);
        source r(content, ch, in_cap);
        bytes want;
        bool tied = false;
        std::size_t consumed = 0;
        unsigned char next = 1;
        std::string trace = "capacities " + std::to_string(in_cap) + " and " + std::to_string(out_cap) + ", choices " + ch.show() + ":";
        for (unsigned o : ops) {
            switch (o) {
            case 0: case 1: {
                trace += o ? " write 5" : " write 1";
                std::byte d[5];
                for (unsigned i = 0; i < (o ? 5 : 1); ++i) { d[i] = std::byte(next); want.push_back(next++); }
                VP_CHECK(w.write(d, o ? 5 : 1) == (o ? 5 : 1), trace);
                break;
            }
            case 2: case 3:
                trace += o == 3 ? " read 6" : " read 1";
                request(r, in_cap, consumed, o == 3 ? 6 : 1, trace);
                if (tied) VP_CHECK(w.got == want, trace, ": tied output isn't out after a read");
                break;
            case 4: trace += " tie"; r.tie(w); r.tied = &w; r.want_out = &want; tied = true; break;
            case 5: trace += " tie another"; r.tie(other); r.tied = nullptr; tied = false; break;
            }
            VP_CHECK(w.got.size() <= want.size() && std::equal(w.got.begin(), w.got.end(), want.begin()), trace, ": the sink got ", vp::show(w.got), " of ", vp::show(want));
        }
        vp::outcome("tied schedules");
    } while (ch.advance());
}

// Streams over a source that hands things over in pieces.
static void
stream_case (
    unsigned kind, // 0 data, 1..3 text
    bool swapped,
    std::size_t cap,
    unsigned which,
    unsigned bound,
    unsigned storm
) {
    const std::endian end = swapped ? std::endian::big : std::endian::little;
    static const std::u32string texts[] = {U"a\u00E9\u20AC\U0001D11E b", U"\U0010FFFF\U00010000\uFFFD\u07FF", U"12 -7\nline \u2028x\nend"};
    bytes content;
    std::vector<u64> values = {0x81, 0xA1B2, 0xC1C2C3C4, 0xD1D2D3D4D5D6D7D8};
    auto put = [&] (u64 v, unsigned n) { for (unsigned i = 0; i < n; ++i) content.push_back(v >> 8 * (swapped ? n - 1 - i : i)); };
    if (kind == 0) {
        for (unsigned i = 0; i < 4; ++i) put(values[(i + which) % 4], 1u << (i + which) % 4);
        put(7, 1);
    } else for (char32_t c : texts[which]) {
        if (kind == 1) {
            if (c < 0x80) content.push_back(c);
            else if (c < 0x800) { content.push_back(0xC0 | c >> 6); content.push_back(0x80 | (c & 63)); }
            else if (c < 0x10000) { content.push_back(0xE0 | c >> 12); content.push_back(0x80 | (c >> 6 & 63)); content.push_back(0x80 | (c & 63)); }
            else { content.push_back(0xF0 | c >> 18); content.push_back(0x80 | (c >> 12 & 63)); content.push_back(0x80 | (c >> 6 & 63)); content.push_back(0x80 | (c & 63)); }
        } else if (kind == 2) {
            if (c >= 0x10000) { put(0xD7C0 + (c >> 10), 2); put(0xDC00 + (c & 0x3FF), 2); }
            else put(c, 2);
        } else put(c, 4);
    }
    chooser ch;
    ch.bound = bound;
    ch.storm = storm;
    do {
        ch.start();
        source r(content, ch, cap);
        r.enough = r.most = ~std::size_t(0);
        const std::string trace = "stream of kind " + std::to_string(kind) + (swapped ? " swapped" : "") + ", capacity " + std::to_string(cap) + ", content " + std::to_string(which) + ", choices " + ch.show();
        bool ended = false;
        if (kind == 0) {
            cmp::data_input_stream<source> s(r, end);
            for (unsigned i = 0; i < 4; ++i) {
                const u64 w = values[(i + which) % 4];
                u64 v = 0;
                switch ((i + which) % 4) {
                case 0: { std::uint8_t x; s >> x; v = x; break; }
                case 1: { std::uint16_t x; s >> x; v = x; break; }
                case 2: { std::uint32_t x; s >> x; v = x; break; }
                case 3: { std::uint64_t x; s >> x; v = x; break; }
                }
                VP_CHECK(v == w, trace, ": value ", i, " is ", v, " not ", w);
                vp::step(vp::mix(r.pulled, i));
            }
            try { std::uint16_t x; s >> x; } catch (const cmp::read_past_end&) { ended = true; }
        } else {
            cmp::text_input_stream<source> s(r, kind == 1 ? cmp::utf8 : kind == 2 ? cmp::utf16 : cmp::utf32, end);
            for (char32_t w : texts[which]) {
                char32_t c = 0;
                s >> c;
                VP_CHECK(c == w, trace, ": U+", std::hex, unsigned(c), " instead of U+", unsigned(w));
                vp::step(vp::mix(r.pulled, c));
            }
            try { char32_t c; s >> c; } catch (const cmp::read_past_end&) { ended = true; }
        }
        VP_CHECK(ended, trace, ": no end");
        vp::outcome(kind ? "texts" : "values");
        vp::outcome("schedules");
    } while (ch.advance());
}

// Both ways through one resource that cannot seek.
struct two_way : cmp::io_resource {
    bytes in = {'a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k'}, out;
    std::size_t at = 0;
    explicit two_way (std::size_t cap) : cmp::transfer_resource{cap}, cmp::io_resource{cap} {}
    bool is_at_end () const noexcept override { return at == in.size(); }
    std::size_t
    read_raw (
        std::byte* data,
        std::size_t n,
        cmp::read_request
    ) override
    {
        std::size_t k = std::min(n, in.size() - at);
        for (std::size_t i = 0; i < k; ++i) data[i] = std::byte(in[at++]);
        return k;
    }
    std::size_t
    write_raw (
        const std::byte* data,
        std::size_t n
    ) override
    {
        for (std::size_t i = 0; i < n; ++i) out.push_back(static_cast<unsigned char>(data[i]));
        return n;
    }
};

static void
two_way_case (
    std::size_t cap,
    const std::vector<unsigned>& ops
) {
    two_way r(cap);
    bytes want;
    std::size_t consumed = 0;
    unsigned char next = '0';
    std::string trace = "capacity " + std::to_string(cap) + ":";
    for (unsigned o : ops) {
        if (o < 2) {
            const std::size_t n = o ? 3 : 1;
            trace += " read " + std::to_string(n);
            std::byte d[3];
            std::size_t got = r.read(d, n), w = std::min(n, r.in.size() - consumed);
            VP_CHECK(got == w, trace, ": ", got, " bytes");
            for (std::size_t i = 0; i < got; ++i) VP_CHECK(static_cast<unsigned char>(d[i]) == r.in[consumed + i], trace);
            consumed += got;
        } else if (o < 4) {
            const std::size_t n = o == 3 ? 5 : 1;
            trace += " write " + std::to_string(n);
            std::byte d[5];
            for (std::size_t i = 0; i < n; ++i) { d[i] = std::byte(next); want.push_back(next++); }
            VP_CHECK(r.write(d, n) == n, trace);
        } else { trace += " flush"; r.flush(); VP_CHECK(r.out == want, trace, ": ", vp::show(r.out), " not ", vp::show(want)); }
        vp::step(vp::mix(vp::mix(consumed, r.at), vp::mix(want.size(), r.out.size())));
    }
    r.flush();
    VP_CHECK(r.out == want, trace, " flush: ", vp::show(r.out), " not ", vp::show(want));
    vp::outcome("both ways");
}

static void
setup (
    const std::string&,
    bool thorough
) {
    auto show = [] (const std::vector<std::size_t>& v) { std::string s; for (auto n : v) s += " " + std::to_string(n); return s; };
    for (unsigned variant = 0; variant < 4; ++variant) {
        const bool dry = variant % 2;
        const unsigned bound = variant / 2 + 1, depth = (thorough ? 5 : 4) - variant / 2;
        static const std::size_t sizes[] = {0, 1, 5, 11, 20};
        auto decode = [=] (u64 i, std::size_t& cap, std::size_t& size) {
            vp::digits d{i};
            cap = caps[d.next(7)];
            size = sizes[d.next(5)];
            std::vector<std::size_t> r;
            for (unsigned k = 0; k < depth; ++k) r.push_back(amounts[d.next(6)]);
            return r;
        };
        vp::add_space(std::string(dry ? "sources with dry spells, " : "sources, ") + std::to_string(bound), "all " + std::to_string(depth) + "-request histories over 6 sizes of requests, 7 buffer capacities, 5 lengths of content, every placement of up to " + std::to_string(bound) + " raw reads that hand over "
            + (dry ? "nothing, one byte, half or all but one byte" : "one byte, half or all but one byte"),
            35 * vp::ipow(6, depth),
            [=] (u64 i) { std::size_t cap, size; auto r = decode(i, cap, size); input_case(cap, size, r, bound, dry); },
            [=] (u64 i) { std::size_t cap, size; auto r = decode(i, cap, size); return "capacity " + std::to_string(cap) + ", " + std::to_string(size) + " bytes:" + show(r); });
    }
    {
        static const unsigned storms[] = {1, 6, 7};
        static const std::size_t lengths[] = {1, 5, 64, 257, 1025, 65537};
        static const std::size_t wide[] = {0, 1, 3, 16, 255, 256, 1024, 65536};
        auto decode = [] (u64 i, unsigned& storm, std::size_t& cap, std::size_t& size) {
            vp::digits d{i};
            storm = d.next(4);
            storm = storm == 3 ? 0 : storms[storm];
            cap = wide[d.next(8)];
            size = lengths[d.next(6)];
            std::vector<std::size_t> r;
            for (unsigned k = 0; k < 2; ++k) { static const std::size_t a[] = {1, 3, 15, 255, 257, 1023, 1024, 65535, 65536}; r.push_back(a[d.next(9)]); }
            return r;
        };
        vp::add_space("source sizes", "all 2-request histories over 9 sizes of requests to 65536, 8 buffer capacities to 65536, 6 lengths of content, raw reads complete or all cut to one byte, half or all but one byte", 4 * 8 * 6 * 81,
            [=] (u64 i) { unsigned st; std::size_t cap, size; auto r = decode(i, st, cap, size); input_case(cap, size, r, 0, false, st); },
            [=] (u64 i) { unsigned st; std::size_t cap, size; auto r = decode(i, st, cap, size); return "storm " + std::to_string(st) + ", capacity " + std::to_string(cap) + ", " + std::to_string(size) + " bytes:" + show(r); });
    }
    const unsigned od = thorough ? 7 : 6;
    auto ops = [] (u64 i, unsigned radix, unsigned n) { vp::digits d{i}; std::vector<unsigned> r; for (unsigned k = 0; k < n; ++k) r.push_back(d.next(radix)); return r; };
    vp::add_space("sinks", "all " + std::to_string(od) + "-operation histories over 7 operations, 7 buffer capacities", 7 * vp::ipow(7, od),
        [=] (u64 i) { output_case(caps[i % 7], ops(i / 7, 7, od)); });
    vp::add_space("sink sizes", "all 3-operation histories over 7 operations with writes around 16, 256, 1024 and 65536 bytes, buffers of about those sizes", 4 * 3 * 343,
        [=] (u64 i) { static const std::size_t u[] = {16, 256, 1024, 65536}; output_case(u[i % 4] + i / 4 % 3 - 1, ops(i / 12, 7, 3), u[i % 4] - 4); });
    const unsigned td = thorough ? 6 : 5;
    vp::add_space("ties", "all " + std::to_string(td) + "-operation histories of a source and a sink over 6 operations, 3x3 buffer capacities, every single raw read cut short", 9 * vp::ipow(6, td),
        [=] (u64 i) { static const std::size_t c[] = {0, 2, 16}; tied_case(c[i % 3], c[i / 3 % 3], ops(i / 9, 6, td)); });
    vp::add_space("streams", "values and texts in every encoding and byte order over such a source, 7 buffer capacities, every placement of up to 2 raw reads cut short", 4 * 2 * 7 * 3,
        [=] (u64 i) { vp::digits d{i}; unsigned kind = d.next(4); bool sw = d.next(2); std::size_t cap = caps[d.next(7)]; stream_case(kind, sw, cap, d.next(3), thorough ? 3 : 2, 0); });
    vp::add_space("streams, all cut", "the same with all raw reads cut to one byte, half or all but one byte", 4 * 2 * 7 * 3 * 3,
        [=] (u64 i) { static const unsigned storms[] = {1, 6, 7}; vp::digits d{i}; unsigned kind = d.next(4); bool sw = d.next(2); std::size_t cap = caps[d.next(7)]; unsigned w = d.next(3); stream_case(kind, sw, cap, w, 0, storms[d.next(3)]); });
    const unsigned bd = thorough ? 8 : 6;
    vp::add_space("both ways", "all " + std::to_string(bd) + "-operation histories of reading and writing one resource that cannot seek over 5 operations, 7 buffer capacities", 7 * vp::ipow(5, bd),
        [=] (u64 i) { two_way_case(caps[i % 7], ops(i / 7, 5, bd)); });
}

int
main (
    int argc,
    char** argv
) {
    return vp::main_(argc, argv, setup);
}
