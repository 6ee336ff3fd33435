// R01 and R06: resources backed by containers.
#include <utility>
#include <cmp/io/opaque_container_input_resource.hpp>
#include <cmp/io/opaque_container_io_resource.hpp>
#include <cmp/io/opaque_container_output_resource.hpp>
#include <cmp/io/transparent_container_input_resource.hpp>
#include <cmp/io/transparent_container_io_resource.hpp>
#include <cmp/io/transparent_container_output_resource.hpp>

#include <memory>
#include <optional>

#include "resource_runner.hpp"

template <typename Container>
Container
make_content (
    const bytes& b
) {
    Container c;
    c.resize(b.size() / sizeof(typename Container::value_type));
    if (!b.empty()) std::memcpy(static_cast<void*>(c.data()), b.data(), c.size() * sizeof(typename Container::value_type));
    return c;
}

template <typename Container>
bytes
content_bytes (
    const Container& c
) {
    bytes b(c.size() * sizeof(typename Container::value_type));
    if (!b.empty()) std::memcpy(b.data(), c.data(), b.size());
    return b;
}

template <typename R, bool In, bool Out>
struct adaptor : device {
    R& r;
    explicit adaptor (R& x) : r(x) {}
    std::size_t read (std::byte* d, std::size_t n) override { if constexpr (In) return r.read(d, n); else return 0; }
    std::size_t write (const std::byte* d, std::size_t n) override { if constexpr (Out) return r.write(d, n); else return 0; }
    void flush () override { if constexpr (Out) r.flush(); }
    void
    seek (
        std::int64_t o,
        int ref
    ) override {
        r.set_position(o, ref == 0 ? cmp::position_reference::begin : ref == 1 ? cmp::position_reference::current : cmp::position_reference::end);
    }
    void back (std::int64_t n) override { r.go_back(n); }
    void forward (std::int64_t n) override { r.go_forward(n); }
    std::int64_t pos () override { return std::as_const(r).get_position(); }
    bool at_end () override { return std::as_const(r).is_at_end(); }
    bytes content () override { return content_bytes(r.grab_content()); }
    bytes const_content () override { return content_bytes(std::as_const(r).grab_content()); }
};

template <typename Container, bool Transparent, int Side>
struct maker;

template <typename C> struct maker<C, true, 0> { using type = cmp::transparent_container_input_resource<C>; };
template <typename C> struct maker<C, true, 1> { using type = cmp::transparent_container_output_resource<C>; };
template <typename C> struct maker<C, true, 2> { using type = cmp::transparent_container_io_resource<C>; };
template <typename C> struct maker<C, false, 0> { using type = cmp::opaque_container_input_resource<C>; };
template <typename C> struct maker<C, false, 1> { using type = cmp::opaque_container_output_resource<C>; };
template <typename C> struct maker<C, false, 2> { using type = cmp::opaque_container_io_resource<C>; };

static bytes
initial (
    unsigned which,
    std::size_t elem
) {
    bytes b;
    std::size_t n = which == 0 ? 0 : which == 1 ? 5 : 8;
    n = (n + elem - 1) / elem * elem;
    for (std::size_t i = 0; i < n; ++i) b.push_back(0x11 * (i + 1));
    return b;
}

static bytes
patterned (
    std::size_t n
) {
    bytes b;
    for (std::size_t i = 0; i < n; ++i) b.push_back((i * 37 + i / 256 * 11 + 5) % 251);
    return b;
}

static const std::size_t capacities[] = {0, 1, 2, 3, 4, 7, 16};
static const char* container_names[] = {"bytes", "char", "char8", "char16", "char32", "wide"};

template <typename Container, bool Transparent, int Side>
void
r01_run (
    std::size_t cap,
    unsigned init,
    const std::vector<op>& ops
) {
    using R = typename maker<Container, Transparent, Side>::type;
    const std::size_t elem = sizeof(typename Container::value_type);
    const bytes b = init < 3 ? initial(init, elem) : patterned(init);
    Container c = make_content<Container>(b);
    Container copy = c;
    std::unique_ptr<R> r;
    if constexpr (Transparent) r.reset(new R(c, cap));
    else if (init == 0) r.reset(new R(cap));
    else if (init == 1) r.reset(new R(std::as_const(copy), cap));
    else r.reset(new R(std::move(copy), cap));
    adaptor<R, Side != 1, Side != 0> a(*r);
    runner run{a, {b, 0, elem}, Side, cap == 0};
    run.trace = std::string(Transparent ? "transparent " : "opaque ") + side_names[Side] + " capacity " + std::to_string(cap) + " initial " + std::to_string(b.size());
    run.observe();
    for (const op& o : ops) run.apply(o);
    a.flush();
    run.pending = false;
    run.trace += " flush()";
    run.observe();
    if constexpr (Transparent) if (content_bytes(c) != run.m.content) run.fail("the caller's container differs");
}

template <typename Container, int Side>
void
r01_pick (
    bool transparent,
    std::size_t cap,
    unsigned init,
    const std::vector<op>& ops
) {
    if (transparent) r01_run<Container, true, Side>(cap, init, ops);
    else r01_run<Container, false, Side>(cap, init, ops);
}

template <typename Container>
void
r01_side (
    int side,
    bool transparent,
    std::size_t cap,
    unsigned init,
    const std::vector<op>& ops
) {
    if (side == 0) r01_pick<Container, 0>(transparent, cap, init, ops);
    else if (side == 1) r01_pick<Container, 1>(transparent, cap, init, ops);
    else r01_pick<Container, 2>(transparent, cap, init, ops);
}

static const std::size_t elem_of[] = {1, 1, 1, 2, 4, 4};

static void
r01_case (
    int container,
    int side,
    bool transparent,
    std::size_t cap,
    unsigned init,
    const std::vector<op>& ops
) {
    switch (container) {
    case 0: r01_side<std::vector<std::byte>>(side, transparent, cap, init, ops); break;
    case 1: r01_side<std::string>(side, transparent, cap, init, ops); break;
    case 2: r01_side<std::u8string>(side, transparent, cap, init, ops); break;
    case 3: r01_side<std::u16string>(side, transparent, cap, init, ops); break;
    case 4: r01_side<std::u32string>(side, transparent, cap, init, ops); break;
    case 5: r01_side<std::wstring>(side, transparent, cap, init, ops); break;
    }
}

static void
r01_space (
    int side,
    std::vector<int> containers,
    unsigned depth,
    std::vector<std::size_t> caps,
    bool rich,
    bool idle = false
) {
    auto letters_of = [=] (std::size_t elem) { return idle ? idle_alphabet(side) : alphabet(side, elem, rich); };
    auto decode = [=] (u64 i, int& container, bool& transparent, std::size_t& cap, unsigned& init, std::vector<op>& ops) {
        vp::digits d{i};
        transparent = d.next(2);
        cap = caps[d.next(caps.size())];
        init = d.next(3);
        container = containers[d.next(containers.size())];
        auto al = letters_of(elem_of[container]);
        for (unsigned k = 0; k < depth; ++k) ops.push_back(al[d.next(al.size())]);
    };
    std::string name = std::string(side_names[side]) + (idle ? " idle " : rich ? " rich " : " core ") + std::to_string(depth);
    std::size_t letters = letters_of(1).size();
    vp::add_space(name, "all " + std::to_string(depth) + "-operation histories over " + std::to_string(letters) + " operations, "
        + std::to_string(caps.size()) + " buffer capacities, 3 initial contents, " + std::to_string(containers.size()) + " element types, transparent and opaque",
        2 * caps.size() * 3 * containers.size() * vp::ipow(letters, depth),
        [=] (u64 i) {
            int container; bool transparent; std::size_t cap; unsigned init; std::vector<op> ops;
            decode(i, container, transparent, cap, init, ops);
            r01_case(container, side, transparent, cap, init, ops);
        },
        [=] (u64 i) {
            int container; bool transparent; std::size_t cap; unsigned init; std::vector<op> ops;
            decode(i, container, transparent, cap, init, ops);
            std::string s = std::string(transparent ? "transparent " : "opaque ") + side_names[side] + " of " + container_names[container]
                + ", capacity " + std::to_string(cap) + ", initial " + std::to_string(init) + ":";
            for (auto& o : ops) s += " " + bm::name(o);
            return s;
        });
}

static void
r01_sizes (
    int side,
    unsigned depth
) {
    const std::size_t letters = size_alphabet(side, 16).size();
    auto decode = [=] (u64 i, int& container, bool& transparent, std::size_t& cap, std::size_t& size, std::vector<op>& ops) {
        vp::digits d{i};
        transparent = d.next(2);
        container = d.next(2) ? 3 : 0;
        cap = content_caps[d.next(content_cap_count)];
        size = content_sizes[d.next(content_size_count)];
        auto al = size_alphabet(side, size);
        for (unsigned k = 0; k < depth; ++k) ops.push_back(al[d.next(letters)]);
        if (side != 1) { ops.push_back({bm::op_seek, 1, 0}); ops.push_back({bm::op_read, std::int64_t(size) * 3, 0}); }
    };
    vp::add_space(std::string(side_names[side]) + " sizes", "contents of 16..65538 bytes around the powers of two, buffer capacities 0, 3, 255, 257, 1024, 65535, 65537, all "
        + std::to_string(depth) + "-operation histories over " + std::to_string(letters) + " operations of that size, two element types, transparent and opaque",
        4 * content_cap_count * content_size_count * vp::ipow(letters, depth),
        [=] (u64 i) {
            int container; bool transparent; std::size_t cap, size; std::vector<op> ops;
            decode(i, container, transparent, cap, size, ops);
            r01_case(container, side, transparent, cap, size, ops);
        },
        [=] (u64 i) {
            int container; bool transparent; std::size_t cap, size; std::vector<op> ops;
            decode(i, container, transparent, cap, size, ops);
            std::string s = std::string(transparent ? "transparent " : "opaque ") + side_names[side] + " of " + container_names[container]
                + ", capacity " + std::to_string(cap) + ", size " + std::to_string(size) + ":";
            for (auto& o : ops) s += " " + bm::name(o);
            return s;
        });
}

// Positions far beyond the content (nothing is written there).
static void
r01_far (
    int side,
    std::size_t cap,
    unsigned power,
    int by,
    bool transparent,
    int container
) {
    const std::int64_t far = (std::int64_t(1) << power) + by;
    std::vector<op> ops = {{bm::op_seek, far, 0}, {bm::op_forward, far, 0}, {bm::op_seek, -far, 1}, {bm::op_back, far - 3, 0}};
    if (side != 1) ops.push_back({bm::op_read, 2, 0});
    ops.push_back({bm::op_seek, far, 2});
    if (side != 1) ops.push_back({bm::op_read, 2, 0});
    ops.push_back({bm::op_seek, -far - 2, 1});
    ops.push_back({bm::op_seek, far, 1});
    ops.push_back({bm::op_seek, -far, 2});
    ops.push_back({bm::op_seek, 1, 1});
    if (side != 1) ops.push_back({bm::op_read, 3, 0});
    else ops.push_back({bm::op_write, 2, 0});
    r01_case(container, side, transparent, cap, 1, ops);
}

// ------------------------------------------------------------------------ R06
// Two objects with their own models; copies and moves between them.
template <typename Container, int Side>
void
r06_run (
    std::size_t cap,
    const std::vector<unsigned>& ops,
    std::size_t size = 0
) {
    using R = typename maker<Container, false, Side>::type;
    const std::size_t elem = sizeof(typename Container::value_type);
    const std::int64_t small = size ? size - 2 : 2, large = size ? size + 4 : 6;
    struct half {
        std::unique_ptr<R> r;
        bm::model m;
        bool pending = false;
        bool alive = true;
    } h[2];
    for (int k = 0; k < 2; ++k) {
        bytes b = size ? patterned((size + k * 14) / elem * elem) : initial(1 + k, elem);
        if (k == 1) for (auto& x : b) x ^= 0x80;
        h[k].r.reset(new R(make_content<Container>(b), cap));
        h[k].m = {b, 0, elem};
    }
    std::string trace = std::string(side_names[Side]) + " capacity " + std::to_string(cap) + ":";
    unsigned char next = 0x41;
    auto observe = [&] (int k) {
        if (!h[k].alive) return;
        adaptor<R, Side != 1, Side != 0> a(*h[k].r);
        runner run{a, h[k].m, Side, cap == 0, h[k].pending, next, trace + " [object " + std::to_string(k) + "]"};
        run.observe();
    };
    auto apply = [&] (int k, const op& o) {
        if (!h[k].alive) { trace += " -"; return; }
        adaptor<R, Side != 1, Side != 0> a(*h[k].r);
        runner run{a, h[k].m, Side, cap == 0, h[k].pending, next, trace + (k ? " b." : " a.")};
        run.apply(o);
        h[k].m = run.m;
        h[k].pending = run.pending;
        next = run.next;
        trace += std::string(k ? " b." : " a.") + bm::name(o);
    };
    auto transfer = [&] (int to, int from, bool construct, bool move) {
        if (!h[from].alive) { trace += " -"; return; }
        if (construct) {
            std::unique_ptr<R> n(move ? new R(std::move(*h[from].r)) : new R(std::as_const(*h[from].r)));
            h[to].r = std::move(n);
        } else if (move) *h[to].r = std::move(*h[from].r);
        else *h[to].r = std::as_const(*h[from].r);
        h[to].m = h[from].m;
        h[to].pending = h[from].pending;
        h[to].alive = true;
        if (move) h[from].alive = false;
        trace += std::string(" ") + (move ? "move-" : "copy-") + (construct ? "construct" : "assign") + (to ? " b from a" : " a from b");
        vp::outcome(move ? (construct ? "move constructed" : "move assigned") : (construct ? "copy constructed" : "copy assigned"));
        vp::step(vp::mix(h[to].m.hash(), cap * 4 + Side));
    };
    using namespace bm;
    for (unsigned o : ops) {
        switch (o) {
        case 0: transfer(1, 0, true, false); break;
        case 1: transfer(1, 0, false, false); break;
        case 2: transfer(1, 0, true, true); break;
        case 3: transfer(1, 0, false, true); break;
        case 4: transfer(0, 1, false, false); break;
        case 5: transfer(0, 1, true, true); break;
        case 6: apply(0, Side == 1 ? op{op_write, small, 0} : op{op_read, small, 0}); break;
        case 7: apply(1, Side == 1 ? op{op_write, small, 0} : op{op_read, small, 0}); break;
        case 8: apply(0, Side == 0 ? op{op_read, large, 0} : op{op_write, large, 0}); break;
        case 9: apply(1, Side == 0 ? op{op_read, large, 0} : op{op_write, large, 0}); break;
        case 10: apply(0, {op_seek, 2, 0}); break;
        case 11: apply(1, {op_seek, 0, 2}); break;
        case 12: apply(1, {op_seek, -1, 1}); break;
        case 13: if (Side != 0) apply(0, {op_flush, 0, 0}); else apply(0, {op_seek, 0, 2}); break;
        case 14: if (Side != 0) apply(1, {op_write, small, 0}); else apply(1, {op_read, 1, 0}); break;
        }
        observe(0);
        observe(1);
    }
    for (int k = 0; k < 2; ++k) {
        apply(k, {op_flush, 0, 0});
        observe(k);
    }
}

static std::string
r06_names (
    const std::vector<unsigned>& ops
) {
    static const char* n[] = {"b=copy(a)", "b=a", "b=move-construct(a)", "b=move(a)", "a=b", "a=move-construct(b)", "a.rw2", "b.rw2", "a.rw6", "b.rw6", "a.seek2", "b.end", "b.back1", "a.flush", "b.w2"};
    std::string s;
    for (unsigned o : ops) s += std::string(" ") + n[o];
    return s;
}

static void
setup (
    const std::string& property,
    bool thorough
) {
    if (property == "R01") {
        std::vector<int> all = {0, 1, 2, 3, 4, 5};
        std::vector<int> two = {0, 3};
        std::vector<int> one = {0};
        std::vector<std::size_t> caps(std::begin(capacities), std::end(capacities));
        std::vector<std::size_t> few = {0, 1, 3, 4};
        r01_space(0, all, 3, caps, true);
        r01_space(1, all, 3, caps, true);
        r01_space(2, all, 3, caps, true);
        r01_space(0, two, 4, caps, true);
        r01_space(1, two, 4, caps, true);
        r01_space(2, one, 4, few, true);
        for (int side = 0; side < 3; ++side) r01_space(side, thorough ? two : one, side == 2 && !thorough ? 3 : 4, few, true, true);
        for (int side = 0; side < 3; ++side) r01_sizes(side, thorough ? 3 : 2);
        vp::add_space("far positions", "positions around every power of two from 2^7 to 2^60, from each reference, 7 buffer capacities, all sides, two element types, transparent and opaque", 3 * 7 * 54 * 3 * 4,
            [] (u64 i) {
                vp::digits d{i};
                int side = d.next(3);
                std::size_t cap = capacities[d.next(7)];
                unsigned power = 7 + d.next(54);
                int by = int(d.next(3)) - 1;
                bool t = d.next(2);
                r01_far(side, cap, power, by, t, d.next(2) ? 3 : 0);
            },
            [] (u64 i) { return "far position case " + std::to_string(i); });
        if (thorough) {
            r01_space(0, one, 5, few, true);
            r01_space(1, one, 5, few, true);
            r01_space(2, one, 5, {0, 2, 4}, false);
            r01_space(2, {3, 4}, 4, caps, true);
        }
    } else if (property == "R06") {
        static const std::size_t caps[] = {0, 1, 3, 4, 16};
        unsigned depth = thorough ? 5 : 4;
        for (int side = 0; side < 3; ++side)
            for (int container : {0, 3}) {
                u64 per = vp::ipow(15, depth);
                auto decode = [=] (u64 i) {
                    vp::digits d{i / 5};
                    std::vector<unsigned> ops;
                    for (unsigned k = 0; k < depth; ++k) ops.push_back(d.next(15));
                    return ops;
                };
                static const std::size_t large_caps[] = {257, 65536, 131072}, large_sizes[] = {258, 65534, 65538};
                const unsigned d2 = thorough ? 3 : 2;
                auto decode_large = [=] (u64 i, std::size_t& cap, std::size_t& size) {
                    vp::digits d{i};
                    cap = large_caps[d.next(3)];
                    size = large_sizes[d.next(3)];
                    // Something is in the buffer, then every history of copies, moves and operations.
                    std::vector<unsigned> ops = {6 + 2 * d.next(2)};
                    for (unsigned k = 0; k < d2; ++k) ops.push_back(d.next(15));
                    ops.push_back(7);
                    ops.push_back(6);
                    return ops;
                };
                vp::add_space(std::string("large opaque ") + side_names[side] + " of " + container_names[container],
                    "contents, transfers and buffers of about 256 and 65536 bytes: all histories of a transfer, " + std::to_string(d2) + " of the 15 operations and two more transfers, 3 buffer capacities, 3 sizes",
                    3 * 3 * 2 * vp::ipow(15, d2),
                    [=] (u64 i) {
                        std::size_t cap, size;
                        auto ops = decode_large(i, cap, size);
                        if (container == 0) {
                            if (side == 0) r06_run<std::vector<std::byte>, 0>(cap, ops, size);
                            else if (side == 1) r06_run<std::vector<std::byte>, 1>(cap, ops, size);
                            else r06_run<std::vector<std::byte>, 2>(cap, ops, size);
                        } else {
                            if (side == 0) r06_run<std::u16string, 0>(cap, ops, size);
                            else if (side == 1) r06_run<std::u16string, 1>(cap, ops, size);
                            else r06_run<std::u16string, 2>(cap, ops, size);
                        }
                    },
                    [=] (u64 i) { std::size_t cap, size; auto ops = decode_large(i, cap, size); return "capacity " + std::to_string(cap) + ", size " + std::to_string(size) + ":" + r06_names(ops); });
                vp::add_space(std::string("opaque ") + side_names[side] + " of " + container_names[container],
                    "all " + std::to_string(depth) + "-operation histories of two objects over 15 operations (6 copies and moves), 5 buffer capacities",
                    per * 5,
                    [=] (u64 i) {
                        auto ops = decode(i);
                        std::size_t cap = caps[i % 5];
                        if (container == 0) {
                            if (side == 0) r06_run<std::vector<std::byte>, 0>(cap, ops);
                            else if (side == 1) r06_run<std::vector<std::byte>, 1>(cap, ops);
                            else r06_run<std::vector<std::byte>, 2>(cap, ops);
                        } else {
                            if (side == 0) r06_run<std::u16string, 0>(cap, ops);
                            else if (side == 1) r06_run<std::u16string, 1>(cap, ops);
                            else r06_run<std::u16string, 2>(cap, ops);
                        }
                    },
                    [=] (u64 i) { return "capacity " + std::to_string(caps[i % 5]) + ":" + r06_names(decode(i)); });
            }
    }
}

int
main (
    int argc,
    char** argv
) {
    return vp::main_(argc, argv, setup);
}
