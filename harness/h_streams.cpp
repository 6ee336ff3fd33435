// S01, S02, S03 and S05: data and text streams.
#include <utility>
#include <cmp/io/data_input_stream.hpp>
#include <cmp/io/data_io_stream.hpp>
#include <cmp/io/data_output_stream.hpp>
#include <cmp/io/text_input_stream.hpp>
#include <cmp/io/text_io_stream.hpp>
#include <cmp/io/text_output_stream.hpp>
#include <cmp/io/opaque_container_io_resource.hpp>
#include <cmp/io/transparent_container_input_resource.hpp>
#include <cmp/io/transparent_container_io_resource.hpp>
#include <cmp/io/transparent_container_output_resource.hpp>

#include <cmath>
#include <limits>

#include "ref_unicode.hpp"
#include "vp.hpp"

using vp::u64;
using block = std::vector<std::byte>;
using in_resource = cmp::transparent_container_input_resource<block>;
using out_resource = cmp::transparent_container_output_resource<block>;
using io_resource = cmp::transparent_container_io_resource<block>;

static const std::size_t caps[] = {0, 1, 3, 16};
static const std::endian ends[] = {std::endian::big, std::endian::little};
static const char* end_names[] = {"big", "little"};
static const cmp::encoding_form forms[] = {cmp::utf8, cmp::utf16, cmp::utf32};
static const char* form_names[] = {"UTF-8", "UTF-16", "UTF-32"};

static const std::size_t large_caps[] = {0, 7, 256, 1024, 4096, 65537};

static ref::cps
long_text (
    std::size_t n,
    bool dense
) {
    static const char32_t wide[] = {0xE9, 0x20AC, 0x10400, 0x41};
    ref::cps r;
    for (std::size_t i = 0; i < n; ++i) r.push_back(dense ? wide[i % 4] : i + 3 >= n ? wide[n - 1 - i] : 'a' + i % 26);
    return r;
}

static std::string
show (
    const block& b
) {
    std::vector<unsigned char> v;
    for (auto x : b) v.push_back(static_cast<unsigned char>(x));
    return vp::show(v);
}

// Text as bytes.
static block
encoded (
    const ref::cps& v,
    int form,
    int end
) {
    block b;
    auto unit = [&] (u64 u, unsigned n) {
        for (unsigned i = 0; i < n; ++i) b.push_back(std::byte(u >> 8 * (end == 0 ? n - 1 - i : i)));
    };
    if (form == 0) for (auto c : ref::encode<char8_t>(v)) unit(c, 1);
    if (form == 1) for (auto c : ref::encode<char16_t>(v)) unit(c, 2);
    if (form == 2) for (auto c : ref::encode<char32_t>(v)) unit(c, 4);
    return b;
}

static std::string
show_cps (
    const ref::cps& v
) {
    std::ostringstream o;
    o << "<";
    for (std::size_t i = 0; i < v.size() && i < 60; ++i) o << (i ? " " : "") << std::hex << unsigned(v[i]);
    o << (v.size() > 60 ? " ...>" : ">");
    return o.str();
}

// ------------------------------------------------------------------------ S01
#ifdef VP_S01
template <typename T>
block
bytes_of (
    T v,
    int end
) {
    block b(sizeof(T));
    std::memcpy(b.data(), &v, sizeof(T)); // little-endian machine
    if (end == 0) for (std::size_t i = 0; i < sizeof(T) / 2; ++i) std::swap(b[i], b[sizeof(T) - 1 - i]);
    return b;
}

template <typename T>
bool
same (
    const T& a,
    const T& b
) {
    const std::size_t n = sizeof(T) == 16 ? 10 : sizeof(T); // long double has padding
    return std::memcmp(&a, &b, n) == 0;
}

template <typename T>
void
s01_value (
    T v,
    int end,
    std::size_t cap,
    const char* name
) {
    block b;
    T w = v;
    {
        out_resource r(b, cap);
        cmp::data_output_stream<out_resource> s(r, ends[end]);
        s << w;
    }
    VP_CHECK(same(v, w), name, ": writing changed the value");
    VP_CHECK(b.size() == sizeof(T), name, " ", end_names[end], ": ", b.size(), " bytes");
    if (sizeof(T) < 16) { block want = bytes_of(v, end); VP_CHECK(b == want, name, " ", end_names[end], ": ", show(b), " not ", show(want)); }
    else {
        block want = bytes_of(v, end);
        for (std::size_t i = 0; i < 10; ++i) { std::size_t k = end == 0 ? 15 - i : i; VP_CHECK(b[k] == want[k], name, " ", end_names[end]); }
    }
    {
        in_resource r(b, cap);
        cmp::data_input_stream<in_resource> s(r, ends[end]);
        T x{};
        s >> x;
        VP_CHECK(same(x, v), name, " ", end_names[end], ": read back differently");
        VP_CHECK(s.is_at_end(), name);
        T y = v;
        bool thrown = false;
        try { s >> y; } catch (const cmp::read_past_end&) { thrown = true; }
        VP_CHECK(thrown && same(y, v), name, ": reading past the end");
    }
    vp::step(vp::hash_bytes(b.data(), b.size(), cap * 2 + end));
}

template <typename T>
void
s01_type (
    u64 pattern,
    int end,
    std::size_t cap,
    const char* name
) {
    T v;
    unsigned char raw[sizeof(T)];
    // pattern: which byte, which value, which background
    unsigned value = pattern % 256, at = pattern / 256 % sizeof(T), back = pattern / 256 / sizeof(T) % 2;
    for (std::size_t i = 0; i < sizeof(T); ++i) raw[i] = back ? 0x10 + i : 0;
    raw[at] = value;
    std::memcpy(&v, raw, sizeof(T));
    s01_value(v, end, cap, name);
}

static void
s01_every_type (
    unsigned type,
    u64 pattern,
    int end,
    std::size_t cap
) {
    switch (type) {
    case 0: { bool v = pattern & 1; s01_value(v, end, cap, "bool"); break; }
    case 1: s01_type<char>(pattern, end, cap, "char"); break;
    case 2: s01_type<signed char>(pattern, end, cap, "signed char"); break;
    case 3: s01_type<unsigned char>(pattern, end, cap, "unsigned char"); break;
    case 4: s01_type<char8_t>(pattern, end, cap, "char8"); break;
    case 5: s01_type<char16_t>(pattern, end, cap, "char16"); break;
    case 6: s01_type<char32_t>(pattern, end, cap, "char32"); break;
    case 7: s01_type<wchar_t>(pattern, end, cap, "wchar"); break;
    case 8: s01_type<short>(pattern, end, cap, "short"); break;
    case 9: s01_type<unsigned short>(pattern, end, cap, "unsigned short"); break;
    case 10: s01_type<int>(pattern, end, cap, "int"); break;
    case 11: s01_type<unsigned>(pattern, end, cap, "unsigned"); break;
    case 12: s01_type<long>(pattern, end, cap, "long"); break;
    case 13: s01_type<unsigned long>(pattern, end, cap, "unsigned long"); break;
    case 14: s01_type<long long>(pattern, end, cap, "long long"); break;
    case 15: s01_type<unsigned long long>(pattern, end, cap, "unsigned long long"); break;
    case 16: s01_type<float>(pattern, end, cap, "float"); break;
    case 17: s01_type<double>(pattern, end, cap, "double"); break;
    case 18: { static const long double l[] = {0.0L, 1.5L, -3.25e100L, 1e-4000L, 0x1.123456789abcdep+3L}; s01_value(l[pattern % 5], end, cap, "long double"); break; }
    }
}

// Sequences of values with changes of endianness, through one or two streams.
static void
s01_sequence (
    const std::vector<unsigned>& ops,
    std::size_t cap,
    bool io,
    int end0,
    std::size_t cut
) {
    unsigned char c = 0x81;
    short s = 0x0102;
    int i = 0x03040506;
    double d = -123456.789;
    char16_t u = 0xD8FF;
    block want;
    std::vector<std::size_t> offsets;
    int end = end0;
    auto put = [&] (auto v) { for (auto x : bytes_of(v, end)) want.push_back(x); };
    for (unsigned o : ops) {
        switch (o) {
        case 0: put(c); break;
        case 1: put(s); break;
        case 2: put(i); break;
        case 3: put(d); break;
        case 4: put(u); break;
        case 5: end = 0; break;
        case 6: end = 1; break;
        }
        offsets.push_back(want.size());
    }
    block b;
    auto write_all = [&] (auto& out) {
        for (unsigned o : ops) switch (o) {
        case 0: out << c; break;
        case 1: out << s; break;
        case 2: out << i; break;
        case 3: out << d; break;
        case 4: out << u; break;
        case 5: out.set_endianness(std::endian::big); VP_CHECK(out.get_endianness() == std::endian::big, "endianness"); break;
        case 6: out.set_endianness(std::endian::little); VP_CHECK(out.get_endianness() == std::endian::little, "endianness"); break;
        }
    };
    if (io) {
        io_resource r(b, cap);
        cmp::data_io_stream<io_resource> st(r, ends[end0]);
        cmp::data_output_stream<io_resource>& out = st;
        write_all(out);
        out.flush();
    } else {
        out_resource r(b, cap);
        cmp::data_output_stream<out_resource> out(r, ends[end0]);
        write_all(out);
    }
    VP_CHECK(b == want, "wrote ", show(b), " not ", show(want));
    // Read it back from a copy cut short by `cut` bytes.
    if (cut > b.size()) cut = b.size();
    block part(b.begin(), b.end() - cut);
    auto read_all = [&] (auto& in) {
        for (std::size_t k = 0; k < ops.size(); ++k) {
            const bool fits = offsets[k] <= part.size();
            auto get = [&] (auto v) {
                auto x = v;
                std::memset(&x, 0x5A, sizeof x);
                const auto before = x;
                bool thrown = false;
                try { in >> x; } catch (const cmp::read_past_end&) { thrown = true; }
                VP_CHECK(thrown == !fits, "value ", k, fits ? " is there but past the end" : " is past the end but was read");
                VP_CHECK(std::memcmp(&x, thrown ? &before : &v, sizeof x) == 0, "value ", k, " is wrong");
                vp::outcome(thrown ? "past the end" : "read back");
                return !thrown;
            };
            bool more = true;
            switch (ops[k]) {
            case 0: more = get(c); break;
            case 1: more = get(s); break;
            case 2: more = get(i); break;
            case 3: more = get(d); break;
            case 4: more = get(u); break;
            case 5: in.set_endianness(std::endian::big); break;
            case 6: in.set_endianness(std::endian::little); break;
            }
            vp::step(vp::mix(vp::hash_bytes(ops.data(), (k + 1) * sizeof ops[0]), cut * 8 + cap));
            if (!more) break;
        }
    };
    if (io) {
        io_resource r(part, cap);
        cmp::data_io_stream<io_resource> st(r, ends[end0]);
        cmp::data_input_stream<io_resource>& in = st;
        read_all(in);
    } else {
        in_resource r(part, cap);
        cmp::data_input_stream<in_resource> in(r, ends[end0]);
        read_all(in);
    }
}
#endif

// ------------------------------------------------------------------------ S02
#ifdef VP_S02
static const char* source_names[] = {"char32", "UTF-8 view", "UTF-16 view", "UTF-32 view", "wide view", "UTF-8 pointer", "UTF-16 pointer", "UTF-32 pointer", "wide pointer", "UTF-8 string", "UTF-16 string", "UTF-32 string", "wide string", "char", "narrow view", "narrow pointer", "narrow string"};

template <typename Stream>
void
put (
    Stream& s,
    unsigned source,
    const ref::cps& v
) {
    auto u8 = ref::encode<char8_t>(v);
    auto u16 = ref::encode<char16_t>(v);
    auto u32 = ref::encode<char32_t>(v);
    auto w = ref::encode<wchar_t>(v);
    std::string n(u8.begin(), u8.end());
    switch (source) {
    case 0: for (char32_t c : v) s << c; break;
    case 1: { ref::exact<char8_t> x{std::u8string_view(u8)}; s << x.view(); break; }
    case 2: { ref::exact<char16_t> x{std::u16string_view(u16)}; s << x.view(); break; }
    case 3: { ref::exact<char32_t> x{std::u32string_view(u32)}; s << x.view(); break; }
    case 4: { ref::exact<wchar_t> x{std::wstring_view(w)}; s << x.view(); break; }
    case 5: { ref::exact_z<char8_t> x{std::u8string_view(u8)}; s << x.get(); break; }
    case 6: { ref::exact_z<char16_t> x{std::u16string_view(u16)}; s << x.get(); break; }
    case 7: { ref::exact_z<char32_t> x{std::u32string_view(u32)}; s << x.get(); break; }
    case 8: { ref::exact_z<wchar_t> x{std::wstring_view(w)}; s << x.get(); break; }
    case 9: s << u8; break;
    case 10: s << u16; break;
    case 11: s << u32; break;
    case 12: s << w; break;
    case 13: for (char32_t c : v) s << char(c); break;
    case 14: { ref::exact<char> x{std::string_view(n)}; s << x.view(); break; }
    case 15: { ref::exact_z<char> x{std::string_view(n)}; s << x.get(); break; }
    case 16: s << n; break;
    }
}

static void
s02_one (
    const ref::cps& v,
    unsigned source,
    int form,
    int end,
    std::size_t cap
) {
#ifdef VP_SHORT_WCHAR // where only the wide form is different
    if (source != 4 && source != 8 && source != 12) return;
#endif
    block b;
    {
        out_resource r(b, cap);
        cmp::text_output_stream<out_resource> s(r, forms[form], ends[end]);
        put(s, source, v);
    }
    const block want = encoded(v, form, end);
    VP_CHECK(b == want, source_names[source], " ", show_cps(v), " in ", form_names[form], " ", end_names[end], ": ", show(b), " not ", show(want));
    vp::step(vp::hash_bytes(b.data(), b.size(), form * 2 + end));
}

static bool
usable (
    unsigned source,
    const ref::cps& v
) {
    for (char32_t c : v) {
        if (c > 0x7F && source >= 13) return false;
        if (c == 0 && ((source >= 5 && source <= 8) || source == 15)) return false;
    }
    return true;
}
#endif

// ------------------------------------------------------------------------ S03
#ifdef VP_S03
// What is left to read, in code points, and how the operations take it.
struct text_model {
    ref::cps text;
    std::size_t at = 0;
    bool done () const { return at == text.size(); }
    // One code point, CR LF being one end of line.
    char32_t
    next ()
    {
        if (text[at] == '\r' && at + 1 < text.size() && text[at + 1] == '\n') ++at;
        return text[at++];
    }
    ref::cps
    line ()
    {
        ref::cps r;
        while (!done()) {
            char32_t c = next();
            if (c == '\n') break;
            r.push_back(c);
        }
        return r;
    }
    ref::cps
    all ()
    {
        ref::cps r;
        while (!done()) r.push_back(next());
        return r;
    }
    static bool
    white (
        char32_t c
    ) {
        return (c >= 9 && c <= 13) || c == 0x20 || c == 0x85 || c == 0xA0 || c == 0x1680 || (c >= 0x2000 && c <= 0x200A)
            || c == 0x2028 || c == 0x2029 || c == 0x202F || c == 0x205F || c == 0x3000;
    }
    ref::cps
    word ()
    {
        ref::cps r;
        while (!done()) {
            char32_t c = next();
            if (!white(c)) { r.push_back(c); break; }
        }
        while (!done()) {
            char32_t c = next();
            if (white(c)) break;
            r.push_back(c);
        }
        return r;
    }
};

static const char* s03_ops[] = {"code point", "read_line", "append_line", "word", "read_all", "append_all"};

template <typename S>
S
as (
    const ref::cps& v
) {
    return ref::encode<typename S::value_type>(v);
}

template <typename S, typename Stream>
void
s03_history (
    Stream& s,
    text_model m,
    const std::vector<unsigned>& ops,
    const std::string& what
) {
    S target = as<S>({U'x'});
    ref::cps model_target = {U'x'};
    std::string trace = what;
    auto check = [&] () {
        VP_CHECK(target == as<S>(model_target), trace, ": another text than ", show_cps(model_target));
        VP_CHECK(s.is_at_end() == m.done(), trace, ": end of text");
        vp::step(vp::mix(vp::hash_bytes(m.text.data(), m.text.size() * 4), m.at * 64 + sizeof(typename S::value_type)));
    };
    for (unsigned o : ops) {
        trace += std::string(" ") + s03_ops[o];
        switch (o) {
        case 0: {
            char32_t c = 0x5A5A;
            bool thrown = false;
            const bool end = m.done();
            try { s >> c; } catch (const cmp::read_past_end&) { thrown = true; }
            VP_CHECK(thrown == end, trace, thrown ? ": past the end" : ": read beyond the end");
            if (!thrown) {
                char32_t w = m.next();
                VP_CHECK(c == w, trace, ": ", unsigned(c), " not ", unsigned(w));
            } else VP_CHECK(c == 0x5A5A, trace);
            vp::outcome(thrown ? "past the end" : "code point");
            break;
        }
        case 1: s.read_line(target); model_target = m.line(); vp::outcome("line"); break;
        case 2: { s.append_line(target); auto l = m.line(); model_target.insert(model_target.end(), l.begin(), l.end()); vp::outcome("line"); break; }
        case 3: s >> target; model_target = m.word(); vp::outcome("word"); break;
        case 4: s.read_all(target); model_target = m.all(); vp::outcome("all"); break;
        case 5: { s.append_all(target); auto l = m.all(); model_target.insert(model_target.end(), l.begin(), l.end()); vp::outcome("all"); break; }
        }
        check();
    }
}

static void
s03_run (
    const ref::cps& text,
    int form,
    int end,
    std::size_t cap,
    unsigned target,
    const std::vector<unsigned>& ops,
    bool io = false
) {
#ifdef VP_SHORT_WCHAR
    target = 3; // only the wide form is different
#endif
    block b = encoded(text, form, end);
    if (io) {
        io_resource r(b, cap);
        cmp::text_io_stream<io_resource> both(r, forms[form], ends[end]);
        cmp::text_input_stream<io_resource>& s = both;
        const std::string what = show_cps(text) + " in " + form_names[form] + " " + end_names[end] + " capacity " + std::to_string(cap) + ", combined stream:";
        text_model m{text};
        switch (target) {
        case 0: s03_history<std::u8string>(s, m, ops, what); break;
        case 1: s03_history<std::u16string>(s, m, ops, what); break;
        case 2: s03_history<std::u32string>(s, m, ops, what); break;
        case 3: s03_history<std::wstring>(s, m, ops, what); break;
        }
        return;
    }
    in_resource r(b, cap);
    cmp::text_input_stream<in_resource> s(r, forms[form], ends[end]);
    const std::string what = show_cps(text) + " in " + form_names[form] + " " + end_names[end] + " capacity " + std::to_string(cap) + ":";
    text_model m{text};
    switch (target) {
    case 0: s03_history<std::u8string>(s, m, ops, what); break;
    case 1: s03_history<std::u16string>(s, m, ops, what); break;
    case 2: s03_history<std::u32string>(s, m, ops, what); break;
    case 3: s03_history<std::wstring>(s, m, ops, what); break;
    }
}

// CR LF is one letter; a lone CR only comes last.
static ref::cps
letters (
    const std::vector<unsigned>& v,
    const std::vector<ref::cps>& al
) {
    ref::cps r;
    for (unsigned x : v) r.insert(r.end(), al[x].begin(), al[x].end());
    return r;
}

// Malformed bytes: the code points before them, then an error.
static void
s03_malformed (
    const block& b,
    int form,
    int end,
    std::size_t cap,
    bool mark = false // ask for a byte order mark first
) {
    ref::cps good;
    ref::err error = ref::err::none;
    const int declared = end;
    if (mark && form == 1 && b.size() >= 2) {
        if (b[0] == std::byte(0xFE) && b[1] == std::byte(0xFF)) end = 0;
        if (b[0] == std::byte(0xFF) && b[1] == std::byte(0xFE)) end = 1;
    }
    if (mark && form == 2 && b.size() >= 4) {
        if (b[0] == std::byte(0) && b[1] == std::byte(0) && b[2] == std::byte(0xFE) && b[3] == std::byte(0xFF)) end = 0;
        if (b[0] == std::byte(0xFF) && b[1] == std::byte(0xFE) && b[2] == std::byte(0) && b[3] == std::byte(0)) end = 1;
    }
    auto unit = [&] (std::size_t i, unsigned n) {
        u64 u = 0;
        for (unsigned k = 0; k < n; ++k) u |= u64(static_cast<unsigned char>(b[i + k])) << 8 * (end == 0 ? n - 1 - k : k);
        return u;
    };
    if (form == 0) {
        std::u8string s;
        for (auto x : b) s += char8_t(x);
        auto d = ref::decode<char8_t>(s);
        good = d.points;
        error = d.error;
    } else if (form == 1) {
        std::u16string s;
        for (std::size_t i = 0; i + 2 <= b.size(); i += 2) s += char16_t(unit(i, 2));
        auto d = ref::decode<char16_t>(s);
        good = d.points;
        error = d.error;
        if (b.size() % 2 && error == ref::err::none) error = ref::err::past_end;
    } else {
        for (std::size_t i = 0; i + 4 <= b.size(); i += 4) good.push_back(unit(i, 4));
        if (mark) for (char32_t c : good) if (!ref::scalar(c)) return;
        if (b.size() % 4) error = ref::err::past_end;
    }
    in_resource r(b, cap);
    cmp::text_input_stream<in_resource> s(r, forms[form], ends[declared]);
    std::string what = show(b) + " in " + form_names[form] + " " + end_names[declared] + (mark ? " with a mark asked for" : "");
    for (std::size_t i = 0; i <= good.size(); ++i) {
        char32_t c = 0x5A5A5A;
        ref::err got = ref::err::none;
        try { if (mark && i == 0) c = s.read_bom(); else s >> c; }
        catch (const cmp::read_past_end&) { got = ref::err::past_end; }
        catch (const cmp::invalid_unicode_encoding&) { got = ref::err::invalid; }
        if (mark && i == 0 && form != 0 && got == ref::err::none) VP_CHECK(s.get_endianness() == ends[end], what, ": endianness");
        if (i < good.size()) {
            VP_CHECK(got == ref::err::none, what, ": code point ", i, " was refused");
            VP_CHECK(c == good[i], what, ": code point ", i, " is ", unsigned(c));
        } else {
            ref::err want = error == ref::err::none ? ref::err::past_end : error;
            VP_CHECK(want == ref::err::either ? got != ref::err::none : got == want, what, ": after the well-formed part: ",
                got == ref::err::none ? "a code point" : got == ref::err::invalid ? "invalid" : "past the end");
            VP_CHECK(c == 0x5A5A5A, what, ": the target was changed");
            vp::outcome(error == ref::err::none ? "well-formed" : got == ref::err::invalid ? "invalid" : "cut short");
        }
        vp::step(vp::hash_bytes(b.data(), b.size(), i * 8 + form));
    }
}

// Three pieces of text in different encodings, read by one stream that is
// told about the change, or by two over the same resource in turn.
static void
s03_switch (
    const std::vector<unsigned>& kinds, // form and byte order of each piece
    const std::vector<unsigned>& letters_,
    unsigned how,
    std::size_t cap
) {
    static const std::vector<ref::cps> al = {{U'a'}, {0xE9}, {0x20AC}, {0x1F600}, {U'\r', U'\n'}};
    block b;
    for (std::size_t k = 0; k < kinds.size(); ++k) {
        ref::cps piece = al[letters_[k]];
        piece.push_back(U'b');
        piece.push_back(U' ');
        piece.push_back(al[letters_[k]][0] == U'\r' ? U'c' : al[letters_[k]][0]);
        piece.push_back(U'\n');
        for (auto x : encoded(piece, kinds[k] / 2, kinds[k] % 2)) b.push_back(x);
    }
    in_resource r(b, cap);
    cmp::text_input_stream<in_resource> first(r, forms[kinds[0] / 2], ends[kinds[0] % 2]);
    cmp::text_input_stream<in_resource> copy(first);
    std::string what = show(b) + " read " + std::to_string(how);
    for (std::size_t k = 0; k < kinds.size(); ++k) {
        auto& s = how == 1 && k % 2 ? copy : first;
        s.set_encoding_form(forms[kinds[k] / 2]);
        s.set_endianness(ends[kinds[k] % 2]);
        VP_CHECK(s.get_encoding_form() == forms[kinds[k] / 2], what);
        VP_CHECK(s.get_endianness() == ends[kinds[k] % 2], what);
        auto& t = how == 2 ? copy : s; // the other half of a piece through the copy
        if (how == 2) { t.set_encoding_form(forms[kinds[k] / 2]); t.set_endianness(ends[kinds[k] % 2]); }
        char32_t c, d, e;
        s >> c;
        t >> d;
        s >> e;
        const char32_t want = letters_[k] == 4 ? U'\n' : al[letters_[k]][0];
        VP_CHECK(c == want && d == U'b' && e == U' ', what, ": piece ", k, ": ", unsigned(c), " ", unsigned(d), " ", unsigned(e));
        std::u32string line = U"x";
        t.read_line(line);
        VP_CHECK(line == std::u32string(1, letters_[k] == 4 ? U'c' : want), what, ": piece ", k);
        VP_CHECK(first.is_at_end() == (k + 1 == kinds.size()), what, ": end after piece ", k);
        VP_CHECK(copy.is_at_end() == first.is_at_end(), what, ": ends after piece ", k);
        vp::step(vp::hash_bytes(b.data(), b.size(), k * 4 + how));
    }
    vp::outcome("switched");
}

static void
s03_bom (
    char32_t first,
    unsigned kind,
    int form,
    int end,
    std::size_t cap
) {
    // kind: 0 none, 1 big-endian mark, 2 little-endian mark
    const ref::cps rest = {first, U'b', 0x1F600};
    const int actual = kind == 0 ? end : int(kind) - 1;
    block b;
    if (kind) b = encoded({0xFEFF}, form, actual);
    for (auto x : encoded(rest, form, actual)) b.push_back(x);
    in_resource r(b, cap);
    cmp::text_input_stream<in_resource> s(r, forms[form], ends[end]);
    char32_t c = s.read_bom();
    std::string what = std::string(form_names[form]) + " " + end_names[end] + " mark " + std::to_string(kind) + " first " + std::to_string(unsigned(first));
    std::size_t at = 0;
    if (kind) VP_CHECK(c == 0xFEFF, what, ": ", unsigned(c));
    else { VP_CHECK(c == first, what, ": ", unsigned(c)); at = 1; }
    if (form != 0) VP_CHECK(s.get_endianness() == ends[actual], what, ": endianness");
    for (; at < rest.size(); ++at) {
        s >> c;
        VP_CHECK(c == rest[at], what, ": then ", unsigned(c));
    }
    VP_CHECK(s.is_at_end(), what);
    vp::outcome(kind == 0 ? "no mark" : actual == end ? "mark of the same endianness" : "mark of the other endianness");
    vp::step(vp::hash_bytes(b.data(), b.size(), form * 2 + end));
}
#endif

// ------------------------------------------------------------------------ S05
#ifdef VP_S05
static std::string
decimal (
    __int128 v
) {
    if (v == 0) return "0";
    std::string r;
    bool neg = v < 0;
    unsigned __int128 u = neg ? -(unsigned __int128)v : v;
    for (; u; u /= 10) r.insert(r.begin(), char('0' + int(u % 10)));
    return neg ? "-" + r : r;
}

static ref::cps
points (
    const std::string& s
) {
    return {s.begin(), s.end()};
}

template <typename T>
void
s05_integers (
    const std::vector<T>& values,
    int form,
    int end,
    std::size_t cap,
    const char* separator,
    const char* name
) {
    block b;
    ref::cps want;
    {
        io_resource r(b, cap);
        cmp::text_io_stream<io_resource> st(r, forms[form], ends[end]);
        cmp::text_output_stream<io_resource>& out = st;
        for (T v : values) {
            out << v << separator;
            for (char32_t c : points(decimal(v) + separator)) want.push_back(c);
        }
        out.flush();
        VP_CHECK(b == encoded(want, form, end), name, " in ", form_names[form], ": ", show(b));
        st->set_position(0, cmp::position_reference::begin);
        cmp::text_input_stream<io_resource>& in = st;
        for (T v : values) {
            T x{};
            in >> x;
            VP_CHECK(x == v, name, ": ", decimal(x), " not ", decimal(v));
            vp::step(vp::mix(u64(v), form * 2 + end));
        }
    }
    vp::outcome(name);
}

template <typename T>
std::vector<T>
edges ()
{
    std::vector<T> r;
    for (int s = 0; s <= std::numeric_limits<T>::digits; ++s)
        for (int d = -1; d <= 1; ++d) {
            __int128 x = (__int128(1) << s) + d;
            for (__int128 y : {x, -x})
                if (y >= std::numeric_limits<T>::min() && y <= std::numeric_limits<T>::max()) r.push_back(T(y));
        }
    return r;
}
#endif

static void
setup (
    const std::string& property,
    bool thorough
) {
#ifdef VP_S01
    vp::add_space("bytes", "19 fundamental types, every value of every byte over two backgrounds, both byte orders, 4 buffer capacities", 19 * 256 * 8 * 2 * 2 * 4,
        [] (u64 i) {
            vp::digits d{i};
            unsigned type = d.next(19);
            int end = d.next(2);
            std::size_t cap = caps[d.next(4)];
            s01_every_type(type, d.v, end, cap);
        });
    vp::add_space("16 bits", "every 16-bit value, both byte orders", 65536 * 2, [] (u64 i) { s01_value(short(i / 2), i % 2, 3, "short"); });
    const unsigned n = thorough ? 6 : 5;
    vp::add_space("sequences", "all sequences of " + std::to_string(n) + " values and changes of byte order (7 kinds), 3 buffer capacities, separate and combined streams, cut short by 0, 1, 3 bytes",
        vp::ipow(7, n) * 3 * 2 * 2 * 3,
        [n] (u64 i) {
            vp::digits d{i};
            std::size_t cap = caps[d.next(3)];
            bool io = d.next(2);
            int end = d.next(2);
            static const std::size_t cuts[] = {0, 1, 3};
            std::size_t cut = cuts[d.next(3)];
            std::vector<unsigned> ops;
            for (unsigned k = 0; k < n; ++k) ops.push_back(d.next(7));
            s01_sequence(ops, cap, io, end, cut);
        });
    vp::add_space("sizes", "15..65537 values around the powers of two, of types in turn, both byte orders, 6 buffer capacities", vp::sizes().size() * 2 * 6,
        [] (u64 i) {
            vp::digits d{i};
            const int end = d.next(2);
            const std::size_t cap = large_caps[d.next(6)], n = vp::sizes()[d.v];
            block b, want;
            auto add = [&] (auto v) { for (auto x : bytes_of(v, end)) want.push_back(x); };
            for (std::size_t k = 0; k < n; ++k) switch (k % 4) {
            case 0: add(static_cast<unsigned char>(k)); break;
            case 1: add(static_cast<short>(k * 7)); break;
            case 2: add(static_cast<int>(k * 70001)); break;
            case 3: add(double(k) / 3); break;
            }
            {
                out_resource r(b, cap);
                cmp::data_output_stream<out_resource> s(r, ends[end]);
                for (std::size_t k = 0; k < n; ++k) switch (k % 4) {
                case 0: { auto x = static_cast<unsigned char>(k); s << x; break; }
                case 1: { auto x = static_cast<short>(k * 7); s << x; break; }
                case 2: { auto x = static_cast<int>(k * 70001); s << x; break; }
                case 3: { auto x = double(k) / 3; s << x; break; }
                }
            }
            VP_CHECK(b == want, n, " values are written differently");
            in_resource r(b, cap);
            cmp::data_input_stream<in_resource> s(r, ends[end]);
            for (std::size_t k = 0; k < n; ++k) {
                VP_CHECK(!s.is_at_end(), "the end comes before value ", k, " of ", n);
                bool good = true;
                switch (k % 4) {
                case 0: { unsigned char x; s >> x; good = x == static_cast<unsigned char>(k); break; }
                case 1: { short x; s >> x; good = x == static_cast<short>(k * 7); break; }
                case 2: { int x; s >> x; good = x == static_cast<int>(k * 70001); break; }
                case 3: { double x; s >> x; good = x == double(k) / 3; break; }
                }
                VP_CHECK(good, "value ", k, " of ", n, " is read differently");
            }
            VP_CHECK(s.is_at_end(), "the end doesn't come after ", n, " values");
            vp::step(vp::mix(n, cap * 2 + end));
            vp::outcome("many values");
        },
        [] (u64 i) { return "sizes case " + std::to_string(i); });
    vp::add_space("other byte order", "both byte orders", 1,
        [] (u64) {
            VP_CHECK(cmp::get_opposite_endianness(std::endian::big) == std::endian::little && cmp::get_opposite_endianness(std::endian::little) == std::endian::big, "the opposite byte order is the same");
            vp::step(0);
        });
    vp::add_space("reversal", "reversing 0..40 bytes, every starting offset", 41 * 8,
        [] (u64 i) {
            std::size_t n = i % 41, at = i / 41;
            std::unique_ptr<std::byte[]> x(new std::byte[n + at]);
            for (std::size_t k = 0; k < n + at; ++k) x[k] = std::byte(k + 1);
            if (n == 0) return;
            cmp::invert_endianness(x.get() + at, n);
            for (std::size_t k = 0; k < at; ++k) VP_CHECK(x[k] == std::byte(k + 1), n, " bytes");
            for (std::size_t k = 0; k < n; ++k) VP_CHECK(x[at + k] == std::byte(at + n - k), n, " bytes, byte ", k);
            vp::step(vp::mix(n, at));
        });
#endif
#ifdef VP_S02
    vp::add_space("every code point", "every scalar value, 8 kinds of source, all encodings and byte orders", 0x110000,
        [] (u64 i) {
            if (!ref::scalar(i)) {
                for (int form = 0; form < 2; ++form)
                    for (int end = 0; end < 2; ++end) {
                        block b;
                        bool thrown = false;
                        {
                            out_resource r(b, 3);
                            cmp::text_output_stream<out_resource> s(r, forms[form], ends[end]);
                            try { s << char32_t(i); } catch (const cmp::invalid_code_point&) { thrown = true; }
                        }
                        VP_CHECK(thrown && b.empty(), "surrogate ", i, " in ", form_names[form]);
                    }
                vp::outcome("surrogate refused");
                return;
            }
            ref::cps v = {char32_t(i)};
            for (unsigned source = 0; source < 17; ++source) {
                if (source > 4 && i > 0x80 && i % 64) continue;
                if (!usable(source, v)) continue;
                for (int form = 0; form < 3; ++form)
                    for (int end = 0; end < 2; ++end) s02_one(v, source, form, end, 3);
            }
            vp::outcome("written");
        },
        [] (u64 i) { return show_cps({char32_t(i)}); });
    vp::add_space("sizes", "texts of 15..65537 code points around the powers of two, narrow but for their end, mixed and narrow, 17 kinds of source, all encodings and byte orders, 6 buffer capacities in turn", vp::sizes().size() * 17 * 3,
        [] (u64 i) {
            vp::digits d{i};
            const unsigned kind = d.next(3), source = d.next(17);
            const std::size_t n = vp::sizes()[d.v];
            const ref::cps v = kind == 2 ? ref::cps(n, U'q') : long_text(n, kind);
            if (!usable(source, v)) return;
            for (int form = 0; form < 3; ++form)
                for (int end = 0; end < 2; ++end) s02_one(v, source, form, end, large_caps[(i / 51 + form * 2 + end) % 6]);
            vp::outcome("long text");
        },
        [] (u64 i) { return "sizes case " + std::to_string(i); });
    static const char32_t al[] = {0, U'a', 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFEFF, 0xFFFF, 0x10000, 0x10FFFF};
    const unsigned n = thorough ? 4 : 3;
    vp::add_space("strings", "all strings of 0.." + std::to_string(n) + " boundary code points, 17 kinds of source, all encodings and byte orders, 4 buffer capacities",
        vp::seq_count(12, n) * 4,
        [n] (u64 i) {
            std::size_t cap = caps[i % 4];
            ref::cps v;
            for (unsigned x : vp::seq_decode(i / 4, 12, n)) v.push_back(al[x]);
            for (unsigned source = 0; source < 17; ++source) {
                if (!usable(source, v)) continue;
                for (int form = 0; form < 3; ++form)
                    for (int end = 0; end < 2; ++end) s02_one(v, source, form, end, cap);
            }
        });
    const unsigned h = thorough ? 6 : 5;
    vp::add_space("histories", "all sequences of " + std::to_string(h) + " stream operations (10 kinds: encoding, byte order, mark, texts of each form, flush), 2 buffer capacities, from each encoding",
        vp::ipow(10, h) * 2 * 3,
        [h] (u64 i) {
            vp::digits d{i};
            std::size_t cap = d.next(2) ? 16 : 3;
            int form = d.next(3), end = 0;
            block b, want;
            std::string trace = form_names[form];
            out_resource r(b, cap);
            {
                cmp::text_output_stream<out_resource> s(r, forms[form], ends[end]);
                auto expect = [&] (const ref::cps& v) { for (auto x : encoded(v, form, end)) want.push_back(x); };
                for (unsigned k = 0; k < h; ++k) {
                    unsigned o = d.next(10);
                    switch (o) {
                    case 0: case 1: case 2: form = o; s.set_encoding_form(forms[o]); VP_CHECK(s.get_encoding_form() == forms[o], trace); trace += std::string(" ") + form_names[o]; break;
                    case 3: end = 1 - end; s.set_endianness(ends[end]); VP_CHECK(s.get_endianness() == ends[end], trace); trace += " turn"; break;
                    case 4: s.write_bom(); expect({0xFEFF}); trace += " mark"; break;
                    case 5: s << U'\u00E9'; expect({0xE9}); trace += " e9"; break;
#ifdef VP_SHORT_WCHAR
                    case 6: s << L"z\u20AC"; expect({U'z', 0x20AC}); trace += " wide"; break;
                    case 7: s << std::wstring_view(L"\U0001F600"); expect({0x1F600}); trace += " wide view"; break;
#else
                    case 6: s << u8"z\u20AC"; expect({U'z', 0x20AC}); trace += " u8"; break;
                    case 7: s << u"\U0001F600"; expect({0x1F600}); trace += " u16"; break;
#endif
                    case 8: s << U"q\u0394"; expect({U'q', 0x394}); trace += " u32"; break;
                    case 9: static_cast<cmp::output_stream<out_resource>&>(s) << cmp::flush; trace += " flush"; VP_CHECK(b == want, trace, ": ", show(b), " not ", show(want)); break;
                    }
                    vp::step(vp::mix(vp::hash_bytes(want.data(), want.size()), form * 2 + end));
                }
            }
            VP_CHECK(b == want, trace, ": ", show(b), " not ", show(want));
        });
    static const unsigned bad8[] = {0x61, 0x80, 0xC3, 0xE2, 0xF0, 0xFF};
    static const unsigned bad16[] = {0x61, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xFFFF};
    const unsigned m = thorough ? 5 : 4;
    vp::add_space("malformed", "all unit sequences of length 0.." + std::to_string(m) + " over 6 boundary units, UTF-8 and UTF-16 sources into other encodings: the well-formed beginning, then an error",
        vp::seq_count(6, m) * 2,
        [m] (u64 i) {
            auto seq = vp::seq_decode(i / 2, 6, m);
            auto run = [&] (auto view, const ref::cps& good, ref::err error, int from) {
                for (int form = 0; form < 3; ++form) {
                    if (form == from) continue;
                    for (int end = 0; end < 2; ++end) {
                        block b;
                        bool thrown = false;
                        {
                            out_resource r(b, 3);
                            cmp::text_output_stream<out_resource> s(r, forms[form], ends[end]);
                            try { s << view; }
                            catch (const cmp::invalid_unicode_encoding&) { thrown = true; }
                            catch (const cmp::iterated_past_end&) { thrown = true; }
                        }
                        VP_CHECK(thrown == (error != ref::err::none), "units ", i, " to ", form_names[form], thrown ? ": refused" : ": accepted");
                        if (!thrown) VP_CHECK(b == encoded(good, form, end), "units ", i, " to ", form_names[form]);
                        vp::outcome(thrown ? "malformed source refused" : "well-formed source");
                        vp::step(vp::hash_bytes(b.data(), b.size(), form));
                    }
                }
            };
            if (i % 2) {
                std::u8string s;
                for (unsigned x : seq) s += char8_t(bad8[x]);
                ref::exact<char8_t> e{std::u8string_view(s)};
                auto d = ref::decode<char8_t>(e.view());
                run(e.view(), d.points, d.error, 0);
            } else {
#ifdef VP_SHORT_WCHAR
                using unit = wchar_t;
#else
                using unit = char16_t;
#endif
                std::basic_string<unit> s;
                for (unsigned x : seq) s += unit(bad16[x]);
                ref::exact<unit> e{std::basic_string_view<unit>(s)};
                auto d = ref::decode<unit>(e.view());
                run(e.view(), d.points, d.error, 1);
            }
        });
#endif
#ifdef VP_S03
    static const std::vector<ref::cps> al = {{U'a'}, {U' '}, {U'\n'}, {U'\r', U'\n'}, {0xE9}, {0x2028}, {0x1F600}};
    const unsigned n = thorough ? 5 : 4;
    const unsigned h = 3;
    vp::add_space("histories", "all texts of 0.." + std::to_string(n) + " letters of 7 (line ends, white space, every encoded length), all sequences of 3 of 6 operations, all encodings and byte orders, 4 kinds of target, 2 buffer capacities",
        vp::seq_count(7, n) * vp::ipow(6, h),
        [=] (u64 i) {
            vp::digits d{i};
            std::vector<unsigned> ops;
            for (unsigned k = 0; k < h; ++k) ops.push_back(d.next(6));
            const ref::cps text = letters(vp::seq_decode(d.v, 7, n), al);
            for (int form = 0; form < 3; ++form)
                for (int end = 0; end < (form ? 2 : 1); ++end)
                    s03_run(text, form, end, caps[(i + form) % 4], (i + form + end) % 4, ops);
        },
        [=] (u64 i) {
            vp::digits d{i};
            std::string s;
            for (unsigned k = 0; k < h; ++k) s += std::string(s03_ops[d.next(6)]) + ", ";
            return s + show_cps(letters(vp::seq_decode(d.v, 7, n), al));
        });
    vp::add_space("targets", "all texts of 0..3 letters of 7 and a lone final CR, all single operations and pairs, all encodings, byte orders, targets and buffer capacities",
        vp::seq_count(7, 3) * 36 * 2,
        [=] (u64 i) {
            vp::digits d{i};
            std::vector<unsigned> ops = {unsigned(d.next(6)), unsigned(d.next(6))};
            bool cr = d.next(2);
            ref::cps text = letters(vp::seq_decode(d.v, 7, 3), al);
            if (cr) text.push_back(U'\r');
            for (int form = 0; form < 3; ++form)
                for (int end = 0; end < 2; ++end)
                    for (unsigned t = 0; t < 4; ++t)
                        for (std::size_t cap : caps) s03_run(text, form, end, cap, t, ops);
        });
    vp::add_space("every code point", "every scalar value but CR between two letters, read by code point, word, line and whole, all encodings and byte orders", 0x110000,
        [=] (u64 i) {
            if (!ref::scalar(i) || i == '\r') return;
            const ref::cps text = {U'a', char32_t(i), U'b', char32_t(i)};
            for (int form = 0; form < 3; ++form)
                for (int end = 0; end < (form ? 2 : 1); ++end) {
                    s03_run(text, form, end, 3, i % 4, {0, 0, 0, 0, 0});
                    s03_run(text, form, end, 16, (i + 1) % 4, {3, 3, 3});
                    s03_run(text, form, end, 1, (i + 2) % 4, {1, 1, 4});
                    s03_run(text, form, end, 4, (i + 3) % 4, {i % 2 ? 4u : 5u});
                }
        },
        [] (u64 i) { return show_cps({char32_t(i)}); });
    vp::add_space("sizes", "texts of a word and two lines of 15..65537 code points around the powers of two, all encodings and byte orders, 6 buffer capacities, 4 kinds of target in turn", vp::sizes().size() * 2 * 6,
        [=] (u64 i) {
            vp::digits d{i};
            const bool dense = d.next(2);
            const std::size_t cap = large_caps[d.next(6)], n = vp::sizes()[d.v];
            ref::cps text = long_text(n, dense);
            const ref::cps one = text;
            text.push_back(U' ');
            text.insert(text.end(), one.begin(), one.end());
            text.push_back(i % 2 ? U'\n' : U'\r');
            if (i % 2 == 0) text.push_back(U'\n');
            text.insert(text.end(), one.begin(), one.end());
            for (int form = 0; form < 3; ++form)
                for (int end = 0; end < (form ? 2 : 1); ++end) {
                    s03_run(text, form, end, cap, (i + form) % 4, {3, 1, 2});
                    s03_run(text, form, end, cap, (i + form + 1) % 4, {0, 1, 3});
                    s03_run(text, form, end, cap, (i + form + 2) % 4, {1, 5});
                    s03_run(text, form, end, cap, (i + form + 3) % 4, {4});
                }
            vp::outcome("long text");
        },
        [] (u64 i) { return "sizes case " + std::to_string(i); });
    static const unsigned byte_letters[] = {0x61, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE2, 0xED, 0xEF, 0xF0, 0xF4, 0xF5, 0xF8, 0xFF};
    vp::add_space("malformed UTF-8", "all sequences of 0..4 of 21 boundary bytes, 2 buffer capacities", vp::seq_count(21, 4) * 2,
        [] (u64 i) {
            block b;
            for (unsigned x : vp::seq_decode(i / 2, 21, 4)) b.push_back(std::byte(byte_letters[x]));
            s03_malformed(b, 0, 0, i % 2 ? 16 : 1);
        });
    vp::add_space("two bytes", "every pair and (thorough) triple of bytes except CR", thorough ? 1u << 24 : 1u << 16,
        [thorough] (u64 i) {
            block b = {std::byte(i), std::byte(i >> 8)};
            if (thorough) b.push_back(std::byte(i >> 16));
            for (auto x : b) if (x == std::byte('\r')) return;
            s03_malformed(b, 0, 0, 3);
        });
    static const unsigned units[] = {0x61, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFF};
    vp::add_space("malformed UTF-16", "all sequences of 0..4 of 8 boundary units with 0 or 1 odd byte, both byte orders, 4 buffer capacities", vp::seq_count(8, 4) * 16,
        [] (u64 i) {
            vp::digits d{i};
            int end = d.next(2);
            bool odd = d.next(2);
            std::size_t cap = caps[d.next(4)];
            block b;
            for (unsigned x : vp::seq_decode(d.v, 8, 4)) {
                unsigned u = units[x];
                b.push_back(std::byte(end == 0 ? u >> 8 : u));
                b.push_back(std::byte(end == 0 ? u : u >> 8));
            }
            if (odd) b.push_back(std::byte(0xD8));
            s03_malformed(b, 1, end, cap);
        });
    vp::add_space("truncated UTF-32", "0..3 code points with 0..3 bytes missing, both byte orders, 4 buffer capacities", 4 * 4 * 2 * 4,
        [] (u64 i) {
            vp::digits d{i};
            int end = d.next(2);
            std::size_t missing = d.next(4), cap = caps[d.next(4)];
            ref::cps v(d.v, 0x1F600);
            block b = encoded(v, 2, end);
            if (b.size() < missing) return;
            b.resize(b.size() - missing);
            s03_malformed(b, 2, end, cap);
        });
    vp::add_space("byte order mark", "17 first code points, no mark and both marks, all encodings, declared byte orders and buffer capacities", 17 * 3 * 3 * 2 * 4,
        [] (u64 i) {
            static const char32_t first[] = {0, U'a', U'\n', 0x7F, 0x80, 0xFE, 0xFF, 0x7FF, 0x800, 0xFEFE, 0xFEFF, 0xFFFD, 0xFF00, 0xD7FF, 0xE000, 0x10000, 0x10FFFF};
            vp::digits d{i};
            char32_t f = first[d.next(17)];
            unsigned kind = d.next(3);
            int form = d.next(3), end = d.next(2);
            std::size_t cap = caps[d.next(4)];
            if (form == 0 && kind == 2) return;
            // Without a mark, a first code point that reads as one is one.
            if (kind == 0 && f == 0xFEFF) return;
            s03_bom(f, kind, form, end, cap);
        });
    vp::add_space("every first code point", "every scalar value as the first of a text without a mark, a mark being asked for, all encodings and byte orders", 0x110000,
        [] (u64 i) {
            if (!ref::scalar(i) || i == 0xFEFF || i == '\r') return;
            for (int form = 0; form < 3; ++form)
                for (int end = 0; end < (form ? 2 : 1); ++end) {
                    if (form == 1 && i == 0xFFFE) continue; // the other order's mark
                    s03_bom(i, 0, form, end, caps[i % 4]);
                }
        },
        [] (u64 i) { return show_cps({char32_t(i)}); });
    vp::add_space("marks and malformed text", "all sequences of 0..6 of 6 bytes of marks, surrogates and a letter after asking for a mark, all encodings, declared byte orders and buffer capacities", vp::seq_count(6, 6) * 3,
        [] (u64 i) {
            static const unsigned v[] = {0, 0xFE, 0xFF, 0xD8, 0xDC, 0x61};
            block b;
            for (unsigned x : vp::seq_decode(i / 3, 6, 6)) b.push_back(std::byte(v[x]));
            const int form = i % 3;
            for (int end = 0; end < 2; ++end)
                for (std::size_t cap : caps) s03_malformed(b, form, end, cap, true);
        });
    vp::add_space("cut marks", "a UTF-8 or UTF-32 mark and two code points, cut to every length, after asking for the mark, both marks and declared byte orders, 4 buffer capacities", 2 * 2 * 2 * 4 * 13,
        [] (u64 i) {
            vp::digits d{i};
            const int form = d.next(2) ? 2 : 0, mark = d.next(2), end = d.next(2);
            const std::size_t cap = caps[d.next(4)];
            block b = encoded({0xFEFF, U'a', 0x1F600}, form, mark);
            if (d.v > b.size()) return;
            b.resize(d.v);
            s03_malformed(b, form, end, cap, true);
        });
    vp::add_space("switching", "three pieces of text in any encodings and byte orders, by one stream told of the changes or by two over one resource, 5 letters each, 4 buffer capacities", vp::ipow(5, 3) * vp::ipow(5, 3) * 3 * 4,
        [] (u64 i) {
            static const unsigned kind[] = {0, 2, 3, 4, 5};
            vp::digits d{i};
            std::vector<unsigned> k, l;
            for (int j = 0; j < 3; ++j) k.push_back(kind[d.next(5)]);
            for (int j = 0; j < 3; ++j) l.push_back(d.next(5));
            unsigned how = d.next(3);
            s03_switch(k, l, how, caps[d.v]);
        });
    vp::add_space("combined stream", "all texts of 0..3 letters of 7, all pairs of operations, through a text input/output stream, all encodings and byte orders, 4 buffer capacities", vp::seq_count(7, 3) * 36 * 4,
        [=] (u64 i) {
            vp::digits d{i};
            std::vector<unsigned> ops = {unsigned(d.next(6)), unsigned(d.next(6))};
            std::size_t cap = caps[d.next(4)];
            ref::cps text = letters(vp::seq_decode(d.v, 7, 3), al);
            for (int form = 0; form < 3; ++form)
                for (int end = 0; end < 2; ++end) s03_run(text, form, end, cap, (i + form + end) % 4, ops, true);
        });
    vp::add_space("two carriage returns", "two carriage returns and a line feed between texts of 0..2 letters of 7, all single operations, all encodings", vp::seq_count(7, 2) * vp::seq_count(7, 2) * 6,
        [=] (u64 i) {
            vp::digits d{i};
            std::vector<unsigned> ops = {unsigned(d.next(6)), 4};
            ref::cps text = letters(vp::seq_decode(d.next(vp::seq_count(7, 2)), 7, 2), al);
            text.insert(text.end(), {U'\r', U'\r', U'\n'});
            for (char32_t c : letters(vp::seq_decode(d.v, 7, 2), al)) text.push_back(c);
            for (int form = 0; form < 3; ++form) s03_run(text, form, i % 2, caps[i % 4], i % 4, ops);
        });
    vp::add_space("lone carriage return", "a carriage return between two letters is kept", 1,
        [] (u64) { s03_run({U'a', U'\r', U'b'}, 0, 0, 16, 0, {4}); },
        [] (u64) { return std::string("read_all of a CR b"); });
#endif
#ifdef VP_S05
    vp::add_space("integers", "every 8-bit value and values around every power of two in eight types, all encodings and byte orders, 4 buffer capacities, 3 separators", 3 * 2 * 4 * 3 * 8,
        [] (u64 i) {
            vp::digits d{i};
            int form = d.next(3), end = d.next(2);
            std::size_t cap = caps[d.next(4)];
            static const char* seps[] = {" ", "\r\n", "\t "};
            const char* sep = seps[d.next(3)];
            switch (d.v) {
            case 0: { std::vector<short> v; for (int k = -200; k <= 200; ++k) v.push_back(k); s05_integers(v, form, end, cap, sep, "short"); s05_integers(edges<short>(), form, end, cap, sep, "short"); break; }
            case 1: s05_integers(edges<unsigned short>(), form, end, cap, sep, "unsigned short"); break;
            case 2: s05_integers(edges<int>(), form, end, cap, sep, "int"); break;
            case 3: s05_integers(edges<unsigned>(), form, end, cap, sep, "unsigned"); break;
            case 4: s05_integers(edges<long>(), form, end, cap, sep, "long"); break;
            case 5: s05_integers(edges<unsigned long>(), form, end, cap, sep, "unsigned long"); break;
            case 6: s05_integers(edges<long long>(), form, end, cap, sep, "long long"); break;
            case 7: s05_integers(edges<unsigned long long>(), form, end, cap, sep, "unsigned long long"); break;
            }
        });
    vp::add_space("16 bits", "every 16-bit value, all encodings and byte orders", 65536 * 6,
        [] (u64 i) { s05_integers<short>({short(i / 6)}, i % 3, i / 3 % 2, 3, "\n", "short"); });
    vp::add_space("floats", "every multiple of 1/64 from -32 to 32, double and float, all encodings and byte orders", 4097 * 6,
        [] (u64 i) {
            int form = i % 3, end = i / 3 % 2;
            double v = (double(i / 6) - 2048) / 64;
            block b;
            io_resource r(b, 16);
            cmp::text_io_stream<io_resource> st(r, forms[form], ends[end]);
            cmp::text_output_stream<io_resource>& out = st;
            out << v << ' ' << float(v) << U'\n';
            out.flush();
            char text[64];
            std::snprintf(text, sizeof text, "%.6f", v);
            std::string t = text;
            while (t.back() == '0') t.pop_back();
            if (t.back() == '.') t.pop_back();
            if (t == "-0") t = "0";
            VP_CHECK(b == encoded(points(t + " " + t + "\n"), form, end), v, " in ", form_names[form], ": ", show(b));
            st->set_position(0, cmp::position_reference::begin);
            cmp::text_input_stream<io_resource>& in = st;
            double x = 77;
            float y = 77;
            in >> x >> y;
            auto near = [&] (double got, double eps) { double d = got - v; if (d < 0) d = -d; return d <= 16 * eps * (v < 0 ? -v : v); };
            VP_CHECK(near(x, std::numeric_limits<double>::epsilon()) && near(y, std::numeric_limits<float>::epsilon()), v, ": ", x, " ", y);
            vp::step(vp::mix(i, 5));
        });
    vp::add_space("large floats", "2^k, 3*2^k and 2^k - 1 for k from 0 to 1000, both signs, all encodings", 1001 * 3,
        [] (u64 i) {
            const int form = i % 3, end = i & 1;
            const int k = int(i / 3);
            block b;
            io_resource r(b, 16);
            cmp::text_io_stream<io_resource> st(r, forms[form], ends[end]);
            cmp::text_output_stream<io_resource>& out = st;
            std::vector<double> values;
            for (double m : {1.0, -1.0, 3.0, -3.0}) values.push_back(std::ldexp(m, k));
            values.push_back(std::ldexp(1.0, k) - 1);
            for (double v : values) out << v << ' ';
            out.flush();
            st->set_position(0, cmp::position_reference::begin);
            cmp::text_input_stream<io_resource>& in = st;
            for (double v : values) {
                double x = 77;
                in >> x;
                VP_CHECK(std::fabs(x - v) <= 4 * std::numeric_limits<double>::epsilon() * std::fabs(v), v, " is read back as ", x);
                vp::step(vp::mix(i, u64(values.size())));
            }
            vp::outcome("large float");
        },
        [] (u64 i) { return "2^" + std::to_string(i / 3); });
    vp::add_space("many numbers", "15..65537 integers around the powers of two, written and read back, 6 buffer capacities, encodings in turn", vp::sizes().size() * 6,
        [] (u64 i) {
            const std::size_t cap = large_caps[i % 6], n = vp::sizes()[i / 6];
            std::vector<int> values;
            for (std::size_t k = 0; k < n; ++k) values.push_back(int(k * 40503) * (k % 2 ? -1 : 1));
            if (cap == 0 && n > 5000) return;
            s05_integers(values, i % 3, i & 1, cap, " ", "int");
        },
        [] (u64 i) { return "many numbers case " + std::to_string(i); });
    vp::add_space("booleans and words", "all sequences of 5 of true, false, a word, a number, over 3 encodings and both byte orders", 1024 * 6,
        [] (u64 i) {
            vp::digits d{i};
            int form = d.next(3), end = d.next(2);
            std::vector<unsigned> ops;
            for (int k = 0; k < 5; ++k) ops.push_back(d.next(4));
            block b;
            ref::cps want;
            io_resource r(b, 3);
            cmp::text_io_stream<io_resource> st(r, forms[form], ends[end]);
            cmp::text_output_stream<io_resource>& out = st;
            for (unsigned o : ops) {
                ref::cps t;
                switch (o) {
                case 0: out << true; t = points("1"); break;
                case 1: out << false; t = points("0"); break;
                case 2: out << u8"w\u00E9"; t = {U'w', 0xE9}; break;
                case 3: out << -42; t = points("-42"); break;
                }
                out << ' ';
                t.push_back(U' ');
                want.insert(want.end(), t.begin(), t.end());
            }
            out.flush();
            VP_CHECK(b == encoded(want, form, end), show(b));
            st->set_position(0, cmp::position_reference::begin);
            cmp::text_input_stream<io_resource>& in = st;
            for (unsigned o : ops) {
                if (o < 2) { bool x = o; in >> x; VP_CHECK(x == (o == 0), "bool"); }
                else if (o == 2) { std::u32string x; in >> x; VP_CHECK(x == U"w\u00E9", "word"); }
                else { int x = 0; in >> x; VP_CHECK(x == -42, "number"); }
                vp::step(vp::mix(i, o));
            }
        });
    static const char letters[] = "019-+., a";
    const unsigned n = thorough ? 5 : 4;
    vp::add_space("texts", "every text of length 0.." + std::to_string(n) + " over 9 characters read as an integer: its value, or an error", vp::seq_count(9, n),
        [n] (u64 i) {
            std::string t;
            for (unsigned x : vp::seq_decode(i, 9, n)) t += letters[x];
            // The word that is read.
            std::size_t from = t.find_first_not_of(' ');
            std::string w = from == std::string::npos ? "" : t.substr(from, t.find(' ', from) - from);
            bool ok = !w.empty();
            __int128 v = 0;
            std::size_t k = !w.empty() && w[0] == '-';
            if (k == w.size()) ok = false;
            for (std::size_t j = k; j < w.size(); ++j) {
                if (w[j] < '0' || w[j] > '9') ok = false;
                v = v * 10 + (w[j] - '0');
            }
            if (k) v = -v;
            block b = encoded(points(t), i % 3, 0);
            in_resource r(b, 3);
            cmp::text_input_stream<in_resource> in(r, forms[i % 3], std::endian::big);
            short x = 0x55;
            bool thrown = false;
            try { in >> x; } catch (const std::exception&) { thrown = true; }
            VP_CHECK(thrown == !ok, "'", t, "'", thrown ? " was refused" : " was accepted");
            if (ok) VP_CHECK(x == v, "'", t, "' read as ", x);
            else VP_CHECK(x == 0x55, "'", t, "' changed the target");
            vp::outcome(ok ? "value" : "refused");
            vp::step(vp::mix(i, 3));
        });
#endif
#ifdef VP_SHORT_WCHAR
    vp::keep({"every code point", "sizes", "strings", "malformed", "histories", "targets", "combined stream"});
#endif
}

int
main (
    int argc,
    char** argv
) {
    return vp::main_(argc, argv, setup);
}
