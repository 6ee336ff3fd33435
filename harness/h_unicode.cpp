#include <cmp/unicode/algorithms.hpp>
#include <cmp/unicode/by_code_point.hpp>
#include <cmp/unicode/examiners.hpp>

#include <algorithm>
#include <utility>

#include "ref_unicode.hpp"
#include "vp.hpp"

using ref::cps;
using vp::u64;

template <typename C> const char* form_name ();
template <> const char* form_name<char> () { return "char"; }
template <> const char* form_name<char8_t> () { return "utf8"; }
template <> const char* form_name<char16_t> () { return "utf16"; }
template <> const char* form_name<char32_t> () { return "utf32"; }
template <> const char* form_name<wchar_t> () { return "wide"; }

template <typename F>
void
all_unicode_forms (
    F f
) {
#ifndef VP_SHORT_WCHAR // where only the wide form is different
    f(char8_t{});
    f(char16_t{});
    f(char32_t{});
#endif
    f(wchar_t{});
}

static bool
ascii (
    const cps& v
) {
    for (char32_t c : v) if (c > 0x7F) return false;
    return true;
}

static std::string
show_cps (
    const cps& v
) {
    std::ostringstream o;
    for (char32_t c : v) o << "U+" << std::hex << std::uppercase << static_cast<unsigned long>(c) << " ";
    return o.str();
}

// Code points on the edges of every encoded length, of the surrogate gap, and
// ones whose 16-bit halves look like surrogates.
static const cps edges = {
    0x00, 0x41, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFEFF, 0xFFFF,
    0x10000, 0x103FF, 0x10400, 0x1D800, 0x1DFFF, 0xFFFFF, 0x100000, 0x10FFFF
};

static cps
pick (
    u64 idx,
    const cps& alphabet,
    unsigned n
) {
    cps r;
    for (unsigned d : vp::seq_decode(idx, alphabet.size(), n)) r.push_back(alphabet[d]);
    return r;
}

// A long text: ASCII except for one code point of each encoded length from
// 'from' on, over and over if 'dense'.
static cps
long_text (
    std::size_t n,
    bool dense
) {
    static const char32_t wide[] = {0xE9, 0x20AC, 0x10400, 0x41};
    cps r;
    for (std::size_t i = 0; i < n; ++i) r.push_back(dense ? wide[i % 4] : i + 3 >= n ? wide[n - 1 - i] : 'a' + i % 26);
    return r;
}

// ------------------------------------------------------------------------ U01
#ifdef VP_U01
template <typename C>
void
u01_long (
    std::size_t n
) {
    using S = std::basic_string<C>;
    for (bool dense : {false, true}) {
        const cps v = long_text(n, dense);
        const S base = ref::encode<C>(v);
        const auto offsets = ref::decode<C>(std::basic_string_view<C>(base)).offsets;
        for (char32_t cp : {char32_t('x'), char32_t(0x7FF), char32_t(0xFFFD), char32_t(0x10FFFF), char32_t(0xD800), char32_t(0x110000)}) {
            const bool ok = ref::scalar(cp);
            for (int kind = 0; kind < 4; ++kind) {
                const std::size_t at = kind == 0 ? base.size() : kind == 1 ? 0 : kind == 2 ? offsets[n / 2] : offsets[n - 1];
                S s = base, want = base;
                if (ok) want.insert(at, ref::encode<C>({cp}));
                bool threw = false;
                try {
                    if (kind == 0) cmp::append_code_point(s, cp);
                    else if (kind == 1) cmp::prepend_code_point(s, cp);
                    else cmp::insert_code_point(s, cp, at);
                } catch (const cmp::invalid_code_point&) { threw = true; }
                VP_CHECK(threw == !ok, form_name<C>(), " U+", std::hex, static_cast<unsigned long>(cp), ok ? " was refused" : " was accepted");
                VP_CHECK(s == want, form_name<C>(), " text of ", n, " code points: U+", std::hex, static_cast<unsigned long>(cp), " wasn't put in at ", std::dec, at);
                vp::step(vp::mix(vp::mix(n, cp), kind * 16 + dense * 8 + sizeof(C)));
                vp::outcome("long text");
            }
        }
    }
}

template <typename C>
void
u01_one (
    char32_t cp
) {
    using S = std::basic_string<C>;
    using V = std::basic_string_view<C>;
    const bool ok = ref::scalar(cp);
    static const std::vector<cps> bases = {{}, {0x41}, {0x42, 0x10FFFF, 0x7FF}};
    int base_no = 0;
    for (const cps& b : bases) {
        ++base_no;
        const S base = ref::encode<C>(b);
        const S unit = ok ? ref::encode<C>({cp}) : S{};
        // kind 0: append, 1: prepend, 2..: insert at every boundary
        std::vector<std::size_t> at;
        {
            auto d = ref::decode<C>(V(base));
            at = d.offsets;
            at.push_back(base.size());
        }
        for (std::size_t kind = 0; kind < 2 + at.size(); ++kind) {
            S s = base;
            std::size_t pos = kind == 0 ? base.size() : kind == 1 ? 0 : at[kind - 2];
            bool threw = false;
            try {
                if (kind == 0) cmp::append_code_point(s, cp);
                else if (kind == 1) cmp::prepend_code_point(s, cp);
                else cmp::insert_code_point(s, cp, pos);
            } catch (const cmp::invalid_code_point&) {
                threw = true;
            }
            S want = base;
            if (ok) want.insert(pos, unit);
            VP_CHECK(threw == !ok, form_name<C>(), " U+", std::hex, static_cast<unsigned long>(cp), std::dec, " kind ", kind,
                ok ? " was refused" : " was accepted: ", vp::show(s));
            VP_CHECK(s == want, form_name<C>(), " U+", std::hex, static_cast<unsigned long>(cp), std::dec, " kind ", kind,
                " base ", vp::show(base), " gave ", vp::show(s), " not ", vp::show(want));
            vp::step(vp::mix(cp, base_no * 64 + kind * 5 + sizeof(C)));
            vp::outcome(ok ? "encoded" : "refused");
        }
        if (ok) {
            // Decode what was appended, forwards and backwards.
            S s = base;
            cmp::append_code_point(s, cp);
            ref::exact<C> e{V(s)};
            cmp::by_code_point<C> range{e.view()};
            auto i = range.end();
            --i;
            VP_CHECK(char32_t(*i) == cp, form_name<C>(), " decodes U+", std::hex, static_cast<unsigned long>(cp),
                " as U+", static_cast<unsigned long>(char32_t(*i)), " backwards");
            auto j = range.begin();
            for (std::size_t k = 0; k < b.size(); ++k) ++j;
            VP_CHECK(j == i, form_name<C>(), " forward and backward positions differ at U+", std::hex, static_cast<unsigned long>(cp));
            VP_CHECK(char32_t(*j) == cp, form_name<C>(), " decodes U+", std::hex, static_cast<unsigned long>(cp),
                " as U+", static_cast<unsigned long>(char32_t(*j)));
            ++j;
            VP_CHECK(j == range.end(), form_name<C>(), " U+", std::hex, static_cast<unsigned long>(cp), " doesn't end where it should");
            VP_CHECK(cmp::validate_string(s) == cmp::by_code_point<C>(s).end(), form_name<C>(), " U+", std::hex, static_cast<unsigned long>(cp), " isn't valid");
            vp::step(vp::mix(cp, base_no * 64 + 63 + sizeof(C) * 7777));
            vp::outcome("decoded");
        }
    }
}

static char32_t
u01_cp (
    u64 i
) {
    static const char32_t odd[] = {
        0x110000, 0x110001, 0x11FFFF, 0x120000, 0x1FFFFF, 0x200000, 0x3FFFFFF, 0x4000000, 0x7FFFFFFF,
        0x80000000, 0x80000041, 0xD8000000, 0xFFFF0041, 0xFFFFFFFE, 0xFFFFFFFF
    };
    if (i < 0x110000) return char32_t(i);
    return odd[i - 0x110000];
}
#endif

// ------------------------------------------------------------------------ U02
#ifdef VP_U02
template <typename C>
void
u02_long (
    std::size_t n
) {
    for (bool dense : {false, true}) {
        const cps v = long_text(n, dense);
        const auto str = ref::encode<C>(v);
        const cmp::by_code_point<C> range{str};
        const char* f = form_name<C>();
        std::vector<std::size_t> marks = {0, 1, 2, n / 4, n / 2, n / 2 + 1, n - 2, n - 1, n};
        std::vector<typename cmp::by_code_point<C>::const_iterator> at(marks.size(), range.begin());
        std::size_t k = 0;
        auto i = range.begin();
        for (; ; ++i, ++k) {
            for (std::size_t q = 0; q < marks.size(); ++q) if (marks[q] == k) at[q] = i;
            if (i == range.end()) break;
            VP_CHECK(k < n && char32_t(*i) == v[k], f, " element ", k, " of ", n, " is wrong");
        }
        VP_CHECK(k == n, f, " ", n, " code points are visited as ", k);
        while (k > 0) {
            --i;
            --k;
            VP_CHECK(char32_t(*i) == v[k], f, " element ", k, " of ", n, " is wrong backwards");
        }
        VP_CHECK(i == range.begin(), f, " the beginning isn't reached after ", n);
        for (std::size_t a = 0; a < marks.size(); ++a)
            for (std::size_t b = a; b < marks.size(); ++b) {
                const std::ptrdiff_t d = marks[b] - marks[a];
                auto x = at[a];
                x += d;
                auto y = at[b];
                y -= d;
                VP_CHECK(x == at[b] && at[a] + d == at[b] && d + at[a] == at[b], f, " position ", marks[a], " + ", d);
                VP_CHECK(y == at[a] && at[b] - d == at[a], f, " position ", marks[b], " - ", d);
                VP_CHECK((at[a] == at[b]) == (marks[a] == marks[b]), f, " positions ", marks[a], " and ", marks[b], " compared");
                vp::step(vp::mix(n * 2 + dense, (a * 16 + b) * 8 + sizeof(C)));
            }
        vp::outcome("long text");
    }
}

template <typename C>
void
u02_one (
    const cps& v
) {
    using R = cmp::by_code_point<C>;
    using It = typename R::const_iterator;
    const auto str = ref::encode<C>(v);
    ref::exact<C> e{std::basic_string_view<C>(str)};
    const R range{e.view()};
    const std::ptrdiff_t n = v.size();
    const char* f = form_name<C>();
    // canonical position k, reached by single increments
    std::vector<It> pos;
    {
        It i = range.cbegin();
        VP_CHECK(i == range.begin(), f, " begin differs from cbegin");
        VP_CHECK(range.end() == range.cend(), f, " end differs from cend");
        for (std::ptrdiff_t k = 0; k < n; ++k) {
            VP_CHECK(i != range.cend(), f, " iteration ends early at ", k);
            VP_CHECK(char32_t(*i) == v[k], f, " element ", k, " is U+", std::hex, static_cast<unsigned long>(char32_t(*i)));
            pos.push_back(i);
            ++i;
        }
        VP_CHECK(i == range.cend(), f, " iteration doesn't end after ", n);
        pos.push_back(i);
    }
    auto same = [&] (const It& x, std::ptrdiff_t k, const char* op, std::ptrdiff_t from, std::ptrdiff_t by) {
        for (std::ptrdiff_t q = 0; q <= n; ++q) {
            VP_CHECK((x == pos[q]) == (q == k) && (x != pos[q]) == (q != k)
                && (pos[q] == x) == (q == k) && (pos[q] != x) == (q != k),
                f, " position ", from, " ", op, " ", by, " compared with position ", q, ", wanted position ", k);
        }
        if (k < n) VP_CHECK(char32_t(*x) == v[k], f, " position ", from, " ", op, " ", by, " reads U+", std::hex, static_cast<unsigned long>(char32_t(*x)));
        // What an operation returned has to work in both directions.
        It b = x;
        for (std::ptrdiff_t q = k; q > 0; --q) {
            --b;
            VP_CHECK(b == pos[q - 1] && char32_t(*b) == v[q - 1], f, " walking back from position ", from, " ", op, " ", by, " goes wrong at ", q - 1);
        }
        b = x;
        for (std::ptrdiff_t q = k; q < n; ++q) {
            ++b;
            VP_CHECK(b == pos[q + 1], f, " walking on from position ", from, " ", op, " ", by, " goes wrong at ", q + 1);
        }
        vp::step(vp::mix(vp::hash_bytes(str.data(), str.size() * sizeof(C), sizeof(C)), k));
        vp::outcome(op);
    };
    for (std::ptrdiff_t k = 0; k <= n; ++k) {
        const It p = pos[k];
        if (k < n) {
            { It x = p; It& r = ++x; VP_CHECK(&r == &x, f, " ++ returns something else"); same(x, k + 1, "++it", k, 1); }
            { It x = p; It o = x++; same(x, k + 1, "it++", k, 1); same(o, k, "value of it++", k, 0); }
        }
        if (k > 0) {
            { It x = p; It& r = --x; VP_CHECK(&r == &x, f, " -- returns something else"); same(x, k - 1, "--it", k, -1); }
            { It x = p; It o = x--; same(x, k - 1, "it--", k, -1); same(o, k, "value of it--", k, 0); }
        }
        for (std::ptrdiff_t d = 0; k + d <= n; ++d) {
            { It x = p; const It& r = (x += d); VP_CHECK(&r == &x, f, " += returns something else"); same(x, k + d, "+=", k, d); }
            same(p + d, k + d, "it+n", k, d);
            same(d + p, k + d, "n+it", k, d);
        }
        for (std::ptrdiff_t d = 0; d <= k; ++d) {
            { It x = p; const It& r = (x -= d); VP_CHECK(&r == &x, f, " -= returns something else"); same(x, k - d, "-=", k, d); }
            same(p - d, k - d, "it-n", k, d);
        }
        same(p, k, "copy", k, 0);
    }
    // Reverse iteration, and the range as a range.
    {
        std::ptrdiff_t k = n;
        for (auto r = range.crbegin(); r != range.crend(); ++r) {
            VP_CHECK(k > 0, f, " reverse iteration is too long");
            --k;
            VP_CHECK(char32_t(*r) == v[k], f, " reverse iteration reads U+", std::hex, static_cast<unsigned long>(char32_t(*r)), " at ", k);
            vp::outcome("reverse");
        }
        VP_CHECK(k == 0, f, " reverse iteration is too short");
        k = 0;
        for (char32_t c : range) {
            VP_CHECK(k < n && c == v[k], f, " range for reads U+", std::hex, static_cast<unsigned long>(c), " at ", k);
            ++k;
        }
        VP_CHECK(k == n, f, " range for visits ", k);
        VP_CHECK(std::distance(range.begin(), range.end()) == n, f, " distance");
    }
}
#endif

// ------------------------------------------------------------------------ U03
#ifdef VP_U03
template <typename C>
void
u03_one (
    const std::basic_string<C>& s
) {
    using R = cmp::by_code_point<C>;
    using V = std::basic_string_view<C>;
    ref::exact<C> e{V(s)};
    const R range{e.view()};
    const auto d = ref::decode<C>(V(s));
    const char* f = form_name<C>();
    const bool decoding_reports = sizeof(C) < 4; // UTF-32 units are handed out as they are
    // Forwards: exactly the well-formed prefix, then the right error.
    auto i = range.begin();
    std::vector<typename R::const_iterator> pos;
    const u64 whole = vp::hash_bytes(s.data(), s.size() * sizeof(C), sizeof(C));
    for (std::size_t k = 0; k < d.points.size(); ++k) {
        pos.push_back(i);
        VP_CHECK(i != range.end(), f, vp::show(s), " ends early at ", k);
        char32_t got = *i;
        VP_CHECK(got == d.points[k], f, vp::show(s), " element ", k, " is U+", std::hex, static_cast<unsigned long>(got));
        ++i;
        vp::step(vp::mix(whole, k));
    }
    pos.push_back(i);
    if (d.error == ref::err::none) {
        VP_CHECK(i == range.end(), f, vp::show(s), " doesn't end after its last code point");
        vp::outcome("well-formed");
        if (sizeof(C) < 4) {
            for (int op = 0; op < 2; ++op) {
                bool threw = false;
                auto x = i;
                try {
                    if (op == 0) { char32_t c = *x; (void)c; } else ++x;
                } catch (const cmp::iterated_past_end&) { threw = true; }
                VP_CHECK(threw, f, vp::show(s), op == 0 ? " can be read" : " can be advanced", " at the end");
                vp::outcome("at end");
            }
        }
    } else if (decoding_reports) {
        VP_CHECK(i != range.end(), f, vp::show(s), " ends before its malformed part");
        for (int op = 0; op < 4; ++op) {
            ref::err got = ref::err::none;
            auto x = i;
            char32_t c = 0;
            try {
                if (op == 0) c = *x;
                else if (op == 1) ++x;
                else if (op == 2) x += 1;
                else x++;
            } catch (const cmp::iterated_past_end&) {
                got = ref::err::past_end;
            } catch (const cmp::invalid_unicode_encoding&) {
                got = ref::err::invalid;
            }
            VP_CHECK(got != ref::err::none, f, vp::show(s), " malformed at ", d.stop,
                op == 0 ? " is read as U+" : " is stepped over, op ", std::hex, static_cast<unsigned long>(op == 0 ? c : op));
            VP_CHECK(d.error == ref::err::either || got == d.error, f, vp::show(s), " malformed at ", d.stop, " op ", op,
                " is reported as ", got == ref::err::invalid ? "invalid encoding" : "past the end");
            vp::outcome(got == ref::err::invalid ? "invalid encoding" : "cut short");
        }
    }
    // Validation stops just past the last valid code point.
    {
        auto r = cmp::validate_string(s);
        R own{V(s)};
        auto want = own.begin();
        for (std::size_t k = 0; k < d.points.size(); ++k) ++want;
        VP_CHECK(r == want, f, vp::show(s), " isn't found to be valid up to ", d.stop);
        VP_CHECK((r == own.end()) == (d.error == ref::err::none), f, vp::show(s), " validation verdict");
        vp::outcome("validated");
    }
    // Backwards, from the end and from the malformed part: never outside.
    if (sizeof(C) < 4) {
        auto x = range.end();
        std::size_t steps = 0;
        while (x != range.begin() && steps <= s.size()) { --x; ++steps; }
        VP_CHECK(x == range.begin(), f, vp::show(s), " walking back from the end misses the beginning");
        --x;
        VP_CHECK(x == range.begin(), f, vp::show(s), " can be left at the beginning");
        x = pos.back();
        for (std::size_t k = d.points.size(); k > 0; --k) {
            --x;
            VP_CHECK(x == pos[k - 1], f, vp::show(s), " walking back through the valid part goes wrong at ", k - 1);
        }
        vp::outcome("backwards");
    }
    // Conversion gives everything or an error.
    auto conv = [&] (auto target) {
        using O = decltype(target);
        bool threw = false;
        std::basic_string<O> out;
        try {
            out = cmp::convert_string<std::basic_string<O>>(e.view());
        } catch (const cmp::iterated_past_end&) { threw = true;
        } catch (const cmp::invalid_unicode_encoding&) { threw = true;
        } catch (const cmp::invalid_code_point&) { threw = true; }
        VP_CHECK(threw == (d.error != ref::err::none), f, vp::show(s), threw ? " can't be converted to " : " is converted to ", form_name<O>(), vp::show(out));
        if (!threw) VP_CHECK(out == ref::encode<O>(d.points), f, vp::show(s), " is converted to ", form_name<O>(), vp::show(out));
        vp::outcome(threw ? "conversion refused" : "converted");
    };
    conv(char8_t{});
    conv(char16_t{});
    conv(char32_t{});
}

static const std::vector<unsigned> byte_classes = {
    0x00, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF,
    0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xF7, 0xF8, 0xFB, 0xFE, 0xFF
};
static const std::vector<unsigned> u16_classes = {
    0x0000, 0x0041, 0xD7FF, 0xD800, 0xD801, 0xDBFF, 0xDC00, 0xDC01, 0xDFFF, 0xE000, 0xFFFF
};
static const std::vector<unsigned> u32_classes = {
    0x0, 0x41, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFF, 0x10000, 0x1D800, 0x1DC00,
    0x10FFFF, 0x110000, 0x11D800, 0x7FFFFFFF, 0xFFFFFFFF
};

template <typename C>
void
u03_space (
    std::string name,
    const std::vector<unsigned>& alphabet,
    unsigned n
) {
    auto make = [&alphabet, n] (u64 i) {
        std::basic_string<C> s;
        for (unsigned d : vp::seq_decode(i, alphabet.size(), n)) s += C(alphabet[d]);
        return s;
    };
    vp::add_space(name, "all unit sequences of length 0.." + std::to_string(n) + " over "
        + std::to_string(alphabet.size()) + " boundary units",
        vp::seq_count(alphabet.size(), n),
        [make] (u64 i) { u03_one<C>(make(i)); },
        [make, name] (u64 i) { return name + " " + vp::show(make(i)); });
}
#endif

// ------------------------------------------------------------------------ U04
#ifdef VP_U04
// The text as an array that just holds it, writable and constant, and as one
// with room to spare after the terminator.
template <typename I, std::size_t N, typename F>
void
as_array (
    const std::basic_string<I>& s,
    F& f
) {
    if (s.size() + 1 > N) return;
    struct held { I a[N]; };
    auto h = std::make_unique<held>();
    for (std::size_t i = 0; i < N; ++i) h->a[i] = i < s.size() ? s[i] : i == s.size() ? I(0) : I('x');
    f(h->a, "array");
    f(std::as_const(*h).a, "constant array");
}

template <typename I, typename F>
void
with_array (
    const std::basic_string<I>& s,
    F& f
) {
    switch (s.size()) {
    case 0: as_array<I, 1>(s, f); break;
    case 1: as_array<I, 2>(s, f); break;
    case 2: as_array<I, 3>(s, f); break;
    case 3: as_array<I, 4>(s, f); break;
    case 4: as_array<I, 5>(s, f); break;
    default: break;
    }
    as_array<I, 9>(s, f);
}

template <typename I, typename O>
void
u04_pair (
    const cps& v
) {
    if ((std::is_same_v<I, char> || std::is_same_v<O, char>) && !ascii(v)) return;
    using SI = std::basic_string<I>;
    using SO = std::basic_string<O>;
    const SI in = ref::encode<I>(v);
    const SO want = ref::encode<O>(v);
    ref::exact<I> e{std::basic_string_view<I>(in)};
    auto named = [] (const auto& x) {
        if constexpr (std::is_same_v<O, char>) return cmp::to_string(x);
        else if constexpr (std::is_same_v<O, char8_t>) return cmp::to_u8string(x);
        else if constexpr (std::is_same_v<O, char16_t>) return cmp::to_u16string(x);
        else if constexpr (std::is_same_v<O, char32_t>) return cmp::to_u32string(x);
        else return cmp::to_wstring(x);
    };
    auto cmpare = [&] (const SO& got, const SO& wanted, const char* how) {
        VP_CHECK(got == wanted, form_name<I>(), vp::show(in), " -> ", form_name<O>(), " (", how, ") gave ", vp::show(got), " not ", vp::show(wanted));
        vp::step(vp::mix(vp::hash_bytes(in.data(), in.size() * sizeof(I), sizeof(I)), sizeof(O) * 31 + form_name<O>()[0]));
        vp::outcome(form_name<O>());
    };
    cmpare(cmp::convert_string<SO>(in), want, "string");
    cmpare(cmp::convert_string<SO>(e.view()), want, "view");
    cmpare(named(in), want, "named, string");
    cmpare(named(e.view()), want, "named, view");
    // A pointer means the text up to its terminator.
    cps head;
    for (char32_t c : v) { if (!c) break; head.push_back(c); }
    ref::exact_z<I> z{std::basic_string_view<I>(in)};
    const I* p = z.get();
    cmpare(cmp::convert_string<SO>(p), ref::encode<O>(head), "pointer");
    cmpare(named(p), ref::encode<O>(head), "named, pointer");
    I* wp = z.data();
    I* const cp = wp;
    cmpare(cmp::convert_string<SO>(wp), ref::encode<O>(head), "pointer to writable text");
    cmpare(named(cp), ref::encode<O>(head), "named, constant pointer to writable text");
    VP_CHECK(cmp::string_size(wp) == ref::encode<I>(head).size(), "string_size of a pointer to writable text is ", cmp::string_size(wp));
    // So does an array, be it a literal or a buffer longer than its text.
    auto array = [&] (auto& a, const char* how) {
        if constexpr (!requires { cmp::convert_string<SO>(a); named(a); cmp::string_size(a); }) {
            VP_CHECK(false, form_name<I>(), " arrays aren't taken as text (", how, ")");
        } else {
            cmpare(cmp::convert_string<SO>(a), ref::encode<O>(head), how);
            cmpare(named(a), ref::encode<O>(head), how);
            VP_CHECK(cmp::string_size(a) == ref::encode<I>(head).size(), "string_size of an array is ", cmp::string_size(a));
        }
    };
    with_array<I>(in, array);
    VP_CHECK(cmp::string_size(in) == in.size(), "string_size of a string");
    VP_CHECK(cmp::string_size(e.view()) == in.size(), "string_size of a view");
    VP_CHECK(cmp::string_size(p) == ref::encode<I>(head).size(), "string_size of a pointer is ", cmp::string_size(p));
}

template <typename I>
void
u04_from (
    const cps& v
) {
    u04_pair<I, char>(v);
    u04_pair<I, char8_t>(v);
    u04_pair<I, char16_t>(v);
    u04_pair<I, char32_t>(v);
    u04_pair<I, wchar_t>(v);
}

static void
u04_one (
    const cps& v
) {
#ifdef VP_SHORT_WCHAR
    u04_pair<char, wchar_t>(v);
    u04_pair<char8_t, wchar_t>(v);
    u04_pair<char16_t, wchar_t>(v);
    u04_pair<char32_t, wchar_t>(v);
#else
    u04_from<char>(v);
    u04_from<char8_t>(v);
    u04_from<char16_t>(v);
    u04_from<char32_t>(v);
#endif
    u04_from<wchar_t>(v);
}
#endif

// ------------------------------------------------------------------------ U05
#ifdef VP_U05
template <typename A, typename B>
void
u05_pair (
    const cps& content,
    const cps& sub,
    bool starts,
    bool ends
) {
    if (std::is_same_v<A, char> && !ascii(content)) return;
    if (std::is_same_v<B, char> && !ascii(sub)) return;
    const auto a = ref::encode<A>(content);
    const auto b = ref::encode<B>(sub);
    ref::exact<A> ea{std::basic_string_view<A>(a)};
    ref::exact<B> eb{std::basic_string_view<B>(b)};
    bool s = cmp::starts_with(ea.view(), eb.view());
    VP_CHECK(s == starts, form_name<A>(), vp::show(a), s ? " starts with " : " doesn't start with ", form_name<B>(), vp::show(b));
    bool e = cmp::ends_with(ea.view(), eb.view());
    VP_CHECK(e == ends, form_name<A>(), vp::show(a), e ? " ends with " : " doesn't end with ", form_name<B>(), vp::show(b));
    VP_CHECK(cmp::starts_with(a, b) == starts && cmp::ends_with(a, b) == ends, form_name<A>(), vp::show(a), " / ", form_name<B>(), vp::show(b), " as strings");
    VP_CHECK(cmp::starts_with(a.c_str(), b.c_str()) == starts && cmp::ends_with(a.c_str(), b.c_str()) == ends, form_name<A>(), vp::show(a), " / ", form_name<B>(), vp::show(b), " as pointers");
    VP_CHECK(cmp::starts_with(ea.view(), b.c_str()) == starts && cmp::ends_with(a.c_str(), eb.view()) == ends, form_name<A>(), vp::show(a), " / ", form_name<B>(), vp::show(b), " as a view and a pointer");
    if (a.size() < 9 && b.size() < 9) {
        struct { A x[9]{}; B y[9]{}; } arrays;
        std::copy(a.begin(), a.end(), arrays.x);
        std::copy(b.begin(), b.end(), arrays.y);
        const auto& fixed = arrays;
        VP_CHECK(cmp::starts_with(arrays.x, fixed.y) == starts && cmp::ends_with(fixed.x, arrays.y) == ends, form_name<A>(), vp::show(a), " / ", form_name<B>(), vp::show(b), " as arrays");
    }
    vp::step(vp::mix(vp::hash_bytes(a.data(), a.size() * sizeof(A), sizeof(A)), vp::hash_bytes(b.data(), b.size() * sizeof(B), sizeof(B))));
    vp::outcome(starts ? "starts" : "doesn't start");
    vp::outcome(ends ? "ends" : "doesn't end");
}

template <typename A>
void
u05_from (
    const cps& c,
    const cps& s,
    bool starts,
    bool ends
) {
    u05_pair<A, char>(c, s, starts, ends);
    u05_pair<A, char8_t>(c, s, starts, ends);
    u05_pair<A, char16_t>(c, s, starts, ends);
    u05_pair<A, char32_t>(c, s, starts, ends);
    u05_pair<A, wchar_t>(c, s, starts, ends);
}

// Letters whose encodings share leading or trailing units.
static const cps sharing = {0x61, 0xE9, 0xE8, 0x10000, 0x10400, 0x2E9};

static void
u05_one (
    const cps& c,
    const cps& s
) {
    bool starts = s.size() <= c.size(), ends = starts;
    for (std::size_t i = 0; i < s.size() && starts; ++i) starts = c[i] == s[i];
    for (std::size_t i = 0; i < s.size() && ends; ++i) ends = c[c.size() - 1 - i] == s[s.size() - 1 - i];
#ifdef VP_SHORT_WCHAR
    u05_pair<char, wchar_t>(c, s, starts, ends);
    u05_pair<char8_t, wchar_t>(c, s, starts, ends);
    u05_pair<char16_t, wchar_t>(c, s, starts, ends);
    u05_pair<char32_t, wchar_t>(c, s, starts, ends);
#else
    u05_from<char>(c, s, starts, ends);
    u05_from<char8_t>(c, s, starts, ends);
    u05_from<char16_t>(c, s, starts, ends);
    u05_from<char32_t>(c, s, starts, ends);
#endif
    u05_from<wchar_t>(c, s, starts, ends);
}
#endif

// ------------------------------------------------------------------------ U06
#ifdef VP_U06
static bool
white (
    char32_t c
) {
    // Unicode White_Space
    return (c >= 9 && c <= 13) || c == 0x20 || c == 0x85 || c == 0xA0 || c == 0x1680
        || (c >= 0x2000 && c <= 0x200A) || c == 0x2028 || c == 0x2029 || c == 0x202F
        || c == 0x205F || c == 0x3000;
}

static int
digit_value (
    char32_t c
) {
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'z') return c - 'a' + 10;
    if (c >= 'A' && c <= 'Z') return c - 'A' + 10;
    return 99;
}
#endif

static void
setup (
    const std::string& property,
    bool thorough
) {
    (void)property;
    (void)thorough;
#ifdef VP_U01
    vp::add_space("code points", "every value 0..10FFFF and 15 beyond, 4 forms, append, prepend and insert at every boundary of 3 bases",
        0x110000 + 15,
        [] (u64 i) {
            char32_t c = u01_cp(i);
            all_unicode_forms([&] (auto f) { u01_one<decltype(f)>(c); });
            if (c < 0x80) u01_one<char8_t>(c);
        },
        [] (u64 i) { return show_cps({u01_cp(i)}); });
    vp::add_space("sizes", "texts of 15..65537 code points around the powers of two, 6 code points put at 4 places, 4 forms", vp::sizes().size(),
        [] (u64 i) { all_unicode_forms([&] (auto f) { u01_long<decltype(f)>(vp::sizes()[i]); }); },
        [] (u64 i) { return "a text of " + std::to_string(vp::sizes()[i]); });
    vp::add_space("narrow", "every ASCII value into a narrow string at every index", 128 * 4,
        [] (u64 i) {
            vp::digits d{i};
            char32_t c = d.next(128);
            std::size_t at = d.next(4);
            std::string s = "xyz", want = "xyz";
            cmp::insert_code_point(s, c, at);
            want.insert(at, 1, char(c));
            VP_CHECK(s == want, "insert into a narrow string");
            std::string a = "q";
            cmp::append_code_point(a, c);
            VP_CHECK(a == std::string("q") + char(c), "append to a narrow string");
            std::string p = "q";
            cmp::prepend_code_point(p, c);
            VP_CHECK(p == std::string(1, char(c)) + "q", "prepend to a narrow string");
            vp::step(vp::mix(c, at));
            vp::outcome("narrow");
        },
        [] (u64 i) { return "narrow " + std::to_string(i); });
#endif
#ifdef VP_U02
    unsigned n = thorough ? 5 : 3;
    vp::add_space("walks", "all sequences of length 0.." + std::to_string(n) + " over 18 edge code points, 4 forms, every operation from every position",
        vp::seq_count(edges.size(), n),
        [n] (u64 i) {
            cps v = pick(i, edges, n);
            all_unicode_forms([&] (auto f) { u02_one<decltype(f)>(v); });
            if (ascii(v)) u02_one<char>(v);
        },
        [n] (u64 i) { return show_cps(pick(i, edges, n)); });
    vp::add_space("sizes", "texts of 15..65537 code points around the powers of two, narrow but for their end and mixed, 4 forms, both directions, strides between 9 positions", vp::sizes().size(),
        [] (u64 i) { all_unicode_forms([&] (auto f) { u02_long<decltype(f)>(vp::sizes()[i]); }); },
        [] (u64 i) { return "a text of " + std::to_string(vp::sizes()[i]); });
    static const cps few = {0x41, 0x7FF, 0xFFFF, 0x10400};
    unsigned m = thorough ? 8 : 6;
    vp::add_space("long walks", "all sequences of length 0.." + std::to_string(m) + " over one code point of each encoded length, 4 forms",
        vp::seq_count(few.size(), m),
        [m] (u64 i) {
            cps v = pick(i, few, m);
            all_unicode_forms([&] (auto f) { u02_one<decltype(f)>(v); });
            if (ascii(v)) u02_one<char>(v);
        },
        [m] (u64 i) { return show_cps(pick(i, few, m)); });
#endif
#ifdef VP_U03
    vp::add_space("sizes", "texts of 15..65537 code points around the powers of two, well-formed, cut short and followed by malformed units, 4 forms", vp::sizes().size(),
        [] (u64 i) {
            const std::size_t n = vp::sizes()[i];
            for (bool dense : {false, true}) {
                const cps v = long_text(n, dense);
                const auto d = ref::encode<wchar_t>(v);
                u03_one<wchar_t>(d);
#ifdef VP_SHORT_WCHAR
                u03_one<wchar_t>(d + wchar_t(0xD800));
                u03_one<wchar_t>(d + wchar_t(0xDC00) + wchar_t('a'));
#else
                u03_one<wchar_t>(d + wchar_t(0x110000));
                const auto a = ref::encode<char8_t>(v);
                u03_one<char8_t>(a);
                u03_one<char8_t>(a + char8_t(0xF0) + char8_t(0x90) + char8_t(0x80));
                u03_one<char8_t>(a + char8_t(0xC0) + char8_t(0x80));
                u03_one<char8_t>(a + char8_t(0xED) + char8_t(0xA0) + char8_t(0x80) + char8_t('a'));
                const auto b = ref::encode<char16_t>(v);
                u03_one<char16_t>(b);
                u03_one<char16_t>(b + char16_t(0xD800));
                u03_one<char16_t>(b + char16_t(0xDC00) + char16_t('a'));
                const auto c = ref::encode<char32_t>(v);
                u03_one<char32_t>(c);
                u03_one<char32_t>(c + char32_t(0xD800));
                u03_one<char32_t>(c + char32_t(0x110000));
#endif
            }
        },
        [] (u64 i) { return "a text of " + std::to_string(vp::sizes()[i]); });
#ifdef VP_SHORT_WCHAR
    u03_space<wchar_t>("wide", u16_classes, thorough ? 6 : 5);
    using unit = wchar_t;
#else
    using unit = char16_t;
    u03_space<char8_t>("utf8", byte_classes, thorough ? 5 : 4);
    u03_space<char16_t>("utf16", u16_classes, thorough ? 6 : 5);
    u03_space<char32_t>("utf32", u32_classes, thorough ? 5 : 4);
    u03_space<wchar_t>("wide", u32_classes, thorough ? 5 : 4);
    {
        auto make = [thorough] (u64 i) { std::u8string s; vp::digits d{i}; unsigned len = thorough ? 3 : 2; for (unsigned k = 0; k < len; ++k) s += char8_t(d.next(256)); return s; };
        vp::add_space("utf8 bytes", thorough ? "all 3-byte sequences" : "all 2-byte sequences", thorough ? 256 * 256 * 256 : 256 * 256,
            [make] (u64 i) { u03_one<char8_t>(make(i)); },
            [make] (u64 i) { return "utf8 " + vp::show(make(i)); });
    }
#endif
    {
        auto make = [] (u64 i) {
            std::basic_string<unit> s;
            vp::digits d{i};
            unit any = unit(d.next(65536));
            unsigned k = d.next(u16_classes.size());
            if (d.next(2)) { s += unit(u16_classes[k]); s += any; } else { s += any; s += unit(u16_classes[k]); }
            return s;
        };
        vp::add_space("utf16 units", "every 16-bit unit before and after each of 11 boundary units", 65536ull * 11 * 2,
            [make] (u64 i) { u03_one<unit>(make(i)); },
            [make] (u64 i) { return "utf16 " + vp::show(make(i)); });
    }
#endif
#ifdef VP_U04
    vp::add_space("sizes", "texts of 15..65537 code points around the powers of two, narrow, narrow but for their end, and mixed, all 25 pairs of forms, string, view and pointer", vp::sizes().size(),
        [] (u64 i) { const std::size_t n = vp::sizes()[i]; u04_one(long_text(n, true)); u04_one(long_text(n, false)); u04_one(cps(n, 'a')); },
        [] (u64 i) { return "a text of " + std::to_string(vp::sizes()[i]); });
    unsigned n = thorough ? 4 : 3;
    vp::add_space("conversions", "all sequences of length 0.." + std::to_string(n) + " over 18 edge code points, all 25 pairs of forms, string, view and pointer",
        vp::seq_count(edges.size(), n),
        [n] (u64 i) { u04_one(pick(i, edges, n)); },
        [n] (u64 i) { return show_cps(pick(i, edges, n)); });
    vp::add_space("every code point", "every scalar value alone, all pairs of forms",
        0x110000,
        [] (u64 i) {
            char32_t c = static_cast<char32_t>(i);
            if (!ref::scalar(c)) return;
            u04_one({c});
        },
        [] (u64 i) { return show_cps({static_cast<char32_t>(i)}); });
    vp::add_space("ascii", "all sequences of length 0..3 over 6 ASCII characters, all 25 pairs of forms",
        vp::seq_count(6, 3),
        [] (u64 i) { u04_one(pick(i, {0, 1, 0x30, 0x61, 0x7E, 0x7F}, 3)); },
        [] (u64 i) { return show_cps(pick(i, {0, 1, 0x30, 0x61, 0x7E, 0x7F}, 3)); });
#endif
#ifdef VP_U05
    vp::add_space("sizes", "texts of 15..65537 code points around the powers of two against themselves, beginnings and endings of them, and ones that differ at one place, all 25 pairs of forms", vp::sizes().size(),
        [] (u64 i) {
            const std::size_t n = vp::sizes()[i];
            const cps narrow_text = [&] { cps r; for (std::size_t k = 0; k < n; ++k) r.push_back('a' + k % 25); return r; }();
            for (const cps& v : {long_text(n, true), narrow_text}) {
                u05_one(v, v);
                u05_one(v, cps(v.begin() + 1, v.end()));
                u05_one(v, cps(v.begin(), v.end() - 1));
                u05_one(cps(v.begin() + 1, v.end()), v);
                for (std::size_t at : {std::size_t(0), n / 2, n - 1}) { cps w = v; w[at] = 'z'; u05_one(v, w); }
            }
        },
        [] (u64 i) { return "a text of " + std::to_string(vp::sizes()[i]); });
    unsigned a = thorough ? 5 : 3, b = thorough ? 4 : 3;
    u64 na = vp::seq_count(sharing.size(), a), nb = vp::seq_count(sharing.size(), b);
    vp::add_space("pairs", "all contents of length 0.." + std::to_string(a) + " and substrings of length 0.." + std::to_string(b)
        + " over 6 code points that share code units, all 25 pairs of forms",
        na * nb,
        [=] (u64 i) { vp::digits d{i}; cps c = pick(d.next(na), sharing, a); cps s = pick(d.next(nb), sharing, b); u05_one(c, s); },
        [=] (u64 i) { vp::digits d{i}; cps c = pick(d.next(na), sharing, a); cps s = pick(d.next(nb), sharing, b); return show_cps(c) + "/ " + show_cps(s); });
    unsigned c = thorough ? 8 : 6;
    static const cps bin = {0x61, 0x62};
    u64 nc = vp::seq_count(2, c);
    vp::add_space("binary", "all pairs of sequences of length 0.." + std::to_string(c) + " over 2 letters, all 25 pairs of forms",
        nc * nc,
        [=] (u64 i) { vp::digits d{i}; cps x = pick(d.next(nc), bin, c); cps y = pick(d.next(nc), bin, c); u05_one(x, y); },
        [=] (u64 i) { vp::digits d{i}; cps x = pick(d.next(nc), bin, c); cps y = pick(d.next(nc), bin, c); return show_cps(x) + "/ " + show_cps(y); });
    vp::add_space("every code point", "every scalar value against itself and its neighbours", 0x110000,
        [] (u64 i) {
            char32_t x = i;
            if (!ref::scalar(x)) return;
            cps c = {x, 0x61};
            for (char32_t y : {x, char32_t(x ^ 1), char32_t(x ^ 0x40), char32_t(x ^ 0x400)}) {
                if (!ref::scalar(y) || y == 0 || x == 0) continue;
                bool e = x == y;
#ifdef VP_SHORT_WCHAR
                using unit = wchar_t;
#else
                using unit = char16_t;
#endif
                u05_pair<char8_t, unit>(c, {y}, e, y == 0x61);
                u05_pair<unit, char8_t>(c, {y}, e, y == 0x61);
                u05_pair<char8_t, char8_t>({0x61, x}, {y}, y == 0x61, e);
                u05_pair<unit, unit>({0x61, x}, {y}, y == 0x61, e);
            }
        },
        [] (u64 i) { return show_cps({char32_t(i)}); });
#endif
#ifdef VP_U06
    vp::add_space("code points", "every value 0..1FFFFF and 0x4000 values around every 2^k", 0x200000 + 12 * 0x4000,
        [] (u64 i) {
            char32_t c = i < 0x200000 ? char32_t(i)
                : char32_t((1ull << (20 + (i - 0x200000) / 0x4000)) - 0x2000 + (i - 0x200000) % 0x4000);
            VP_CHECK(cmp::is_code_point_valid(c) == ref::scalar(c), "validity");
            VP_CHECK(cmp::is_whitespace(c) == white(c), "whitespace");
            VP_CHECK(cmp::fits_in_7_bits(c) == (c < 0x80), "7 bits");
            for (unsigned r = 2; r <= 36; ++r)
                VP_CHECK(cmp::is_radix_digit(c, r) == (digit_value(c) < int(r)), "digit of radix ", r);
            vp::step(c);
            vp::outcome(ref::scalar(c) ? "scalar" : "not scalar");
            if (white(c)) vp::outcome("whitespace");
        },
        [] (u64 i) { return "U+" + std::to_string(i); });
    vp::add_space("units", "every 8-bit and every 16-bit unit", 65536,
        [] (u64 i) {
            char16_t u = i;
            VP_CHECK(cmp::is_surrogate(u) == (u >= 0xD800 && u <= 0xDFFF), "surrogate");
            VP_CHECK(cmp::is_leading_surrogate(u) == (u >= 0xD800 && u <= 0xDBFF), "leading surrogate");
            VP_CHECK(cmp::is_trailing_surrogate(u) == (u >= 0xDC00 && u <= 0xDFFF), "trailing surrogate");
            if (i < 256) {
                char8_t b = i;
                VP_CHECK(cmp::is_standalone_byte(b) == (b < 0x80), "standalone byte");
                VP_CHECK(cmp::is_trailing_byte(b) == (b >= 0x80 && b < 0xC0), "trailing byte");
                VP_CHECK(cmp::is_leading_byte(b) == (b >= 0xC0 && b < 0xF8), "leading byte");
                vp::outcome("byte");
            }
            vp::step(i + 0x10000000);
            vp::outcome("unit");
        },
        [] (u64 i) { return "unit " + std::to_string(i); });
#endif
}

int
main (
    int argc,
    char** argv
) {
    return vp::main_(argc, argv, setup);
}
