#include <cmp/unicode/formats.hpp>
#include <cmp/unicode/formatters.hpp>
#include <cmp/unicode/parsers.hpp>

#include <cmath>
#include <limits>
#include <optional>

#include "ref_unicode.hpp"
#include "vp.hpp"

using vp::u64;
using i128 = __int128;
using u128 = unsigned __int128;

using cmp::radix_character;
using cmp::radix_place_limit;
using cmp::sign_status;
using cmp::thousands_separator;

static const sign_status signs[] = {sign_status::only_when_negative, sign_status::always_show};
static const thousands_separator seps[] = {thousands_separator::none, thousands_separator::comma, thousands_separator::period};

static char
sep_char (
    thousands_separator s
) {
    return s == thousands_separator::comma ? ',' : s == thousands_separator::period ? '.' : 0;
}

template <typename C>
std::basic_string<C>
widen (
    const std::string& s
) {
    return std::basic_string<C>(s.begin(), s.end());
}

template <typename S>
std::string
narrow (
    const S& s
) {
    std::string r;
    for (auto c : s) r += static_cast<unsigned long>(c) < 0x80 ? char(c) : '?';
    return r;
}

static char
digit_char (
    unsigned d
) {
    return "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"[d];
}

// ------------------------------------------------------------ reference: text

static std::string
group (
    const std::string& digits,
    char sep
) {
    if (!sep) return digits;
    std::string r;
    for (std::size_t i = 0; i < digits.size(); ++i) {
        if (i && (digits.size() - i) % 3 == 0) r += sep;
        r += digits[i];
    }
    return r;
}

static std::string
ref_digits (
    u128 v,
    unsigned radix
) {
    if (!v) return "0";
    std::string r;
    for (; v; v /= radix) r.insert(r.begin(), digit_char(unsigned(v % radix)));
    return r;
}

static std::string
ref_integer (
    i128 v,
    unsigned radix,
    sign_status s,
    thousands_separator t
) {
    if (v == 0) return "0";
    std::string r = group(ref_digits(v < 0 ? u128(-v) : u128(v), radix), sep_char(t));
    if (v < 0) return "-" + r;
    return s == sign_status::always_show ? "+" + r : r;
}

// What a text means as an integer of an unbounded type.
struct meaning {
    bool well_formed = false;
    bool negative = false;
    bool huge = false; // beyond 127 bits
    u128 magnitude = 0;
};

static int
digit_value (
    char32_t c
) {
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'z') return c - 'a' + 10;
    if (c >= 'A' && c <= 'Z') return c - 'A' + 10;
    return 99;
}

template <typename S>
meaning
ref_meaning (
    const S& s,
    unsigned radix,
    sign_status ss,
    thousands_separator t
) {
    meaning m;
    std::size_t i = 0;
    if (i < s.size() && (s[i] == '-' || (s[i] == '+' && ss == sign_status::always_show))) {
        m.negative = s[i] == '-';
        ++i;
    }
    if (i == s.size()) return m;
    const char sep = sep_char(t);
    const std::size_t first = i;
    for (; i < s.size(); ++i) {
        const std::size_t from_right = s.size() - 1 - i;
        if (sep && from_right % 4 == 3) {
            if (s[i] != static_cast<typename S::value_type>(sep) || i == first) return m;
            continue;
        }
        int d = digit_value(s[i]);
        if (d >= int(radix)) return m;
        if (m.magnitude > ((~u128(0) >> 1) - d) / radix) m.huge = true;
        else m.magnitude = m.magnitude * radix + d;
    }
    m.well_formed = true;
    return m;
}

enum class verdict { value, empty, neither, multiple, missing_sep, not_digit, negative_unsigned, places, range, bad_text };

static verdict
kind (
    const cmp::parse_failed& e
) {
    switch (e.get_type()) {
    case cmp::parse_failed::type::empty_input: return verdict::empty;
    case cmp::parse_failed::type::neither_boolean: return verdict::neither;
    case cmp::parse_failed::type::multiple_signs: return verdict::multiple;
    case cmp::parse_failed::type::thousands_separator_missing: return verdict::missing_sep;
    case cmp::parse_failed::type::digit_character_expected: return verdict::not_digit;
    case cmp::parse_failed::type::negative_unsigned: return verdict::negative_unsigned;
    case cmp::parse_failed::type::wrong_place_limit: return verdict::places;
    default: return verdict::range;
    }
}

static const char* verdict_names[] = {"value", "empty", "neither", "multiple signs", "separator missing", "not a digit",
    "negative unsigned", "wrong places", "out of range", "bad text"};

// ------------------------------------------------------------------------ N01
#if defined VP_N01 || defined VP_N02
template <typename T> const char* type_name ();
template <> const char* type_name<signed char> () { return "int8"; }
template <> const char* type_name<unsigned char> () { return "uint8"; }
template <> const char* type_name<short> () { return "int16"; }
template <> const char* type_name<unsigned short> () { return "uint16"; }
template <> const char* type_name<int> () { return "int32"; }
template <> const char* type_name<unsigned> () { return "uint32"; }
template <> const char* type_name<long> () { return "long"; }
template <> const char* type_name<unsigned long> () { return "unsigned long"; }
template <> const char* type_name<long long> () { return "long long"; }
template <> const char* type_name<unsigned long long> () { return "unsigned long long"; }

template <typename F>
void
all_types (
    F f
) {
    f((signed char)0); f((unsigned char)0); f(short(0)); f((unsigned short)0); f(0); f(0u);
    f(0l); f(0ul); f(0ll); f(0ull);
}
#endif

#ifdef VP_N01
template <typename C, typename T>
void
n01_one (
    T v,
    unsigned radix,
    sign_status s,
    thousands_separator t,
    bool back
) {
    using S = std::basic_string<C>;
    const cmp::integer_format f{radix, s, t};
    const S got = cmp::format_integer<S>(v, f);
    const S want = widen<C>(ref_integer(v, radix, s, t));
    VP_CHECK(got == want, type_name<T>(), " radix ", radix, " sign ", int(s), " separator ", int(t), ": '", narrow(got), "' not '", narrow(want), "'");
    vp::step(vp::mix(u64(v), radix * 64 + int(s) * 16 + int(t) * 4 + sizeof(T) * 4096 + sizeof(C) * 65536));
    vp::outcome(v == 0 ? "zero" : v < 0 ? "negative" : "positive");
    if (back) {
        const T r = cmp::parse_integer<T>(got, f);
        VP_CHECK(r == v, type_name<T>(), " radix ", radix, " '", narrow(got), "' is read back as another value");
        vp::outcome("read back");
    }
}

template <typename T>
void
n01_all (
    T v,
    unsigned radix,
    bool forms
) {
    for (auto s : signs)
        for (auto t : seps) {
            n01_one<char8_t>(v, radix, s, t, true);
            if (forms) {
                n01_one<char>(v, radix, s, t, true);
                n01_one<char16_t>(v, radix, s, t, true);
                n01_one<char32_t>(v, radix, s, t, true);
                n01_one<wchar_t>(v, radix, s, t, true);
            }
        }
}
#endif

#if defined VP_N01 || defined VP_N02
// Values at the edges of a type and of every digit count of a radix.
static std::vector<i128>
edge_values (
    unsigned radix,
    int around
) {
    std::vector<i128> r;
    auto add = [&] (i128 v) {
        for (int d = -around; d <= around; ++d) { r.push_back(v + d); r.push_back(-v + d); }
    };
    add(0);
    for (i128 p = radix; p <= (i128(1) << 65); p *= radix) add(p);
    for (int k = 7; k <= 65; ++k) add(i128(1) << k);
    add(i128(12345678)); add(i128(987654321)); add(i128(1234567890123456789ll));
    add(i128(10203040506070809ll)); add(i128(100200300400ll));
    return r;
}
#endif

// ------------------------------------------------------------------------ N02
#ifdef VP_N02
template <typename T, typename In>
verdict
n02_parse (
    const In& in,
    const cmp::integer_format& f,
    T& out
) {
    try {
        out = cmp::parse_integer<T>(in, f);
        return verdict::value;
    } catch (const cmp::parse_failed& e) {
        return kind(e);
    } catch (const cmp::invalid_unicode_encoding&) {
        return verdict::bad_text;
    } catch (const cmp::iterated_past_end&) {
        return verdict::bad_text;
    }
}

template <typename T, typename In>
void
n02_one (
    const In& in,
    const std::u32string& text,
    unsigned radix,
    sign_status s,
    thousands_separator t
) {
    const cmp::integer_format f{radix, s, t};
    T got{};
    const verdict v = n02_parse<T>(in, f, got);
    const meaning m = ref_meaning(text, radix, s, t);
    auto say = [&] {
        std::ostringstream o;
        o << type_name<T>() << " radix " << radix << " sign " << int(s) << " separator " << int(t) << " '" << narrow(text) << "' " << vp::show(text)
          << " gives " << verdict_names[int(v)];
        if (v == verdict::value) o << " " << (long long)got << "/" << (unsigned long long)got;
        return o.str();
    };
    if (text.empty()) {
        VP_CHECK(v == verdict::empty, say());
    } else if (!m.well_formed) {
        VP_CHECK(v != verdict::value, say());
        VP_CHECK(v != verdict::bad_text && v != verdict::empty && v != verdict::places && v != verdict::neither, say());
    } else {
        const bool neg_unsigned = m.negative && std::is_unsigned_v<T>;
        bool fits = !m.huge && !neg_unsigned;
        i128 exact = 0;
        if (fits) {
            exact = m.negative ? -i128(m.magnitude) : i128(m.magnitude);
            fits = exact >= i128(std::numeric_limits<T>::min()) && exact <= i128(std::numeric_limits<T>::max());
        }
        if (fits) VP_CHECK(v == verdict::value && i128(got) == exact, say());
        else if (neg_unsigned && (m.huge || m.magnitude > u128(std::numeric_limits<T>::max())))
            VP_CHECK(v == verdict::negative_unsigned || v == verdict::range, say());
        else if (neg_unsigned) VP_CHECK(v == verdict::negative_unsigned, say());
        else VP_CHECK(v == verdict::range, say());
    }
    vp::step(vp::mix(vp::hash_bytes(text.data(), text.size() * 4), radix * 64 + int(s) * 16 + int(t) * 4 + sizeof(T) * 4096 + std::is_signed_v<T>));
    vp::outcome(verdict_names[int(v)]);
}

template <typename T>
void
n02_forms (
    const std::u32string& text,
    unsigned radix,
    sign_status s,
    thousands_separator t
) {
    ref::cps v(text.begin(), text.end());
    bool ascii = true;
    for (char32_t c : v) ascii = ascii && c < 0x80;
    {
        auto e = ref::encode<char8_t>(v);
        ref::exact<char8_t> x{std::u8string_view(e)};
        n02_one<T>(e, text, radix, s, t);
        n02_one<T>(x.view(), text, radix, s, t);
    }
    {
        auto e = ref::encode<char16_t>(v);
        ref::exact<char16_t> x{std::u16string_view(e)};
        n02_one<T>(x.view(), text, radix, s, t);
        ref::exact_z<char16_t> z{std::u16string_view(e)};
        const char16_t* p = z.get();
        n02_one<T>(p, text, radix, s, t);
    }
    {
        ref::exact<char32_t> x{std::u32string_view(text)};
        n02_one<T>(x.view(), text, radix, s, t);
    }
    {
        auto e = ref::encode<wchar_t>(v);
        n02_one<T>(e, text, radix, s, t);
    }
    if (ascii) {
        std::string e = narrow(text);
        ref::exact<char> x{std::string_view(e)};
        n02_one<T>(x.view(), text, radix, s, t);
        n02_one<T>(e, text, radix, s, t);
    }
}

static std::u32string
u32 (
    const std::string& s
) {
    return {s.begin(), s.end()};
}

static const std::string grammar_letters = "019afZz-+,. ";
#endif

// -------------------------------------------------------------- N03 and N04
#if defined VP_N03 || defined VP_N04
// A non-negative dyadic rational m * 2^e.
struct dyadic {
    u64 m;
    int e;
};

// Digits of floor(m * 2^e) in a radix.
static std::string
ref_integral (
    dyadic d,
    unsigned radix
) {
    static dyadic last{0, 0};
    static unsigned last_radix = 0;
    static std::string last_text;
    if (last_radix == radix && last.m == d.m && last.e == d.e) return last_text;
    auto remember = [&] (const std::string& r) { last = d; last_radix = radix; return last_text = r; };
    std::vector<unsigned> dig; // little endian
    u64 m = d.m;
    if (d.e < 0) m = -d.e >= 64 ? 0 : m >> -d.e;
    for (; m; m /= radix) dig.push_back(m % radix);
    if (d.e > 0) for (int k = 0; k < d.e; ++k) {
        unsigned carry = 0;
        for (auto& x : dig) { unsigned y = x * 2 + carry; x = y % radix; carry = y / radix; }
        if (carry) dig.push_back(carry);
    }
    if (dig.empty()) return remember("0");
    std::string r;
    for (std::size_t i = dig.size(); i-- > 0;) r += digit_char(dig[i]);
    return remember(r);
}

// The first n digits of the fraction of m * 2^e; stops early when it ends.
static std::string
ref_fraction (
    dyadic d,
    unsigned radix,
    unsigned n
) {
    std::string r;
    if (d.e >= 0) return r;
    const int k = -d.e;
    u128 num = u128(d.m) & ((u128(1) << k) - 1);
    while (num && r.size() < n) {
        num *= radix;
        r += digit_char(unsigned(num >> k));
        num &= (u128(1) << k) - 1;
    }
    return r;
}

static const unsigned place_counts[] = {0, 1, 2, 3, 4, 7, 60};
#endif

#ifdef VP_N03
template <typename T> const char* float_name ();
template <> const char* float_name<float> () { return "float"; }
template <> const char* float_name<double> () { return "double"; }
template <> const char* float_name<long double> () { return "long double"; }

template <typename C, typename T>
void
n03_one (
    dyadic d,
    bool negative,
    unsigned radix,
    sign_status s,
    thousands_separator t,
    radix_character rc,
    radix_place_limit lim,
    unsigned count
) {
    using S = std::basic_string<C>;
    T v = std::ldexp(T(d.m), d.e);
    if (negative) v = -v;
    const cmp::floating_point_format f{radix, s, t, rc, lim, count};
    const std::string got = narrow(cmp::format_floating_point<S>(v, f));
    const char point = rc == radix_character::period ? '.' : ',';
    std::string sign = d.m == 0 ? "" : negative ? "-" : s == sign_status::always_show ? "+" : "";
    const std::string integral = group(ref_integral(d, radix), sep_char(t));
    auto say = [&] (const std::string& want) {
        std::ostringstream o;
        o << float_name<T>() << " " << (negative ? "-" : "") << d.m << "*2^" << d.e << " radix " << radix << " sign " << int(s) << " separator " << int(t)
          << " point " << point << " limit " << int(lim) << "/" << count << ": '" << got << "' not '" << want << "'";
        return o.str();
    };
    if (lim == radix_place_limit::none) {
        const unsigned most = 400;
        std::string frac = ref_fraction(d, radix, most);
        if (frac.size() < most) {
            // It ends: all of it, or (if longer than the type can tell apart) a long enough start of it.
            const std::string want = sign + integral + (frac.empty() ? "" : point + frac);
            const std::size_t enough = std::numeric_limits<T>::digits;
            std::size_t lead = 0;
            while (lead < frac.size() && frac[lead] == '0') ++lead;
            if (frac.size() - lead <= enough) VP_CHECK(got == want, say(want));
            else VP_CHECK(got.size() >= sign.size() + integral.size() + 1 + lead + enough && want.compare(0, got.size(), got) == 0, say(want));
            vp::outcome("unlimited, ends");
        } else {
            const std::string want = sign + integral + point + frac;
            std::size_t lead = 0;
            while (lead < frac.size() && frac[lead] == '0') ++lead;
            // enough places to tell the value from its neighbours, and the right ones
            std::size_t least = sign.size() + integral.size() + 1 + lead
                + std::size_t(std::numeric_limits<T>::digits / std::log2(double(radix)));
            VP_CHECK(got.size() >= least && got.size() < want.size() && want.compare(0, got.size(), got) == 0, say(want.substr(0, least) + "..."));
            vp::outcome("unlimited, endless");
        }
    } else {
        std::string frac = ref_fraction(d, radix, count);
        if (lim == radix_place_limit::exactly_equal) frac.resize(count, '0');
        const std::string want = sign + integral + (frac.empty() ? "" : point + frac);
        const bool all_zero = want.find_first_not_of("-+0,.") == std::string::npos;
        const std::string alt = integral + (frac.empty() ? "" : point + frac);
        VP_CHECK(got == want || (all_zero && got == alt), say(want));
        vp::outcome(lim == radix_place_limit::up_to ? "up to" : "exactly");
    }
    vp::step(vp::mix(vp::mix(d.m * 2 + negative, d.e + 5000), ((radix * 4 + int(s)) * 4 + int(t)) * 4 + int(rc) + (int(lim) * 1000 + count) * 65536 + sizeof(T) * 1000003));
}

struct float_formats {
    std::vector<unsigned> radices;
    u64 size () const { return radices.size() * 2 * 3 * 2 * 15; }
    template <typename F>
    void
    each (
        F f
    ) const {
        for (unsigned r : radices)
            for (auto s : signs)
                for (auto t : seps)
                    for (auto rc : {radix_character::period, radix_character::comma}) {
                        f(r, s, t, rc, radix_place_limit::none, 0u);
                        for (unsigned c : place_counts) {
                            f(r, s, t, rc, radix_place_limit::up_to, c);
                            f(r, s, t, rc, radix_place_limit::exactly_equal, c);
                        }
                    }
    }
};

// A value that uses all of its type: the whole part exactly, the fraction to
// within rounding of the type.
template <typename T>
void
n03_full (
    T v,
    unsigned radix,
    thousands_separator t,
    radix_place_limit lim,
    unsigned count
) {
    const cmp::floating_point_format f{radix, sign_status::only_when_negative, t, radix_character::period, lim, count};
    const std::string got = narrow(cmp::format_floating_point<std::u8string>(v, f));
    auto say = [&] (const char* want) {
        std::ostringstream o;
        o.precision(25);
        o << float_name<T>() << " " << v << " radix " << radix << " separator " << int(t) << " limit " << int(lim) << "/" << count << ": '" << got << "', " << want;
        return o.str();
    };
    const T size = std::fabs(v), whole = std::floor(size), part = size - whole;
    int e = 0;
    const T m = std::frexp(whole, &e);
    const dyadic d{static_cast<u64>(std::ldexp(m, 64)), e - 64};
    const std::string head = (v < 0 ? "-" : "") + group(ref_integral(d, radix), sep_char(t));
    VP_CHECK(got.compare(0, head.size(), head) == 0, say("the whole part is wrong"));
    std::string frac = got.substr(head.size());
    __float128 sum = 0, place = 1;
    if (!frac.empty()) {
        VP_CHECK(frac[0] == '.' && frac.size() > 1, say("the whole part goes on"));
        frac.erase(0, 1);
        for (char c : frac) {
            const int x = c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99;
            VP_CHECK(x < int(radix), say("a fraction digit is none"));
            place /= radix;
            sum += x * place;
        }
    }
    __float128 off = __float128(part) - sum;
    // every place before the first digit may cost half a unit
    std::size_t lead = 0;
    while (lead < frac.size() && frac[lead] == '0') ++lead;
    const __float128 slack = (4 + lead / 2) * __float128(std::numeric_limits<T>::epsilon()) * __float128(part);
    if (lim == radix_place_limit::none) {
        VP_CHECK(off <= slack && -off <= slack, say("the fraction is off"));
        VP_CHECK(frac.empty() || frac.size() < 20000, say("the fraction is endless"));
    } else {
        VP_CHECK(lim == radix_place_limit::up_to ? frac.size() <= count : frac.size() == count, say("the number of places is wrong"));
        // what is missing is less than one unit of the last place that the limit leaves
        __float128 unit = 1;
        for (unsigned k = 0; k < count; ++k) unit /= radix;
        VP_CHECK(off <= unit + slack && -off <= slack, say("the fraction is off"));
    }
    vp::step(vp::mix(vp::mix(vp::hash_bytes(got.data(), got.size()), radix * 4 + int(t)), int(lim) * 1000 + count + sizeof(T) * 1000003));
    vp::outcome("full precision");
}

template <typename T>
void
n03_value (
    dyadic d,
    bool negative,
    const float_formats& ff,
    bool forms
) {
    ff.each([&] (unsigned r, sign_status s, thousands_separator t, radix_character rc, radix_place_limit l, unsigned c) {
        n03_one<char8_t, T>(d, negative, r, s, t, rc, l, c);
        if (forms) {
            n03_one<char, T>(d, negative, r, s, t, rc, l, c);
            n03_one<char16_t, T>(d, negative, r, s, t, rc, l, c);
            n03_one<char32_t, T>(d, negative, r, s, t, rc, l, c);
            n03_one<wchar_t, T>(d, negative, r, s, t, rc, l, c);
        }
    });
}
#endif

#ifdef VP_N04
template <typename T, typename In>
verdict
n04_parse (
    const In& in,
    const cmp::floating_point_format& f,
    T& out
) {
    try {
        out = cmp::parse_floating_point<T>(in, f);
        return verdict::value;
    } catch (const cmp::parse_failed& e) {
        return kind(e);
    }
}

// Beyond 63 bits: the value to within rounding, or an error if the type ends before it.
template <typename T, typename Say>
void
n04_large (
    const std::string& digs,
    std::size_t places,
    bool negative,
    unsigned radix,
    verdict v,
    T got,
    Say say
) {
    __float128 want = 0, den = 1;
    for (char c : digs) if (digit_value(static_cast<unsigned char>(c)) < int(radix)) want = want * radix + digit_value(static_cast<unsigned char>(c));
    for (std::size_t k = 0; k < places; ++k) den *= radix;
    want /= den;
    const __float128 most = std::numeric_limits<T>::max(), eps = std::numeric_limits<T>::epsilon();
    if (want > most * (1 + 4 * eps)) { VP_CHECK(v == verdict::range, say("an out-of-range error")); return; }
    if (want > most * (1 - 4 * eps)) return; // within rounding of the largest value
    VP_CHECK(v == verdict::value, say("a value"));
    __float128 off = (negative ? -want : want) - got;
    if (off < 0) off = -off;
    VP_CHECK(off <= (places + 4) * eps * want, say("a value close to it"));
    vp::outcome("beyond 63 bits");
}

// Less than one: the value to within rounding, as far as the type's smallest normal value.
template <typename T, typename C>
void
n04_small (
    const std::string& whole,
    const std::string& frac,
    bool negative,
    unsigned radix,
    radix_place_limit lim
) {
    const std::string text = whole + "." + frac;
    const cmp::floating_point_format f{radix, signs[frac.size() & 1], seps[0], radix_character::period, lim, unsigned(frac.size())};
    T got{};
    const verdict v = n04_parse<T>(widen<C>(text), f, got);
    VP_CHECK(v == verdict::value, "radix ", radix, " '", text, "' gives ", verdict_names[int(v)]);
    __float128 num = 0, den = 1;
    for (char c : frac) { num = num * radix + digit_value(static_cast<unsigned char>(c)); den *= radix; }
    const __float128 want = negative ? -num / den : num / den;
    __float128 off = want - got;
    if (off < 0) off = -off;
    const __float128 least = std::numeric_limits<T>::min(), eps = std::numeric_limits<T>::epsilon();
    VP_CHECK(off <= (frac.size() + 4) * eps * (num / den) + 2 * radix * least, "radix ", radix, " '", text, "' gives ", got, ", not ", (long double)want);
    vp::step(vp::mix(vp::hash_bytes(text.data(), text.size()), radix * 64 + sizeof(T)));
    vp::outcome(num / den < least ? "smaller than any" : "small");
}

template <typename T, typename C>
void
n04_one (
    const std::string& text,
    unsigned radix,
    sign_status s,
    thousands_separator t,
    radix_character rc,
    radix_place_limit lim,
    unsigned count
) {
    const cmp::floating_point_format f{radix, s, t, rc, lim, count};
    const char point = rc == radix_character::period ? '.' : ',';
    T got{};
    const auto in = widen<C>(text);
    const verdict v = n04_parse<T>(in, f, got);
    auto say = [&] (const char* want) {
        std::ostringstream o;
        o.precision(25);
        o << "radix " << radix << " sign " << int(s) << " separator " << int(t) << " point " << point << " limit " << int(lim) << "/" << count
          << " '" << text << "' gives " << verdict_names[int(v)] << " ";
        if (v == verdict::value) o << got;
        o << ", wanted " << want;
        return o.str();
    };
    const std::size_t p = text.find(point);
    const std::string head = text.substr(0, p);
    const std::string frac = p == std::string::npos ? "" : text.substr(p + 1);
    const meaning m = ref_meaning(head, radix, s, t);
    bool frac_ok = true;
    for (char c : frac) frac_ok = frac_ok && digit_value(static_cast<unsigned char>(c)) < int(radix);
    vp::outcome(verdict_names[int(v)]);
    vp::step(vp::mix(vp::hash_bytes(text.data(), text.size()), ((radix * 4 + int(s)) * 4 + int(t)) * 4 + int(rc) + (int(lim) * 1000 + count) * 65536 + sizeof(T) * 1000003));
    if (head.empty()) { VP_CHECK(v == verdict::empty, say("an empty-input error")); return; }
    if (!m.well_formed || !frac_ok) { VP_CHECK(v != verdict::value && v != verdict::empty, say("an error")); return; }
    const bool places_ok = lim == radix_place_limit::none || (lim == radix_place_limit::up_to ? frac.size() <= count : frac.size() == count);
    if (!places_ok) { VP_CHECK(v == verdict::places, say("a place limit error")); return; }
    if (p != std::string::npos && frac.empty() && lim == radix_place_limit::up_to && count > 0) return; // "5." under a limit: unclaimed
    if (m.huge || m.magnitude > u128(1) << 63) {
        n04_large<T>(head + frac, frac.size(), m.negative, radix, v, got, say);
        return;
    }
    // exact value as integer / radix^n in 128 bits
    u128 num = m.magnitude, den = 1;
    for (char c : frac) { num = num * radix + digit_value(static_cast<unsigned char>(c)); den *= radix; }
    long double want = static_cast<long double>(num) / static_cast<long double>(den);
    if (m.negative) want = -want;
    const long double eps = std::numeric_limits<T>::epsilon();
    const bool dyadic = (radix & (radix - 1)) == 0;
    VP_CHECK(v == verdict::value, say("a value"));
    if (dyadic && static_cast<long double>(T(want)) == want) VP_CHECK(got == T(want), say(std::to_string(want).c_str()));
    else VP_CHECK(std::fabs(static_cast<long double>(got) - want) <= (frac.size() + 2) * eps * std::fabs(want), say(std::to_string(want).c_str()));
}
#endif

static void
setup (
    const std::string& property,
    bool thorough
) {
    (void)property;
    (void)thorough;
#ifdef VP_N01
    vp::add_space("8 bits", "every 8-bit value, every radix, sign and separator setting, every string form", 512 * 35,
        [] (u64 i) {
            vp::digits d{i};
            unsigned radix = 2 + d.next(35);
            if (d.next(2)) n01_all<signed char>((signed char)(d.next(256)), radix, true);
            else n01_all<unsigned char>((unsigned char)(d.next(256)), radix, true);
        },
        [] (u64 i) { return "8-bit case " + std::to_string(i); });
    static const std::vector<unsigned> some{2, 8, 10, 16, 36};
    u64 nr = thorough ? 35 : some.size();
    vp::add_space("16 bits", std::string("every 16-bit value, ") + (thorough ? "every radix" : "radix 2, 8, 10, 16, 36") + ", every sign and separator setting", 65536 * 2 * nr,
        [=] (u64 i) {
            vp::digits d{i};
            unsigned k = d.next(nr);
            unsigned radix = thorough ? 2 + k : some[k];
            if (d.next(2)) n01_all<short>(short(d.next(65536)), radix, false);
            else n01_all<unsigned short>((unsigned short)(d.next(65536)), radix, false);
        },
        [] (u64 i) { return "16-bit case " + std::to_string(i); });
    vp::add_space("edges", "values around every power of two and of the radix, in all ten integer types, every radix, sign and separator setting, every string form", 35,
        [thorough] (u64 i) {
            unsigned radix = 2 + i;
            for (i128 v : edge_values(radix, thorough ? 3 : 1))
                all_types([&] (auto z) {
                    using T = decltype(z);
                    if (v < i128(std::numeric_limits<T>::min()) || v > i128(std::numeric_limits<T>::max())) return;
                    n01_all<T>(T(v), radix, true);
                });
        },
        [] (u64 i) { return "edge values, radix " + std::to_string(2 + i); });
#endif
#ifdef VP_N02
    unsigned n = thorough ? 5 : 4;
    u64 nt = vp::seq_count(grammar_letters.size(), n);
    auto text_of = [n] (u64 k) {
        std::u32string s;
        for (unsigned d : vp::seq_decode(k, grammar_letters.size(), n)) s += grammar_letters[d];
        return s;
    };
    static const unsigned some[] = {2, 10, 16, 36};
    vp::add_space("grammar", "every text of length 0.." + std::to_string(n) + " over digits, letters, signs, separators and a space, radix 2, 10, 16, 36, every setting, 8 kinds of input",
        nt * 4 * 6,
        [=] (u64 i) {
            vp::digits d{i};
            auto s = signs[d.next(2)];
            auto t = seps[d.next(3)];
            unsigned radix = some[d.next(4)];
            auto text = text_of(d.next(nt));
            n02_forms<int>(text, radix, s, t);
            n02_one<unsigned char>(text, text, radix, s, t);
            n02_one<signed char>(text, text, radix, s, t);
        },
        [=] (u64 i) { return "'" + narrow(text_of(i / 24)) + "' format " + std::to_string(i % 24); });
    static const std::string grouped = "17,-+.";
    unsigned g = thorough ? 9 : 7;
    u64 ng = vp::seq_count(3, g + 2) + vp::seq_count(grouped.size(), g);
    auto grouped_of = [g] (u64 k) {
        std::u32string s;
        u64 first = vp::seq_count(3, g + 2);
        if (k < first) { for (unsigned d : vp::seq_decode(k, 3, g + 2)) s += "1,-"[d]; }
        else for (unsigned d : vp::seq_decode(k - first, grouped.size(), g)) s += grouped[d];
        return s;
    };
    vp::add_space("separators", "every text of length 0.." + std::to_string(g) + " over two digits, both separators and both signs, and 0.." + std::to_string(g + 2) + " over {1 , -}; radix 10, every setting",
        ng * 6,
        [=] (u64 i) {
            vp::digits d{i};
            auto s = signs[d.next(2)];
            auto t = seps[d.next(3)];
            auto text = grouped_of(d.next(ng));
            n02_one<int>(text, text, 10, s, t);
            n02_one<unsigned short>(ref::encode<char8_t>({text.begin(), text.end()}), text, 10, s, t);
        },
        [=] (u64 i) { return "'" + narrow(grouped_of(i / 6)) + "' format " + std::to_string(i % 6); });
    vp::add_space("range", "values in and out of the range of all ten types around every power of two and of the radix, with leading zeros and groups, every radix", 35,
        [thorough] (u64 i) {
            unsigned radix = 2 + i;
            for (i128 v : edge_values(radix, thorough ? 3 : 1))
                for (auto s : signs)
                    for (auto t : seps)
                        for (unsigned zeros : {0u, 1u, 3u, 70u}) {
                            std::string digs = std::string(zeros, '0') + ref_digits(v < 0 ? u128(-v) : u128(v), radix);
                            std::string text = (v < 0 ? "-" : s == sign_status::always_show && zeros != 1 ? "+" : "") + group(digs, sep_char(t));
                            if (zeros == 3) for (char& c : text) if (c >= 'A') c += 32;
                            std::u32string w = u32(text);
                            all_types([&] (auto z) { n02_one<decltype(z)>(w, w, radix, s, t); });
                        }
        },
        [] (u64 i) { return "range, radix " + std::to_string(2 + i); });
    vp::add_space("long", "one digit followed by 1..140 zeros or nines, all ten types, every radix, every setting", 35,
        [] (u64 i) {
            unsigned radix = 2 + i;
            for (unsigned len = 1; len <= 140; ++len)
                for (char lead : {'1', digit_char(radix - 1)})
                    for (char rest : {'0', digit_char(radix - 1)})
                        for (auto t : seps)
                            for (const char* sg : {"", "-"}) {
                                std::u32string w = u32(sg + group(lead + std::string(len, rest), sep_char(t)));
                                all_types([&] (auto z) { n02_one<decltype(z)>(w, w, radix, signs[0], t); });
                            }
        },
        [] (u64 i) { return "long, radix " + std::to_string(2 + i); });
    vp::add_space("every code point", "every scalar value alone, before and after a digit, radix 36", 0x110000,
        [] (u64 i) {
            char32_t c = i;
            if (!ref::scalar(c)) return;
            for (const std::u32string& w : {std::u32string{c}, std::u32string{c, U'1'}, std::u32string{U'1', c}}) {
                ref::cps v(w.begin(), w.end());
                n02_one<int>(w, w, 36, signs[0], seps[0]);
                n02_one<int>(ref::encode<char8_t>(v), w, 36, signs[1], seps[0]);
                n02_one<int>(ref::encode<char16_t>(v), w, 36, signs[0], seps[1]);
            }
        },
        [] (u64 i) { return "U+ (decimal) " + std::to_string(i); });
    vp::add_space("faults", "well-formed texts with exactly one fault: the error names it", 35 * 6,
        [] (u64 i) {
            vp::digits d{i};
            unsigned radix = 2 + d.next(35);
            auto s = signs[d.next(2)];
            auto t = seps[d.next(3)];
            const cmp::integer_format f{radix, s, t};
            auto expect = [&] (const std::string& text, verdict want) {
                int out;
                verdict v = n02_parse<int>(text, f, out);
                VP_CHECK(v == want, "radix ", radix, " sign ", int(s), " separator ", int(t), " '", text, "' gives ", verdict_names[int(v)], ", wanted ", verdict_names[int(want)]);
                vp::outcome(verdict_names[int(want)]);
                vp::step(vp::mix(vp::hash_bytes(text.data(), text.size()), i));
            };
            expect("", verdict::empty);
            std::string digs = group("10110", sep_char(t));
            expect("--" + digs, verdict::multiple);
            if (s == sign_status::always_show) { expect("+-" + digs, verdict::multiple); expect("-+" + digs, verdict::multiple); expect("++" + digs, verdict::multiple); }
            else expect("+" + digs, verdict::not_digit);
            for (std::size_t k = 0; k < digs.size(); ++k) {
                if (digs[k] == ',' || digs[k] == '.') continue;
                for (char bad : {' ', '/', ':', '@', '[', '`', '{', '_', char(radix < 10 ? '0' + radix : 'A' + radix - 10 <= 'Z' ? 'A' + radix - 10 : '!')}) {
                    std::string x = digs;
                    x[k] = bad;
                    expect(x, verdict::not_digit);
                }
            }
            if (t != thousands_separator::none) {
                expect("10110", verdict::missing_sep);
                expect(t == thousands_separator::comma ? "10.110" : "10,110", verdict::missing_sep);
                expect("1" + digs.substr(0, 2) + digs.substr(3), verdict::missing_sep);
            }
            unsigned dummy;
            try {
                (void)cmp::parse_integer<unsigned>("-" + digs, f);
                vp::die("a negative text is accepted as unsigned");
            } catch (const cmp::parse_failed& e) {
                VP_CHECK(kind(e) == verdict::negative_unsigned, "a negative text is refused as ", verdict_names[int(kind(e))]);
            }
            (void)dummy;
        },
        [] (u64 i) { return "fault formats, case " + std::to_string(i); });
#endif
#ifdef VP_N03
    static float_formats ff;
    if (thorough) { for (unsigned r = 2; r <= 36; ++r) ff.radices.push_back(r); }
    else ff.radices = {2, 3, 10, 16, 35, 36};
    vp::add_space("eighths", "every multiple of 1/256 from -4 to 4, in three types, radices " + std::string(thorough ? "2..36" : "2, 3, 10, 16, 35, 36") + ", every sign, separator, point and place setting", 1025 * 2,
        [] (u64 i) {
            dyadic d{i / 2, -8};
            n03_value<double>(d, i & 1, ff, false);
            if (i % 16 < 2) { n03_value<float>(d, i & 1, ff, false); n03_value<long double>(d, i & 1, ff, false); }
        },
        [] (u64 i) { return std::to_string(i / 2) + "/256" + (i & 1 ? " negative" : ""); });
    static const u64 mant[] = {1, 3, 5, 7, 9, 13, 99, 101, 255, 999, 1001, 4095, 65535, 999999, 1000001, 16777215,
        (1ull << 31) + 1, (1ull << 47) - 1, (1ull << 53) - 1};
    static std::vector<int> exps;
    for (int e = -47; e <= 24; ++e) exps.push_back(e);
    for (int e : {30, 40, 52, 53, 60, 61, 62, 63, 64, 65, 70, 100, 127, 200}) exps.push_back(e);
    if (thorough) for (int e : {500, 900, 970}) exps.push_back(e);
    vp::add_space("edges", "19 mantissas of 1 to 53 bits times 2^-47 .. 2^200 (thorough: 2^970), in the types that hold them, same formats", std::size(mant) * exps.size() * 2,
        [] (u64 i) {
            vp::digits dg{i};
            bool neg = dg.next(2);
            dyadic d{mant[dg.next(std::size(mant))], exps[dg.next(exps.size())]};
            int bits = 64 - __builtin_clzll(d.m);
            n03_value<double>(d, neg, ff, false);
            if (bits <= 24 && bits + d.e <= 128 && d.e >= -17) n03_value<float>(d, neg, ff, false);
            if (dg.v == 0 && d.m % 3 == 0) n03_value<long double>(d, neg, ff, false);
        },
        [] (u64 i) {
            vp::digits dg{i};
            bool neg = dg.next(2);
            u64 m = mant[dg.next(std::size(mant))];
            return std::string(neg ? "-" : "") + std::to_string(m) + "*2^" + std::to_string(exps[dg.next(exps.size())]);
        });
    vp::add_space("forms", "multiples of 1/8 from 0 to 8 and around every power of ten, every string form", (64 + 20) * 2,
        [] (u64 i) {
            u64 k = i / 2;
            dyadic d{k, -3};
            if (k >= 64) { u64 p = 1; for (u64 q = 0; q < k - 64 && q < 13; ++q) p *= 10; d = {p * 4 + k % 3 - 1, -2}; }
            n03_value<double>(d, i & 1, ff, true);
        },
        [] (u64 i) { return "forms case " + std::to_string(i); });
    vp::add_space("places", "limits of up to 1,000 places around every power of two, 12 values, radices 2, 10 and 35", 12 * 3,
        [] (u64 i) {
            static const unsigned radices[] = {2, 10, 35};
            static const dyadic values[] = {{0, 0}, {1, -1}, {3, -2}, {1, -8}, {5, -3}, {1, 10}, {99, -1}, {255, -8}, {1, -47}, {(1ull << 47) - 1, -47}, {1000001, -3}, {7, 3}};
            for (unsigned c : {8u, 15u, 16u, 17u, 31u, 32u, 33u, 47u, 48u, 63u, 64u, 65u, 127u, 128u, 129u, 255u, 256u, 257u, 511u, 512u, 513u, 1000u})
                for (auto lim : {radix_place_limit::up_to, radix_place_limit::exactly_equal})
                    for (bool neg : {false, true})
                        n03_one<char8_t, double>(values[i % 12], neg, radices[i / 12], signs[0], seps[0], radix_character::period, lim, c);
        },
        [] (u64 i) { return "places, value " + std::to_string(i % 12) + " radix case " + std::to_string(i / 12); });
    static const u64 whole[] = {1, 3, 1000001, (1ull << 53) - 1, (1ull << 53) + 1, (1ull << 63) - 1, (1ull << 63) + 1, ~0ull, 0xAAAAAAAAAAAAAAABull, 0xCCCCCCCCCCCCCCCDull};
    static const int large[] = {-1, 0, 1, 5, 11, 30, 60, 100, 200, 400, 700, 900, 959, 960, 961, 970, 971, 1022, 1023, 1024, 1100, 2000};
    vp::add_space("long numerals", "10 mantissas of 1 to 64 bits times 2^-1 .. 2^2000 (2^16320 in one case), in the types that hold them, every radix and grouping", 10 * 22 * 35 + 35,
        [] (u64 i) {
            vp::digits dg{i};
            const unsigned radix = 2 + dg.next(35);
            dyadic d = dg.v < 220 ? dyadic{whole[dg.v % 10], large[dg.v / 10]} : dyadic{~0ull, 16320};
            const int bits = 64 - __builtin_clzll(d.m);
            if (d.e == 16320 && radix != 2 && radix != 10 && radix != 36) return;
            for (auto t : seps) {
                n03_one<char8_t, long double>(d, i & 1, radix, signs[0], t, radix_character::period, radix_place_limit::none, 0);
                if (bits <= 53 && bits + d.e <= 1024) n03_one<char, double>(d, i & 1, radix, signs[1], t, radix_character::comma, radix_place_limit::up_to, 3);
                if (bits <= 24 && bits + d.e <= 128) n03_one<char16_t, float>(d, i & 1, radix, signs[0], t, radix_character::period, radix_place_limit::exactly_equal, 2);
            }
        },
        [] (u64 i) { return "long numeral " + std::to_string(i); });
    static const int small[] = {-4000, -1074, -1040, -1022, -500, -149, -140, -126, -100, -64, -63, -53, -52, -30, -24, -10, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 8, 10, 20, 23, 24, 30, 40, 50, 52, 53, 60, 62, 63, 64};
    vp::add_space("full precision", "12 mantissas of the type's full width at 40 exponents, three types, every radix: the whole part exactly, the fraction to within rounding", 12 * 40 * 35,
        [] (u64 i) {
            static const u64 mants[] = {0x8000000000000000ull, 0x8000000000000001ull, 0x8000010000000001ull, 0xCCCCCCCCCCCCCCCDull, 0xAAAAAAAAAAAAAAABull, 0xFFFFFFFFFFFFFFFFull,
                0xFFFFFF8000000000ull, 0xFFFFFFFFFFFFF800ull, 0xC90FDAA22168C235ull, 0xE38E38E38E38E38Eull, 0xB504F333F9DE6484ull, 0x9249249249249249ull};
            vp::digits dg{i};
            const unsigned radix = 2 + dg.next(35);
            const u64 m = mants[dg.next(12)];
            const int e = small[dg.v];
            auto run = [&] (auto z) {
                using T = decltype(z);
                constexpr int digits = std::numeric_limits<T>::digits;
                if (e < std::numeric_limits<T>::min_exponent - digits) return;
                T v = std::ldexp(T(m >> (64 - digits)), e - digits);
                if (v == 0) return;
                if (i & 1) v = -v;
                for (auto t : {seps[0], thousands_separator::comma}) {
                    n03_full<T>(v, radix, t, radix_place_limit::none, 0);
                    for (unsigned c : {0u, 1u, 3u, 20u, 70u}) { n03_full<T>(v, radix, t, radix_place_limit::up_to, c); n03_full<T>(v, radix, t, radix_place_limit::exactly_equal, c); }
                }
            };
            run(float{});
            run(double{});
            if (e > -3000 || radix % 5 == 0) run((long double)0);
        },
        [] (u64 i) { return "full precision " + std::to_string(i); });
    vp::add_space("special", "zeros, infinities and NaN in three types and every format", 3,
        [] (u64 i) {
            auto run = [&] (auto z) {
                using T = decltype(z);
                ff.each([&] (unsigned r, sign_status s, thousands_separator t, radix_character rc, radix_place_limit l, unsigned c) {
                    const cmp::floating_point_format f{r, s, t, rc, l, c};
                    auto text = [&] (T v) { return cmp::format_floating_point<std::string>(v, f); };
                    std::string plus = s == sign_status::always_show ? "+" : "";
                    VP_CHECK(text(std::numeric_limits<T>::infinity()) == plus + "inf", "infinity gives ", text(std::numeric_limits<T>::infinity()));
                    VP_CHECK(text(-std::numeric_limits<T>::infinity()) == "-inf", "-infinity gives ", text(-std::numeric_limits<T>::infinity()));
                    VP_CHECK(text(std::numeric_limits<T>::quiet_NaN()) == "nan", "NaN gives ", text(std::numeric_limits<T>::quiet_NaN()));
                    vp::step(vp::mix(i * 100 + r, int(s) * 1000 + int(t) * 100 + int(l) * 10 + c));
                    vp::outcome("special");
                    // values that need the whole type: a bounded, plausible answer
                    if (l != radix_place_limit::none || r % 2 == 0) {
                        for (T v : {std::numeric_limits<T>::max(), std::numeric_limits<T>::min(), std::numeric_limits<T>::denorm_min(), std::numeric_limits<T>::epsilon(), T(0.1), T(1) / 3}) {
                            if (sizeof(T) > 8 && (v > 1 || v < T(1e-30L))) continue;
                            std::string x = text(v);
                            VP_CHECK(!x.empty() && x.size() < 5000, "extreme value gives ", x.size(), " characters");
                        }
                    }
                });
            };
            if (i == 0) run(float{});
            else if (i == 1) run(double{});
            else run((long double)0);
        },
        [] (u64 i) { return "special values, type " + std::to_string(i); });
#endif
#ifdef VP_N04
    static const std::string letters = "019Az-+.,";
    unsigned n = thorough ? 6 : 5;
    u64 nt = vp::seq_count(letters.size(), n);
    auto text_of = [n] (u64 k) {
        std::string s;
        for (unsigned d : vp::seq_decode(k, letters.size(), n)) s += letters[d];
        return s;
    };
    struct fmt { unsigned radix; sign_status s; thousands_separator t; radix_character rc; radix_place_limit l; unsigned c; };
    static std::vector<fmt> fmts;
    for (unsigned r : {2u, 10u, 16u, 36u})
        for (auto s : signs)
            for (auto [t, rc] : {std::pair{seps[0], radix_character::period}, std::pair{seps[0], radix_character::comma},
                                 std::pair{seps[1], radix_character::period}, std::pair{seps[2], radix_character::comma}})
                for (auto [l, c] : {std::pair{radix_place_limit::none, 0u}, std::pair{radix_place_limit::up_to, 0u}, std::pair{radix_place_limit::up_to, 2u},
                                    std::pair{radix_place_limit::exactly_equal, 0u}, std::pair{radix_place_limit::exactly_equal, 1u}, std::pair{radix_place_limit::exactly_equal, 2u}})
                    if (thorough || r == 10 || r == 16 || (c == 0 && s == signs[0]))
                        fmts.push_back({r, s, t, rc, l, c});
    vp::add_space("grammar", "every text of length 0.." + std::to_string(n) + " over digits, signs, point and separator, " + std::to_string(fmts.size()) + " formats",
        nt,
        [=] (u64 i) {
            std::string text = text_of(i);
            for (const fmt& f : fmts) {
                if (f.t != seps[0]) n04_one<double, char>(text, f.radix, f.s, f.t, f.rc, f.l, f.c);
                else if (f.l == radix_place_limit::none) n04_one<float, char8_t>(text, f.radix, f.s, f.t, f.rc, f.l, f.c);
                else n04_one<double, char16_t>(text, f.radix, f.s, f.t, f.rc, f.l, f.c);
            }
        },
        [=] (u64 i) { return "'" + text_of(i) + "'"; });
    vp::add_space("values", "whole parts 0..12 and around every power of ten up to 10^15, all fractions of up to " + std::string(thorough ? "4" : "3") + " decimal digits, signs and groups, three types",
        45 * (thorough ? 11111 : 1111) * 2,
        [=] (u64 i) {
            vp::digits d{i};
            bool neg = d.next(2);
            u64 w = d.next(45);
            u64 whole = w;
            if (w > 12) { whole = 1; for (u64 q = 0; q < (w - 13) / 2; ++q) whole *= 10; if (w % 2 == 0) --whole; }
            u64 f = d.v;
            std::string frac;
            unsigned len = 0;
            for (u64 span = 1; f >= span; span *= 10) { f -= span; ++len; }
            for (unsigned k = 0; k < len; ++k) { frac.insert(frac.begin(), char('0' + f % 10)); f /= 10; }
            for (auto t : seps) {
                if (t == thousands_separator::period) continue;
                std::string text = (neg ? "-" : "") + group(std::to_string(whole), sep_char(t)) + (frac.empty() ? "" : "." + frac);
                n04_one<double, char>(text, 10, signs[0], t, radix_character::period, radix_place_limit::none, 0);
                n04_one<float, char8_t>(text, 10, signs[0], t, radix_character::period, radix_place_limit::up_to, 4);
                n04_one<long double, char32_t>(text, 10, signs[1], t, radix_character::period, radix_place_limit::exactly_equal, len);
                n04_one<double, wchar_t>(text, 10, signs[0], t, radix_character::period, radix_place_limit::exactly_equal, 2);
            }
        },
        [] (u64 i) { return "value case " + std::to_string(i); });
    static const std::string after = "19,.-+ ";
    const unsigned nf = thorough ? 7 : 6;
    auto fraction_of = [nf] (u64 k) {
        std::string s;
        for (unsigned d : vp::seq_decode(k, after.size(), nf)) s += after[d];
        return s;
    };
    vp::add_space("fractions", "a digit, the point and every text of length 0.." + std::to_string(nf) + " over two digits, both separators, both signs and a space, six formats", vp::seq_count(after.size(), nf),
        [=] (u64 i) {
            const std::string f = fraction_of(i);
            n04_one<double, char8_t>("1." + f, 10, signs[0], seps[0], radix_character::period, radix_place_limit::none, 0);
            n04_one<double, char>("-7." + f, 10, signs[0], thousands_separator::comma, radix_character::period, radix_place_limit::none, 0);
            n04_one<float, char16_t>("1," + f, 10, signs[1], thousands_separator::period, radix_character::comma, radix_place_limit::none, 0);
            n04_one<double, char32_t>("+0," + f, 16, sign_status::always_show, seps[0], radix_character::comma, radix_place_limit::up_to, 4);
            n04_one<long double, wchar_t>("123." + f, 12, signs[0], thousands_separator::comma, radix_character::period, radix_place_limit::exactly_equal, 4);
            n04_one<double, char8_t>("0." + f, 36, signs[1], thousands_separator::period, radix_character::period, radix_place_limit::exactly_equal, 5);
        },
        [=] (u64 i) { return "fraction '" + fraction_of(i) + "'"; });
    vp::add_space("every code point", "every scalar value as the whole part, in it, as the fraction and in it, radix 36 and 10", 0x110000,
        [] (u64 i) {
            const char32_t c = i;
            if (!ref::scalar(c)) return;
            static const std::u32string around[] = {U"#", U"1#", U"#1", U"#.5", U"1#.5", U"1.#", U"1.#5", U"1.5#", U"-#.5"};
            for (const std::u32string& a : around) {
                std::u32string w = a;
                w[a.find(U'#')] = c;
                if (c < 0x80) {
                    n04_one<double, char32_t>(std::string(w.begin(), w.end()), 36, signs[0], seps[0], radix_character::period, radix_place_limit::none, 0);
                    n04_one<double, char8_t>(std::string(w.begin(), w.end()), 10, signs[1], seps[0], radix_character::period, radix_place_limit::up_to, 3);
                    continue;
                }
                ref::cps v(w.begin(), w.end());
                double got = 0;
                const cmp::floating_point_format f{i % 2 ? 36u : 10u, signs[i / 2 % 2], seps[0], radix_character::period, radix_place_limit::none, 0};
                verdict k = n04_parse<double>(w, f, got);
                VP_CHECK(k != verdict::value && k != verdict::empty, "U+", std::hex, i, " in '", vp::show(w), "' is taken as part of a number");
                k = i % 3 ? n04_parse<double>(ref::encode<char8_t>(v), f, got) : n04_parse<double>(ref::encode<char16_t>(v), f, got);
                VP_CHECK(k != verdict::value && k != verdict::empty, "U+", std::hex, i, " in '", vp::show(w), "' is taken as part of a number");
                vp::step(vp::mix(i, a.size() * 64 + a[0]));
                vp::outcome("not a digit");
            }
        },
        [] (u64 i) { return "U+ (decimal) " + std::to_string(i); });
    vp::add_space("places", "fractions of one place fewer than, as many as and one more than limits of up to 1,000 places, and 256 more", 24 * 4,
        [] (u64 i) {
            static const unsigned counts[] = {1, 2, 3, 4, 5, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 511, 512, 1000};
            const unsigned c = counts[i % 24], n = i / 24 == 3 ? c + 256 : c + unsigned(i / 24) - 1;
            for (auto lim : {radix_place_limit::none, radix_place_limit::up_to, radix_place_limit::exactly_equal})
                for (const char* sign : {"", "-"})
                    for (char digit : {'0', '5', 'z'})
                        for (unsigned radix : {10u, 36u}) {
                            if (digit == 'z' && radix == 10) continue;
                            const std::string text = sign + std::string("1") + (n ? "." + std::string(n, digit) : "");
                            const cmp::floating_point_format f{radix, signs[0], seps[0], radix_character::period, lim, c};
                            double got = 0;
                            const verdict k = n04_parse<double>(text, f, got);
                            const bool ok = lim == radix_place_limit::none || (lim == radix_place_limit::up_to ? n <= c : n == c);
                            VP_CHECK(k == (ok ? verdict::value : verdict::places), n, " places under limit ", int(lim), "/", c, " give ", verdict_names[int(k)]);
                            long double want = 1, unit = 1;
                            const int x = digit == 'z' ? 35 : digit - '0';
                            for (unsigned q = 0; q < n; ++q) { unit /= radix; want += x * unit; }
                            if (ok) VP_CHECK(std::fabs(std::fabs((long double)got) - want) <= 64 * std::numeric_limits<double>::epsilon() && (got < 0) == (*sign == '-'), n, " places of ", digit, " in radix ", radix, " are read as ", got);
                            vp::step(vp::mix(vp::mix(c, n), vp::mix(int(lim) * 256 + digit, radix * 2 + (*sign == '-'))));
                            vp::outcome("many places");
                        }
        },
        [] (u64 i) { return "places case " + std::to_string(i); });
    vp::add_space("large", "one digit followed by 1..400 zeros, nines or a mixture, with and without groups, a fraction and leading zeros, radices 2, 3, 10, 16, 36, three types", 400 * 5,
        [] (u64 i) {
            static const unsigned radices[] = {2, 3, 10, 16, 36};
            const unsigned radix = radices[i % 5], len = 1 + i / 5;
            for (char lead : {'1', digit_char(radix - 1)})
                for (int kind = 0; kind < 3; ++kind) {
                    std::string digs(1, lead);
                    for (unsigned k = 0; k < len; ++k) digs += kind == 0 ? '0' : kind == 1 ? digit_char(radix - 1) : digit_char((k * 7 + len) % radix);
                    for (unsigned zeros : {0u, 2u, 500u})
                        for (const char* sign : {"", "-"})
                            for (const char* frac : {"", ".1", ".01"}) {
                                const std::string plain = std::string(zeros, '0') + digs;
                                n04_one<double, char>(sign + plain + frac, radix, signs[0], seps[0], radix_character::period, radix_place_limit::none, 0);
                                n04_one<float, char8_t>(sign + group(plain, ',') + frac, radix, signs[0], thousands_separator::comma, radix_character::period, radix_place_limit::up_to, 2);
                                n04_one<long double, char16_t>(sign + plain + frac, radix, signs[1], seps[0], radix_character::period, radix_place_limit::none, 0);
                            }
                }
        },
        [] (u64 i) { return "large, digits " + std::to_string(2 + i / 5) + " radix case " + std::to_string(i % 5); });
    vp::add_space("small", "a point, 0..400 zeros and then one digit, all of the highest digit or a mixture, radices 2, 3, 10, 16, 36, both signs, three types", 401 * 5,
        [] (u64 i) {
            static const unsigned radices[] = {2, 3, 10, 16, 36};
            const unsigned radix = radices[i % 5], zeros = i / 5;
            for (char lead : {'1', digit_char(radix - 1)})
                for (int kind = 0; kind < 3; ++kind) {
                    std::string frac(zeros, '0');
                    frac += lead;
                    for (unsigned k = 0; k < (kind == 0 ? 0u : 9u); ++k) frac += kind == 1 ? digit_char(radix - 1) : digit_char((k * 7 + zeros) % radix);
                    for (const char* whole : {"0", "-0", "00"}) {
                        const bool negative = *whole == '-';
                        n04_small<double, char8_t>(whole, frac, negative, radix, radix_place_limit::none);
                        n04_small<float, char>(whole, frac, negative, radix, radix_place_limit::up_to);
                        n04_small<long double, char32_t>(whole, frac, negative, radix, radix_place_limit::exactly_equal);
                    }
                }
        },
        [] (u64 i) { return "small, " + std::to_string(i / 5) + " zeros radix case " + std::to_string(i % 5); });
    vp::add_space("small round trip", "19 mantissas of 1 to 53 bits times 2^-54 .. 2^-960, radices spread over the cases: formatting and parsing agree", 19 * 907,
        [] (u64 i) {
            static const u64 mant[] = {1, 3, 5, 7, 9, 13, 99, 101, 255, 999, 1001, 4095, 65535, 999999, 1000001, 16777215,
                (1ull << 31) + 1, (1ull << 47) - 1, (1ull << 53) - 1};
            double v = std::ldexp(double(mant[i % 19]), -54 - int(i / 19));
            if (i & 1) v = -v;
            for (unsigned r = 2 + i % 5; r <= 36; r += 5) {
                const cmp::floating_point_format f{r, signs[r & 1], seps[r % 3], r % 3 == 1 ? radix_character::period : radix_character::comma, radix_place_limit::none, 0};
                const auto text = cmp::format_floating_point<std::u8string>(v, f);
                double b = 0;
                const verdict k = n04_parse<double>(text, f, b);
                VP_CHECK(k == verdict::value && std::fabs(b - v) <= (text.size() + 4) * std::numeric_limits<double>::epsilon() * std::fabs(v), "radix ", r, " '", narrow(text), "' is read back as ", verdict_names[int(k)], " ", b, " not ", v);
                vp::step(vp::mix(i, r));
                vp::outcome("small round trip");
            }
        },
        [] (u64 i) { return "small round trip " + std::to_string(i % 19) + " 2^-" + std::to_string(54 + i / 19); });
    vp::add_space("large round trip", "19 mantissas of 1 to 53 bits times 2^0 .. 2^970, radices spread over the cases: formatting and parsing agree", 19 * 971,
        [] (u64 i) {
            static const u64 mant[] = {1, 3, 5, 7, 9, 13, 99, 101, 255, 999, 1001, 4095, 65535, 999999, 1000001, 16777215,
                (1ull << 31) + 1, (1ull << 47) - 1, (1ull << 53) - 1};
            double v = std::ldexp(double(mant[i % 19]), int(i / 19));
            if (i & 1) v = -v;
            const unsigned from = 2 + i % 5, by = 5;
            for (unsigned r = from; r <= 36; r += by) {
                const auto t = r % 3 ? seps[0] : thousands_separator::comma;
                const cmp::floating_point_format f{r, signs[r & 1], t, radix_character::period, radix_place_limit::up_to, 3};
                const auto text = cmp::format_floating_point<std::u8string>(v, f);
                double b = 0;
                verdict k = n04_parse<double>(text, f, b);
                VP_CHECK(k == verdict::value && std::fabs(b - v) <= 4 * std::numeric_limits<double>::epsilon() * std::fabs(v), "radix ", r, " '", narrow(text), "' is read back as ", verdict_names[int(k)], " ", b);
                vp::step(vp::mix(i, r));
                vp::outcome("large round trip");
            }
        },
        [] (u64 i) { return "large round trip " + std::to_string(i % 19) + " 2^" + std::to_string(i / 19); });
    vp::add_space("round trip", "every multiple of 1/1024 from -8 to 8, every radix: formatting and parsing agree", 8193 * 2,
        [] (u64 i) {
            double v = double(i / 2) / 1024;
            if (i & 1) v = -v;
            for (unsigned r = 2; r <= 36; ++r) {
                const cmp::floating_point_format f{r, signs[r & 1], seps[0], radix_character::period, radix_place_limit::none, 0};
                const auto text = cmp::format_floating_point<std::u8string>(v, f);
                const double b = cmp::parse_floating_point<double>(text, f);
                VP_CHECK(std::fabs(b - v) <= 64 * std::numeric_limits<double>::epsilon() * std::fabs(v), "radix ", r, " '", narrow(text), "' is read back as ", b);
                vp::step(vp::mix(i, r));
                vp::outcome("round trip");
            }
        },
        [] (u64 i) { return std::to_string(i / 2) + "/1024"; });
#endif
#ifdef VP_N05
    static const ref::cps letters = {0x30, 0x31, 0x74, 0xE9, 0x20AC, 0x10400};
    u64 k = vp::seq_count(letters.size(), 2);
    auto pick = [] (u64 i) { ref::cps r; for (unsigned d : vp::seq_decode(i, letters.size(), 2)) r.push_back(letters[d]); return r; };
    vp::add_space("booleans", "all pairs of true and false texts and all inputs of length 0..2 over 6 code points, every string form", k * k,
        [=] (u64 i) {
            vp::digits d{i};
            const ref::cps t = pick(d.next(k)), f = pick(d.next(k));
            const std::u8string t8 = ref::encode<char8_t>(t), f8 = ref::encode<char8_t>(f);
            cmp::bool_format fmt{t8, f8};
            cmp::bool_format set;
            VP_CHECK(set.get_true_string() == u8"1" && set.get_false_string() == u8"0", "default texts");
            set.set_true_string(t8);
            VP_CHECK(set.get_true_string() == t8 && set.get_false_string() == u8"0", "setting one text changes the other");
            set.set_false_string(f8);
            VP_CHECK(set.get_true_string() == t8 && set.get_false_string() == f8, "the texts that were set");
            VP_CHECK(fmt.get_true_string() == t8 && fmt.get_false_string() == f8, "the texts given to the constructor");
            auto one = [&] (auto c) {
                using C = decltype(c);
                using S = std::basic_string<C>;
                auto is_ascii = [] (const ref::cps& v) { for (char32_t x : v) if (x > 0x7F) return false; return true; };
                const bool narrow_form = std::is_same_v<C, char>;
                if (!narrow_form || is_ascii(t)) VP_CHECK(cmp::format_bool<S>(true, fmt) == ref::encode<C>(t), "true is written wrong");
                if (!narrow_form || is_ascii(f)) VP_CHECK(cmp::format_bool<S>(false, set) == ref::encode<C>(f), "false is written wrong");
                for (u64 j = 0; j < k; ++j) {
                    const ref::cps in = pick(j);
                    if (narrow_form && !is_ascii(in)) continue;
                    const S text = ref::encode<C>(in);
                    verdict v = verdict::value;
                    bool got = false;
                    try { got = cmp::parse_bool(text, fmt); } catch (const cmp::parse_failed& e) { v = kind(e); }
                    verdict v2 = verdict::value;
                    bool got2 = false;
                    ref::exact<C> x{std::basic_string_view<C>(text)};
                    try { got2 = cmp::parse_bool(x.view(), fmt); } catch (const cmp::parse_failed& e) { v2 = kind(e); }
                    VP_CHECK(v == v2 && got == got2, "string and view differ");
                    if (in.empty()) VP_CHECK(v == verdict::empty, "an empty text gives ", verdict_names[int(v)]);
                    else if (in == t && in == f) VP_CHECK(v == verdict::value, "a matching text is refused");
                    else if (in == t) VP_CHECK(v == verdict::value && got, "the true text isn't true");
                    else if (in == f) VP_CHECK(v == verdict::value && !got, "the false text isn't false");
                    else VP_CHECK(v == verdict::neither, "another text gives ", verdict_names[int(v)]);
                    vp::outcome(verdict_names[int(v)]);
                    vp::step(vp::mix(i, j * 8 + sizeof(C)));
                }
            };
            one(char{}); one(char8_t{}); one(char16_t{}); one(char32_t{}); one(wchar_t{});
        },
        [=] (u64 i) { return "boolean formats " + std::to_string(i); });
    vp::add_space("near misses", "texts of six kinds and every code point put before, into, after or in place of a part of them, every string form", 6 * 0x110000,
        [] (u64 i) {
            static const std::pair<const char32_t*, const char32_t*> texts[] = {{U"1", U"0"}, {U"true", U"false"}, {U"TRUE", U"truE"}, {U"\u00E9t\u00E9", U"\u20AC\U00010400"}, {U" ", U"\n"}, {U"yes no", U"yes"}};
            const auto& [tt, ff] = texts[i % 6];
            const char32_t c = i / 6;
            if (!ref::scalar(c)) return;
            if (i % 6 != 1 && c > 0x3000 && c % 61 != 0) return;
            const std::u32string t = tt, f = ff;
            const cmp::bool_format fmt{ref::encode<char8_t>(ref::cps(t.begin(), t.end())), ref::encode<char8_t>(ref::cps(f.begin(), f.end()))};
            auto one = [&] (const std::u32string& in) {
                const ref::cps v(in.begin(), in.end());
                auto form = [&] (auto z) {
                    using C = decltype(z);
                    if (std::is_same_v<C, char>) for (char32_t x : in) if (x > 0x7F) return;
                    verdict k = verdict::value;
                    bool got = false;
                    try { got = cmp::parse_bool(ref::encode<C>(v), fmt); } catch (const cmp::parse_failed& e) { k = kind(e); }
                    if (in == t) VP_CHECK(k == verdict::value && got, "the true text isn't true");
                    else if (in == f) VP_CHECK(k == verdict::value && !got, "the false text isn't false");
                    else VP_CHECK(k == (in.empty() ? verdict::empty : verdict::neither), "'", vp::show(in), "' for '", vp::show(t), "' or '", vp::show(f), "' gives ", verdict_names[int(k)], k == verdict::value ? got ? " true" : " false" : "");
                    vp::step(vp::mix(vp::hash_bytes(in.data(), in.size() * 4), i % 6 * 8 + sizeof(C)));
                    vp::outcome(verdict_names[int(k)]);
                };
                if (c < 0x3000) { form(char{}); form(char8_t{}); form(char16_t{}); form(char32_t{}); form(wchar_t{}); }
                else if (c % 2) form(char8_t{});
                else form(char16_t{});
            };
            for (const std::u32string& w : {t, f}) {
                one(c + w);
                one(w + c);
                for (std::size_t k = 0; k < w.size(); ++k) {
                    std::u32string x = w;
                    x[k] = c;
                    one(x);
                    if (c == 0) { one(w.substr(k)); one(w.substr(0, k)); one(w + w.substr(k)); one(w.substr(0, k) + w); }
                }
            }
        },
        [] (u64 i) { return "near miss, texts " + std::to_string(i % 6) + " U+ (decimal) " + std::to_string(i / 6); });
    vp::add_space("radix", "radix 0..70 and around every power of two, constructors and setters, from every valid starting radix", 35 * (71 + 32 * 3),
        [] (u64 i) {
            vp::digits d{i};
            unsigned from = 2 + d.next(35);
            u64 j = d.v;
            unsigned r = j < 71 ? unsigned(j) : unsigned((1ull << ((j - 71) / 3)) + (j - 71) % 3 - 1);
            bool ok = r >= 2 && r <= 36;
            auto refused = [&] (auto f) { try { f(); return false; } catch (const cmp::invalid_radix&) { return true; } };
            VP_CHECK(refused([&] { cmp::integer_format f(r, signs[0], seps[0]); VP_CHECK(f.get_radix() == r, "integer radix"); }) == !ok, "integer format, radix ", r);
            VP_CHECK(refused([&] { cmp::floating_point_format f(r, signs[0], seps[0], radix_character::period, radix_place_limit::none, 0); VP_CHECK(f.get_radix() == r, "floating-point radix"); }) == !ok, "floating-point format, radix ", r);
            cmp::integer_format a{from, signs[0], seps[0]};
            VP_CHECK(refused([&] { a.set_radix(r); }) == !ok && a.get_radix() == (ok ? r : from), "integer format, setting radix ", r, " leaves ", a.get_radix());
            cmp::floating_point_format b{from, signs[0], seps[0], radix_character::period, radix_place_limit::none, 0};
            VP_CHECK(refused([&] { b.set_radix(r); }) == !ok && b.get_radix() == (ok ? r : from), "floating-point format, setting radix ", r, " leaves ", b.get_radix());
            vp::step(vp::mix(from, r));
            vp::outcome(ok ? "accepted" : "refused");
        },
        [] (u64 i) { return "radix case " + std::to_string(i); });
    // Histories of setters: each sets its own setting and no other.
    unsigned n = thorough ? 6 : 5;
    vp::add_space("setters", "all sequences of up to " + std::to_string(n) + " setter calls (12 kinds) on both number formats and a copy", vp::seq_count(12, n),
        [n] (u64 i) {
            cmp::integer_format a;
            cmp::floating_point_format b;
            unsigned radix = 10, count = 0;
            auto s = signs[0];
            auto t = seps[0];
            auto rc = radix_character::period;
            auto l = radix_place_limit::none;
            auto same = [&] (const cmp::integer_format& x, const cmp::floating_point_format& y) {
                VP_CHECK(x.get_radix() == radix && x.get_sign_status() == s && x.get_thousands_separator() == t, "integer format settings");
                VP_CHECK(y.get_radix() == radix && y.get_sign_status() == s && y.get_thousands_separator() == t && y.get_radix_character() == rc
                    && y.get_radix_place_limit() == l && y.get_radix_place_count() == count, "floating-point format settings");
            };
            same(a, b);
            for (unsigned op : vp::seq_decode(i, 12, n)) {
                switch (op) {
                case 0: radix = 2; break; case 1: radix = 36; break;
                case 2: s = signs[0]; break; case 3: s = signs[1]; break;
                case 4: t = seps[0]; break; case 5: t = seps[1]; break; case 6: t = seps[2]; break;
                case 7: rc = radix_character::comma; break; case 8: rc = radix_character::period; break;
                case 9: l = radix_place_limit::up_to; break; case 10: l = radix_place_limit::exactly_equal; break;
                case 11: count = count * 2 + 1; break;
                }
                if (op < 2) { a.set_radix(radix); b.set_radix(radix); }
                else if (op < 4) { a.set_sign_status(s); b.set_sign_status(s); }
                else if (op < 7) { a.set_thousands_separator(t); b.set_thousands_separator(t); }
                else if (op < 9) b.set_radix_character(rc);
                else if (op < 11) b.set_radix_place_limit(l);
                else b.set_radix_place_count(count);
                same(a, b);
                vp::step(vp::mix(radix * 64 + count, int(s) * 1000 + int(t) * 100 + int(rc) * 10 + int(l)));
                vp::outcome("set");
            }
            cmp::integer_format a2{a}; cmp::floating_point_format b2{b};
            same(a2, b2);
            cmp::integer_format a3; cmp::floating_point_format b3;
            a3 = a; b3 = b;
            same(a3, b3);
            cmp::integer_format a4{radix, s, t}; cmp::floating_point_format b4{radix, s, t, rc, l, count};
            same(a4, b4);
        },
        [n] (u64 i) { std::string r = "setters"; for (unsigned d : vp::seq_decode(i, 12, n)) r += " " + std::to_string(d); return r; });
#endif
}

int
main (
    int argc,
    char** argv
) {
    return vp::main_(argc, argv, setup);
}
