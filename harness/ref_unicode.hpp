// Reference codecs, written from the Unicode standard (tables 3-6 and 3-7),
// independent of the code under test.
#pragma once
#include <cstdint>
#include <memory>
#include <string>
#include <string_view>
#include <vector>

namespace ref {

using cps = std::vector<char32_t>;

inline bool
scalar (
    char32_t c
) {
    return c < 0xD800 || (c > 0xDFFF && c < 0x110000);
}

template <typename C>
std::basic_string<C>
encode (
    const cps& v
) {
    std::basic_string<C> r;
    for (char32_t c : v) {
        if constexpr (sizeof(C) == 1) {
            if (c < 0x80) r += C(c);
            else if (c < 0x800) { r += C(0xC0 + c / 64); r += C(0x80 + c % 64); }
            else if (c < 0x10000) {
                r += C(0xE0 + c / 4096); r += C(0x80 + c / 64 % 64); r += C(0x80 + c % 64);
            } else {
                r += C(0xF0 + c / 262144); r += C(0x80 + c / 4096 % 64);
                r += C(0x80 + c / 64 % 64); r += C(0x80 + c % 64);
            }
        } else if constexpr (sizeof(C) == 2) {
            if (c < 0x10000) r += C(c);
            else { r += C(0xD800 + (c - 0x10000) / 1024); r += C(0xDC00 + (c - 0x10000) % 1024); }
        } else r += C(c);
    }
    return r;
}

enum class err { none, past_end, invalid, either };

template <typename C>
struct decoded {
    cps points;                       // the longest well-formed prefix
    std::vector<std::size_t> offsets; // where each of them starts
    std::size_t stop;                 // offset just past the prefix
    err error = err::none;            // why it stopped
};

template <typename C>
decoded<C>
decode (
    std::basic_string_view<C> s
) {
    decoded<C> d;
    std::size_t i = 0;
    while (i < s.size()) {
        if constexpr (sizeof(C) == 1) {
            unsigned b = static_cast<unsigned char>(s[i]);
            unsigned n = b < 0x80 ? 1 : b >= 0xC0 && b < 0xE0 ? 2 : b >= 0xE0 && b < 0xF0 ? 3
                : b >= 0xF0 && b < 0xF8 ? 4 : 0;
            if (!n) { d.error = err::invalid; break; }
            bool prefix_ok = b < 0x80 || (b >= 0xC2 && b <= 0xF4);
            bool bad = false, cut = false;
            char32_t c = n == 1 ? b : b & ((1u << (7 - n)) - 1);
            for (unsigned k = 1; k < n; ++k) {
                if (i + k == s.size()) { cut = true; break; }
                unsigned t = static_cast<unsigned char>(s[i + k]);
                if (t < 0x80 || t > 0xBF) { bad = true; break; }
                if (k == 1 && ((b == 0xE0 && t < 0xA0) || (b == 0xED && t > 0x9F)
                            || (b == 0xF0 && t < 0x90) || (b == 0xF4 && t > 0x8F)))
                    prefix_ok = false;
                c = c * 64 + (t - 0x80);
            }
            if (bad) { d.error = err::invalid; break; }
            if (cut) { d.error = prefix_ok ? err::past_end : err::either; break; }
            if (!prefix_ok) { d.error = err::invalid; break; }
            d.points.push_back(c); d.offsets.push_back(i); i += n;
        } else if constexpr (sizeof(C) == 2) {
            unsigned u = static_cast<char16_t>(s[i]);
            if (u >= 0xD800 && u < 0xDC00) {
                if (i + 1 == s.size()) { d.error = err::past_end; break; }
                unsigned t = static_cast<char16_t>(s[i + 1]);
                if (t < 0xDC00 || t > 0xDFFF) { d.error = err::invalid; break; }
                d.points.push_back(0x10000 + (u - 0xD800) * 1024 + (t - 0xDC00));
                d.offsets.push_back(i); i += 2;
            } else if (u >= 0xDC00 && u <= 0xDFFF) { d.error = err::invalid; break; }
            else { d.points.push_back(u); d.offsets.push_back(i); ++i; }
        } else {
            char32_t u = static_cast<char32_t>(s[i]);
            if (!scalar(u)) { d.error = err::invalid; break; }
            d.points.push_back(u); d.offsets.push_back(i); ++i;
        }
    }
    d.stop = i;
    return d;
}

// A copy of a string in a heap block of exactly its size, so that the address
// sanitizer sees any access before or after it.
template <typename C>
class exact {
public:
    explicit
    exact (
        std::basic_string_view<C> s
    ) : m_p(new C[s.size()]), m_n(s.size()) {
        for (std::size_t i = 0; i < m_n; ++i) m_p[i] = s[i];
    }
    std::basic_string_view<C> view () const { return {m_p.get(), m_n}; }
private:
    std::unique_ptr<C[]> m_p;
    std::size_t m_n;
};

// The same with a terminator, for pointer arguments.
template <typename C>
class exact_z {
public:
    explicit
    exact_z (
        std::basic_string_view<C> s
    ) : m_p(new C[s.size() + 1]) {
        for (std::size_t i = 0; i < s.size(); ++i) m_p[i] = s[i];
        m_p[s.size()] = C(0);
    }
    const C* get () const { return m_p.get(); }
    C* data () { return m_p.get(); }
private:
    std::unique_ptr<C[]> m_p;
};

} // namespace ref
