// What the standard library's wide strings need of the C library, for wide
// characters of two bytes (-fshort-wchar, -Wl,--wrap).
#include <cstddef>
#include <cstring>
#include <string>

template class std::basic_string<wchar_t>; // not those of the compiled library

extern "C" {

wchar_t* __wrap_wmemcpy (wchar_t* to, const wchar_t* from, std::size_t n) { return static_cast<wchar_t*>(std::memcpy(to, from, n * sizeof(wchar_t))); }
wchar_t* __wrap_wmemmove (wchar_t* to, const wchar_t* from, std::size_t n) { return static_cast<wchar_t*>(std::memmove(to, from, n * sizeof(wchar_t))); }

wchar_t*
__wrap_wmemset (wchar_t* to, wchar_t c, std::size_t n) {
    for (std::size_t i = 0; i < n; ++i) to[i] = c;
    return to;
}

int
__wrap_wmemcmp (const wchar_t* a, const wchar_t* b, std::size_t n) {
    for (std::size_t i = 0; i < n; ++i) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
    return 0;
}

const wchar_t*
__wrap_wmemchr (const wchar_t* a, wchar_t c, std::size_t n) {
    for (std::size_t i = 0; i < n; ++i) if (a[i] == c) return a + i;
    return nullptr;
}

std::size_t
__wrap_wcslen (const wchar_t* a) {
    std::size_t n = 0;
    while (a[n]) ++n;
    return n;
}

}
