// Exploration core shared by all harnesses.
//
// A harness defines "spaces". A space is a finite set of cases numbered
// 0 .. size-1, all of which are run; a case runs the real code next to a
// reference model and throws vp::fail when they disagree. The case that is
// about to run is noted in a shared page first, so that the driver can name
// it if the process dies or hangs.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <sys/mman.h>
#include <typeinfo>
#include <unistd.h>
#include <vector>

namespace vp {

using u64 = std::uint64_t;

struct fail {
    std::string what;
};

struct crumb_page {
    volatile u64 counter;
    volatile u64 index;
    char space[64];
    char note[512];
};

inline crumb_page local_crumb;
inline crumb_page* crumb = &local_crumb;

// ---------------------------------------------------------------- statistics

// Open-addressing set of 64-bit hashes; stops growing at a cap, and says so.
class hash_set {
public:
    bool
    insert (
        u64 h
    ) {
        if (h == 0) h = 1;
        if (m_table.empty()) m_table.assign(1u << 12, 0);
        if (m_size * 2 >= m_table.size()) {
            if (m_table.size() >= (1u << 24)) {
                m_capped = true;
                return false;
            }
            std::vector<u64> old(m_table.size() * 2, 0);
            old.swap(m_table);
            for (u64 v : old) if (v) place(v);
        }
        if (place(h)) { ++m_size; return true; }
        return false;
    }
    u64 size () const { return m_size; }
    bool capped () const { return m_capped; }
private:
    bool
    place (
        u64 h
    ) {
        std::size_t mask = m_table.size() - 1;
        std::size_t i = (h * 0x9E3779B97F4A7C15ull) >> 20 & mask;
        while (m_table[i]) {
            if (m_table[i] == h) return false;
            i = (i + 1) & mask;
        }
        m_table[i] = h;
        return true;
    }
    std::vector<u64> m_table;
    u64 m_size = 0;
    bool m_capped = false;
};

inline u64
mix (
    u64 h,
    u64 v
) {
    h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    h *= 0xFF51AFD7ED558CCDull;
    h ^= h >> 32;
    return h;
}

inline u64
hash_bytes (
    const void* p,
    std::size_t n,
    u64 h = 0x1234567
) {
    const unsigned char* b = static_cast<const unsigned char*>(p);
    for (std::size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 0x100000001B3ull;
    return mix(h, n);
}

struct stats {
    u64 cases = 0;
    u64 transitions = 0;
    hash_set states;
    std::map<std::string, u64> outcomes;
    std::vector<std::string> samples;
};

inline stats st;

// One call into the code under test, leading to a (model) state.
inline void
step (
    u64 state_hash
) {
    ++st.transitions;
    st.states.insert(state_hash);
}

inline void
outcome (
    const char* name,
    u64 n = 1
) {
    static std::map<const char*, u64*> cache;
    u64*& p = cache[name];
    if (!p) p = &st.outcomes[name];
    *p += n;
}

inline void
note (
    const std::string& s
) {
    std::size_t n = s.size() < sizeof(crumb->note) - 1
        ? s.size() : sizeof(crumb->note) - 1;
    std::memcpy(crumb->note, s.data(), n);
    crumb->note[n] = 0;
}

template <typename... A>
[[noreturn]] void
die (
    const A&... a
) {
    std::ostringstream o;
    (o << ... << a);
    throw fail{o.str()};
}

#define VP_CHECK(cond, ...) \
    do { if (!(cond)) ::vp::die(__VA_ARGS__ __VA_OPT__(,) "  [", #cond, "]"); } while (0)

// -------------------------------------------------------------------- spaces

struct space {
    std::string name;
    u64 size;
    std::function<void(u64)> run;
    std::function<std::string(u64)> describe;
    std::string bound;
};

inline std::vector<space> spaces;

inline void
add_space (
    std::string name,
    std::string bound,
    u64 size,
    std::function<void(u64)> run,
    std::function<std::string(u64)> describe = {}
) {
    spaces.push_back({name, size, run, describe, bound});
}

inline void
keep (
    const std::set<std::string>& names
) {
    std::erase_if(spaces, [&] (const space& s) { return !names.count(s.name); });
}

// Sizes at which a count, index or offset that's too narrow goes wrong.
inline const std::vector<std::size_t>&
sizes () {
    static std::vector<std::size_t> r;
    if (r.empty())
        for (unsigned k = 4; k <= 16; ++k)
            for (int d = -1; d <= 1; ++d) r.push_back((std::size_t(1) << k) + d);
    if (r.size() == 39) {
        for (std::size_t p : {100, 1000, 10000}) for (int d = -1; d <= 1; ++d) r.push_back(p + d);
        for (std::size_t p : {48, 96, 192, 384, 500, 768, 1500, 1536, 3072, 6144, 12288}) r.push_back(p);
    }
    return r;
}

// Mixed-radix decoding of a case number.
struct digits {
    u64 v;
    u64
    next (
        u64 radix
    ) {
        u64 d = v % radix;
        v /= radix;
        return d;
    }
};

inline u64
ipow (
    u64 b,
    unsigned e
) {
    u64 r = 1;
    while (e--) r *= b;
    return r;
}

// Number of sequences of length 0..n over k letters, and the decoder for it.
inline u64
seq_count (
    u64 k,
    unsigned n
) {
    u64 r = 0;
    for (unsigned i = 0; i <= n; ++i) r += ipow(k, i);
    return r;
}

inline std::vector<unsigned>
seq_decode (
    u64 idx,
    u64 k,
    unsigned n
) {
    unsigned len = 0;
    while (len <= n && idx >= ipow(k, len)) idx -= ipow(k, len++);
    std::vector<unsigned> r(len);
    for (auto& x : r) { x = idx % k; idx /= k; }
    return r;
}

inline std::string
jesc (
    const std::string& s
) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c > 126) {
            char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b;
        } else r += c;
    }
    return r + "\"";
}

template <typename S>
std::string
show (
    const S& s
) {
    std::ostringstream o;
    o << "[";
    bool first = true;
    std::size_t shown = 0;
    for (auto c : s) {
        if (++shown > 100) { o << " ..."; break; }
        if (!first) o << " ";
        first = false;
        o << std::hex << static_cast<unsigned long>(
            static_cast<std::make_unsigned_t<
                std::conditional_t<std::is_same_v<decltype(c), char8_t>, unsigned char,
                std::conditional_t<std::is_same_v<decltype(c), char16_t>, unsigned short,
                std::conditional_t<std::is_same_v<decltype(c), char32_t>, unsigned int,
                std::conditional_t<std::is_same_v<decltype(c), std::byte>, unsigned char,
                decltype(c)>>>>>>(c));
    }
    o << "]";
    return o.str();
}

struct failure {
    std::string space;
    u64 index;
    std::string what;
    std::string desc;
};

inline std::vector<failure> failures;

inline std::function<void()> after_case; // also part of every case

inline bool
run_one (
    const space& s,
    u64 i
) {
    crumb->index = i;
    crumb->counter = crumb->counter + 1;
    std::string what;
    ++st.cases;
    try {
        s.run(i);
        if (after_case) after_case();
        return true;
    } catch (const fail& f) {
        what = f.what;
    } catch (const std::exception& e) {
        what = std::string("unexpected exception ") + typeid(e).name() + ": " + e.what();
    } catch (...) {
        what = "unexpected exception of unknown type";
    }
    failures.push_back({s.name, i, what, s.describe ? s.describe(i) : std::string()});
    return false;
}

// setup(property, thorough) registers the spaces of a property.
inline int
main_ (
    int argc,
    char** argv,
    const std::function<void(const std::string&, bool)>& setup
) {
    std::string property, out, crumb_path, only;
    bool thorough = false, have_index = false;
    u64 index = 0, shard = 0, shards = 1;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&] { return std::string(argv[++i]); };
        if (a == "--property") property = val();
        else if (a == "--tier") thorough = val() == "thorough";
        else if (a == "--out") out = val();
        else if (a == "--crumb") crumb_path = val();
        else if (a == "--space") only = val();
        else if (a == "--index") { index = std::strtoull(val().c_str(), nullptr, 10); have_index = true; }
        else if (a == "--shard") { shard = std::strtoull(val().c_str(), nullptr, 10); }
        else if (a == "--shards") { shards = std::strtoull(val().c_str(), nullptr, 10); }
    }
    if (!crumb_path.empty()) {
        int fd = ::open(crumb_path.c_str(), O_RDWR | O_CREAT, 0644);
        if (fd >= 0 && ::ftruncate(fd, sizeof(crumb_page)) == 0) {
            void* p = ::mmap(nullptr, sizeof(crumb_page), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (p != MAP_FAILED) crumb = static_cast<crumb_page*>(p);
        }
        if (fd >= 0) ::close(fd);
    }
    setup(property, thorough);
    bool ok = true;
    std::map<std::string, u64> per_space;
    for (const space& s : spaces) {
        if (!only.empty() && s.name != only) continue;
        std::strncpy(crumb->space, s.name.c_str(), sizeof(crumb->space) - 1);
        crumb->note[0] = 0;
        u64 before = st.cases;
        if (have_index) {
            ok = run_one(s, index) && ok;
        } else {
            for (u64 i = shard; i < s.size; i += shards) {
                if (!run_one(s, i)) {
                    ok = false;
                    if (failures.size() >= 3) break;
                }
            }
            if (s.describe && shard == 0 && st.samples.size() < 12) {
                st.samples.push_back(s.name + ": " + s.describe(s.size / 2));
                st.samples.push_back(s.name + ": " + s.describe(s.size - 1));
            }
        }
        per_space[s.name] = st.cases - before;
        if (failures.size() >= 3) break;
    }
    std::ostringstream o;
    o << "{\"complete\":true,\"cases\":" << st.cases
      << ",\"transitions\":" << st.transitions
      << ",\"states\":" << st.states.size()
      << ",\"capped\":" << (st.states.capped() ? "true" : "false")
      << ",\"spaces\":{";
    bool first = true;
    for (const space& s : spaces) {
        if (!first) o << ",";
        first = false;
        o << jesc(s.name) << ":{\"size\":" << s.size << ",\"run\":" << per_space[s.name]
          << ",\"bound\":" << jesc(s.bound) << "}";
    }
    o << "},\"outcomes\":{";
    first = true;
    for (auto& [k, v] : st.outcomes) {
        if (!first) o << ",";
        first = false;
        o << jesc(k) << ":" << v;
    }
    o << "},\"samples\":[";
    first = true;
    for (auto& s : st.samples) {
        if (!first) o << ",";
        first = false;
        o << jesc(s.substr(0, 300));
    }
    o << "],\"failures\":[";
    first = true;
    for (auto& f : failures) {
        if (!first) o << ",";
        first = false;
        o << "{\"space\":" << jesc(f.space) << ",\"index\":" << f.index
          << ",\"what\":" << jesc(f.what.substr(0, 1500)) << ",\"desc\":" << jesc(f.desc.substr(0, 1500)) << "}";
    }
    o << "]}";
    std::string text = o.str();
    if (out.empty()) {
        text += "\n";
        (void)!::write(2, text.data(), text.size());
    } else {
        int fd = ::open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        (void)!::write(fd, text.data(), text.size());
        ::close(fd);
    }
    std::fflush(nullptr);
    ::_exit(ok ? 0 : 1);
}

} // namespace vp
