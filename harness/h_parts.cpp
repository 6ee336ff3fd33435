// T03: two parts of a program, each compiled with the library's headers on
// its own, share one application, one set of standard streams and one set of
// error types.
#include "vp.hpp"
#include "parts.hpp"
#include <memory>

using vp::u64;

static bool watching = false;
static std::string seen[3];
static u64 input_at = 0;          // input that was handed out

// The input goes on for ever: words of one to three letters.
static char
input_char (
    u64 i
) {
    static const char text[] = "ab c def gh ";
    return text[i % 12];
}

extern "C" {
ssize_t __real_read (int, void*, size_t);
ssize_t __real_write (int, const void*, size_t);
ssize_t
__wrap_read (int fd, void* data, size_t n) {
    if (!watching || fd != 0) return __real_read(fd, data, n);
    size_t k = n < 5 ? n : 5;
    for (size_t i = 0; i < k; ++i) static_cast<char*>(data)[i] = input_char(input_at++);
    return static_cast<ssize_t>(k);
}
ssize_t
__wrap_write (int fd, const void* data, size_t n) {
    if (!watching || (fd != 1 && fd != 2)) return __real_write(fd, data, n);
    seen[fd].append(static_cast<const char*>(data), n);
    return static_cast<ssize_t>(n);
}
}

static u64 consumed = 0;          // input that was read by either part

static const char* op_names[] = {"make application", "set notice", "write", "write number", "write code point", "write error", "flush", "read", "read word", "raise"};
static constexpr unsigned OPS = 10;

static const part&
of (
    unsigned i
) {
    return i ? part_b() : part_a();
}

static void
history (
    u64 i,
    unsigned n
) {
    watching = true;
    struct off { ~off () { watching = false; } } off_;
    std::string want[3];
    part_a().flush();
    seen[1].clear();
    seen[2].clear();
    struct live { void* p; unsigned maker; std::u8string notice; int argc; };
    std::vector<live> apps;
    char zero[] = "program";
    char* argv[] = {zero, zero, zero, nullptr};
    vp::digits d{i};
    for (unsigned k = 0; k < n; ++k) {
        unsigned op = d.next(OPS), who = d.next(2);
        const part& p = of(who);
        const part& other = of(1 - who);
        switch (op) {
        case 0: apps.push_back({p.make_application(1 + static_cast<int>(k) % 3, argv), who, u8"", 1 + static_cast<int>(k) % 3}); break;
        case 1:
            if (apps.empty()) break;
            apps.back().notice = who ? u8"\u00A9 a notice by the second part, not kept in place" : u8"short";
            p.set_notice(who ? u8"\u00A9 a notice by the second part, not kept in place" : u8"short");
            break;
        case 2: p.write_out(who ? u8"<b>" : u8"<a>"); want[1] += who ? "<b>" : "<a>"; break;
        case 3: p.write_number(-71 + static_cast<int>(who)); want[1] += who ? "-70" : "-71"; break;
        case 4: p.write_code_point(who ? U'\U0001F600' : U'z'); want[1] += who ? "\xF0\x9F\x98\x80" : "z"; break;
        case 5: p.write_err(u8"e"); want[2] += "e"; break;
        case 6:
            p.flush();
            VP_CHECK(seen[1] == want[1] && seen[2] == want[2], "after a flush by part ", who, ": '", seen[1], "' not '", want[1], "'");
            break;
        case 7: {
            char32_t c = p.read();
            char w = input_char(consumed++);
            VP_CHECK(c == static_cast<unsigned char>(w), "part ", who, " read ", static_cast<unsigned>(c), " instead of '", w, "'");
            VP_CHECK(seen[1] == want[1], "output of either part is held back while input is asked for");
            break;
        }
        case 8: {
            std::u8string got = p.read_word();
            std::string w;
            while (input_char(consumed) == ' ') ++consumed;
            while (input_char(consumed) != ' ') w += input_char(consumed++);
            ++consumed;
            VP_CHECK(std::string(got.begin(), got.end()) == w, "part ", who, " read '", std::string(got.begin(), got.end()), "' instead of '", w, "'");
            break;
        }
        case 9:
            for (unsigned e = 0; e < 5; ++e) {
                VP_CHECK(p.catches(e, other.raise), "part ", who, " doesn't recognise error ", e, " of the other part");
                VP_CHECK(p.catches(e, p.raise), "part ", who, " doesn't recognise its own error ", e);
            }
            break;
        }
        const void* now = apps.empty() ? nullptr : apps.back().p;
        u64 h = vp::mix(apps.size(), consumed - input_at);
        for (unsigned q = 0; q < 2; ++q) {
            if (now) {
                VP_CHECK(of(q).application_by_app() == now && of(q).application_by_class() == now, "part ", q, " sees another application");
                VP_CHECK(of(q).get_notice() == apps.back().notice && of(q).get_argc() == apps.back().argc, "part ", q, " sees other application data");
            }
            VP_CHECK(of(q).out_address() == of(0).out_address() && of(q).err_address() == of(0).err_address() && of(q).in_address() == of(0).in_address(), "the parts see different standard streams");
            h = vp::mix(h, want[1].size() * 8 + want[2].size());
        }
        VP_CHECK(want[1].compare(0, seen[1].size(), seen[1]) == 0, "out of order: '", seen[1], "' of '", want[1], "'");
        vp::step(h);
        vp::outcome(op_names[op]);
    }
    part_b().flush();
    VP_CHECK(seen[1] == want[1] && seen[2] == want[2], "in the end: '", seen[1], "' not '", want[1], "'");
    std::u8string text = u8"a\u00DF\u20AC\U0001F600";
    VP_CHECK(part_a().round_trip(text) == text && part_b().round_trip(text) == text, "the parts convert text differently");
    for (auto& a : apps) of(1 - a.maker).drop_application(a.p);
}

static void
setup (
    const std::string&,
    bool thorough
) {
    const unsigned n = thorough ? 6 : 5;
    vp::add_space("histories", "all histories of " + std::to_string(n) + " of 10 operations by two parts of a program", vp::ipow(OPS * 2, n),
        [=] (u64 i) { history(i, n); },
        [=] (u64 i) { vp::digits d{i}; std::string s; for (unsigned k = 0; k < n; ++k) { unsigned o = d.next(OPS); s += std::string(" ") + op_names[o] + " by " + "ab"[d.next(2)] + ","; } return s; });
}

int
main (
    int argc,
    char** argv
) {
    return vp::main_(argc, argv, setup);
}
