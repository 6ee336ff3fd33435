// T01: the test runner. T02: digit counting, decimal comparison and application data.
#include <cmp/core/application.hpp>
#include <cmp/core/general.hpp>
#include <cmp/core/test_module.hpp>
#include <cmp/core/type_traits.hpp>
#include <deque>
#include <iostream>
#include <limits>
#include <memory>
#include <optional>
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>
#include "vp.hpp"

using vp::u64;

// ----------------------------------------------------------------------- T01

struct plan {
    bool pass;
    unsigned stages;
    unsigned starts = 1;     // how many tests the function announces
    unsigned messages = 1;   // messages it leaves behind
    std::string name = {};   // "" for one made of its number
};

static std::string
name_of (
    unsigned i,
    const std::string& own = {}
) {
    return own.empty() ? "test " + std::to_string(i) : own;
}

struct scripted : cmp::test_module<scripted> {
    std::vector<plan> plans;
    std::deque<std::string> names;
    std::vector<std::string> problems;
    unsigned at = 0;
    unsigned name_at = 0;

    static std::vector<test_function_pointer>
    functions (
        std::size_t n
    ) { return std::vector<test_function_pointer>(n, &scripted::go); }

    explicit scripted (
        std::vector<plan> p
    ) : cmp::test_module<scripted>(functions(p.size())), plans(p) {}

    bool
    go () {
        plan p = plans[at++ % plans.size()];
        if (get_message_count() != 0) problems.push_back("a message of an earlier test is left");
        for (unsigned k = 0; k < p.starts; ++k) {
            names.push_back(name_of(++name_at, p.name));
            // Tests of the same name share its text, as string literals would.
            const char* text = names.back().c_str();
            if (!p.name.empty()) for (auto& n : names) if (n == p.name) { text = n.c_str(); break; }
            start_test(text);
        }
        for (unsigned k = 0; k < p.stages; ++k) end_stage();
        for (unsigned k = 0; k < p.messages; ++k) push_message(message::constructor_called);
        return p.pass;
    }
};

struct captured {
    std::ostringstream text;
    std::streambuf* out;
    std::streambuf* err;
    captured () : out(std::cout.rdbuf(text.rdbuf())), err(std::cerr.rdbuf(text.rdbuf())) {}
    ~captured () { std::cout.rdbuf(out); std::cerr.rdbuf(err); }
};

struct said {
    std::string index;       // as printed, with its padding
    std::string name;
    std::string rest;
};

// Lines that speak of a test: "Test #<index> - '<name>' <rest>"
static std::vector<said>
lines_of (
    const std::string& text
) {
    std::vector<said> r;
    std::istringstream s(text);
    std::string l;
    while (std::getline(s, l)) {
        std::size_t h = l.find('#'), q = l.find('\''), e = l.rfind('\'');
        if (h == std::string::npos || q == std::string::npos || e <= q) continue;
        std::size_t k = h + 1;
        while (k < l.size() && std::isdigit(static_cast<unsigned char>(l[k]))) ++k;
        r.push_back({l.substr(h + 1, k - h - 1), l.substr(q + 1, e - q - 1), l.substr(e + 1)});
    }
    return r;
}

static int
number_in (
    const std::string& s
) {
    std::size_t k = s.find_first_of("0123456789");
    return k == std::string::npos ? -1 : std::atoi(s.c_str() + k);
}

static int
number_after (
    const std::string& text,
    const std::string& label
) {
    std::size_t k = text.find(label);
    return k == std::string::npos ? -1 : number_in(text.substr(k + label.size(), 12));
}

static std::string
padded (
    unsigned n,
    std::size_t width
) {
    std::string s = std::to_string(n);
    return s.size() < width ? std::string(width - s.size(), '0') + s : s;
}

static void
run_module (
    const std::vector<plan>& plans,
    unsigned runs = 1
) {
    scripted m(plans);
    const std::size_t width = std::to_string(plans.size()).size();
    unsigned index = 0, passed = 0;
    struct failed { unsigned index; unsigned stage; std::string name; };
    std::vector<failed> failures;
    for (unsigned run = 0; run < runs; ++run) {
        std::string text;
        int result;
        {
            captured c;
            result = m.run_tests();
            text = c.text.str();
        }
        auto lines = lines_of(text);
        std::size_t at = 0;
        auto next = [&] () -> const said& {
            VP_CHECK(at < lines.size(), "the report ends early:\n", text);
            return lines[at++];
        };
        for (const plan& p : plans) {
            for (unsigned k = 0; k < p.starts; ++k) {
                ++index;
                const said& s = next();
                VP_CHECK(s.index == padded(index, width) && s.name == name_of(index, p.name) && s.rest.find("start") != std::string::npos,
                    "announced as #", s.index, " '", s.name, "'", s.rest, " instead of #", padded(index, width), "\n", text);
            }
            const said& s = next();
            VP_CHECK(s.index == padded(index, width) && s.name == name_of(index, p.name),
                "ended as #", s.index, " '", s.name, "' instead of #", padded(index, width), "\n", text);
            VP_CHECK((s.rest.find("failed") != std::string::npos) == !p.pass, "outcome of #", index, " is said to be", s.rest);
            VP_CHECK(number_in(s.rest) == static_cast<int>(p.stages), "stages of #", index, ": ", s.rest, " instead of ", p.stages);
            if (p.pass) ++passed; else failures.push_back({index, p.stages + 1, p.name});
            vp::step(vp::mix(vp::mix(index, passed), vp::mix(failures.size(), p.stages)));
        }
        for (const failed& f : failures) {
            const said& s = next();
            VP_CHECK(std::atoi(s.index.c_str()) == static_cast<int>(f.index) && s.name == name_of(f.index, f.name) && s.rest.find("failed") != std::string::npos
                && number_in(s.rest) == static_cast<int>(f.stage), "failure listed as #", s.index, " '", s.name, "'", s.rest, " instead of #", f.index, " on stage ", f.stage);
        }
        VP_CHECK(at == lines.size(), "more tests are spoken of than were run:\n", text);
        VP_CHECK(result == static_cast<int>(failures.size()), "returned ", result, " with ", failures.size(), " failed tests");
        VP_CHECK(number_after(text, "Successful tests:") == static_cast<int>(passed), "successful tests are not ", passed, "\n", text);
        VP_CHECK(number_after(text, "Failed tests:") == static_cast<int>(failures.size()), "failed tests are not ", failures.size(), "\n", text);
        VP_CHECK(m.problems.empty(), m.problems.empty() ? "" : m.problems[0]);
        VP_CHECK(m.get_message_count() == 0, "messages are left after the tests");
    }
    vp::outcome(failures.empty() ? "all passed" : "some failed");
}

static const char* message_ops[] = {"construct", "copy", "move", "destroy", "set", "push", "pop", "clear", "copy module", "throwaway"};

// The message queue and the dummies that fill it.
static void
messages (
    const std::vector<unsigned>& ops
) {
    using M = scripted;
    using msg = M::message;
    M m({});
    std::deque<int> want;
    struct live { std::unique_ptr<M::dummy> d; int value; };
    std::vector<live> dummies;
    std::string trace;
    int fresh = 10;
    for (unsigned o : ops) {
        trace += std::string(" ") + message_ops[o];
        switch (o) {
        case 0:
            dummies.push_back({std::make_unique<M::dummy>(&m, ++fresh), fresh});
            want.push_back(int(msg::constructor_called));
            break;
        case 1:
            if (dummies.empty()) break;
            dummies.push_back({std::make_unique<M::dummy>(*dummies.back().d), dummies.back().value});
            want.push_back(int(msg::copy_constructor_called));
            break;
        case 2: {
            if (dummies.empty()) break;
            int v = dummies.back().value;
            dummies.back().value = M::dummy::default_value + 0;
            M::dummy* from = dummies.back().d.get();
            dummies.push_back({std::make_unique<M::dummy>(std::move(*from)), v});
            want.push_back(int(msg::move_constructor_called));
            break;
        }
        case 3:
            if (dummies.empty()) break;
            dummies.pop_back();
            want.push_back(int(msg::destructor_called));
            break;
        case 4:
            if (dummies.empty()) break;
            dummies.back().d->set_value(++fresh);
            dummies.back().value = fresh;
            break;
        case 5:
            m.push_message(msg::copy_constructor_called);
            want.push_back(int(msg::copy_constructor_called));
            break;
        case 6: {
            msg got = m.pop_message();
            int expected = int(msg::empty);
            if (!want.empty()) { expected = want.front(); want.pop_front(); vp::outcome("popped"); }
            else vp::outcome("popped nothing");
            VP_CHECK(int(got) == expected, trace, ": message ", int(got), " instead of ", expected);
            break;
        }
        case 7: m.clear_message_queue(); want.clear(); break;
        case 8: {
            M c(m);
            VP_CHECK(c.get_message_count() == want.size(), trace, ": the copy holds ", c.get_message_count());
            for (int w : want) VP_CHECK(int(c.pop_message()) == w, trace, ": the copy's messages differ");
            c.push_message(msg::empty);
            break;
        }
        case 9: {
            M::dummy d(&m);
            VP_CHECK(d.get_value() == M::dummy::default_value + 0, trace, ": default value ", d.get_value());
            want.push_back(int(msg::constructor_called));
            want.push_back(int(msg::destructor_called));
            break;
        }
        }
        VP_CHECK(m.get_message_count() == want.size(), trace, ": ", m.get_message_count(), " messages instead of ", want.size());
        u64 h = want.size();
        for (int w : want) h = vp::mix(h, w);
        for (auto& d : dummies) {
            VP_CHECK(d.d->get_value() == d.value, trace, ": value ", d.d->get_value(), " instead of ", d.value);
            h = vp::mix(h, d.value);
        }
        vp::step(h);
    }
    for (int w : want) VP_CHECK(int(m.pop_message()) == w, trace, ": messages out of order");
    m.push_message(msg::empty);
}

// ----------------------------------------------------------------------- T02

template <typename T>
static void
digits (
    T value,
    unsigned radix
) {
    if (radix > static_cast<u64>(std::numeric_limits<T>::max())) return;
    unsigned got = cmp::count_digits<T>(value, static_cast<T>(radix));
    unsigned __int128 m = value < 0 ? static_cast<unsigned __int128>(-static_cast<__int128>(value)) : static_cast<unsigned __int128>(value);
    unsigned want = 1;
    unsigned __int128 bound = radix;
    while (m >= bound) { bound *= radix; ++want; }
    VP_CHECK(got == want, static_cast<long long>(value), " in radix ", radix, " has ", want, " digits, not ", got);
    vp::outcome(value < 0 ? "negative" : "non-negative");
    vp::step(vp::mix(want, radix));
}

template <typename T>
static void
digit_edges (
    unsigned radix
) {
    digits<T>(std::numeric_limits<T>::max(), radix);
    digits<T>(std::numeric_limits<T>::min(), radix);
    __int128 p = 1;
    while (p <= static_cast<__int128>(std::numeric_limits<T>::max())) {
        for (int d = -2; d <= 2; ++d) {
            for (int s = -1; s <= 1; s += 2) {
                __int128 v = s * (p + d);
                if (v < static_cast<__int128>(std::numeric_limits<T>::min()) || v > static_cast<__int128>(std::numeric_limits<T>::max())) continue;
                digits<T>(static_cast<T>(v), radix);
            }
        }
        p *= radix;
    }
}

// Values k/64; their decimal digits are those of k*10^n/64, which doubles hold exactly.
template <typename A, typename B>
static void
compare (
    int a,
    int b,
    unsigned places
) {
    if ((a < 0) != (b < 0) && a != 0 && b != 0) return;   // digits of opposite signs: not claimed
    if (a == 0 || b == 0) {
        if (a < 0 || b < 0) return;
    }
    long long p = 1;
    for (unsigned k = 0; k < places; ++k) p *= 10;
    const bool want = (static_cast<long long>(a) * p) / 64 == (static_cast<long long>(b) * p) / 64;
    const A x = static_cast<A>(a) / 64;
    const B y = static_cast<B>(b) / 64;
    VP_CHECK(cmp::cmp_equal(x, y, places) == want, a, "/64 and ", b, "/64 to ", places, " places: equal should be ", want);
    VP_CHECK(cmp::cmp_not_equal(x, y, static_cast<int>(places)) == !want, a, "/64 and ", b, "/64 to ", places, " places: not equal should be ", !want);
    vp::outcome(want ? "equal" : "not equal");
    vp::step(vp::mix(want, places));
}

// Values m/64 too long for a double. The products with 1, 10 and 100 still fit a long double.
static void
compare_long (
    long long a,
    long long b,
    unsigned places
) {
    __int128 p = 1;
    for (unsigned k = 0; k < places; ++k) p *= 10;
    const bool want = (a * p) / 64 == (b * p) / 64;
    const long double x = static_cast<long double>(a) / 64;
    const long double y = static_cast<long double>(b) / 64;
    VP_CHECK(cmp::cmp_equal(x, y, places) == want, a, "/64 and ", b, "/64 to ", places, " places: equal should be ", want);
    VP_CHECK(cmp::cmp_not_equal(x, y, static_cast<int>(places)) == !want, a, "/64 and ", b, "/64 to ", places, " places: not equal should be ", !want);
    vp::outcome(want ? "long values equal" : "long values not equal");
    vp::step(vp::mix(want, places));
}

template <int... I>
static void
maxima (
    std::integer_sequence<int, I...>
) {
    auto check = [] (int got, int a, int b) { VP_CHECK(got == (a > b ? a : b), "the larger of ", a, " and ", b, " is said to be ", got); };
    (check(cmp::constant_max_v<int, I / 7 - 3, I % 7 - 3>, I / 7 - 3, I % 7 - 3), ...);
}

static void
applications (
    const std::vector<unsigned>& ops
) {
    // Two applications; the most recent one is "the" application.
    static char zero[] = "program";
    static char one[] = "argument";
    char* argv0[] = {nullptr};
    char* argv1[] = {zero, nullptr};
    char* argv3[] = {zero, nullptr, one, nullptr};
    char* argv2[] = {zero, one, nullptr};
    static const char8_t* notices[] = {u8"", u8"\u00A9 2024", u8"another, longer notice that doesn't fit in place"};
    struct live { std::unique_ptr<cmp::application> a; int argc; char** argv; std::u8string notice; };
    std::vector<live> apps;
    cmp::application* current = nullptr;
    for (unsigned o : ops) {
        switch (o) {
        case 0: apps.push_back({std::make_unique<cmp::application>(1, argv1), 1, argv1, u8""}); current = apps.back().a.get(); break;
        case 1: apps.push_back({std::make_unique<cmp::application>(2, argv2), 2, argv2, u8""}); current = apps.back().a.get(); break;
        case 2: case 3: case 4:
            if (apps.empty()) break;
            apps.back().a->set_copyright_notice(notices[o - 2]);
            apps.back().notice = notices[o - 2];
            break;
        case 5:
            if (apps.empty()) break;
            VP_CHECK(apps.back().a->run() == 0, "run() of a plain application isn't 0");
            break;
        case 6: apps.push_back({std::make_unique<cmp::application>(0, argv0), 0, argv0, u8""}); current = apps.back().a.get(); break;
        case 7: apps.push_back({std::make_unique<cmp::application>(3, argv3), 3, argv3, u8""}); current = apps.back().a.get(); break;
        }
        u64 h = apps.size();
        if (current) {
            VP_CHECK(cmp::app() == current && cmp::application::get_instance_ptr() == current, "the application isn't the one made last");
        }
        for (auto& a : apps) {
            VP_CHECK(a.a->get_argc() == a.argc && a.a->get_argv() == a.argv, "the arguments aren't those given");
            VP_CHECK(a.a->get_copyright_notice() == a.notice, "the copyright notice isn't the one set last");
            h = vp::mix(vp::mix(h, a.argc), a.notice.size());
        }
        vp::step(h);
        vp::outcome("application states");
    }
}

static std::vector<plan>
decode_plans (
    u64 i,
    unsigned n
) {
    std::vector<plan> r;
    for (unsigned d : vp::seq_decode(i, 6, n)) r.push_back({d % 2 == 0, d / 2, 1, d % 3});
    return r;
}

static void
setup (
    const std::string& property,
    bool thorough
) {
    if (property == "T01") {
        const unsigned n = thorough ? 7 : 6;
        vp::add_space("outcomes", "all modules of 0.." + std::to_string(n) + " tests, each passing or failing after 0, 1 or 2 stages and leaving 0..2 messages", vp::seq_count(6, n),
            [=] (u64 i) { run_module(decode_plans(i, n)); },
            [=] (u64 i) { std::string s = "tests:"; for (auto& p : decode_plans(i, n)) s += std::string(p.pass ? " pass/" : " fail/") + std::to_string(p.stages); return s; });
        const unsigned nn = thorough ? 6 : 5;
        auto decode_named = [=] (u64 i) {
            static const char* texts[] = {"a name", "another", " ", "#1 - 0"};
            std::vector<plan> r;
            for (unsigned d : vp::seq_decode(i, 8, nn)) r.push_back({d % 2 == 0, d % 3, 1, 0, texts[d / 2]});
            return r;
        };
        vp::add_space("names", "all modules of 0.." + std::to_string(nn) + " tests, each passing or failing under one of four names that tests may share", vp::seq_count(8, nn),
            [=] (u64 i) { run_module(decode_named(i)); },
            [=] (u64 i) { std::string s = "tests:"; for (auto& p : decode_named(i)) s += std::string(p.pass ? " pass " : " fail ") + "'" + p.name + "'"; return s; });
        static const unsigned counts[] = {8, 9, 10, 11, 12, 98, 99, 100, 101, 102, 999, 1000, 1001};
        vp::add_space("many tests", "modules of 8..12, 98..102 and 999..1001 tests with the failures at one position, at all of them or nowhere", 13 * 14,
            [] (u64 i) {
                unsigned count = counts[i % 13];
                unsigned which = i / 13;
                static const unsigned at[] = {0, 1, 7, 8, 9, 10, 97, 98, 99, 100, 998, 999};
                std::vector<plan> p;
                for (unsigned k = 0; k < count; ++k) p.push_back({!(which == 12 || (which < 12 && at[which] == k)), k % 12});
                run_module(p);
            });
        vp::add_space("several starts", "modules of 1..3 or 10..12 functions announcing 1..4 or 9 tests each, run up to 12 times while indexes have no more digits than the number of functions", 6 * 5 * 12 * 2,
            [] (u64 i) {
                vp::digits d{i};
                static const unsigned functions[] = {1, 2, 3, 10, 11, 12};
                unsigned count = functions[d.next(6)];
                static const unsigned starts[] = {1, 2, 3, 4, 9};
                unsigned s = starts[d.next(5)], runs = d.next(12) + 1;
                bool pass = d.next(2);
                unsigned most = (count < 10 ? 9 : 99) / (count * s);
                if (most == 0) { vp::outcome("more digits than the number of functions"); return; }
                runs = std::min(runs, most);
                std::vector<plan> p;
                for (unsigned k = 0; k < count; ++k) p.push_back({pass != (k == 1), k, s});
                run_module(p, runs);
            });
        vp::add_space("crowded indexes", "one function announcing ten tests, in a process of its own", 1,
            [] (u64) {
                pid_t child = ::fork();
                if (child == 0) {
                    int quiet = ::open("/dev/null", O_WRONLY);
                    ::dup2(quiet, 2);
                    try { run_module({plan{true, 0, 10}}); } catch (...) { ::_exit(1); }
                    ::_exit(0);
                }
                int status = 0;
                ::waitpid(child, &status, 0);
                VP_CHECK(status == 0, "the process reporting ten tests of one function ended with status ", status);
            },
            [] (u64) { return std::string("one function announcing ten tests"); });
        const unsigned h = thorough ? 7 : 6;
        vp::add_space("messages", "all sequences of " + std::to_string(h) + " of 10 operations on the message queue and its dummies", vp::ipow(10, h),
            [=] (u64 i) { vp::digits d{i}; std::vector<unsigned> o; for (unsigned k = 0; k < h; ++k) o.push_back(d.next(10)); messages(o); },
            [=] (u64 i) { vp::digits d{i}; std::string s; for (unsigned k = 0; k < h; ++k) s += std::string(" ") + message_ops[d.next(10)]; return s; });
    } else {
        vp::add_space("16-bit digits", "every 16-bit value, signed and unsigned, and every 8-bit value, radices 2..36", 65536,
            [] (u64 i) {
                for (unsigned r = 2; r <= 36; ++r) {
                    digits<short>(static_cast<short>(i), r);
                    digits<unsigned short>(static_cast<unsigned short>(i), r);
                    if (i < 256) { digits<signed char>(static_cast<signed char>(i), r); digits<unsigned char>(static_cast<unsigned char>(i), r); }
                }
            });
        vp::add_space("edge digits", "values next to every power of the radix and both limits, eight integer types, radices 2..36", 35,
            [] (u64 i) {
                unsigned r = static_cast<unsigned>(i) + 2;
                digit_edges<int>(r); digit_edges<unsigned>(r); digit_edges<long>(r); digit_edges<unsigned long>(r);
                digit_edges<long long>(r); digit_edges<unsigned long long>(r); digit_edges<short>(r); digit_edges<char>(r);
            });
        const unsigned range = thorough ? 512 : 192;
        vp::add_space("decimal places", "all pairs of multiples of 1/64 of the same sign up to " + std::to_string(range) + "/64, 0..6 places, three types mixed", u64(2 * range + 1) * (2 * range + 1),
            [=] (u64 i) {
                int a = static_cast<int>(i % (2 * range + 1)) - static_cast<int>(range), b = static_cast<int>(i / (2 * range + 1)) - static_cast<int>(range);
                for (unsigned p = 0; p <= 6; ++p) {
                    compare<double, double>(a, b, p);
                    compare<float, double>(a, b, p);
                    compare<double, long double>(a, b, p);
                    compare<float, float>(a, b, p);
                }
            });
        vp::add_space("larger decimal places", "multiples of 1/64 around every power of two up to 65536, each with its 8 neighbours, both signs, 0..9 places, three types mixed", 17 * 33,
            [] (u64 i) {
                int base = (1 << (6 + i / 33)) + static_cast<int>(i % 33) - 16;
                for (int d = -8; d <= 8; ++d) {
                    for (int sign = -1; sign <= 1; sign += 2) {
                        for (unsigned p = 0; p <= 9; ++p) {
                            compare<double, double>(sign * base, sign * (base + d), p);
                            compare<float, double>(sign * base, sign * (base + d), p);
                            compare<long double, float>(sign * base, sign * (base + d), p);
                            compare<float, float>(sign * base, sign * (base + d), p);
                        }
                    }
                }
            });
        vp::add_space("long values", "multiples of 1/64 around the powers of two up to 2^59 as long doubles, each with its 64 neighbours, both signs, 0..2 places", 36 * 33,
            [] (u64 i) {
                const long long base = (1LL << (24 + i / 33)) + static_cast<long long>(i % 33) - 16;
                for (int d = -64; d <= 64; ++d) {
                    for (int sign = -1; sign <= 1; sign += 2) {
                        for (unsigned p = 0; p <= 2; ++p) compare_long(sign * base, sign * (base + d), p);
                    }
                }
            });
        vp::add_space("constants", "the larger of every pair of -3..3", 1, [] (u64) { maxima(std::make_integer_sequence<int, 49>{}); vp::step(1); });
        const unsigned h = thorough ? 7 : 5;
        vp::add_space("application", "all sequences of " + std::to_string(h) + " of 8 operations on applications", vp::ipow(8, h),
            [=] (u64 i) { vp::digits d{i}; std::vector<unsigned> o; for (unsigned k = 0; k < h; ++k) o.push_back(d.next(8)); applications(o); });
    }
}

int
main (
    int argc,
    char** argv
) {
    return vp::main_(argc, argv, setup);
}
