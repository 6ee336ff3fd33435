// G01 keys, G02 windows, G03 the main loop: the desktop GUI package over a
// stand-in for GTK; and the same for W03 over one for Windows and for M01
// over one for AppKit.
#include "vp.hpp"
#ifdef VP_WINDOWS
#include <Windows.h>
#elif defined(VP_MACOS)
#include <fake_mac.hpp>
#else
#include <fake_gtk.hpp>
#endif
#include <memory>
#include <optional>
#include <cmp/desktop_gui/desktop_gui_application.hpp>
#include <cmp/desktop_gui/window.hpp>

using vp::u64;

#ifdef VP_WINDOWS
using native_window = fake::real_window*;
// std::chrono::steady_clock::now(), by -Wl,--wrap.
extern "C" std::chrono::steady_clock::time_point
__wrap__ZNSt6chrono3_V212steady_clock3nowEv () {
    return std::chrono::steady_clock::time_point(std::chrono::nanoseconds(fake::now_ns));
}
#elif defined(VP_MACOS)
using native_window = fake::real_window*;
#else
using native_window = GtkWidget*;
namespace win { static std::string problem; }
#endif

// ------------------------------------------------------------------ windows

struct heard {
    const void* who;
    std::string what;
    int key = -1;
};

static std::vector<heard> log_;
static std::function<void(cmp::close_event&, const void*)> on_close;
static std::function<void(const void*, double, double)> on_update;
static std::function<void()> on_event;   // done once, by whoever hears of a key or a resize next

static void
event_heard () {
    if (!on_event) return;
    auto f = std::move(on_event);
    on_event = {};
    f();
}

static std::string
name_of (
    cmp::event_type t
) {
    return t == cmp::event_type::key_event ? "key" : "close";
}

struct listener : cmp::window {
    listener (int w, int h, const std::u8string& t, cmp::window_mode m) : cmp::window(w, h, t, m) {}
    listener (listener&&) noexcept = default;
    listener& operator = (listener&&) noexcept = default;
    void
    update (double d, double t) override {
        log_.push_back({this, "update"});
        if (on_update) on_update(this, d, t);
    }
    void
    handle_key_down_event (cmp::key_event& e) override {
        log_.push_back({this, name_of(e.get_event_type()) + (e.get_key_event_type() == cmp::key_event_type::key_down ? " down" : " up") + " as down", static_cast<int>(e.get_key())});
        event_heard();
    }
    void
    handle_key_up_event (cmp::key_event& e) override {
        log_.push_back({this, name_of(e.get_event_type()) + (e.get_key_event_type() == cmp::key_event_type::key_down ? " down" : " up") + " as up", static_cast<int>(e.get_key())});
        event_heard();
    }
    void handle_resize_event () override { log_.push_back({this, "resize"}); event_heard(); }
    void
    handle_close_event (cmp::close_event& e) override {
        VP_CHECK(e.should_close(), "a close event doesn't start as accepted");
        log_.push_back({this, name_of(e.get_event_type())});
        if (on_close) on_close(e, this);
    }
};

static char arg0[] = "program";
static char* args[] = {arg0, nullptr};

struct app_scope {
    std::unique_ptr<cmp::desktop_gui_application> app;
    app_scope () {
        fake::reset();
        log_.clear();
        on_close = {};
        on_update = {};
        on_event = {};
        app = std::make_unique<cmp::desktop_gui_application>(1, args);
        VP_CHECK(cmp::dgui_app() == app.get() && cmp::app() == app.get(), "the application isn't the one made last");
    }
    void
    end () {
        app.reset();
        VP_CHECK(fake::applications.empty(), "the native application outlives the application");
    }
};

#ifdef VP_MACOS
static constexpr unsigned SPACE = 0x31;
#else
static constexpr unsigned SPACE = 0x20;
#endif

static native_window
newest () {
    return fake::toplevels.empty() ? nullptr : static_cast<native_window>(fake::toplevels.back());
}

// --------------------------------------------------------------- G01: keys

static cmp::key
expected_key (
    unsigned v
) {
    auto plus = [] (cmp::key k, unsigned n) { return static_cast<cmp::key>(static_cast<int>(k) + static_cast<int>(n)); };
#ifdef VP_WINDOWS
    // Virtual key codes: one for either case of a letter.
    if (v >= 'A' && v <= 'Z') return plus(cmp::key::a, v - 'A');
    if (v >= '0' && v <= '9') return plus(cmp::key::number_0, v - '0');
    if (v == ' ') return cmp::key::space_bar;
    if (v >= 0x70 && v <= 0x87) return plus(cmp::key::f1, v - 0x70);
    if (v >= 0x60 && v <= 0x69) return plus(cmp::key::numpad_0, v - 0x60);
    return cmp::key::unknown;
#elif defined(VP_MACOS)
    // Apple's virtual key codes (HIToolbox, Events.h), which name places on the keyboard.
    static const unsigned letters[] = {0x00, 0x0B, 0x08, 0x02, 0x0E, 0x03, 0x05, 0x04, 0x22, 0x26, 0x28, 0x25, 0x2E,
        0x2D, 0x1F, 0x23, 0x0C, 0x0F, 0x01, 0x11, 0x20, 0x09, 0x0D, 0x07, 0x10, 0x06};
    static const unsigned digits[] = {0x1D, 0x12, 0x13, 0x14, 0x15, 0x17, 0x16, 0x1A, 0x1C, 0x19};
    static const unsigned keypad[] = {0x52, 0x53, 0x54, 0x55, 0x56, 0x57, 0x58, 0x59, 0x5B, 0x5C};
    static const unsigned function[] = {0x7A, 0x78, 0x63, 0x76, 0x60, 0x61, 0x62, 0x64, 0x65, 0x6D, 0x67, 0x6F, 0x69, 0x6B, 0x71, 0x6A, 0x40, 0x4F, 0x50, 0x5A};
    for (unsigned k = 0; k < 26; ++k) if (letters[k] == v) return plus(cmp::key::a, k);
    for (unsigned k = 0; k < 10; ++k) if (digits[k] == v) return plus(cmp::key::number_0, k);
    for (unsigned k = 0; k < 10; ++k) if (keypad[k] == v) return plus(cmp::key::numpad_0, k);
    for (unsigned k = 0; k < 20; ++k) if (function[k] == v) return plus(cmp::key::f1, k);
    return v == 0x31 ? cmp::key::space_bar : cmp::key::unknown;
#endif
    if (v >= 'a' && v <= 'z') return plus(cmp::key::a, v - 'a');
    if (v >= 'A' && v <= 'Z') return plus(cmp::key::a, v - 'A');
    if (v >= '0' && v <= '9') return plus(cmp::key::number_0, v - '0');
    if (v == ' ') return cmp::key::space_bar;
    if (v >= 0xFFBE && v <= 0xFFD5) return plus(cmp::key::f1, v - 0xFFBE);
    if (v >= 0xFFB0 && v <= 0xFFB9) return plus(cmp::key::numpad_0, v - 0xFFB0);
    return cmp::key::unknown;
}

static const std::vector<std::pair<cmp::key, std::u8string>>&
names () {
    using cmp::key;
    static std::vector<std::pair<key, std::u8string>> r;
    if (!r.empty()) return r;
    const key f[] = {key::f1, key::f2, key::f3, key::f4, key::f5, key::f6, key::f7, key::f8, key::f9, key::f10, key::f11, key::f12,
        key::f13, key::f14, key::f15, key::f16, key::f17, key::f18, key::f19, key::f20, key::f21, key::f22, key::f23, key::f24};
    const key d[] = {key::number_0, key::number_1, key::number_2, key::number_3, key::number_4, key::number_5, key::number_6, key::number_7, key::number_8, key::number_9};
    const key p[] = {key::numpad_0, key::numpad_1, key::numpad_2, key::numpad_3, key::numpad_4, key::numpad_5, key::numpad_6, key::numpad_7, key::numpad_8, key::numpad_9};
    const key l[] = {key::a, key::b, key::c, key::d, key::e, key::f, key::g, key::h, key::i, key::j, key::k, key::l, key::m,
        key::n, key::o, key::p, key::q, key::r, key::s, key::t, key::u, key::v, key::w, key::x, key::y, key::z};
    for (int i = 0; i < 24; ++i) {
        std::string n = "F" + std::to_string(i + 1);
        r.push_back({f[i], std::u8string(n.begin(), n.end())});
    }
    for (int i = 0; i < 10; ++i) r.push_back({d[i], std::u8string(1, static_cast<char8_t>('0' + i))});
    for (int i = 0; i < 10; ++i) r.push_back({p[i], u8"Numpad " + std::u8string(1, static_cast<char8_t>('0' + i))});
    for (int i = 0; i < 26; ++i) r.push_back({l[i], std::u8string(1, static_cast<char8_t>('A' + i))});
    r.push_back({key::space_bar, u8"Space Bar"});
    r.push_back({key::unknown, u8"Unknown"});
    return r;
}

static void
keys_at (
    unsigned first,
    unsigned count
) {
    app_scope scope;
    {
        listener w{300, 200, u8"keys", cmp::window_mode::standard};
        native_window native = newest();
        w.show();
        for (unsigned v = first; v < first + count; ++v) {
            cmp::key want = expected_key(v);
            for (bool down : {true, false}) {
                log_.clear();
                fake::key(native, down, v);
                VP_CHECK(log_.size() == 1 && log_[0].who == &w, "key symbol ", v, " was delivered ", log_.size(), " times");
                VP_CHECK(log_[0].what == (down ? "key down as down" : "key up as up"), "key symbol ", v, " arrived as ", log_[0].what);
                VP_CHECK(log_[0].key == static_cast<int>(want), "key symbol ", v, " is key ", log_[0].key, ", not ", static_cast<int>(want));
                vp::step(static_cast<u64>(want) * 2 + down);
            }
            vp::outcome(want == cmp::key::unknown ? "other key" : "known key");
        }
        w.close();
    }
    scope.end();
}

static void
key_names () {
    std::set<std::u8string> seen;
    for (auto& [k, n] : names()) {
        VP_CHECK(cmp::to_u8string(k) == n, "key ", static_cast<int>(k), " is named ", vp::show(cmp::to_u8string(k)));
        VP_CHECK(seen.insert(n).second, "two keys share a name");
        for (auto t : {cmp::key_event_type::key_down, cmp::key_event_type::key_up}) {
            cmp::key_event e{t, k};
            cmp::key_event copy{e};
            cmp::key_event other{cmp::key_event_type::key_down, cmp::key::unknown};
            other = std::move(copy);
            VP_CHECK(other.get_key() == k && other.get_key_event_type() == t && other.get_event_type() == cmp::event_type::key_event, "an event changes when copied or moved");
        }
        vp::step(static_cast<u64>(k));
        vp::outcome("named key");
    }
    for (bool b : {true, false}) {
        cmp::close_event e{b};
        VP_CHECK(e.should_close() == b && e.get_event_type() == cmp::event_type::close_event, "a close event doesn't hold what it was given");
        for (bool c : {true, false, true}) {
            e.set_should_close(c);
            VP_CHECK(e.should_close() == c, "a close event doesn't hold what was set");
        }
    }
}

// ------------------------------------------------------------- G02: windows

static const char* window_ops[] = {
    "open", "show", "hide", "close", "close refused", "user closes", "user close refused", "move construct", "move assign",
    "destroy", "set title", "events", "close opening the other", "assign to itself",
    "key opening the other", "key closing it", "key release destroying the other", "resize opening the other", "resize closing the other", "key release moving it",
    "events opening more", "user closes opening more", "user closes destroying it", "user closes moving it",
};
static constexpr unsigned WINDOW_OPS = 24;

struct model_window {
    native_window native = nullptr;
    bool realized = false, visible = false;
    std::u8string title;
    int width = 0, height = 0;
    cmp::window_mode mode{};
};

struct window_world {
    std::unique_ptr<listener> object[2];
    model_window model[2];

    void
    opened (
        int s,
        std::size_t before,
        int w,
        int h,
        const std::u8string& t,
        cmp::window_mode m
    ) {
        VP_CHECK(fake::toplevels.size() == before + 1, "opening a window made ", fake::toplevels.size() - before, " native windows");
        auto* r = fake::toplevels.back();
        VP_CHECK(!r->visible, "a window is visible before it's shown");
        VP_CHECK(r->width == w && r->height == h, "a window is opened as ", r->width, " by ", r->height);
#ifndef VP_WINDOWS // where it happens when the window is first shown
        VP_CHECK(r->maximized == (m == cmp::window_mode::maximized) && r->minimized == (m == cmp::window_mode::minimized), "a window is opened in the wrong mode");
#endif
        model[s] = {r, false, false, t, w, h, m};
    }

    void
    open (
        int s
    ) {
        std::size_t before = fake::toplevels.size();
#ifdef VP_WINDOWS
        if (!model[s].native) {
            // The first try fails and leaves nothing behind.
            fake::fail_create = true;
            if (object[s]) VP_CHECK(!object[s]->open(501, 400, u8"x", cmp::window_mode::standard), "a window is open that could not be made");
            else { listener l{501, 400, u8"x", cmp::window_mode::standard}; VP_CHECK(fake::toplevels.size() == before, "a window was made all the same"); }
            fake::fail_create = false;
        }
#endif
        static const std::u8string titles[] = {u8"first", u8"", u8"caf\u00E9 \U0001F600"};
        if (!object[s]) {
            object[s] = std::make_unique<listener>(300 + s, 200, titles[s * 2], cmp::window_mode::standard);
            opened(s, before, 300 + s, 200, titles[s * 2], cmp::window_mode::standard);
        } else if (!model[s].native) {
            cmp::window_mode m = s ? cmp::window_mode::minimized : cmp::window_mode::maximized;
            VP_CHECK(object[s]->open(501, 400 + s, titles[1], m), "a window that isn't open can't be opened");
            opened(s, before, 501, 400 + s, titles[1], m);
            vp::outcome("reopened");
        } else {
            VP_CHECK(!object[s]->open(10, 10, u8"no", cmp::window_mode::standard), "an open window was opened again");
            VP_CHECK(fake::toplevels.size() == before, "opening an open window made a native window");
        }
    }

    void
    expect (
        std::vector<std::pair<int, std::string>> want
    ) {
        std::string got;
        bool same = want.size() == log_.size();
        for (std::size_t i = 0; i < log_.size(); ++i) {
            int s = log_[i].who == object[0].get() ? 0 : log_[i].who == object[1].get() ? 1 : -1;
            got += " " + std::to_string(s) + ":" + log_[i].what;
            if (same && (want[i].first != s || want[i].second != log_[i].what)) same = false;
        }
        VP_CHECK(same, "wrong events were heard:", got);
        log_.clear();
    }

    void
    apply (
        unsigned op,
        int s
    ) {
        const int o = 1 - s;
        model_window& m = model[s];
        switch (op) {
        case 0: open(s); break;
        case 1:
            if (!m.native) break;
            object[s]->show();
#ifdef VP_WINDOWS
            if (!m.realized) {
                VP_CHECK(m.native->maximized == (m.mode == cmp::window_mode::maximized) && m.native->minimized == (m.mode == cmp::window_mode::minimized), "a window is first shown in the wrong mode");
            }
#endif
            m.visible = m.realized = true;
            break;
        case 2: if (m.native) { object[s]->hide(); m.visible = false; } break;
        case 3: case 5:
            if (!object[s] || (m.native && !m.realized) || (op == 5 && !m.native)) break;
            if (op == 3) object[s]->close(); else fake::request_close(m.native);
            if (m.native) { expect({{s, "close"}}); vp::outcome("closed"); } else { expect({}); }
            m = {};
            break;
        case 4: case 6:
            if (!m.native || !m.realized) break;
            on_close = [] (cmp::close_event& e, const void*) { e.set_should_close(false); };
            if (op == 4) object[s]->close(); else fake::request_close(m.native);
            on_close = {};
            expect({{s, "close"}});
            vp::outcome("close refused");
            break;
        case 7:
            if (!object[s] || object[o]) break;
            object[o] = std::make_unique<listener>(std::move(*object[s]));
            model[o] = m;
            m = {};
            expect({});
            vp::outcome("moved");
            break;
        case 8:
            if (!object[s] || !object[o] || (model[o].native && !model[o].realized)) break;
            *object[o] = std::move(*object[s]);
            if (model[o].native) expect({{o, "close"}}); else expect({});
            model[o] = m;
            m = {};
            vp::outcome("move assigned");
            break;
        case 9:
            if (!object[s]) break;
            object[s].reset();
            m = {};
            log_.clear();
            vp::outcome("destroyed");
            break;
        case 10:
            if (!m.native) break;
            m.title = m.title.size() < 8 ? u8"a longer title, which isn't kept in place \u00DF" : u8"t";
            object[s]->set_title(m.title);
            break;
        case 11:
            if (!m.native) break;
            fake::key(m.native, true, 'a');
            fake::resize(m.native, m.width + 1, m.height);
            ++m.width;
            fake::key(m.native, false, 'a');
            fake::resize(m.native, m.width, m.height + 1);
            ++m.height;
            expect({{s, "key down as down"}, {s, "resize"}, {s, "key up as up"}, {s, "resize"}});
            vp::outcome("events delivered");
            break;
        case 12:
            if (!m.native || !m.realized || object[o]) break;
            on_close = [this, o] (cmp::close_event&, const void*) { open(o); };
            object[s]->close();
            on_close = {};
            expect({{s, "close"}});
            m = {};
            vp::outcome("opened while closing");
            break;
        case 13:
            if (!object[s]) break;
            { listener& same = *object[s]; same = std::move(*object[s]); }
            expect({});
            break;
        // What is done while an event is being heard.
        case 14: case 17: {
            if (!m.native || (object[o] && model[o].native)) break;
            on_event = [this, o] { open(o); };
            native_window native = m.native;
            if (op == 14) fake::key(native, true, 'k'); else fake::resize(native, ++m.width, m.height);
            expect({{s, op == 14 ? "key down as down" : "resize"}});
            vp::outcome("opened while hearing an event");
            break;
        }
        case 15: {
            if (!m.native || !m.realized) break;
            on_event = [this, s] { object[s]->close(); };
            fake::key(m.native, true, 'k');
            expect({{s, "key down as down"}, {s, "close"}});
            m = {};
            vp::outcome("closed while hearing an event");
            break;
        }
        case 16: {
            if (!m.native || !object[o]) break;
            on_event = [this, o] { object[o].reset(); model[o] = {}; };
            fake::key(m.native, false, 'k');
            expect({{s, "key up as up"}});
            vp::outcome("destroyed while hearing an event");
            break;
        }
        case 18: {
            if (!m.native || !object[o] || !model[o].native || !model[o].realized) break;
            on_event = [this, o] { object[o]->close(); };
            fake::resize(m.native, m.width, ++m.height);
            expect({{s, "resize"}, {o, "close"}});
            model[o] = {};
            vp::outcome("closed while hearing an event");
            break;
        }
        case 19: {
            if (!m.native || object[o]) break;
            on_event = [this, s, o] { object[o] = std::make_unique<listener>(std::move(*object[s])); };
            fake::key(m.native, false, 'k');
            expect({{s, "key up as up"}});
            model[o] = m;
            m = {};
            vp::outcome("moved while hearing an event");
            break;
        }
        // More windows are opened while an event of these is heard.
        case 20: {
            if (!m.native) break;
            std::vector<std::unique_ptr<listener>> more;
            auto open_more = [&more] { for (int k = 0; k < 2; ++k) more.push_back(std::make_unique<listener>(50, 60, u8"more", cmp::window_mode::standard)); };
            native_window native = m.native;
            on_event = open_more;
            fake::key(native, true, 'k');
            on_event = open_more;
            fake::key(native, false, 'k');
            on_event = open_more;
            fake::resize(native, ++m.width, m.height);
            on_event = {};
            expect({{s, "key down as down"}, {s, "key up as up"}, {s, "resize"}});
            VP_CHECK(more.size() == 6, "an event was heard more than once");
            more.clear();
            log_.clear();
            vp::outcome("more opened while hearing events");
            break;
        }
        case 21: {
            if (!m.native || !m.realized) break;
            std::vector<std::unique_ptr<listener>> more;
            on_close = [&more] (cmp::close_event&, const void*) { for (int k = 0; k < 2; ++k) more.push_back(std::make_unique<listener>(50, 60, u8"more", cmp::window_mode::standard)); };
            fake::request_close(m.native);
            on_close = {};
            expect({{s, "close"}});
            m = {};
            more.clear();
            log_.clear();
            vp::outcome("more opened while closing");
            break;
        }
        case 22: {
            if (!m.native || !m.realized) break;
            on_close = [this, s] (cmp::close_event&, const void*) { auto& it = object[s]; on_close = {}; it.reset(); };
            fake::request_close(m.native);
            on_close = {};
            log_.clear();
            m = {};
            vp::outcome("destroyed while closing");
            break;
        }
        case 23: {
            if (!m.native || !m.realized || object[o]) break;
            on_close = [this, s, o] (cmp::close_event&, const void*) { object[o] = std::make_unique<listener>(std::move(*object[s])); };
            fake::request_close(m.native);
            on_close = {};
            expect({{s, "close"}});
            m = {};
            vp::outcome("moved while closing");
            break;
        }
        }
    }

    // Who owns what, seen from outside: titles, visibility, and where a key
    // pressed in each native window arrives.
    void
    probe () {
        std::size_t open_count = 0;
        VP_CHECK(win::problem.empty(), win::problem);
        u64 h = 0;
        for (int s = 0; s < 2; ++s) {
            model_window& m = model[s];
            h = vp::mix(h, object[s] ? (m.native ? 2 + m.realized * 2 + m.visible + m.title.size() * 8 : 1) : 0);
            if (!m.native) continue;
            ++open_count;
            VP_CHECK(fake::exists(m.native), "an open window's native window is gone");
            auto* r = static_cast<fake::real_window*>(m.native);
            VP_CHECK(r->visible == m.visible, "a window is ", r->visible ? "visible" : "hidden");
            VP_CHECK(object[s]->get_title() == m.title, "the title is ", vp::show(object[s]->get_title()));
            VP_CHECK(r->title == std::string(m.title.begin(), m.title.end()), "the native title is ", r->title);
            log_.clear();
            fake::key(m.native, true, SPACE);
            VP_CHECK(log_.size() == 1 && log_[0].who == object[s].get() && log_[0].key == static_cast<int>(cmp::key::space_bar), "a key pressed in window ", s, " was heard by something else (", log_.size(), " events)");
            log_.clear();
        }
        VP_CHECK(fake::toplevels.size() == open_count, fake::toplevels.size(), " native windows for ", open_count, " open windows");
        VP_CHECK(fake::criticals == 0, "the system was given something that isn't a window");
        vp::step(h);
    }
};

static void
window_history (
    u64 i,
    unsigned n,
    bool both = false
) {
    app_scope scope;
    {
        window_world w;
        w.apply(0, 0);
        w.probe();
        if (both) {
            w.apply(1, 0);
            w.apply(0, 1);
            w.apply(1, 1);
            w.probe();
        }
        vp::digits d{i};
        for (unsigned k = 0; k < n; ++k) {
            unsigned x = d.next(WINDOW_OPS * 2);
            w.apply(x / 2, x % 2);
            w.probe();
        }
    }
    VP_CHECK(fake::toplevels.empty(), "a native window outlives its window");
    scope.end();
}

static std::string
window_history_text (
    u64 i,
    unsigned n
) {
    std::string s = "open 0";
    vp::digits d{i};
    for (unsigned k = 0; k < n; ++k) {
        unsigned x = d.next(WINDOW_OPS * 2);
        s += std::string(", ") + window_ops[x / 2] + " " + std::to_string(x % 2);
    }
    return s;
}

// ------------------------------------------------------------ G03: the loop

struct loop_world {
    struct entry {
        std::unique_ptr<listener> object;
        native_window native = nullptr;   // null once closed
        long long start = 0, last = 0;
        unsigned action = 0, updates = 0, due = 0, done = 0;
        bool fresh = false;            // opened, closed or moved in this round
    };
    std::vector<entry> w;
    bool idle = false;

    void
    add (
        unsigned action
    ) {
        w.emplace_back();
        entry& e = w.back();
        e.action = action;
        e.object = std::make_unique<listener>(100, 100, u8"w", cmp::window_mode::standard);
        e.native = newest();
        e.start = e.last = fake::now_ns;
        e.object->show();
        e.fresh = true;
    }

    unsigned
    open_count () {
        unsigned n = 0;
        for (auto& e : w) n += e.native != nullptr;
        return n;
    }

    entry*
    find (
        const void* object
    ) {
        for (auto& e : w) if (e.object.get() == object) return &e;
        return nullptr;
    }

    void
    close (
        std::size_t i
    ) {
        if (i >= w.size() || !w[i].native) return;
        std::size_t before = log_.size();
        w[i].object->close();
        VP_CHECK(log_.size() == before + 1 && log_[before].who == w[i].object.get() && log_[before].what == "close", "closing a window in the loop wasn't heard by it");
        w[i].native = nullptr;
        w[i].fresh = true;
    }

    void
    move (
        std::size_t i
    ) {
        if (i >= w.size() || !w[i].native) return;
        w[i].object = std::make_unique<listener>(std::move(*w[i].object));
    }

    void
    updated (
        const void* who,
        double d,
        double t
    ) {
        entry* e = find(who);
        VP_CHECK(e, "a window that no longer exists was updated");
        VP_CHECK(e->native, "a closed window was updated");
        VP_CHECK(idle, "a window was updated while events were waiting");
        VP_CHECK(std::abs(t - (fake::now_ns - e->start) / 1e9) < 1e-9, "update was told ", t, " s in total instead of ", (fake::now_ns - e->start) / 1e9);
        VP_CHECK(std::abs(d - (fake::now_ns - e->last) / 1e9) < 1e-9, "update was told ", d, " s since the last instead of ", (fake::now_ns - e->last) / 1e9);
        e->last = fake::now_ns;
        ++e->done;
        std::size_t i = static_cast<std::size_t>(e - w.data());
        unsigned turn = e->updates++;
        vp::step(vp::mix(vp::mix(i, turn), open_count()));
        if (turn != 0) return;
        switch (e->action) {
        case 1: close(i); break;
        case 2: close(i + 1); break;
        case 3: close(i - 1); break;
        case 4: if (w.size() < 6) add(0); break;
        case 5: move(i + 1); break;
        case 6: fake::now_ns += 5; break;
        }
    }

    void
    round_end () {
        if (!idle) return;
        idle = false;
        for (auto& e : w) {
            if (e.due && !e.fresh) VP_CHECK(e.done == 1, "a window was updated ", e.done, " times in a round");
            else VP_CHECK(e.done <= 1, "a window was updated ", e.done, " times in a round");
        }
        vp::outcome("rounds");
    }

    void
    round_start () {
        idle = true;
        for (auto& e : w) { e.due = e.native != nullptr; e.done = 0; e.fresh = false; }
    }

    void
    event (
        unsigned kind,
        std::size_t i
    ) {
        if (i >= w.size() || !w[i].native) return;
        std::size_t before = log_.size();
        auto one = [&] (const char* what) {
            VP_CHECK(log_.size() == before + 1 && log_[before].who == w[i].object.get() && log_[before].what == what, "an event wasn't heard by its window alone");
        };
        switch (kind) {
        case 0: fake::key(w[i].native, true, 'q'); one("key down as down"); break;
        case 1: fake::request_close(w[i].native); one("close"); w[i].native = nullptr; break;
        case 2:
            on_close = [] (cmp::close_event& e, const void*) { e.set_should_close(false); };
            fake::request_close(w[i].native);
            on_close = {};
            one("close");
            break;
        case 3: move(i); break;
        case 4: w[i].object->hide(); break;
        case 5:
            // Into an object whose own window was closed before.
            for (auto& e : w) {
                if (e.native || e.object == w[i].object) continue;
                *e.object = std::move(*w[i].object);
                std::swap(e.object, w[i].object);
                VP_CHECK(log_.size() == before, "an event was heard while moving");
                vp::outcome("assigned in the loop");
                break;
            }
            break;
        }
        vp::outcome("events in the loop");
    }
};

static constexpr unsigned ACTIONS = 7, LOOP_OPS = 2 + 6 * 2;

static void
loop_case (
    u64 i,
    unsigned windows,
    unsigned length
) {
    app_scope scope;
    {
        loop_world world;
        world.w.reserve(16);
        fake::now_ns = 1000000007;
        vp::digits d{i};
        for (unsigned k = 0; k < windows; ++k) {
            world.add(d.next(ACTIONS));
            fake::now_ns += 250000000;
        }
        fake::on_poll = [&] { world.round_end(); };
        fake::on_idle = [&] { world.round_start(); };
        on_update = [&] (const void* who, double x, double t) { world.updated(who, x, t); };
        for (unsigned k = 0; k < length; ++k) {
            unsigned op = d.next(LOOP_OPS);
            if (op == 0) fake::queue.push_back({});
            else if (op == 1) { fake::queue.push_back([] { fake::now_ns += 1500000000; }); fake::queue.push_back({}); }
            else fake::queue.push_back([&world, op] { world.event((op - 2) / 2, (op - 2) % 2); });
        }
        for (unsigned k = 0; k < 2; ++k) { fake::queue.push_back([] { fake::now_ns += 10000000; }); fake::queue.push_back({}); }
        fake::queue.push_back([&world] { for (std::size_t k = 0; k < world.w.size(); ++k) world.event(1, k); });
        int rc = -1;
        try {
            rc = scope.app->run();
        } catch (const fake::starved&) {
            vp::die("run() goes on with ", world.open_count(), " windows open");
        }
        world.round_end();
        VP_CHECK(rc == 0, "run() returned ", rc);
        VP_CHECK(world.open_count() == 0 && fake::toplevels.empty(), "run() ended with ", world.open_count(), " windows open");
        VP_CHECK(fake::criticals == 0, "the system was given something that isn't a window");
        vp::outcome("loops ended");
    }
    scope.end();
}

static std::string
loop_text (
    u64 i,
    unsigned windows,
    unsigned length
) {
    static const char* actions[] = {"nothing", "close itself", "close the next", "close the one before", "open another", "move the next", "take time"};
    static const char* events[] = {"key", "close", "close refused", "move", "hide", "assign"};
    vp::digits d{i};
    std::string s = "first updates:";
    for (unsigned k = 0; k < windows; ++k) s += std::string(" ") + actions[d.next(ACTIONS)] + ";";
    s += " script:";
    for (unsigned k = 0; k < length; ++k) {
        unsigned op = d.next(LOOP_OPS);
        s += op < 2 ? " idle" : std::string(" ") + events[(op - 2) / 2] + " " + std::to_string((op - 2) % 2);
    }
    return s;
}

static void
setup (
    const std::string& property,
    bool thorough
) {
    const bool all = property == "W03" || property == "M01"; // everything
    if (all) {
        vp::add_space("key codes", "every virtual key code up to FFFF, pressed and released", 256, [] (u64 i) { keys_at(static_cast<unsigned>(i) * 256, 256); });
        vp::add_space("names", "every key", 1, [] (u64) { key_names(); });
        const unsigned n = 4, m = thorough ? 4 : 3;
        vp::add_space("histories", "all histories of " + std::to_string(n) + " of 24 operations on two windows, after opening the first", vp::ipow(WINDOW_OPS * 2, n),
            [=] (u64 i) { window_history(i, n); }, [=] (u64 i) { return window_history_text(i, n); });
        vp::add_space("histories of two", "all histories of " + std::to_string(n) + " of 24 operations on two windows, both open and shown", vp::ipow(WINDOW_OPS * 2, n),
            [=] (u64 i) { window_history(i, n, true); }, [=] (u64 i) { return "show 0, open 1, show 1; " + window_history_text(i, n); });
        vp::add_space("three windows", "3 windows with every mix of 7 first updates, all scripts of " + std::to_string(m) + " idle moments and events", vp::ipow(ACTIONS, 3) * vp::ipow(LOOP_OPS, m),
            [=] (u64 i) { loop_case(i, 3, m); }, [=] (u64 i) { return loop_text(i, 3, m); });
        vp::add_space("one window", "one window, all scripts of 4 idle moments and events", ACTIONS * vp::ipow(LOOP_OPS, 4),
            [=] (u64 i) { loop_case(i, 1, 4); }, [=] (u64 i) { return loop_text(i, 1, 4); });
        vp::add_space("no window", "a loop without windows ends at once", 1, [] (u64) { app_scope s; VP_CHECK(s.app->run() == 0, "run() without windows isn't 0"); s.end(); vp::step(0); });
    } else if (property == "G01") {
        vp::add_space("key symbols", "every key symbol up to 1FFFF, pressed and released", 512, [] (u64 i) { keys_at(static_cast<unsigned>(i) * 256, 256); });
        vp::add_space("far key symbols", "256 key symbols from every power of two above and from every known one plus a power of two", 14 + 14 * 4,
            [] (u64 i) {
                static const unsigned bases[] = {0, 'A' - 16, 0xFFB0, 0xFFBE, 0x20};
                keys_at((1u << (17 + i % 14)) + bases[i / 14], 256);
            });
        vp::add_space("names", "every key", 1, [] (u64) { key_names(); });
    } else if (property == "G02") {
        const unsigned n = thorough ? 5 : 4;
        vp::add_space("histories", "all histories of " + std::to_string(n) + " of 24 operations on two windows, after opening the first", vp::ipow(WINDOW_OPS * 2, n),
            [=] (u64 i) { window_history(i, n); }, [=] (u64 i) { return window_history_text(i, n); });
        vp::add_space("histories of two", "all histories of " + std::to_string(n) + " of 24 operations on two windows, both open and shown", vp::ipow(WINDOW_OPS * 2, n),
            [=] (u64 i) { window_history(i, n, true); }, [=] (u64 i) { return "show 0, open 1, show 1; " + window_history_text(i, n); });
    } else {
        const unsigned n = thorough ? 4 : 3;
        vp::add_space("three windows", "3 windows with every mix of 7 first updates, all scripts of " + std::to_string(n) + " idle moments and events", vp::ipow(ACTIONS, 3) * vp::ipow(LOOP_OPS, n),
            [=] (u64 i) { loop_case(i, 3, n); }, [=] (u64 i) { return loop_text(i, 3, n); });
        vp::add_space("one window", "one window, all scripts of 4 idle moments and events", ACTIONS * vp::ipow(LOOP_OPS, 4),
            [=] (u64 i) { loop_case(i, 1, 4); }, [=] (u64 i) { return loop_text(i, 1, 4); });
        vp::add_space("no window", "a loop without windows ends at once", 1, [] (u64) { app_scope s; VP_CHECK(s.app->run() == 0, "run() without windows isn't 0"); s.end(); vp::step(0); });
    }
}

int
main (
    int argc,
    char** argv
) {
    return vp::main_(argc, argv, setup);
}
