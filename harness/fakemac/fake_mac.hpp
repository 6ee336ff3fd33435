// The other side of the stand-in for AppKit (fake_appkit.h): what a user
// does, and what became of the native windows. Plain C++.
#pragma once
#include <chrono>
#include <deque>
#include <functional>
#include <string>
#include <vector>

namespace win { inline std::string problem; } // what AppKit was asked that it must not be

namespace fake {

struct real_window {
    bool alive = true, visible = false, maximized = false, minimized = false;
    int width = 0, height = 0;
    std::string title;
    void* object = nullptr; // the NSWindow
};

inline std::vector<void*> applications; // the shared application is never destroyed
inline std::vector<real_window*> toplevels;
inline unsigned criticals = 0;
inline long long now_ns = 0;
inline std::deque<std::function<void()>> queue; // what a user does next; empty ones: nothing is waiting
struct starved {};
inline std::function<void()> on_poll, on_idle; // before every look at the queue; whenever nothing waits

bool exists (real_window* w);
void key (real_window* w, bool down, unsigned code);
void resize (real_window* w, int width, int height);
void request_close (real_window* w);
void reset ();

} // namespace fake
