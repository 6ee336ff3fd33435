// The behaviour behind gtk/gtk.h, and the other side of it: what a user and a
// window manager do. Include it once.
#pragma once
#include <gtk/gtk.h>
#include <algorithm>
#include <chrono>
#include <deque>
#include <functional>
#include <stdexcept>
#include <string>
#include <vector>

namespace fake {

struct connection { gpointer instance; std::string signal; GCallback handler; gpointer data; bool swapped; gulong id; };

struct real_controller : GtkEventControllerKey { GtkWidget* widget = nullptr; };

struct real_window : GtkApplicationWindow {
    GtkApplication* application = nullptr;
    bool titled = false;
    std::string title;
    int width = -1, height = -1;
    bool visible = false, realized = false, maximized = false, minimized = false, closing = false;
    std::vector<real_controller*> controllers;
};

inline std::vector<connection> connections;
inline std::vector<real_window*> toplevels;
inline std::vector<GtkApplication*> applications;
inline gulong next_id = 1;
inline unsigned criticals = 0;
inline long long now_ns = 0;
inline GListModel toplevel_list;
inline GMainContext context;

// An entry is something to do when it's dispatched; an empty one is a moment
// at which nothing is waiting.
inline std::deque<std::function<void()>> queue;
struct starved {};
inline std::function<void()> on_poll, on_idle;   // before every look at the queue; whenever nothing waits

inline real_window*
valid (gpointer w) {
    if (w == nullptr) { ++criticals; return nullptr; }
    real_window* r = static_cast<real_window*>(static_cast<GtkWidget*>(w));
    if (!r->alive) { ++criticals; return nullptr; }   // a read of freed memory is reported by the sanitizer
    return r;
}

inline void
unref (GObject* o) {
    if (--o->references == 0) delete o;
}

template <typename... A>
gboolean
emit (gpointer instance, const std::string& signal, A... a) {
    std::vector<connection> all;
    for (auto& c : connections) if (c.instance == instance && c.signal == signal) all.push_back(c);
    gboolean result = FALSE;
    for (auto& c : all) {
        if (c.swapped) result = reinterpret_cast<gboolean (*)(gpointer, A..., gpointer)>(c.handler)(c.data, a..., instance);
        else result = reinterpret_cast<gboolean (*)(gpointer, A..., gpointer)>(c.handler)(instance, a..., c.data);
        if (result && signal == "close-request") return TRUE;
    }
    return result;
}

inline void
drop_connections (gpointer instance) {
    connections.erase(std::remove_if(connections.begin(), connections.end(), [=] (auto& c) { return c.instance == instance; }), connections.end());
}

// ---- what a user does

inline void key (GtkWidget* w, bool down, guint keyval) {
    real_window* r = static_cast<real_window*>(w);
    auto controllers = r->controllers;
    for (auto* c : controllers) emit(static_cast<GtkEventController*>(c), down ? "key-pressed" : "key-released", keyval, guint(0), GdkModifierType(0));
}

inline void resize (GtkWidget* w, int width, int height) {
    real_window* r = static_cast<real_window*>(w);
    GParamSpec spec;
    bool a = r->width != width, b = r->height != height;
    r->width = width; r->height = height;
    if (a) emit(w, "notify::default-width", &spec);
    if (b) emit(w, "notify::default-height", &spec);
}

inline void request_close (GtkWidget* w) { gtk_window_close(GTK_WINDOW(w)); }

inline bool exists (gpointer w) { return std::find(toplevels.begin(), toplevels.end(), w) != toplevels.end(); }

inline void
reset () {
    while (!toplevels.empty()) gtk_window_destroy(toplevels.back());
    connections.clear();
    queue.clear();
    on_poll = {};
    on_idle = {};
    criticals = 0;
    now_ns = 0;
}

} // namespace fake

gulong g_signal_connect_data (gpointer instance, const gchar* signal, GCallback handler, gpointer data, GClosureNotify, GConnectFlags flags) {
    if (!instance) { ++fake::criticals; return 0; }
    fake::connections.push_back({instance, signal, handler, data, (flags & G_CONNECT_SWAPPED) != 0, fake::next_id});
    return fake::next_id++;
}
void g_signal_handler_disconnect (gpointer, gulong id) {
    fake::connections.erase(std::remove_if(fake::connections.begin(), fake::connections.end(), [=] (auto& c) { return c.id == id; }), fake::connections.end());
}
gpointer g_object_ref (gpointer o) { ++static_cast<GObject*>(o)->references; return o; }
void g_object_unref (gpointer o) {
    GObject* g = static_cast<GObject*>(o);
    if (g->references == 1) {
        fake::drop_connections(o);
        fake::applications.erase(std::remove(fake::applications.begin(), fake::applications.end(), o), fake::applications.end());
    }
    fake::unref(g);
}
void g_clear_object_ (gpointer* o) { if (*o) { g_object_unref(*o); *o = nullptr; } }

GtkApplication* gtk_application_new (const gchar*, GApplicationFlags) { auto* a = new GtkApplication; fake::applications.push_back(a); return a; }
gboolean g_application_register (GApplication*, GCancellable*, GError**) { return TRUE; }
void g_application_activate (GApplication* a) { fake::emit(a, "activate"); }
void g_application_hold (GApplication*) {}
void g_application_release (GApplication*) {}

GtkWidget* gtk_application_window_new (GtkApplication* a) {
    auto* w = new fake::real_window;
    w->application = a;
    fake::toplevels.push_back(w);
    return w;
}
GtkWidget* gtk_window_new (void) { return gtk_application_window_new(nullptr); }
void gtk_window_set_application (GtkWindow* w, GtkApplication* a) { if (auto* r = fake::valid(w)) r->application = a; }
void gtk_window_set_title (GtkWindow* w, const gchar* t) {
    if (auto* r = fake::valid(w)) { r->titled = t != nullptr; r->title = t ? t : ""; }
}
const gchar* gtk_window_get_title (GtkWindow* w) { auto* r = fake::valid(w); return r && r->titled ? r->title.c_str() : nullptr; }
void gtk_window_set_default_size (GtkWindow* w, gint width, gint height) {
    if (auto* r = fake::valid(w)) fake::resize(r, width, height);
}
void gtk_window_get_default_size (GtkWindow* w, gint* width, gint* height) {
    if (auto* r = fake::valid(w)) { if (width) *width = r->width; if (height) *height = r->height; }
}
void gtk_window_maximize (GtkWindow* w) { if (auto* r = fake::valid(w)) r->maximized = true; }
void gtk_window_unmaximize (GtkWindow* w) { if (auto* r = fake::valid(w)) r->maximized = false; }
void gtk_window_minimize (GtkWindow* w) { if (auto* r = fake::valid(w)) r->minimized = true; }
void gtk_window_unminimize (GtkWindow* w) { if (auto* r = fake::valid(w)) r->minimized = false; }
gboolean gtk_window_is_maximized (GtkWindow* w) { auto* r = fake::valid(w); return r && r->maximized; }
void gtk_window_present (GtkWindow* w) { if (auto* r = fake::valid(w)) { r->visible = true; r->realized = true; } }
void gtk_window_close (GtkWindow* w) {
    auto* r = fake::valid(w);
    if (!r || !r->realized || r->closing) return;
    ++r->references;
    r->closing = true;
    gboolean stop = fake::emit(w, "close-request");
    r->closing = false;
    if (!stop && r->alive) gtk_window_destroy(w); // it may have been destroyed meanwhile
    fake::unref(r);
}
void gtk_window_destroy (GtkWindow* w) {
    auto* r = fake::valid(w);
    if (!r) return;
    r->alive = false;
    r->visible = false;
    fake::toplevels.erase(std::find(fake::toplevels.begin(), fake::toplevels.end(), r));
    fake::drop_connections(w);
    for (auto* c : r->controllers) { fake::drop_connections(static_cast<GtkEventController*>(c)); fake::unref(c); }
    r->controllers.clear();
    fake::unref(r);
}
GListModel* gtk_window_get_toplevels (void) { return &fake::toplevel_list; }
guint g_list_model_get_n_items (GListModel*) { return static_cast<guint>(fake::toplevels.size()); }
gpointer g_list_model_get_item (GListModel*, guint i) { return i < fake::toplevels.size() ? g_object_ref(static_cast<GObject*>(fake::toplevels[i])) : nullptr; }
gpointer g_list_model_get_object (GListModel* l, guint i) { return g_list_model_get_item(l, i); }

gboolean gtk_widget_is_visible (GtkWidget* w) { auto* r = fake::valid(w); return r && r->visible; }
gboolean gtk_widget_get_visible (GtkWidget* w) { return gtk_widget_is_visible(w); }
void gtk_widget_set_visible (GtkWidget* w, gboolean v) { if (auto* r = fake::valid(w)) { r->visible = v; if (v) r->realized = true; } }
void gtk_widget_show (GtkWidget* w) { gtk_widget_set_visible(w, TRUE); }
void gtk_widget_hide (GtkWidget* w) { gtk_widget_set_visible(w, FALSE); }
gboolean gtk_widget_get_realized (GtkWidget* w) { auto* r = fake::valid(w); return r && r->realized; }
void gtk_widget_realize (GtkWidget* w) { if (auto* r = fake::valid(w)) r->realized = true; }
void gtk_widget_add_controller (GtkWidget* w, GtkEventController* c) {
    auto* k = static_cast<fake::real_controller*>(c);
    if (auto* r = fake::valid(w)) { k->widget = w; r->controllers.push_back(k); }
}
void gtk_widget_remove_controller (GtkWidget* w, GtkEventController* c) {
    auto* r = fake::valid(w);
    if (!r) return;
    auto* k = static_cast<fake::real_controller*>(c);
    r->controllers.erase(std::remove(r->controllers.begin(), r->controllers.end(), k), r->controllers.end());
    fake::drop_connections(c);
    fake::unref(k);
}
GtkEventController* gtk_event_controller_key_new (void) { return new fake::real_controller; }
GtkWidget* gtk_event_controller_get_widget (GtkEventController* c) { return static_cast<fake::real_controller*>(c)->widget; }

GMainContext* g_main_context_default (void) { return &fake::context; }
gboolean g_main_context_pending (GMainContext*) {
    if (fake::on_poll) fake::on_poll();
    if (fake::queue.empty()) throw fake::starved{};
    if (fake::queue.front()) return TRUE;
    fake::queue.pop_front();
    if (fake::on_idle) fake::on_idle();
    return FALSE;
}
void g_main_context_dispatch (GMainContext*) {
    if (fake::queue.empty() || !fake::queue.front()) return;
    auto f = fake::queue.front();
    fake::queue.pop_front();
    f();
}
gboolean g_main_context_iteration (GMainContext* c, gboolean) {
    if (!g_main_context_pending(c)) return FALSE;
    g_main_context_dispatch(c);
    return TRUE;
}
gint64 g_get_monotonic_time (void) { return fake::now_ns / 1000; }

// std::chrono::steady_clock::now(), by -Wl,--wrap.
extern "C" std::chrono::steady_clock::time_point
__wrap__ZNSt6chrono3_V212steady_clock3nowEv () {
    return std::chrono::steady_clock::time_point(std::chrono::nanoseconds(fake::now_ns));
}
