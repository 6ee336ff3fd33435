// A stand-in for the part of GTK 4 that a window back end may use. It keeps
// windows, their properties, their signal handlers and a scripted event
// queue, and behaves as GTK documents it. fake_gtk.hpp holds the functions.
#pragma once
#include <cstddef>

#ifndef NULL
#define NULL 0
#endif
#ifndef TRUE
#define TRUE 1
#define FALSE 0
#endif

typedef int gboolean;
typedef int gint;
typedef unsigned int guint;
typedef unsigned long gulong;
typedef long long gint64;
typedef char gchar;
typedef double gdouble;
typedef void* gpointer;
typedef const void* gconstpointer;
typedef void (*GCallback)(void);

struct GObject { int references = 1; bool alive = true; virtual ~GObject() = default; };
struct GtkWidget : GObject {};
struct GtkWindow : GtkWidget {};
struct GtkApplicationWindow : GtkWindow {};
struct GtkEventController : GObject {};
struct GtkEventControllerKey : GtkEventController {};
struct GApplication : GObject {};
struct GtkApplication : GApplication {};
struct GListModel : GObject {};
struct GParamSpec {};
struct GMainContext {};
struct GCancellable {};
struct GError {};
struct GClosure {};
typedef void (*GClosureNotify)(gpointer, GClosure*);
typedef guint GdkModifierType;
enum GConnectFlags { G_CONNECT_DEFAULT = 0, G_CONNECT_AFTER = 1, G_CONNECT_SWAPPED = 2 };
enum GApplicationFlags { G_APPLICATION_FLAGS_NONE = 0, G_APPLICATION_DEFAULT_FLAGS = 0, G_APPLICATION_NON_UNIQUE = 32 };

#define G_CALLBACK(f) ((GCallback)(f))
#define G_OBJECT(x) ((GObject*)(x))
#define GTK_WIDGET(x) ((GtkWidget*)(x))
#define GTK_WINDOW(x) ((GtkWindow*)(x))
#define GTK_APPLICATION(x) ((GtkApplication*)(x))
#define GTK_APPLICATION_WINDOW(x) ((GtkApplicationWindow*)(x))
#define G_APPLICATION(x) ((GApplication*)(x))
#define GTK_EVENT_CONTROLLER(x) ((GtkEventController*)(x))
#define GTK_EVENT_CONTROLLER_KEY(x) ((GtkEventControllerKey*)(x))
#define G_LIST_MODEL(x) ((GListModel*)(x))

gulong g_signal_connect_data(gpointer instance, const gchar* signal, GCallback handler, gpointer data, GClosureNotify destroy, GConnectFlags flags);
#define g_signal_connect(i, s, h, d) g_signal_connect_data((i), (s), (h), (d), NULL, (GConnectFlags)0)
#define g_signal_connect_after(i, s, h, d) g_signal_connect_data((i), (s), (h), (d), NULL, G_CONNECT_AFTER)
#define g_signal_connect_swapped(i, s, h, d) g_signal_connect_data((i), (s), (h), (d), NULL, G_CONNECT_SWAPPED)
void g_signal_handler_disconnect(gpointer instance, gulong id);

gpointer g_object_ref(gpointer object);
void g_object_unref(gpointer object);
void g_clear_object_(gpointer* object);
#define g_clear_object(p) g_clear_object_((gpointer*)(p))

GtkApplication* gtk_application_new(const gchar* id, GApplicationFlags flags);
gboolean g_application_register(GApplication* a, GCancellable* c, GError** e);
void g_application_activate(GApplication* a);
void g_application_hold(GApplication* a);
void g_application_release(GApplication* a);

GtkWidget* gtk_application_window_new(GtkApplication* a);
GtkWidget* gtk_window_new(void);
void gtk_window_set_application(GtkWindow* w, GtkApplication* a);
void gtk_window_set_title(GtkWindow* w, const gchar* title);
const gchar* gtk_window_get_title(GtkWindow* w);
void gtk_window_set_default_size(GtkWindow* w, gint width, gint height);
void gtk_window_get_default_size(GtkWindow* w, gint* width, gint* height);
void gtk_window_maximize(GtkWindow* w);
void gtk_window_unmaximize(GtkWindow* w);
void gtk_window_minimize(GtkWindow* w);
void gtk_window_unminimize(GtkWindow* w);
gboolean gtk_window_is_maximized(GtkWindow* w);
void gtk_window_present(GtkWindow* w);
void gtk_window_close(GtkWindow* w);
void gtk_window_destroy(GtkWindow* w);
GListModel* gtk_window_get_toplevels(void);
guint g_list_model_get_n_items(GListModel* l);
gpointer g_list_model_get_item(GListModel* l, guint i);
gpointer g_list_model_get_object(GListModel* l, guint i);

gboolean gtk_widget_is_visible(GtkWidget* w);
gboolean gtk_widget_get_visible(GtkWidget* w);
void gtk_widget_set_visible(GtkWidget* w, gboolean visible);
void gtk_widget_show(GtkWidget* w);
void gtk_widget_hide(GtkWidget* w);
gboolean gtk_widget_get_realized(GtkWidget* w);
void gtk_widget_realize(GtkWidget* w);
void gtk_widget_add_controller(GtkWidget* w, GtkEventController* c);
void gtk_widget_remove_controller(GtkWidget* w, GtkEventController* c);

GtkEventController* gtk_event_controller_key_new(void);
GtkWidget* gtk_event_controller_get_widget(GtkEventController* c);

GMainContext* g_main_context_default(void);
gboolean g_main_context_pending(GMainContext* c);
void g_main_context_dispatch(GMainContext* c);
gboolean g_main_context_iteration(GMainContext* c, gboolean may_block);
gint64 g_get_monotonic_time(void);
