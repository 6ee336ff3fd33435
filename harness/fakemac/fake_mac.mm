// The stand-in for AppKit: see fake_appkit.h. Objects that were released for
// the last time are kept, marked as dead, until the next reset, so that any
// use of them is noticed.
#include <fake_appkit.h>
#include <fake_mac.hpp>

static std::vector<NSObject*> objects, pool;
static std::vector<fake::real_window*> windows;
static NSEvent* taken; // from the queue, and not yet sent

NSApplication* NSApp;
NSRunLoopMode NSDefaultRunLoopMode;
NSRunLoopMode NSEventTrackingRunLoopMode;

// std::chrono::steady_clock::now(), by -Wl,--wrap.
extern "C" std::chrono::steady_clock::time_point
__wrap__ZNSt6chrono3_V212steady_clock3nowEv () {
    return std::chrono::steady_clock::time_point(std::chrono::nanoseconds(fake::now_ns));
}

// C++ exceptions are the only ones here; gcc's runtime has no personality for them in Objective-C++.
extern "C" int __gxx_personality_v0 (int, int, unsigned long long, void*, void*);
extern "C" int
__gnu_objc_personality_v0 (
    int version,
    int actions,
    unsigned long long kind,
    void* exception,
    void* context
) {
    return __gxx_personality_v0(version, actions, kind, exception, context);
}

static void
problem (
    const char* what
) {
    if (win::problem.empty()) win::problem = what;
    ++fake::criticals;
}

static bool
usable (
    NSObject* o
) {
    if (!o->fake_dead) return true;
    problem("an object that was released is used");
    return false;
}

// ------------------------------------------------------------------ foundation

@implementation NSObject
+ (id) alloc
{
    NSObject* o = static_cast<NSObject*>(class_createInstance(self, 0));
    o->fake_count = 1;
    objects.push_back(o);
    return o;
}
+ (id) new { return [[self alloc] init]; }
+ (Class) class { return self; }
- (id) init { return self; }
- (id) retain { if (usable(self)) ++fake_count; return self; }
- (void) release
{
    if (!usable(self)) return;
    if (--fake_count == 0) [self dealloc];
}
- (id) autorelease { if (usable(self)) pool.push_back(self); return self; }
- (NSUInteger) retainCount { return fake_count; }
- (void) dealloc { fake_dead = YES; }
- (Class) class { return isa; }
- (BOOL) respondsToSelector: (SEL) selector { return class_respondsToSelector(isa, selector); }
- (BOOL) isKindOfClass: (Class) c
{
    for (Class k = isa; k; k = class_getSuperclass(k)) if (k == c) return YES;
    return NO;
}
- (BOOL) isEqual: (id) other { return self == other; }
@end

static void
drain () {
    auto p = std::move(pool);
    pool.clear();
    for (NSObject* o : p) [o release];
}

@implementation NSAutoreleasePool
- (void) drain { ::drain(); }
- (void) release { ::drain(); }
@end

@implementation NSString
+ (id) string { return [self stringWithUTF8String: ""]; }
+ (id) stringWithUTF8String: (const char*) text { return [[[self alloc] initWithUTF8String: text] autorelease]; }
- (id) initWithUTF8String: (const char*) text
{
    if (!text) { problem("a string is made of nothing"); text = ""; }
    fake_text = new std::string(text);
    return self;
}
- (const char*) UTF8String { return usable(self) ? static_cast<std::string*>(fake_text)->c_str() : ""; }
- (NSUInteger) length
{
    // in UTF-16 code units
    NSUInteger n = 0;
    for (unsigned char c : *static_cast<std::string*>(fake_text)) n += (c & 0xC0) != 0x80 ? 1 + (c >= 0xF0) : 0;
    return n;
}
- (BOOL) isEqualToString: (NSString*) other { return other && *static_cast<std::string*>(fake_text) == *static_cast<std::string*>(other->fake_text); }
@end

static NSDate*
date (
    int when
) {
    NSDate* d = [[[NSDate alloc] init] autorelease];
    d->fake_when = when;
    return d;
}

@implementation NSDate
+ (NSDate*) distantPast { return ::date(-1); }
+ (NSDate*) distantFuture { return ::date(1); }
+ (NSDate*) date { return ::date(0); }
+ (NSDate*) dateWithTimeIntervalSinceNow: (NSTimeInterval) seconds { return ::date(seconds <= 0 ? -1 : 1); }
@end

@implementation NSNotification
- (id) object { return fake_object; }
@end

static NSNotification*
about (
    id object
) {
    NSNotification* n = [[[NSNotification alloc] init] autorelease];
    n->fake_object = object;
    return n;
}

@implementation NSEvent
- (NSEventType) type { return fake_type; }
- (unsigned short) keyCode { return fake_code; }
- (NSWindow*) window { return fake_window; }
- (BOOL) isARepeat { return NO; }
- (NSUInteger) modifierFlags { return 0; }
@end

// --------------------------------------------------------------------- windows

@implementation NSResponder
- (void) keyDown: (NSEvent*) event {}
- (void) keyUp: (NSEvent*) event {}
- (void) flagsChanged: (NSEvent*) event {}
@end

static fake::real_window*
real (
    NSWindow* w
) {
    static fake::real_window none;
    usable(w);
    if (!w->fake_real) { problem("a window is used before it is initialised"); return &none; }
    return static_cast<fake::real_window*>(w->fake_real);
}

static void
gone (
    fake::real_window* r
) {
    r->alive = r->visible = false;
    fake::toplevels.erase(std::remove(fake::toplevels.begin(), fake::toplevels.end(), r), fake::toplevels.end());
}

// The delegate, if it takes this message.
static id
delegate_for (
    id delegate,
    SEL selector
) {
    if (!delegate || !usable(delegate)) return nil;
    return [delegate respondsToSelector: selector] ? delegate : nil;
}

@implementation NSWindow
- (id) initWithContentRect: (NSRect) rectangle styleMask: (NSWindowStyleMask) style backing: (NSBackingStoreType) backing defer: (BOOL) later
{
    auto* r = new fake::real_window;
    r->width = static_cast<int>(rectangle.size.width);
    r->height = static_cast<int>(rectangle.size.height);
    r->object = self;
    windows.push_back(r);
    fake::toplevels.push_back(r);
    fake_real = r;
    fake_released_when_closed = YES;
    fake_style = style;
    return self;
}
- (void) setDelegate: (id) delegate { real(self); fake_delegate = delegate; }
- (id) delegate { real(self); return fake_delegate; }
- (void) setTitle: (NSString*) title
{
    if (!title) { problem("a window's title is set to nothing"); return; }
    real(self)->title = [title UTF8String];
}
- (NSString*) title { return [NSString stringWithUTF8String: real(self)->title.c_str()]; }
- (NSWindowStyleMask) styleMask { return fake_style; }
- (NSRect) frame { auto* r = real(self); return NSMakeRect(0, 0, r->width, r->height + 22); }
- (void) center { real(self); }
- (void) zoom: (id) sender { real(self)->maximized ^= 1; }
- (void) miniaturize: (id) sender { auto* r = real(self); r->minimized = true; r->visible = false; }
- (void) deminiaturize: (id) sender { auto* r = real(self); r->minimized = false; r->visible = true; }
- (BOOL) isZoomed { return real(self)->maximized; }
- (BOOL) isMiniaturized { return real(self)->minimized; }
- (BOOL) isVisible { return real(self)->visible; }
- (void) makeKeyAndOrderFront: (id) sender { [self orderFront: sender]; }
- (void) orderFront: (id) sender { auto* r = real(self); r->visible = r->alive; r->minimized = false; }
- (void) orderFrontRegardless { [self orderFront: nil]; }
- (void) orderOut: (id) sender { real(self)->visible = false; }
- (void) makeKeyWindow { real(self); }
- (void) performClose: (id) sender
{
    // The user's click on the close button: what it asks may end the window itself.
    auto* r = real(self);
    if (!r->alive || !(fake_style & NSWindowStyleMaskClosable)) return;
    if (id d = delegate_for(fake_delegate, @selector(windowShouldClose:))) {
        if (![d windowShouldClose: self]) return;
    } else if ([self respondsToSelector: @selector(windowShouldClose:)]) {
        if (![static_cast<id>(self) windowShouldClose: self]) return;
    }
    if (r->alive) [self close];
}
- (void) close
{
    auto* r = real(self);
    if (!r->alive) return;
    if (id d = delegate_for(fake_delegate, @selector(windowWillClose:))) [d windowWillClose: about(self)];
    if (!r->alive) return;
    gone(r);
    if (fake::toplevels.empty()) {
        id d = delegate_for(NSApp->fake_delegate, @selector(applicationShouldTerminateAfterLastWindowClosed:));
        if (d && [d applicationShouldTerminateAfterLastWindowClosed: NSApp]) problem("the program is ended along with its last window");
    }
    if (fake_released_when_closed) [self release];
}
- (void) setReleasedWhenClosed: (BOOL) released { real(self); fake_released_when_closed = released; }
- (BOOL) isReleasedWhenClosed { return fake_released_when_closed; }
- (void) dealloc
{
    gone(real(self));
    [super dealloc];
}
- (void) sendEvent: (NSEvent*) event
{
    real(self);
    if ([event type] == NSEventTypeKeyDown) [self keyDown: event];
    else if ([event type] == NSEventTypeKeyUp) [self keyUp: event];
}
@end

// ----------------------------------------------------------------- application

@implementation NSApplication
+ (NSApplication*) sharedApplication
{
    if (!NSApp) {
        NSApp = [[self alloc] init];
        objects.pop_back(); // stays
    }
    return NSApp;
}
- (void) setDelegate: (id) delegate { fake_delegate = delegate; }
- (id) delegate { return fake_delegate; }
- (void) finishLaunching
{
    if (id d = delegate_for(fake_delegate, @selector(applicationWillFinishLaunching:))) [d applicationWillFinishLaunching: about(self)];
    if (id d = delegate_for(fake_delegate, @selector(applicationDidFinishLaunching:))) [d applicationDidFinishLaunching: about(self)];
}
- (BOOL) setActivationPolicy: (NSApplicationActivationPolicy) policy { return YES; }
- (void) activateIgnoringOtherApps: (BOOL) ignoring {}
- (NSEvent*) nextEventMatchingMask: (NSEventMask) mask untilDate: (NSDate*) date inMode: (NSRunLoopMode) mode dequeue: (BOOL) dequeue
{
    if (mask != NSEventMaskAny) problem("some kinds of events are never taken");
    if (taken) { problem("an event was taken and dropped"); taken = nil; }
    const bool waits = date && usable(date) && date->fake_when > 0;
    drain();
    if (fake::on_poll) fake::on_poll();
    while (true) {
        if (fake::queue.empty()) throw fake::starved{};
        if (fake::queue.front()) break;
        fake::queue.pop_front();
        if (fake::on_idle) fake::on_idle();
        if (!waits) return nil; // a window would otherwise have to wait for its update
    }
    NSEvent* e = [[[NSEvent alloc] init] autorelease];
    e->fake_type = NSEventTypeAppKitDefined;
    if (dequeue) {
        e->fake_action = new std::function<void()>(std::move(fake::queue.front()));
        fake::queue.pop_front();
        taken = e;
    }
    return e;
}
- (void) sendEvent: (NSEvent*) event
{
    if (event == nil || !usable(event)) return;
    if (event == taken) taken = nil;
    if (event->fake_action) {
        std::function<void()> f = std::move(*static_cast<std::function<void()>*>(event->fake_action));
        delete static_cast<std::function<void()>*>(event->fake_action);
        event->fake_action = nullptr;
        if (f) f();
        return;
    }
    [event->fake_window sendEvent: event];
}
- (void) updateWindows {}
@end

// ------------------------------------------------------------------------ fake

namespace fake {

bool
exists (
    real_window* w
) {
    return std::find(toplevels.begin(), toplevels.end(), w) != toplevels.end();
}

void
key (
    real_window* w,
    bool down,
    unsigned code
) {
    if (!w->alive) { problem("a key was pressed in a window that is gone"); return; }
    NSEvent* e = [[[NSEvent alloc] init] autorelease];
    e->fake_type = down ? NSEventTypeKeyDown : NSEventTypeKeyUp;
    e->fake_window = static_cast<NSWindow*>(w->object);
    e->fake_code = static_cast<unsigned short>(code);
    [NSApp sendEvent: e];
}

void
resize (
    real_window* w,
    int width,
    int height
) {
    if (!w->alive) return;
    w->width = width;
    w->height = height;
    NSWindow* o = static_cast<NSWindow*>(w->object);
    if (id d = delegate_for(o->fake_delegate, @selector(windowDidResize:))) [d windowDidResize: about(o)];
}

void
request_close (
    real_window* w
) {
    [static_cast<NSWindow*>(w->object) performClose: nil];
}

void
reset () {
    if (!NSDefaultRunLoopMode) {
        [NSApplication sharedApplication];
        NSDefaultRunLoopMode = [[NSString alloc] initWithUTF8String: "default"];
        objects.pop_back();
        NSEventTrackingRunLoopMode = [[NSString alloc] initWithUTF8String: "tracking"];
        objects.pop_back();
    }
    pool.clear();
    taken = nil;
    for (NSObject* o : objects) {
        if ([o isKindOfClass: [NSString class]]) delete static_cast<std::string*>(static_cast<NSString*>(o)->fake_text);
        if ([o isKindOfClass: [NSEvent class]]) delete static_cast<std::function<void()>*>(static_cast<NSEvent*>(o)->fake_action);
        object_dispose(o);
    }
    objects.clear();
    for (auto* r : windows) delete r;
    windows.clear();
    toplevels.clear();
    NSApp->fake_delegate = nil;
    queue.clear();
    on_poll = {};
    on_idle = {};
    criticals = 0;
    now_ns = 0;
    win::problem.clear();
}

} // namespace fake
