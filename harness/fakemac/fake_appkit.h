// A stand-in for the part of AppKit that the library's macOS back end may
// use, behaving as Apple documents it, over the Objective-C runtime of gcc.
#pragma once
#include <algorithm>
#include <cstdint>
#include <objc/objc.h>
#include <objc/runtime.h>

typedef long NSInteger;
typedef unsigned long NSUInteger;
typedef double CGFloat;
typedef double NSTimeInterval;
typedef struct { CGFloat x, y; } NSPoint;
typedef struct { CGFloat width, height; } NSSize;
typedef struct { NSPoint origin; NSSize size; } NSRect;
typedef NSPoint CGPoint;
typedef NSSize CGSize;
typedef NSRect CGRect;
#define NSUIntegerMax (~0UL)
#define NSIntegerMax (static_cast<NSInteger>(~0UL >> 1))

static inline NSPoint NSMakePoint (CGFloat x, CGFloat y) { return NSPoint{x, y}; }
static inline NSSize NSMakeSize (CGFloat w, CGFloat h) { return NSSize{w, h}; }
static inline NSRect NSMakeRect (CGFloat x, CGFloat y, CGFloat w, CGFloat h) { return NSRect{{x, y}, {w, h}}; }

@class NSString, NSNotification, NSEvent, NSWindow, NSApplication, NSDate;

@protocol NSObject
@end

__attribute__((objc_root_class))
@interface NSObject<NSObject>
{
    Class isa;
@public
    NSInteger fake_count;   // of references
    BOOL fake_dead;
}
+ (id) alloc;
+ (id) new;
+ (Class) class;
- (id) init;
- (id) retain;
- (void) release;
- (id) autorelease;
- (NSUInteger) retainCount;
- (void) dealloc;
- (Class) class;
- (BOOL) respondsToSelector: (SEL) selector;
- (BOOL) isKindOfClass: (Class) c;
- (BOOL) isEqual: (id) other;
@end

@interface NSAutoreleasePool : NSObject
- (void) drain;
@end

@interface NSString : NSObject
{
@public
    void* fake_text;
}
+ (id) string;
+ (id) stringWithUTF8String: (const char*) text;
- (id) initWithUTF8String: (const char*) text;
- (const char*) UTF8String;
- (NSUInteger) length;
- (BOOL) isEqualToString: (NSString*) other;
@end

@interface NSDate : NSObject
{
@public
    int fake_when;   // -1 the past, 0 now, 1 the future
}
+ (NSDate*) distantPast;
+ (NSDate*) distantFuture;
+ (NSDate*) date;
+ (NSDate*) dateWithTimeIntervalSinceNow: (NSTimeInterval) seconds;
@end

@interface NSNotification : NSObject
{
@public
    id fake_object;
}
- (id) object;
@end

typedef NSString* NSRunLoopMode;
extern NSRunLoopMode NSDefaultRunLoopMode;
extern NSRunLoopMode NSEventTrackingRunLoopMode;

// ---------------------------------------------------------------------- events

typedef enum : NSUInteger {
    NSEventTypeLeftMouseDown = 1, NSEventTypeKeyDown = 10, NSEventTypeKeyUp = 11, NSEventTypeFlagsChanged = 12,
    NSEventTypeAppKitDefined = 13, NSEventTypeApplicationDefined = 15,
} NSEventType;
typedef unsigned long long NSEventMask;
static const NSEventMask NSEventMaskAny = NSUIntegerMax;
static const NSEventMask NSAnyEventMask = NSUIntegerMax;
static const NSEventMask NSEventMaskKeyDown = 1ULL << NSEventTypeKeyDown;
static const NSEventMask NSEventMaskKeyUp = 1ULL << NSEventTypeKeyUp;

@interface NSEvent : NSObject
{
@public
    NSEventType fake_type;
    NSWindow* fake_window;
    unsigned short fake_code;
    void* fake_action;
}
- (NSEventType) type;
- (unsigned short) keyCode;
- (NSWindow*) window;
- (BOOL) isARepeat;
- (NSUInteger) modifierFlags;
@end

// --------------------------------------------------------------------- windows

typedef enum : NSUInteger {
    NSWindowStyleMaskBorderless = 0, NSWindowStyleMaskTitled = 1, NSWindowStyleMaskClosable = 2,
    NSWindowStyleMaskMiniaturizable = 4, NSWindowStyleMaskResizable = 8,
} NSWindowStyleMaskBits;
typedef NSUInteger NSWindowStyleMask;
typedef enum : NSUInteger { NSBackingStoreRetained = 0, NSBackingStoreNonretained = 1, NSBackingStoreBuffered = 2 } NSBackingStoreType;

@protocol NSWindowDelegate<NSObject>
@optional
- (void) windowDidResize: (NSNotification*) notification;
- (BOOL) windowShouldClose: (NSWindow*) sender;
- (void) windowWillClose: (NSNotification*) notification;
@end

@interface NSResponder : NSObject
- (void) keyDown: (NSEvent*) event;
- (void) keyUp: (NSEvent*) event;
- (void) flagsChanged: (NSEvent*) event;
@end

@interface NSWindow : NSResponder
{
@public
    void* fake_real;
    id fake_delegate;
    BOOL fake_released_when_closed;
    NSWindowStyleMask fake_style;
}
- (id) initWithContentRect: (NSRect) rectangle styleMask: (NSWindowStyleMask) style backing: (NSBackingStoreType) backing defer: (BOOL) later;
- (void) setDelegate: (id) delegate;
- (id) delegate;
- (void) setTitle: (NSString*) title;
- (NSString*) title;
- (NSWindowStyleMask) styleMask;
- (NSRect) frame;
- (void) center;
- (void) zoom: (id) sender;
- (void) miniaturize: (id) sender;
- (void) deminiaturize: (id) sender;
- (BOOL) isZoomed;
- (BOOL) isMiniaturized;
- (BOOL) isVisible;
- (void) makeKeyAndOrderFront: (id) sender;
- (void) orderFront: (id) sender;
- (void) orderFrontRegardless;
- (void) orderOut: (id) sender;
- (void) makeKeyWindow;
- (void) performClose: (id) sender;
- (void) close;
- (void) setReleasedWhenClosed: (BOOL) released;
- (BOOL) isReleasedWhenClosed;
- (void) sendEvent: (NSEvent*) event;
@end

// ----------------------------------------------------------------- application

typedef enum : NSInteger {
    NSApplicationActivationPolicyRegular, NSApplicationActivationPolicyAccessory, NSApplicationActivationPolicyProhibited,
} NSApplicationActivationPolicy;

@protocol NSApplicationDelegate<NSObject>
@optional
- (void) applicationWillFinishLaunching: (NSNotification*) notification;
- (void) applicationDidFinishLaunching: (NSNotification*) notification;
- (BOOL) applicationShouldTerminateAfterLastWindowClosed: (NSApplication*) sender;
@end

@interface NSApplication : NSResponder
{
@public
    id fake_delegate;
}
+ (NSApplication*) sharedApplication;
- (void) setDelegate: (id) delegate;
- (id) delegate;
- (void) finishLaunching;
- (BOOL) setActivationPolicy: (NSApplicationActivationPolicy) policy;
- (void) activateIgnoringOtherApps: (BOOL) ignoring;
- (NSEvent*) nextEventMatchingMask: (NSEventMask) mask untilDate: (NSDate*) date inMode: (NSRunLoopMode) mode dequeue: (BOOL) dequeue;
- (void) sendEvent: (NSEvent*) event;
- (void) updateWindows;
@end

extern NSApplication* NSApp;
