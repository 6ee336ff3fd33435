// A stand-in for the part of the Windows API that the library's Windows back
// end may use, behaving as Microsoft documents it: file handles over files of
// this system, a console with scripted input, and windows with a scripted
// message queue. win:: is the other side of it: what a user does, and what
// was asked of the system.
#pragma once
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <deque>
#include <filesystem>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

// ---------------------------------------------------------------------- types

#define WINAPI
#define CALLBACK
#define APIENTRY
#define VOID void
#ifndef NULL
#define NULL 0
#endif
#ifndef TRUE
#define TRUE 1
#define FALSE 0
#endif

typedef int BOOL;
typedef unsigned char BYTE;
typedef unsigned short WORD;
typedef std::uint32_t DWORD;
typedef std::int32_t LONG;
typedef std::uint32_t ULONG;
typedef unsigned int UINT;
typedef int INT;
typedef std::int64_t LONGLONG;
typedef std::uint64_t ULONGLONG;
typedef std::int32_t HRESULT;
typedef std::intptr_t INT_PTR, LONG_PTR;
typedef std::uintptr_t UINT_PTR, ULONG_PTR, DWORD_PTR;
typedef std::size_t SIZE_T;
typedef void *HANDLE, *LPVOID, *PVOID;
typedef const void* LPCVOID;
typedef DWORD *LPDWORD, *PDWORD;
typedef char16_t WCHAR; // what the console reads: wchar_t has two bytes there
typedef wchar_t* LPWSTR;
typedef const wchar_t *LPCWSTR, *PCWSTR;
typedef char* LPSTR;
typedef const char* LPCSTR;
typedef UINT_PTR WPARAM;
typedef LONG_PTR LPARAM, LRESULT;
typedef WORD ATOM;

union LARGE_INTEGER {
    struct { DWORD LowPart; LONG HighPart; };
    struct { DWORD LowPart; LONG HighPart; } u;
    LONGLONG QuadPart;
};
typedef LARGE_INTEGER* PLARGE_INTEGER;
struct SECURITY_ATTRIBUTES { DWORD nLength; LPVOID lpSecurityDescriptor; BOOL bInheritHandle; };
typedef SECURITY_ATTRIBUTES* LPSECURITY_ATTRIBUTES;
struct OVERLAPPED;
typedef OVERLAPPED* LPOVERLAPPED;

#define INVALID_HANDLE_VALUE ((HANDLE)(LONG_PTR)-1)
#define GENERIC_READ 0x80000000u
#define GENERIC_WRITE 0x40000000u
#define FILE_SHARE_READ 1u
#define FILE_SHARE_WRITE 2u
#define FILE_SHARE_DELETE 4u
#define CREATE_NEW 1u
#define CREATE_ALWAYS 2u
#define OPEN_EXISTING 3u
#define OPEN_ALWAYS 4u
#define TRUNCATE_EXISTING 5u
#define FILE_ATTRIBUTE_NORMAL 0x80u
#define FILE_BEGIN 0u
#define FILE_CURRENT 1u
#define FILE_END 2u
#define INVALID_SET_FILE_POINTER ((DWORD)-1)
#define INVALID_FILE_SIZE ((DWORD)-1)
#define STD_INPUT_HANDLE ((DWORD)-10)
#define STD_OUTPUT_HANDLE ((DWORD)-11)
#define STD_ERROR_HANDLE ((DWORD)-12)
#define CP_UTF8 65001u
#define ERROR_SUCCESS 0u
#define NO_ERROR 0u
#define ERROR_FILE_NOT_FOUND 2u
#define ERROR_ACCESS_DENIED 5u
#define ERROR_INVALID_HANDLE 6u
#define ERROR_DISK_FULL 112u
#define ERROR_NEGATIVE_SEEK 131u
#define ERROR_INVALID_PARAMETER 87u
#define ERROR_READ_FAULT 30u
#define ERROR_ALREADY_EXISTS 183u
#define ERROR_INVALID_WINDOW_HANDLE 1400u
#define ERROR_CLASS_ALREADY_EXISTS 1410u

namespace win {

inline DWORD last_error = 0;
inline std::string problem; // the first thing a correct program never does

inline BOOL
refuse (
    DWORD error
) {
    last_error = error;
    return FALSE;
}

inline void
complain (
    const char* what
) {
    if (problem.empty()) problem = what;
}

// ------------------------------------------------------------- file handles

struct kernel_object {
    int fd;
    bool reads, writes;
};

inline std::map<HANDLE, kernel_object> handles;
inline std::uintptr_t next_handle = 0x1000; // never used twice

// Transfers of whole address ranges are only noted.
struct transfer {
    const void* data;
    DWORD count;
};
inline std::vector<transfer>* noted = nullptr;

inline kernel_object*
object_of (
    HANDLE h
) {
    auto i = handles.find(h);
    if (i != handles.end()) return &i->second;
    if (h != INVALID_HANDLE_VALUE && h != nullptr) complain("a handle that isn't open was used");
    last_error = ERROR_INVALID_HANDLE;
    return nullptr;
}

// --------------------------------------------------------------- the console

struct console_state {
    std::u16string in;
    std::size_t in_at = 0;
    bool redirected = false; // not a console: ReadConsoleW fails
    std::function<void(std::size_t)> on_read; // input of so many units is asked for
    std::function<DWORD(int, const void*, DWORD)> on_write; // takes output, returns how much of it
};
inline console_state* console = nullptr;
inline UINT code_page = 437; // of what is written
inline const HANDLE standard[3] = {(HANDLE)0x51, (HANDLE)0x55, (HANDLE)0x59};

inline int
standard_index (
    HANDLE h
) {
    for (int i = 0; i < 3; ++i) if (h == standard[i]) return i;
    return -1;
}

} // namespace win

// ---------------------------------------------------------------------- files

inline DWORD GetLastError () { return win::last_error; }
inline void SetLastError (DWORD e) { win::last_error = e; }

inline HANDLE
CreateFileW (
    LPCWSTR name,
    DWORD access,
    DWORD share,
    LPSECURITY_ATTRIBUTES,
    DWORD disposition,
    DWORD,
    HANDLE
) {
    const bool reads = access & GENERIC_READ, writes = access & GENERIC_WRITE;
    int flags = (reads && writes ? O_RDWR : writes ? O_WRONLY : O_RDONLY) | O_CLOEXEC;
    switch (disposition) {
    case CREATE_NEW: flags |= O_CREAT | O_EXCL; break;
    case CREATE_ALWAYS: flags |= O_CREAT | O_TRUNC; break;
    case OPEN_EXISTING: break;
    case OPEN_ALWAYS: flags |= O_CREAT; break;
    case TRUNCATE_EXISTING: flags |= O_TRUNC; break;
    default: win::refuse(ERROR_INVALID_PARAMETER); return INVALID_HANDLE_VALUE;
    }
    const std::string path = std::filesystem::path(std::wstring(name)).string();
    struct stat st;
    if (path.empty() || (::stat(path.c_str(), &st) == 0 && S_ISDIR(st.st_mode))) { win::refuse(ERROR_ACCESS_DENIED); return INVALID_HANDLE_VALUE; }
    int fd = ::open(path.c_str(), flags, 0666);
    if (fd == -1) { win::refuse(errno == EEXIST ? ERROR_ALREADY_EXISTS : errno == EACCES ? ERROR_ACCESS_DENIED : ERROR_FILE_NOT_FOUND); return INVALID_HANDLE_VALUE; }
    HANDLE h = (HANDLE)(win::next_handle += 4);
    win::handles[h] = {fd, reads, writes};
    win::last_error = 0;
    return h;
}

inline BOOL
CloseHandle (
    HANDLE h
) {
    if (h == INVALID_HANDLE_VALUE) return TRUE; // the pseudo handle of the process
    if (h == nullptr) return win::refuse(ERROR_INVALID_HANDLE);
    auto* o = win::object_of(h);
    if (!o) return FALSE;
    ::close(o->fd);
    win::handles.erase(h);
    return TRUE;
}

inline BOOL
ReadFile (
    HANDLE h,
    LPVOID data,
    DWORD n,
    LPDWORD done,
    LPOVERLAPPED
) {
    if (done) *done = 0;
    if (win::noted) { win::noted->push_back({data, n}); *done = n; return TRUE; }
    if (int i = win::standard_index(h); i == 0 && win::console) return win::refuse(ERROR_INVALID_HANDLE);
    auto* o = win::object_of(h);
    if (!o) return FALSE;
    if (!o->reads) return win::refuse(ERROR_ACCESS_DENIED);
    for (;;) {
        ssize_t r = ::read(o->fd, data, n);
        if (r == -1 && errno == EINTR) continue;
        if (r == -1) return win::refuse(ERROR_READ_FAULT);
        *done = r;
        return TRUE;
    }
}

inline BOOL
WriteFile (
    HANDLE h,
    LPCVOID data,
    DWORD n,
    LPDWORD done,
    LPOVERLAPPED
) {
    if (done) *done = 0;
    if (win::noted) { win::noted->push_back({data, n}); *done = n; return TRUE; }
    if (int i = win::standard_index(h); i > 0 && win::console) {
        if (win::code_page != CP_UTF8) win::complain("the console was written to before it takes UTF-8");
        n = win::console->on_write(i, data, n);
        if (n == ~DWORD(0)) return win::refuse(ERROR_DISK_FULL);
        *done = n;
        return TRUE;
    }
    auto* o = win::object_of(h);
    if (!o) return FALSE;
    if (!o->writes) return win::refuse(ERROR_ACCESS_DENIED);
    // A synchronous write to a file is complete when it returns, or has failed.
    while (*done < n) {
        ssize_t r = ::write(o->fd, static_cast<const char*>(data) + *done, n - *done);
        if (r == -1 && errno == EINTR) continue;
        if (r <= 0) return win::refuse(ERROR_DISK_FULL);
        *done += r;
    }
    return TRUE;
}

inline BOOL
SetFilePointerEx (
    HANDLE h,
    LARGE_INTEGER distance,
    PLARGE_INTEGER result,
    DWORD method
) {
    auto* o = win::object_of(h);
    if (!o) return FALSE;
    off_t r = ::lseek(o->fd, distance.QuadPart, method == FILE_BEGIN ? SEEK_SET : method == FILE_CURRENT ? SEEK_CUR : SEEK_END);
    if (r == -1) return win::refuse(distance.QuadPart < 0 ? ERROR_NEGATIVE_SEEK : ERROR_INVALID_PARAMETER); // the position stays
    if (result) result->QuadPart = r;
    return TRUE;
}

inline DWORD
SetFilePointer (
    HANDLE h,
    LONG distance,
    LONG* high,
    DWORD method
) {
    LARGE_INTEGER d, r;
    d.QuadPart = distance;
    if (high) { d.LowPart = distance; d.HighPart = *high; }
    if (!SetFilePointerEx(h, d, &r, method)) return INVALID_SET_FILE_POINTER;
    if (high) *high = r.HighPart;
    win::last_error = NO_ERROR;
    return r.LowPart;
}

inline BOOL
GetFileSizeEx (
    HANDLE h,
    PLARGE_INTEGER size
) {
    auto* o = win::object_of(h);
    if (!o) return FALSE;
    struct stat st;
    if (::fstat(o->fd, &st) == -1) return win::refuse(ERROR_INVALID_HANDLE);
    size->QuadPart = st.st_size;
    return TRUE;
}

inline DWORD
GetFileSize (
    HANDLE h,
    LPDWORD high
) {
    LARGE_INTEGER s;
    if (!GetFileSizeEx(h, &s)) return INVALID_FILE_SIZE;
    if (high) *high = s.HighPart;
    win::last_error = NO_ERROR;
    return s.LowPart;
}

inline BOOL FlushFileBuffers (HANDLE h) { return win::object_of(h) ? TRUE : FALSE; }

inline BOOL
SetEndOfFile (
    HANDLE h
) {
    auto* o = win::object_of(h);
    if (!o) return FALSE;
    return ::ftruncate(o->fd, ::lseek(o->fd, 0, SEEK_CUR)) == 0;
}

// -------------------------------------------------------------------- console

inline HANDLE
GetStdHandle (
    DWORD which
) {
    switch (which) {
    case STD_INPUT_HANDLE: return win::standard[0];
    case STD_OUTPUT_HANDLE: return win::standard[1];
    case STD_ERROR_HANDLE: return win::standard[2];
    default: win::refuse(ERROR_INVALID_HANDLE); return INVALID_HANDLE_VALUE;
    }
}

inline BOOL
SetConsoleOutputCP (
    UINT page
) {
    win::code_page = page;
    return TRUE;
}
inline UINT GetConsoleOutputCP () { return win::code_page; }
inline BOOL SetConsoleCP (UINT) { return TRUE; }

inline BOOL
GetConsoleMode (
    HANDLE h,
    LPDWORD mode
) {
    if (win::standard_index(h) == -1 || (win::console && win::console->redirected)) return win::refuse(ERROR_INVALID_HANDLE);
    *mode = 7;
    return TRUE;
}

// Line by line: what the user typed up to and including the end of the line,
// as much of it as there is room for.
inline BOOL
ReadConsoleW (
    HANDLE h,
    LPVOID data,
    DWORD n,
    LPDWORD done,
    LPVOID
) {
    if (win::standard_index(h) != 0 || !win::console) { win::complain("something that isn't the console was read"); return win::refuse(ERROR_INVALID_HANDLE); }
    auto& c = *win::console;
    if (c.on_read) c.on_read(n);
    if (c.redirected) return win::refuse(ERROR_INVALID_HANDLE); // and *done stays as it was
    std::size_t k = 0;
    while (k < n && c.in_at < c.in.size()) {
        char16_t u = c.in[c.in_at++];
        std::memcpy(static_cast<char*>(data) + 2 * k++, &u, 2);
        if (u == u'\n') break;
    }
    *done = k;
    return TRUE;
}

// -------------------------------------------------------------------- windows

#define WM_NULL 0x0000u
#define WM_CREATE 0x0001u
#define WM_DESTROY 0x0002u
#define WM_SIZE 0x0005u
#define WM_CLOSE 0x0010u
#define WM_QUIT 0x0012u
#define WM_SHOWWINDOW 0x0018u
#define WM_NCCREATE 0x0081u
#define WM_NCDESTROY 0x0082u
#define WM_KEYFIRST 0x0100u
#define WM_KEYDOWN 0x0100u
#define WM_KEYUP 0x0101u
#define WM_CHAR 0x0102u
#define WM_SYSKEYDOWN 0x0104u
#define WM_SYSKEYUP 0x0105u
#define WM_SYSCOMMAND 0x0112u
#define WM_USER 0x0400u
#define WM_APP 0x8000u
#define SIZE_RESTORED 0
#define SIZE_MINIMIZED 1
#define SIZE_MAXIMIZED 2
#define SW_HIDE 0
#define SW_SHOWNORMAL 1
#define SW_NORMAL 1
#define SW_SHOWMINIMIZED 2
#define SW_SHOWMAXIMIZED 3
#define SW_MAXIMIZE 3
#define SW_SHOWNOACTIVATE 4
#define SW_SHOW 5
#define SW_MINIMIZE 6
#define SW_RESTORE 9
#define SW_SHOWDEFAULT 10
#define WS_OVERLAPPEDWINDOW 0x00CF0000u
#define WS_VISIBLE 0x10000000u
#define CW_USEDEFAULT ((int)0x80000000)
#define CS_VREDRAW 1u
#define CS_HREDRAW 2u
#define SM_CXSCREEN 0
#define SM_CYSCREEN 1
#define PM_NOREMOVE 0u
#define PM_REMOVE 1u
#define WHITE_BRUSH 0
#define COLOR_WINDOW 5
#define IDI_APPLICATION ((LPWSTR)32512)
#define IDC_ARROW ((LPWSTR)32512)
#define GWLP_USERDATA (-21)
#define VK_SPACE 0x20
#define VK_MENU 0x12
#define VK_NUMPAD0 0x60
#define VK_NUMPAD1 0x61
#define VK_NUMPAD2 0x62
#define VK_NUMPAD3 0x63
#define VK_NUMPAD4 0x64
#define VK_NUMPAD5 0x65
#define VK_NUMPAD6 0x66
#define VK_NUMPAD7 0x67
#define VK_NUMPAD8 0x68
#define VK_NUMPAD9 0x69
#define VK_F1 0x70
#define VK_F2 0x71
#define VK_F3 0x72
#define VK_F4 0x73
#define VK_F5 0x74
#define VK_F6 0x75
#define VK_F7 0x76
#define VK_F8 0x77
#define VK_F9 0x78
#define VK_F10 0x79
#define VK_F11 0x7A
#define VK_F12 0x7B
#define VK_F13 0x7C
#define VK_F14 0x7D
#define VK_F15 0x7E
#define VK_F16 0x7F
#define VK_F17 0x80
#define VK_F18 0x81
#define VK_F19 0x82
#define VK_F20 0x83
#define VK_F21 0x84
#define VK_F22 0x85
#define VK_F23 0x86
#define VK_F24 0x87
#define ZeroMemory(p, n) std::memset((p), 0, (n))
#define LOWORD(l) ((WORD)((DWORD_PTR)(l) & 0xFFFF))
#define HIWORD(l) ((WORD)(((DWORD_PTR)(l) >> 16) & 0xFFFF))
#define MAKELPARAM(l, h) ((LPARAM)(DWORD)(((WORD)(l)) | ((DWORD)((WORD)(h))) << 16))

struct HWND__;
typedef HWND__* HWND;
struct HINSTANCE__;
typedef HINSTANCE__ *HINSTANCE, *HMODULE;
typedef void *HICON, *HCURSOR, *HBRUSH, *HGDIOBJ, *HMENU;
typedef LRESULT (CALLBACK* WNDPROC)(HWND, UINT, WPARAM, LPARAM);
struct POINT { LONG x, y; };
struct RECT { LONG left, top, right, bottom; };
typedef RECT* LPRECT;
struct MSG { HWND hwnd; UINT message; WPARAM wParam; LPARAM lParam; DWORD time; POINT pt; };
typedef MSG* LPMSG;
struct CREATESTRUCTW { LPVOID lpCreateParams; };
struct WNDCLASSW { UINT style; WNDPROC lpfnWndProc; int cbClsExtra, cbWndExtra; HINSTANCE hInstance; HICON hIcon; HCURSOR hCursor; HBRUSH hbrBackground; LPCWSTR lpszMenuName, lpszClassName; };
struct WNDCLASSEXW { UINT cbSize; UINT style; WNDPROC lpfnWndProc; int cbClsExtra, cbWndExtra; HINSTANCE hInstance; HICON hIcon; HCURSOR hCursor; HBRUSH hbrBackground; LPCWSTR lpszMenuName, lpszClassName; HICON hIconSm; };

// The same names as in fakegtk/fake_gtk.hpp, where they mean the same.
namespace fake {

struct real_window {
    WNDPROC procedure = nullptr;
    std::string title;          // as UTF-8
    std::wstring text;
    int width = -1, height = -1; // without the frame
    bool visible = false, realized = false, maximized = false, minimized = false;
    bool destroying = false;
    LONG_PTR user_data = 0;
};

typedef real_window* window_pointer;

inline std::vector<real_window*> toplevels;
inline std::vector<void*> applications;
inline std::map<std::wstring, WNDPROC> classes;
inline unsigned criticals = 0;
inline long long now_ns = 0;
inline std::deque<std::function<void()>> queue;
struct starved {};
inline std::function<void()> on_poll, on_idle;
inline std::function<void()> current; // taken from the queue, not yet dispatched
constexpr int frame_width = 16, frame_height = 39;

inline bool exists (const void* w) { return std::find(toplevels.begin(), toplevels.end(), w) != toplevels.end(); }

inline real_window*
valid (
    HWND h
) {
    if (exists(h)) return reinterpret_cast<real_window*>(h);
    ++criticals;
    win::last_error = ERROR_INVALID_WINDOW_HANDLE;
    return nullptr;
}

inline LRESULT
send (
    real_window* w,
    UINT message,
    WPARAM a = 0,
    LPARAM b = 0
) {
    return w->procedure(reinterpret_cast<HWND>(w), message, a, b);
}

inline std::string
utf8 (
    const std::wstring& s
) {
    std::string r;
    for (std::size_t i = 0; i < s.size(); ++i) {
        std::uint32_t c = s[i];
        if (sizeof(wchar_t) == 2 && c >= 0xD800 && c < 0xDC00 && i + 1 < s.size()) c = 0x10000 + ((c - 0xD800) << 10) + (s[++i] - 0xDC00);
        if (c < 0x80) r += char(c);
        else if (c < 0x800) { r += char(0xC0 | c >> 6); r += char(0x80 | (c & 63)); }
        else if (c < 0x10000) { r += char(0xE0 | c >> 12); r += char(0x80 | (c >> 6 & 63)); r += char(0x80 | (c & 63)); }
        else { r += char(0xF0 | c >> 18); r += char(0x80 | (c >> 12 & 63)); r += char(0x80 | (c >> 6 & 63)); r += char(0x80 | (c & 63)); }
    }
    return r;
}

// ---- what a user does

// F10 is a system key, as is every key while Alt is held.
inline void
key (
    real_window* w,
    bool down,
    unsigned code
) {
    const bool system = code == VK_F10;
    send(w, down ? system ? WM_SYSKEYDOWN : WM_KEYDOWN : system ? WM_SYSKEYUP : WM_KEYUP, code, down ? 1 : LPARAM(0xC0000001u));
}

inline void
resize (
    real_window* w,
    int width,
    int height
) {
    w->width = width;
    w->height = height;
    send(w, WM_SIZE, SIZE_RESTORED, MAKELPARAM(width, height));
}

inline void request_close (real_window* w) { send(w, WM_CLOSE); }

} // namespace fake

inline BOOL
DestroyWindow (
    HWND h
) {
    auto* w = fake::valid(h);
    if (!w || w->destroying) return FALSE;
    w->destroying = true;
    w->visible = false;
    fake::send(w, WM_DESTROY);
    fake::send(w, WM_NCDESTROY);
    fake::toplevels.erase(std::find(fake::toplevels.begin(), fake::toplevels.end(), w));
    delete w;
    return TRUE;
}

namespace fake {

inline void
reset ()
{
    while (!toplevels.empty()) { toplevels.back()->procedure = [] (HWND, UINT, WPARAM, LPARAM) -> LRESULT { return 0; }; DestroyWindow(reinterpret_cast<HWND>(toplevels.back())); }
    classes.clear();
    queue.clear();
    current = {};
    on_poll = {};
    on_idle = {};
    criticals = 0;
    now_ns = 0;
    win::problem.clear();
}

} // namespace fake

inline HMODULE GetModuleHandleW (LPCWSTR) { return reinterpret_cast<HMODULE>(0x400000); }
inline LPWSTR GetCommandLineW () { static wchar_t line[] = L"program"; return line; }
inline HICON LoadIconW (HINSTANCE, LPCWSTR) { return (HICON)1; }
inline HCURSOR LoadCursorW (HINSTANCE, LPCWSTR) { return (HCURSOR)1; }
#define LoadIcon LoadIconW
#define LoadCursor LoadCursorW
inline HGDIOBJ GetStockObject (int) { return (HGDIOBJ)1; }
inline int GetSystemMetrics (int what) { return what == SM_CXSCREEN ? 1920 : what == SM_CYSCREEN ? 1080 : 0; }

inline ATOM
RegisterClassW (
    const WNDCLASSW* c
) {
    if (fake::classes.count(c->lpszClassName)) { win::refuse(ERROR_CLASS_ALREADY_EXISTS); return 0; }
    fake::classes[c->lpszClassName] = c->lpfnWndProc;
    return 0xC001;
}
inline ATOM RegisterClassExW (const WNDCLASSEXW* c) {
    WNDCLASSW d{};
    d.lpfnWndProc = c->lpfnWndProc;
    d.lpszClassName = c->lpszClassName;
    return RegisterClassW(&d);
}
inline BOOL UnregisterClassW (LPCWSTR name, HINSTANCE) { return fake::classes.erase(name) ? TRUE : FALSE; }

inline BOOL
AdjustWindowRectEx (
    LPRECT r,
    DWORD,
    BOOL,
    DWORD
) {
    r->left -= fake::frame_width / 2;
    r->right += fake::frame_width / 2;
    r->top -= fake::frame_height - fake::frame_width / 2;
    r->bottom += fake::frame_width / 2;
    return TRUE;
}
inline BOOL AdjustWindowRect (LPRECT r, DWORD style, BOOL menu) { return AdjustWindowRectEx(r, style, menu, 0); }

inline LRESULT
DefWindowProcW (
    HWND h,
    UINT message,
    WPARAM,
    LPARAM
) {
    switch (message) {
    case WM_CLOSE: DestroyWindow(h); return 0;
    case WM_NCCREATE: return TRUE;
    default: return 0;
    }
}

inline BOOL
ShowWindow (
    HWND h,
    int how
) {
    auto* w = fake::valid(h);
    if (!w) return FALSE;
    const bool was = w->visible;
    switch (how) {
    case SW_HIDE: w->visible = false; return was;
    case SW_SHOWMAXIMIZED: w->maximized = true; w->minimized = false; break;
    case SW_SHOWMINIMIZED: case SW_MINIMIZE: w->minimized = true; break;
    case SW_SHOWNORMAL: case SW_RESTORE: w->maximized = w->minimized = false; break;
    default: break;
    }
    w->visible = true;
    if (!w->realized) {
        w->realized = true;
        fake::send(w, WM_SHOWWINDOW, TRUE);
        fake::send(w, WM_SIZE, w->maximized ? SIZE_MAXIMIZED : w->minimized ? SIZE_MINIMIZED : SIZE_RESTORED, MAKELPARAM(w->width, w->height));
    }
    return was;
}
inline BOOL UpdateWindow (HWND h) { return fake::valid(h) ? TRUE : FALSE; }
inline BOOL IsWindow (HWND h) { return fake::exists(h); }
inline BOOL IsWindowVisible (HWND h) { return fake::exists(h) && reinterpret_cast<fake::real_window*>(h)->visible; }
inline BOOL IsZoomed (HWND h) { auto* w = fake::valid(h); return w && w->maximized; }
inline BOOL IsIconic (HWND h) { auto* w = fake::valid(h); return w && w->minimized; }
inline BOOL CloseWindow (HWND h) { return ShowWindow(h, SW_MINIMIZE); }

namespace fake { inline bool fail_create = false; } // the next window cannot be made

inline HWND
CreateWindowExW (
    DWORD,
    LPCWSTR class_name,
    LPCWSTR title,
    DWORD style,
    int,
    int,
    int width,
    int height,
    HWND,
    HMENU,
    HINSTANCE,
    LPVOID parameter
) {
    auto c = fake::classes.find(class_name);
    if (c == fake::classes.end()) { ++fake::criticals; return nullptr; }
    if (fake::fail_create) { fake::fail_create = false; return nullptr; }
    auto* w = new fake::real_window;
    w->procedure = c->second;
    w->text = title ? title : L"";
    w->title = fake::utf8(w->text);
    w->width = width - fake::frame_width;
    w->height = height - fake::frame_height;
    fake::toplevels.push_back(w);
    CREATESTRUCTW cs{parameter};
    fake::send(w, WM_NCCREATE, 0, reinterpret_cast<LPARAM>(&cs));
    fake::send(w, WM_CREATE, 0, reinterpret_cast<LPARAM>(&cs));
    if (style & WS_VISIBLE) ShowWindow(reinterpret_cast<HWND>(w), SW_SHOWNORMAL);
    return reinterpret_cast<HWND>(w);
}
#define CreateWindowW(c, t, s, x, y, w, h, p, m, i, l) CreateWindowExW(0, c, t, s, x, y, w, h, (HWND)(p), (HMENU)(m), i, (LPVOID)(l))

inline BOOL
SetWindowTextW (
    HWND h,
    LPCWSTR title
) {
    auto* w = fake::valid(h);
    if (!w) return FALSE;
    w->text = title;
    w->title = fake::utf8(w->text);
    return TRUE;
}
inline int GetWindowTextLengthW (HWND h) { auto* w = fake::valid(h); return w ? int(w->text.size()) : 0; }
inline int
GetWindowTextW (
    HWND h,
    LPWSTR text,
    int room
) {
    auto* w = fake::valid(h);
    if (!w || room <= 0) return 0;
    int n = std::min<int>(w->text.size(), room - 1);
    std::copy_n(w->text.data(), n, text);
    text[n] = L'\0';
    return n;
}
inline LONG_PTR SetWindowLongPtrW (HWND h, int, LONG_PTR v) { auto* w = fake::valid(h); if (!w) return 0; std::swap(w->user_data, v); return v; }
inline LONG_PTR GetWindowLongPtrW (HWND h, int) { auto* w = fake::valid(h); return w ? w->user_data : 0; }
inline LRESULT SendMessageW (HWND h, UINT m, WPARAM a, LPARAM b) { auto* w = fake::valid(h); return w ? fake::send(w, m, a, b) : 0; }
inline BOOL
PostMessageW (
    HWND h,
    UINT m,
    WPARAM a,
    LPARAM b
) {
    auto* w = fake::valid(h);
    if (!w) return FALSE;
    fake::queue.push_front([=] { if (fake::exists(w)) fake::send(w, m, a, b); });
    return TRUE;
}
inline BOOL
GetClientRect (
    HWND h,
    LPRECT r
) {
    auto* w = fake::valid(h);
    if (!w) return FALSE;
    *r = {0, 0, w->width, w->height};
    return TRUE;
}

inline BOOL
PeekMessageW (
    LPMSG m,
    HWND,
    UINT first,
    UINT last,
    UINT remove
) {
    if (first || last) ++fake::criticals; // messages would be left behind
    if (fake::current) { ++fake::criticals; auto f = std::move(fake::current); fake::current = {}; } // a message was taken and dropped
    if (fake::on_poll) fake::on_poll();
    if (fake::queue.empty()) throw fake::starved{};
    if (!fake::queue.front()) {
        fake::queue.pop_front();
        if (fake::on_idle) fake::on_idle();
        return FALSE;
    }
    *m = MSG{nullptr, WM_USER, 0, 0, 0, {0, 0}};
    if (remove & PM_REMOVE) {
        fake::current = fake::queue.front();
        fake::queue.pop_front();
    }
    return TRUE;
}
// Waits: the moments at which nothing is waiting pass unused.
inline BOOL
GetMessageW (
    LPMSG m,
    HWND,
    UINT,
    UINT
) {
    while (!PeekMessageW(m, nullptr, 0, 0, PM_REMOVE)) {}
    return TRUE;
}
inline BOOL TranslateMessage (const MSG*) { return FALSE; }
inline LRESULT
DispatchMessageW (
    const MSG*
) {
    if (!fake::current) return 0;
    auto f = std::move(fake::current);
    fake::current = {};
    f();
    return 0;
}
inline void PostQuitMessage (int) {}
inline void Sleep (DWORD) {}
