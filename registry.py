"""What each property's check is made of."""
import os

REPO = "/repo"
HARNESS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness")
BASE_FLAGS = [
    "-std=c++20", "-O1", "-g1", "-w", "-pipe",
    "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
    "-fno-sanitize=vptr,nonnull-attribute",
    "-ftrivial-auto-var-init=pattern", "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_SANITIZE_VECTOR",
    "-DCMP_CONFIG_DESKTOP_GUI_PACKAGE_EXCLUDED=true",
    "-I" + REPO + "/api/include", "-I" + REPO + "/api/src",
]
HEADER_ONLY = ["-DCMP_CONFIG_HEADER_ONLY=true"]
ASSUMPTIONS = [
    "64-bit little-endian Linux, 4-byte wchar_t, gcc with AddressSanitizer and UBSan",
]


def one(name, source, flags=(), **kw):
    return dict({"name": name, "sources": [source], "flags": HEADER_ONLY + list(flags)}, **kw)


def library(name, source, packages, flags=(), **kw):
    """The harness linked with the library as it's compiled from its sources."""
    return dict({"name": name,
                 "sources": [source] + [REPO + "/api/src/cmp/%s/definitions.cpp" % p for p in packages],
                 "flags": ["-DCMP_CONFIG_HEADER_ONLY=false", "-DCMP_CONFIG_IS_STATIC=true"] + list(flags)}, **kw)


PROPERTIES = {}


def prop(pid, binaries, level="model_checking", assumptions=()):
    PROPERTIES[pid] = {"binaries": binaries, "level": level, "assumptions": list(assumptions)}


for p in ("U01", "U02", "U03", "U04", "U05", "U06"):
    prop(p, [one("unicode", "@h_unicode.cpp", ["-DVP_" + p])])
for p in ("N01", "N02", "N03", "N04", "N05"):
    prop(p, [one("numbers", "@h_numbers.cpp", ["-DVP_" + p])])
for p in ("R01", "R06"):
    prop(p, [one("resources", "@h_resources.cpp")])
prop("R07", [one("custom", "@h_custom.cpp")])
for p in ("R02", "R03", "R04", "R05"):
    prop(p, [one("files", "@h_files.cpp", link=["-Wl,--wrap=read,--wrap=write"])],
         assumptions=["what the kernel holds of a file is what survives the loss of the process"])
for p in ("S01", "S02", "S03", "S05"):
    prop(p, [one("streams", "@h_streams.cpp", ["-DVP_" + p])])
# The standard streams are wired up differently in a header-only build and in the compiled library.
prop("S04", [one("stdio", "@h_stdio.cpp", link=["-Wl,--wrap=read,--wrap=write"]),
             library("stdio-library", "@h_stdio.cpp", ["core", "unicode", "io"], ["-DVP_GLOBAL_ONLY"], link=["-Wl,--wrap=read,--wrap=write"])])
# The GUI package cannot be header-only; GTK is a stand-in (harness/fakegtk).
for p in ("G01", "G02", "G03"):
    prop(p, [library("gui", "@h_gui.cpp", ["core", "desktop_gui"],
                     ["-UCMP_CONFIG_DESKTOP_GUI_PACKAGE_EXCLUDED", "-DCMP_CONFIG_DESKTOP_GUI_PACKAGE_EXCLUDED=false",
                      "-I" + HARNESS + "/fakegtk"],
                     link=["-Wl,--wrap=_ZNSt6chrono3_V212steady_clock3nowEv"])],
         assumptions=["GTK behaves as harness/fakegtk does"])
# Wide characters of two bytes, as on Windows: -fshort-wchar, and no use of the compiled library's wide strings.
SHORT = ["-fshort-wchar", "-U_FORTIFY_SOURCE", "-DVP_SHORT_WCHAR", "-D_GLIBCXX_EXTERN_TEMPLATE=0"]


def short(b):
    b = dict(b)
    b["flags"] = b["flags"] + SHORT
    b["sources"] = b["sources"] + ["@short_wchar.cpp"]
    b["link"] = b.get("link", []) + ["-Wl" + "".join(",--wrap=" + f for f in ("wmemcpy", "wmemmove", "wmemset", "wmemcmp", "wmemchr", "wcslen"))]
    return b


# The Windows back ends, over a stand-in for Windows (harness/fakewin).
WINDOWS = ["-D__WINDOWS__", "-DVP_WINDOWS", "-I" + HARNESS + "/fakewin"]
STAND_IN = "Windows behaves as harness/fakewin does; for files, wchar_t has four bytes"
prop("W01", [one("files-windows", "@h_files.cpp", WINDOWS, link=["-Wl,--wrap=read,--wrap=write"])], assumptions=[STAND_IN])
prop("W02", [short(one("console-windows", "@h_stdio.cpp", WINDOWS)),
             short(library("console-windows-library", "@h_stdio.cpp", ["core", "unicode", "io"], WINDOWS + ["-DVP_GLOBAL_ONLY"]))], assumptions=[STAND_IN])
prop("W03", [short(library("gui-windows", "@h_gui.cpp", ["core", "unicode", "desktop_gui"],
                     ["-UCMP_CONFIG_DESKTOP_GUI_PACKAGE_EXCLUDED", "-DCMP_CONFIG_DESKTOP_GUI_PACKAGE_EXCLUDED=false"] + WINDOWS,
                     link=["-Wl,--wrap=_ZNSt6chrono3_V212steady_clock3nowEv"]))], assumptions=[STAND_IN])
# The macOS back end, over a stand-in for AppKit (harness/fakemac) and gcc's Objective-C runtime.
mac = library("gui-macos", "@h_gui.cpp", ["core", "desktop_gui"],
              ["-UCMP_CONFIG_DESKTOP_GUI_PACKAGE_EXCLUDED", "-DCMP_CONFIG_DESKTOP_GUI_PACKAGE_EXCLUDED=false"],
              compiler="clang++",
              compile=["-x", "objective-c++", "-fobjc-runtime=gcc", "-D__MACH__", "-DVP_MACOS", "-I" + HARNESS + "/fakemac",
                       "-idirafter", "/usr/lib/gcc/x86_64-linux-gnu/13/include"],
              link=["-lobjc", "-Wl,--wrap=_ZNSt6chrono3_V212steady_clock3nowEv"])
mac["sources"].append("@fakemac/fake_mac.mm")
prop("M01", [mac], assumptions=["AppKit behaves as harness/fakemac does; compiled by clang with gcc's Objective-C runtime"])
prop("W04", [short(one("wide-" + p.lower(), "@h_unicode.cpp", ["-DVP_" + p])) for p in ("U01", "U02", "U03", "U04", "U05")]
     + [short(one("wide-" + p.lower(), "@h_streams.cpp", ["-DVP_" + p])) for p in ("S02", "S03")],
     assumptions=["wide characters of two bytes are those of -fshort-wchar"])
# Buffer capacities: each of the four chosen or not, and the extremes; header-only and in the compiled library.
def config(make, chosen, extra=(), **kw):
    d, o, e, i = chosen
    want = [1024 if d is None else d]
    want += [want[0] if c is None else c for c in (o, e, i)]
    flags = ["-DCMP_CONFIG_DEFAULT_%sBUFFER_CAPACITY=%d" % (n, c) for n, c in zip(("", "STDOUT_", "STDERR_", "STDIN_"), chosen) if c is not None]
    flags += ["-DVP_%s=%d" % x for x in zip("DOEI", want)] + list(extra)
    return make("-".join("x" if c is None else str(c) for c in chosen), flags, **kw)


def config_header_only(n, flags, **kw):
    return one("config-" + n, "@h_config.cpp", flags, shards=1, **kw)


def config_library(n, flags, **kw):
    return library("config-library-" + n, "@h_config.cpp", ["core", "unicode", "io"], flags, shards=1, **kw)


TRANSFERS = ["-Wl,--wrap=read,--wrap=write"]
CHOICES = [(d, o, e, i) for d in (None, 6) for o in (None, 2) for e in (None, 11) for i in (None, 4)] + [(0, None, None, None), (1, None, None, None), (0, 7, 0, 1)]
prop("C01", [config(config_header_only, c, ["-DVP_BUFFER"] if c == (6, 2, 11, 4) else (), link=TRANSFERS) for c in CHOICES]
     + [config(config_library, c, link=TRANSFERS) for c in ((None,) * 4, (6, None, None, None), (6, 2, 11, 4))]
     + [short(config(lambda n, f, **kw: config_header_only("windows-" + n, f, **kw), c, WINDOWS)) for c in ((6, None, None, None), (6, 2, 11, 4))],
     assumptions=[STAND_IN])
# Two parts of a program that each include every header, header-only and against the compiled library.
TOGETHER = "the parts cannot be linked into one program"
prop("T03", [
    {"name": "parts", "sources": ["@h_parts.cpp", "@parts_a.cpp", "@parts_b.cpp"], "flags": HEADER_ONLY,
     "link": ["-Wl,--wrap=read,--wrap=write"], "link_violation": TOGETHER},
    {"name": "parts-library", "sources": ["@h_parts.cpp", "@parts_a.cpp", "@parts_b.cpp"]
     + [REPO + "/api/src/cmp/%s/definitions.cpp" % p for p in ("core", "unicode", "io")],
     "flags": ["-DCMP_CONFIG_HEADER_ONLY=false", "-DCMP_CONFIG_IS_STATIC=true"],
     "link": ["-Wl,--wrap=read,--wrap=write"], "link_violation": TOGETHER}])
for p in ("T01", "T02"):
    prop(p, [one("core", "@h_core.cpp")])
