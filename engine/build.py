"""Extraction: /repo's current sources -> LLVM IR (clang -O0) and record layouts; and a shared object
of the same sources (g++ -O2) for replaying counterexamples against the real code."""
import concurrent.futures as cf
import glob
import hashlib
import os
import re
import shutil
import subprocess
import tempfile
import ir

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("ALMATH_REPO", "/repo")
CLANG = "clang++-18"
OPT = "opt-18"
INC = ["-I" + os.path.join(HERE, "stub"), "-I" + REPO, "-I/usr/include/eigen3"]
IRFLAGS = ["-std=gnu++17", "-S", "-emit-llvm", "-O0", "-Xclang", "-disable-O0-optnone", "-ffp-contract=off",
           "-fno-discard-value-names", "-w"]

# header-only Eigen code is instantiated and compiled with -O1 (no vectors, Eigen's own assertions off): at -O0 it is mostly calls
O1FLAGS = [f for f in IRFLAGS if f not in ("-O0", "-Xclang", "-disable-O0-optnone")] + ["-O1", "-DEIGEN_DONT_VECTORIZE", "-DEIGEN_NO_DEBUG"]

CORE = ["src/types/*.cpp", "src/tools/*.cpp", "src/dsp/*.cpp", "src/geometrics/*.cpp"]


class BuildError(Exception):
    pass


def sources(groups=None):
    out = []
    for g in groups or CORE:
        out += sorted(glob.glob(os.path.join(REPO, g)))
    return out


_tmp = None


def workdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="verif_")
        import atexit
        atexit.register(lambda: shutil.rmtree(_tmp, ignore_errors=True))
    return _tmp


def run(cmd, **kw):
    p = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stderr[:4000]))
    return p


def emit(src, extra=()):
    o = os.path.join(workdir(), hashlib.md5(src.encode()).hexdigest()[:12] + ".ll")
    o1 = src.startswith(os.path.join(VERIF, "inst")) or os.path.basename(src) == "urdf.cpp"
    with open(src) as f:
        if f.readline().startswith("// -O0"):
            o1 = False
    if o1:
        # the library's own functions stay calls, so that contracts can be used at them; Eigen's are inlined
        raw = o[:-3] + ".raw.ll"
        run([CLANG] + O1FLAGS + ["-Xclang", "-disable-llvm-passes"] + INC + list(extra) + [src, "-o", raw])
        with open(raw) as f:
            t = f.read()
        with open(src) as f:
            keep = r"(?:NK?2AL|NK?5boost13property_tree|NK?St7__cxx1112basic_string|St(?:eq|ne)Ic)" if "// keep ptree" in f.read() \
                else r"NK?2AL"               # the parts of a document which have assumed contracts stay calls, too
        t = re.sub(r"(?m)^(define [^\n]*@_Z%s[^\n]*\)[^\n]*?)( #\d+)" % keep, r"\1 noinline\2", t)
        with open(raw, "w") as f:
            f.write(t)
        run([CLANG, "-S", "-emit-llvm", "-O1", "-fno-discard-value-names", "-ffp-contract=off", "-w", raw, "-o", o])
        with open(src) as f:
            if "// loops" in f.read():       # values carried around a loop back in memory, where the loop rule looks for them
                run([OPT, "-S", "-passes=reg2mem", o, "-o", o])
        os.remove(raw)
        return o
    run([CLANG] + IRFLAGS + INC + list(extra) + [src, "-o", o])
    return o


def inline_tu(hdrs):
    """a TU that includes the public headers; compiled with -femit-all-decls so that inline functions are emitted"""
    p = os.path.join(workdir(), "inline_functions.cpp")
    with open(p, "w") as f:
        f.write("".join("#include <%s>\n" % h for h in hdrs))
    return p


def module(srcs, inline=None):
    """merge the IR of several TUs"""
    jobs = [(s, ()) for s in srcs]
    if inline:
        jobs.append((inline, ("-femit-all-decls",)))
        srcs = list(srcs) + [inline]
    with cf.ThreadPoolExecutor(8) as ex:
        lls = list(ex.map(lambda j: emit(*j), jobs))
    m, seen = None, set()
    for k, (s, l) in enumerate(zip(srcs, lls)):
        with open(l) as fh:
            m = ir.parse_module(own_names(fh.read(), k, seen), m, s)
    return m


def own_names(text, k, seen):
    """the private symbols of a TU (literals, static functions) are its own: rename those an earlier TU has too"""
    loc = set(re.findall(r'(?m)^@("[^"]*"|[-\w$.]+) = (?:private|internal) ', text))
    loc |= set(re.findall(r'(?m)^define internal [^\n@]*@("[^"]*"|[-\w$.]+)\(', text))
    clash = loc & seen
    seen |= loc
    if not clash:
        return text
    return re.sub(r'@("[^"]*"|[-\w$.]+)', lambda x: "@%s.tu%d" % (x.group(1), k) if x.group(1) in clash and
                  not x.group(1).startswith('"') else x.group(0), text)


HEADERS = ["types/*.h", "tools/*.h", "dsp/*.h", "geometrics/*.h"]


def headers(extra=()):
    out = []
    for g in list(HEADERS) + list(extra):
        out += sorted(os.path.relpath(p, REPO) for p in glob.glob(os.path.join(REPO, "almath", g)))
    return out


PRE = """#include <vector>
#include <string>
#include <map>
#include <set>
#include <list>
#include <array>
#include <memory>
#include <functional>
#include <algorithm>
#include <iostream>
#include <sstream>
#include <cmath>
#include <limits>
#include <stdexcept>
#include <cstring>
#include <type_traits>
#define private public
#define protected public
"""


def layouts(names, hdrs):
    """{class name: (size, [(offset, ctype, dotted path)])} from clang's record layout dump"""
    src = os.path.join(workdir(), "layout.cpp")
    names = list(names)
    while True:
        with open(src, "w") as f:
            f.write(PRE)
            for h in hdrs:
                f.write("#include <%s>\n" % h)
            for i, n in enumerate(names):
                f.write("template <class T> struct W%d { static const unsigned v = sizeof(T); }; "
                        "static unsigned s%d = W%d<%s>::v; // NAME%d\n" % (i, i, i, n, i))
        p = subprocess.run([CLANG, "-std=gnu++17", "-fsyntax-only", "-w", "-ferror-limit=0", "-Xclang",
                            "-fdump-record-layouts"] + INC + [src], capture_output=True, text=True)
        if p.returncode == 0:
            break
        bad = set(int(x) for x in re.findall(r"// NAME(\d+)", p.stderr))
        if not bad:
            raise BuildError("layouts: " + p.stderr[:3000])
        names = [n for i, n in enumerate(names) if i not in bad]
    res = {}
    for chunk in p.stdout.split("*** Dumping AST Record Layout")[1:]:
        lines = chunk.strip("\n").split("\n")
        m = re.match(r"\s*0 \| (struct|class|union) (.*)$", lines[0])
        if not m:
            continue
        name = re.sub(r" \(empty\)$", "", m.group(2).strip())
        leaves, stack, size = [], [], 0
        for ln in lines[1:]:
            ms = re.search(r"\[sizeof=(\d+)", ln)
            if ms:
                size = int(ms.group(1))
                break
            mm = re.match(r"\s*(\d+)(:\S+)? \| ( *)(.*)$", ln)
            if not mm:
                continue
            off, ind, txt = int(mm.group(1)), len(mm.group(3)) // 2, mm.group(4)
            txt = re.sub(r" \(empty\)$", "", txt)
            stack = stack[:ind - 1]
            mb = re.match(r"(struct|class|union) (.*)$", txt)
            if txt.endswith("vtable pointer)"):
                leaves.append((off, "vptr", ".".join([s for s in stack if s] + ["_vptr"])))
                continue
            if mb:
                t = mb.group(2)
                if t.endswith("(base)") or t.endswith("(primary base)"):
                    stack.append("")
                else:
                    stack.append(t.split()[-1])
                leaves.append((off, "struct " + t.rsplit(" ", 1)[0], ".".join(s for s in stack if s)))
                continue
            if " " not in txt:
                continue
            ty, fld = txt.rsplit(" ", 1)
            leaves.append((off, ty, ".".join([s for s in stack if s] + [fld])))
            stack.append(fld)
        res[name] = (size, leaves)
    return res


def shared_object(srcs, shim_text, name="shim", opt="-O1"):
    d = workdir()
    sh = os.path.join(d, name + ".cpp")
    with open(sh, "w") as f:
        f.write(shim_text)
    objs = []

    def one(s):
        o = os.path.join(d, hashlib.md5((s + name).encode()).hexdigest()[:12] + ".o")
        run(["g++", "-std=gnu++17", opt, "-fPIC", "-w", "-c", s, "-o", o] + INC)
        return o
    with cf.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, list(srcs) + [sh]))
    so = os.path.join(d, name + ".so")
    run(["g++", "-shared", "-o", so] + objs)
    return so
