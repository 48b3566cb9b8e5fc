#!/usr/bin/env python3
"""Compiles the library from /repo's working tree, and a harness, into /verif/build.

Objects are named by a hash of everything that goes into them, so nothing stale is ever linked."""
import glob, hashlib, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")

SAN = ["-fsanitize=address,bounds,null,shift-exponent,integer-divide-by-zero,unreachable,return,"
       "signed-integer-overflow,float-cast-overflow",
       "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
TSAN = ["-fsanitize=thread", "-fno-omit-frame-pointer"]
COV = ["-fsanitize-coverage=inline-8bit-counters"]
BASE = ["-std=c++17", "-g1", "-O1", "-Wno-everything", "-DHAVE_OPENSSL"]
INC = ["-I" + os.path.join(REPO, d) for d in ("include", "src", "src/sctp", "src/stun", ".")]

TOOL_INC = ["-I" + os.path.join(REPO, "tools"), "-I" + os.path.join(REPO, "tools/libogg/include")]


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def headers_digest():
    hs = []
    for d in ("include", "src", "tools"):
        for root, _, files in os.walk(os.path.join(REPO, d)):
            hs += [os.path.join(root, f) for f in files if f.endswith((".h", ".hpp", ".inl"))]
    hs += glob.glob(os.path.join(VERIF, "harness", "*.h"))
    h = hashlib.sha256()
    for p in sorted(hs):
        h.update(p.encode())
        h.update(read(p))
    return h.hexdigest()


def lib_sources():
    out = []
    for pat in ("src/*.cpp", "src/sctp/*.cpp", "src/stun/*.cpp", "src/stun/*.c"):
        out += glob.glob(os.path.join(REPO, pat))
    return sorted(s for s in out if not s.endswith(("_macos.cpp", "_win.cpp")))


def tool_sources(names):
    return sorted(p for n in names for p in glob.glob(os.path.join(REPO, "tools", n)))


def compile_all(jobs):
    """jobs: list of (src, flags, obj)"""
    todo = [j for j in jobs if not os.path.exists(j[2])]

    def one(j):
        src, flags, obj = j
        tmp = obj + ".%d.tmp" % os.getpid()
        r = subprocess.run(["clang++", *flags, "-c", src, "-o", tmp], capture_output=True, text=True)
        if r.returncode != 0:
            return "%s\n%s" % (src, r.stderr[:4000])
        os.rename(tmp, obj)
        return None

    with ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        errs = [e for e in ex.map(one, todo) if e]
    if errs:
        sys.stderr.write("\n".join(errs) + "\n")
        return False
    return True


def build(name, harness_sources, mode="asan", tools=(), defines=(), libs=("-lssl", "-lcrypto"), override=False, renamed=()):
    """renamed: harness sources whose main() is called main_ and the part of their name before the first underscore"""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    hd = headers_digest()
    san = TSAN if mode == "tsan" else SAN
    defs = ["-D" + d for d in defines]
    lib_flags = BASE + san + COV + INC + defs
    har_flags = BASE + san + INC + ["-I" + os.path.join(VERIF, "harness")] + defs
    jobs = []
    for s in lib_sources() + tool_sources(tools):
        f = lib_flags
        if "/tools/" in s and s.endswith(".c"):
            f = [x for x in f if not x.startswith("-std=")] + TOOL_INC + ["-x", "c"]
        elif "/tools/" in s:
            f = f + TOOL_INC + ["-include", os.path.join(VERIF, "harness", "tool_exit.h")]
        elif s.endswith(".c"):
            f = f + ["-x", "c++"]
        jobs.append((s, f, os.path.join(BUILD, "obj", os.path.basename(s) + "-" + digest(s, hd, read(s), " ".join(f)) + ".o")))
    for s in harness_sources:
        s = os.path.join(VERIF, "harness", s)
        f = har_flags + (TOOL_INC if tools else [])
        if os.path.basename(s) in renamed:
            f = f + ["-Dmain=main_" + os.path.basename(s).split("_")[0]]
        jobs.append((s, f, os.path.join(BUILD, "obj", os.path.basename(s) + "-" + digest(s, hd, read(s), " ".join(f)) + ".o")))
    # Long ones first
    jobs.sort(key=lambda j: -os.path.getsize(j[0]) - (10**7 if "/harness/" in j[0] else 0))
    if not compile_all(jobs):
        return None
    # What the harness defines takes precedence over what the library defines, when it asks for that
    objs = sorted((j[2] for j in jobs), key=lambda o: (not any(os.path.basename(o).startswith(os.path.basename(h) + "-") for h in harness_sources), o))
    exe = os.path.join(BUILD, "bin", name + "-" + digest(*objs, str(override)))
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        r = subprocess.run(["clang++", *san, *objs, "-o", tmp, *(["-Wl,--allow-multiple-definition"] if override else []), *libs, "-lpthread", "-ldl"], capture_output=True, text=True)
        if r.returncode != 0:
            sys.stderr.write(r.stderr[:6000])
            return None
        os.rename(tmp, exe)
    return exe


def build_program(main):
    """One of the tools as it is, a program of its own: its main(), the other sources of the tools, the library"""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    hd = headers_digest()
    flags = BASE + SAN + INC + TOOL_INC
    sources = lib_sources()
    for s in tool_sources(["*.cpp", "libogg/src/*.c"]):
        base = os.path.basename(s)
        if base.endswith("_win.cpp") or (base.startswith("srtc_") and base != main):
            continue
        sources.append(s)
    jobs = []
    for s in sources:
        f = flags
        if s.endswith(".c"):
            f = [x for x in f if not x.startswith("-std=")] + ["-x", "c"] if "/tools/" in s else f + ["-x", "c++"]
        jobs.append((s, f, os.path.join(BUILD, "obj", os.path.basename(s) + "-" + digest(s, hd, read(s), " ".join(f)) + ".o")))
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    if not compile_all(jobs):
        return None
    objs = sorted(j[2] for j in jobs)
    exe = os.path.join(BUILD, "bin", main.replace(".cpp", "") + "-" + digest(*objs))
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        r = subprocess.run(["clang++", *SAN, *objs, "-o", tmp, "-lssl", "-lcrypto", "-lcurl", "-lpthread", "-ldl"], capture_output=True, text=True)
        if r.returncode != 0:
            sys.stderr.write(r.stderr[:6000])
            return None
        os.rename(tmp, exe)
    return exe
