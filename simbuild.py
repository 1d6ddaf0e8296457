#!/usr/bin/env python3
"""Builds the simulator binary of one property from /repo's current working tree.

Instrumented: every library source of the repository (source/**.cpp), the sample sources a
scenario asks for, and the scenarios. Not instrumented: the simulator runtime (sim/*.cpp).
"""
import glob, hashlib, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
CXX = "g++"
COMMON = ["-std=c++14", "-g", "-fno-pie", "-pthread", "-w", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0"]
INSTR = ["-O1", "-include", "memory", "-fsanitize=thread", "-fno-builtin-memcpy", "-fno-builtin-memmove", "-fno-builtin-memset",
         "-fno-omit-frame-pointer", "--param", "tsan-instrument-func-entry-exit=1"]
RUNTIME = ["-O2", "-fno-builtin", "-fno-omit-frame-pointer"]
LINK = ["-no-pie", "-pthread", "-static-libstdc++", "-static-libgcc",
        "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset", "-ldl"]
ON = {"CY_HAVE_UNISTD_H", "CY_HAVE_INTTYPES_H", "CY_HAVE_SYS_UIO_H", "CY_HAVE_SYS_EVENTFD_H", "CY_SYS_LINUX", "CY_HAVE_EPOLL",
      "CY_HAVE_READWRITE_V", "CY_HAVE_PIPE2", "CY_HAVE_TIMERFD", "CY_HAVE_TIMED_LOCK", "CY_ENABLE_LOG"}

# the configuration of this platform, and the one of a system which has none of the newer calls
CONFIGS = {"linux": (), "portable": ("CY_HAVE_SYS_UIO_H", "CY_HAVE_READWRITE_V", "CY_HAVE_PIPE2", "CY_HAVE_TIMED_LOCK", "CY_HAVE_SYS_EVENTFD_H")}


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def gen_config(off=()):
    """cyclone_config.h as cmake configures it on this platform, from the template in the tree."""
    src = read(os.path.join(REPO, "source", "cyclone_config.h.in")).decode()
    return re.sub(r"#cmakedefine\s+(\w+)(.*)", lambda m: "#define %s%s" % m.groups() if m.group(1) in ON and m.group(1) not in off else "/* #undef %s */" % m.group(1), src)


def build(prop, off=(), extra_defs=()):
    obj = os.path.join(BUILD, "obj")
    os.makedirs(obj, exist_ok=True)
    cfgtxt = gen_config(off)
    cfgdir = os.path.join(BUILD, "cfg-" + sha(cfgtxt))
    os.makedirs(cfgdir, exist_ok=True)
    cfgf = os.path.join(cfgdir, "cyclone_config.h")
    if not os.path.exists(cfgf) or read(cfgf).decode() != cfgtxt:
        tmp = cfgf + ".%d" % os.getpid()
        with open(tmp, "w") as f:
            f.write(cfgtxt)
        os.rename(tmp, cfgf)
    S = os.path.join(REPO, "source")
    incs = ["-I" + cfgdir, "-I" + os.path.join(VERIF, "sim"), "-I" + os.path.join(VERIF, "scen"), "-I" + S] + \
           ["-I" + os.path.join(S, d) for d in ("cyCore", "cyEvent", "cyNetwork", "cyCrypt", "cyUtility")] + ["-I" + REPO]
    headers = []
    for root in (S, os.path.join(REPO, "samples"), os.path.join(VERIF, "sim"), os.path.join(VERIF, "scen")):
        for dp, dn, fn in os.walk(root):
            dn[:] = [d for d in dn if not d.startswith((".", "_build"))]
            headers += [os.path.join(dp, f) for f in fn if f.endswith((".h", ".hpp", ".inl", ".in", ".ipp"))]
    hkey = sha(*[os.path.relpath(h, "/") .encode() + read(h) for h in sorted(headers)])
    jobs = []
    for d in ("cyCore", "cyCrypt", "cyEvent", "cyNetwork", "cyUtility"):
        for dp, dn, fn in sorted(os.walk(os.path.join(S, d))):
            for f in sorted(fn):
                if "_kqueue" in f or ("_select" in f and "CY_HAVE_EPOLL" not in off):
                    continue   # other platforms' back ends, not part of this build
                if f.endswith((".cpp", ".cc", ".cxx")):
                    jobs.append((os.path.join(dp, f), INSTR))
                elif f.endswith(".c"):
                    jobs.append((os.path.join(dp, f), None))
    for f in sorted(glob.glob(os.path.join(VERIF, "scen", "*.cpp"))):
        b = os.path.basename(f)
        if b.startswith(prop + "_") or b.startswith("common"):
            jobs.append((f, INSTR))
    for f in sorted(glob.glob(os.path.join(VERIF, "sim", "*.cpp"))):
        jobs.append((f, RUNTIME))

    def one(job):
        src, fl = job
        if fl is None:
            cmd = ["gcc", "-g", "-fno-pie", "-pthread", "-w", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0"] + [x for x in INSTR if x not in ("-include", "memory")]
        else:
            cmd = [CXX] + COMMON + fl
        cmd = cmd + list(extra_defs)
        # a scenario may include the source of a sample program
        used = [os.path.join(REPO, m) for m in re.findall(r'#include "(samples/[^"]+\.cpp)"', read(src).decode(errors="replace"))] if fl is INSTR else []
        key = sha(src, read(src), hkey, " ".join(cmd), cfgtxt, *[read(u) for u in used if os.path.exists(u)])
        o = os.path.join(obj, key + ".o")
        if not os.path.exists(o):
            tmp = o + ".%d.tmp" % os.getpid()
            r = subprocess.run(cmd + incs + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                raise BuildError("compiling %s failed:\n%s" % (src, r.stdout.decode(errors="replace")[-4000:]))
            os.rename(tmp, o)
        else:
            os.utime(o)
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, sorted(jobs, key=lambda j: -os.path.getsize(j[0]))))
    objs.sort()
    bkey = sha(*objs)
    exe = os.path.join(BUILD, "bin", prop + "-" + bkey)
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tmp = exe + ".%d.tmp" % os.getpid()
        r = subprocess.run([CXX] + objs + LINK + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise BuildError("link failed:\n" + r.stdout.decode(errors="replace")[-4000:])
        os.rename(tmp, exe)
    # keep the cache small
    for d, keep in (("bin", 60), ("obj", 800)):
        fs = sorted(glob.glob(os.path.join(BUILD, d, "*")), key=os.path.getmtime)
        for f in fs[:-keep]:
            try:
                os.unlink(f)
            except OSError:
                pass
    return exe


if __name__ == "__main__":
    try:
        props = sys.argv[1:]
        if props == ["all"]:
            props = sorted({os.path.basename(f).split("_")[0] for f in glob.glob(os.path.join(VERIF, "scen", "C*_*.cpp"))})
        for p in props:
            print(build(p))
    except BuildError as e:
        print(e)
        sys.exit(2)
