"""Builds candylib and the drivers from /repo's *current working tree*.

Output goes to $VERIF_BUILD (default /verif/.build, git-ignored).  Objects are reused only when the
object's own dependency list (gcc -MMD) is older than the object, so a changed file is always rebuilt.
Any source file found in the library directories is compiled, so a refactoring that moves code into a
new file does not break the build.
"""
import os, subprocess, sys, glob, json, hashlib
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
CXX = "g++-10"
BASE = ["-std=c++14", "-pthread", "-w", "-D__STDC_LIMIT_MACROS", "-D__STDC_FORMAT_MACROS", "-DNDEBUG",
        "-msse4.1", "-DDEBUG_CHECK_CASTS", "-DCANDY_HAVE_RLIMIT", "-I" + REPO + "/src"]
LIBDIRS = ["gates", "randomsimulation", "rsar", "ipasir", "minimizer", "core", "systems", "simplification",
           "sonification", "frontend", "utils", "teexgraph", "gbd"]
VARIANTS = {"opt": ["-O2"], "asan": ["-O1", "-g", "-fsanitize=address"],
            "tsan": ["-O1", "-g", "-fsanitize=thread"]}


class BuildError(Exception):
    pass


def _newer(obj, dep, key):
    if not os.path.exists(obj) or not os.path.exists(dep) or not os.path.exists(obj + ".key"):
        return True
    if open(obj + ".key").read() != key:
        return True
    t = os.path.getmtime(obj)
    txt = open(dep).read().replace("\\\n", " ")
    for f in txt.split(":", 1)[1].split():
        try:
            if os.path.getmtime(f) >= t:
                return True
        except OSError:
            return True
    return False


def _compile(src, obj, flags):
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    cmd = [CXX] + BASE + flags + ["-MMD", "-MF", obj + ".d", "-c", src, "-o", obj]
    key = " ".join(cmd)
    if not _newer(obj, obj + ".d", key):
        return None
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return "compiling %s failed:\n%s" % (src, r.stdout[-4000:])
    open(obj + ".key", "w").write(key)
    return None


def lib_sources():
    out = []
    for d in LIBDIRS:
        root = os.path.join(REPO, "src/candy", d)
        for p, _, fs in os.walk(root):
            for f in fs:
                if f.endswith((".cc", ".cpp", ".cxx")):
                    out.append(os.path.join(p, f))
    # the library's own top-level sources, except the program entry points
    for f in glob.glob(os.path.join(REPO, "src/candy/*.cc")):
        t = open(f, errors="replace").read()
        if "int main(" not in t:
            out.append(f)
    return sorted(out)


def build(drivers=(), programs=(), variant="opt"):
    """Compiles the library, links each driver (name of /verif/harness/<name>.cc) and each program
    ('candy' or 'cnf2aig').  Returns {name: path}."""
    flags = VARIANTS[variant]
    bd = os.path.join(BUILD, variant)
    os.makedirs(bd, exist_ok=True)
    jobs = []
    objs = []
    for s in lib_sources():
        o = os.path.join(bd, "lib", os.path.relpath(s, REPO + "/src").replace("/", "__") + ".o")
        objs.append(o)
        jobs.append((s, o, flags))
    links = {}
    for d in drivers:
        s = os.path.join(VERIF, "harness", d + ".cc")
        o = os.path.join(bd, "drv", d + ".o")
        jobs.append((s, o, flags + ["-fno-access-control", "-I" + os.path.join(VERIF, "harness")]))
        links[d] = o
    for p in programs:
        s = find_program(p)
        o = os.path.join(bd, "prg", p + ".o")
        jobs.append((s, o, flags))
        links[p] = o
    with ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "8"))) as ex:
        errs = [e for e in ex.map(lambda j: _compile(*j), jobs) if e]
    if errs:
        raise BuildError("\n".join(errs))
    lib = os.path.join(bd, "libcandy.a")
    if os.path.exists(lib):
        os.unlink(lib)
    r = subprocess.run(["ar", "rcs", lib] + objs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError(r.stdout)
    res = {}

    def link(it):
        n, o = it
        exe = os.path.join(bd, n)
        r = subprocess.run([CXX] + flags + ["-pthread", o, lib, "-lz", "-loscpack", "-Wl,--allow-multiple-definition", "-o", exe],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return n, exe, (r.stdout if r.returncode else None)
    with ThreadPoolExecutor(8) as ex:
        for n, exe, err in ex.map(link, links.items()):
            if err:
                raise BuildError("linking %s failed:\n%s" % (n, err[-4000:]))
            res[n] = exe
    return res


def find_program(p):
    cand = {"candy": ["src/candy/Main.cc", "src/Main.cc"], "cnf2aig": []}.get(p, [])
    for c in cand:
        if os.path.exists(os.path.join(REPO, c)):
            return os.path.join(REPO, c)
    for root in ("src", "testsrc"):
        for f in glob.glob(os.path.join(REPO, root, "**", "*.c*"), recursive=True):
            if os.path.splitext(os.path.basename(f))[0].lower() == p.lower():
                return f
    raise BuildError("no source for program " + p)


if __name__ == "__main__":
    print(build(sys.argv[2:], (), sys.argv[1]))
