"""Builds the parts of /repo a check needs, from /repo's current working tree, with flags of our own.

Objects are cached under /verif/build by the content of every file they were made from."""
import hashlib, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
MC = os.path.join(VERIF, "mc")
OUT = os.environ.get("MC_BUILD", os.path.join(VERIF, "build"))
JOBS = os.cpu_count() or 8
CXX = "g++"

BASE = ["-std=gnu++17", "-fPIC", "-w", "-DNDEBUG", "-pthread"]
VARIANTS = {
    "O1": ["-O1"],
    "O0": ["-O0"],
    "asan": ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"],
    "tsan": ["-O1", "-fsanitize=thread", "-fno-omit-frame-pointer"],
}
INC = ["-I" + os.path.join(REPO, "src/eckit/io/fam/openfam_mock"), "-I" + os.path.join(MC, "gen"), "-I" + os.path.join(OUT, "gen"),
       "-I" + os.path.join(REPO, "src"), "-I/usr/include/uuid"]
COMP = {  # extra compile flags, libs, dependencies
    "eckit": (["-Deckit_EXPORTS"], ["-lsnappy", "-llz4", "-lbz2", "-lssl", "-lcrypto", "-lcurl", "-luuid", "-lrt", "-ldl", "-lm"], ["eckit_openfam_mock"]),
    "eckit_openfam_mock": ([], ["-lrt", "-lm"], []),
    "eckit_sql": ([], [], ["eckit"]),
    "eckit_distributed": ([], [], ["eckit"]),
    "eckit_geometry": ([], [], ["eckit", "eckit_maths"]),
    "eckit_maths": (["-isystem", "/usr/include/eigen3"], ["-lqhullcpp", "-lqhull_r", "-llapack", "-lblas"], ["eckit"]),
    "eckit_linalg": (["-isystem", "/usr/include/eigen3", "-fopenmp"], ["-lopenblas", "-lgomp"], ["eckit", "eckit_maths"]),
    "eckit_mpi": ([], [], ["eckit"]),
    "eckit_option": ([], [], ["eckit"]),
    "eckit_web": ([], [], ["eckit"]),
    "eckit_codec": ([], [], ["eckit"]),
    "eckit_spec": ([], [], ["eckit"]),
    "eckit_geo": (["-isystem", "/usr/include/eigen3"], ["-l:libproj.so.25.9.4.0", "-lshp", "-lzip"], ["eckit_codec", "eckit_maths", "eckit_spec", "eckit"]),
    "eckit_cmd": ([], [], ["eckit"]),
}


class BuildError(Exception):
    pass


_hash = {}


def fhash(p):
    h = _hash.get(p)
    if h is None:
        try:
            with open(p, "rb") as f:
                h = hashlib.sha1(f.read()).hexdigest()
        except OSError:
            h = "missing"
        _hash[p] = h
    return h


def component_sources(comp):
    d = json.load(open(os.path.join(MC, "sources.json")))
    base = set(d["baseline"])
    files = [f for f in d["components"][comp] if os.path.exists(os.path.join(REPO, f))]
    dirs = {}
    for c, fs in d["components"].items():
        for f in fs:
            dirs.setdefault(os.path.dirname(f), {}).setdefault(c, 0)
            dirs[os.path.dirname(f)][c] += 1
    mine = [k for k, v in dirs.items() if max(v, key=v.get) == comp]
    for k in mine:  # files added since the list was made
        p = os.path.join(REPO, k)
        if os.path.isdir(p):
            for n in sorted(os.listdir(p)):
                f = k + "/" + n
                if n.endswith((".cc", ".c")) and f not in base and f not in files:
                    files.append(f)
    return [os.path.join(REPO, f) for f in files]


def run(cmd, **kw):
    r = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if r.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), (r.stdout + r.stderr)[-6000:]))
    return r


def pch(variant, flags):
    # forced include of the standard headers: speed only
    d = os.path.join(OUT, "pch-" + variant + "-" + hashlib.sha1(" ".join(flags).encode()).hexdigest()[:8])
    h = os.path.join(d, "pch.h")
    if not os.path.exists(h + ".gch"):
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(MC, "pch.h")) as f, open(h, "w") as g:
            g.write(f.read())
        tmp = h + ".gch.tmp%d" % os.getpid()
        run([CXX] + flags + ["-x", "c++-header", h, "-o", tmp])
        os.rename(tmp, h + ".gch")
    return h


def parse_deps(p):
    s = open(p).read().replace("\\\n", " ")
    s = s.split(":", 1)[1]
    return [x for x in s.split() if x]


def compile_one(src, obj, flags, use_pch):
    """compile src to obj unless the object is up to date by content"""
    stamp = obj + ".stamp"
    key = hashlib.sha1(" ".join(flags).encode()).hexdigest()
    try:
        with open(stamp) as f:
            d = json.load(f)
        if d["key"] == key and os.path.exists(obj) and all(fhash(p) == h for p, h in d["deps"].items()):
            return False
    except (OSError, ValueError, KeyError):
        pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    dep = obj + ".d"
    run([CXX] + flags + (["-include", use_pch] if use_pch else []) + ["-MMD", "-MF", dep, "-c", src, "-o", obj])
    deps = {p: fhash(p) for p in parse_deps(dep) if not p.startswith("/usr/") and not p.endswith("pch.h")}
    deps[src] = fhash(src)
    with open(stamp, "w") as f:
        json.dump({"key": key, "deps": deps}, f)
    return True


def generate_sql():
    """flex/bison outputs of eckit_sql, as its CMakeLists makes them"""
    g = os.path.join(OUT, "gen", "eckit", "sql")
    os.makedirs(g, exist_ok=True)
    y, l = os.path.join(REPO, "src/eckit/sql/sqly.y"), os.path.join(REPO, "src/eckit/sql/sqll.l")
    key = fhash(y) + fhash(l)
    st = os.path.join(g, "stamp")
    if os.path.exists(st) and open(st).read() == key:
        return
    run(["bison", "-t", "-d", "-o", os.path.join(g, "sqly.tmp.c"), y], cwd=g)
    run(["flex", "-d", "-o" + os.path.join(g, "sqll.tmp.c"), l], cwd=g)
    for a, b in (("sqly.tmp.c", "sqly.c"), ("sqly.tmp.h", "sqly.h"), ("sqll.tmp.c", "sqll.c")):
        s = open(os.path.join(g, a)).read()
        s = s.replace("yy", "eckit_sql_")
        s = re.sub(r"\bregister\b", "", s)
        s = s.replace(".tmp.c", ".c").replace(".tmp.h", ".h")
        with open(os.path.join(g, b), "w") as f:
            f.write(s)
    with open(st, "w") as f:
        f.write(key)


def generate_persistent():
    """the .b headers of persistent classes, as ecbuild makes them"""
    g = os.path.join(OUT, "gen")
    sg = "/usr/share/ecbuild/cmake/sg.pl"
    for l in open(os.path.join(MC, "persistent.list")).read().split():
        h = os.path.join(REPO, "src", l[:-2] + ".h")
        b = os.path.join(g, l)
        key = fhash(h)
        st = b + ".stamp"
        if not os.path.exists(h) or (os.path.exists(b) and os.path.exists(st) and open(st).read() == key):
            continue
        os.makedirs(os.path.dirname(b), exist_ok=True)
        run(["perl", sg, h, os.path.dirname(b), "eckit"])
        with open(st, "w") as f:
            f.write(key)


def instrumented(src):
    """race detection and scheduling at atomics: everything but logging, monitoring and process start-up"""
    r = src[len(REPO):] if src.startswith(REPO) else src
    return not re.search(r"/(log|os|exception|system|config|parser|value|utils|types|net|testing|persist|serialisation|fam)/|/runtime/(Monitor|Main|Library|Tool|Application|Task|Dispatcher|Metrics|Telemetry|Session|Status)", r)


def build(name, harness, components, variant="O1", extra_src=(), flags=(), libs=(), link=()):
    """returns the path of the harness executable"""
    t0 = time.time()
    comps = []

    def add(c):
        for d in COMP[c][2]:
            add(d)
        if c not in comps:
            comps.append(c)

    for c in components:
        add(c)
    vf = BASE + VARIANTS[variant]
    generate_persistent()
    work = []
    libobjs = {}
    p = pch(variant, vf)
    pomp = po1 = None
    for c in comps:
        cf = COMP[c][0]
        srcs = component_sources(c)
        inc = list(INC)
        if c == "eckit":
            srcs.append(os.path.join(MC, "gen/eckit/eckit_version.cc"))
        if c == "eckit_sql":
            generate_sql()
        usep = p
        if "-fopenmp" in cf:
            if pomp is None:
                pomp = pch(variant, vf + ["-fopenmp"])
            usep = pomp
        objs = []
        if variant == "tsan":
            srcs.sort(key=lambda s: (not instrumented(s), s))
        for s in srcs:
            if variant == "tsan" and not instrumented(s):
                o = os.path.join(OUT, "O1", c, s.replace(REPO, "").replace(MC, "").strip("/").replace("/", "_") + ".o")
                po1 = po1 or pch("O1", BASE + VARIANTS["O1"])
                work.append((s, o, BASE + VARIANTS["O1"] + cf + inc, po1 if s.endswith(".cc") else None))
                objs.append(o)
                continue
            o = os.path.join(OUT, variant, c, s.replace(REPO, "").replace(MC, "").strip("/").replace("/", "_") + ".o")
            work.append((s, o, vf + cf + inc, usep if s.endswith(".cc") else None))
            objs.append(o)
        libobjs[c] = objs
    hobjs = []
    hinc = INC + ["-I" + os.path.join(MC, "include"), "-I" + os.path.join(VERIF, "harness"), "-I" + os.path.join(OUT, "gen")]
    eig = ["-isystem", "/usr/include/eigen3"] if any("eigen3" in " ".join(COMP[c][0]) for c in comps) else []
    for s in [os.path.join(VERIF, "harness", h) for h in harness]:
        o = os.path.join(OUT, variant, "h_" + name, os.path.basename(s) + ".o")
        work.insert(0, (s, o, vf + list(flags) + hinc + eig, p if not flags else None))
        hobjs.append(o)
    rt = [x for x in VARIANTS[variant] if "sanitize=thread" not in x]
    for s in ["mc.cc"] + list(extra_src):
        o = os.path.join(OUT, variant, "rt", s + ".o")
        work.insert(0, (os.path.join(MC, s), o, BASE + rt + ["-g1"] + hinc, None))
        hobjs.append(o)
    errors = []

    def one(w):
        if errors:
            return False
        try:
            return compile_one(*w)
        except BuildError as e:
            errors.append(e)
            return False

    with ThreadPoolExecutor(JOBS) as ex:
        changed = list(ex.map(one, work))
    if errors:
        raise errors[0]
    ldir = os.path.join(OUT, variant, "lib")
    os.makedirs(ldir, exist_ok=True)
    san = [x for x in VARIANTS[variant] if "sanitize=address" in x]
    liblist, syslibs = [], []
    for c in comps:
        lp = os.path.join(ldir, "lib%s.so" % c)
        syslibs += [x for x in COMP[c][1] if x not in syslibs]
        liblist.append(lp)

        def mk(c=c, lp=lp):
            newest = max(os.path.getmtime(o) for o in libobjs[c])
            lst = lp + ".list"
            cur = "\n".join(libobjs[c])
            if os.path.exists(lp) and os.path.getmtime(lp) > newest and os.path.exists(lst) and open(lst).read() == cur:
                return
            with open(lp + ".rsp", "w") as f:
                f.write(cur)
            run([CXX, "-shared", "-o", lp, "@" + lp + ".rsp"])
            with open(lst, "w") as f:
                f.write(cur)
        mk()
    exe = os.path.join(OUT, variant, "bin", name)
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    run([CXX, "-o", exe, "-rdynamic", "-pthread"] + san + hobjs + ["-Wl,--no-as-needed", "-Wl,-rpath," + ldir] + list(reversed(liblist)) + list(link) + syslibs + list(libs) + ["-ldl"])
    return exe, time.time() - t0, sum(1 for c in changed if c)


if __name__ == "__main__":
    # warm the object cache: core library and runtime, both variants
    for v, rt in (("O1", []), ("tsan", ["sched.cc", "tsanrt.cc"])):
        print(v, build("setup", ["setup.cc"], ["eckit"], v, rt))
