#!/usr/bin/env python3
"""Builds the harness and the server from /repo's working tree into /verif/build (git-ignored).
Objects are cached by the hash of everything they are made from, so a change anywhere in the sources rebuilds."""
import concurrent.futures as cf, hashlib, os, re, subprocess, sys, glob, shutil, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
H = os.path.join(VERIF, "harness")
JOBS = os.cpu_count() or 8

def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def pk(*a):
    r = subprocess.run(["pkg-config", *a], stdout=subprocess.PIPE, text=True); return r.stdout.split()
def digest(*parts):
    h = hashlib.sha256()
    for p in parts: h.update(p if isinstance(p, bytes) else p.encode()); h.update(b"\0")
    return h.hexdigest()[:24]
def content(path):
    with open(path, "rb") as f: return f.read()

VARIANTS = {
    # compiler, flags, link flags
    "rel":  ("g++", ["-O1", "-g1"], []),
    "asan": ("clang++", ["-O1", "-g1", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,bounds,null,return,unreachable", "-fno-sanitize-recover=bounds,null,return,unreachable"], ["-fsanitize=address,bounds,null,return,unreachable"]),
    "tsan": ("clang++", ["-O1", "-g1", "-fsanitize=thread"], ["-fsanitize=thread"]),
}
LIBS = ["-lcapnp", "-lkj", "-lboost_regex", "-lboost_system", "-lboost_program_options", "-lboost_date_time", "-lpthread"]

def listed(makefile, base):
    out = []
    for line in open(makefile):
        if line.lstrip().startswith("#"): continue
        for tok in re.findall(r"[\w./]+\.(?:cpp|cc|c\+\+)", line):
            p = os.path.normpath(os.path.join(base, tok))
            if os.path.exists(p) and p not in out: out.append(p)
    return out

def repo_sources():
    s = listed(os.path.join(REPO, "src/Makefile.am"), os.path.join(REPO, "src"))
    s += listed(os.path.join(REPO, "connection_scan_algorithm/src/Makefile.am"), os.path.join(REPO, "connection_scan_algorithm/src"))
    if not any(p.endswith("transit_data.cpp") for p in s):
        s = sorted(glob.glob(os.path.join(REPO, "src/*.cpp")) + glob.glob(os.path.join(REPO, "connection_scan_algorithm/src/**/*.cpp"), recursive=True))
        s = [p for p in s if not re.search(r"(places|households)_cache_fetcher", p)]
    return [p for p in s if "/capnp/" not in p]

def headers():
    hs = []
    for d in ("include", "connection_scan_algorithm/include", "src", "connection_scan_algorithm/src"):
        for root, _, files in os.walk(os.path.join(REPO, d)):
            if "/capnp" in root: continue
            hs += [os.path.join(root, f) for f in files if f.endswith((".hpp", ".h", ".tpp", ".ipp"))]
    return sorted(hs)

def gen_capnp(src, dst, files):
    """capnp schemas -> C++ in dst; regenerated when any schema changes"""
    key = digest(*[content(os.path.join(src, f)) for f in files])
    stamp = os.path.join(dst, "stamp")
    if os.path.exists(stamp) and open(stamp).read() == key: return
    shutil.rmtree(dst, ignore_errors=True); os.makedirs(dst)
    def one(f): return f, sh(["capnp", "compile", "-oc++:" + dst, f], cwd=src)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for f, r in ex.map(one, files):
            if r.returncode: print("capnp compile", f, "failed:", r.stdout.strip()[:300], file=sys.stderr)
    open(stamp, "w").write(key)

class Builder:
    def __init__(self):
        os.makedirs(BUILD, exist_ok=True); self.errors = {}
        self.spd = pk("--cflags", "spdlog") or []; self.spdl = pk("--libs", "spdlog") or ["-lspdlog", "-lfmt"]
        self.capdir = os.path.join(BUILD, "gen", "capnp")
        schemas = sorted(f for f in os.listdir(os.path.join(REPO, "include/capnp")) if f.endswith(".capnp"))
        gen_capnp(os.path.join(REPO, "include/capnp"), self.capdir, schemas)
        self.owncap = os.path.join(BUILD, "own", "owncapnp")
        gen_capnp(os.path.join(H, "capnp"), self.owncap, sorted(f for f in os.listdir(os.path.join(H, "capnp")) if f.endswith(".capnp")))
        self.hdrkey = digest(*[h + content(h).decode("latin1") for h in headers()], *[f + content(os.path.join(self.capdir, f)).decode("latin1") for f in sorted(os.listdir(self.capdir)) if f.endswith(".h")])
        hs = sorted(glob.glob(os.path.join(H, "*.hpp"))); self.hkey = digest(*[content(h) for h in hs])
        self.inc = ["-I" + os.path.join(BUILD, "gen"), "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "connection_scan_algorithm/include")]
        self.base = ["-std=c++17", "-w", "-DBOOST_BIND_GLOBAL_PLACEHOLDERS", "-pthread"] + self.spd
    def obj(self, src, variant, kind, defs=()):
        """kind: repo | cap | hn (harness, no repo headers) | hr (harness with repo headers) | own"""
        cxx, fl, _ = VARIANTS[variant]
        inc = {"repo": self.inc, "cap": self.inc, "hn": ["-I" + H, "-I" + os.path.join(BUILD, "own")], "hr": self.inc + ["-I" + H], "own": ["-I" + os.path.join(BUILD, "own")]}[kind]
        hk = {"repo": self.hdrkey, "cap": "", "hn": self.hkey, "hr": self.hkey + self.hdrkey, "own": ""}[kind]
        flags = self.base + fl + list(defs)
        key = digest(src, content(src), hk, cxx, *flags, *inc)
        out = os.path.join(BUILD, "obj", key + ".o")
        lang = ["-x", "c++"] if src.endswith(".c++") else []
        return (out, [cxx, *flags, *inc, "-c", *lang, src, "-o", out + ".tmp%d" % os.getpid()], src)
    def compile(self, jobs):
        os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
        def weight(j):
            s = j[2]
            return 0 if "http_server" in s else 1 if "osrmgeofilter" in s else 2 if "/harness/" in s else 3
        seen, todo = set(), []
        for j in jobs:
            if j[0] in seen or os.path.exists(j[0]): continue
            seen.add(j[0]); todo.append(j)
        def one(j):
            r = sh(j[1])
            if r.returncode: return j, r.stdout
            os.replace(j[1][-1], j[0]); return j, None
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for j, err in ex.map(one, sorted(todo, key=weight)):
                if err: self.errors[j[0]] = (j[2], err)
    def link(self, name, variant, objs, extra=()):
        cxx, fl, ll = VARIANTS[variant]
        out = os.path.join(BUILD, "bin", name + "-" + digest(variant, *objs, *extra)[:12])
        os.makedirs(os.path.dirname(out), exist_ok=True)
        if not os.path.exists(out):
            tmp = out + ".tmp%d" % os.getpid()
            r = sh([cxx, *objs, "-o", tmp, *ll, *self.spdl, "-lfmt", *LIBS, *extra])
            if r.returncode: self.errors[out] = (name, r.stdout); return None
            os.replace(tmp, out)
        for f in [out, *objs]: os.utime(f)      # used now: the pruning below takes the oldest
        return out

def build(need, hook=False):
    """need: set of 'vh' (harness), 'vh-asan', 'vh-tsan', 'server', 'server-asan', 'server-tsan'. Returns name -> path (None if it did not build)."""
    b = Builder(); plan = {}
    caps = sorted(glob.glob(os.path.join(b.capdir, "*.c++"))); own = sorted(glob.glob(os.path.join(b.owncap, "*.c++")))
    srcs = repo_sources(); jobs = []
    for n in need:
        var = n.split("-")[1] if "-" in n else "rel"
        defs = ("-DTRROUTING_VERIF",) if (n.startswith("vh")) else ()
        if n.startswith("server"):
            js = [b.obj(s, var, "repo") for s in srcs] + [b.obj(s, var, "cap") for s in caps]
        else:
            lib = [s for s in srcs if not s.endswith("transit_routing_http_server.cpp")]
            hn = [s for s in sorted(glob.glob(os.path.join(H, "*.cpp"))) if not os.path.basename(s).startswith("mem_")]
            hr = sorted(glob.glob(os.path.join(H, "mem_*.cpp")))
            js = [b.obj(s, var, "repo", defs + (("-fsanitize-coverage=inline-8bit-counters",) if var == "asan" else ())) for s in lib] + [b.obj(s, var, "cap") for s in caps] + [b.obj(s, var, "hn") for s in hn] + [b.obj(s, var, "hr", defs) for s in hr] + [b.obj(s, var, "own") for s in own]
        plan[n] = (var, js); jobs += js
    b.compile(jobs)
    out = {}
    for n, (var, js) in plan.items():
        objs = [j[0] for j in js]
        if all(os.path.exists(o) for o in objs): out[n] = b.link(n, var, objs)
        else: out[n] = None
        if out[n] is None and n.startswith("vh"):
            # the in-memory adapter does not build against this tree: fall back to the end-to-end searches only
            stub = b.obj(os.path.join(H, "nomem", "nomem.cpp"), var, "hn"); b.compile([stub])
            hn = [b.obj(s, var, "hn") for s in sorted(glob.glob(os.path.join(H, "*.cpp"))) if not os.path.basename(s).startswith("mem_")]
            ow = [b.obj(s, var, "own") for s in own]
            objs = [j[0] for j in hn + ow] + [stub[0]]
            if all(os.path.exists(o) for o in objs): out[n] = b.link(n + "-nomem", var, objs)
    for o, (s, e) in b.errors.items(): print("build error:", s, "\n", e[:1500], file=sys.stderr)
    # keep the build folder bounded
    for d in ("obj", "bin"):
        fs = sorted(glob.glob(os.path.join(BUILD, d, "*")), key=os.path.getmtime)
        tot = sum(os.path.getsize(f) for f in fs)
        while tot > 3_000_000_000 and fs:
            f = fs.pop(0); tot -= os.path.getsize(f); os.remove(f)
    return out

if __name__ == "__main__":
    t = time.time(); r = build(set(sys.argv[1:]) or {"vh", "server"})
    for k, v in r.items(): print(k, v)
    print("%.1f s" % (time.time() - t)); sys.exit(0 if all(r.values()) else 1)
