#!/usr/bin/env python3
"""Incremental, content-hash based build of the vmime sources of /repo's working tree
(with ASan+UBSan) and of the harnesses of /verif/mc/harness.  Nothing is written outside
/verif/build.  An object is rebuilt iff the content of one of the files it was compiled
from (as listed by the compiler's own dependency file) or the flags changed."""
import sys, os, json, hashlib, subprocess, fcntl, concurrent.futures as cf, shutil

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(V, "build")
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
       "-fno-sanitize=vptr", "-fno-omit-frame-pointer"]
CXX = "g++"
BASE = ["-std=c++17", "-w", "-pthread", "-D_REENTRANT=1", "-DVMIME_STATIC",
        "-I" + V + "/mc/gen", "-I" + REPO, "-I" + REPO + "/src"]
LIBFLAGS = BASE + ["-O1", "-g1"] + SAN
HFLAGS = BASE + ["-O1", "-g1", "-I" + V + "/mc"] + SAN
LIBS = ["-lgnutls", "-lgsasl", "-licuuc", "-licudata", "-licui18n", "-lpthread"]
# C43 runs code instrumented for the detection of data races, on the runtime mc/rt/tsanrt.cpp
TSAN = {"C43"}
TFLAGS = ["-O1", "-g1", "-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0", "-D_GLIBCXX_EXTERN_TEMPLATE=0"]
JOBS = int(os.environ.get("VERIF_JOBS", "8"))

_h = {}
def fhash(p):
    if p not in _h:
        try:
            with open(p, "rb") as f: _h[p] = hashlib.sha1(f.read()).hexdigest()
        except OSError:
            _h[p] = "absent"
    return _h[p]

def sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        for f in fs:
            if f.endswith(".cpp"): out.append(os.path.join(d, f))
    return sorted(out)

def deps_of(dfile):
    with open(dfile) as f: t = f.read().replace("\\\n", " ")
    t = t.split(":", 1)[1]
    return [x for x in t.split() if not x.startswith("/usr/")]

class Obj:
    def __init__(s, src, obj, flags): s.src, s.obj, s.flags = src, obj, flags

def uptodate(o, db):
    e = db.get(o.obj)
    if not e or e["flags"] != o.flags or e["src"] != o.src or not os.path.exists(o.obj): return False
    return all(fhash(p) == h for p, h in e["deps"].items())

def compile_one(o):
    os.makedirs(os.path.dirname(o.obj), exist_ok=True)
    d = o.obj[:-2] + ".d"
    r = subprocess.run([CXX] + o.flags + ["-MD", "-MF", d, "-c", o.src, "-o", o.obj],
                       capture_output=True, text=True)
    if r.returncode != 0:
        return o, None, r.stderr[-4000:]
    return o, {p: fhash(p) for p in deps_of(d)}, None

def build(harnesses, quiet=True):
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        dbf = os.path.join(B, "db.json")
        try:
            with open(dbf) as f: db = json.load(f)
        except Exception: db = {}
        objs, libobjs, tlibobjs = [], [], []
        plain = [h for h in harnesses if h not in TSAN]; tsan = [h for h in harnesses if h in TSAN]
        for s in sources():
            rel = os.path.relpath(s, os.path.join(REPO, "src"))
            o = Obj(s, os.path.join(B, "obj", rel[:-4] + ".o"), LIBFLAGS)
            if plain: objs.append(o)
            libobjs.append(o.obj)
            o = Obj(s, os.path.join(B, "tobj", rel[:-4] + ".o"), BASE + TFLAGS)
            if tsan: objs.append(o)
            tlibobjs.append(o.obj)
        hobj = {}
        for h in harnesses:
            o = Obj(os.path.join(V, "mc", "harness", h + ".cpp"), os.path.join(B, "hobj", h + ".o"),
                    BASE + TFLAGS + ["-I" + V + "/mc"] if h in TSAN else HFLAGS)
            objs.append(o); hobj[h] = o.obj
        rtobj = os.path.join(B, "hobj", "tsanrt.o")
        if tsan: objs.append(Obj(os.path.join(V, "mc", "rt", "tsanrt.cpp"), rtobj, ["-std=c++17", "-w", "-O2", "-fno-builtin"]))
        todo = [o for o in objs if not uptodate(o, db)]
        todo.sort(key=lambda o: -os.path.getsize(o.src))
        # harnesses first: they are the slowest to compile
        todo.sort(key=lambda o: 0 if "/hobj/" in o.obj else 1)
        err = None
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for o, deps, e in ex.map(compile_one, todo):
                if e: err = err or "%s: %s" % (o.src, e); db.pop(o.obj, None)
                else: db[o.obj] = {"flags": o.flags, "src": o.src, "deps": deps}
        libs = {}
        for key, on, name, objl in (("#lib", plain, "libvmime_mc.a", libobjs), ("#tlib", tsan, "libvmime_tsan.a", tlibobjs)):
            if not on: continue
            lib = os.path.join(B, name)
            libsig = hashlib.sha1("".join(x + fhash_obj(db, x) for x in objl).encode()).hexdigest()
            if not err and (db.get(key) != libsig or not os.path.exists(lib)):
                if os.path.exists(lib): os.unlink(lib)
                subprocess.run(["ar", "rcsT", lib] + objl, check=True)
                db[key] = libsig
            libs[key] = (lib, libsig)
        links = []
        os.makedirs(os.path.join(B, "bin"), exist_ok=True)
        if not err:
            for h in harnesses:
                out = os.path.join(B, "bin", h)
                lib, libsig = libs["#tlib" if h in TSAN else "#lib"]
                sig = libsig + fhash_obj(db, hobj[h]) + (fhash_obj(db, rtobj) if h in TSAN else "")
                if db.get("#bin:" + h) != sig or not os.path.exists(out):
                    links.append((h, out, sig, lib))
            def link(x):
                h, out, sig, lib = x
                r = subprocess.run([CXX] + (["-rdynamic", "-pthread", "-o", out, hobj[h], rtobj] if h in TSAN else SAN + ["-pthread", "-o", out, hobj[h]]) + [lib] + LIBS + ["-ldl"],
                                   capture_output=True, text=True)
                return x, (None if r.returncode == 0 else r.stderr[-4000:])
            with cf.ThreadPoolExecutor(JOBS) as ex:
                for (h, out, sig, lib), e in ex.map(link, links):
                    if e: err = err or "link %s: %s" % (h, e)
                    else: db["#bin:" + h] = sig
        tmp = dbf + ".tmp"
        with open(tmp, "w") as f: json.dump(db, f)
        os.replace(tmp, dbf)
        if err:
            sys.stderr.write("BUILD ERROR: " + err + "\n")
            return None
        if not quiet: print("compiled %d objects, linked %d" % (len(todo), len(links)))
        return {h: os.path.join(B, "bin", h) for h in harnesses}

def fhash_obj(db, x):
    e = db.get(x)
    return hashlib.sha1(json.dumps([e["flags"], e["deps"]], sort_keys=True).encode()).hexdigest() if e else "?"

def all_harnesses():
    return sorted(f[:-4] for f in os.listdir(os.path.join(V, "mc", "harness")) if f.endswith(".cpp"))

if __name__ == "__main__":
    hs = sys.argv[1:] or all_harnesses()
    sys.exit(0 if build(hs, quiet=False) is not None else 2)
