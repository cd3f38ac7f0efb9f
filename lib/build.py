"""Builds harness binaries from /repo's working tree (always; objects are cached by content hash)."""
import hashlib, os, subprocess, sys, glob, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("WSS_REPO", "/repo")
OUT = os.path.join(VERIF, "_build")

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        sys.stderr.write(" ".join(cmd) + "\n" + r.stdout[-6000:] + "\n")
        raise SystemExit(2)
    return r.stdout

MARCH = {"avx2": "-march=x86-64-v3", "sse": "-march=x86-64-v2", "avx512": "-march=x86-64-v4 -mavx512vbmi", "sse2": "-march=x86-64",
         "scalar": "-march=x86-64 -U__SSE2__ -U__AVX2__ -U__AVX__ -U__AVX512F__"}
INC = ["-I%s/include" % REPO, "-I%s/src" % REPO, "-I%s/extensions" % REPO, "-I%s/subprotocols" % REPO]
DEFS = ["-D_DEFAULT_SOURCE", '-DWSS_SERVER_VERSION="v2.0.0"', "-DFIPS_mode_set(x)=(0)"]
ASAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]

def src_hash():
    h = hashlib.sha256()
    for d in ("src", "include", "extensions", "subprotocols"):
        for root, _, fs in sorted(os.walk(os.path.join(REPO, d))):
            for f in sorted(fs):
                if f.endswith((".c", ".h")):
                    p = os.path.join(root, f)
                    h.update(p.encode()); h.update(open(p, "rb").read())
    return h

def harness_hash():
    h = hashlib.sha256()
    for f in sorted(glob.glob(VERIF + "/h/*") + [__file__]):
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()

class Unit:
    """One compile: source, flags, compiler; header contents enter the key through the tree hash."""
    def __init__(self, cc, src, flags, key, post=None):
        if os.environ.get("WSS_COV"):   # see PBT_COV in h/pbt.cpp
            flags = [f.replace("8bit-counters", "8bit-counters,pc-table") for f in flags]
        self.cc, self.src, self.flags, self.post = cc, src, flags, post
        self.key = hashlib.sha256(("%s|%s|%s|%s|%s" % (cc, src, " ".join(flags), key, post)).encode()).hexdigest()[:24]
        self.obj = os.path.join(OUT, "o", self.key + ".o")
    def build(self):
        if os.path.exists(self.obj):
            return self.obj
        tmp = self.obj + ".%d.tmp.o" % os.getpid()
        sh([self.cc] + self.flags + ["-c", self.src, "-o", tmp])
        if self.post:
            for cmd in self.post:
                sh([c.replace("@", tmp) for c in cmd])
        os.rename(tmp, self.obj)
        return self.obj

def link(units, out_name, flags, jobs=8):
    os.makedirs(os.path.join(OUT, "o"), exist_ok=True)
    with cf.ThreadPoolExecutor(jobs) as ex:
        objs = list(ex.map(lambda u: u.build(), units))
    k = hashlib.sha256((" ".join(objs) + " ".join(flags)).encode()).hexdigest()[:16]
    exe = os.path.join(OUT, out_name + "-" + k)
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        sh(["clang++"] + objs + ["-o", tmp] + flags)
        os.rename(tmp, exe)
    return exe

def repo_units(march="avx2", asan=True, rpmalloc=False, ndebug=True, ssl=True, cov=True, only=None, skip=("main.c",), extra=(), opt="-O1", cc="clang"):
    key = src_hash().hexdigest()
    fl = [opt, "-g", "-std=c11", "-w", "-pthread"] + MARCH[march].split() + list(DEFS) + INC
    if asan: fl += ASAN
    if cov: fl += ["-fsanitize-coverage=inline-8bit-counters"]
    if ndebug: fl += ["-DNDEBUG"]
    if rpmalloc: fl += ["-DUSE_RPMALLOC"]
    if ssl: fl += ["-DUSE_OPENSSL"]
    fl += list(extra)
    us = []
    for p in sorted(glob.glob(REPO + "/src/**/*.c", recursive=True)):
        b = os.path.basename(p)
        if b in skip or (only and b not in only): continue
        us.append(Unit(cc, p, fl, key))
    return us

def harness_units(files, asan=True, rpmalloc=False, ndebug=True, extra=()):
    key = src_hash().hexdigest() + harness_hash()
    fl = ["-O1", "-g", "-std=c++17", "-w", "-pthread", "-march=x86-64-v3", "-I%s/h" % VERIF] + list(DEFS) + INC
    fl += ASAN if asan else []
    if ndebug: fl += ["-DNDEBUG"]
    if rpmalloc: fl += ["-DUSE_RPMALLOC"]
    fl += ["-DUSE_OPENSSL"] + list(extra)
    return [Unit("clang++", "%s/h/%s" % (VERIF, f), fl, key) for f in files]

LIBS = ["-pthread", "-lm", "-ldl", "-lssl", "-lcrypto", "-lz", "-rdynamic"]

def codec(march):
    us = repo_units(march=march) + harness_units(["pbt.cpp", "props_frame.cpp"])
    return link(us, "codec-" + march, ASAN + LIBS)

WRAP = """accept accept4 bind clock_gettime close epoll_create1 epoll_ctl epoll_wait exit fcntl listen localtime nanosleep pipe poll pthread_cond_broadcast pthread_cond_destroy
pthread_cond_init pthread_cond_signal pthread_cond_timedwait pthread_cond_wait pthread_create pthread_detach pthread_exit pthread_join
pthread_mutex_destroy pthread_mutex_init pthread_mutex_lock pthread_mutex_timedlock pthread_mutex_trylock pthread_mutex_unlock
pthread_rwlock_destroy pthread_rwlock_init pthread_rwlock_rdlock pthread_rwlock_tryrdlock pthread_rwlock_trywrlock pthread_rwlock_unlock
pthread_rwlock_wrlock read recv regexec sched_yield send sendmsg setrlimit setsockopt shutdown sigaction sleep socket SSL_read time usleep write writev""".split()
WRAPF = ["-Wl,--wrap=" + w for w in WRAP]
NOGUARD = {"json.c", "rpmalloc.c", "utf8.c", "sha1.c", "b64.c", "log.c", "str.c"}   # no preemption inside

def shared(name, units, flags):
    """A plug-in as the server loads it: a shared object, hidden symbols, calls wrapped like the server's."""
    os.makedirs(os.path.join(OUT, "o"), exist_ok=True)
    objs = [u.build() for u in units]
    k = hashlib.sha256((" ".join(objs) + " ".join(flags)).encode()).hexdigest()[:16]
    d = os.path.join(OUT, "plug-" + k); so = os.path.join(d, name + ".so")
    if not os.path.exists(so):
        os.makedirs(d, exist_ok=True)
        tmp = so + ".%d.tmp" % os.getpid()
        sh(["clang", "-shared"] + objs + ["-o", tmp] + flags)
        os.rename(tmp, so)
    return so

def plugins():
    key = src_hash().hexdigest()
    fl = ["-O1", "-g", "-std=c11", "-w", "-pthread", "-fPIC", "-fvisibility=hidden", "-march=x86-64-v3", "-DNDEBUG", "-fsanitize-coverage=inline-8bit-counters,trace-pc-guard"] + list(DEFS) + INC + ASAN
    out = {}
    for path in sorted(glob.glob(REPO + "/subprotocols/*/*.c") + glob.glob(REPO + "/extensions/*/*.c")):
        n = os.path.basename(os.path.dirname(path))
        out.setdefault(n, []).append(Unit("clang", path, fl, key))
    for f in sorted(glob.glob(VERIF + "/h/plug_*.c")):
        out[os.path.basename(f)[5:-2]] = [Unit("clang", f, [x for x in fl if "coverage" not in x], key + harness_hash())]
    ifc = {"sub": "setAllocators onInit onConnect onMessage onWrite onClose onDestroy".split(),
           "ext": "setAllocators onInit onOpen inFrame inFrames outFrame outFrames onClose onDestroy".split()}
    for kind, fns in ifc.items():   # copies of these are loaded by S03: complete, each function missing, not loadable, with a Python start function
        for n, d in [("all", []), ("py", ["-DPYNAME=PyInit_py" + kind]), ("unresolved", ["-DUNRESOLVED"])] + [(f, ["-D%s=not_%s" % (f, f)]) for f in fns]:
            out["load_%s_%s" % (kind, n)] = [Unit("clang", "%s/h/load_%s.inc" % (VERIF, kind), [x for x in fl if "coverage" not in x] + d + ["-x", "c"], key + harness_hash())]
    sos = {n: shared(n, us, ASAN + WRAPF + ["-lz", "-lm", "-Wl,-z,lazy"]) for n, us in out.items()}
    k = hashlib.sha256(" ".join(sorted(sos.values())).encode()).hexdigest()[:16]
    d = os.path.join(OUT, "plugins-" + k)
    os.makedirs(d, exist_ok=True)
    for n, so in sos.items():
        l = os.path.join(d, n + ".so")
        if not os.path.exists(l):
            t = l + ".%d" % os.getpid()
            os.link(so, t); os.rename(t, l)
    return d

def sim(files=("props_ws.cpp", "props_http.cpp", "props_life.cpp", "props_robust.cpp", "props_tls.cpp", "props_pmd.cpp", "props_plug.cpp", "props_load.cpp", "props_oom.cpp", "props_start.cpp"), name="server", poll=False):
    pd = plugins()
    cov = "-fsanitize-coverage=inline-8bit-counters,trace-pc-guard"
    failing = tuple("-D%s=sim_%s" % (f, f) for f in ("malloc", "calloc", "realloc"))    # of alloc.c: sim_fail_alloc lets them fail
    poll_def = ("-DUSE_POLL",) if poll else ()
    us = repo_units(cov=False, only={"alloc.c"}, extra=(cov,) + failing + poll_def) + repo_units(cov=False, skip=tuple(NOGUARD) + ("alloc.c",), extra=(cov, "-Dmain=wss_main") + poll_def) + repo_units(only=NOGUARD, skip=("rpmalloc.c",))
    hs = harness_units(["pbt.cpp", "sim.cpp", "world.cpp"] + list(files), extra=(("-DVARIANT_POLL",) if poll else ()) + ('-DPLUGDIR="%s"' % pd, '-DREPO="%s"' % REPO, "-D_GNU_SOURCE"))
    return link(us + hs, name + ("-poll" if poll else ""), ASAN + LIBS + WRAPF)

def conf():
    us = repo_units(skip=()  , extra=("-Dmain=wss_main",))
    hs = harness_units(["pbt.cpp", "props_conf.cpp"])
    return link(us + hs, "conf", ASAN + LIBS + ["-Wl,--wrap=WSS_server_start"])

def mods(rp=False):
    """The modules below the server, under the simulated scheduler and preemptible at every access."""
    fine = ("ringbuf.c", "pool.c", "session.c", "alloc.c") + (("rpmalloc.c",) if rp else ())
    us = repo_units(cov=False, only=fine, rpmalloc=rp, extra=("-fsanitize-coverage=inline-8bit-counters,trace-pc-guard,trace-loads,trace-stores",)) + repo_units(rpmalloc=rp, skip=fine + ("rpmalloc.c",), extra=("-Dmain=wss_main",))
    hs = harness_units(["pbt.cpp", "sim.cpp", "props_mod.cpp"], rpmalloc=rp, extra=("-D_GNU_SOURCE",))
    return link(us + hs, "mods" + ("-rp" if rp else ""), ASAN + LIBS + WRAPF)

if __name__ == "__main__":
    for m in sys.argv[1:]:
        print(sim() if m == "sim" else sim(poll=True) if m == "poll" else mods() if m == "mods" else mods(True) if m == "mods-rp" else conf() if m == "conf" else codec(m))
