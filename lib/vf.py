"""Shared machinery of all checks: builds from /repo's working tree, worker processes, verdicts, evidence."""
import glob, concurrent.futures as cf
import hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
JOBS = int(os.environ.get("VERIF_JOBS", str(min(8, os.cpu_count() or 4))))
PY = "/usr/bin/python3"

MISSING = ("control_load_aspif control_register_backend control_remove_minimize control_update_project "
           "model_is_consequence model_priority propagate_init_get_undo_mode propagate_init_set_undo_mode "
           "solve_handle_last").split()


class HarnessError(Exception):
    """The check itself could not run (build failure, missing tool): an error exit, never a verdict."""


def scale(quick, thorough):
    return thorough if TIER == "thorough" else quick


# ---------------------------------------------------------------------------------------------- builds

def _hash_tree(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        if os.path.isfile(p):
            files = [p]
        else:
            files = []
            for d, dn, fn in os.walk(p):
                dn[:] = sorted(x for x in dn if x not in ("tests", "__pycache__", "_build", ".git"))
                files += [os.path.join(d, f) for f in sorted(fn)]
        for f in files:
            if f.endswith((".pyc", ".so", ".o")):
                continue
            h.update(f.encode())
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


_GIT_LOCK = threading.Lock()


def build_once(name, deps, flags, fn):
    """Runs fn(outdir) unless a build of the very same sources and flags exists."""
    key = _hash_tree([*deps, f"{VERIF}/shim/missing.c"], name + " " + flags)
    out = os.path.join(BUILD, f"{name}-{key}")
    ok = os.path.join(out, ".ok")
    if os.path.exists(ok):
        return out
    if os.path.isdir(BUILD):  # older builds of the same thing are stale: drop them
        for d in os.listdir(BUILD):
            if d.startswith(name + "-") and re.fullmatch(re.escape(name) + r"-[0-9a-f]{20}", d) and d != os.path.basename(out):
                shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
    os.makedirs(out, exist_ok=True)
    fn(out)
    open(ok, "w").close()
    return out


def run_cmd(cmd, what, timeout=800, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)
    if r.returncode != 0:
        raise HarnessError(f"{what} failed ({r.returncode}): {' '.join(cmd)}\n" + r.stdout.decode(errors="replace")[-4000:])
    return r


def build_mock():
    """Recording stand-ins for the functions the installed engine lacks (see shim/missing.c)."""
    src = f"{VERIF}/shim/missing.c"

    def do(out):
        run_cmd(["gcc", "-O1", "-w", "-fPIC", "-shared", f"-I{REPO}/libclingo", src, "-o", out + "/libclingomock.so", "-Wl,-soname,libclingomock.so", "-lclingo", "-ldl"], "building the stand-ins")
    with _GIT_LOCK:
        return build_once("mock", [src, f"{REPO}/libclingo/clingo.h"], "", do)


def defsyms():
    m = build_mock()
    return [f"-L{m}", "-Wl,--no-as-needed", "-lclingomock", f"-Wl,-rpath,{m}", "-lclingo"]


SAN = {
    "": [],
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-g1"],
    "tsan": ["-fsanitize=thread", "-g1"],
}


def san_env(env, san, suppress=""):
    if san == "asan":
        env["ASAN_OPTIONS"] = env.get("ASAN_OPTIONS") or "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=0" + suppress
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    if san == "tsan":
        env["TSAN_OPTIONS"] = "halt_on_error=0:exitcode=66:report_signal_unsafe=0"
    return env


def py_include():
    return ["-I/usr/include/python3.12"]


def build_py(engine=None, san=""):
    """The Python extension module of the tree; engine=None links the installed libclingo."""
    src = f"{REPO}/app/pyclingo/_clingo.c"
    deps = [src, f"{REPO}/libclingo/clingo.h"] + ([engine + "/libclingo.so"] if engine else [])

    def do(out):
        cmd = ["gcc", "-O0", "-w", "-DNDEBUG", "-D_CFFI_NO_LIMITED_API", "-fPIC", "-shared", *SAN[san], f"-I{REPO}/libclingo", *py_include(), src,
               "-o", out + "/_clingo.so"]
        if engine:
            cmd += [f"-L{engine}", "-lclingo", f"-Wl,-rpath,{engine}"]
        else:
            cmd += defsyms()
        run_cmd(cmd, "building the Python module")
    return build_once("py" + san + ("-tree" if engine else ""), deps, str(engine), do)


def build_lua(engine=None, san=""):
    deps = [f"{REPO}/libluaclingo", f"{REPO}/app/luaclingo", f"{REPO}/libclingo/clingo.h"] + ([engine + "/libclingo.so"] if engine else [])

    def do(out):
        cmd = ["g++", "-std=c++14", "-O0" if not san else "-O1", "-w", "-fPIC", "-shared", *SAN[san], f"-I{REPO}/libclingo", f"-I{REPO}/libluaclingo",
               "-I/usr/include/lua5.4", f"{REPO}/app/luaclingo/main.cc", f"{REPO}/libluaclingo/luaclingo.cc", "-o", out + "/clingo.so"]
        cmd += [f"-L{engine}", "-lclingo", f"-Wl,-rpath,{engine}"] if engine else defsyms()
        run_cmd(cmd, "building the Lua module")
    return build_once("lua" + san + ("-tree" if engine else ""), deps, str(engine), do)


def build_cc(name, src, engine=None, san="", opt="-O0", flags=(), libs=(), deps=()):
    """A C++ program over clingo.hh."""
    alldeps = [src, f"{REPO}/libclingo/clingo.h", f"{REPO}/libclingo/clingo.hh", *deps] + ([engine + "/libclingo.so"] if engine else [])

    def do(out):
        lang = ["-std=c++17"] if src.endswith(".cc") else []
        cmd = ["g++" if src.endswith(".cc") else "gcc", *lang, opt, "-w", *SAN[san], f"-I{REPO}/libclingo", *flags, src, "-o", f"{out}/{name}"]
        cmd += [f"-L{engine}", "-lclingo", f"-Wl,-rpath,{engine}"] if engine else defsyms()
        cmd += [*libs, "-pthread"]
        run_cmd(cmd, "building " + name)
    return build_once("cc-" + name + san + ("-tree" if engine else ""), alldeps, f"{engine} {opt} {flags} {libs}", do) + "/" + name


def build_ref(name, src, flags=()):
    """A C++ program over the headers and the library that are installed: nothing in it comes from the tree."""
    def do(out):
        run_cmd(["g++", "-std=c++17", "-O0", "-w", "-DDRV_REF", *flags, src, "-o", f"{out}/{name}", "-lclingo", "-pthread"], "building the reference " + name)
    return build_once("ref-" + name, [src], str(flags), do) + "/" + name


def build_app(san=""):
    """app/clingo with embedded Python and Lua, as /opt/vp/build.sh builds it (installed libclingo)."""
    deps = [f"{REPO}/app/clingo/main.cc", f"{REPO}/libpyclingo/_clingo.c", f"{REPO}/libpyclingo/pyclingo.c", f"{REPO}/libpyclingo/pyclingo.h",
            f"{REPO}/libpyclingo/version.h.in", f"{REPO}/libluaclingo", f"{REPO}/libclingo/clingo.h", f"{REPO}/libclingo/clingo.hh"]

    def do(out):
        with open(f"{REPO}/libpyclingo/version.h.in") as f:
            t = f.read().replace("@Python_VERSION@", "3.12")
        t = re.sub(r"@[A-Za-z_]+@", "3.12", t)
        with open(out + "/version.h", "w") as f:
            f.write(t)
        objs, procs = [], []
        inc = [f"-I{REPO}/libclingo", f"-I{REPO}/libpyclingo", f"-I{REPO}/libluaclingo", "-I" + out, *py_include(), "-I/usr/include/lua5.4"]
        for s, cc, fl in [(f"{REPO}/libpyclingo/_clingo.c", "gcc", []), (f"{REPO}/libpyclingo/pyclingo.c", "gcc", []),
                          (f"{REPO}/libluaclingo/luaclingo.cc", "g++", ["-std=c++14"]), (f"{REPO}/app/clingo/main.cc", "g++", ["-std=c++14"])]:
            o = out + "/" + os.path.basename(s) + ".o"
            objs.append(o)
            procs.append(["%s" % cc, *fl, "-O0", "-w", "-DNDEBUG", "-DCLINGO_WITH_PYTHON", "-DCLINGO_WITH_LUA", "-DPYCLINGO_BUILD_LIBRARY", *SAN[san], *inc, "-c", s, "-o", o])
        parallel(lambda c: run_cmd(c, "building the clingo application"), procs)
        run_cmd(["g++", *SAN[san], *objs, "-o", out + "/clingo", *defsyms(), "-lpython3.12", "-llua5.4", "-pthread"], "linking the clingo application")
    return build_once("app" + san, deps, "", do) + "/clingo"


ENGINE_FLAGS = ["-std=c++17", "-DCLINGO_MAP_TYPE=0", "-DCLINGO_NO_VISIBILITY", f"-I{VERIF}/shim/include", f"-I{REPO}/libgringo", f"-I{REPO}/libreify", f"-I{REPO}/libclingo"]


def build_engine(san="", opt="-O0", extra=()):
    """The engine's own sources (libgringo, libreify, the syntax trees of libclingo) with the generated parsers, as a static library; returns its directory."""
    roots = [f"{REPO}/libgringo/gringo", f"{REPO}/libgringo/src", f"{REPO}/libreify/reify", f"{REPO}/libreify/src", f"{REPO}/libclingo/src", f"{REPO}/libclingo/clingo", f"{REPO}/libclingo/clingo.h", f"{VERIF}/shim/include"]

    def do(out):
        gi, so = f"{out}/src/input", f"{REPO}/libgringo/src/input"
        for g in ("groundtermgrammar", "nongroundgrammar"):
            os.makedirs(f"{gi}/{g}", exist_ok=True)
            run_cmd(["bison", "-Wno-everything", "-d", "-o", f"{gi}/{g}/grammar.cc", f"{so}/{g}.yy"], "generating the parsers")
        run_cmd(["re2c", "-o", f"{gi}/groundtermlexer.hh", f"{so}/groundtermlexer.xh"], "generating the lexers")
        run_cmd(["re2c", "-c", "-o", f"{gi}/nongroundlexer.hh", f"{so}/nongroundlexer.xch"], "generating the lexers")
        for p in ("clingopath.hh.in",):
            for d, _, fn in os.walk(f"{REPO}/libgringo"):
                if p in fn:
                    with open(os.path.join(d, p)) as f: t = f.read().replace("@CLINGO_CLINGOPATH@", "")
                    with open(f"{gi}/clingopath.hh", "w") as f: f.write(t)
        srcs = sorted(glob.glob(f"{REPO}/libgringo/src/**/*.cc", recursive=True)) + sorted(glob.glob(f"{out}/src/**/*.cc", recursive=True)) + sorted(glob.glob(f"{REPO}/libreify/src/*.cc")) + sorted(glob.glob(f"{REPO}/libclingo/src/astv2*.cc"))
        os.makedirs(f"{out}/o", exist_ok=True)

        def one(s):
            o = f"{out}/o/" + s.replace("/", "_") + ".o"
            run_cmd(["g++", *ENGINE_FLAGS, f"-I{out}/src", opt, "-w", *SAN[san], *extra, "-c", s, "-o", o], "building the engine")
            return o
        objs = parallel(one, sorted(srcs, key=lambda f: -os.path.getsize(f)))
        run_cmd(["ar", "rcs", f"{out}/libengine.a", *objs], "building the engine")
        shutil.rmtree(f"{out}/o")
    return build_once("engine" + san, roots, f"{opt} {extra}", do)


def build_engine_prog(name, src, san="", opt="-O0", flags=(), extra=()):
    e = build_engine(san, opt, extra)

    def do(out):
        run_cmd(["g++", *ENGINE_FLAGS, f"-I{e}/src", opt, "-w", *SAN[san], *extra, *flags, src, f"{e}/libengine.a", "-o", f"{out}/{name}", "-pthread"], "building " + name)
    return build_once(f"eng-{name}{san}", [src, f"{e}/libengine.a"], f"{opt} {flags} {extra}", do) + "/" + name


def parallel(fn, items, jobs=None):
    with cf.ThreadPoolExecutor(jobs or JOBS) as ex:
        return list(ex.map(fn, items))


def base_env():
    env = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "LUA", "LD_", "ASAN", "UBSAN", "TSAN"))}
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["LC_ALL"] = "C.UTF-8"
    return env


def py_env(pydir, extra=()):
    env = base_env()
    env["PYTHONPATH"] = ":".join([pydir, f"{REPO}/libpyclingo", f"{VERIF}/lib", f"{VERIF}/drv", *extra])
    return env


# ---------------------------------------------------------------------------------------------- processes

class Proc:
    def __init__(self, rc, out, err, timeout):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout

    @property
    def crashed(self):
        return self.rc is not None and self.rc < 0


def run(cmd, stdin=None, env=None, timeout=60, cwd=None, mem_mb=6000):
    """Runs a process in its own group; on time-out the whole group is killed."""
    def pre():
        os.setsid()
        import resource
        if mem_mb:
            resource.setrlimit(resource.RLIMIT_AS, (mem_mb << 20, mem_mb << 20))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         env=env, cwd=cwd, preexec_fn=pre)
    if isinstance(stdin, str):
        stdin = stdin.encode()
    try:
        o, e = p.communicate(stdin, timeout=timeout)
        to = False
    except subprocess.TimeoutExpired:
        to = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
    return Proc(None if to else p.returncode, o.decode(errors="backslashreplace"), e.decode(errors="backslashreplace"), to)


# ---------------------------------------------------------------------------------------------- verdicts

KNOWN_FILE = os.path.join(VERIF, "known-findings.txt")


def known_findings(pid):
    """Lines 'property=<id> key=<key> <text>'; fixed entries start with 'fixed:' and suppress nothing."""
    res = {}
    if os.path.exists(KNOWN_FILE):
        for line in open(KNOWN_FILE):
            m = re.match(r"property=(\S+) key=(\S+)\s*(.*)", line.strip())
            if m and m.group(1) == pid:
                res[m.group(2)] = m.group(3)
    return res


class Check:
    def __init__(self, pid, level="exploration", rule=""):
        self.pid, self.level, self.rule = pid, level, rule
        self.t0 = time.time()
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.counters = {}
        self.viol = {}
        self.inconclusive = []
        self.assumptions = []
        self.lock = threading.Lock()
        self.known = known_findings(pid)
        self.rng = random.Random(f"{SEED}-{pid}")

    def count(self, name, n=1):
        with self.lock:
            self.counters[name] = self.counters.get(name, 0) + n

    def case(self, key=None, n=1, sample=None, nontrivial=True):
        with self.lock:
            self.evals += n
            if key is not None and nontrivial:
                self.distinct.add(hashlib.sha1(str(key).encode()).digest()[:8])
            if sample is not None and len(self.samples) < 6:
                self.samples.append(sample)

    def violation(self, key, what, replay=None):
        """key names the specific failing input/site (matched against the known findings)."""
        key = re.sub(r"\s+", "_", key)[:160]
        with self.lock:
            if key not in self.viol:
                self.viol[key] = (what, replay)

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        new = 0
        for key, (what, replay) in self.viol.items():
            if key in self.known:
                print(f"KNOWN-FINDING: property={self.pid} {key} {self.known[key]}")
                continue
            new += 1
            if new > 8:
                continue
            path = os.path.join(VERIF, "evidence", "replay", f"{self.pid}-{new}.json")
            with open(path, "w") as f:
                json.dump({"property": self.pid, "key": key, "what": what, "seed": SEED, "tier": TIER, "replay": replay}, f, indent=1, default=str)
            print(f"VIOLATION property={self.pid} replay={path}")
            print("  " + key + ": " + str(what)[:600].replace("\n", "\n    "))
        cov = {"evaluations": self.evals, "distinct_nontrivial": len(self.distinct), "rule": self.rule, "samples": self.samples or ["(none)"]}
        for k, v in sorted(self.counters.items()):
            cov["observed_" + k] = v
        if self.inconclusive:
            cov["inconclusive"] = self.inconclusive[:20]
        ev = {"property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": new}
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        if new:
            print(f"{self.pid}: {new} violation(s)")
            sys.stdout.flush()
            return 1
        if self.evals == 0:
            raise HarnessError("nothing was observed")
        print(f"{self.pid}: held on {self.evals} cases ({len(self.distinct)} distinct), {ev['wall_s']} s {self.counters}")
        if self.inconclusive:
            print(f"{self.pid}: {len(self.inconclusive)} inconclusive: {self.inconclusive[:3]}")
        sys.stdout.flush()
        return 0


def main(fn, pid, level="exploration", rule=""):
    c = Check(pid, level, rule)
    try:
        fn(c)
        rc = c.finish()
    except HarnessError as e:
        print(f"{pid}: harness error: {e}", file=sys.stderr)
        if c.viol:
            rc = c.finish()
        else:
            rc = 3
    sys.exit(rc)


class Rec:
    """Stand-in for Check inside a forked shard; its messages are merged by shards()."""
    def __init__(self, pid, idx):
        self.pid, self.idx = pid, idx
        self.rng = random.Random(f"{SEED}-{pid}-{idx}")
        self.ev = []
        self.n = 0

    def case(self, key=None, n=1, sample=None, nontrivial=True):
        self.n += 1
        self.ev.append(("case", (None if key is None else hashlib.sha1(str(key).encode("utf-8", "replace")).hexdigest()[:16], n, sample if self.n < 3 else None, nontrivial)))
    def count(self, name, n=1): self.ev.append(("count", (name, n)))
    def violation(self, key, what, replay=None): self.ev.append(("violation", (key, str(what)[:6000], replay)))
    def note(self, what): self.ev.append(("note", (what,)))


def shards(chk, fn, n, jobs=None):
    """Runs fn(rec, idx) for idx in range(n) in forked processes and merges what they recorded."""
    import multiprocessing as mp
    ctx = mp.get_context("fork")

    def one(i):
        r, w = ctx.Pipe(False)

        def body():
            rec = Rec(chk.pid, i)
            try:
                fn(rec, i)
                err = None
            except HarnessError as e:
                err = "H" + str(e)
            except BaseException:
                import traceback
                err = "X" + traceback.format_exc()
            w.send((rec.ev, err))
            w.close()
        p = ctx.Process(target=body)
        p.start()
        w.close()
        try:
            ev, err = r.recv()
        except EOFError:
            ev, err = [], "Xshard died"
        p.join()
        for kind, a in ev:
            if kind == "note":
                with chk.lock: chk.inconclusive.append(a[0])
            else: getattr(chk, kind)(*a)
        if err and err[0] == "H": raise HarnessError(f"shard {i}: {err[1:]}")
        if err: chk.violation("monitor-" + err.strip().splitlines()[-1][:80], f"the monitor could not make sense of what it observed (shard {i}): {err[1:]}", None)
    parallel(one, range(n), jobs)


def tmpdir(prefix="vf-"):
    return tempfile.mkdtemp(prefix=prefix)


# ---------------------------------------------------------------------------------------------- batch workers

def py_batches(chk, script, pydir, batches, timeout=240, extra_env=None, key=None, args=(), san="", cmd=None, confirm=False):
    """Runs `script` (a Python worker) once per batch description in parallel.

    A worker reads one JSON document on stdin and prints JSON lines: {"begin": name} before each case, {"case": key, "sample": .., "n": ..},
    {"count": name, "n": k}, {"viol": key, "what": .., "replay": ..}, {"inconclusive": ..} and a final {"done": 1}.
    A crash or hang is attributed to the case that was begun last."""
    env = py_env(pydir)
    if san:
        san_env(env, san)
        lib = subprocess.run(["gcc", "-print-file-name=lib%s.so" % ("asan" if san == "asan" else "tsan")], capture_output=True, text=True).stdout.strip()
        std = subprocess.run(["gcc", "-print-file-name=libstdc++.so"], capture_output=True, text=True).stdout.strip()
        env["LD_PRELOAD"] = os.path.realpath(lib) + " " + os.path.realpath(std)
        env["PYTHONMALLOC"] = "malloc"
    if extra_env:
        env.update(extra_env)

    def one(b):
        for attempt in (0, 1, 2) if confirm else (0, 1):
            p = run(cmd or [PY, "-X", "faulthandler", script, *args], stdin=json.dumps(b), env=env, timeout=timeout * (1 + attempt), mem_mb=0 if san else 8000)
            begin, done = None, False
            msgs = []
            for line in p.out.splitlines():
                if not line.startswith("{"):
                    continue
                try:
                    m = json.loads(line)
                except ValueError:
                    continue
                msgs.append(m)
                if "begin" in m:
                    begin = m["begin"]
                if "done" in m:
                    done = True
            if p.timeout and attempt == 0:
                continue
            if confirm and p.crashed and attempt < 2:      # the engine itself may crash in rare schedules
                chk.count("crashes not confirmed")
                continue
            break
        for m in msgs:
            if "case" in m:
                chk.case(m["case"], m.get("n", 1), m.get("sample"), m.get("nontrivial", True))
            elif "count" in m:
                chk.count(m["count"], m.get("n", 1))
            elif "viol" in m:
                chk.violation(m["viol"], m.get("what", ""), {"batch": b, "case": begin, "detail": m.get("replay")})
            elif "inconclusive" in m:
                chk.inconclusive.append(m["inconclusive"])
        if p.timeout:
            chk.violation("hang:" + str(begin)[:120], f"worker did not finish within {timeout}s and {2*timeout}s", {"batch": b, "case": begin})
        elif p.crashed or (p.rc != 0 and san and ("ERROR: AddressSanitizer" in p.err or "runtime error:" in p.err)):
            chk.violation("crash:" + str(begin)[:120], f"worker died with status {p.rc} in case {begin}\n{p.err[-3000:]}", {"batch": b, "case": begin})
        elif p.rc != 0 or not done:
            if begin is None and ("ImportError" in p.err or "ModuleNotFoundError" in p.err):
                raise HarnessError("worker could not start: " + p.err[-2000:])
            chk.violation("abort:" + str(begin)[:120], f"worker ended with {p.rc} in case {begin}\n{p.err[-3000:]}", {"batch": b, "case": begin})
        return p
    return parallel(one, batches)


class Worker:
    """Worker side of py_batches."""
    def __init__(self):
        self.batch = json.load(sys.stdin)
        self.out = os.fdopen(os.dup(1), "w", buffering=1)
        self.seen = set()

    def _w(self, **m):
        self.out.write(json.dumps(m, default=str) + "\n")
        self.out.flush()

    def begin(self, name): self._w(begin=name)
    def case(self, key, n=1, sample=None, nontrivial=True):
        m = {"case": str(key), "n": n, "nontrivial": nontrivial}
        if sample is not None and len(self.seen) < 2:
            self.seen.add(str(key))
            m["sample"] = sample
        self._w(**m)
    def count(self, name, n=1): self._w(count=name, n=n)
    def viol(self, key, what="", replay=None): self._w(viol=key, what=str(what)[:4000], replay=replay)
    def inconclusive(self, what): self._w(inconclusive=what)
    def done(self):
        self._w(done=1)
        self.out.close()


def cc_runs(chk, exe, argss, san="", timeout=200, env=None, label=None, cwd=None, stdin=None):
    """Runs a monitor program: it prints `BAD key text` for violations, `CASE key` per distinct case and finally `events N`."""
    label = label or os.path.basename(exe)

    def one(args):
        e = san_env(env.copy() if env else base_env(), san)
        for attempt in (0, 1):
            p = run([exe, *map(str, args)], env=e, timeout=timeout * (1 + attempt), mem_mb=0 if san else 8000, cwd=cwd, stdin=stdin)
            if not p.timeout: break
        rep = {"program": label, "args": list(args)}
        done = False
        for line in p.out.splitlines():
            f = line.split(" ", 2)
            if f[0] == "BAD": chk.violation(f"{label}-{f[1]}", line[:2000], rep)
            elif f[0] == "CASE": chk.case(label + line[5:])
            elif f[0] == "COUNT": chk.count(f[1], int(f[2]))
            elif f[0] == "events":
                done = True
                chk.count("events_" + label, int(f[1]))
                chk.case(f"{label} {args}", n=int(f[1]))
        if p.timeout: chk.violation(f"{label}-hang", f"did not finish within {timeout}s and {2*timeout}s: {args}\n{p.out[-500:]}", rep)
        elif not done or (p.rc != 0 and not ("BAD " in p.out and p.rc == 1)): chk.violation(f"{label}-crash", f"ended with {p.rc}: {args}\n{p.out[-600:]}\n{p.err[-3000:]}", rep)
        return p
    return parallel(one, argss)


def mock_sections(chk, py, cc):
    """Runs the named sections of the monitors for functions the installed engine lacks."""
    mock = build_mock() + "/libclingomock.so"
    if py: py_batches(chk, VERIF + "/checks/wmock.py", build_py(), [{"seed": SEED * 10 + i, "n": scale(5, 40), "section": py, "mock": mock} for i in range(2)])
    if cc: cc_runs(chk, build_cc("mock", VERIF + "/drv/mock.cc"), [(cc, SEED * 10 + i) for i in range(2)])
