"""Client of drv/eng.cc, readers of the formats it writes, and the installed gringo/clasp as references."""
import os, re, select, signal, subprocess, time
import vf


class Answer(list):
    """The (tag, text) pairs of one request."""
    def all(self, tag): return [x for t, x in self if t == tag or t.startswith(tag + " ")]
    def one(self, tag):
        r = self.all(tag)
        return r[0] if r else None
    def msgs(self): return [(int(t.split()[1]), x) for t, x in self if t.startswith("MSG")]
    @property
    def failed(self): return bool(self.all("EXC") or self.all("LOGIC"))


class Engine:
    def __init__(self, exe, san="", timeout=20, mem_mb=4000):
        self.exe, self.san, self.timeout, self.mem = exe, san, timeout, mem_mb
        self.p = None
        self.err = b""

    def start(self):
        env = vf.base_env()
        if self.san: vf.san_env(env, self.san)
        if self.san == "asan": env["ASAN_OPTIONS"] = "detect_leaks=1:leak_check_at_exit=0:allocator_may_return_null=1:handle_abort=0:abort_on_error=1"
        self.errf = open(os.path.join(vf.BUILD, "eng-%d-%d.err" % (os.getpid(), id(self))), "w+b")

        def pre():
            import resource
            os.setsid()
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_STACK, (64 << 20, 64 << 20))
            if not self.san: resource.setrlimit(resource.RLIMIT_AS, (self.mem << 20, self.mem << 20))
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.errf, env=env, preexec_fn=pre)
        os.set_blocking(self.p.stdout.fileno(), False)
        self.buf = b""

    def stop(self):
        if self.p:
            try: os.killpg(self.p.pid, signal.SIGKILL)
            except ProcessLookupError: pass
            self.p.wait(); self.p.stdin.close(); self.p.stdout.close(); self.errf.seek(0); self.err = self.errf.read(); self.errf.close(); os.unlink(self.errf.name)
            self.p = None

    def _read(self, n, end):
        while len(self.buf) < n if isinstance(n, int) else n not in self.buf:
            left = end - time.time()
            if left <= 0: raise TimeoutError
            if not select.select([self.p.stdout], [], [], left)[0]: raise TimeoutError
            c = self.p.stdout.read(1 << 16)
            if c == b"": raise EOFError
            if c: self.buf += c
        k = n if isinstance(n, int) else self.buf.index(n) + len(n)
        r, self.buf = self.buf[:k], self.buf[k:]
        return r

    def ask(self, cmds):
        """cmds: list of (command line, block or None). Returns an Answer; raises TimeoutError/EOFError (the process is gone then, self.err has its messages)."""
        if self.p is None: self.start()
        msg = b""
        for c, blk in cmds:
            if blk is None: msg += c.encode() + b"\n"
            else:
                blk = blk if isinstance(blk, bytes) else blk.encode()
                msg += c.encode() + b" %d\n" % len(blk) + blk + b"\n"
        msg += b"end\n"
        res = Answer()
        end = time.time() + self.timeout
        try:
            try:
                self.p.stdin.write(msg); self.p.stdin.flush()
            except BrokenPipeError: raise EOFError
            while True:
                h = self._read(b"\n", end).decode().rstrip("\n")
                if h.startswith("DONE"): return res
                tag, n = h.rsplit(" ", 1)
                res.append((tag, self._read(int(n) + 1, end)[:-1].decode("utf-8", "backslashreplace")))
        except EOFError:
            self.p.wait(); self.rc = self.p.returncode
            self.stop(); raise
        except TimeoutError:
            self.stop(); raise


def prog_cmds(fmt, text, flags="", parts="base", how="add", defines=()):
    return [("new %s %s" % (fmt, flags), None), *[("define", d) for d in defines], (how + " base -", text), ("ground " + parts, None), ("solve", None)]


# ---------------------------------------------------------------------------------------------- aspif

class Aspif:
    """A step of the intermediate format, taken apart."""
    def __init__(self):
        self.stm = []      # (kind, ...) in the order of the file

    def add(self, other): self.stm += other.stm

    def text(self):
        """One program: the accumulated statements (externals: the last value counts)."""
        ext, out = {}, []
        for s in self.stm:
            if s[0] == 5: ext[s[1]] = s[2]
        heads = set()
        for s in self.stm:
            if s[0] == 1:
                f = s[1]
                n = int(f[1]); heads.update(f[2:2 + n])
        for s in self.stm:
            if s[0] == 5: continue
            out.append(s[-1] if s[0] != 4 else "4 %d %s %s" % (len(s[1].encode()), s[1], s[2]))
        for a, v in ext.items():
            if a not in heads or True: out.append("5 %s %s" % (a, v))
        return "asp 1 0 0\n" + "\n".join(out) + "\n0\n"


def aspif_steps(text):
    """Steps of an intermediate format file; raises ValueError if it is not well formed."""
    data = text.encode("utf-8", "surrogateescape")
    i = data.index(b"\n")
    head = data[:i].decode()
    if not re.fullmatch(r"asp 1 0 0( incremental)?", head): raise ValueError("header " + head)
    pos, steps, cur = i + 1, [], Aspif()
    while pos < len(data):
        m = re.match(rb"4 (\d+) ", data[pos:pos + 40])
        if m:
            n = int(m.group(1)); b = pos + m.end()
            s = data[b:b + n].decode("utf-8", "surrogateescape")
            e = data.index(b"\n", b + n)
            rest = data[b + n:e].decode()
            if not re.fullmatch(r" \d+( -?\d+)*", rest): raise ValueError("show statement " + rest[:80])
            f = rest.split()
            if int(f[0]) != len(f) - 1: raise ValueError("show statement length")
            cur.stm.append((4, s, rest.strip(), None)); pos = e + 1; continue
        m = re.match(rb"9 1 (\d+) (\d+) ", data[pos:pos + 60])
        if m:
            n = int(m.group(2)); b = pos + m.end()
            s = data[b:b + n].decode("utf-8", "surrogateescape")
            if data[b + n:b + n + 1] != b"\n": raise ValueError("theory string")
            cur.stm.append((9, ["1", m.group(1).decode(), s], data[pos:b + n].decode("utf-8", "surrogateescape"))); pos = b + n + 1; continue
        e = data.index(b"\n", pos)
        line = data[pos:e].decode("utf-8", "surrogateescape")
        pos = e + 1
        if line == "0":
            steps.append(cur); cur = Aspif(); continue
        f = line.split(" ")
        if f[0] == "10": cur.stm.append((10, line, line)); continue
        if not all(re.fullmatch(r"-?\d+", x) for x in f): raise ValueError("statement " + line[:120])
        if f[0] == "5": cur.stm.append((5, f[1], f[2], line))
        else: cur.stm.append((int(f[0]), f[1:], line))
    if cur.stm: raise ValueError("step without end")
    return steps


# ---------------------------------------------------------------------------------------------- references

def sh(cmd, inp, timeout=20):
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=os.setsid)
    try: o, e = p.communicate(inp if isinstance(inp, bytes) else inp.encode("utf-8", "surrogateescape"), timeout=timeout)
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        p.communicate()
        raise TimeoutError
    return p.returncode, o.decode("utf-8", "surrogateescape"), e.decode("utf-8", "surrogateescape")


def gringo(text, *args, timeout=20):
    """The installed grounder: (return code, output, messages)."""
    return sh(["gringo", *args, "-"], text, timeout)


class TooMany(Exception): pass


def split_atoms(line):
    """clasp separates atoms by spaces; strings may contain spaces."""
    out, cur, q, i = [], "", False, 0
    while i < len(line):
        c = line[i]
        if q:
            cur += c
            if c == "\\": cur += line[i + 1:i + 2]; i += 1
            elif c == '"': q = False
        elif c == '"': q = True; cur += c
        elif c == " ":
            if cur: out.append(cur)
            cur = ""
        else: cur += c
        i += 1
    if cur: out.append(cur)
    return out


def clasp(aspif, limit=300, timeout=10, tool=("clasp",), extra=()):
    """All answer sets of a ground program: sorted list of (shown atoms, costs); None if there are more than `limit`."""
    rc, o, e = sh([*tool, "0" if not limit else str(limit + 1), "--opt-mode=enum", "-V1", *extra], aspif, timeout)
    if rc & 32 or rc & 64 or rc & 128 or rc < 0 or rc in (1, 65): raise ValueError("clasp: %d %s" % (rc, e[:300] + o[-300:]))
    models, cur = [], None
    for line in o.splitlines():
        if line.startswith("Answer:"): cur = True
        elif cur is True: cur = tuple(sorted(split_atoms(line))); models.append([cur, ()])
        elif line.startswith("Optimization:") and models: models[-1][1] = tuple(line.split()[1:])
    if limit and len(models) > limit: raise TooMany
    return sorted((m, c) for m, c in models)
