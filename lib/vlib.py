"""Shared machinery: building /repo with sanitizers, running shards in private namespaces, agents, brokers, verdicts."""
import os, sys, json, time, subprocess, threading, random, hashlib, signal, fcntl, shutil, ctypes, glob, re, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
WORK = os.path.join(VERIF, "work")

ASAN = "-fsanitize=address,undefined -fno-sanitize=alignment,shift-base,nonnull-attribute -fno-sanitize-recover=all -fno-omit-frame-pointer"
TSAN = "-fsanitize=thread -fno-omit-frame-pointer"
VARIANTS = {"asan": ("gcc", "g++", ASAN, "-O1"), "tsan": ("gcc", "g++", TSAN, "-O1"), "plain": ("gcc", "g++", "", "-O1")}
TARGETS = ["rtMessage", "rbuscore", "rbus", "rtrouted", "rbus_session_mgr"]


class HarnessError(Exception):
    pass


class Hang(Exception):
    pass


# ---------------------------------------------------------------------------------------------- build
def _run(cmd, log, **kw):
    with open(log, "ab") as f:
        f.write(("\n$ " + " ".join(cmd) + "\n").encode())
        f.flush()
        r = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, **kw)
    return r.returncode


class Variant:
    def __init__(self, name):
        self.name = name
        self.cc, self.cxx, self.flags, self.opt = VARIANTS[name]
        self.dir = os.path.join(BUILD, name)
        self.lib = {k: os.path.join(self.dir, v) for k, v in {
            "rtMessage": "src/rtmessage", "rbuscore": "src/core", "rbus": "src/rbus"}.items()}
        self.rtrouted = os.path.join(self.dir, "src/rtmessage/rtrouted")
        self.session_mgr = os.path.join(self.dir, "src/session_manager/rbus_session_mgr")

    def build(self):
        os.makedirs(BUILD, exist_ok=True)
        lock = open(os.path.join(BUILD, self.name + ".lock"), "w")
        fcntl.flock(lock, fcntl.LOCK_EX)
        log = os.path.join(BUILD, self.name + ".log")
        open(log, "w").close()
        env = {k: v for k, v in os.environ.items() if k not in ("CFLAGS", "CXXFLAGS", "LDFLAGS", "LD_LIBRARY_PATH", "LD_PRELOAD", "CPATH")}
        env["LC_ALL"] = "C.UTF-8"
        if not os.path.exists(os.path.join(self.dir, "build.ninja")):
            rc = _run(["cmake", "-S", REPO, "-B", self.dir, "-G", "Ninja", "-Wno-dev", "-DCMAKE_BUILD_TYPE=Debug", "-DBUILD_FOR_DESKTOP=ON",
                       "-DCMAKE_C_COMPILER=" + self.cc, "-DCMAKE_CXX_COMPILER=" + self.cxx, "-DCMAKE_POLICY_VERSION_MINIMUM=3.5",
                       "-DCMAKE_C_FLAGS_DEBUG=-g %s -Wno-error -w %s" % (self.opt, self.flags), "-DCMAKE_CXX_FLAGS_DEBUG=-g %s -w %s" % (self.opt, self.flags),
                       "-DCMAKE_INSTALL_PREFIX=" + os.path.join(self.dir, "install")], log, env=env)
            if rc:
                shutil.rmtree(self.dir, ignore_errors=True)
                raise HarnessError("cmake failed, see " + log + "\n" + open(log, errors="replace").read()[-3000:])
        if _run(["ninja", "-C", self.dir] + TARGETS, log, env=env):
            raise HarnessError("build failed, see " + log + "\n" + open(log, errors="replace").read()[-3000:])
        lock.close()
        return self

    def driver(self, src, extra_src=(), libs=("rbus", "rbuscore", "rtMessage"), cflags=(), out=None):
        """Compile drivers/<src> against this variant; returns the executable."""
        exe = os.path.join(BUILD, self.name + "-" + (out or os.path.splitext(src)[0]))
        inc = ["-I" + REPO + p for p in ("/include", "/src/rbus", "/src/rtmessage", "/src/core", "/src/session_manager")] + ["-I" + os.path.join(VERIF, "drivers")]
        cxx = src.endswith((".cpp", ".cc"))
        cmd = [self.cxx if cxx else self.cc, "-g", self.opt, "-w"] + self.flags.split() + ["-DBUILD_FOR_DESKTOP", "-DMSG_ROUNDTRIP_TIME"] + list(cflags) + inc
        cmd += ["-o", exe + ".tmp%d" % os.getpid(), os.path.join(VERIF, "drivers", src)] + [os.path.join(REPO, s) for s in extra_src]
        for l in libs:
            cmd += ["-L" + self.lib[l], "-l" + l, "-Wl,-rpath," + self.lib[l]]
        cmd += ["-lpthread", "-lm"]
        log = os.path.join(BUILD, self.name + "-driver.log")
        lk = open(os.path.join(BUILD, self.name + ".lock"), "w")
        fcntl.flock(lk, fcntl.LOCK_EX)
        if _run(cmd, log):
            raise HarnessError("driver build failed: " + src + "\n" + open(log, errors="replace").read()[-3000:])
        os.rename(exe + ".tmp%d" % os.getpid(), exe)
        lk.close()
        return exe

    def preload(self, src):
        """Compile drivers/<src> into a shared object without a sanitizer of its own."""
        so = os.path.join(BUILD, self.name + "-" + os.path.splitext(src)[0] + ".so")
        if _run([self.cc, "-g", "-O1", "-w", "-shared", "-fPIC", "-o", so + ".tmp%d" % os.getpid(), os.path.join(VERIF, "drivers", src), "-lpthread"], os.path.join(BUILD, self.name + "-driver.log")):
            raise HarnessError("preload build failed: " + src)
        os.rename(so + ".tmp%d" % os.getpid(), so)
        return so

    def agent_exe(self):
        return os.path.join(BUILD, self.name + "-agent")


# ---------------------------------------------------------------------------------------------- small helpers
def pct(s):
    if s is None:
        return "!"
    if s == "":
        return "~"
    out = []
    for b in s.encode("latin-1") if isinstance(s, str) else s:
        c = chr(b)
        if (c.isascii() and c.isalnum()) or c in "._-{}[]*/#@":
            out.append(c)
        else:
            out.append("%%%02X" % b)
    return "".join(out)


def unpct(t):
    if t == "!":
        return None
    if t == "~":
        return ""
    return re.sub("%([0-9A-F]{2})", lambda m: chr(int(m.group(1), 16)), t)


_libc = ctypes.CDLL(None, use_errno=True)


def _child_setup():
    _libc.prctl(1, signal.SIGKILL)  # PR_SET_PDEATHSIG
    signal.signal(signal.SIGPIPE, signal.SIG_DFL)


class Res:
    __slots__ = ("id", "t0", "t1", "rc", "payload", "cmd", "agent")

    def __repr__(self):
        return "<%s rc=%d %s>" % (self.cmd, self.rc, self.payload)


class Fut:
    def __init__(self, agent, cmd):
        self.agent, self.cmd, self.ev, self.res, self.sent = agent, cmd, threading.Event(), None, time.monotonic_ns()

    def wait(self, timeout=100):
        if not self.ev.wait(timeout):
            raise Hang("%s: '%s' did not return within %d s" % (self.agent.name, self.cmd[:200], timeout))
        if self.res is None:
            raise Died("%s died (exit %s) while executing '%s'" % (self.agent.name, self.agent.p.poll(), self.cmd[:200]))
        return self.res


class Died(Exception):
    pass


class Ev(list):
    """An agent event: kind, time (ns), tokens."""
    __slots__ = ("kind", "t", "agent", "seq")


class Agent:
    def __init__(self, ctx, name, variant="asan", env=None, exe=None):
        self.ctx, self.name = ctx, name
        self.events, self.lock, self.cv = [], threading.Lock(), threading.Condition()
        self.pending, self.nid, self.dead, self.expected_death = {}, 0, False, False
        e = ctx.env(variant, name)
        if env:
            e.update(env)
        self.errf = open(os.path.join(ctx.dir, name + ".err"), "ab")
        self.p = subprocess.Popen([exe or os.path.join(BUILD, variant + "-agent")], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.errf, env=e, preexec_fn=_child_setup, cwd=ctx.dir)
        self.th = threading.Thread(target=self._reader, daemon=True)
        self.th.start()
        ctx.agents.append(self)

    def _reader(self):
        for raw in self.p.stdout:
            line = raw.decode("latin-1").rstrip("\n")
            k = line.split(" ")
            if k[0] == "R":
                r = Res()
                r.id, r.t0, r.t1, r.rc = int(k[1]), int(k[2]), int(k[3]), int(k[4])
                r.payload = k[5:] if len(k) > 5 and k[5] != "" else []
                if r.payload and r.payload[-1] == "":
                    r.payload.pop()
                r.agent = self
                with self.lock:
                    f = self.pending.pop(r.id, None)
                if f:
                    r.cmd = f.cmd
                    f.res = r
                    self.ctx.log(self.name, "<", line[:2000])
                    f.ev.set()
            elif k[0] == "E":
                e = Ev(k[3:])
                e.kind, e.t, e.agent = k[1], int(k[2]), self.name
                self.ctx.log(self.name, "!", line[:2000])
                with self.cv:
                    e.seq = len(self.events)
                    self.events.append(e)
                    self.cv.notify_all()
        self.p.wait()
        self.dead = True
        with self.lock:
            ps = list(self.pending.values())
            self.pending.clear()
        for f in ps:
            f.ev.set()
        with self.cv:
            self.cv.notify_all()

    def send(self, cmd, worker=0):
        with self.lock:
            self.nid += 1
            f = Fut(self, cmd)
            i = self.nid
            if not self.dead:
                self.pending[i] = f
        if self.dead:
            f.ev.set()
            return f
        self.ctx.log(self.name, ">", "%d %d %s" % (worker, i, cmd[:2000]))
        try:
            with self.lock:
                self.p.stdin.write(("%d %d %s\n" % (worker, i, cmd)).encode("latin-1"))
                self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            pass
        self.ctx.count("calls")
        return f

    def call(self, cmd, worker=0, timeout=100):
        return self.send(cmd, worker).wait(timeout)

    def ok(self, cmd, worker=0, timeout=100):
        """A call that must succeed: failure is an oracle mismatch."""
        r = self.call(cmd, worker, timeout)
        if r.rc != 0:
            self.ctx.violation("call-failed:" + cmd.split(" ")[0], "%s: '%s' must succeed, returned %d" % (self.name, cmd[:300], r.rc))
        return r

    def sync(self, timeout=100):
        """Everything the agent emitted before this call is in self.events afterwards."""
        f = self.send("sleep 0", 63)
        f.wait(timeout)

    def evs(self, kind=None, since=0):
        with self.cv:
            return [e for e in self.events[since:] if kind is None or e.kind == kind]

    def mark(self):
        """A point in self.events after everything emitted so far."""
        if not self.dead:
            self.sync()
        with self.cv:
            return len(self.events)

    def wait_ev(self, pred, n=1, timeout=30, since=0):
        """Wait until n events satisfy pred; returns the matching list (possibly shorter on time out)."""
        end = time.monotonic() + timeout
        with self.cv:
            while True:
                m = [e for e in self.events[since:] if pred(e)]
                if len(m) >= n or self.dead:
                    return m
                left = end - time.monotonic()
                if left <= 0:
                    return m
                self.cv.wait(min(left, 0.5))

    def kill(self, sig=signal.SIGKILL):
        self.expected_death = True
        try:
            self.p.send_signal(sig)
        except ProcessLookupError:
            pass
        if sig == signal.SIGKILL:
            self.p.wait()
            self.th.join(5)

    def finish(self):
        """Orderly end of the process (without rbus_close unless done before)."""
        if self.p.poll() is None:
            try:
                self.p.stdin.close()
            except Exception:
                pass
            try:
                self.p.wait(10)
            except subprocess.TimeoutExpired:
                self.p.kill()
                self.p.wait()
        self.th.join(5)


class Ctx:
    """State of one shard: random source, agents, counters, violations."""

    def __init__(self, prop, tier, seed, spec, outdir):
        self.prop, self.tier, self.seed, self.spec, self.dir = prop, tier, seed, spec, outdir
        os.makedirs(outdir, exist_ok=True)
        self.rng = random.Random("%s/%s/%s" % (prop, seed, json.dumps(spec, sort_keys=True)))
        self.agents, self.procs, self.broker = [], [], None
        self.counters, self.viol, self.samples, self.distinct_set = {}, [], [], set()
        self.trace, self.tl = [], threading.Lock()
        self.lk = threading.Lock()
        self.nproc = 0
        self.thorough = tier == "thorough"

    # ---- bookkeeping
    def log(self, who, d, text):
        with self.tl:
            self.trace.append("%s %s %s" % (who, d, text))
            if len(self.trace) > 6000:
                del self.trace[:2000]

    def note(self, text):
        self.log("--", "#", text)

    def count(self, k, n=1):
        with self.lk:
            self.counters[k] = self.counters.get(k, 0) + n

    def distinct(self, key):
        with self.lk:
            self.distinct_set.add(hashlib.md5(repr(key).encode()).hexdigest()[:12])

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s if len(str(s)) < 1500 else str(s)[:1500])

    def violation(self, key, text):
        with self.lk:
            if len(self.viol) < 20:
                self.viol.append({"key": key, "text": str(text)[:3000]})
        self.note("VIOLATION %s %s" % (key, text))

    def check(self, cond, key, text):
        self.count("oracle_checks")
        if not cond:
            self.violation(key, text() if callable(text) else text)
        return cond

    @property
    def failed(self):
        return bool(self.viol)

    # ---- processes
    def env(self, variant, name):
        self.nproc += 1
        e = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": self.dir, "LC_ALL": "C"}
        lp = os.path.join(self.dir, "san.%s.%d" % (name, self.nproc))
        e["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:log_path=" + lp
        e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=78:log_path=" + lp
        e["TSAN_OPTIONS"] = "halt_on_error=0:exitcode=0:history_size=4:second_deadlock_stack=1:log_path=" + lp
        return e

    def start_broker(self, variant="asan", args=None, wait=True, env=None, asan=""):
        for f in ("/tmp/rtrouted",):
            try:
                os.unlink(f)
            except FileNotFoundError:
                pass
        exe = os.path.join(BUILD, variant, "src/rtmessage/rtrouted")
        ef = open(os.path.join(self.dir, "broker.err"), "ab")
        for attempt in range(20):
            benv = dict(self.env(variant, "broker"), **(env or {}))
            benv["ASAN_OPTIONS"] += ":" + asan if asan else ""
            p = subprocess.Popen([exe, "-f", "-s", "unix:///tmp/rtrouted", "-l", "FATAL"] + (args or []), stdin=subprocess.DEVNULL,
                                 stdout=ef, stderr=ef, env=benv, preexec_fn=_child_setup, cwd=self.dir)
            end = time.monotonic() + 20
            while time.monotonic() < end and p.poll() is None:
                if os.path.exists("/tmp/rtrouted"):
                    break
                time.sleep(0.01)
            if p.poll() is None and os.path.exists("/tmp/rtrouted"):
                break
            if p.poll() is None:
                p.kill()
                p.wait()
            if p.returncode != 12:
                break
            time.sleep(0.3)
        if p.poll() is not None:
            if p.returncode in (77, 78) or p.returncode < 0:
                self.violation("broker-start", "rtrouted ended with %s at start" % p.returncode)
            raise HarnessError("rtrouted did not start, rc=%s" % p.returncode)
        time.sleep(0.05)
        self.broker = p
        self.procs.append(p)
        return p

    def start_session_mgr(self, variant="asan"):
        exe = os.path.join(BUILD, variant, "src/session_manager/rbus_session_mgr")
        ef = open(os.path.join(self.dir, "sess.err"), "ab")
        p = subprocess.Popen([exe], stdin=subprocess.DEVNULL, stdout=ef, stderr=ef, env=self.env(variant, "sessmgr"), preexec_fn=_child_setup, cwd=self.dir)
        self.procs.append(p)
        return p

    def agent(self, name=None, variant="asan", env=None):
        return Agent(self, name or "a%d" % len(self.agents), variant, env)

    def comp(self, name, variant="asan", h=0, env=None):
        """An agent with one open handle."""
        a = self.agent(name, variant, env)
        a.ok("open %d %s" % (h, pct(name)))
        return a

    def broker_alive(self):
        if self.broker is not None and self.broker.poll() is not None:
            self.violation("broker-died", "rtrouted ended by itself, status %s" % self.broker.returncode)
            return False
        return True

    def teardown(self):
        """End everything, then look for unexpected deaths and sanitizer reports."""
        if self.broker is not None:
            self.broker_alive()
        for a in self.agents:
            a.finish()
            rc = a.p.returncode
            if not a.expected_death and rc not in (0, 1):
                self.violation("process-died", "agent %s ended with status %s; last stderr: %s" % (a.name, rc, self.tail(a.name + ".err")))
        for p in self.procs:
            if p.poll() is None:
                p.terminate()
                try:
                    p.wait(5)
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.wait()
            elif p.returncode in (77, 78) or p.returncode in (-6, -11, -8, -4, -7):
                self.violation("process-died", "helper process ended with status %s" % p.returncode)
        self.agents, self.procs, self.broker = [], [], None
        self.collect_sanitizer()

    def tail(self, f, n=1500):
        try:
            return open(os.path.join(self.dir, f), errors="replace").read()[-n:]
        except OSError:
            return ""

    def collect_sanitizer(self):
        for f in sorted(glob.glob(os.path.join(self.dir, "san.*"))):
            t = open(f, errors="replace").read()
            # an allocation that was made to fail is reported as a warning; what happens then is what counts
            t = re.sub(r"(?m)^==\d+==WARNING: AddressSanitizer failed to allocate .*$", "", t)
            if t.strip():
                m = re.search(r"(SUMMARY: .*|runtime error: .*|ERROR: .*)", t)
                self.violation("sanitizer", "%s: %s\n%s" % (os.path.basename(f), m.group(1) if m else "", t[:2500]))
            os.unlink(f)

    # ---- unit drivers
    def unit(self, exe, args, timeout=300, env=None, variant="asan"):
        """Run a unit driver. Exit 0 = held; it prints 'STAT key value', 'SAMPLE text', 'DISTINCT n' lines. Exit 2 = harness trouble."""
        e = self.env(variant, os.path.basename(exe))
        if env:
            e.update(env)
        err = os.path.join(self.dir, os.path.basename(exe) + ".%d.err" % self.nproc)
        with open(err, "wb") as ef:
            p = subprocess.Popen([exe] + [str(a) for a in args], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=ef, env=e, preexec_fn=_child_setup, cwd=self.dir)
            try:
                out, _ = p.communicate(timeout=timeout)
            except subprocess.TimeoutExpired:
                p.kill()
                out, _ = p.communicate()
                self.violation("hang", "%s %s did not end within %d s: %s" % (os.path.basename(exe), args, timeout, self.tail(os.path.basename(err))))
        vio = False
        for line in out.decode("latin-1").splitlines():
            k = line.split(" ", 2)
            if k[0] == "STAT" and len(k) == 3:
                self.count(k[1], int(k[2]))
            elif k[0] == "D" and len(k) >= 2:
                self.distinct(line[2:])
            elif k[0] == "SAMPLE":
                self.sample(line[7:])
            elif k[0] == "MISMATCH":
                vio = True
                self.violation(k[1], line[9:])
        et = open(err, errors="replace").read()
        rc = p.returncode
        if rc == 2:
            raise HarnessError("%s: %s" % (exe, et[-1500:]))
        n0 = len(self.viol)
        self.collect_sanitizer()
        if rc != 0 and not vio and len(self.viol) == n0 and rc != -9:
            self.violation("driver-exit", "%s %s ended with %s: %s" % (os.path.basename(exe), args, rc, et[-2000:]))
        try:
            os.unlink(err)
        except OSError:
            pass


def private_tmp():
    """Called inside the new user+mount namespace."""
    r = subprocess.run(["mount", "-t", "tmpfs", "-o", "mode=1777", "tmpfs", "/tmp"])
    return r.returncode == 0


def can_unshare():
    r = subprocess.run(["unshare", "-Urm", "mount", "-t", "tmpfs", "tmpfs", "/tmp"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return r.returncode == 0
