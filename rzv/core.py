"""Building, running the harness, running TLC, verdicts and evidence."""
import concurrent.futures, fcntl, itertools, json, os, random, re, resource, select, shutil, signal, socket, subprocess, sys, tempfile, threading, time, zlib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(ROOT, ".build")
SPEC = os.path.join(ROOT, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = max(1, min(8, os.cpu_count() or 8))


class ToolError(Exception):
    """The check itself could not run: neither a pass nor a violation."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def build_harness():
    env = dict(os.environ, RUSTFLAGS="--cfg rezip_verif -Awarnings",
               CARGO_TARGET_DIR=os.path.join(BUILD, "harness"), CARGO_NET_OFFLINE="true")
    r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(ROOT, "harness"),
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise ToolError("harness does not build:\n" + r.stdout[-4000:])
    return os.path.join(BUILD, "harness", "debug", "rzharness")


def build_cli():
    env = dict(os.environ, RUSTFLAGS="-Awarnings", CARGO_NET_OFFLINE="true",
               CARGO_TARGET_DIR=os.path.join(BUILD, "cli"), CARGO_PROFILE_DEV_OPT_LEVEL="1",
               CARGO_PROFILE_DEV_DEBUG="0")
    r = subprocess.run(["cargo", "build", "--offline", "--quiet", "--manifest-path",
                        os.path.join(REPO, "rezippers", "Cargo.toml")], cwd=ROOT,
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise ToolError("rezippers does not build:\n" + r.stdout[-4000:])
    d = os.path.join(BUILD, "cli", "debug")
    for n in ("rezippers", "rezip"):
        if os.path.exists(os.path.join(d, n)):
            return os.path.join(d, n)
    raise ToolError("no rezippers binary in " + d)


def build_shim():
    """The library preloaded into a tool that makes single reads and writes of it fail."""
    out = os.path.join(BUILD, "rzshim-%d.so" % os.getpid())
    r = subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", out, os.path.join(ROOT, "harness", "shim", "shim.c")],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise ToolError("the shim does not build:\n" + r.stdout[-4000:])
    return out


def limits(mem):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


# held while a process is started (until its exec), and while a pipe's end is closed: a process
# between fork and exec still has that end
STARTING = threading.Lock()


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random("%s/%s/%s" % (seed, prop, tier))
        self.t0 = time.time()
        self.dir = os.path.join(BUILD, "run", "%s-%d" % (prop, os.getpid()))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.fails = []          # dicts with id, kind, why
        self.cases = {}          # id -> case line or description
        self.states = self.transitions = self.validated = self.models = 0
        self.samples = []
        self.coverage = {}
        self.assumptions = []
        self.known_hits = {}
        self.stalls = 0          # cases found to hang
        self._n = itertools.count(1)
        self.harness_bin = None
        self.cli_bin = None
        self.shim = None

    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough() else quick

    def close(self):
        if self.shim:
            os.unlink(self.shim)
        shutil.rmtree(self.dir, ignore_errors=True)

    def tmp(self, name):
        return os.path.join(self.dir, "%03d-%s" % (next(self._n), name))

    def note(self, key, n=1):
        self.coverage[key] = self.coverage.get(key, 0) + n

    def fail(self, id, kind, why, **kw):
        self.fails.append(dict(id=id, kind=kind, why=why, **kw))

    # -- the code under test --------------------------------------------------------------------
    def harness(self, cases, stall=60):
        """Run case dicts; returns a path to the ndjson of what the code did (dead cases are
        reported as failures of kind 'dead' and left out)."""
        if self.harness_bin is None:
            self.harness_bin = build_harness()
        shards = [cases[i::CORES] for i in range(CORES)]
        outs, errs = [], []

        def work(i):
            try:
                outs.append(self._shard(i, shards[i], stall))
            except BaseException as e:  # surfaced below
                errs.append(e)
        ts = [threading.Thread(target=work, args=(i,)) for i in range(CORES) if shards[i]]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if errs:
            raise ToolError("harness: %r" % errs[0])
        path = self.tmp("trace.ndjson")
        n = 0
        with open(path, "wb") as f:
            for o in outs:
                for line in open(o, "rb"):
                    if b'"alive":0' in line[-200:]:
                        d = json.loads(line)
                        self.fail(d["id"], "dead", d.get("why", "crash"))
                    else:
                        f.write(line)
                        n += 1
                os.unlink(o)
        self.last_count = n
        return path

    def _shard(self, i, cases, stall):
        cf, of = self.tmp("s%d.cases" % i), self.tmp("s%d.out" % i)
        with open(cf, "w") as f:
            for c in cases:
                line = " ".join("%s=%s" % (k, v) for k, v in c.items() if not k.startswith("_"))
                # some cases are run while other work is done with the library (harness/src/side.rs)
                k = zlib.crc32(line.encode()) % 16
                line += " side=2" if k == 0 else " side=1" if k < 4 and len(line) < 60000 else ""
                f.write(line + "\n")
                self.cases[str(c["id"])] = line
        open(of, "w").close()
        env = dict(os.environ, RUST_BACKTRACE="0")
        done = deaths = retries = 0
        # code that hangs or dies on many cases is not run on all of them: what is left out is not reported
        while done < len(cases) and deaths < 20 and self.stalls < 2:
            p = subprocess.Popen([self.harness_bin, cf, of, str(done)], env=env,
                                 stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                                 preexec_fn=limits(3 << 30))
            size, since, why = -1, time.time(), None
            while True:
                try:
                    p.wait(0.5 if stall > 5 else 0.05)
                    break
                except subprocess.TimeoutExpired:
                    s = os.path.getsize(of)
                    if s != size:
                        size, since = s, time.time()
                    elif time.time() - since > stall:
                        why = "no answer within %d s" % stall
                        p.kill()
                        p.wait()
                        break
            raw = open(of, "rb").read()
            if raw and not raw.endswith(b"\n"):      # cut in the middle of a record
                raw = raw[:raw.rfind(b"\n") + 1]
                open(of, "wb").write(raw)
            before, done = done, raw.count(b"\n")
            if done < len(cases):
                if why is not None:
                    if not retries or done != before:   # once more, from its beginning
                        retries = 1
                        continue
                    self.stalls += 1
                else:
                    deaths += 1
                    why = "process died, status %d" % p.returncode
                with open(of, "a") as f:
                    f.write(json.dumps(dict(id=str(cases[done]["id"]), alive=0, why=why)).replace(': ', ':') + "\n")
                done += 1
        return of

    def cli(self, args, stdin=None, timeout=60, cap=-1, drip=False, to=None, sink="file", reset=False):
        """Run rezippers: (exit status, stdout); status 'hang' or 'signal' if it does not exit.
        cap: standard output is a file that can grow to that many bytes only or, sink 'pipe', a pipe
        of 4096 bytes whose reader is gone after that many; drip: standard input comes in small
        pieces; reset: reading standard input fails after what is given. With a cap, sink is "file",
        "pipe" or, taking nothing, "ro": a descriptor that cannot be written to."""
        if self.cli_bin is None:
            self.cli_bin = build_cli()
        env = dict(os.environ, RUST_BACKTRACE="0")
        mem = limits(3 << 30)
        to_file, to_pipe = cap >= 0 and sink == "file", cap >= 0 and sink == "pipe"

        def pre():
            mem()
            if to_file:
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (cap, cap))
        source = subprocess.DEVNULL if stdin is None else subprocess.PIPE
        here = None
        if reset:
            here, source = socket.socketpair(socket.AF_UNIX, socket.SOCK_STREAM)
            source.send(b"x")           # never read: so closing our end resets the connection
        out_to = subprocess.PIPE
        if to_file:
            out_to = open(to, "wb")
        elif sink == "ro":
            out_to = open(os.devnull, "rb")
        elif to_pipe:
            pr, out_to = os.pipe()
            fcntl.fcntl(out_to, fcntl.F_SETPIPE_SZ, 4096)
            if cap == 0:
                with STARTING:
                    os.close(pr)
        with STARTING:
            p = subprocess.Popen([self.cli_bin] + args, env=env, stdout=out_to, stderr=subprocess.DEVNULL, stdin=source,
                                 cwd=self.dir, preexec_fn=pre, restore_signals=not to_file)
        hung = False
        out = b""
        if reset:
            source.close()
            try:
                here.sendall(stdin)
            except OSError:
                pass
            here.close()
            stdin = None
        if to_pipe:
            os.close(out_to)

            def feed(pin, data):
                try:
                    with pin:
                        pin.write(data)
                except OSError:
                    pass
            if stdin is not None:
                threading.Thread(target=feed, args=(p.stdin, stdin), daemon=True).start()
                p.stdin = stdin = None
            while len(out) < cap and select.select([pr], [], [], timeout)[0]:
                d = os.read(pr, cap - len(out))
                if not d:
                    break
                out += d
            if cap:
                with STARTING:
                    os.close(pr)
        if drip:
            try:
                for i in range(0, len(stdin), 3):
                    os.write(p.stdin.fileno(), stdin[i:i + 3])
                    if i < 60:
                        time.sleep(0.001)
            except BrokenPipeError:
                pass
            stdin = b""
        try:
            o, _ = p.communicate(stdin, timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            o, _ = p.communicate()
            hung = True
        if to_file:
            out_to.close()
            out = open(to, "rb").read()
        elif sink == "ro":
            out_to.close()
        elif not to_pipe:
            out = o
        if hung:
            return "hang", out
        return "signal" if p.returncode < 0 else "panic" if p.returncode == 101 else p.returncode, out

    def cli_plan(self, cmd, inp, plan, named=False, timeout=60):
        """Run rezippers on standard input (or a file it is given the name of) with the shim following
        a plan: (exit status, stdout, how many writes, whether a call failed)."""
        with tempfile.NamedTemporaryFile(dir=self.dir) as i, tempfile.TemporaryFile(dir=self.dir) as o, \
                tempfile.TemporaryFile(dir=self.dir) as n:
            i.write(inp)
            i.flush()
            i.seek(0)
            env = dict(os.environ, RUST_BACKTRACE="0", LD_PRELOAD=self.shim, RZ_PLAN=plan, RZ_NOTE=str(n.fileno()))
            if named:
                env["RZ_FILE"] = i.name
            with STARTING:
                p = subprocess.Popen([self.cli_bin, cmd] + [i.name] * named, env=env,
                                     stdin=subprocess.DEVNULL if named else i, stdout=o, stderr=subprocess.DEVNULL,
                                     cwd=self.dir, preexec_fn=limits(3 << 30), pass_fds=[n.fileno()])
            try:
                st = p.wait(timeout)
                st = "signal" if st < 0 else "panic" if st == 101 else st
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                st = "hang"
            for f in (o, n):
                f.seek(0)
            notes = n.read()
            return st, o.read(), notes.count(b"w"), int(b"h" in notes)

    def cli_runs(self, cases, timeout=60):
        """Run cases dict(id, cmd, inp (bytes), via 'file'/'stdin'); adds st and out to each and
        returns them; once for each shard in a thread."""
        if self.cli_bin is None:
            self.cli_bin = build_cli()

        def one(c):
            if self.stalls >= 8:        # enough: the rest is left out
                return None
            self.cases[c["id"]] = "rezippers %s %s cap=%s %s" % (c["cmd"], c["via"], c.get("cap", -1), c["inp"].hex())
            if "plan" in c:
                c["st"], c["out"], c["writes"], c["hit"] = self.cli_plan(
                    c["cmd"], c["inp"], c["plan"], c["via"] == "file", timeout)
                self.cases[c["id"]] += " plan=" + c["plan"]
                c["st"] = str(c["st"])
                self.stalls += c["st"] == "hang"
                return c
            me = os.path.join(self.dir, "in-%d" % threading.get_ident())
            args, stdin = [c["cmd"]], None
            if c["via"] == "file":
                with open(me, "wb") as o:
                    o.write(c["inp"])
                args.append(me)
            elif c["via"] == "missing":
                args.append(me + "-none")
            elif c["via"] == "dir":
                args.append(self.dir)
            else:
                stdin = c["inp"]
            c["st"], c["out"] = self.cli(args, stdin, timeout, c.get("cap", -1), c["via"] == "drip", me + ".out",
                                         c.get("sink", "file"), c["via"] == "reset")
            c["st"] = str(c["st"])
            self.stalls += c["st"] == "hang"
            return c
        if self.shim is None and any("plan" in c for c in cases):
            self.shim = build_shim()
        with concurrent.futures.ThreadPoolExecutor(CORES) as ex:
            return [c for c in ex.map(one, cases) if c]

    def record(self, dicts):
        """Write dicts as a trace file; bytes become sequences of numbers."""
        path = self.tmp("trace.ndjson")
        with open(path, "w") as f:
            for d in dicts:
                f.write(json.dumps({k: list(v) if isinstance(v, bytes) else v for k, v in d.items()},
                                   separators=(",", ":")) + "\n")
        self.last_count = len(dicts)
        return path

    # -- the specification ----------------------------------------------------------------------
    def tlc(self, module, cfg=None, env=None, trace=None, expect=None, workers=CORES, heap="10g",
            timeout=800, stack="64m", extra=(), spec_dir=SPEC, jit=()):
        """Run TLC. Returns its output lines' payloads: dict(fails, done, printed, states, ...)."""
        meta = self.tmp("tlc")
        os.makedirs(meta)
        e = dict(os.environ)
        if trace:
            e["TRACE_FILE"] = trace
        e.update(env or {})
        cmd = ["java", *jit, "-Xss" + stack, "-Xmx" + heap, "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC", "-Djava.io.tmpdir=" + self.dir,
               "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-noGenerateSpecTE", "-nowarning",
               "-metadir", meta, "-checkpoint", "0", "-config", cfg or "trace.cfg", *extra, module + ".tla"]
        t = time.time()
        try:
            r = subprocess.run(cmd, cwd=spec_dir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC on %s: no answer in %d s" % (module, timeout))
        out = r.stdout
        shutil.rmtree(meta, ignore_errors=True)
        fails, done, printed = [], [], []
        for line in out.splitlines():
            if line.startswith('"'):
                try:
                    s = json.loads(line)
                except ValueError:
                    printed.append(line)
                    continue
                if s.startswith("FAIL "):
                    fails.append(json.loads(s[5:]))
                elif s.startswith("DONE "):
                    done.append(s[5:])
                else:
                    printed.append(s)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        ok = r.returncode == 0
        res = dict(ok=ok, fails=fails, done=done, printed=printed, generated=gen, distinct=dist,
                   out=out, wall=time.time() - t, rc=r.returncode)
        if workers > 1:
            log("tlc %s: rc %d, %d states (%d distinct), %d fails, %d done, %.1f s" % (
                module, r.returncode, gen, dist, len(fails), len(done), res["wall"]))
        self.states += dist
        self.transitions += gen
        return res

    def validate(self, module, trace, keep=lambda f: True, cfg=None, count=None, **kw):
        """Trace validation: every recorded case must reach the end of its behaviour. The cases are
        split over several TLC runs with one worker each (TLC's workers share too much to scale)."""
        n = self.last_count if count is None else count
        if n == 0:
            return []
        parts = split(trace, CORES, self.tmp("part"))
        res, errs = [None] * len(parts), []

        def work(i):
            try:
                res[i] = self.tlc(module, cfg=cfg, trace=parts[i], workers=1, heap="3g",
                                  jit=() if os.path.getsize(parts[i]) > 8 << 20 else ("-XX:TieredStopAtLevel=1",),
                                  **kw)
            except BaseException as e:
                errs.append(e)
        ts = [threading.Thread(target=work, args=(i,)) for i in range(len(parts))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if errs:
            raise errs[0]
        got, done = [], set()
        for r, p in zip(res, parts):
            if not r["ok"]:
                raise ToolError("TLC failed on %s (%s):\n%s" % (module, p, tail(r["out"])))
            done |= set(r["done"])
            got += [dict(f, spec=module) for f in r["fails"] if keep(f)]
        if len(done) != n:
            raise ToolError("TLC on %s: %d of %d cases came to an end\n%s" % (
                module, len(done), n, tail(res[0]["out"])))
        log("%s: %d cases, %d states, %d fails, %.1f s" % (
            module, n, sum(r["distinct"] for r in res), len(got), max(r["wall"] for r in res)))
        self.validated += n
        self.fails += got
        return got

    def sample(self, cases, n=3):
        for c in self.rng.sample(cases, min(n, len(cases))):
            self.samples.append(" ".join("%s=%s" % (k, v) for k, v in c.items())[:400])

    def known(self, what, fails, tag):
        """These failures are one finding of known-findings.json, if it is listed there."""
        listed = [k for k in known_findings() if k["property"] == self.prop and k["tag"] == tag]
        if listed and fails:
            ids = {(f["id"], f["kind"], f["why"]) for f in fails}
            self.fails = [f for f in self.fails if (f["id"], f["kind"], f["why"]) not in ids]
            self.known_hits[tag] = (what, len(fails))

    def finish(self, only=None):
        if only:
            self.fails = [f for f in self.fails if f["id"] == only["fail"]["id"]] or self.fails
        wall = time.time() - self.t0
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.validated, samples=self.samples or ["none"])
        cov.update(self.coverage)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking", coverage=cov,
                  assumptions=self.assumptions, wall_s=round(wall, 1), violations=len(self.fails))
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for what, n in self.known_hits.values():
            print("KNOWN-FINDING: property=%s %s (%d cases)" % (self.prop, what, n))
        if not self.fails:
            print("OK property=%s tier=%s: %d recorded runs validated, %d states, %.0f s" % (
                self.prop, self.tier, self.validated, self.states, wall))
            return 0
        d = os.path.join(BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, self.prop + ".json")
        f = self.fails[0]
        with open(path, "w") as o:
            json.dump(dict(property=self.prop, tier=self.tier, seed=self.seed, fail=f,
                           case=self.cases.get(str(f["id"]), "")[:2000000],
                           others=[dict(x) for x in self.fails[1:20]]), o, indent=1)
        for x in self.fails[:5]:
            log("  %s" % json.dumps(x)[:300])
            log("    case: %s" % self.cases.get(str(x["id"]), "")[:300])
        print("VIOLATION property=%s replay=%s" % (self.prop, path))
        print("  %d failing cases; first: %s" % (len(self.fails), json.dumps(f)[:400]))
        return 1

    def model(self, module, cfg, env=None, **kw):
        """Model checking: a failure here is about the specification, so it is a tool error."""
        r = self.tlc(module, cfg=cfg, env=env, **kw)
        if not r["ok"]:
            raise ToolError("model %s/%s:\n%s" % (module, cfg, tail(r["out"])))
        self.models += 1
        self.note("model_states_" + cfg.replace(".cfg", ""), r["distinct"])
        return r


    def prove(self, module):
        """Theorems of a module, by tlapm (thorough tier only): a failure is about the specification."""
        d = self.tmp("tlapm")
        os.makedirs(d)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        try:
            r = subprocess.run(["tlapm", "--cache-dir", os.path.join(d, "cache"), module + ".tla"], cwd=d, text=True,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        except subprocess.TimeoutExpired:
            raise ToolError("tlapm on %s: no answer" % module)
        m = re.search(r"All (\d+) obligations? proved", r.stdout)
        shutil.rmtree(d, ignore_errors=True)
        if r.returncode or not m:
            raise ToolError("tlapm on %s:\n%s" % (module, tail(r.stdout)))
        self.note("obligations_proved_" + module, int(m.group(1)))


def known_findings():
    p = os.path.join(ROOT, "known-findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def tail(s, n=3000):
    return s[-n:]


def split(path, n, base):
    """Split the lines of a file into at most n files of about the same size."""
    lines = sorted(open(path, "rb"), key=len, reverse=True)
    n = max(1, min(n, len(lines), os.path.getsize(path) // 20000 + 1))
    parts, sizes = [[] for _ in range(n)], [0] * n
    for l in lines:
        i = sizes.index(min(sizes))
        parts[i].append(l)
        sizes[i] += len(l) + 500
    out = []
    for i, p in enumerate(parts):
        f = "%s.%d" % (base, i)
        open(f, "wb").writelines(p)
        out.append(f)
    return out
