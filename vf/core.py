"""Common machinery of the checks: scratch directory, builds of the code under
test, TLC runs, replay of state graphs, validation of traces, evidence."""
import atexit, filecmp, hashlib, json, os, random, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
SPECS = os.path.join(VERIF, "specs")
HARNESS = os.path.join(VERIF, "harness")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4


class CheckError(Exception):
    """The machinery failed: neither held nor violated."""


class Violation(Exception):
    def __init__(self, what, replay):
        Exception.__init__(self, what)
        self.what = what
        self.replay = replay


class TlcResult:
    pass


class Check:
    def __init__(self, pid, tier=None, seed=None):
        self.pid = pid
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        self.seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1"))
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="vf-%s-" % pid)
        atexit.register(shutil.rmtree, self.dir, True)
        self.lock = threading.Lock()
        self.stopping = False
        self.cap = 200 # seconds for a driver in the quick tier
        self.running = set()
        self.bins = {}
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [],
                    "model_runs": [], "trace_runs": [], "graph_replays": []}
        self.assumptions = []
        self.level = "model_checking"

    def rng(self, *salt):
        return random.Random("%d/%s/%s" % (self.seed, self.pid, "/".join(map(str, salt))))

    def stop(self):
        with self.lock:
            self.stopping = True
            for p in self.running:
                p.kill()

    def started(self, p):
        with self.lock:
            self.running.add(p)
            if self.stopping:
                p.kill()
        return p

    def ended(self, p):
        with self.lock:
            self.running.discard(p)
        if self.stopping:
            raise CheckError("stopped")

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    def parallel(self, *jobs):
        """Runs the callables in parallel, raising the first Violation, or the first error."""
        def guarded(j):
            if self.stopping:
                raise CheckError("stopped")
            try:
                return j()
            except Violation:
                self.stop() # one is enough
                raise
        with ThreadPoolExecutor(max_workers=NCPU) as ex:
            fs = [ex.submit(guarded, j) for j in jobs]
            errs = []
            out = []
            for f in fs:
                try:
                    out.append(f.result())
                except Exception as e:
                    errs.append(e)
            for e in errs:
                if isinstance(e, Violation):
                    raise e
            if errs:
                raise errs[0]
            return out

    # ---------------------------------------------------------------- build
    def once(self, key, make):
        """Value of make(), computed once for each key."""
        with self.lock:
            ent = self.bins.setdefault(key, [threading.Lock(), None])
        with ent[0]:
            if ent[1] is None:
                ent[1] = make()
            return ent[1]

    def build(self, main, asan=False, m32=False, defs=(), cov=False, extra=(), opt="-O1", cc="gcc", optional=False, lib="lib.c", plain=False):
        """Path of a driver, compiled with the library; None if it's optional and can't be compiled.
        plain: only the options given, as a user would compile it."""
        base = [cc, "-std=gnu11", opt, "-w", "-include", os.path.join(HARNESS, "heap.h"), "-I", REPO, "-I", HARNESS]
        if not plain:
            base += ["-g", "-fno-strict-aliasing"]
        cxx = cc in ("g++", "clang++")
        if cxx:
            base[1] = "-std=gnu++17"
            base += ["-fpermissive", "-x", "c++", "-include", "tommyds/tommy.h"]
        if m32:
            base.append("-m32")
        if not plain and (asan or m32):
            base.append("-fwrapv") # overflows go as in not optimized code
        if asan:
            base += ["-fsanitize=address,bounds", "-fno-sanitize-recover=bounds", "-fno-omit-frame-pointer"]
        base += list(defs) + list(extra)

        def compile(src):
            cmd = base + (["-fsanitize-coverage=trace-pc", "-DVF_WORK"] if cov and src == lib else []) + ["-c", os.path.join(HARNESS, src)]

            def run():
                o = os.path.join(self.dir, "%s-%s.o" % (src, hashlib.sha1(repr(cmd).encode()).hexdigest()[:10]))
                p = subprocess.run(cmd + ["-o", o], capture_output=True, text=True)
                return (o, None) if p.returncode == 0 else ("", "build failed: %s\n%s" % (" ".join(cmd), p.stderr[-4000:]))
            return self.once(("obj",) + tuple(cmd), run)

        def make():
            objs = [compile(src) for src in ([main, lib, "heap.c"] if lib else [main, "heap.c"])]
            for o, err in objs:
                if err:
                    return "", err
            out = os.path.join(self.dir, "%s-%s" % (os.path.splitext(main)[0], hashlib.sha1(repr((base, cov, lib)).encode()).hexdigest()[:10]))
            link = [cc] + (["-m32"] if m32 else []) + [x for x in extra if x.startswith("-fsanitize")] + (["-fsanitize=address,bounds"] if asan else []) + [o for o, _ in objs] + ["-o", out, "-lpthread"]
            p = subprocess.run(link, capture_output=True, text=True)
            return (out, None) if p.returncode == 0 else ("", "link failed: %s\n%s" % (" ".join(link), p.stderr[-4000:]))
        out, err = self.once(("exe", main, cov, lib) + tuple(base), make)
        if err:
            if optional:
                return None
            raise CheckError(err)
        return out

    # ------------------------------------------------------------------ run
    def run(self, argv, inp=None, timeout=120, asan=False, outfile=None):
        """Runs a driver. Returns (code, stdout text or None, stderr text); code is None on timeout."""
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:hard_rss_limit_mb=12000:allocator_may_return_null=1:detect_stack_use_after_return=0"
        def limits():
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_STACK, (64 << 20, resource.RLIM_INFINITY))
            if not asan and "h_giant" not in argv[0]:
                resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        fin = None
        fout = subprocess.PIPE
        try:
            if isinstance(inp, str):
                p = os.path.join(self.dir, "in-%d-%d" % (threading.get_ident(), time.time_ns()))
                with open(p, "w") as f:
                    f.write(inp)
                fin = open(p)
                os.unlink(p)
            if outfile:
                fout = open(outfile, "wb")
            pr = self.started(subprocess.Popen(argv, stdin=fin or subprocess.DEVNULL, stdout=fout, stderr=subprocess.PIPE, env=env, preexec_fn=limits, cwd=self.dir))
            try:
                o, e = pr.communicate(timeout=timeout)
                code = pr.returncode
            except subprocess.TimeoutExpired:
                pr.kill()
                o, e = pr.communicate()
                code = None
            self.ended(pr)
            return code, (o.decode("utf-8", "replace") if o is not None else None), e.decode("utf-8", "replace")
        finally:
            if fin:
                fin.close()
            if outfile:
                fout.close()

    # ------------------------------------------------------------------ tlc
    def tlc(self, module, cfg, env=None, workers=None, timeout=600, simulate=None, heap="4g", extra=(), outfile=None, text=None, light=False):
        """Runs TLC on specs/<module>.tla; cfg is the text of the configuration, or the name of a file in specs.
        If text is given, it's the text of the module, instead of the file in specs."""
        r = TlcResult()
        tag = "%s-%d" % (module, time.time_ns())
        d = os.path.join(self.dir, "tlc-" + tag)
        os.mkdir(d)
        if cfg.endswith(".cfg"):
            cfgp = os.path.join(SPECS, cfg)
        else:
            cfgp = os.path.join(d, "run.cfg")
            with open(cfgp, "w") as f:
                f.write(cfg)
        outp = outfile or os.path.join(d, "out.txt")
        e = dict(os.environ)
        e.update(env or {})
        jvm = ["-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1"] if light else ["-XX:+UseParallelGC"]
        if light:
            workers = workers or 1
        cmd = ["java"] + jvm + ["-Xss64m", "-Xmx" + heap, "-DTLA-Library=" + SPECS, "-cp", TLA_CP, "tlc2.TLC",
               "-workers", str(workers or NCPU), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE", "-config", cfgp] + list(extra)
        if simulate:
            cmd += ["-simulate", simulate[0], "-depth", str(simulate[1]), "-seed", str(self.seed)]
        if text:
            with open(os.path.join(d, module + ".tla"), "w") as f:
                f.write(text)
        cmd.append(os.path.join(d if text else SPECS, module + ".tla"))
        with open(outp, "wb") as f:
            pr = self.started(subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, env=e, cwd=d))
            try:
                r.code = pr.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                pr.kill()
                pr.wait()
                r.code = None
        self.ended(pr)
        r.out = outp
        tail = []
        r.generated = r.distinct = r.depth = 0
        r.text = ""
        with open(outp, errors="replace") as f:
            for line in f:
                if line.startswith('"@'):
                    continue
                tail.append(line)
        r.text = "".join(tail)
        m = re.findall(r"^(\d+) states generated, (\d+) distinct states found", r.text, re.M)
        if m:
            r.generated, r.distinct = int(m[-1][0]), int(m[-1][1])
        m = re.findall(r"depth of the complete state graph search is (\d+)", r.text)
        if m:
            r.depth = int(m[-1])
        if r.code is None:
            raise CheckError("TLC timed out on %s" % module)
        return r

    def model(self, module, cfg, name=None, **kw):
        """Model checks a specification alone: it has to hold, whatever the code is."""
        t = time.time()
        r = self.tlc(module, cfg, **kw)
        if r.code != 0:
            raise CheckError("TLC rejects the specification %s (exit %s)\n%s" % (module, r.code, r.text[-2500:]))
        self.note_model(name or module, r, time.time() - t)
        return r

    def inductive(self, module, cinit, inv="Inv", safe="Safe"):
        """Proves with Apalache that inv is an inductive invariant of the specification, and that it implies safe; or
        only that inv is true in all the initial states, without safe."""
        t = time.time()
        if not shutil.which("apalache-mc"):
            self.cov.setdefault("skipped", []).append("proof of %s/%s: no Apalache" % (module, cinit))
            return
        for init, what, length in (("Init", inv, 0), ("Any", inv, 1), ("Any", safe, 0))[:3 if safe else 1]:
            for attempt in (1, 2):
                d = os.path.join(self.dir, "apalache-%d" % time.time_ns())
                os.mkdir(d)
                cmd = ["apalache-mc", "check", "--out-dir=" + d, "--cinit=" + cinit, "--init=" + init, "--inv=" + what, "--length=%d" % length, os.path.join(SPECS, module + ".tla")]
                pr = self.started(subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=d))
                try:
                    out, _ = pr.communicate(timeout=120)
                except subprocess.TimeoutExpired:
                    pr.kill()
                    out, _ = pr.communicate()
                if self.stopping:
                    raise CheckError("stopped")
                if pr.returncode in (0, 12):
                    break
            if pr.returncode == 12:
                raise CheckError("Apalache rejects %s of the specification %s/%s\n%s" % (what, module, cinit, out[-2500:]))
            if pr.returncode != 0:
                # it says nothing of the code
                self.cov.setdefault("skipped", []).append("proof of %s/%s: Apalache fails, exit %s" % (module, cinit, pr.returncode))
                self.log("proof %s/%s: Apalache fails, skipped\n%s" % (module, cinit, out[-500:]))
                return
        with self.lock:
            self.cov["model_runs"].append({"spec": "%s/%s" % (module, cinit), **({"inductive_invariant": inv, "implies": safe} if safe else {"proved": inv}), "bounds": "none", "wall_s": round(time.time() - t, 1)})
        self.log("proof %s/%s: %s (%.1fs)" % (module, cinit, "%s is inductive and implies %s" % (inv, safe) if safe else inv + " is always true", time.time() - t))

    def note_model(self, name, r, wall):
        with self.lock:
            self.cov["states"] += r.distinct
            self.cov["transitions"] += r.generated
            self.cov["model_runs"].append({"spec": name, "distinct_states": r.distinct, "states_generated": r.generated, "depth": r.depth, "wall_s": round(wall, 1)})
        self.log("model %s: %d states, %d transitions, depth %d (%.1fs)" % (name, r.distinct, r.generated, r.depth, wall))

    # ------------------------------------------------------------ violations
    def replay_file(self, text):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%s.txt" % (self.pid, hashlib.sha1(text.encode()).hexdigest()[:10]))
        with open(p, "w") as f:
            f.write(text)
        return p

    # --------------------------------------------------------- state graphs
    def graph(self, module, cfg, name=None, **kw):
        """Model checks a specification and returns its state graph:
        list of observations, list of (from, op, to), and for each state its parent edge (BFS tree, state 0 is the initial one)."""
        t = time.time()
        r = self.tlc(module, cfg, **kw)
        if r.code != 0:
            raise CheckError("TLC rejects the specification %s (exit %s)\n%s" % (module, r.code, r.text[-2500:]))
        self.note_model(name or module, r, time.time() - t)
        ids = {}
        obs = []
        raw = []
        with open(r.out, errors="replace") as f:
            for line in f:
                if line.startswith('"@S '):
                    p = line.index(">>", 4) + 2
                    k = line[4:p]
                    if k not in ids:
                        ids[k] = len(obs)
                        obs.append(parse_tla(line[p:].strip()[:-1]))
                elif line.startswith('"@E '):
                    p = line.index(">>", 4) + 2
                    q = line.rindex("<<")
                    raw.append((line[4:p], line[p + 1:q - 1], line[q:].strip()[:-1]))
        os.unlink(r.out)
        opc = {}
        edges = []
        seen = set()
        for a, o, b in raw:
            if a not in ids or b not in ids:
                raise CheckError("graph of %s: edge between unknown states" % module)
            e = (ids[a], o, ids[b])
            if e in seen:
                continue
            seen.add(e)
            if o not in opc:
                opc[o] = parse_tla(o)
            edges.append((e[0], opc[o], e[2]))
        if not edges or len(obs) != r.distinct:
            raise CheckError("graph of %s: %d observations for %d states" % (module, len(obs), r.distinct))
        out = [[] for _ in obs]
        for i, (a, o, b) in enumerate(edges):
            out[a].append(i)
        parent = [None] * len(obs)
        done = [False] * len(obs)
        done[0] = True
        queue = [0]
        for s in queue:
            for i in out[s]:
                b = edges[i][2]
                if not done[b]:
                    done[b] = True
                    parent[b] = (s, edges[i][1])
                    queue.append(b)
        if not all(done):
            raise CheckError("graph of %s: unreachable states" % module)
        # renumber in BFS order, so that parents come first
        pos = {s: i for i, s in enumerate(queue)}
        obs2 = [obs[s] for s in queue]
        par2 = [None if parent[s] is None else (pos[parent[s][0]], parent[s][1]) for s in queue]
        edg2 = [(pos[a], o, pos[b]) for a, o, b in edges]
        return obs2, edg2, par2

    def replay_graph(self, name, argv, text, nedges, sample=None, asan=False, timeout=300):
        """Takes every transition on the real code."""
        t = time.time()
        timeout = self.pick(min(timeout, self.cap), timeout)
        for attempt in (1, 2):
            code, out, err = self.run(argv, text, asan=asan, timeout=timeout)
            if code == 2:
                raise CheckError("driver rejects the graph %s: %s" % (name, err[-2000:]))
            if code == 0:
                m = re.search(r"^DONE (\d+)", out, re.M)
                if not m or int(m.group(1)) != nedges:
                    raise CheckError("graph %s: %s of %d transitions replayed" % (name, m and m.group(1), nedges))
                break
        if code != 0:
            what = "%s: the code doesn't follow a transition of the specification: %s" % (name, "timeout" if code is None else
                    next((x for x in out.splitlines() if x.startswith("MISMATCH")), "crash, exit code %s" % code))
            raise Violation(what[:3000], "# graph replay %s\n%s\n--- output\n%s\n--- stderr\n%s\n" % (name, what, out[-20000:], err[-20000:]))
        with self.lock:
            self.cov["graph_replays"].append({"graph": name, "transitions_replayed": nedges, "wall_s": round(time.time() - t, 1)})
            if sample:
                self.cov["samples"].append(sample)
        self.log("replay %s: %d transitions on the real code (%.1fs)" % (name, nedges, time.time() - t))

    # --------------------------------------------------------------- traces
    def record(self, argv, text, path, asan=False, timeout=240):
        """Runs a driver on a script, recording the trace. Returns (code, stderr, lines)."""
        code, _, err = self.run(argv, text, asan=asan, timeout=timeout, outfile=path)
        with open(path, "rb") as f:
            data = f.read()
        lines = data.split(b"\n")
        if lines and lines[-1] != b"":
            data = b"\n".join(lines[:-1]) + (b"\n" if len(lines) > 1 else b"")
            with open(path, "wb") as f:
                f.write(data)
        return code, err, len(lines) - 1

    def validate(self, name, argv, scripts, module, invariants, asan=False, timeout=240, tlc_timeout=600, consts="", sample=True, env=None, recorder=None, same=None, keep=False, giant=False):
        """Records the traces of the scripts (list of lists of lines, one for each trace) with the driver,
        and validates them with TLC against the trace specification.
        same: path of a trace already accepted, TLC is not needed if this one is identical.
        keep: leaves the file, and returns its path."""
        t = time.time()
        timeout = self.pick(min(timeout, self.cap if giant else max(150, self.cap - 50)), timeout)
        path = os.path.join(self.dir, "trace-%s-%d.ndjson" % (name.replace("/", "_"), time.time_ns()))
        text = "\n".join("\n".join(s) for s in scripts) + "\n"
        cfg = "SPECIFICATION TSpec\nINVARIANTS %s\nALIAS Alias\nCHECK_DEADLOCK FALSE\n%s" % (" ".join(invariants), consts)
        for attempt in (1, 2):
            code, err, n = self.record(argv, text, path, asan=asan, timeout=timeout) if not recorder else recorder(scripts, path, timeout)
            if giant and code in (75, -9):
                # no memory, or address space, for it
                with self.lock:
                    self.cov.setdefault("skipped", []).append("%s: the machine hasn't enough memory" % name)
                if n == 0:
                    os.unlink(path)
                    return 0
                code = 0
            if code == 2:
                raise CheckError("driver rejects the script %s: %s" % (name, err[-2000:]))
            bad = None
            r = None
            if same and code == 0 and filecmp.cmp(same, path, shallow=False):
                with self.lock:
                    self.cov["traces_validated_against_impl"] += len(scripts)
                    self.cov["trace_runs"].append({"name": name, "spec": module, "traces": len(scripts), "events": n, "identical_to": os.path.basename(same), "wall_s": round(time.time() - t, 1)})
                self.log("traces %s: %d traces, %d events, identical to those accepted by %s (%.1fs)" % (name, len(scripts), n, module, time.time() - t))
                os.unlink(path)
                return n
            if n:
                e = {"TRACE": path}
                e.update(env or {})
                r = self.tlc(module, cfg, env=e, timeout=tlc_timeout, light=n < 100000)
                if r.code in (12, 13):
                    bad = "the trace is rejected by the specification: " + tlc_brief(r.text)
                    break
            if not bad and code != 0:
                bad = "the driver %s on the real code" % ("doesn't terminate" if code is None else "crashes (exit code %d)" % code)
            if not bad:
                if r is None or r.code != 0:
                    raise CheckError("TLC fails on the trace %s (exit %s)\n%s" % (name, r and r.code, r and r.text[-2500:]))
                if r.distinct != n:
                    raise CheckError("trace %s: TLC consumed %d of %d events\n%s" % (name, r.distinct, n, r.text[-3000:]))
                break
        if bad:
            frag = trace_fragment(path, r.text if r else "", scripts)
            if r is not None and r.code not in (0, 12, 13):
                bad += " (and TLC exit %s)" % r.code
            raise Violation("%s: %s" % (name, bad), "# trace %s, specification %s, invariants %s\n%s\n--- stderr of the driver\n%s\n--- TLC\n%s\n" % (
                name, module, " ".join(invariants), frag, err[-20000:], (r.text[-20000:] if r else "")))
        with self.lock:
            self.cov["traces_validated_against_impl"] += len(scripts)
            self.cov["states"] += r.distinct
            self.cov["transitions"] += r.generated
            self.cov["trace_runs"].append({"name": name, "spec": module, "traces": len(scripts), "events": n, "invariants": list(invariants), "wall_s": round(time.time() - t, 1)})
            if "WorkOK" in invariants:
                with open(path) as f:
                    self.cov["trace_runs"][-1]["max_work"] = max((int(x.rsplit('"w":', 1)[1].split("}")[0].split(",")[0]) for x in f if '"w":' in x), default=0)
            if sample:
                with open(path) as f:
                    ev = [f.readline().strip()[:600] for _ in range(3)]
                self.cov["samples"].append({"trace": name, "first_events": ev})
        self.log("traces %s: %d traces, %d events accepted by %s (%.1fs)" % (name, len(scripts), n, module, time.time() - t))
        if keep:
            return path
        os.unlink(path)
        return n

    # ------------------------------------------------------------- evidence
    def finish(self, violations=0):
        d = os.environ.get("VF_EVIDENCE_DIR", os.path.join(VERIF, "evidence"))
        os.makedirs(d, exist_ok=True)
        self.cov["samples"] = self.cov["samples"][:12]
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1), "violations": violations}
        p = os.path.join(d, self.pid + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        os.replace(p + ".tmp", p)


def parse_tla(s):
    """Parses a value made of tuples, integers and strings."""
    return json.loads(s.replace("<<", "[").replace(">>", "]").replace("TRUE", "1").replace("FALSE", "0").replace('\\"', '"'))


def tlc_brief(text):
    m = re.search(r"Invariant (\w+) is violated", text)
    inv = m.group(1) if m else "?"
    st = text.split("The behavior up to this point is:")
    last = ""
    if len(st) > 1:
        parts = re.split(r"^State \d+:.*$", st[1], flags=re.M)
        last = parts[-1] if parts else ""
        last = re.sub(r"\s+", " ", last)[:1500]
    else:
        m = re.search(r"Invariant \w+ is violated by the initial state:(.*?)\n\n", text, re.S)
        if m:
            last = re.sub(r"\s+", " ", m.group(1))[:1500]
    return "invariant %s violated; %s" % (inv, last)


def trace_fragment(path, text, scripts):
    """The script and the events of the trace that is rejected."""
    try:
        with open(path, errors="replace") as f:
            lines = f.read().split("\n")
        m = re.findall(r"/?\\?\s*line\s*[=|\\>-]*\s*(\d+)", text)
        starts = [i for i, l in enumerate(lines) if '"e":"init"' in l]
        at = int(m[-1]) if m else len(lines) - 1
        k = max([i for i, s in enumerate(starts) if s + 1 <= at], default=0)
        begin = starts[k] if starts else 0
        return "--- script (input of the driver)\n%s\n--- events (last is the one rejected, or before the crash)\n%s\n" % (
            "\n".join(scripts[k][:1 + max(at - begin, 1) + 2]), "\n".join(lines[begin:at]))
    except Exception as e:  # the report is not worth a failure
        return "(no fragment: %s)" % e


def known_findings():
    """Lines of KNOWN_FINDINGS: 'finding: property=<id> ...' are printed, 'fixed: ...' are only a record."""
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\w+) (.*)", l)
            if m:
                out.append((m.group(1), m.group(2)))
    return out


def main(checks, argv):
    if len(argv) < 2 or argv[1] not in checks:
        print("usage: check ID (one of %s)" % " ".join(sorted(checks)))
        return 2
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(2))
    c = Check(argv[1], tier=argv[2] if len(argv) > 2 else None)
    try:
        checks[argv[1]](c)
        for pid, what in known_findings():
            if pid == c.pid:
                print("KNOWN-FINDING: property=%s %s" % (pid, what))
        c.finish()
        c.log("held")
        return 0
    except Violation as v:
        print(v.what)
        p = c.replay_file(v.what + "\n\n" + v.replay)
        c.cov.setdefault("samples", []).append({"violation": v.what[:2000]})
        c.finish(1)
        print("VIOLATION property=%s replay=%s" % (c.pid, p), flush=True)
        return 1
    except CheckError as e:
        print("ERROR of the check %s: %s" % (c.pid, e), flush=True)
        return 2
