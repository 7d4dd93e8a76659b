"""Shared machinery of the checks: TLC runs, trace files, verdicts, evidence.

A check module (checks/cNN.py) defines `run(ck)`.  It records executions of the
real code (or replays transitions TLC enumerated) and lets a TLA+ module decide.
"""
import json, os, random, re, shutil, signal, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
REPO_SRC = os.path.realpath(os.environ.get("VERIF_REPO", "/repo") + "/src")


class MachineryError(Exception):
    pass


class CaseTimeout(BaseException):
    """Raised in code under test which does not return in time."""


class limit:
    """with limit(seconds): ... raises CaseTimeout in the code under test."""

    def __init__(self, seconds):
        self.s = seconds

    def _h(self, *a):
        raise CaseTimeout("no result within %ss" % self.s)

    def __enter__(self):
        self.old = signal.signal(signal.SIGALRM, self._h)
        signal.setitimer(signal.ITIMER_REAL, self.s)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        return False


class TLCResult:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", "") if False else out)
        m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        self.finished = "Model checking completed. No error has been found." in out
        self.marks = []
        for line in out.splitlines():
            if line.startswith('"@@'):
                try:
                    s = json.loads(line)
                except ValueError:
                    continue
                kind, _, body = s[2:].partition(" ")
                self.marks.append((kind, json.loads(body)))

    def of(self, kind):
        return [b for k, b in self.marks if k == kind]


class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.quick = tier != "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random("%s-%d" % (pid, self.seed))
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        self.states = self.transitions = self.traces = self.replayed = 0
        self.samples, self.violations, self.assumptions = [], [], []
        self.models, self.notes = [], {}
        self.known = load_known(pid)
        self.known_hit = {}
        try:
            os.remove(os.path.join(VERIF, "evidence", "replay-%s.json" % pid))
        except OSError:
            pass

    # ---------------------------------------------------------------- budget
    def budget(self, quick, thorough):
        return quick if self.quick else thorough

    def left(self, total=None):
        total = total or (600 if self.quick else 840)
        return total - (time.time() - self.t0)

    # ------------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, workers=1, timeout=600, extra=(), heap="4g", name=None):
        """Run TLC on spec/<module>.tla with the given configuration text."""
        work = tempfile.mkdtemp(prefix="tlc-", dir=self.tmp)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), work)
        with open(os.path.join(work, "M.cfg"), "w") as f:
            f.write(cfg)
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", JARS, "tlc2.TLC",
               "-config", "M.cfg", "-metadir", os.path.join(work, "meta"), "-workers", str(workers),
               "-noGenerateSpecTE", "-nowarning", "-deadlock", *extra, module + ".tla"]
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=max(10, min(timeout, self.left(880))))
        except subprocess.TimeoutExpired:
            raise MachineryError("TLC timeout on %s" % module)
        out = p.stdout.decode("utf-8", "replace")
        r = TLCResult(out, p.returncode, time.time() - t)
        shutil.rmtree(work, ignore_errors=True)
        return r

    def model_check(self, module, cfg, what, workers=8, timeout=600, must_hold=True, **k):
        """Exhaustively check a small configuration of the specification itself."""
        r = self.tlc(module, cfg, workers=workers, timeout=timeout, **k)
        if must_hold and not r.finished:
            raise MachineryError("model %s: %s\n%s" % (module, what, r.out[-3000:]))
        self.states += r.distinct
        self.transitions += r.generated
        self.models.append({"module": module, "what": what, "distinct": r.distinct,
                            "generated": r.generated, "wall_s": round(r.wall, 1)})
        return r

    def validate(self, module, traces, consts="", workers=8, timeout=600, what="", count=True):
        """Let spec/<module>.tla judge recorded traces: a list of lists of events.

        Each trace must have been completely judged; each failing clause is a
        violation.  Events may carry "_note" with how they came about (kept out
        of TLC's sight); traces may be dicts {"ev": [...], "note": ...}.
        """
        tr = [t if isinstance(t, dict) else {"ev": t} for t in traces]
        if not tr:
            raise MachineryError("no traces for " + module)
        path = os.path.join(self.tmp, "traces-%s.json" % module)
        clean = [{k: v for k, v in t.items() if k != "note"} for t in tr]
        clean = json.loads(json.dumps(clean))
        for t in clean:
            for e in t["ev"]:
                e.pop("_note", None)
        with open(path, "w") as f:
            json.dump(clean, f)
        cfg = "INIT TInit\nNEXT TNext\nCHECK_DEADLOCK FALSE\n" + consts
        r = self.tlc(module, cfg, env={"TRACES": path}, workers=workers, timeout=timeout)
        fails = r.of("FAIL")
        expect = sum(len(t["ev"]) + 1 for t in tr)
        if not r.finished and not fails and re.search(r"Evaluating|Attempted to|overflow", r.out) and not re.search(
                r"Parsing or semantic analysis failed|Unknown operator", r.out):
            # a recorded value lies outside the domain the specification is defined on
            m = re.search(r"The behavior up to this point is:(.*)", r.out, re.S)
            self.violate("%s: a recorded event is outside the specification's domain" % module,
                         {"tlc": r.out[-3000:]})
            return r
        if not r.finished and not fails:
            raise MachineryError("trace module %s did not finish:\n%s" % (module, r.out[-4000:]))
        bad = {}
        for f in fails:
            bad.setdefault(f["t"], f)
        if not fails and r.distinct != expect:
            raise MachineryError("trace module %s: %d states, expected %d" % (module, r.distinct, expect))
        self.states += r.distinct
        self.transitions += r.generated
        if count:
            self.traces += len(tr)
        self.models.append({"module": module, "what": what or "trace validation", "traces": len(tr),
                            "events": expect - len(tr), "distinct": r.distinct, "wall_s": round(r.wall, 1)})
        byop = self.notes.setdefault("events_by_kind", {})
        for t in tr:
            for e in t["ev"]:
                k = "%s.%s" % (module, e.get("op", "?"))
                byop[k] = byop.get(k, 0) + 1
        for t in tr[:1]:
            if len(self.samples) < 4:
                self.samples.append({"module": module, "trace": _short(t)})
        for ti in sorted(bad):
            f = bad[ti]
            t = tr[ti - 1]
            ev = t["ev"][f["l"] - 1]
            self.violate("%s: event %d (%s) violates %s" % (module, f["l"], ev.get("op", "?"), sorted(f["bad"])),
                         {"module": module, "note": t.get("note"), "failing_event": ev, "index": f["l"],
                          "clauses": sorted(f["bad"]), "prefix": t["ev"][: f["l"] - 1][-5:]})
        return r

    # -------------------------------------------------------------- verdicts
    def violate(self, what, detail=None, key=None):
        for k in self.known:
            if k["key"] in (key or what):
                self.known_hit.setdefault(k["key"], what)
                return
        self.violations.append({"what": what, "detail": detail})

    def edges(self, module, cfg, what, timeout=600, must=1):
        """Exhaustive state graph of a small configuration: TLC prints every transition as @@EDGE {s,a,p}."""
        r = self.model_check(module, cfg, what, workers=1, timeout=timeout)
        g = {}
        n = 0
        for e in r.of("EDGE"):
            g.setdefault(json.dumps(e["s"], sort_keys=True), {}).setdefault(
                json.dumps(e["a"], sort_keys=True), set()).add(json.dumps(e["p"], sort_keys=True))
            n += 1
        if n < must:
            raise MachineryError("%s printed only %d transitions" % (module, n))
        self.models[-1]["edges"] = n
        return g

    def expect(self, cond, what, detail=None):
        self.replayed += 1
        if not cond:
            self.violate(what, detail)
        return cond

    def finish(self):
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces + self.replayed,
                           "recorded_traces": self.traces, "replayed_transitions": self.replayed,
                           "runs": self.models, "samples": self.samples or ["none"], **self.notes},
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        shutil.rmtree(self.tmp, ignore_errors=True)
        for key, what in self.known_hit.items():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, what))
        if self.violations:
            path = os.path.join(VERIF, "evidence", "replay-%s.json" % self.pid)
            with open(path, "w") as f:
                json.dump(self.violations[:20], f, indent=1, default=str)
            for v in self.violations[:5]:
                print("  " + v["what"][:400])
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        print("%s %s: held; %d states, %d transitions, %d traces, %d replayed, %.1fs" % (
            self.pid, self.tier, self.states, self.transitions, self.traces, self.replayed, time.time() - self.t0))
        return 0


def _short(o, n=6):
    s = json.dumps(o, default=str)
    return json.loads(s) if len(s) < 3000 else s[:3000] + "..."


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r"known: property=(\S+) key=\[(.*?)\] (.*)", line)
            if m and m.group(1) == pid:
                out.append({"key": m.group(2), "what": m.group(3)})
    return out


def in_repo(tb):
    return any(os.path.realpath(f.filename).startswith(REPO_SRC) for f in traceback.extract_tb(tb))


def main(pid, tier, runner):
    ck = Check(pid, tier)
    try:
        runner(ck)
    except MachineryError as e:
        sys.stderr.write("MACHINERY ERROR: %s\n" % e)
        shutil.rmtree(ck.tmp, ignore_errors=True)
        if ck.violations:  # already established by TLC or by replay
            return ck.finish()
        return 2
    except (Exception, CaseTimeout) as e:
        text = traceback.format_exc()
        if in_repo(e.__traceback__) or isinstance(e, (CaseTimeout, ImportError)):
            ck.violate("code under test failed unexpectedly: %r" % (e,), {"traceback": text[-4000:]})
        elif isinstance(e, (AttributeError, TypeError, ValueError, LookupError, ArithmeticError, AssertionError,
                            RecursionError, StopIteration, FileNotFoundError, FileExistsError,
                            NotADirectoryError, IsADirectoryError)):
            # the observer meets nothing of the kind on the unchanged tree (fixed seed): what the code
            # under test returned or left behind is not a value of the specification's state
            ck.violate("the code's state cannot be read as a state of the specification: %r" % (e,),
                       {"traceback": text[-4000:]})
        else:
            sys.stderr.write("MACHINERY ERROR\n" + text)
            shutil.rmtree(ck.tmp, ignore_errors=True)
            if ck.violations:
                return ck.finish()
            return 2
    return ck.finish()


def call(fn, *a, timeout=20, **k):
    """Result of a call into the code under test: ("ok", value) or ("err", exception class names)."""
    try:
        with limit(timeout):
            return "ok", fn(*a, **k)
    except CaseTimeout:
        call.late += 1
        if call.late > 3:  # enough to tell; the rest of the run could not be finished in time
            raise
        return "err", ["TIMEOUT"]
    except Exception as e:
        return "err", [c.__name__ for c in type(e).__mro__ if c not in (object, BaseException)]


call.late = 0


def ranks(values):
    """Dense ranks (ints from 0) of real numbers, for order-only comparisons in TLA+."""
    u = sorted(set(values))
    pos = {v: i for i, v in enumerate(u)}
    return [pos[v] for v in values]


class Intern:
    """Stable small integers for values that are only compared for identity."""

    def __init__(self):
        self.d = {}

    def __call__(self, v):
        return self.d.setdefault(v, len(self.d) + 1)


FIX = 10 ** 6
BIG = 2 * 10 ** 9


def fx(v, scale=FIX):
    """Fixed point integer for TLC (32 bit); non-finite and huge values saturate to BIG."""
    v = float(v)
    if v != v:
        return BIG + 1
    r = v * scale
    if abs(r) >= BIG:
        return BIG if r > 0 else -BIG
    return int(round(r))
