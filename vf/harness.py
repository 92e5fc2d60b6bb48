"""What every check shares: seeds, scratch space, TLC runs, trace validation, verdicts, evidence."""
import concurrent.futures, json, os, random, re, shutil, sys, tempfile, threading, time, traceback

from . import build, tlc

VERIF = build.VERIF


class Violation(Exception):
    pass


class Batch:
    """One recorded run of the real code: a trace, the configuration it refers to, and where its files are."""

    def __init__(self, module, events, config=None, env=None, note="", directory=None):
        self.module, self.events, self.config, self.env, self.note, self.directory = module, events, config, env or {}, note, directory


def known_findings(pid):
    """Names of the findings recorded for a property: lines "finding: property=<id> <name> <what fails>"."""
    try:
        with open(os.path.join(VERIF, "known-findings.txt")) as f:
            return dict(re.findall(r"^finding: property=%s ([\w-]+) (.*)$" % pid, f.read(), re.M)).keys()
    except OSError:
        return set()


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="vf.%s." % pid)
        os.chmod(self.scratch, 0o755)
        self.states = self.transitions = self.traces = self.events = self.lenient = 0
        self.inconclusive = []
        self.samples = []
        self.extra = {}
        self.models = []
        self.violations = []
        self.assumptions = []
        self.lock = threading.Lock()
        self.known = known_findings(pid)
        self.found = set()
        self._paths = None

    # -------------------------------------------------------------------------------------------- building blocks
    def rng(self, *salt):
        return random.Random("%s|%s|%s" % (self.pid, self.seed, "|".join(str(s) for s in salt)))

    def build(self, *want):
        return build.build(want or ("lib", "drv"))

    def subdir(self, name):
        d = os.path.join(self.scratch, name)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        return d

    def count(self, key, n=1):
        with self.lock:
            self.extra[key] = self.extra.get(key, 0) + n

    def sample(self, what):
        with self.lock:
            if len(self.samples) < 8:
                self.samples.append(what)

    # -------------------------------------------------------------------------------------------- the specification
    def mc(self, module, cfg=None, consts=None, env=None, workers=4, extra=(), timeout=600, name=None, invariants=None):
        """Exhaustive check of the specification itself: a failure here is never a statement about the code."""
        r = tlc.run(module, cfg, env=env, workers=workers, extra=extra, timeout=timeout, consts=consts, invariants=invariants)
        if not r.ok:
            raise tlc.TlcError("%s: the specification violates its own properties\n%s" % (cfg or module, r.out[-3000:]))
        with self.lock:
            self.states += r.distinct
            self.transitions += r.states
            self.models.append(dict(model=name or cfg or module, generated=r.states, distinct=r.distinct, seconds=round(r.wall, 1)))
        return r

    # -------------------------------------------------------------------------------------------- conformance
    def _judge(self, batch, work):
        os.makedirs(work, exist_ok=True)
        env = dict(batch.env)
        if batch.config is not None:
            env["GMG_CONFIG"] = os.path.join(work, "config.json")
            with open(env["GMG_CONFIG"], "w") as f:
                json.dump(batch.config, f)
        env["GMG_TRACE"] = os.path.join(work, "trace.ndjson")
        with open(env["GMG_TRACE"], "w") as f:
            for e in batch.events:
                f.write(json.dumps(e) + "\n")
        for attempt in (1, 2):
            try:
                return tlc.run(batch.module, env=env, timeout=700)
            except tlc.TlcError as x:
                err = x
        return err

    def _one(self, name, make, key):
        d = self.subdir(name)
        b = make(self.rng(key), d)
        if b is None or not b.events:
            return b, None, d
        return b, self._judge(b, os.path.join(d, "judge")), d

    def validate(self, name, make, n=1, workers=7):
        """make(rng, directory) runs the real code and returns a Batch.  n batches, each judged by TLC; a rejected one
        is run again and reported if it is rejected again."""
        def job(i):
            if len(self.violations) >= 3:
                return
            key = "%s-%d" % (name, i)
            b, r, d = self._one(key, make, key)
            if b is None or r is None:
                return
            if isinstance(r, tlc.TlcError):
                with self.lock:
                    self.inconclusive.append("%s: %s" % (key, str(r)[-1500:]))
                return
            if not r.ok:
                b2, r2, d2 = self._one(key, make, key)
                if b2 is None or isinstance(r2, tlc.TlcError) or r2.ok:
                    with self.lock:
                        j = r.out.find("MISMATCH")
                        self.inconclusive.append("%s: rejected once, not again: %s" % (key, " ".join(r.out[max(j, 0):][:900].split())))
                    return
                self.report(key, b2, r2.out, d2)
                return
            m = re.search(r'"LENIENT", (\d+)', r.out)
            found = set(re.findall(r'"FINDING", "([\w-]+)"', r.out))
            if found - self.known:
                self.report(key, b, "MISMATCH: not listed as a known finding: %s\n" % ", ".join(sorted(found - self.known)) + r.out, d)
                return
            with self.lock:
                self.traces += 1
                self.events += len(b.events)
                self.lenient += int(m.group(1)) if m else 0
                self.found |= found
                self.states += r.distinct
                self.transitions += r.states
            if b.events:
                rr = random.Random(i)
                self.sample(dict(trace=key, module=b.module, note=b.note, event=rr.choice(b.events)))
            shutil.rmtree(d, ignore_errors=True)
        with concurrent.futures.ThreadPoolExecutor(workers) as ex:
            for f in [ex.submit(job, i) for i in range(n)]:
                f.result()

    # -------------------------------------------------------------------------------------------- verdicts
    def report(self, key, batch, text, directory=None):
        rep = os.path.join(VERIF, "replay", "%s-%s-%s" % (self.pid, self.seed, key))
        with self.lock:
            shutil.rmtree(rep, ignore_errors=True)
            os.makedirs(rep)
            if directory and sum(os.path.getsize(os.path.join(a, f)) for a, _, fs in os.walk(directory) for f in fs
                                 if os.path.exists(os.path.join(a, f))) < 60e6:
                shutil.copytree(directory, os.path.join(rep, "files"), symlinks=True, ignore_dangling_symlinks=True)
            if batch is not None:
                with open(os.path.join(rep, "trace.ndjson"), "w") as f:
                    for e in batch.events:
                        f.write(json.dumps(e) + "\n")
                if batch.config is not None:
                    with open(os.path.join(rep, "config.json"), "w") as f:
                        json.dump(batch.config, f)
            lines = [x for x in text.splitlines() if "MISMATCH" in x or "CONSUMED" in x or "violated" in x]
            with open(os.path.join(rep, "README"), "w") as f:
                f.write("property %s, seed %s, %s\n" % (self.pid, self.seed, key))
                if batch is not None:
                    f.write("re-judge: GMG_CONFIG=config.json GMG_TRACE=trace.ndjson, module spec/%s.tla\n%s\n" % (batch.module, batch.note))
                f.write("\n".join(lines[:20]) + "\n\n" + text[-8000:])
            self.violations.append((key, rep))
        print("VIOLATION property=%s replay=%s" % (self.pid, rep))
        for x in lines[:4]:
            print("  " + x[:1500])
        if not lines:
            print("  " + text.strip()[-1500:])
        sys.stdout.flush()

    def violation(self, key, text, directory=None, batch=None):
        self.report(key, batch, text, directory)

    def evidence(self, level):
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   samples=self.samples, trace_events=self.events, events_judged_leniently=self.lenient,
                   exhaustive_models=self.models)
        cov.update(self.extra)
        if self.found:
            cov["known_findings_met"] = sorted(self.found)
        if self.inconclusive:
            cov["inconclusive"] = self.inconclusive[:5]
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 1), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)


def main(pid, function, level="model_checking"):
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    ctx = Ctx(pid, tier, seed)
    rc = 0
    try:
        try:
            function(ctx)
        except Exception:
            if not ctx.violations:
                traceback.print_exc()
                rc = 2
        if ctx.violations:
            rc = 1
        elif rc == 0 and ctx.traces == 0:
            print("no trace was judged: %s" % "\n".join(x[-600:] for x in ctx.inconclusive[:2]))
            rc = 2
        for s in ctx.inconclusive[:3]:
            print("inconclusive (not counted): " + s[-1000:])
        print("%s %s seed=%d: %d spec states, %d traces of %d events, %d violations, %.1fs" % (
            pid, tier, seed, ctx.states, ctx.traces, ctx.events, len(ctx.violations), time.time() - ctx.t0))
        for x in sorted(ctx.known):
            print("KNOWN-FINDING: property=%s %s%s" % (pid, x, "" if x in ctx.found else " (not met in this run)"))
        ctx.evidence(level)
    finally:
        shutil.rmtree(ctx.scratch, ignore_errors=True)
    return rc
