"""Runs TLC and reads its verdict."""
import os, re, shutil, subprocess, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcError(Exception):
    """TLC did not give a verdict (a broken model or tool, never a verdict about the code)."""


class Result:
    pass


def run(module, cfg=None, env=None, workers=1, extra=(), timeout=800, jvm=("-Xmx3g",), consts=None, invariants=None):
    """Returns a Result: ok, states, distinct, violated (text), out.  Raises TlcError when there is no verdict."""
    cfg = cfg or module + ".cfg"
    work = tempfile.mkdtemp(prefix="vftlc.")
    try:
        for f in os.listdir(SPEC):
            if f.endswith((".tla", ".cfg")):
                shutil.copy(os.path.join(SPEC, f), work)
        if invariants:
            with open(os.path.join(work, cfg)) as f:
                text = f.read()
            with open(os.path.join(work, cfg), "w") as f:
                f.write(re.sub(r"^INVARIANTS .*$", "INVARIANTS " + " ".join(invariants), text, flags=re.M))
        if consts:
            with open(os.path.join(work, cfg), "a") as f:
                f.write("\nCONSTANTS\n" + "\n".join("  %s = %s" % kv for kv in consts.items()) + "\n")
        e = dict(os.environ)
        e.update(env or {})
        e.pop("JAVA_TOOL_OPTIONS", None)
        cmd = ["java", "-XX:+UseParallelGC", "-Xss16m"] + list(jvm) + ["-cp", CP, "tlc2.TLC", "-workers", str(workers),
               "-metadir", os.path.join(work, "states"), "-noGenerateSpecTE"] + list(extra) + ["-config", cfg, module + ".tla"]
        t0 = time.time()
        try:
            p = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired as x:
            raise TlcError("timeout after %ss: %s" % (timeout, module))
        r = Result()
        r.out = p.stdout
        r.rc = p.returncode
        r.wall = time.time() - t0
        m = re.findall(r"^([\d,]+) states generated, ([\d,]+) distinct states found", p.stdout, re.M)
        r.states = int(m[-1][0].replace(",", "")) if m else 0
        r.distinct = int(m[-1][1].replace(",", "")) if m else 0
        r.ok = p.returncode == 0
        r.violated = None
        if p.returncode in (10, 11, 12, 13, 14) or re.search(r"is violated|evaluated to FALSE", p.stdout):
            # 10 assumption, 11 deadlock, 12 safety, 13 liveness; postcondition failures also end up here
            r.violated = True
        elif p.returncode != 0:
            raise TlcError("%s: exit %d\n%s" % (module, p.returncode, p.stdout[-6000:]))
        return r
    finally:
        shutil.rmtree(work, ignore_errors=True)


def coverage_zero(out):
    """Names of actions that -coverage reports as never taken."""
    return [m.group(1) for m in re.finditer(r"^<(\w+) line .*>: 0:0$", out, re.M)]
