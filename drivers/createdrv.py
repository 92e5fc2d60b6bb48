"""Runs the real application for creating models: reads jobs (JSON lines), writes outcomes."""
import json, os, sys, warnings

sys.path[:0] = [sys.argv[1], os.path.dirname(os.path.abspath(__file__))]
warnings.simplefilter("ignore")
import gmgsrc
from geomodelgrids.create.apps import create_model

out = os.dup(1)
os.dup2(2, 1)
OPTIONS = {"import_domain": "--import-domain", "import_surfaces": "--import-surfaces", "import_blocks": "--import-blocks",
           "update_metadata": "--update-metadata", "all_steps": "--all"}
for line in sys.stdin:
    job = json.loads(line)
    gmgsrc.CALLS[0] = 0
    gmgsrc.FAIL_AT[0] = job.get("fail")
    gmgsrc.HOW[0] = job.get("how", "raise")
    try:
        if job.get("cli"):
            sys.argv[1:] = ["--config=" + job["cfg"], "--quiet", "--log=" + job["log"]] + [OPTIONS[s] for s in job["steps"]]
            create_model.cli()
        else:
            create_model.App(show_progress=False, log_filename=job["log"]).main(job["cfg"], **{k: True for k in job["steps"]})
        r = "ok"
    except (Exception, SystemExit) as x:
        r = "ok" if isinstance(x, SystemExit) and x.code in (0, None) else "failed: %s: %s" % (type(x).__name__, x)
    os.write(out, (json.dumps(dict(r=r, calls=gmgsrc.CALLS[0])) + "\n").encode())
