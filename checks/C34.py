"""C34: child processes and parallel jobs."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "vlib"))
from vp import *

PRE = """
writer.t *p_in(proc.proc_t *p) { return p->stdin; }
reader.t *p_out(proc.proc_t *p) { return p->stdout; }
reader.t *p_err(proc.proc_t *p) { return p->stderr; }
int p_pid(proc.proc_t *p) { return p->pid; }
"""


def body(c):
    h = sub("prochelp") + "/h"
    r = run(["gcc", "-O1", "-w", "-o", h, VERIF + "/drivers/prochelp.c"])
    if r.rc: raise EnvFailure(r.err)
    exe = lib_driver("osproc", ["os/proc", "reader", "writer"], "proc.spawn proc.wait proc.parallel p_in p_out p_err p_pid writer.write writer.free reader.read".split(), "osproc.c", pre=PRE, wrap=["pipe", "pipe2", "fork"])
    for p in ("spawn", "parallel"):
        c.harness(p, exe, shards=NCPU, timeout=850, extra_env={"VP_PART": p, "VP_HELPER": h})


if __name__ == "__main__":
    main("C34", body, ["real processes; the order in which jobs finish is controlled by the jobs themselves"])
