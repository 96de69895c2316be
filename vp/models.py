"""Checks besides the sequential traces: concurrent schedules, and TLC over the
specification with small constants."""
from .par import par_check, replay_par, KINDS18, KINDS19

from . import kmod
from .mc import mc, health, basics, CONF

PARTS = {"C18": [par_check(KINDS18)], "C19": [par_check(KINDS19)], "C03": [health], "C14": [basics]}
for _p in CONF: PARTS.setdefault(_p, []).insert(0, mc)
for _p in kmod.CHECKS: PARTS[_p] = [kmod.check]

CODELESS = (mc, health, basics)    # look at the specification only


def replay(path, pid):
    for l in open(path):
        if l.startswith("#PAR "): return replay_par(l[5:])
    r = kmod.replay(path, pid)
    if r is not None: return r
    print(open(path).read()); return 0
