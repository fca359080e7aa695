"""Describing a sequence tells what running it would do, and does nothing."""
import oracle
from desclab import DescLab
from execfam import VIA

RULE = ("every program of two families (nesting, repetition and folding; values and reads), each described; random programs "
        "described in every way, judged by the same specification; non-trivial when more than one command, a read or a dependency is told")
PROFILES = [dict(p_ops=.3, p_nodep=.1), dict(p_a2e=.7, p_v2e=.4, p_tpl=.5, p_args=.7), dict(nflow=5, p_chain=.8, maxcalls=3, p_env=.4, p_genv=.5),
            dict(p_ops=.6, p_fail=0, nflow=4, hows=["env", "more", "skel"], p_base=.2, p_genv=.2, p_env=.2),
            dict(nflow=5, maxcalls=3, p_triv=.6, p_depth=.6, hows=["skel", "flow", "more"]),
            dict(p_a2e=.9, p_args=.8, p_tpl=.7, keys=2, mainmax=6, nflow=3, maxcalls=2, values=["a", "b"], hows=["skel", "skel", "more"], p_depth=.3, p_fail=0),
            dict(p_auto=.5, p_args=.8, p_a2e=.7, nflow=4, hows=["skel"]),
            dict(p_env=.8, p_tpl=.5, p_args=.8, p_a2e=.1, p_v2e=.1, p_chain=.7, nflow=4, nfile=2, keys=2, values=["a", "b"], p_genv=.15, p_base=.7, p_del=.05, p_fail=0, p_triv=.1, p_depth=.15, hows=["skel", "flow", "more"]),
            dict(p_auto=.8, p_args=.9, p_a2e=.8, p_tpl=.5, nflow=4, keys=2, p_base=.8, p_fail=0, p_triv=.1, p_depth=.15, hows=["skel", "flow", "more"]),
            dict(VIA, p_fail=0, p_nodep=.05, p_triv=.1, p_depth=.1, hows=["skel", "skel", "more", "dep"]), dict(VIA, p_fail=0, p_ops=.2, p_genv=.3, nflow=4, p_chain=.6, p_triv=.1, p_depth=.1, hows=["skel", "more", "env"])]


def run(ctx):
    lab = DescLab()
    oracle.family(ctx, lab, "fold", 700, styles=True)
    oracle.family(ctx, lab, "value", 700, styles=True)
    oracle.random_cases(ctx, lab, ctx.n(1200, 20000), PROFILES)
