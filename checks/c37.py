"""What is told about a session is what its record says."""
import execfam as F
import oracle
from sessdesclab import SessDescLab

RULE = ("every program of a family with failures at any place of nested flows (tolerated or not, folded or not), run and then described, whole and as it is if ticat was killed at any point; random "
        "programs run and described in every way; non-trivial when more than one command is told")
PROFILES = [dict(), dict(nflow=5, p_chain=.8, maxcalls=3, p_ok=.5), dict(p_env=.4, p_genv=.5, p_base=.5, p_eff=.8, hows=["more", "full"]), dict(nflow=5, maxcalls=3, p_triv=.6, p_depth=.6, p_fail=.08),
            dict(p_fail=.05, nflow=4, p_triv=.5, p_depth=.5), dict(p_quiet=.5, p_fail=.3, p_ok=.4, p_fileflow=.6), dict(p_args=.8, p_a2e=.8, p_del=.3, hows=["more", "full"]),
            dict(p_nodep=.05, p_fail=.1),
            dict(p_tpl=.5, p_args=.8, p_argkey=0, p_genv=.5, p_base=.7, p_eff=.7, keys=2, p_chain=.5, nflow=4, p_del=.05), dict(F.VIA, p_argkey=0, p_fail=.15, p_base=.8, p_triv=.15),
            dict(p_tpl=.4, p_rep=.3, p_args=.8, p_argkey=0, p_base=.6, keys=3, p_fail=.15),
            dict(p_eff=.9, keys=3, effvals=["x=y", "a b", "=", "a"], hows=["more", "full"], p_fail=.15, nflow=4), dict(p_cut=.9, nflow=5, p_chain=.8, maxcalls=3, p_triv=.3)]


def run(ctx):
    lab = SessDescLab()
    oracle.family(ctx, lab, "fail", 600, styles=True)
    oracle.family(ctx, lab, "cut", 400, styles=True)
    oracle.random_cases(ctx, lab, ctx.n(1200, 20000), PROFILES)
