"""A flow means the calls its text lists."""
import execfam as F

RULE = ("three levels of flows and flows with an own program, enumerated completely by TLC, and larger seeded ones; "
        "non-trivial when at least two programs run or something fails")
CMP = ["order", "recshape", "okness"]
PROFILES = [dict(nflow=6, p_chain=.8, p_quiet=.3, p_fail=.1, p_fileflow=.5, p_rep=.1, p_base=.8), dict(nflow=5, p_fail=.05, p_fileflow=.4, mainmax=3, p_quiet=.05, p_ok=.1),
            dict(nflow=6, maxcalls=2, p_fail=0, p_fileflow=.2, mainmax=2, p_tpl=.05),
            dict(nflow=4, p_fail=.1, p_ok=.3),
            dict(nflow=4, p_fail=.3, p_quiet=.7, p_fileflow=.7, p_ok=.1, mainmax=3)]


def run(ctx):
    F.replay_family(ctx, "nest", CMP, 1200, styles=True)
    F.random_programs(ctx, ctx.n(1200, 20000), CMP, PROFILES, styles=True)
