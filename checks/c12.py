"""The session record tells what happened."""
import execfam as F

RULE = ("small failing, tolerated and nested sequences enumerated completely by TLC, and larger seeded ones; "
        "non-trivial when at least two programs run or something fails")
CMP = ["recshape", "recenv", "recdone", "recat"]
PROFILES = [dict(p_fail=.2), dict(nflow=5, p_fail=.1, p_fileflow=.4), dict(p_ops=.2, p_nodep=.02, p_tpl=.1, p_badname=.03), dict(p_fail=0, p_v2e=.5, p_a2e=.6), dict(F.VIA, p_fail=.1, p_nodep=.05)]


def run(ctx):
    F.replay_family(ctx, "fail", CMP, 1000)
    F.replay_family(ctx, "nest", CMP, 700)
    F.random_programs(ctx, ctx.n(1200, 20000), CMP, PROFILES, styles=True)
