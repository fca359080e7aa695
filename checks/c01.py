"""Order, exactly once, stop at the first failure, exit status."""
import execfam as F

RULE = ("small programs enumerated completely by TLC and larger seeded ones (nested flows, failing commands); "
        "non-trivial when at least two programs run or something fails")
CMP = ["order", "okness"]
PROFILES = [dict(p_quiet=.4, p_ok=.2, p_fail=.3, nflow=4, maxcalls=2), dict(p_quiet=0, p_ok=0), dict(p_quiet=0, p_ok=0, p_fail=.05, mainmax=6, maxcalls=4), dict(nflow=0, mainmax=8, p_fail=.08),
            dict(p_fail=.02, nflow=4, p_env=.1), dict(F.VIA, p_fail=.1)]


def run(ctx):
    F.replay_family(ctx, "fail", CMP, 1500)
    F.replay_family(ctx, "nest", CMP, 1000)
    F.random_programs(ctx, ctx.n(1500, 20000), CMP, PROFILES, styles=True)
