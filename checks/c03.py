"""Tolerated and quiet failures."""
import execfam as F

RULE = ("all combinations of failing, tolerated and quietly failing calls in small sequences and flows, enumerated by TLC, "
        "and larger seeded ones; non-trivial when something fails")
CMP = ["order", "recshape", "rc", "senv"]
PROFILES = [dict(p_fail=.35, p_ok=.4, p_quiet=.3), dict(p_fail=.25, p_ok=.5, p_quiet=.2, nflow=5, p_fileflow=.4),
            dict(p_fail=.5, p_ok=.7, p_quiet=.5, mainmax=6)]


def run(ctx):
    F.replay_family(ctx, "fail", CMP, 1500)
    F.random_programs(ctx, ctx.n(1500, 20000), CMP, PROFILES, styles=True)
