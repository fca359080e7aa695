"""Declared env reads are provided before anything runs."""
import execfam as F

RULE = ("every small sequence of readers, writers and flows around them with every way to provide the value, enumerated by "
        "TLC, and larger seeded programs; non-trivial when something runs or is refused")
CMP = ["anything", "okness", "order"]
PROFILES = [dict(p_ops=.6, p_fail=0, nflow=5, p_chain=.9, maxcalls=2, p_fileflow=.3, p_v2e=.05, p_a2e=.05, p_base=.1, p_env=.05, p_genv=.05), dict(p_ops=.6, p_fail=0, p_v2e=.2, p_a2e=.3), dict(p_ops=.4, p_fail=0, nflow=5, p_env=.3, p_genv=.5),
            dict(p_ops=.3, p_fail=0, p_base=.7, p_del=.3),
            dict(p_ops=.8, p_fail=0, keys=2, p_provide=.7, p_env=.1, p_genv=.1, p_base=.05, p_del=.05, p_v2e=.05, p_a2e=.05, nflow=2, mainmax=5, p_eff=.1),
            dict(F.VIA, p_ops=.4, p_fail=0)]


def run(ctx):
    F.replay_family(ctx, "ops", CMP, 1800)
    F.random_programs(ctx, ctx.n(1200, 20000), CMP, PROFILES, styles=True)
