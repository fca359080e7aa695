"""Where an env value is visible."""
import execfam as F

RULE = ("every placement of one key over saved env, sequence, call, flow and program, enumerated by TLC, and larger seeded "
        "programs; non-trivial when at least two programs run")
CMP = ["senv", "recenv"]
PROFILES = [dict(p_env=.5, p_genv=.6, p_base=.6, p_del=.25, p_fail=0, p_eff=.6), dict(nflow=5, p_env=.5, p_genv=.7, p_fail=.05, p_ok=.4),
            dict(nfile=2, nflow=2, mainmax=6, p_env=.6, p_eff=.8, p_del=.3, p_fail=.1, p_ok=.6)]


def run(ctx):
    F.replay_family(ctx, "scope", CMP, 1800)
    F.random_programs(ctx, ctx.n(1200, 20000), CMP, PROFILES, styles=True)
