"""Values mapped into the env from arguments and by the command itself."""
import execfam as F

RULE = ("every combination of argument given/absent, default, key present/absent and mapping of a small command, enumerated "
        "by TLC, and larger seeded programs; non-trivial when at least two programs run")
CMP = ["senv", "recstartenv"]
PROFILES = [dict(p_args=.7, p_a2e=.8, p_v2e=.5, p_fail=0, p_env=.3, p_base=.5), dict(p_args=.8, p_a2e=.9, p_fail=.05, p_tpl=.15, p_argkey=.2)]


def run(ctx):
    F.replay_family(ctx, "args", CMP, 1500, styles=True)
    F.random_programs(ctx, ctx.n(1200, 20000), CMP, PROFILES, styles=True)
