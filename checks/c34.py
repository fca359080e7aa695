"""Arguments a flow takes over from its commands."""
import execfam as F

RULE = ("seeded programs whose flows take over arguments (by name, by '*' and '**', with declared ones, nested); "
        "non-trivial when at least two programs run or something fails")
CMP = ["args", "senv", "okness"]
B = dict(p_auto=.7, argnames=("u", "v", "x", "y"), p_a2e=.8, p_fail=.02, p_args=.5, p_ops=.15, nflow=3)
PROFILES = [dict(B), dict(B, p_env=0, p_genv=.1, p_v2e=0, p_base=.1, p_autoargs=1.5), dict(B, p_chain=.8, nflow=5, maxcalls=2), dict(B, p_fileflow=.7, p_ops=.3),
            dict(B, p_tpl=.3, p_v2e=.1)]


def run(ctx):
    F.random_programs(ctx, ctx.n(1500, 24000), CMP, PROFILES, styles=True)
