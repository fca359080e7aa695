"""Templates."""
import execfam as F

RULE = ("seeded programs whose flows hold templates over arguments and env keys, in arguments and env groups; "
        "non-trivial when at least two programs run or the flow is refused")
CMP = ["args", "senv", "okness"]
PROFILES = [dict(quoted=True, p_tpl=.4, p_fail=0, p_args=.7, p_base=.8, nflow=4, p_genv=.4, p_argkey=.1), dict(p_rep=.6, rep_empty=True, p_fail=0, p_args=.7, p_base=1, nflow=3, p_genv=.5), dict(p_rep=.4, p_tpl=.2, p_fail=0, p_args=.8, p_base=.6, nflow=4, p_genv=.4, argnames=("k1", "k2")), dict(p_rep=.5, p_fail=0, p_args=.7, p_base=1, nflow=4, p_genv=.6, p_tpl=0), dict(p_rep=.3, p_tpl=.15, p_fail=0, p_args=.8, p_base=1, nflow=5, p_chain=.5, maxcalls=2), dict(p_tpl=.35, p_fail=0, p_args=.8, p_base=1, nflow=4, maxcalls=2), dict(p_tpl=.2, p_fail=0, p_args=.8, p_a2e=.7, p_genv=.8, p_del=.05), dict(F.VIA), dict(F.VIA, nflow=5, p_chain=.7, maxcalls=2, p_fail=0)]


def run(ctx):
    F.replay_family(ctx, "args", CMP, 800)
    F.replay_family(ctx, "named", CMP, 2000, styles=True)
    F.random_programs(ctx, ctx.n(2000, 25000), CMP, PROFILES, styles=True)
