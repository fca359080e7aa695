"""Arguments reach the command."""
import execfam as F
import arglab, oracle

RULE = ("all lists of up to four words over eleven (and other alphabets for other declarations) bound to arguments, and every combination of given "
        "and defaulted arguments of a small command and of a flow passing them on, enumerated by TLC; larger seeded word lists over adversarial "
        "values and larger seeded programs in all notations; non-trivial when words are given or at least two programs run")
CMP = ["args"]
PROFILES = [dict(p_args=.6, p_argkey=.5, p_eff=.8, p_fail=0, p_tpl=0), dict(p_args=.8, p_fail=0, p_argkey=.2), dict(p_args=.6, p_fail=0, p_tpl=.3, nflow=4),
            dict(p_args=.7, p_fail=0, p_tpl=.4, nflow=4, quoted=True)]


def run(ctx):
    oracle.family(ctx, arglab.LAB, "deep" if ctx.thorough else "words", 4000, styles=True)
    oracle.random_cases(ctx, arglab.LAB, ctx.n(1600, 40000), [dict(), dict(good=1), dict(nargs=(1, 3))])
    F.replay_family(ctx, "args", CMP, 800, styles=True)
    F.random_programs(ctx, ctx.n(800, 20000), CMP, PROFILES, styles=True)
