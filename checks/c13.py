"""Retrying a session runs what is left of it."""
import oracle, retrylab

RULE = ("sequences broken by failing programs and by ticat getting killed at any point, retried once or repeatedly, from the last or an "
        "older record; enumerated by TLC for small nested sequences, seeded larger ones; non-trivial if a retry runs something")
LAB, HELD = retrylab.RetryLab(), retrylab.HeldLab()
BASE = dict(p_fail=.03, p_ok=.1)


def run(ctx):
    oracle.family(ctx, LAB, "nest", 250)
    oracle.random_cases(ctx, LAB, ctx.n(900, 14000),
                        [dict(BASE, nflow=3, mainmax=4), dict(BASE, nflow=4, p_fileflow=.5, p_genv=.6), dict(BASE, p_tpl=.2, p_argkey=.2),
                         dict(BASE, nflow=0, mainmax=7, nfile=4, p_eff=.8, p_del=.3),
                         dict(BASE, p_auto=.5, nflow=4), dict(BASE, p_rep=.4, p_tpl=.2, nflow=3)], tag="retry")
    oracle.random_cases(ctx, HELD, 1, [{}], tag="held", styles=False)
