"""Repetition: join, repeat."""
import oracle, repeatlab

RULE = ("sequences of join.new / join.run / repeat over programs and flows, enumerated by TLC and seeded; "
        "non-trivial if more than one program runs")


def run(ctx):
    oracle.family(ctx, repeatlab.LAB, "all", 500, styles=True)
    oracle.random_cases(ctx, repeatlab.LAB, ctx.n(1400, 20000),
                        [dict(p_forest=.03, p_test=.03), dict(p_forest=.03, p_test=0, p_run=.4, p_fail=.1), dict(p_new=.4, p_run=.4, p_repeat=.05, p_forest=0, p_test=0)], tag="join")
