"""Forest mode and selftests."""
import oracle, repeatlab

RULE = ("sequences and flows entering forest mode, selftests by tag, nested in each other, enumerated by TLC and seeded; "
        "non-trivial if more than one program runs")


def run(ctx):
    oracle.family(ctx, repeatlab.LAB, "all", 500, styles=True)
    oracle.random_cases(ctx, repeatlab.LAB, ctx.n(1400, 20000),
                        [dict(p_forest=.3, p_new=.05, p_run=.05), dict(p_test=.4, p_new=0, p_run=0, p_forest=.1, nflow=4), dict(p_forest=.25, p_test=.2, p_ok=.6, p_fail=.5)], tag="forest")
