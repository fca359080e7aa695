"""Broken modules cost nothing but themselves."""
import junklab, oracle

RULE = "seeded module trees with junk files of many kinds among them (before, after and beside, and among the saved flows); non-trivial if something runs"


def run(ctx):
    oracle.random_cases(ctx, junklab.LAB, ctx.n(2400, 30000), [dict(), dict(p_bad=0, p_clash=0, p_dup=0, p_wild=0), dict(p_bad=.4)], tag="junk")
