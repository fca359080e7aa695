"""Names: the command tree, abbreviations, how calls are resolved."""
import namelab, oracle

RULE = ("all spellings (of a bounded grammar) of calls in two module trees, enumerated by TLC; seeded trees from two folders with duplicate and "
        "clashing names and broken modules, and calls of them; non-trivial if something runs")


def run(ctx):
    oracle.family(ctx, namelab.LAB, "names", 700, styles=True)
    oracle.random_cases(ctx, namelab.LAB, ctx.n(2400, 40000), [dict(), dict(p_bad=0, p_clash=0, p_dup=0, p_mid=.5), dict(p_wild=0), dict(p_bad=.3, p_dup=.6)], tag="names")
