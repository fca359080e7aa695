"""Searching and listing show exactly what matches."""
import oracle, findlab

RULE = ("catalogues of up to 12 places of all kinds from two sources, found by every field there is, with keywords which are pieces of several fields; "
        "enumerated by TLC and seeded; non-trivial if two queries find something")
CMP = ["names"]


def run(ctx):
    oracle.family(ctx, findlab.LAB, "find", 250, cmp=CMP, styles=True)
    oracle.random_cases(ctx, findlab.LAB, ctx.n(700, 12000), [{}, dict(nodes=12, queries=6), dict(nodes=4, p_tags=.9, p_help=.2), dict(p_abbr=.7, p_ops=.7, p_val=.6)], cmp=CMP, tag="find")
