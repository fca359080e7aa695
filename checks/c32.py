"""What is said about a command is what it is defined as."""
import oracle, findlab

RULE = ("catalogues of up to 12 places of all kinds from two sources, found by every field there is, with keywords which are pieces of several fields; "
        "enumerated by TLC and seeded; non-trivial if two queries find something")
CMP = ["about"]


def run(ctx):
    oracle.family(ctx, findlab.LAB, "find", 250, cmp=CMP, styles=True)
    oracle.random_cases(ctx, findlab.LAB, ctx.n(700, 12000), [dict(kinds=["one"] * 4 + ["find", "list", "tail", "tag", "api"]), dict(nodes=12, queries=6), dict(nodes=4, p_secret=.5, p_args=.8, p_val=.7, queries=12, kinds=["one", "one", "find", "list"]),
                        dict(p_abbr=.7, p_ops=.8, p_deps=.6, p_timer=.4, kinds=["one", "list", "api"])], cmp=CMP, tag="about")
