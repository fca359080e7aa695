"""The list of links and the managed copies."""
import hublab, oracle

RULE = ("histories of two to four hub commands over a tree of four git repos and a local dir enumerated by TLC, longer seeded ones with remote "
        "changes, unreachable remotes, branches and several commands per invocation; every one is non-trivial")


def run(ctx):
    oracle.family(ctx, hublab.LAB, "hub", 200, ["links"], styles=True)
    oracle.random_cases(ctx, hublab.LAB, ctx.n(240, 6000), [dict(), dict(p_gone=.3), dict(inv=(5, 9))], ["links"], tag="links")
