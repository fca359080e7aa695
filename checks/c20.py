"""Which commands are there."""
import hublab, oracle

RULE = ("histories of two to four hub commands over a tree of four git repos and a local dir enumerated by TLC, longer seeded ones with remote "
        "changes, unreachable remotes, branches and several commands per invocation; every one is non-trivial")


def run(ctx):
    oracle.family(ctx, hublab.LAB, "hub", 200, ["cmds"], styles=True)
    oracle.random_cases(ctx, hublab.LAB, ctx.n(240, 6000), [dict(), dict(p_local=1, p_pub=.2), dict(p_pub=.7, p_gone=.3)], ["cmds"], tag="cmds")
