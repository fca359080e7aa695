"""Stores after a kill at any moment and after failing writes."""
import oracle, crashlab

RULE = ("histories of commands which change the stores, some of them killed at a system call or a written byte or out of space, "
        "enumerated by TLC and seeded; non-trivial if a command was broken off")


def run(ctx):
    ctx.notes["strace"] = crashlab.strace_works(ctx.work)
    oracle.family(ctx, crashlab.LAB, "crash", 250, styles=True)
    oracle.random_cases(ctx, crashlab.LAB, ctx.n(350, 8000), [dict(), dict(p_hit=.8), dict(kinds=["flow"]), dict(kinds=["flow", "hub", "snap"])], tag="crash")
    ctx.notes["hits"] = dict(crashlab.LAB.hits)
    ctx.log("broken off: " + ", ".join("%s %d" % x for x in sorted(crashlab.LAB.hits.items())))
