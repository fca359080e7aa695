"""How the program of a command is started."""
import oracle, proglab

RULE = ("programs with every kind of extension in directories, runners set in the saved env, in front, in flows, for calls, by commands and by programs; "
        "enumerated by TLC and seeded; non-trivial if two programs run")
CMP = ["what"]


def run(ctx):
    oracle.family(ctx, proglab.LAB, "progs", 500, cmp=CMP)
    oracle.random_cases(ctx, proglab.LAB, ctx.n(1200, 16000), [dict(lines=0), dict(lines=0, p_run=.5, p_fail=.05), dict(lines=0, p_timer=.7, p_run=.1), dict(lines=0, nflow=5, p_fail=.05)], cmp=CMP, tag="progs")
