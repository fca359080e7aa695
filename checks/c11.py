"""Inspecting commands."""
import taillab, oracle

RULE = ("all sequences of up to three commands followed by an inspecting, listing or saving command, directly or in the tail notation, "
        "enumerated by TLC, with 37 spellings of inspecting commands; longer ones seeded; every one is non-trivial")


def run(ctx):
    oracle.family(ctx, taillab.LAB, "tail", 2200, styles=True)
    oracle.random_cases(ctx, taillab.LAB, ctx.n(800, 15000), [dict(), dict(n=(3, 7)), dict(p_bad=0)])
