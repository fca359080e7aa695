"""The saved flows change exactly as the flow commands say."""
import flowlab, oracle

RULE = ("histories of four flow commands (saving, renaming, removing, moving; every answer to questions) enumerated by TLC, longer seeded ones; "
        "every one is non-trivial")


def run(ctx):
    oracle.family(ctx, flowlab.LAB, "flows", 300, styles=True)
    oracle.random_cases(ctx, flowlab.LAB, ctx.n(400, 8000), [dict(), dict(p_linked=1), dict(steps=(8, 14))], tag="flows")
