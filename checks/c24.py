"""Hooks: what is run when a session ends."""
import hooklab, oracle

RULE = ("programs setting hooks (directly, in flows, in the saved env), hooks which fail or do not exist, enumerated by TLC and seeded; "
        "non-trivial if a hook is set")


def run(ctx):
    oracle.family(ctx, hooklab.LAB, "hooks", 400, styles=True)
    oracle.random_cases(ctx, hooklab.LAB, ctx.n(1200, 20000),
                        [dict(), dict(p_fail=.05), dict(p_fail=.4, p_nosuch=.1), dict(p_where=.9, nflow=4, p_hook=.3)], tag="hooks")
