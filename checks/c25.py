"""Background commands: isolated, waited for, nothing lost."""
import bglab, oracle

RULE = ("schedules of up to six programs, in foreground and background, with waits and failures, enumerated by TLC; seeded ones with flows; "
        "a sequence is non-trivial if something runs in the background")


def run(ctx):
    oracle.family(ctx, bglab.LAB, "bg", 250, styles=True)
    oracle.random_cases(ctx, bglab.LAB, ctx.n(500, 8000), [dict(), dict(size=(5, 10)), dict(p_bad=0, p_delay=.7), dict(p_nowait=0)], tag="bg")
