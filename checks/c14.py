"""Records of sessions: made, listed, expired and removed."""
import oracle, sesslab

RULE = ("histories of sessions (succeeding, failing, killed, refused, running, hidden), listings, searches, removals and time passing, "
        "enumerated by TLC and seeded; non-trivial if records are shown or removed")


def run(ctx):
    oracle.family(ctx, sesslab.LAB, "sessions", 350, styles=True)
    oracle.random_cases(ctx, sesslab.LAB, ctx.n(500, 8000), [dict(), dict(p_live=.6), dict(nops=20), dict(p_many=.5, nops=6)], tag="sessions")
