"""What a program reads and prints."""
import oracle, proglab

RULE = ("programs printing up to 200 KB of any bytes to both streams and reading the input, in sequences and flows, failing and not; "
        "enumerated by TLC and seeded; non-trivial if two programs run")
CMP = ["shown"]


def run(ctx):
    oracle.family(ctx, proglab.LAB, "progs", 500, cmp=CMP)
    oracle.random_cases(ctx, proglab.LAB, ctx.n(1200, 16000), [dict(p_run=.05, p_timer=0), dict(p_run=.1, p_timer=0, p_read=.6), dict(p_run=0, p_fail=.4, p_ok=.5, p_unlog=.3), dict(p_run=0, p_big=.4, nflow=4, p_fail=.05)], cmp=CMP, tag="shown")
