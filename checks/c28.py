"""Invocations at the same time on the same stores."""
import oracle, togetherlab
import tlc
from vt import CheckError

RULE = ("two or three invocations on the same stores, stopped at system calls while the others run, enumerated by TLC and seeded; "
        "non-trivial if they concern the same store")


def run(ctx):
    ctx.notes["stopping"] = togetherlab.stopping_works()
    lab = togetherlab.LAB
    # the specification is not vacuous: a shared file aside is not enough
    res = tlc.run(lab.module, lab.cfg("all", own=False), None, heap=lab.heap, workers=1, timeout=300)
    if not res.violated:
        raise CheckError("TicatTogether holds even with a shared tmp file")
    oracle.family(ctx, lab, "all", 250, styles=True)
    oracle.random_cases(ctx, lab, ctx.n(400, 8000), [dict(), dict(kinds=["env"]), dict(kinds=["flow"], p_see=.3), dict(kinds=["hub"]), dict(kinds=["snap"])], tag="together")
    ctx.notes["stops"] = dict(lab.stops)
    ctx.log("stopped at: " + ", ".join("%s %d" % x for x in sorted(lab.stops.items())))
