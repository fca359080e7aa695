"""What programs and ticat exchange."""
import envlab, oracle
import execfam as F

RULE = ("histories in which programs write values of adversarial characters and lengths up to 200 KB, which later programs, saved files "
        "and snapshots have to show byte for byte; seeded; plus random command sequences; every history is non-trivial")
CMP = ["runs", "saved", "snaps", "rc"]
IO = ["run", "run", "run", "run", "set", "map", "rm", "save", "ssave", "sload"]
PROFILES = [dict(p_tok=.9, ops=["run"], procs=(1, 1), steps=(4, 8), p_fail=.1, p_env=.1),
            dict(p_tok=.8, ops=IO, procs=(2, 3), steps=(3, 6), p_fail=.1)]
EXEC = [dict(p_eff=.9, p_fail=.1, p_del=.3), dict(p_eff=.9, p_fail=.2, p_ok=.6, p_fileflow=.5)]
ASSUMPTIONS = ["values do not end in a carriage return (a line end written by a program may be \\r\\n) and are not the removal mark '--'"]


def run(ctx):
    oracle.random_cases(ctx, envlab.LAB, ctx.n(1000, 15000), PROFILES, CMP, "bytes")
    F.random_programs(ctx, ctx.n(800, 10000), ["senv", "okness"], EXEC, styles=True)
