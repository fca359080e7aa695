"""A saved flow is the sequence it was saved from."""
import execfam as F
import savelab

RULE = ("seeded command sequences (nested flows, leading env, values from an adversarial alphabet), saved and run as a command; "
        "non-trivial when at least two programs run or something fails")
CMP = ["args", "senv", "okness"]
PROFILES = [dict(p_tok=.7, mainmax=3, p_fail=.03), dict(p_tok=.3, mainmax=6, p_fail=.1), dict(p_tok=.9, nflow=0, mainmax=2, p_args=.9, p_fail=0, p_genv=.7),
            dict(p_tok=.5, p_ok=.5, p_fail=.3, p_del=.3), dict(p_tok=.2, p_env=.6, p_genv=.7, nfile=2)]


def run(ctx):
    savelab.random_saved(ctx, ctx.n(1500, 20000), CMP, PROFILES)
