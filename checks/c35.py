"""How things are shown does not matter to what is done."""
import execfam as F

RULE = ("seeded programs with random settings of what is shown and how (24 switches, widths from 1 to 400, limits), in front, and changed "
        "on the way; non-trivial when at least two programs run or something fails")
CMP = ["order", "args", "senv", "okness", "recdone"]
D = dict(p_disp=1)
PROFILES = [dict(D), dict(D, nflow=5, p_chain=.8, p_fileflow=.5, p_args=.8), dict(D, quoted=True, p_tpl=.3, p_fail=.05), dict(D, p_fail=.3, p_ok=.5, p_quiet=.3), dict(D, nflow=0, mainmax=9), dict(D, p_auto=.5, p_ops=.2, p_broken=.1)]


def run(ctx):
    F.random_programs(ctx, ctx.n(1500, 20000), CMP, PROFILES, styles=True)
