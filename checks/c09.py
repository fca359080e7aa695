"""Errors anywhere: nothing runs."""
import execfam as F

RULE = ("seeded programs with misspelled commands, unbindable arguments, malformed env groups (26 kinds of errors), unexpandable flows and missing "
        "OS commands at any depth, and commands changing what is stored among them; "
        "non-trivial when refused or at least two programs run")
CMP = ["anything", "order", "okness", "stored"]
PROFILES = [dict(p_nodep=.05, p_fail=0, nflow=5, p_chain=1, p_fileflow=.1, mainmax=2, maxcalls=2), dict(p_badname=.15, p_fail=0), dict(p_nodep=.15, p_fail=0, nflow=5), dict(p_tpl=.1, p_fail=0, nflow=4), dict(p_badname=.08, p_nodep=.05, p_tpl=.05, p_fail=.05, p_ok=.5),
            dict(p_broken=.7, p_store=.6, p_fail=0, mainmax=5), dict(p_broken=.7, p_store=.4, p_fail=0, nflow=5, p_chain=.8, p_ok=.4, mainmax=2),
            dict(p_ops=.2, p_nodep=.1, p_store=.8, p_broken=.2, p_fail=0), dict(F.VIA, p_nodep=.12, nflow=4), dict(F.VIA, p_nodep=.08, p_ok=.4, nflow=3)]


def run(ctx):
    F.replay_family(ctx, "named", CMP, 2000, styles=True)
    F.random_programs(ctx, ctx.n(3500, 30000), CMP, PROFILES, styles=True)
