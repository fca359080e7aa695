"""Frame of every check: counters, evidence, findings, exit status."""
import hashlib, importlib, json, os, random, sys, time, traceback

from vt import VERIF, Work, CheckError

FINDINGS = os.path.join(VERIF, "known-findings.txt")


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.evaluations = 0
        self.nontrivial = set()
        self.samples = []
        self.notes = {}
        self.violations = []
        self.unreproduced = 0
        self.work = None
        self.log_lines = []

    # -- sizes ---------------------------------------------------------
    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def rng(self, *salt):
        h = hashlib.sha256(repr((self.seed, self.prop) + salt).encode()).digest()
        return random.Random(int.from_bytes(h[:8], "big"))

    # -- accounting ----------------------------------------------------
    def model(self, res):
        self.states += res.distinct
        self.transitions += res.generated

    def sample(self, x):
        if len(self.samples) < 4:
            self.samples.append(x)

    def seen(self, x):
        self.nontrivial.add(hashlib.sha1(json.dumps(x, sort_keys=True, default=str).encode()).digest()[:8])

    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, flush=True)

    def violation(self, what, replay):
        self.violations.append((what, replay))
        self.log("violation:", what[:500])


def known_findings(prop):
    """[(id, text)] of the known (unrepaired) findings of a property"""
    out = []
    if os.path.exists(FINDINGS):
        for l in open(FINDINGS):
            if l.startswith("known: property=%s " % prop):
                rest = l.strip().split(" ", 2)[2]
                fid, _, text = rest.partition(" ")
                out.append((fid.split("=", 1)[1], text))
    return out


def main(argv):
    prop = argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--thorough" in argv:
        tier = "thorough"
    if "--quick" in argv:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED") or "1")
    mod = importlib.import_module("checks." + prop.lower())
    ctx = Ctx(prop, tier, seed)
    attempts = 0
    while True:
        try:
            with Work(prop.lower()) as w:
                ctx.work = w
                mod.run(ctx)
            break
        except CheckError as x:
            # an error of the machinery is no verdict; try once more from scratch
            attempts += 1
            print("check error (attempt %d): %s" % (attempts, x), flush=True)
            if attempts >= 2 or ctx.violations:
                if ctx.violations:
                    break
                return 2
        except (OSError, MemoryError):
            # nothing the code under test is to blame for
            attempts += 1
            traceback.print_exc()
            if attempts >= 2 or ctx.violations:
                if ctx.violations:
                    break
                return 2
        except Exception as x:
            # what ticat did could not even be observed: it never comes to that where the property holds
            attempts += 1
            traceback.print_exc()
            if attempts >= 2 or ctx.violations:
                if not ctx.violations:
                    ctx.violation("what the code does can't be observed: %s: %s" % (type(x).__name__, x), {"error": traceback.format_exc()})
                break
    known = known_findings(prop)
    fresh, hit = [], set()
    for what, replay in ctx.violations:
        fid = replay.get("finding") if isinstance(replay, dict) else None
        if fid is not None and any(fid == k for k, _ in known):
            hit.add(fid)
        else:
            fresh.append((what, replay))
    for fid, text in known:
        if fid in hit:
            print("KNOWN-FINDING: property=%s %s: %s" % (prop, fid, text))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    level = getattr(mod, "LEVEL", "model_checking")
    cov = {"states": ctx.states, "transitions": ctx.transitions, "traces_validated_against_impl": ctx.traces,
           "evaluations": ctx.evaluations, "distinct_nontrivial": len(ctx.nontrivial),
           "rule": getattr(mod, "RULE", ""), "samples": ctx.samples, "unreproduced_mismatches": ctx.unreproduced}
    cov.update(ctx.notes)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.time() - ctx.t0, 2),
          "violations": len(fresh)}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    rc = 0
    for i, (what, replay) in enumerate(fresh[:5]):
        path = os.path.join(VERIF, "evidence", "%s.replay%d.json" % (prop, i + 1))
        with open(path, "w") as f:
            json.dump({"property": prop, "what": what, "seed": seed, "replay": replay}, f, indent=1, default=str)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  " + what[:1000].replace("\n", "\n  "))
        rc = 1
    ctx.log("%s %s seed=%d: %d model states, %d traces against the real code, %d violations"
            % (prop, tier, seed, ctx.states, ctx.traces, len(fresh)))
    return rc
