"""Running TLC on the specifications in /verif/spec."""
import json, os, re, shutil, signal, subprocess, tempfile

from vt import VERIF, CheckError

JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCResult:
    def __init__(self, rc, out, prints, generated, distinct, depth, error, violated):
        self.rc, self.out, self.prints = rc, out, prints
        self.generated, self.distinct, self.depth = generated, distinct, depth
        self.error, self.violated = error, violated


def run(root_module, cfg, inputs=None, workers=8, timeout=600, args=(), heap="6g", scratch=None, extra_files=None):
    """Run TLC on spec/<root_module>.tla with the given cfg text.

    inputs: {file name: json-able} written next to the spec, extra_files: {name: text}.
    Values printed by PrintT(ToJson(x)) come back parsed in .prints."""
    d = tempfile.mkdtemp(prefix="tlc-", dir=scratch)
    try:
        src = os.path.join(VERIF, "spec")
        for f in os.listdir(src):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(src, f), d)
        with open(os.path.join(d, "run.cfg"), "w") as f:
            f.write(cfg)
        for name, val in (inputs or {}).items():
            with open(os.path.join(d, name), "w") as f:
                json.dump(val, f)
        for name, text in (extra_files or {}).items():
            with open(os.path.join(d, name), "w") as f:
                f.write(text)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", JAR, "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
               "-config", "run.cfg"] + list(args) + [root_module + ".tla"]
        out_path = os.path.join(d, "out")
        with open(out_path, "wb") as o:
            p = subprocess.Popen(cmd, cwd=d, stdout=o, stderr=subprocess.STDOUT, start_new_session=True)
            try:
                rc = p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                raise CheckError("TLC timed out on %s after %ss" % (root_module, timeout))
        with open(out_path, errors="replace") as o:
            out = o.read()
    finally:
        shutil.rmtree(d, ignore_errors=True)
    prints = []
    for line in out.split("\n"):
        if line.startswith('"{') or line.startswith('"['):
            try:
                prints.append(json.loads(json.loads(line)))
            except ValueError:
                raise CheckError("unreadable TLC output line: " + line[:300])
    gen = dist = depth = 0
    for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct states found", out):
        gen, dist = (int(x.replace(",", "")) for x in m.groups())
    m = re.search(r"depth of the complete state graph search is (\d+)", out)
    if m:
        depth = int(m.group(1))
    if not gen:
        m = re.search(r"The number of states generated: ([\d,]+)", out)
        if m:
            gen = dist = int(m.group(1).replace(",", ""))
    violated = re.findall(r"(?:Invariant|Action property|property) (\S+) (?:is|was) violated", out)
    violated += ["Temporal"] if "Temporal properties were violated" in out else []
    error = None
    if rc != 0 and not violated:
        i = out.find("Error:")
        error = out[i:i + 3000] if i >= 0 else "\n".join(l for l in out.split("\n") if not l.startswith(("Parsing file","Semantic proc")))[:1500]
        if "semantic analysis failed" in out or "Parse" in out:
            error = "\n".join(l for l in out.split("\n") if not l.startswith(("Parsing file","Semantic proc")))[:1500]
    return TLCResult(rc, out, prints, gen, dist, depth, error, violated)


def must(res, what):
    """For runs whose success is a statement about the specification alone."""
    if res.error:
        raise CheckError("%s: TLC failed (rc %d)\n%s" % (what, res.rc, res.error))
    if res.violated:
        i = res.out.find("Error:")
        raise CheckError("%s: the specification violates %s\n%s" % (what, res.violated, res.out[i:i + 4000]))
    return res
