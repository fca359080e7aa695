"""Common black-box harness: builds ticat from /repo's working tree and runs it
in throw-away store directories."""
import random, json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class CheckError(Exception):
    """The check itself could not do its work (not a verdict)."""


def go_env():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOSUMDB="off", GOPROXY="off", GO111MODULE="on", GOWORK="off",
             GOFLAGS="-mod=mod -buildvcs=false", CGO_ENABLED="0")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    e.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    e.setdefault("HOME", "/root")
    return e


def scratch_dir(prefix):
    """a new folder with a name no search of a check can match by chance (they look for single letters, words, numbers)"""
    r = random.SystemRandom()
    while True:
        d = os.path.join(tempfile.gettempdir(), prefix + "".join(r.choice("jvwz") for _ in range(12)))
        try:
            os.mkdir(d, 0o700)
            return d
        except FileExistsError:
            pass


class Work:
    """A scratch root with a freshly built binary."""

    def __init__(self, tag="vt"):
        self.root = scratch_dir("ticat-%s-" % tag)
        self.bin = os.path.join(self.root, "ticat-bin")
        self.n = 0
        self.lock = threading.Lock()

    def build(self):
        p = subprocess.run(["go", "build", "-o", self.bin, "./pkg/main"], cwd=REPO, env=go_env(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        if p.returncode != 0:
            raise CheckError("go build failed:\n" + p.stdout.decode(errors="replace"))
        return self

    def box(self, **kw):
        with self.lock:
            self.n += 1
            n = self.n
        return Box(os.path.join(self.root, "b%05d" % n), self.bin, **kw)

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)

    def __enter__(self):
        try:
            return self.build()
        except BaseException:
            self.close()
            raise

    def __exit__(self, *a):
        self.close()


class Result:
    __slots__ = ("rc", "out", "err", "argv", "timeout")

    def __init__(self, rc, out, err, argv, timeout=False):
        self.rc, self.out, self.err, self.argv, self.timeout = rc, out, err, argv, timeout


class Box:
    """One private ticat installation: its own binary path, so its own store."""

    def __init__(self, root, binary, mods=True):
        self.root = root
        os.makedirs(root)
        self.bin = os.path.join(root, "ticat")
        os.link(binary, self.bin)
        self.data = self.bin + ".data"
        self.hub = os.path.join(self.data, "hub")
        self.mods = os.path.join(root, "mods")
        self.cwd = os.path.join(root, "cwd")
        self.trace = os.path.join(root, "trace")
        os.makedirs(self.hub)
        os.makedirs(self.mods)
        os.makedirs(self.cwd)
        if mods:
            self.set_hub([("", "<local>", self.mods, "", "on")])

    def set_hub(self, rows):
        with open(os.path.join(self.hub, "repos.hub"), "w") as f:
            for r in rows:
                f.write("\t".join(r) + "\n")

    def read_hub(self):
        p = os.path.join(self.hub, "repos.hub")
        if not os.path.exists(p):
            return None
        with open(p) as f:
            return [tuple(l.rstrip("\n").split("\t")) for l in f if l.strip("\n")]

    def write(self, rel, text, mode=0o644):
        p = os.path.join(self.root, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(text)
        os.chmod(p, mode)
        return p

    def mod(self, name, script, meta, ext=".bash"):
        """an executable-file module (name may contain '/')"""
        self.write("mods/" + name + ext, script)
        self.write("mods/" + name + ext + ".ticat", meta)

    def flow(self, name, text):
        self.write("mods/" + name + ".tiflow", text)

    def env(self, extra=None):
        e = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": self.root, "LANG": "C.UTF-8",
             "VT_TRACE": self.trace, "VT_ROOT": self.root, "TERM": "dumb"}
        if extra:
            e.update(extra)
        return e

    def run(self, *argv, stdin="", timeout=60, env=None, prefix=()):
        cmd = list(prefix) + [self.bin] + list(argv)
        try:
            p = subprocess.run(cmd, cwd=self.cwd, env=self.env(env), input=stdin.encode(),
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
            return Result(p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace"),
                          list(argv))
        except subprocess.TimeoutExpired as x:
            return Result(-999, (x.stdout or b"").decode(errors="replace"),
                          (x.stderr or b"").decode(errors="replace"), list(argv), True)

    def take_trace(self):
        if not os.path.exists(self.trace):
            return []
        with open(self.trace, errors="replace") as f:
            lines = f.read().split("\n")
        os.unlink(self.trace)
        return [l for l in lines if l]

    def destroy(self):
        shutil.rmtree(self.root, ignore_errors=True)


def pmap(f, items, workers=8):
    with ThreadPoolExecutor(workers) as ex:
        return list(ex.map(f, items))
