"""Load the program of /repo as dumped by build/wsx (clang AST + CFG)."""
import concurrent.futures as cf
import glob
import json
import os
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("WSX_REPO", "/repo")
RES = "/usr/lib/llvm-18/lib/clang/18"


class AnalysisBroken(Exception):
    """The analysis could not be carried out (not a verdict)."""


def ensure_tool():
    p = subprocess.run(["bash", os.path.join(VERIF, "tools", "build.sh")],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise AnalysisBroken("cannot build extractor:\n" + p.stdout)
    return os.path.join(VERIF, "build", "wsx")


CORE_SKIP = ("wsrep_provider_v26.cpp", "_service_v1.cpp")


def core_files():
    fs = []
    for f in sorted(glob.glob(REPO + "/src/*.cpp")):
        b = os.path.basename(f)
        if any(b.endswith(s) for s in CORE_SKIP):
            continue
        fs.append(f)
    return fs


def extract(files, flags, roots, tag):
    tool = ensure_tool()
    tmp = tempfile.mkdtemp(prefix="wsx.")
    outs = []
    try:
        def one(f):
            out = os.path.join(tmp, os.path.basename(f) + ".json")
            cmd = [tool, out, ":".join(roots), f, "--", "-resource-dir=" + RES, "-w"] + flags
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode or not os.path.exists(out):
                raise AnalysisBroken("front end failed on %s:\n%s" % (f, p.stdout[-3000:]))
            return f, json.load(open(out))
        with cf.ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(one, files))
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)
    return outs


class Fn:
    __slots__ = ("key", "name", "file", "line", "ret", "cls", "meth", "params", "entry", "exit",
                 "blocks", "nodes", "raw", "tu", "try_blocks", "npreds", "calls", "sk")

    def short(self):
        return self.name.replace("wsrep::", "")


class Program:
    def __init__(self):
        self.fns = {}        # key -> Fn
        self.by_name = {}    # qualified name -> [Fn]
        self.records = {}
        self.enums = {}
        self.globals = {}    # (tu,d) -> {...}
        self.overrides = {}
        self.files = []

    def add(self, tu, data):
        for e in data["enums"]:
            self.enums[e["name"]] = e["vals"]
        for r in data["records"]:
            old = self.records.get(r["name"])
            if old is None or (not old["fields"] and r["fields"]):
                self.records[r["name"]] = r
        for g in data["globals"]:
            self.globals[(tu, g["d"])] = g
            self.globals.setdefault(("qn", g["name"]), g)
        for f in data["functions"]:
            if f["key"] in self.fns:
                continue
            if "blocks" not in f:
                continue
            F = Fn()
            F.key = f["key"]; F.name = f["name"]; F.file = f["file"]; F.line = f["line"]
            F.ret = f["ret"]; F.cls = f.get("cls"); F.meth = f.get("meth")
            F.params = f["params"]; F.entry = f["entry"]; F.exit = f["exit"]
            F.raw = f; F.tu = tu
            F.nodes = {n["i"]: n for n in f["nodes"]}
            F.blocks = {b["id"]: b for b in f["blocks"]}
            F.try_blocks = {}
            F.npreds = {}
            for b in f["blocks"]:
                t = b.get("t")
                if t and t.get("k") == "CXXTryStmt":
                    F.try_blocks[t["try"]] = b["id"]
                for s in b["s"]:
                    if s is not None:
                        F.npreds[s] = F.npreds.get(s, 0) + 1
            F.calls = None
            k = len(self.by_name.get(F.name, ()))
            F.sk = F.name.replace("wsrep::", "") + ("#%d" % k if k else "")
            for b in f["blocks"]:
                t = b.get("t")
                if t and t.get("k") == "CXXTryStmt":
                    for s in b["s"]:
                        if s is not None:
                            F.npreds[s] = F.npreds.get(s, 0) + 2
            self.fns[F.key] = F
            self.by_name.setdefault(F.name, []).append(F)
            for o in f.get("overrides", []):
                self.overrides.setdefault(o, []).append(F.key)

    def fn(self, name, nparams=None, ptypes=None, required=True):
        """Find a function by qualified name (optionally by arity / parameter types)."""
        c = self.by_name.get(name, [])
        if nparams is not None:
            c = [f for f in c if len(f.params) == nparams]
        if ptypes is not None:
            c = [f for f in c if all(pt in p["t"] for pt, p in zip(ptypes, f.params))
                 and len(f.params) == len(ptypes)]
        if not c:
            if required:
                raise AnalysisBroken("anchor vanished: function %s %s not found in the analysed tree"
                                     % (name, ptypes if ptypes is not None else ""))
            return None
        if len(c) > 1:
            raise AnalysisBroken("anchor ambiguous: %s: %s" % (name, [f.key for f in c]))
        return c[0]

    def field_of(self, cls, tprefix):
        """name of the only field of cls whose type starts with tprefix."""
        r = self.records.get(cls)
        c = [f["name"] for f in r["fields"] if f["t"].startswith(tprefix)] if r else []
        if len(c) != 1:
            raise AnalysisBroken("anchor vanished: field of type %s in %s" % (tprefix, cls))
        return c[0]

    def enum(self, name):
        if name not in self.enums:
            raise AnalysisBroken("anchor vanished: enum %s" % name)
        return self.enums[name]

    def derives(self, cls, base):
        if cls == base:
            return True
        r = self.records.get(cls)
        if not r:
            return False
        return any(self.derives(b, base) for b in r["bases"])


_cache = {}


def load_core(ndebug=True):
    key = ("core", ndebug)
    if key in _cache:
        return _cache[key]
    flags = ["-std=gnu++11", "-I" + REPO + "/include", "-I" + REPO + "/src"]
    if ndebug:
        flags.append("-DNDEBUG")
    files = core_files()
    if len(files) < 10:
        raise AnalysisBroken("only %d source files found under %s/src" % (len(files), REPO))
    P = Program()
    P.files = files
    for f, d in extract(files, flags, [REPO + "/src/", REPO + "/include/"], key):
        P.add(os.path.basename(f), d)
    _cache[key] = P
    return P


if __name__ == "__main__":
    import time
    t = time.time()
    P = load_core()
    print(len(P.fns), "functions", len(P.records), "records", time.time() - t)
    if len(sys.argv) > 1:
        for f in P.by_name.get(sys.argv[1], []):
            print(f.key, f.file, f.line)
            for bid, b in sorted(f.blocks.items(), reverse=True):
                print("B%d" % bid, b.get("label", ""), "->", b["s"], b.get("t", ""))
                for e in b["e"]:
                    if "s" in e:
                        n = dict(f.nodes[e["s"]])
                        n.pop("pmodes", None)
                        print("    ", n)
                    else:
                        print("    ", e)
