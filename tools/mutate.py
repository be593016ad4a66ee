#!/usr/bin/env python3
"""Development tool (not a check): mutate litevideo in scratch copies and see which checks notice.
usage: mutate.py [-n PER_FILE] [-s SEED] [-o OUT.jsonl] [-j WORKERS] [FILE_SUBSTRING...]"""
import ast, fnmatch, json, os, random, shutil, subprocess, sys, time, argparse
from concurrent.futures import ThreadPoolExecutor

GATE = None
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
# checks to run, most specific first; anchors of the properties, plus the end-to-end ones
EXTRA = {"litevideo/input/": ["C33"], "litevideo/input/common.py": ["C13", "C11"], "litevideo/output/common.py": ["C21", "C22", "C25"], "litevideo/float_arithmetic/common.py": ["C08", "C09"]}


def anchors():
    m = {}
    for l in open(os.path.join(VERIF, "properties.jsonl")):
        p = json.loads(l)
        for f in p["anchors"]["files"]:
            m.setdefault(f, []).append(p["id"])
    return m


class Collect(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.lines = src.split("\n")
        self.off = [0]
        for l in self.lines:
            self.off.append(self.off[-1] + len(l) + 1)
        self.muts = []

    def pos(self, line, col):
        # columns are utf-8 offsets; the sources are ascii where it matters
        return self.off[line - 1] + col

    def seg(self, n):
        return self.pos(n.lineno, n.col_offset), self.pos(n.end_lineno, n.end_col_offset)

    def add(self, a, b, new, kind):
        self.muts.append((a, b, new, kind))

    def visit_Constant(self, n):
        if isinstance(n.value, bool):
            a, b = self.seg(n)
            self.add(a, b, str(not n.value), "bool")
        elif isinstance(n.value, int):
            a, b = self.seg(n)
            self.add(a, b, str(n.value + 1), "const+1")
            if n.value > 0:
                self.add(a, b, str(n.value - 1), "const-1")

    SW = {ast.Add: "-", ast.Sub: "+", ast.BitAnd: "|", ast.BitOr: "&", ast.BitXor: "|", ast.LShift: ">>", ast.RShift: "<<"}

    def visit_BinOp(self, n):
        self.generic_visit(n)
        t = self.SW.get(type(n.op))
        if t:
            a, b = self.seg(n.left)[1], self.seg(n.right)[0]
            mid = self.src[a:b]
            old = {ast.Add: "+", ast.Sub: "-", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>"}[type(n.op)]
            if old in mid:
                self.add(a, b, mid.replace(old, t, 1), "op")
        if isinstance(n.op, (ast.BitAnd, ast.BitOr)):
            # forget one of the two terms
            w = self.seg(n)
            for k in (n.left, n.right):
                a, b = self.seg(k)
                self.add(w[0], w[1], self.src[a:b], "term")

    CW = {ast.Eq: ("==", "!="), ast.NotEq: ("!=", "=="), ast.Lt: ("<", "<="), ast.LtE: ("<=", "<"), ast.Gt: (">", ">="), ast.GtE: (">=", ">")}

    def visit_Compare(self, n):
        self.generic_visit(n)
        t = self.CW.get(type(n.ops[0]))
        if t:
            a, b = self.seg(n.left)[1], self.seg(n.comparators[0])[0]
            self.add(a, b, self.src[a:b].replace(t[0], t[1], 1), "cmp")

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Invert):
            a, _ = self.seg(n)
            self.add(a, a + 1, "", "~")

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        a, b = self.seg(n)
        if isinstance(f, ast.Attribute) and f.attr == "eq":
            self.add(a, b, "Signal().eq(0)", "drop")
        if isinstance(f, ast.Name) and f.id == "If" and n.args:
            x, y = self.seg(n.args[0])
            self.add(x, y, "~(" + self.src[x:y] + ")" if isinstance(n.args[0], (ast.Name, ast.Attribute)) and 0 else "(1)", "if1")
        if isinstance(f, ast.Attribute) and f.attr in ("Elif", "Else") or isinstance(f, ast.Name) and f.id == "If":
            # swap two neighbouring statements / forget an Elif
            st = n.args[1:] if not (isinstance(f, ast.Attribute) and f.attr == "Else") else n.args
            if isinstance(f, ast.Attribute) and f.attr == "Elif":
                x, y = self.seg(n.args[0])
                self.add(x, y, "(0)", "elif0")
        if isinstance(f, ast.Name) and f.id == "NextState":
            self.add(a, b, "Signal().eq(0)", "nostate")
        if isinstance(f, ast.Name) and f.id == "NextValue":
            self.add(a, b, "Signal().eq(0)", "nonext")
        if isinstance(f, ast.Name) and f.id == "Signal":
            for k in n.keywords:
                if k.arg == "reset":
                    pass

    def visit_List(self, n):
        self.generic_visit(n)
        for x, y in zip(n.elts[:-1], n.elts[1:]):
            if isinstance(x, ast.Call) and isinstance(y, ast.Call):
                a, b = self.seg(x)
                c, d = self.seg(y)
                self.add(a, d, self.src[c:d] + self.src[b:c] + self.src[a:b], "swap")

    def visit_Attribute(self, n):
        self.generic_visit(n)
        sw = {"first": "last", "last": "first", "valid": "ready", "ready": "valid", "hsync": "vsync", "vsync": "hsync", "sys": "pix", "pix": "sys", "data_in0": "data_in1", "hres": "hscan", "vres": "vscan", "sof": "valid"}
        if n.attr in sw:
            _, b = self.seg(n)
            self.add(b - len(n.attr), b, sw[n.attr], "name")


def gated(src, rnd):
    """statements and conditions that depend on one more condition, taken from the same function"""
    c = Collect(src)
    for fn in ast.walk(ast.parse(src)):
        if not isinstance(fn, ast.FunctionDef):
            continue
        born = {a.arg: 0 for a in fn.args.args}
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                born[n.id] = min(born.get(n.id, 10**9), n.lineno)
        cond, sites = set(), []
        for n in ast.walk(fn):
            if not isinstance(n, ast.Call):
                continue
            f = n.func
            if isinstance(f, ast.Name) and f.id == "If" and n.args or isinstance(f, ast.Attribute) and f.attr == "Elif" and n.args:
                x, y = c.seg(n.args[0])
                names = {m.id for m in ast.walk(n.args[0]) if isinstance(m, ast.Name)}
                if all(m in born for m in names):
                    cond.add((src[x:y], max([born[m] for m in names] + [0]), n.args[0].lineno))
                sites.append((x, y, "c", n.lineno))
            if isinstance(f, ast.Attribute) and f.attr == "eq" or isinstance(f, ast.Name) and f.id in ("NextValue", "NextState"):
                sites.append(c.seg(n) + ("s", n.lineno))
        cond = sorted(cond)
        for x, y, k, line in sites:
            ok = [t for t, b, l in cond if b < line and t != src[x:y] and abs(l - line) > 1]
            if not ok:
                continue
            t = "(" + rnd.choice(ok) + ")"
            if rnd.random() < .5:
                u = "(" + rnd.choice(ok) + ")"
                if u != t:
                    t = "(" + t + " & " + rnd.choice(["", "~"]) + u + ")"
            if k == "c":
                if rnd.random() < .5:
                    c.add(x, y, "((" + src[x:y] + ") & ~" + t + ")", "and")
                else:
                    c.add(x, y, "((" + src[x:y] + ") | " + t + ")", "or")
            else:
                c.add(x, y, "If(~" + t + ", " + src[x:y] + ")", "gate")
    return c.muts


def candidates(path):
    src = open(path).read()
    if GATE is not None:
        return src, gated(src, GATE)
    c = Collect(src)
    c.visit(ast.parse(src))
    return src, c.muts


def worker(args):
    k, rel, mut, src, checks, base = args
    a, b, new, kind = mut
    d = os.path.join(base, "m%d" % k)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    repo, ver = os.path.join(d, "repo"), os.path.join(d, "verif")
    os.makedirs(repo)
    shutil.copytree(os.path.join(REPO, "litevideo"), os.path.join(repo, "litevideo"), ignore=shutil.ignore_patterns("__pycache__"))
    os.makedirs(ver)
    for n in ("lib", "checks"):
        shutil.copytree(os.path.join(VERIF, n), os.path.join(ver, n), ignore=shutil.ignore_patterns("__pycache__"))
    shutil.copy(os.path.join(VERIF, "known_findings.jsonl"), ver)
    if os.path.isdir(os.path.join(VERIF, "data")):
        shutil.copytree(os.path.join(VERIF, "data"), os.path.join(ver, "data"))
    fw = os.path.join(ver, "lib", "fw.py")
    t = open(fw).read().replace('REPO = "/repo"', 'REPO = "%s"' % repo)
    open(fw, "w").write(t)
    open(os.path.join(repo, rel), "w").write(src[:a] + new + src[b:])
    line = src.count("\n", 0, a) + 1
    res = dict(file=rel, line=line, kind=kind, old=src[a:b], new=new, text=src.split("\n")[line - 1].strip(), killed=None, checks=[], bad=[])
    env = dict(os.environ, PYTHONPATH="%s/lib:%s/checks:%s" % (ver, ver, repo), PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
               VERIF_PROCS="2", VERIF_SEED="1", VERIF_TIER="quick", TMPDIR=d)
    env.pop("VERIF_VERBOSE", None)
    t0 = time.time()
    for c in checks:
        try:
            p = subprocess.run(["/opt/venv/bin/python", fw, c, "quick"], cwd=ver, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
            rc, out = p.returncode, p.stdout
        except subprocess.TimeoutExpired:
            rc, out = -9, ""
        res["checks"].append(c)
        if rc == 1 and "VIOLATION property=" in out:
            res["killed"] = c
            ls = [l for l in out.split("\n") if l.startswith("  ")]
            res["why"] = ls[0][:200] if ls else ""
            break
        if rc != 0:
            res["bad"].append((c, rc, out[-300:]))
    res["s"] = round(time.time() - t0, 1)
    shutil.rmtree(d, ignore_errors=True)
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-n", type=int, default=10)
    ap.add_argument("-s", type=int, default=1)
    ap.add_argument("-o", default="/tmp/x/mut.jsonl")
    ap.add_argument("-j", type=int, default=4)
    ap.add_argument("--only", default=None, help="comma separated checks")
    ap.add_argument("--gate", action="store_true", help="add conditions instead of changing tokens")
    ap.add_argument("files", nargs="*")
    o = ap.parse_args()
    global GATE
    GATE = random.Random(o.s) if o.gate else None
    an = anchors()
    base = "/tmp/mut.%d" % os.getpid()
    os.makedirs(base, exist_ok=True)
    work = []
    rnd = random.Random(o.s)
    for root, ds, fs in os.walk(os.path.join(REPO, "litevideo")):
        if "test" in root.split("/"):
            continue
        for f in sorted(fs):
            if not f.endswith(".py"):
                continue
            path = os.path.join(root, f)
            rel = os.path.relpath(path, REPO)
            if o.files and not any(x in rel for x in o.files):
                continue
            src, m = candidates(path)
            if not m:
                continue
            cs = [c for f, v in an.items() if fnmatch.fnmatch(rel, f) for c in v]
            for k, v in EXTRA.items():
                if rel.startswith(k):
                    cs += [x for x in v if x not in cs]
            if o.only:
                cs = o.only.split(",")
            # as many of each kind
            by = {}
            for x in m:
                by.setdefault(x[3], []).append(x)
            for x in by.values():
                rnd.shuffle(x)
            pick = []
            while len(pick) < min(o.n, len(m)):
                k = rnd.choice(sorted(k for k in by if by[k]))
                pick.append(by[k].pop())
            for x in pick:
                work.append((len(work), rel, x, src, cs, base))
    rnd.shuffle(work)
    print(len(work), "mutants", flush=True)
    n = 0
    with ThreadPoolExecutor(o.j) as ex, open(o.o, "a") as out:
        for r in ex.map(worker, work):
            n += 1
            out.write(json.dumps(r) + "\n")
            out.flush()
            if not r["killed"] or r["bad"]:
                print("{}/{} {} {}:{} [{}] {!r}->{!r} | {} | {} {}".format(n, len(work), "KILLED" if r["killed"] else "SURVIVED", r["file"], r["line"], r["kind"], r["old"], r["new"], r["text"], r["bad"], r["checks"]), flush=True)
    shutil.rmtree(base, ignore_errors=True)


main()
