"""Mutation analysis of the monitors (a development aid, not a check).

    mutate.py OUT.jsonl [--files substr,...] [--sample N] [--seed S] [--jobs J]

Each mutant (one small change of the code of agnpy, made on the syntax tree) is
imported in place of the original module in a forked process, where the cases of
the quick tier of the checks of that file are run until one reports a violation.
Nothing is written in /repo.
"""
import argparse, ast, copy, importlib, importlib.abc, importlib.util, json, os, random, signal, sys, time, traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
sys.path[:0] = [HERE, REPO]
CHECKS = {
    "spectra/spectra": "C01 C02 C03 C04 C05 C32 C07 C08 C31 C25", "emission_regions/blob": "C06 C32 C07 C27 C22", "synchrotron/synchrotron": "C10 C21 C33 C19 C07 C08",
    "synchrotron/proton": "C11 C14", "compton/synchrotron_self": "C12 C33 C14 C08", "compton/external": "C13 C14 C09", "compton/kernels": "C21 C13",
    "targets/targets": "C34 C16 C17 C32 C09", "absorption/targets": "C18 C19 C32 C31 C09", "absorption/ebl": "C20 C32", "utils/math": "C29 C12", "utils/geometry": "C30 C18",
    "utils/conversion": "C35 C34", "constraints": "C22", "time_evolution": "C24 C23 C25 C32", "fit/": "C26 C27 C28 C32", "radiative_process": "C15 C14",
    "utils/plot": "C36", "utils/validation": "C36",
}
SWAP = {"gamma_min": "gamma_max", "sin": "cos", "minimum": "maximum", "min": "max", "log10": "log", "zeros_like": "ones_like", "zeros": "ones", "hstack": "vstack",
        "all": "any", "R_in": "R_out", "p1": "p2", "delta_D": "Gamma", "mu": "mu_s", "gamma_low": "gamma_up", "x": "y", "n_e": "n_p", "R_line": "r", "R_dt": "r", "first": "last"}
SWAP.update({v: k for k, v in list(SWAP.items())})
DOC = ("plot", "log", "warn")


class Mut(ast.NodeTransformer):
    """applies the mutation number `k`; counts them all when k is None"""

    def __init__(self, k=None):
        self.k, self.n, self.done = k, 0, None

    def hit(self, node, desc):
        self.n += 1
        if self.k == self.n - 1:
            self.done = (getattr(node, "lineno", 0), desc)
            return True
        return False

    def visit_FunctionDef(self, node):
        if node.name in ("__str__", "__repr__"):
            return node
        body = node.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            node.body = body[1:] or [ast.Pass()]
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.body = self.block(node.body)
        return node

    def block(self, stmts):
        out = []
        for s in stmts:
            if isinstance(s, (ast.AugAssign, ast.Assign)) or (isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and not ast.unparse(s.value.func).startswith(("log.", "logging."))):
                if self.hit(s, "delete " + ast.unparse(s)[:80]):
                    out.append(ast.copy_location(ast.Pass(), s))
                    continue
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and ast.unparse(s.value.func).startswith(("log.", "logging.")):
                out.append(s)
                continue
            if isinstance(s, ast.Raise):
                if self.hit(s, "no raise"):
                    out.append(ast.copy_location(ast.Pass(), s))
                else:
                    out.append(s)
                continue
            out.append(self.visit(s))
        return out

    def visit_If(self, node):
        if self.hit(node, "if True: " + ast.unparse(node.test)[:60]):
            node.test = ast.copy_location(ast.Constant(True), node)
            return node
        if self.hit(node, "if False: " + ast.unparse(node.test)[:60]):
            node.test = ast.copy_location(ast.Constant(False), node)
            return node
        node.test = self.visit(node.test)
        node.body = self.block(node.body)
        node.orelse = self.block(node.orelse)
        return node

    def visit_For(self, node):
        node.iter = self.visit(node.iter)
        node.body = self.block(node.body)
        return node

    def visit_BinOp(self, node):
        alt = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.Pow: [ast.Mult]}.get(type(node.op), [])
        for a in alt:
            if self.hit(node, f"{type(node.op).__name__}->{a.__name__}: {ast.unparse(node)[:70]}"):
                node.op = a()
                return node
        return self.generic_visit(node)

    def visit_Compare(self, node):
        alt = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq]}.get(type(node.ops[0]), [])
        for a in alt:
            if self.hit(node, f"{type(node.ops[0]).__name__}->{a.__name__}: {ast.unparse(node)[:70]}"):
                node.ops[0] = a()
                return node
        return self.generic_visit(node)

    def visit_BoolOp(self, node):
        if self.hit(node, "and<->or " + ast.unparse(node)[:70]):
            node.op = ast.And() if isinstance(node.op, ast.Or) else ast.Or()
            return node
        return self.generic_visit(node)

    def visit_UnaryOp(self, node):
        if isinstance(node.op, (ast.USub, ast.Not)) and not isinstance(node.operand, ast.Constant):
            if self.hit(node, "drop unary " + ast.unparse(node)[:60]):
                return self.visit(node.operand) if self.k is None else node.operand
        return self.generic_visit(node)

    def visit_Constant(self, node):
        v = node.value
        if isinstance(v, bool):
            if self.hit(node, f"{v}->{not v}"):
                return ast.copy_location(ast.Constant(not v), node)
        elif isinstance(v, (int, float)):
            w = (v + 1) if isinstance(v, int) else v * 1.07
            if self.hit(node, f"{v}->{w}"):
                return ast.copy_location(ast.Constant(w), node)
        return node

    def visit_Call(self, node):
        if ast.unparse(node.func).startswith(("log.", "logging.", "warnings.")):
            return node
        for i, kw in enumerate(node.keywords):
            if self.hit(node, f"drop kw {kw.arg} of {ast.unparse(node.func)[:40]}"):
                node.keywords = node.keywords[:i] + node.keywords[i + 1:]
                return node
        if isinstance(node.func, ast.Attribute) and node.func.attr == "copy" and not node.args:
            if self.hit(node, "drop copy"):
                return node.func.value
        return self.generic_visit(node)

    def visit_Name(self, node):
        if isinstance(node.ctx, ast.Load) and node.id in SWAP:
            if self.hit(node, f"{node.id}->{SWAP[node.id]}"):
                return ast.copy_location(ast.Name(SWAP[node.id], node.ctx), node)
        return node

    def visit_Attribute(self, node):
        if isinstance(node.ctx, ast.Load) and node.attr in SWAP:
            if self.hit(node, f".{node.attr}->{SWAP[node.attr]}"):
                node.attr = SWAP[node.attr]
                return node
        return self.generic_visit(node)

    def visit_ImportFrom(self, node):
        return node

    def visit_Module(self, node):
        node.body = self.block_top(node.body)
        return node

    def block_top(self, stmts):
        return [s if isinstance(s, ast.Expr) else self.visit(s) for s in stmts]

    def visit_ClassDef(self, node):
        node.body = self.block_top(node.body)
        return node


class Loader(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree

    def find_spec(self, name, path, target=None):
        if name == self.name:
            return importlib.util.spec_from_file_location(name, self.path, loader=self, submodule_search_locations=None)

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        exec(compile(self.tree, self.path, "exec"), module.__dict__)


def run(file, k, pids, limit):
    src = open(f"{REPO}/{file}").read()
    tree = ast.parse(src)
    m = Mut(k)
    tree = ast.fix_missing_locations(m.visit(tree))
    name = file[:-3].replace("/", ".")
    sys.meta_path.insert(0, Loader(name, f"{REPO}/{file}", tree))
    t0 = time.time()
    ran = 0
    res = dict(file=file, k=k, line=m.done[0], what=m.done[1])
    try:
        import agnpy  # noqa
    except Exception as e:
        return dict(res, result="import", by=repr(e)[:100])
    from lib import harness
    for pid in pids:
        if not os.path.exists(f"{HERE}/checks/{pid.lower()}.py"):
            continue
        try:
            mod = importlib.import_module("checks." + pid.lower())
            mod.CASE_TIMEOUT = 60
            harness._STATE.update(mod=mod, known=harness.load_known(pid), tier="quick")
            if hasattr(mod, "setup"):
                mod.setup("quick")
        except Exception as e:
            return dict(res, result="caught", by=pid, monitor="import " + repr(e)[:80])
        for item in harness.case_list(mod, "quick", 1):
            r = harness.run_case(item)
            ran += 1
            if r["violations"]:
                return dict(res, result="caught", by=pid, monitor=r["violations"][0]["monitor"], cases=ran, t=round(time.time() - t0, 1))
            if r["status"] != "ok":
                return dict(res, result="error" if r["status"] == "error" else "timeout", by=pid, monitor=str(r.get("error"))[-200:], cases=ran)
            if time.time() - t0 > limit:
                return dict(res, result="limit", cases=ran)
    return dict(res, result="SURVIVED", cases=ran, t=round(time.time() - t0, 1))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--files", default="")
    ap.add_argument("--sample", type=int, default=0)
    ap.add_argument("--seed", type=int, default=0)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--limit", type=float, default=300)
    a = ap.parse_args()
    os.environ.update(MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    sys.dont_write_bytecode = True
    import warnings
    warnings.simplefilter("ignore")
    import numpy, scipy.integrate, scipy.interpolate, astropy.units, astropy.cosmology, astropy.table, matplotlib.pyplot  # noqa
    if not a.files or "fit" in a.files:
        import gammapy.modeling.models, gammapy.datasets, gammapy.estimators, sherpa.models, sherpa.data  # noqa
    assert "agnpy" not in sys.modules
    todo = []
    for root, _, files in os.walk(f"{REPO}/agnpy"):
        for f in files:
            p = os.path.relpath(os.path.join(root, f), REPO)
            if not f.endswith(".py") or "tests" in p or f == "__init__.py":
                continue
            if a.files and not any(s in p for s in a.files.split(",")):
                continue
            key = [v for s, v in CHECKS.items() if s in p]
            if not key:
                continue
            m = Mut(None)
            m.visit(ast.parse(open(f"{REPO}/{p}").read()))
            todo += [(p, k, key[0].split()) for k in range(m.n)]
    random.Random(a.seed).shuffle(todo)
    if os.path.exists(a.out):
        seen = {(r["file"], r["k"]) for r in map(json.loads, open(a.out)) if r["result"] != "limit"}
        todo = [t for t in todo if t[:2] not in seen]
    if a.sample:
        todo = todo[: a.sample]
    print(len(todo), "mutants", flush=True)
    out = open(a.out, "a")
    live = {}
    while todo or live:
        while todo and len(live) < a.jobs:
            p, k, pids = todo.pop()
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                dn = os.open(os.devnull, os.O_WRONLY)
                os.dup2(dn, 1), os.dup2(dn, 2)
                os.setpgid(0, 0)
                try:
                    res = run(p, k, pids, a.limit)
                except BaseException as e:
                    res = dict(file=p, k=k, result="tool-error", by=repr(e)[:200], tb=traceback.format_exc()[-400:])
                os.write(w, json.dumps(res, default=str).encode())
                os._exit(0)
            os.close(w)
            live[pid] = (r, time.time(), p, k)
        for pid in list(live):
            r, t0, p, k = live[pid]
            done, _ = os.waitpid(pid, os.WNOHANG)
            if done:
                data = b""
                while True:
                    c = os.read(r, 65536)
                    if not c:
                        break
                    data += c
                os.close(r)
                out.write((data.decode() or json.dumps(dict(file=p, k=k, result="died"))) + "\n")
                out.flush()
                del live[pid]
            elif time.time() - t0 > a.limit + 120:
                os.killpg(pid, signal.SIGKILL)
        time.sleep(0.02)


main()
