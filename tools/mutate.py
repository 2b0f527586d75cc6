"""Mutation campaign: small syntactic changes of singd, run against all checks with reduced run counts.

mutate.py list                     number of mutants
mutate.py run OUT.jsonl [from to]  mutants from..to-1 in a scratch copy of /repo; one JSON line per mutant

Only a development aid (finds blind spots); no registered check uses it.
"""
import ast
import json
import os
import pathlib
import random
import shutil
import subprocess
import sys
import tempfile
import time

V = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("MUT_REPO", "/repo"))
FILES = ["singd/optim/optimizer.py", "singd/optim/utils.py"] + [
    f"singd/structures/{x}.py" for x in ("base", "blockdiagonal", "dense", "diagonal", "hierarchical", "recursive", "triltoeplitz",
                                        "triutoeplitz", "utils")]
PY = "/opt/venv/bin/python"


def seg(src, n):
    return ast.get_source_segment(src, n)


class Gen(ast.NodeVisitor):
    def __init__(self, src):
        self.src, self.out, self.stack = src, [], []
        lines = src.splitlines(keepends=True)
        self.off = [0]
        for l in lines:
            self.off.append(self.off[-1] + len(l.encode()))

    def pos(self, n):
        return (self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset)

    def add(self, n, new, what):
        a, b = self.pos(n)
        self.out.append((a, b, new, f"{n.lineno}: {what}: {seg(self.src, n)[:70]!r} -> {new[:70]!r}"))

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        body = n.body[1:] if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else n.body
        for d in n.args.defaults + [k for k in n.args.kw_defaults if k]:
            self.visit(d)
        for s in body:
            self.visit(s)
        self.stack.pop()

    def visit_ClassDef(self, n):
        for s in n.body:
            if isinstance(s, (ast.FunctionDef, ast.Assign)):
                self.visit(s)

    def visit_Raise(self, n):
        pass

    def visit_AnnAssign(self, n):
        if n.value:
            self.visit(n.value)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            l, r = seg(self.src, n.left), seg(self.src, n.comparators[0])
            sw = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Is: "is not",
                  ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}[type(n.ops[0])]
            self.add(n, f"{l} {sw} {r}", "compare")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        l, r = seg(self.src, n.left), seg(self.src, n.right)
        m = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.FloorDiv: "%"}.get(type(n.op))
        if m and not isinstance(n.left, (ast.JoinedStr,)) and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            self.add(n, f"({l}) {m} ({r})", "binop")
        if isinstance(n.op, ast.MatMult):
            self.add(n, f"({r}) @ ({l})", "swap matmul")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        for v in n.values:
            rest = [x for x in n.values if x is not v]
            j = " and " if isinstance(n.op, ast.And) else " or "
            self.add(n, "(" + j.join(seg(self.src, x) for x in rest) + ")", "drop operand")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.Not, ast.USub)):
            self.add(n, "(" + seg(self.src, n.operand) + ")", "drop unary")
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.add(n, "(" + seg(self.src, n.body) + ")", "ifexp body")
        self.add(n, "(" + seg(self.src, n.orelse) + ")", "ifexp else")
        self.generic_visit(n)

    def visit_If(self, n):
        self.add(n.test, "True", "if")
        self.add(n.test, "False", "if")
        self.generic_visit(n)

    def visit_Constant(self, n):
        if isinstance(n.value, bool):
            self.add(n, str(not n.value), "const")
        elif isinstance(n.value, (int, float)):
            self.add(n, repr(n.value + 1), "const")
        elif n.value is None:
            pass
        elif isinstance(n.value, str) and n.value in ("batch", "batch+sequence", "expand", "reduce", "mean", "sum"):
            o = {"batch": "batch+sequence", "batch+sequence": "batch", "expand": "reduce", "reduce": "expand", "mean": "sum",
                 "sum": "mean"}[n.value]
            self.add(n, repr(o), "const")

    def visit_Attribute(self, n):
        if n.attr in ("T", "data"):
            self.add(n, seg(self.src, n.value), "drop ." + n.attr)
        if n.attr in ("K1", "K2", "A", "E", "Ks", "Cs", "m_Ks", "m_Cs", "H_Ks", "H_Cs") and isinstance(n.ctx, ast.Load):
            o = {"K1": "K2", "K2": "K1", "A": "E", "E": "A", "Ks": "Cs", "Cs": "Ks", "m_Ks": "m_Cs", "m_Cs": "m_Ks", "H_Ks": "H_Cs",
                 "H_Cs": "H_Ks"}[n.attr]
            self.add(n, seg(self.src, n.value) + "." + o, "attr")
        self.generic_visit(n)

    def visit_Name(self, n):
        o = {"dtype_K": "dtype_C", "dtype_C": "dtype_K", "dim_K": "dim_C", "dim_C": "dim_K", "H_K": "H_C", "H_C": "H_K", "K_tK": "C_tC",
             "C_tC": "K_tK", "prev_grad_scale": "grad_scale", "beta1_K": "beta1_C", "beta1_C": "beta1_K", "new_m_K": "new_m_C",
             "new_m_C": "new_m_K"}
        if isinstance(n.ctx, ast.Load) and n.id in o:
            self.add(n, o[n.id], "name")

    def visit_Call(self, n):
        if isinstance(n.func, ast.Attribute):
            v = seg(self.src, n.func.value)
            if n.func.attr in ("clone", "detach", "contiguous", "to", "unsqueeze", "flatten", "abs", "transpose", "flip", "diag"):
                self.add(n, v, "drop call")
            args = ", ".join(seg(self.src, a) for a in n.args)
            if n.func.attr == "add_" and "dim" not in args:
                self.add(n, v, "drop call")
            if n.func.attr in ("pop",) and len(n.args) >= 1:
                self.add(n, f"{v}[{seg(self.src, n.args[0])}]", "pop -> get")
        elif isinstance(n.func, ast.Name) and n.func.id == "deepcopy":
            self.add(n, f"dict({seg(self.src, n.args[0])})", "shallow copy")
        elif isinstance(n.func, ast.Name) and n.func.id in ("any", "all"):
            o = {"any": "all", "all": "any"}[n.func.id]
            self.add(n.func, o, "any/all")
        for k in n.keywords:
            if k.arg in ("alpha", "dtype", "device", "set_to_none", "op", "group"):
                a, b = self.pos(k)
                tail = self.src.encode()[b:b + 1] == b","
                self.out.append((a, b + tail, "", f"{n.lineno}: drop keyword {k.arg}: {seg(self.src, n)[:70]!r}"))
        self.generic_visit(n)

    def drop(self, n, what):
        self.add(n, "pass", what)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        self.drop(n, "drop statement")
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.drop(n, "drop statement")
        t, v = seg(self.src, n.target), seg(self.src, n.value)
        m = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}.get(type(n.op))
        if m:
            self.add(n, f"{t} {m}= {v}", "augassign")
        self.visit(n.value)

    def visit_Continue(self, n):
        self.drop(n, "drop continue")

    def visit_Delete(self, n):
        self.drop(n, "drop del")

    def visit_Assign(self, n):
        if isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
            self.drop(n, "drop assignment")
        self.visit(n.value)
        for t in n.targets:
            if isinstance(t, ast.Subscript):
                self.visit(t.slice)


def mutants():
    out = []
    for f in FILES:
        src = (REPO / f).read_text()
        g = Gen(src)
        g.visit(ast.parse(src))
        for a, b, new, what in g.out:
            t = src.encode()
            t = (t[:a] + new.encode() + t[b:]).decode()
            try:
                compile(t, f, "exec")
            except SyntaxError:
                continue
            out.append((f, t, what))
    random.Random(0).shuffle(out)
    return out


CHECKS = [("C01", 500), ("C21", 200), ("C07", 250), ("C18", 300), ("C11", 120), ("C13", 400), ("C20", 250), ("C14", 250), ("C09", 250),
          ("C08", 200), ("C04", 300), ("C17", 300), ("C02", 250), ("C06", 250), ("C05", 250), ("C16", 150), ("C12", 80), ("C15", 150), ("C24", 300),
          ("C19", 200), ("C10", 100), ("C03", 200)]


def run(out, lo, hi, workers):
    scratch = pathlib.Path(tempfile.mkdtemp(prefix="mut"))
    repo = scratch / "repo"
    shutil.copytree(REPO, repo, ignore=shutil.ignore_patterns(".git"))
    env = {**os.environ, "SIM_REPO": str(repo), "SIM_OUT": str(scratch / "out"), "SIM_WORKERS": str(workers), "SIM_NO_MIN": "1"}
    try:
        for i, (f, text, what) in enumerate(mutants()[lo:hi], lo):
            orig = (repo / f).read_text()
            (repo / f).write_text(text)
            t0, killed = time.time(), None
            for c, n in CHECKS:
                try:
                    p = subprocess.run([PY, "-B", "check.py", c, "--runs", str(n)], cwd=V, env=env, capture_output=True, text=True,
                                       timeout=400)
                    rc, tail = p.returncode, (p.stdout + p.stderr)[-400:]
                except subprocess.TimeoutExpired:
                    rc, tail = "timeout", ""
                if rc != 0:
                    killed = [c, rc, tail]
                    break
            (repo / f).write_text(orig)
            with open(out, "a") as o:
                o.write(json.dumps({"i": i, "file": f, "what": what, "killed": killed, "s": round(time.time() - t0, 1)}) + "\n")
    finally:
        shutil.rmtree(scratch)


if __name__ == "__main__":
    if sys.argv[1] == "list":
        m = mutants()
        print(len(m))
        for i, (f, _, w) in enumerate(m[:40]):
            print(i, f, w)
    else:
        a = [int(x) for x in sys.argv[3:5]] or [0, 10**9]
        run(sys.argv[2], a[0], a[1], int(os.environ.get("MUT_WORKERS", "4")))
