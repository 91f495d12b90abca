#!/usr/bin/python3
"""Mutation testing of the checks:  python3 tools/mutate.py C04 opensfm/tracking.py[:func,func]... [--jobs N]

Applies small changes, one at a time, to python files of a scratch copy of /repo and runs the check of the property on
it; prints the changes that the check does not report. Used while building, by no registered command."""
import ast
import os
import shutil
import subprocess
import sys
import threading
import queue

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn,
       ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.Mod: ast.Mult, ast.Pow: ast.Mult,
       ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd}


class Mut(ast.NodeTransformer):
    """applies the k-th mutation; counts when k is None"""

    def __init__(self, k, funcs):
        self.k, self.n, self.funcs, self.stack, self.what = k, 0, funcs, [], None

    def hit(self, node, what):
        if self.funcs and not any(f in self.funcs for f in self.stack):
            return False
        self.n += 1
        if self.k == self.n - 1:
            self.what = "%s:%d %s" % (".".join(self.stack), getattr(node, "lineno", 0), what)
            return True
        return False

    def visit_FunctionDef(self, node):
        self.stack.append(node.name)
        node.body = self.block(node.body)
        self.stack.pop()
        return node

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        node.body = self.block(node.body)
        self.stack.pop()
        return node

    def block(self, body):
        out = []
        for st in body:
            if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                out.append(st)
                continue
            src = ast.unparse(st).split("\n")[0][:90]
            if isinstance(st, ast.Expr) and src.startswith(("logger.", "print(", "logging.")):
                out.append(st)
                continue
            if self.stack and isinstance(st, (ast.Expr, ast.AugAssign, ast.Continue, ast.Break, ast.Raise, ast.Delete)) and self.hit(st, "deleted: " + src):
                out.append(ast.Pass())
                continue
            if self.stack and isinstance(st, ast.Assign) and isinstance(st.targets[0], (ast.Subscript, ast.Attribute)) and self.hit(st, "deleted: " + src):
                out.append(ast.Pass())
                continue
            out.append(self.visit(st))
        return out

    def generic_visit(self, node):
        for f in ("body", "orelse", "finalbody"):
            v = getattr(node, f, None)
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                setattr(node, f, self.block(v))
        for f, v in ast.iter_fields(node):
            if f in ("body", "orelse", "finalbody") and isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                continue
            if f in ("annotation", "returns", "decorator_list"):
                continue
            if isinstance(v, list):
                v[:] = [self.visit(x) if isinstance(x, ast.AST) else x for x in v]
            elif isinstance(v, ast.AST):
                setattr(node, f, self.visit(v))
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_JoinedStr(self, node):
        return node

    def visit_Raise(self, node):
        return node

    def visit_Assert(self, node):
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        for i, op in enumerate(node.ops):
            if type(op) in CMP and self.hit(node, "%s -> %s in %s" % (type(op).__name__, CMP[type(op)].__name__, ast.unparse(node)[:80])):
                node.ops[i] = CMP[type(op)]()
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.left, (ast.Constant, ast.JoinedStr)):
            return node
        if type(node.op) in BIN and self.hit(node, "%s -> %s in %s" % (type(node.op).__name__, BIN[type(node.op)].__name__, ast.unparse(node)[:80])):
            node.op = BIN[type(node.op)]()
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if type(node.op) in BIN and self.hit(node, "%s -> %s in %s" % (type(node.op).__name__, BIN[type(node.op)].__name__, ast.unparse(node)[:80])):
            node.op = BIN[type(node.op)]()
        return node

    def visit_BoolOp(self, node):
        self.generic_visit(node)
        if self.hit(node, "and/or swapped in " + ast.unparse(node)[:80]):
            node.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
            return node
        for i in range(len(node.values)):
            if self.hit(node, "term %d dropped from %s" % (i, ast.unparse(node)[:80])):
                del node.values[i]
                return node.values[0] if len(node.values) == 1 else node
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, (ast.Not, ast.USub)) and self.hit(node, "%s dropped in %s" % (type(node.op).__name__, ast.unparse(node)[:80])):
            return node.operand
        return node

    def visit_Constant(self, node):
        v = node.value
        if v is True or v is False:
            if self.hit(node, "%r flipped" % v):
                node.value = not v
        elif isinstance(v, int) and self.hit(node, "%r + 1" % v):
            node.value = v + 1
        elif isinstance(v, float) and self.hit(node, "%r * 1.5" % v):
            node.value = v * 1.5 if v else 1.0
        return node

    def cond(self, node):
        t = node.test
        node.test = self.visit(t)
        if self.hit(node, "condition never: " + ast.unparse(t)[:80]):
            node.test = ast.Constant(False)
        elif self.hit(node, "condition always: " + ast.unparse(t)[:80]):
            node.test = ast.Constant(True)

    def visit_If(self, node):
        self.cond(node)
        node.body = self.block(node.body)
        node.orelse = self.block(node.orelse)
        return node

    def visit_IfExp(self, node):
        self.cond(node)
        node.body, node.orelse = self.visit(node.body), self.visit(node.orelse)
        return node

    def visit_Slice(self, node):
        self.generic_visit(node)
        for f in ("lower", "upper"):
            if getattr(node, f) is not None and self.hit(node, "slice bound dropped: " + ast.unparse(node)):
                setattr(node, f, None)
        return node

    def visit_comprehension(self, node):
        self.generic_visit(node)
        for i in range(len(node.ifs)):
            if self.hit(node.ifs[i], "filter dropped: " + ast.unparse(node.ifs[i])[:80]):
                del node.ifs[i]
                break
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        name = node.func.id if isinstance(node.func, ast.Name) else node.func.attr if isinstance(node.func, ast.Attribute) else ""
        swap = {"min": "max", "max": "min", "sorted": "list", "floor": "ceil", "ceil": "floor", "argmin": "argmax", "argmax": "argmin", "any": "all", "all": "any",
                "sin": "cos", "cos": "sin", "radians": "degrees", "degrees": "radians", "abs": "float", "round": "int", "set": "list"}.get(name)
        if swap and isinstance(node.func, ast.Name) and self.hit(node, "%s -> %s in %s" % (name, swap, ast.unparse(node)[:80])):
            node.func.id = swap
        elif swap and isinstance(node.func, ast.Attribute) and swap not in ("list", "float") and self.hit(node, "%s -> %s in %s" % (name, swap, ast.unparse(node)[:80])):
            node.func.attr = swap
        elif len(node.args) == 2 and not node.keywords and not any(isinstance(a, ast.Starred) for a in node.args) and name not in ("isinstance", "min", "max", "print", "hasattr") \
                and self.hit(node, "arguments swapped in " + ast.unparse(node)[:80]):
            node.args.reverse()
        return node


def mutants(path, funcs):
    src = open(path).read()
    k = 0
    while True:
        m = Mut(k, funcs)
        tree = m.visit(ast.parse(src))
        if m.what is None:
            return
        ast.fix_missing_locations(tree)
        yield m.what, ast.unparse(tree)
        k += 1


def main():
    args = sys.argv[1:]
    jobs = 3
    if "--jobs" in args:
        i = args.index("--jobs")
        jobs = int(args[i + 1])
        del args[i:i + 2]
    pid, specs = args[0], args[1:]
    q = queue.Queue()
    for s in specs:
        f, _, fn = s.partition(":")
        for what, src in mutants(os.path.join("/repo", f), [x for x in fn.split(",") if x]):
            q.put((f, what, src))
    total = q.qsize()
    print(pid, total, "mutants", flush=True)
    stats = {"caught": 0, "missed": 0}
    lock = threading.Lock()

    def work(j):
        root = "/tmp/mut_%s_%d" % (pid, j)
        shutil.rmtree(root, ignore_errors=True)
        shutil.copytree("/repo", root, symlinks=True, ignore=shutil.ignore_patterns("cmake_build", ".git"))
        env = dict(os.environ, VERIF_REPO=root, VERIF_BUILD=os.path.join(VERIF, "build"), VERIF_FAILFAST="1", VERIF_WORKERS=str(max(2, 8 // jobs)),
                   PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1",
                   OPENCV_LOG_LEVEL="SILENT", TZ="UTC", VERIF_REPLAYS="/tmp/mut_replays_%s_%d" % (pid, j))
        while True:
            try:
                f, what, src = q.get_nowait()
            except queue.Empty:
                break
            path = os.path.join(root, f)
            old = open(path).read()
            open(path, "w").write(src)
            p = subprocess.Popen(["/opt/venv/bin/python", "-c", "import sys; sys.path.insert(0, 'tools'); import vlib; sys.exit(vlib.main('%s'))" % pid],
                                 cwd=VERIF, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
            try:
                out = p.communicate(timeout=600)[0]
                rc = p.returncode
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                rc, out = 99, ""
            open(path, "w").write(old)
            with lock:
                if rc == 0:
                    stats["missed"] += 1
                    print("MISSED %s %s" % (f, what), flush=True)
                else:
                    stats["caught"] += 1
                    if rc != 1:
                        print("ODD rc=%d %s %s %s" % (rc, f, what, out[-200:].replace("\n", " ")), flush=True)
        shutil.rmtree(root, ignore_errors=True)

    ts = [threading.Thread(target=work, args=(j,)) for j in range(jobs)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    print(pid, stats, flush=True)


main()
