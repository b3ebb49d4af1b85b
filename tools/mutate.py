"""Mutation analysis of the checks: python3 tools/mutate.py OUT.jsonl [--file ff_lib] [--func NAME] [-j 4] [--sample N] [--seed S]

Every mutant is one small change of one expression or statement of /repo/src/ff, applied to a scratch copy. The checks
related to the mutated function run on it (first with a small budget, then the usual one) until one reports a violation;
mutants no check reports are listed as survivors, to be read by hand (many are equivalent)."""
import argparse, ast, copy, json, os, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
import threading

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REL = {
    "permutation_to_matrix": "C09 C07", "pauli_matrices": "C02 C01 C22", "generate_pauli_group": "C02 C30 C22",
    "jordan_wigner_lowering": "C01", "jordan_wigner_alphas": "C01", "jordan_wigner_majoranas": "C01",
    "rotate_operators": "C06 C30 C29", "_perform_rotation": "C06 C29", "build_V": "C03 C08", "build_H": "C03",
    "random_FF_rotation": "C25 C27", "random_FF_state": "C25 C27 C30", "random_H_generator": "C25 C27",
    "kitaev_chain": "C03", "build_Omega": "C10 C01", "build_reordering_xx_to_xp": "C10", "build_K": "C10 C07",
    "is_symp": "C09", "check_canonical_form": "C09", "generate_gaussian_state": "C04 C30", "build_op": "C03 C04 C29",
    "compute_cov_matrix": "C05 C23", "correlation_matrix": "C05", "compute_2corr_matrix": "C05",
    "compute_algebra_S": "C01 C06 C04", "is_matchgate": "C09", "eigh_sp": "C07 C08", "eigv_sp": "C08",
    "eigm_sp_can": "C08", "eigm_sp": "C08", "sgn": "C11", "pf": "C11", "hf": "C12", "pt": "C12", "dt": "C11",
    "dt_eigen": "C11 C13", "_as_matrix": "C11 C12", "plot_graph_with_edge_weights": "C31",
    "_draw_labeled_multigraph": "C31", "_draw_labeled_graph": "C31", "plot_planar_embedding": "C31",
    "generate_random_planar_graph": "C16 C27", "dual_graph_H": "C16 C14", "faces": "C16 C14", "complete_face": "C14",
    "count_perfect_matchings": "C15 C13", "count_perfect_matchings_planar": "C13", "find_perfect_matchings_brute": "C15",
    "pfo_algorithm": "C14 C13", "compute_tree_depth": "C16 C30", "random_qubit_state": "C26 C27 C30",
    "random_qubit_pure_state": "C26 C27 C30", "random_CHP_state": "C26 C27 C30", "random_FF_state_randH": "C25 C27 C30",
    "random_FF_state_rotPDF": "C25 C27 C30", "random_FF_pure_state_W0": "C25 C27 C30",
    "random_FF_pure_state_WN": "C25 C27 C30", "random_FF_pure_state_CN": "C25 C27 C30", "get_orthogonal_vectors": "C28",
    "build_unitary_path": "C28", "build_linear_path": "C28", "path": "C28", "print_custom": "C19", "_print": "C19",
    "_round_and_zero": "C19", "clean": "C19", "formatted_output": "C19", "generate_random_bitstring": "C26",
    "kron_plus": "C10", "cast_to_pdf": "C18 C20", "cast_to_density_matrix": "C18", "analyze_pdf": "C31 C30",
    "partial_trace_diagblocksum": "C17 C30", "partial_trace_blockTr": "C17 C30", "stabilizer_distribution": "C22",
    "SRE": "C22", "renyi_entropy": "C21", "linear_entropy": "C21", "cov_distribution": "C23",
    "total_variation_distance": "C20", "trace_distance": "C24", "relative_entropy": "C20", "bhattacharyya_coeff": "C20",
    "jensen_shannon_divergence": "C20", "FAF": "C23", "sfunction": "C07 C08", "nonzero": "C08"}
TAIL = "C29 C30"
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq],
       ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Div],
       ast.Mod: [ast.FloorDiv], ast.Pow: [ast.Mult], ast.MatMult: []}
NAMES = {"zeros": ["ones"], "ones": ["zeros"], "real": ["imag"], "imag": ["real"], "max": ["min"], "min": ["max"],
         "sum": ["max"], "eigvals": ["eigvalsh"], "argsort": [], "flip": ["asarray"], "abs": ["asarray", "real"],
         "triu": ["tril", "asarray"], "sqrt": ["abs"], "randn": ["rand"], "zeros_like": ["ones_like"], "sort": ["asarray"],
         "sign": ["asarray"], "multiply": ["add"], "conj": [], "allclose": ["array_equal"], "square": ["abs"],
         "round": ["floor"], "add_edge": [], "diag": [], "log": ["log2"], "log2": ["log"], "kron": []}


def mutants(path, mod):
    src = open(path).read()
    tree = ast.parse(src)
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.Module, ast.ClassDef)) and n.body:
            b = n.body[0]
            if isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant):
                doc.add(id(b)); doc.add(id(b.value))
    out = []

    def emit(func, node, kind, do, undo):
        do()
        text = ast.unparse(tree)
        undo()
        out.append(dict(file=mod, func=func, line=node.lineno, kind=kind, src=text, old=ast.unparse(node)[:110]))

    def setter(obj, field, val):
        old = getattr(obj, field)
        return (lambda: setattr(obj, field, val)), (lambda: setattr(obj, field, old))

    def is_print(n):
        return (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)
                and isinstance(n.value.func, ast.Name) and n.value.func.id == "print")

    def walk(node, func):
        if id(node) in doc or is_print(node) or isinstance(node, ast.JoinedStr):
            return
        if isinstance(node, ast.FunctionDef):
            func = node.name
        if func:
            if isinstance(node, ast.Compare):
                for k, op in enumerate(node.ops):
                    for new in CMP.get(type(op), []):
                        o = node.ops[k]
                        def do(k=k, new=new): node.ops[k] = new()
                        def undo(k=k, o=o): node.ops[k] = o
                        emit(func, node, "cmp " + new.__name__, do, undo)
            if isinstance(node, (ast.BinOp, ast.AugAssign)):
                for new in BIN.get(type(node.op), []):
                    emit(func, node, "op " + new.__name__, *setter(node, "op", new()))
                if isinstance(node, ast.BinOp) and isinstance(node.op, (ast.MatMult, ast.Sub, ast.Div)):
                    l, r = node.left, node.right
                    def do(): node.left, node.right = r, l
                    def undo(): node.left, node.right = l, r
                    emit(func, node, "swap operands", do, undo)
            if isinstance(node, ast.BoolOp):
                emit(func, node, "boolop", *setter(node, "op", ast.Or() if isinstance(node.op, ast.And) else ast.And()))
                for k in range(len(node.values)):
                    o = list(node.values)
                    if len(o) > 1:
                        def do(k=k, o=o): node.values = o[:k] + o[k + 1:]
                        def undo(o=o): node.values = o
                        emit(func, node, "drop operand %d" % k, do, undo)
            if isinstance(node, (ast.If, ast.IfExp, ast.While)):
                t = node.test
                vals = ["not"] if isinstance(node, ast.While) else [True, False]
                for v in vals:
                    if v != "not":
                        emit(func, node.test, "cond %s" % v, *setter(node, "test", ast.Constant(v)))
            if isinstance(node, ast.Constant) and not isinstance(node.value, str) and node.value is not None:
                v = node.value
                if isinstance(v, bool): news = [not v]
                elif isinstance(v, int): news = [v + 1] + ([v - 1] if v else [])
                elif isinstance(v, float): news = [v * 2, v / 2] if v > 1e-3 else [v * 1e4, v / 1e4]
                elif isinstance(v, complex): news = [-v, v.imag]
                else: news = []
                for w in news:
                    emit(func, node, "const %r" % (w,), *setter(node, "value", w))
            if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.USub, ast.Not)):
                emit(func, node, "drop unary", *setter(node, "op", ast.UAdd() if isinstance(node.op, ast.USub) else ast.UAdd()))
            if isinstance(node, ast.Attribute) and node.attr in NAMES:
                for new in NAMES[node.attr]:
                    emit(func, node, "name " + new, *setter(node, "attr", new))
            if isinstance(node, ast.Call) and len(node.args) == 2 and not node.keywords:
                a = node.args
                f = ast.unparse(node.func)
                if f not in ("isinstance", "print", "np.allclose", "max", "min", "range"):
                    def do(): node.args = [a[1], a[0]]
                    def undo(): node.args = a
                    emit(func, node, "swap args", do, undo)
            if isinstance(node, ast.Call) and node.keywords:
                ks = node.keywords
                if ast.unparse(node.func) not in ("print",):
                    for k in range(len(ks)):
                        def do(k=k): node.keywords = ks[:k] + ks[k + 1:]
                        def undo(): node.keywords = ks
                        emit(func, node, "drop keyword %s" % ks[k].arg, do, undo)
        for field, val in ast.iter_fields(node):
            items = val if isinstance(val, list) else [val]
            for k, c in enumerate(items):
                if not isinstance(c, ast.AST):
                    continue
                if func and isinstance(c, ast.expr):
                    # drop .conj(), .T, .real, .copy(), .transpose(), abs()
                    new = None
                    if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and not c.args and \
                            c.func.attr in ("conj", "copy", "transpose", "flatten", "tolist"):
                        new = c.func.value
                    elif isinstance(c, ast.Attribute) and c.attr in ("T", "real"):
                        new = c.value
                    elif isinstance(c, ast.Call) and len(c.args) == 1 and ast.unparse(c.func) in (
                            "abs", "np.abs", "np.sqrt", "np.real", "sorted", "list", "set", "int", "clean", "np.diag"):
                        new = c.args[0]
                    if new is not None:
                        if isinstance(val, list):
                            def do(k=k, new=new): val[k] = new
                            def undo(k=k, c=c): val[k] = c
                        else:
                            do, undo = setter(node, field, new)
                        emit(func, c, "drop wrapper", do, undo)
                if func and isinstance(c, ast.stmt) and isinstance(val, list) and id(c) not in doc and not is_print(c) \
                        and not isinstance(c, (ast.FunctionDef, ast.Return, ast.Pass, ast.Import, ast.ImportFrom)):
                    def do(k=k): val[k] = ast.Pass(lineno=c.lineno, col_offset=0)
                    def undo(k=k, c=c): val[k] = c
                    emit(func, c, "delete", do, undo)
                walk(c, func)
    walk(tree, None)
    base = ast.unparse(tree)
    seen, res = set(), []
    for m in out:
        if m["src"] != base and m["src"] not in seen:
            seen.add(m["src"])
            res.append(m)
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--file")
    ap.add_argument("--func")
    ap.add_argument("-j", type=int, default=4)
    ap.add_argument("--sample", type=int)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--count", action="store_true")
    ap.add_argument("--deep", help="results of an earlier run: only its survivors, with more cases and checks")
    a = ap.parse_args()
    mods = [a.file] if a.file else ["ff_lib", "ff_combinatorics", "ff_graph_theory", "ff_utils", "ff_distance_measures",
                                    "ff_random_states"]
    ms = [m for mod in mods for m in mutants("/repo/src/ff/%s.py" % mod, mod)]
    if a.func:
        ms = [m for m in ms if m["func"] in a.func.split(",")]
    if a.sample and len(ms) > a.sample:
        ms = random.Random(a.seed).sample(ms, a.sample)
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            d = json.loads(l)
            done.add((d["file"], d["line"], d["kind"], d["old"]))
    ms = [m for m in ms if (m["file"], m["line"], m["kind"], m["old"]) not in done]
    if a.deep:
        left = {(d["file"], d["line"], d["kind"], d["old"]) for d in map(json.loads, open(a.deep)) if "killed" not in d}
        ms = [m for m in ms if (m["file"], m["line"], m["kind"], m["old"]) in left]
    print(len(ms), "mutants", flush=True)
    if a.count:
        from collections import Counter
        print(Counter(m["func"] for m in ms))
        return
    lock, local = threading.Lock(), threading.local()
    os.makedirs("/tmp/mut", exist_ok=True)
    counter = iter(range(10**6))

    def one(m):
        if not hasattr(local, "d"):
            with lock:
                local.d = "/tmp/mut/%d_%d" % (os.getpid(), next(counter))
            shutil.rmtree(local.d, ignore_errors=True)
            subprocess.run(["cp", "-a", "/repo", local.d], check=True)
        path = "%s/src/ff/%s.py" % (local.d, m["file"])
        orig = open(path).read()
        open(path, "w").write(m["src"])
        res = {k: m[k] for k in ("file", "func", "line", "kind", "old")}
        try:
            rel = REL.get(m["func"], "").split()
            plan = [(c, "1") for c in rel]
            if a.deep:
                plan = [(c, "4") for c in rel] + [(c, "4") for c in TAIL.split() if c not in rel]
            for c, q in plan:
                e = dict(os.environ, FF_REPO=local.d, PBT_QUICK=q, PBT_FAST="1", PBT_CPUS="1")
                try:
                    p = subprocess.run([ROOT + "/check", c], env=e, capture_output=True, text=True, timeout=600)
                    rc, out = p.returncode, p.stdout + p.stderr
                except subprocess.TimeoutExpired:
                    rc, out = 124, ""
                if rc == 1 and "VIOLATION property" not in out:
                    rc = 99
                if rc != 0:
                    res.update(killed=c, q=q, rc=rc)
                    if rc != 1:
                        res["out"] = out[-300:]
                    break
        finally:
            open(path, "w").write(orig)
        with lock:
            open(a.out, "a").write(json.dumps(res) + "\n")
            if "killed" not in res or res["rc"] != 1:
                print(json.dumps(res), flush=True)

    with ThreadPoolExecutor(a.j) as ex:
        list(ex.map(one, ms))
    for w in os.listdir("/tmp/mut"):
        if w.startswith("%d_" % os.getpid()):
            shutil.rmtree("/tmp/mut/" + w, ignore_errors=True)


main()
