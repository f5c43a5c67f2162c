"""Mutation run (development aid, not a check): python3 tools/mutate.py PID FILE[:funcs,comma] N [seed]
Copies /repo and /verif to a scratch directory, applies one random AST mutation at a time to FILE and reports which the check misses."""
import ast, os, random, shutil, subprocess, sys, json, tempfile

import warnings
warnings.simplefilter("ignore")
pid, target, n = sys.argv[1], sys.argv[2], int(sys.argv[3])
seed = int(sys.argv[4]) if len(sys.argv) > 4 else 0
rel, _, fns = target.partition(":")
fns = set(fns.split(",")) if fns else None
tmp = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
subprocess.run(["cp", "-a", os.environ.get("VP_REPO", "/repo"), tmp + "/repo"], check=True)
subprocess.run(["cp", "-a", os.path.dirname(os.path.dirname(os.path.abspath(__file__))), tmp + "/verif"], check=True)
src = open(os.environ.get("VP_REPO", "/repo") + "/" + rel, encoding="utf-8").read()
tree = ast.parse(src)
lines = src.splitlines(keepends=True)
lb = [l.encode() for l in lines]
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "=="}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*"}
sites = []


def seg(node):
    return ast.get_source_segment(src, node)


def walk(node, fn, skip):
    for c in ast.iter_child_nodes(node):
        f = fn
        if isinstance(c, (ast.FunctionDef,)):
            f = c.name
        if isinstance(c, ast.If) and isinstance(c.test, ast.Compare) and seg(c.test) and "__name__" in seg(c.test):
            continue
        if isinstance(c, (ast.Raise, ast.Assert, ast.JoinedStr)):
            continue
        if isinstance(c, ast.arguments):
            continue
        if fn and (fns is None or fn in fns):
            if isinstance(c, ast.BinOp) and type(c.op) in BIN:
                sites.append((c, "%s %s %s" % ("(" + seg(c.left) + ")", BIN[type(c.op)], "(" + seg(c.right) + ")"), fn))
            if isinstance(c, ast.Compare) and len(c.ops) == 1 and type(c.ops[0]) in CMP:
                sites.append((c, "%s %s %s" % (seg(c.left), CMP[type(c.ops[0])], seg(c.comparators[0])), fn))
            if isinstance(c, ast.Constant) and isinstance(c.value, (int, float)) and not isinstance(c.value, bool):
                sites.append((c, repr(c.value + 1) if c.value != 1 else "2", fn))
            if isinstance(c, ast.Constant) and isinstance(c.value, bool):
                sites.append((c, repr(not c.value), fn))
            if isinstance(c, ast.UnaryOp) and isinstance(c.op, (ast.USub, ast.Not)):
                sites.append((c, seg(c.operand), fn))
            if isinstance(c, (ast.If, ast.While)):
                sites.append((c.test, "not (%s)" % seg(c.test), fn))
            if isinstance(c, ast.BoolOp):
                o = " or " if isinstance(c.op, ast.And) else " and "
                sites.append((c, o.join("(%s)" % seg(v) for v in c.values), fn))
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ("exp", "log", "sqrt", "maximum", "minimum", "cdf", "pdf", "floor", "ceil", "shift", "any", "all"):
                alt = {"exp": "expm1", "log": "log1p", "sqrt": "abs", "maximum": "minimum", "minimum": "maximum", "cdf": "pdf", "pdf": "cdf", "floor": "ceil", "ceil": "floor", "shift": None, "any": "all", "all": "any"}[c.func.attr]
                if alt:
                    s = seg(c.func)
                    sites.append((c.func, s[:-len(c.func.attr)] + alt, fn))
        walk(c, f, skip)


walk(tree, None, False)
rng = random.Random(seed)
rng.shuffle(sites)
done = miss = 0
for node, new, fn in sites:
    if done >= n:
        break
    a, b = node.lineno - 1, node.end_lineno - 1
    pre = b"".join(lb[:a]) + lb[a][:node.col_offset]
    post = lb[b][node.end_col_offset:] + b"".join(lb[b + 1:])
    txt = pre + new.encode() + post
    try:
        ast.parse(txt)
    except SyntaxError:
        continue
    open(tmp + "/repo/" + rel, "wb").write(txt)
    done += 1
    env = {**os.environ, "VP_REPO": tmp + "/repo"}
    p = subprocess.run([tmp + "/verif/check", pid], capture_output=True, text=True, env=env)
    tag = "caught" if p.returncode == 1 else "MISSED" if p.returncode == 0 else "ERR%d" % p.returncode
    nfi = " (nfi)" if "no-failing-input-found" in p.stdout else ""
    if tag != "caught" or nfi:
        miss += tag != "caught"
        print("%s%s %s:%d  %s  ->  %s | %s" % (tag, nfi, fn, node.lineno, seg(node)[:90].replace("\n", " "), new[:90].replace("\n", " "), p.stdout.strip().splitlines()[-1] if p.stdout.strip() else p.stderr[-200:]), flush=True)
print("%s %s: %d mutants, %d missed" % (pid, target, done, miss), flush=True)
shutil.rmtree(tmp)
