"""Loop rule for symbolic trip counts.

`for i in range(lo, hi): ... A[.., i + c, ..] = e ...` with a trip count that is not a literal is verified by
executing the body once for an arbitrary iteration (the one that writes the generic element the contract
talks about):  elements already written by earlier iterations are unconstrained (havoc) values that equal the
array's final contents, elements not written yet have their old value.  When an element is written by two
consecutive iterations (A[i-1] and A[i]) both are executed, the first from a state in which A[i-1] has an
unconstrained intermediate value.  Names assigned in the body carry no
information out of the loop or from one iteration to the next (using one is 'unsupported', never 'proved').
Loops outside that shape (break/return/else, growing lists, attribute stores) are left alone, so that a
symbolic trip count there is reported as unsupported.
"""
import ast
from . import terms as t
from . import npmodel as nm
from .npmodel import GArr
from .sym import Sym, SymBool, And, Eq, Or, Not, Ctx, term, wrap, Unsupported

GROW = {"append", "extend", "update", "insert", "pop", "setdefault", "add", "remove", "clear", "sort", "reverse", "fill"}


def gite(c, a, b):
    """if-then-else on an index condition, decided where the current facts decide it"""
    return nm.gite(SymBool(nm.quick(term(c))), a, b)


class Poison:
    _vp_poison = True

    def _no(self, *a, **k):
        raise Unsupported("value carried across iterations of a symbolic loop (needs an invariant)")
    __getattr__ = __call__ = __getitem__ = __bool__ = __iter__ = __len__ = __float__ = __int__ = __index__ = __hash__ = _no
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __pow__ = __rpow__ = __neg__ = _no
    __setitem__ = __iadd__ = __imul__ = __isub__ = __matmul__ = __rmatmul__ = __mod__ = __and__ = __or__ = __invert__ = __abs__ = _no
    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = _no
    __array_ufunc__ = None


POISON = Poison()


def _stores(body, var):
    """[(array name, axis, offset)] or None when the loop is outside the rule; and the assigned names"""
    stores, names = set(), set()
    for node in ast.walk(ast.Module(body, [])):
        if isinstance(node, ast.Name) and isinstance(node.ctx, ast.Store):
            names.add(node.id)
    for node in ast.walk(ast.Module(body, [])):
        if isinstance(node, (ast.Break, ast.Return, ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal, ast.Delete, ast.With)):
            if isinstance(node, ast.Return) and any(node in list(ast.walk(f)) for b in body for f in ast.walk(b) if isinstance(f, (ast.FunctionDef, ast.Lambda))):
                continue
            return None
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in GROW:
            return None
        if isinstance(node, ast.Name) and isinstance(node.ctx, ast.Store):
            names.add(node.id)
        if isinstance(node, ast.FunctionDef):
            names.add(node.name)
        if isinstance(node, ast.Attribute) and isinstance(node.ctx, ast.Store):
            return None
        if isinstance(node, ast.Subscript) and isinstance(node.ctx, ast.Store):
            if not isinstance(node.value, ast.Name):
                return None
            if node.value.id in names:
                continue                 # array created in the body (poisoned before the loop, so never one from outside)
            ix = node.slice.elts if isinstance(node.slice, ast.Tuple) else [node.slice]
            hit = None
            for ax, e in enumerate(ix):
                off = _offset(e, var)
                if off is not None:
                    if hit is not None:
                        return None
                    hit = (node.value.id, ax, off)
                elif any(isinstance(x, ast.Name) and x.id == var for x in ast.walk(e)):
                    return None
                elif isinstance(e, ast.Constant) and e.value is Ellipsis:
                    return None
            if hit is None:
                return None
            stores.add(hit)
    return stores, names


def _offset(e, var):
    if isinstance(e, ast.Name) and e.id == var:
        return 0
    if isinstance(e, ast.BinOp) and isinstance(e.left, ast.Name) and e.left.id == var and isinstance(e.right, ast.Constant) and isinstance(e.right.value, int):
        return e.right.value if isinstance(e.op, ast.Add) else -e.right.value if isinstance(e.op, ast.Sub) else None
    return None


def _while_shape(body, test):
    """(lists, counters, carried) of a while loop inside the rule, or None"""
    stores, appends, counters = {}, {}, {}
    for b in body:
        for node in ast.walk(b):
            if isinstance(node, (ast.Break, ast.Continue, ast.Return, ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal, ast.Delete, ast.With, ast.FunctionDef, ast.Try)):
                return None
            if isinstance(node, (ast.Attribute, ast.Subscript)) and isinstance(node.ctx, ast.Store):
                return None
            if isinstance(node, ast.Name) and isinstance(node.ctx, ast.Store):
                stores[node.id] = stores.get(node.id, 0) + 1
        if isinstance(b, ast.Expr) and isinstance(b.value, ast.Call) and isinstance(b.value.func, ast.Attribute) and b.value.func.attr == "append" and isinstance(b.value.func.value, ast.Name):
            x = b.value.func.value.id
            appends[x] = appends.get(x, 0) + 1
        if isinstance(b, ast.AugAssign) and isinstance(b.op, (ast.Add, ast.Sub)) and isinstance(b.target, ast.Name) and isinstance(b.value, ast.Constant) and type(b.value.value) is int:
            counters[b.target.id] = b.value.value if isinstance(b.op, ast.Add) else -b.value.value
        if isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name):
            v = b.targets[0].id
            off = _offset(b.value, v)
            if off:
                counters[v] = off
    uses = {}
    for b in list(body) + [test]:
        for node in ast.walk(b):
            if isinstance(node, ast.Name) and isinstance(node.ctx, ast.Load):
                uses[node.id] = uses.get(node.id, 0) + 1
    if not stores or any(c != 1 or uses.get(x) != 1 or x in stores for x, c in appends.items()):
        return None
    grow = sum(1 for b in body for node in ast.walk(b) if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in GROW)
    if grow != len(appends):
        return None
    counters = {k: v for k, v in counters.items() if stores[k] == 1}
    return tuple(sorted(appends)), tuple(sorted(counters.items())), tuple(sorted(set(stores) - set(counters)))


class LoopTr(ast.NodeTransformer):
    def visit_While(self, node):
        """while loops that append one element per iteration to lists: see class While"""
        self.generic_visit(node)
        sh = None if node.orelse else _while_shape(node.body, node.test)
        if sh is None:
            return node
        lists, counters, carried = sh
        names = list(lists) + [c for c, _ in counters] + list(carried)
        w = "vp__w_%d_%d" % (node.lineno, node.col_offset)
        src = ast.parse("""
{w} = vp__While({lists!r}, {counters!r}, {carried!r}, locals())
while True:
    {names}, = {w}.state()
    {w}_go = {w}.test(lambda: None)
    if {w}_go == 0:
        break
    if {w}_go == 2:
        continue
    {names}, = {w}.body()
    {w}.done(({names},))
{names}, = {w}.final()
""".format(w=w, lists=lists, counters=counters, carried=carried, names=", ".join(names)))
        loop = src.body[1]
        loop.body[1].value.args[0].body = node.test
        loop.body[5:5] = node.body
        return [ast.copy_location(x, node) for x in src.body]

    def _rows(self, node):
        """`for label, row in frame.iterrows()`: see class Rows"""
        tg, it = node.target, node.iter
        if not (isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == "iterrows" and not it.args and not it.keywords and isinstance(tg, ast.Tuple) and len(tg.elts) == 2 and not node.orelse):
            return None
        names, written, grow, lone = set(), set(), {}, True
        for b in node.body:
            if isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name) and isinstance(b.value, ast.Call) and isinstance(b.value.func, ast.Attribute) \
                    and b.value.func.attr == "append" and b.value.args and isinstance(b.value.args[0], ast.Name) and b.value.args[0].id == b.targets[0].id:
                grow[b.targets[0].id] = grow.get(b.targets[0].id, 0) + 1
        stores = {}
        for x in ast.walk(ast.Module(node.body, [])):
            if isinstance(x, (ast.Break, ast.Return, ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal, ast.Delete, ast.With, ast.Try, ast.FunctionDef)):
                return None
            if isinstance(x, ast.Continue):
                lone = False
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in GROW and not (isinstance(x.func.value, ast.Name) and x.func.value.id in ("np", "numpy")):
                return None
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                return None
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                names.add(x.id)
                stores[x.id] = stores.get(x.id, 0) + 1
        for x in ast.walk(ast.Module(node.body, [])):
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store):
                if isinstance(x.value, ast.Name) and x.value.id in names:
                    continue
                if not (isinstance(x.value, ast.Attribute) and x.value.attr in ("at", "loc") and isinstance(x.slice, ast.Tuple) and len(x.slice.elts) == 2):
                    return None
                c = x.slice.elts[1]
                if isinstance(c, ast.Constant) and isinstance(c.value, str):
                    written.add((True, c.value))
                elif isinstance(c, ast.Name) and c.id not in names:
                    written.add((False, c.id))
                elif isinstance(c, ast.Attribute) and isinstance(c.value, ast.Name) and c.value.id not in names:
                    written.add((None, c.value.id + "." + c.attr))
                else:
                    return None
        grow = sorted(g for g, c in grow.items() if c == 1 and stores[g] == 1)
        if grow and not lone:
            return None
        names |= {x.id for x in ast.walk(tg) if isinstance(x, ast.Name)}
        names -= set(grow)
        w = "vp__r_%d_%d" % (node.lineno, node.col_offset)
        L, S = ast.Load(), ast.Store()
        gt = lambda c: ast.Tuple([ast.Name(g, c) for g in grow], c)
        call = lambda m, *a: ast.Call(ast.Attribute(ast.Name(w, L), m, L), list(a), [])
        poison = [ast.If(call("symbolic"), [ast.Assign([ast.Name(x, S)], ast.Name("vp__poison", L)) for x in sorted(names)], [])]
        init = ast.Assign([ast.Name(w, S)], ast.Call(ast.Name("vp__Rows", L), [it, ast.Call(ast.Name("locals", L), [], []), ast.Constant(tuple(sorted(written, key=lambda w: (str(w[0]), w[1])))), ast.Constant(tuple(grow))], []))
        node.iter = call("rows")
        if grow:
            node.body = [ast.Assign([gt(S)], call("grown"))] + node.body + [ast.Expr(call("done", gt(L)))]
        out = [init] + poison + [node] + ([ast.Assign([gt(S)], call("final"))] if grow else []) + poison
        return [ast.copy_location(x, node) for x in out]

    def visit_For(self, node):
        self.generic_visit(node)
        tg = node.target
        r = self._rows(node)
        if r is not None:
            return r
        r = self._stores(node)
        return self._map(node) or node if r is node else r

    def _map(self, node):
        """a loop that appends one element per iteration to lists and carries nothing else: the lists gain the elements of the body as a
        function of the loop variables (a name read before the body assigns it is unbound there, so nothing is carried)"""
        names, appends, nested = set(), {}, 0
        if node.orelse:
            return None
        for b in node.body:
            for x in ast.walk(b):
                if isinstance(x, (ast.Break, ast.Continue, ast.Return, ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal, ast.Delete, ast.With, ast.FunctionDef, ast.Lambda, ast.Try)):
                    return None
                if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, ast.Store):
                    return None
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    names.add(x.id)
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in GROW and not (isinstance(x.func.value, ast.Name) and x.func.value.id in ("np", "numpy")):
                    nested += 1
            if isinstance(b, ast.Expr) and isinstance(b.value, ast.Call) and isinstance(b.value.func, ast.Attribute) and b.value.func.attr == "append" and isinstance(b.value.func.value, ast.Name):
                x = b.value.func.value.id
                appends[x] = appends.get(x, 0) + 1
        if not appends or nested != len(appends) or set(appends) & names:
            return None
        loads = {}
        for b in node.body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and x.id in appends:
                    loads[x.id] = loads.get(x.id, 0) + 1
        if any(c != 1 for c in loads.values()):
            return None
        import copy
        names |= {x.id for x in ast.walk(node.target) if isinstance(x, ast.Name)}
        lists = sorted(appends)
        w = "vp__m_%d_%d" % (node.lineno, node.col_offset)
        src = ast.parse("""
{w} = None
if vp__symbolic_loop({w}):
    def {w}_f({w}_x):
        {lists}, = vp__recorders({k})
        return ({lists},)
    {lists}, = vp__maploop({w}, {w}_f, ({lists},))
    {poison}
else:
    pass
""".format(w=w, lists=", ".join(lists), k=len(lists), poison="; ".join("%s = vp__poison" % x for x in sorted(names)) or "pass")).body
        src[0].value = node.iter
        f = src[1].body[0]
        f.body[1:1] = [ast.Assign([copy.deepcopy(node.target)], ast.Name(w + "_x", ast.Load()))] + copy.deepcopy(node.body)
        node.iter = ast.Name(w, ast.Load())
        src[1].orelse = [node]
        return [ast.copy_location(x, node) for x in src]

    def _stores(self, node):
        tg = node.target
        var = None
        if not node.orelse and all(isinstance(b, ast.Expr) and isinstance(b.value, ast.Call) and isinstance(b.value.func, ast.Name) and b.value.func.id == "print" for b in node.body):
            node.iter = ast.Call(ast.Name("vp__printed", ast.Load()), [node.iter], [])
            return node
        if isinstance(tg, ast.Name) and isinstance(node.iter, ast.Call) and isinstance(node.iter.func, ast.Name) and node.iter.func.id in ("range", "prange"):
            var = tg.id
        elif isinstance(tg, ast.Tuple) and isinstance(tg.elts[0], ast.Name) and isinstance(node.iter, ast.Call) and isinstance(node.iter.func, ast.Name) and node.iter.func.id == "enumerate":
            var = tg.elts[0].id
        if var is None or node.orelse:
            return node
        r = _stores(node.body, var)
        if r is None or not r[0]:
            return node
        stores, names = r
        by = {}
        for nme, ax, off in stores:
            by.setdefault(nme, []).append((ax, off))
        for v in by.values():
            v.sort()
            if len(v) > 2 or len({ax for ax, _ in v}) > 1 or len(v) == 2 and v[1][1] - v[0][1] != 1:
                return node              # an element is written by one iteration, or by two consecutive ones
        stores = {(nme, v[0][0], v[-1][1], len(v)) for nme, v in by.items()}
        if names & set(by) or var in names:
            return node
        names |= {x.id for x in ast.walk(tg) if isinstance(x, ast.Name)}
        tmp = "vp__it_%d_%d" % (node.lineno, node.col_offset)
        L, S = ast.Load(), ast.Store()

        def poison():
            if not names:
                return []
            return [ast.If(ast.Call(ast.Name("vp__symbolic_loop", L), [ast.Name(tmp, L)], []),
                           [ast.Assign([ast.Name(x, S)], ast.Name("vp__poison", L)) for x in sorted(names)], [])]
        new_iter = ast.Call(ast.Name("vp__loop", L), [ast.Name(tmp, L), ast.Call(ast.Name("locals", L), [], []), ast.Constant(tuple(sorted(stores)))], [])
        out = [ast.Assign([ast.Name(tmp, S)], node.iter)] + poison()
        node.iter = new_iter
        out += [node] + poison()
        return [ast.copy_location(x, node) for x in out]


class Recorder:
    _vp_symbolic = True

    def __init__(self):
        self.vals = []

    def append(self, v):
        self.vals.append(v)


class While:
    """Rule for `while cond: ...; lst.append(e); ...; x = g(i); i += c` with a symbolic trip count n.

    The body is executed for an arbitrary iteration p (0 <= p < n): counters have the value i0 + c p, every other name
    assigned in the body has the value iteration p - 1 gave it (obtained by executing the body for p - 1 from counters
    only: a name whose new value depends on its own old value is outside the rule), or, for p = 0, its value before the
    loop.  The condition holds in iteration p.  Afterwards the lists have n more elements; the one at p is known, all others
    are unconstrained.  ctx.store["while_p"] = "last" makes p the last iteration and assumes that the condition is false
    after it; a term there is the name of the iteration; otherwise p is a fresh integer.

    A loop that appends to no list is unrolled, unless the contract annotates it: ctx.store["while_inv"] = inv, where inv(i)
    gives the values of carried names at the start of iteration i.  Obligations: inv(0) is the state before the loop, and the
    body takes inv(p) to inv(p + 1).  Afterwards the state is inv(n), the condition is false there and held at inv(n - 1)."""

    def __init__(self, lists, counters, carried, loc):
        self.lists, self.counters, self.carried = lists, dict(counters), carried
        self.init = {k: loc.get(k, POISON) for k in lists + tuple(self.counters) + carried}
        self.names = lists + tuple(self.counters) + carried
        self.cur = dict(self.init)
        self.stage = "start"
        self.known = self.inv = None

    def _tuple(self):
        return tuple(self.cur[k] for k in self.names)

    def state(self):
        return self._tuple()

    body = state

    def _set(self, p, carried):
        for k in self.lists:
            self.cur[k] = Recorder()
        for k, c in self.counters.items():
            self.cur[k] = self.init[k] + c * p
        for k in self.carried:
            self.cur[k] = carried[k] if carried is not None else POISON

    def test(self, cond):
        if not self.lists and self.stage in ("start", "concrete"):
            inv = Ctx.cur.store.get("while_inv")
            if inv is None or self.stage == "concrete":
                self.stage = "concrete"
                return 1 if bool(cond()) else 0
            return self._invariant(inv, cond)
        if self.inv is not None:
            if self.stage == "p":
                Ctx.cur.assume(cond())
                return 1
            if self.stage == "last":
                Ctx.cur.assume(cond())       # the condition held in the last iteration
                self._at(self.n, "exit")
                return 2
            Ctx.cur.assume(Not(cond()))
            return 0
        if self.stage in ("start", "concrete"):
            c = cond()
            ct = nm.quick(term(c)) if isinstance(c, (Sym, SymBool)) else None
            if ct is None or ct in (t.TRUE, t.FALSE):
                self.stage = "concrete"
                return 1 if bool(c) else 0
            if self.stage == "concrete":
                raise Unsupported("while loop becomes symbolic after some iterations")
            if not bool(c):
                self.stage = "concrete"
                return 0
            if any(not isinstance(self.init[k], list) for k in self.lists):
                raise Unsupported("while loop appends to something that is not a list")
            ctx = Ctx.cur
            self.n = Sym(ctx.fresh("trips", "I"))
            mode = ctx.store.get("while_p")
            self.last = mode == "last"
            self.p = self.n - 1 if self.last else mode if isinstance(mode, Sym) else Sym(ctx.fresh("iter", "I"))
            ctx.assume(And(self.p >= 0, self.p < self.n))
            ctx.store.setdefault("whiles", []).append(self)
            if bool(self.p == 0):
                self._set(Sym(t.const(0)), self.init)
                self.stage = "p"
            else:
                self._set(self.p - 1, None)
                self.stage = "before"
            return 1
        if self.stage == "p":
            Ctx.cur.assume(cond())
            return 1
        if self.stage == "exit":
            if self.last:
                Ctx.cur.assume(Not(cond()))
            return 0
        raise Unsupported("while rule")

    def _invariant(self, inv, cond):
        """loop without lists: inv(i) gives the values of the carried names before iteration i (contract's annotation)"""
        ctx = Ctx.cur
        self.inv = inv
        self._check("loop invariant holds initially", self.init, inv(Sym(t.const(0))))
        self.n = Sym(ctx.fresh("trips", "I"))
        self.p = Sym(ctx.fresh("iter", "I"))
        ctx.store.setdefault("whiles", []).append(self)
        ctx.assume(self.n >= 0)
        if bool(self.n >= 1):
            ctx.assume(And(self.p >= 0, self.p < self.n))
            self._at(self.p, "p")
        else:
            self._at(Sym(t.const(0)), "exit")
        return 2

    def _at(self, i, stage):
        self._set(i, {**{k: POISON for k in self.carried}, **self.inv(i)})
        self.stage = stage

    def _check(self, label, vals, want):
        for k, v in want.items():
            a, b = vals[k], v
            a, b = (x.o if hasattr(x, "o") else x for x in (a, b))
            Ctx.cur.lemma("%s (%s)" % (label, k), Eq(Sym(term(a)), Sym(term(b))))

    def done(self, vals):
        vals = dict(zip(self.names, vals))
        if self.inv is not None:
            for k, c in self.counters.items():
                if term(vals[k]) is not term(self.cur[k] + c):
                    raise Unsupported("loop counter")
            self._check("loop invariant is preserved", vals, self.inv(self.p + 1))
            self._at(self.n - 1, "last")
            return
        if self.stage == "concrete":
            self.cur = vals
            return
        if any(len(vals[k].vals) != 1 for k in self.lists):
            raise Unsupported("while loop does not append exactly one element per iteration")
        for k, c in self.counters.items():
            if term(vals[k]) is not term(self.cur[k] + c):
                raise Unsupported("loop counter")
        g = {k: vals[k] for k in self.carried}
        if self.stage == "before":
            self._set(self.p, g)
            self.stage = "p"
        else:
            self.known = {k: vals[k].vals[0] for k in self.lists}
            self._set(self.n, g if self.last else None)
            self.stage = "exit"

    def final(self):
        from .lift import SymList
        from . import dates as D
        if self.stage == "concrete" or self.inv is not None:
            return self._tuple()
        for k in self.lists:
            v = self.known[k]
            tag = "while_" + str(Ctx.cur.fresh("l", "I").args[0])

            def e(ix, v=v, tag=tag):
                x = t.mk("sel", (tag, ix), "I" if isinstance(v, D.SymDate) else "R")
                other = D.SymDate.from_ordinal(Sym(x)) if isinstance(v, D.SymDate) else wrap(x)
                if bool(SymBool(nm.quick(term(Sym(ix) == self.p)))):
                    return v
                return other
            tail = SymList(self.n, e)
            self.cur[k] = tail if not self.init[k] else self.init[k] + tail
        return self._tuple()


class Rows:
    """Rule for `for label, row in frame.iterrows(): ... frame.at[label, column] = e ...; array = np.append(array, e)` with any number of rows.

    The body is executed for one arbitrary row p.  The columns it writes have unconstrained values in the rows before p (equal to their final
    contents) and their old values from p on; the row given to the body holds the values from before the loop.  Arrays that grow by one element per
    row have an invariant given by the contract: ctx.store["rows_grow"](loop, name, array before the loop) is a function of (value of a column in
    a row, row) that gives the element appended for that row; obligation: the body appends it.  Nothing else is carried from row to row."""

    def __init__(self, it, loc, written, grow):
        from .lift import IterRows
        self.it, self.grow = it, grow
        self.init = {g: loc.get(g, POISON) for g in grow}
        self.cur = dict(self.init)
        self.sym = isinstance(it, IterRows) and not isinstance(nm.norm_dim(it.df._vp_len()), int)
        if not self.sym:
            return
        self.df = it.df
        if self.df.mask_rows():
            raise Unsupported("loop over selected rows")
        self.n = Sym(nm.dim_term(it.df._vp_len()))
        self.written = []
        for const, c in written:
            v = c if const else loc.get(c) if const is False else getattr(loc.get(c.split(".")[0]), c.split(".")[1])
            self.written += [str(x) for x in v] if not isinstance(v, str) and v is not None else [v]

    def symbolic(self):
        return self.sym

    def hav(self, c):
        """final contents of a column"""
        return self.havs[c] if c in self.havs else (lambda ix: self.snap[c].at(ix))

    def rows(self):
        if not self.sym:
            yield from self.it
            return
        from .lift import Row, RowLabel
        from . import dates as D
        ctx = Ctx.cur
        cols = {c: nm.freeze(v) for c, v in self.df.cols.items()}
        for c in self.written:
            if c not in self.df.cols:            # created by the loop
                self.df.cols[c] = GArr((self.df._vp_len(),), lambda ix: wrap(t.mk("special", ("nan",), "R")))
        self.snap = {c: nm.freeze(v) for c, v in self.df.cols.items()}
        self.havs = {}
        tag = str(ctx.fresh("rows", "I").args[0])
        for j, c in enumerate(self.written):
            nme = "rows_%s_%d" % (tag, j)
            if self.snap[c].kind == "D":
                self.havs[c] = lambda ix, nme=nme: D.NullDate(wrap(t.mk("sel", (nme,) + tuple(ix), "I")), SymBool(t.mk("sel", (nme + "_null",) + tuple(ix), "B")))
            else:
                self.havs[c] = lambda ix, nme=nme: wrap(t.mk("sel", (nme,) + tuple(ix), "R"))
        self.p = Sym(ctx.fresh("row", "I"))
        ctx.store.setdefault("row_loops", []).append(self)
        self.ran = bool(self.n >= 1)
        if self.ran:
            ctx.assume(And(self.p >= 0, self.p < self.n))
            for c in self.written:
                old, hav = self.snap[c], self.havs[c]
                self.df.cols[c] = GArr(old.shape, lambda ix, old=old, hav=hav: gite(Sym(ix[0]) < self.p, hav(ix), old.at(ix)), kind=old.kind)
            for g in self.grow:
                self._array(g, lambda c, k: self.hav(c)((k,)), self.p)
            ctx.store.setdefault("rows_active", []).append(self)
            yield RowLabel(self.df, self.p.t), Row(cols, self.p.t)
            ctx.store["rows_active"].pop()
            for c in self.written:
                v, hav = self.df.cols[c].at((self.p.t,)), self.havs[c]
                self.df.cols[c] = GArr(self.snap[c].shape, lambda ix, v=v, hav=hav: gite(Sym(ix[0]) == self.p, v, hav(ix)), kind=self.snap[c].kind if not isinstance(v, D.SymDate) else "D")
        for g in self.grow:
            self._array(g, lambda c, k: self.df.cols[c].at((k,)), self.n)

    def _array(self, g, col, rows):
        a = nm.freeze(nm.asarr(self.init[g]))
        f = Ctx.cur.store.get("rows_grow")
        f = f(self, g, a) if f is not None else None
        if f is None:
            raise Unsupported("array that grows in a loop over rows needs an invariant")
        n0 = nm.dim_term(a.shape[0])
        self.cur[g] = GArr((nm.norm_dim(Sym(n0) + rows),), lambda ix: gite(Sym(ix[0]) < Sym(n0), a.at(ix), f(col, t.sub(ix[0], n0))), kind=a.kind)
        return f

    def grown(self):
        return tuple(self.cur[g] for g in self.grow)

    final = grown

    def done(self, vals):
        for g, v in zip(self.grow, vals):
            if self.sym:
                n0 = nm.dim_term(nm.asarr(self.init[g]).shape[0])
                last = t.add(n0, self.p.t)
                if not nm.same_dim(v.shape[0], nm.norm_dim(Sym(t.add(last, t.const(1))))):
                    raise Unsupported("more than one element appended per row")
                want = self._array(g, lambda c, k: self.hav(c)((k,)), self.p)(lambda c, k: self.df.cols[c].at((k,)), self.p.t)
                Ctx.cur.lemma("loop over rows: element appended to %s" % g, Eq(v.at((last,)), want))
            self.cur[g] = v


def maploop(tolist):
    def run(it, f, inits):
        from .lift import SymList, snapshot
        n, elem = tolist(it)
        f, memo = snapshot(f), {}

        def at(ix, j):
            r = memo.get(ix)
            if r is None:
                try:
                    r = f(elem(ix))
                except UnboundLocalError as e:
                    raise Unsupported("value carried across iterations of a symbolic loop (%s)" % e)
                if any(len(l.vals) != 1 for l in r):
                    raise Unsupported("loop does not append exactly one element per iteration")
                r = memo[ix] = [l.vals[0] for l in r]
            return r[j]
        out = []
        for j, l in enumerate(inits):
            if not isinstance(l, (list, SymList)):
                raise Unsupported("loop appends to something that is not a list")
            s = SymList(n, lambda ix, j=j: at(ix, j))
            s.at(nm.generic_index(n))
            out.append(s if isinstance(l, list) and not l else l + s)
        return tuple(out)
    return run


def builtins(tolist):
    def symbolic_loop(it):
        return tolist(it) is not None

    def printed(it):
        """a loop that only prints: one arbitrary element"""
        if isinstance(it, GArr) and it.mask is not None:
            return [it.generic()]
        L = tolist(it)
        return it if L is None else [L[1](nm.generic_index(L[0]))]

    def loop(it, loc, stores):
        L = tolist(it)
        if L is None:
            yield from it
            return
        n, elem = L
        lo = term(it.lo) if hasattr(it, "lo") else t.const(0)
        info = []
        p = None
        two = False
        for name, ax, off, cnt in stores:
            a = loc.get(name)
            if not isinstance(a, GArr):
                raise Unsupported("loop writes %s, which is not an array" % name)
            if a.kind not in ("f", "i", "c"):
                raise Unsupported("loop writes a non-numeric array")
            g = nm.generic_index(a.shape[ax])
            base = t.add(lo, t.const(off))             # array index written by iteration 0 (last write of an element: see cnt)
            if p is None:
                p = t.sub(g, base)
            two = two or cnt == 2
            info.append((a, ax, base, cnt))
        nt = nm.dim_term(nm.norm_dim(n))

        def between(ix, x, y):
            return And(Sym(ix) >= Sym(x), Sym(ix) < Sym(y))

        def hv():
            tag = Ctx.cur.fresh("loop", "I").args[0]
            return lambda ix: wrap(t.mk("sel", ("hv_" + str(tag),) + tuple(ix), "R"))

        # iterations executed: the one that writes the generic element, and, when elements are written by two
        # consecutive iterations, the next one too
        steps = [p] + ([t.add(p, t.const(1))] if two else [])
        run = [s for s in steps if bool(And(Sym(s) >= 0, Sym(s) < Sym(nt)))]
        olds = [a._elem for a, _, _, _ in info]
        havs = [hv() for _ in info]                    # final contents written by the other iterations
        for (a, ax, base, cnt), old, hav in zip(info, olds, havs):
            start = t.add(base, run[0]) if run else t.add(base, nt)      # first index the executed iterations write last
            mid = hv() if cnt == 2 and run else None                     # contents left by the previous iteration, written once more

            def pre(ix, ax=ax, base=base, old=old, hav=hav, start=start, mid=mid, cnt=cnt):
                r = old(ix)
                if mid is not None:
                    last = t.sub(start, t.const(1))
                    first = t.eq(start, base)          # iteration 0: its lower element still has the value from before the loop
                    r = gite(And(SymBool(t.eq(ix[ax], last)), SymBool(t.not_(first))), mid(ix), r)
                    lowest = t.sub(base, t.const(1))
                    return gite(between(ix[ax], lowest, last), hav(ix), r)
                return gite(between(ix[ax], base if cnt == 1 else t.sub(base, t.const(1)), start), hav(ix), r)
            a._elem = pre
        for s in run:
            yield elem(s)
        for (a, ax, base, cnt), old, hav in zip(info, olds, havs):
            body = a._elem
            lo_c = t.add(base, run[0]) if run else None
            if lo_c is not None and cnt == 2:
                lo_c = t.sub(lo_c, t.const(1))
            hi_c = t.add(base, run[-1]) if run else None
            low = base if cnt == 1 else t.sub(base, t.const(1))

            def post(ix, ax=ax, old=old, hav=hav, body=body, lo_c=lo_c, hi_c=hi_c, low=low, base=base, cnt=cnt):
                ix = tuple(ix)
                end = t.add(base, nt)
                rest = gite(between(ix[ax], low, end), hav(ix), old(ix))
                if lo_c is None:
                    return rest
                here = And(Sym(ix[ax]) >= Sym(lo_c), Sym(ix[ax]) <= Sym(hi_c))
                if cnt == 2:
                    # the highest executed element is final only when no later iteration writes it again
                    fin = Or(Sym(ix[ax]) < Sym(hi_c), SymBool(t.eq(hi_c, t.sub(end, t.const(1)))))
                    here = And(here, fin)
                single = cnt == 1 and len(run) == 1
                return gite(here, body(tuple(hi_c if j == ax else x for j, x in enumerate(ix)) if single else ix), rest)
            a._elem = post
            Ctx.cur.store.setdefault("for_arrays", []).append(nm.freeze(a))
    return {"vp__loop": loop, "vp__symbolic_loop": symbolic_loop, "vp__poison": POISON, "vp__printed": printed, "vp__While": While, "vp__Rows": Rows,
            "vp__maploop": maploop(tolist), "vp__recorders": lambda k: tuple(Recorder() for _ in range(k))}


class Loops:
    def __init__(self, tolist):
        self.tolist = tolist

    def builtins(self):
        return builtins(self.tolist)

    def transform(self, tree, name):
        return LoopTr().visit(tree)
