"""Abstract interpreter for the Python subset open-dis-python is written in.

It never executes code of the repository: it parses the source with `ast` and
evaluates statements over the abstract values of terms.py.  Branches on unknown
conditions are evaluated on both sides and *joined* (gated values, gated event
traces); loops with an unknown trip count are evaluated once with an index
symbol and summarised (induction variables, list appends, sums).  Every stream
read / write is recorded as an event, so a codec method is lowered to a tree of
wire events.
"""
from __future__ import annotations

import ast
import os
import builtins as _pybuiltins

from .terms import *
from . import terms as tm


class PathRaise(Exception):
    """The current abstract path definitely raises."""

    def __init__(self, exc="Exception", note=""):
        self.exc = exc
        self.note = note


class AnalysisError(Exception):
    pass


class Split(Exception):
    """The current statement raises a caught exception under a condition:
    re-execute it once per outcome."""

    def __init__(self, cond, depth):
        super().__init__()
        self.cond = cond
        self.depth = depth          # frame that owns the handler


class Budget(Exception):
    pass


# ------------------------------------------------------------------ heap records
class ObjRec:
    __slots__ = ("cls", "attrs", "origin")

    def __init__(self, cls, attrs, origin=None):
        self.cls, self.attrs, self.origin = cls, attrs, origin

    def set(self, k, v):
        a = dict(self.attrs)
        a[k] = v
        return ObjRec(self.cls, a, self.origin)


class ListRec:
    """segs: ('e', v) | ('rep', loopid, count, (v, ...)) | ('carry', loopid, oid)
    | ('ite', cond, segs, segs) | ('seti', idx, v) | ('opaque', term)"""
    __slots__ = ("kind", "segs", "origin")

    def __init__(self, kind, segs, origin=None):
        self.kind, self.segs, self.origin = kind, tuple(segs), origin

    def with_segs(self, segs):
        return ListRec(self.kind, segs, self.origin)


class DictRec:
    __slots__ = ("items", "origin")

    def __init__(self, items, origin=None):
        self.items, self.origin = tuple(items), origin      # ((key term, value),..)


class ArrRec:
    __slots__ = ("shape", "data", "origin", "base", "dt")

    def __init__(self, shape, data, origin=None, base=None, dt=None):
        self.shape, self.data, self.origin = tuple(shape), tuple(data), origin
        self.dt = dt            # element type: None float, "i" integers, "?" that of the caller's numbers
        self.base = base        # (object id, element indices) of the array this is a view of


class ClsRec:
    __slots__ = ("name", "qual", "module", "bases", "ns", "node", "file")

    def __init__(self, name, qual, module, bases, ns, node, file):
        self.name, self.qual, self.module = name, qual, module
        self.bases, self.ns, self.node, self.file = bases, ns, node, file


class Func:
    __slots__ = ("name", "qual", "node", "module", "closure", "defaults",
                 "kwdefaults", "owner", "file", "isgen", "abstract", "memo", "ctx")

    def __repr__(self):
        return f"<{self.qual}>"


class Module:
    def __init__(self, name, file, tree):
        self.name, self.file, self.tree = name, file, tree
        self.env = {}
        self.state = 0        # 0 new, 1 loading, 2 loaded


# ------------------------------------------------------------------- completions
class Leaf:
    __slots__ = ("kind", "val", "st")

    def __init__(self, kind, val=None, st=None):
        self.kind, self.val, self.st = kind, val, st


class Node:
    __slots__ = ("cond", "a", "b", "base")

    def __init__(self, cond, a, b, base):
        self.cond, self.a, self.b, self.base = cond, a, b, base


NORMAL = "normal"


class Snap:
    __slots__ = ("heap", "trace", "env", "facts")

    def __init__(self, heap, trace, env, facts):
        self.heap, self.trace, self.env, self.facts = heap, trace, env, facts


class Frame:
    def __init__(self, func, env, module):
        self.func, self.env, self.module = func, env, module
        self.globals_decl = set()
        self.callline = 0
        self.nonlocals = {}
        self.yields = None


class Problem:
    __slots__ = ("kind", "name", "where", "line", "file", "handled", "facts", "msg")

    def __init__(self, kind, name, where, line, file, handled, msg):
        self.kind, self.name, self.where, self.line = kind, name, where, line
        self.file, self.handled, self.msg = file, handled, msg

    def key(self):
        return f"{self.kind}:{self.where}:{self.name}"


EXC_PARENTS = {
    "AttributeError": ("Exception",), "NameError": ("Exception",),
    "UnboundLocalError": ("NameError", "Exception"), "TypeError": ("Exception",),
    "ValueError": ("Exception",), "KeyError": ("LookupError", "Exception"),
    "IndexError": ("LookupError", "Exception"), "EOFError": ("Exception",),
    "struct.error": ("Exception",), "AssertionError": ("Exception",),
    "RuntimeError": ("Exception",), "NotImplementedError": ("RuntimeError", "Exception"),
    "OSError": ("Exception",), "StopIteration": ("Exception",),
    "ZeroDivisionError": ("ArithmeticError", "Exception"),
    "UnicodeDecodeError": ("ValueError", "Exception"),
    "UnicodeEncodeError": ("ValueError", "Exception"),
    "OverflowError": ("ArithmeticError", "Exception"),
}
BUILTIN_NAMES = {n for n in dir(_pybuiltins)}


COMPOUND = (ast.If, ast.For, ast.While, ast.With, ast.Try, ast.Match, ast.FunctionDef, ast.ClassDef)


def assigned_names(stmts):
    out = set()

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_FunctionDef(self, n):
            out.add(n.name)

        visit_AsyncFunctionDef = visit_FunctionDef

        def visit_ClassDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_Import(self, n):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])

        visit_ImportFrom = visit_Import

        def visit_ExceptHandler(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)

        def visit_ListComp(self, n):
            # only walrus targets leak
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    out.add(c.target.id)

        visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp

        def visit_MatchAs(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)

        def visit_MatchStar(self, n):
            if n.name:
                out.add(n.name)
    v = V()
    for s in stmts:
        v.visit(s)
    return out


ORDER = {"<": frozenset("<"), "<=": frozenset("<="), ">": frozenset(">"), ">=": frozenset(">="), "==": frozenset("="), "!=": frozenset("<>")}
SWAP = str.maketrans("<>", "><")


class Interp:
    MAXDEPTH = 60
    UNROLL = 300

    def __init__(self, root, packages=("opendis",), budget=4_000_000):
        self.root = root
        self.heap = {}
        self.trace = []
        self.facts = {}
        self.funcs = []
        self.next_oid = 1
        self.next_chunk = 0
        self.next_loop = 0
        self.next_unk = 0
        self.dropped = None     # the expression of the statement being run, its value unused
        self.frames = []
        self.problems = []
        self.unknowns = []
        self.hdepth = []            # frame depth of each handler
        self.handlers = []          # active try handler name sets
        self.prims = {}             # primitives known to be the standard ones -> what they do
        self.wide = False           # the numbers need not fit the fields they are written to
        self.loop_alias = {}
        self.elem_of = {}          # object -> loops each of whose rounds has its own such object
        self.index_obligations = []
        self.loop_info = {}         # loopid -> (count, where)
        self.modules = {}
        self.steps = 0
        self.budget = budget
        self.work = []             # (count, events of one round, events before, function, line): loops and sized allocations
        self.wconds, self.wentry, self.wmap = {}, {}, {}   # while loops: condition over the carried values; at entry
        self.call_hook = None       # (func, args, kwargs) -> value or None
        self.effects = []           # mutations of frozen / external objects
        self.frozen = set()         # oids whose mutation is reported
        self.origin = None          # tag for allocations ('global' during import)
        self.globals_written = []
        self.called = set()         # qualified names of interpreted functions
        self.loopstack = []
        self.splits = 0
        self.file_bytes = None      # what files contain, if known
        self.read_hook = None       # (stream, size, line) -> chunk or None
        self.nosplit = 0
        self.curnode = None
        self._ann_memo = {}
        self.raising_loops = 0      # loops whose body raised on every path
        self.with_cache = {}
        self._fstmt = {}
        for pk in packages:
            self._discover(pk)

    # ------------------------------------------------------------ program load
    def _discover(self, pk):
        base = os.path.join(self.root, *pk.split("."))
        if os.path.isfile(base + ".py"):
            self._add_module(pk, base + ".py")
            return
        for dp, dn, fn in os.walk(base):
            dn[:] = sorted(d for d in dn if d != "__pycache__")
            rel = os.path.relpath(dp, self.root).replace(os.sep, ".")
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                name = rel if f == "__init__.py" else rel + "." + f[:-3]
                self._add_module(name, os.path.join(dp, f))

    def _add_module(self, name, file):
        with open(file, encoding="utf-8") as fh:
            src = fh.read()
        try:
            tree = ast.parse(src, file)
        except SyntaxError as e:
            raise AnalysisError(f"cannot parse {file}: {e}")
        self.modules[name] = Module(name, file, tree)

    def ispkg(self, m):
        return os.path.basename(m.file) == "__init__.py"

    def load_all(self):
        old = self.origin
        self.origin = "global"
        for n in sorted(self.modules):
            self.load(n)
        self.origin = old

    def load(self, name):
        m = self.modules[name]
        if m.state:
            return m
        if "." in name:
            par = name.rsplit(".", 1)[0]
            if par in self.modules:
                self.load(par)
        if m.state:
            return m
        m.state = 1
        m.env["__name__"] = const(name)
        m.env["__file__"] = const(m.file)
        fr = Frame(None, m.env, m)
        self.frames.append(fr)
        save_facts = self.facts
        self.facts = {}
        try:
            comp = self.exec_block(m.tree.body)
            self.collapse(comp)
        except PathRaise as e:
            self.problem("import-error", name, f"module {name} raises at import: {e.exc} {e.note}")
        finally:
            self.frames.pop()
            self.facts = save_facts
        m.state = 2
        return m

    # ---------------------------------------------------------------- utilities
    @property
    def fr(self):
        return self.frames[-1]

    @property
    def env(self):
        return self.frames[-1].env

    def alloc(self, rec):
        oid = self.next_oid
        self.next_oid += 1
        if rec.__class__ is not ClsRec and rec.origin is None:
            rec.origin = self.origin
        self.heap[oid] = rec
        return mk("cls" if rec.__class__ is ClsRec else "ref", oid)

    def rec(self, t):
        return self.heap.get(t.args[0]) if t.op in ("ref", "cls") else None

    def put(self, t, rec):
        oid = t.args[0]
        old = self.heap.get(oid)
        if oid in self.frozen or (old is not None and getattr(old, "origin", None) == "global" and self.origin != "global"):
            self.effects.append(("mutate", oid, self.where(), getattr(self.curnode, "lineno", 0)))
        self.heap[oid] = rec

    def unk(self, reason):
        self.next_unk += 1
        self.unknowns.append((reason, self.where(), getattr(self.curnode, "lineno", 0)))
        return mk("unk", f"{reason}#{self.next_unk}")

    def where(self):
        for f in reversed(self.frames):
            if f.func is not None:
                return f.func.qual
        return self.frames[-1].module.name if self.frames else "?"

    def site(self):
        """(qualified function, line) of the innermost frame outside the stream layer."""
        line = getattr(self.curnode, "lineno", 0)
        for f in reversed(self.frames):
            if f.func is None:
                return f.module.name, line
            if not f.module.name.endswith(".stream"):
                return f.func.qual, line
            line = f.callline
        return "?", line

    def wherefile(self):
        return self.frames[-1].module.file if self.frames else "?"

    def problem(self, kind, name, msg="", exc=None):
        handled = bool(exc) and any(self._catches(h, exc) for h in self.handlers)
        contradictory = False
        p = Problem(kind, name, self.where(), getattr(self.curnode, "lineno", 0),
                    self.wherefile(), handled, msg or name)
        self.problems.append(p)

    def _catches(self, names, exc):
        if names is None:
            return True
        par = EXC_PARENTS.get(exc, ("Exception",))
        return any(n in names for n in (exc,) + par + ("BaseException",))

    def snap(self):
        return Snap(dict(self.heap), list(self.trace), dict(self.env), dict(self.facts))

    def restore(self, s):
        self.heap = dict(s.heap)
        self.trace = list(s.trace)
        self.env.clear()
        self.env.update(s.env)
        self.facts = dict(s.facts)

    def tick(self, n=1):
        self.steps += n
        if self.steps > self.budget:
            raise Budget()

    # --------------------------------------------------------------- conditions
    def bounds(self, t):
        """(lo, lo_strict, hi, hi_strict) for t implied by the facts."""
        lo = hi = None
        los = his = False
        for c, v in self.facts.items():
            if c.op != "cmp" or c.args[1] is not t or c.args[2].op != "const":
                continue
            k = c.args[2].args[0]
            if not isinstance(k, (int, float)):
                continue
            op = c.args[0]
            if not v:
                op = {"<": ">=", ">=": "<", ">": "<=", "<=": ">", "==": None}.get(op)
            if op in (">=", ">"):
                if lo is None or k > lo or (k == lo and op == ">"):
                    lo, los = k, op == ">"
            elif op in ("<", "<="):
                if hi is None or k < hi or (k == hi and op == "<"):
                    hi, his = k, op == "<"
            elif op == "==":
                lo = hi = k
                los = his = False
        return lo, los, hi, his

    def decide(self, c):
        """True / False / None for an atomic condition under the facts."""
        if c.op == "const":
            return bool(c.args[0])
        if c in self.facts:
            return self.facts[c]
        if c.op == "not":
            d = self.decide(c.args[0])
            return None if d is None else not d
        n = neg_(c)
        if n in self.facts:
            return not self.facts[n]
        if c.op == "cmp":
            op, a, b = c.args
            if b.op == "const" and isinstance(b.args[0], (int, float)):
                k = b.args[0]
                for f, v in self.facts.items():
                    if v and f.op == "cmp" and f.args[0] == "==" and f.args[1] is a and f.args[2].op == "const":
                        r = cmp_(op, f.args[2], b)
                        if r.op == "const":
                            return r.args[0]
                if self.facts.get(truthy(a)) is False and a.op != "cmp":
                    r = cmp_(op, ZERO, b)
                    if r.op == "const":
                        return r.args[0]
                if k == 0 and op in ("==", "!=", ">", "<=") and a.op != "cmp" and self.facts.get(truthy(a)) is True and \
                        (op in ("==", "!=") or nonneg(a)):
                    return op in ("!=", ">")
                lo, los, hi, his = self.bounds(a)
                if lo is not None:
                    if op == ">=" and lo >= k: return True
                    if op == ">" and (lo > k or (lo == k and los)): return True
                    if op == "<" and lo >= k: return False
                    if op == "<=" and (lo > k or (lo == k and los)): return False
                    if op == "==" and (lo > k or (lo == k and los)): return False
                    if op == "!=" and (lo > k or (lo == k and los)): return True
                if hi is not None:
                    if op == "<=" and hi <= k: return True
                    if op == "<" and (hi < k or (hi == k and his)): return True
                    if op == ">" and hi <= k: return False
                    if op == ">=" and (hi < k or (hi == k and his)): return False
                    if op == "==" and (hi < k or (hi == k and his)): return False
                    if op == "!=" and (hi < k or (hi == k and his)): return True
            elif b.op != "const" and op in ORDER:
                allowed = frozenset("<=>")
                for f, v in self.facts.items():
                    if f.op != "cmp" or f.args[0] not in ORDER:
                        continue
                    if f.args[1] is a and f.args[2] is b:
                        s = ORDER[f.args[0]]
                    elif f.args[1] is b and f.args[2] is a:
                        s = frozenset(x.translate(SWAP) for x in ORDER[f.args[0]])
                    else:
                        continue
                    allowed &= s if v else frozenset("<=>") - s
                if allowed < frozenset("<=>") and allowed:
                    if allowed <= ORDER[op]:
                        return True
                    if not allowed & ORDER[op]:
                        return False
            elif b.op == "const" and op == "==":
                for f, v in self.facts.items():
                    if v and f.op == "cmp" and f.args[0] == "==" and f.args[1] is a and f.args[2].op == "const":
                        return f.args[2] is b
        if c.op == "truthy":
            x = c.args[0]
            for f, v in self.facts.items():
                if v and f.op == "cmp" and f.args[0] == "==" and f.args[1] is x and f.args[2].op == "const":
                    return bool(f.args[2].args[0])
            if nonneg(x) or tm._intlike(x):
                d = self.facts.get(cmp_("==", x, ZERO))
                if d is not None:
                    return not d
                d = self.facts.get(cmp_("!=", x, ZERO))
                if d is not None:
                    return d
            if nonneg(x):
                lo, los, hi, his = self.bounds(x)
                if lo is not None and (lo > 0 or (lo == 0 and los)):
                    return True
        return None

    def res(self, t):
        """Resolve the top of an ite-chain under the current facts."""
        n = 0
        while t.op == "ite" and n < 64:
            c = self.simp(t.args[0])
            if c.op == "const":
                t = t.args[1] if c.args[0] else t.args[2]
            else:
                break
            n += 1
        return t

    def simp(self, c):
        """Simplify a boolean term under the facts."""
        if c.op == "const":
            return c
        if c.op == "ite":
            c0 = self.simp(c.args[0])
            if c0.op == "const":
                return self.simp(c.args[1] if c0.args[0] else c.args[2])
            return ite(c0, c.args[1], c.args[2])
        d = self.decide(c)
        if d is not None:
            return const(d)
        return c

    def assume(self, c, v):
        """Record c == v for an atomic condition."""
        while c.op == "not":
            c, v = c.args[0], not v
        if c.op == "const":
            return
        self.facts[c] = v

    @staticmethod
    def first_atom(c):
        while True:
            if c.op == "ite":
                c = c.args[0]
            elif c.op == "not":
                c = c.args[0]
            else:
                return c

    # ------------------------------------------------------------------- joins
    def join_states(self, cond, sa, sb, base_len):
        """Current state := sa if cond else sb."""
        env = self.env
        heap = {}
        ha, hb = sa.heap, sb.heap
        for k, ra in ha.items():
            rb = hb.get(k)
            if rb is ra or rb is None:
                heap[k] = ra
            else:
                heap[k] = self.join_rec(cond, ra, rb)
        for k, rb in hb.items():
            if k not in ha:
                heap[k] = rb
        ta, tb = sa.trace, sb.trace
        n = 0
        m = min(len(ta), len(tb))
        while n < m and ta[n] is tb[n]:
            n += 1
        ea, eb = ta[n:], tb[n:]
        trace = ta[:n]
        if ea or eb:
            if ea != eb:
                trace = trace + [("if", cond, tuple(ea), tuple(eb))]
            else:
                trace = trace + list(ea)
        ne = {}
        for k in list(sa.env) + [k for k in sb.env if k not in sa.env]:
            va, vb = sa.env.get(k, UNDEF), sb.env.get(k, UNDEF)
            ne[k] = va if va is vb else self.join_val(cond, va, vb)
        facts = {c: v for c, v in sa.facts.items() if sb.facts.get(c) == v and c in sb.facts}
        self.heap = heap
        self.trace = trace
        env.clear()
        env.update(ne)
        self.facts = facts

    def join_val(self, cond, a, b):
        return ite(cond, a, b)

    def join_rec(self, cond, ra, rb):
        if ra.__class__ is not rb.__class__:
            return ra
        if isinstance(ra, ObjRec):
            at = {}
            for k in list(ra.attrs) + [k for k in rb.attrs if k not in ra.attrs]:
                va, vb = ra.attrs.get(k, UNDEF), rb.attrs.get(k, UNDEF)
                at[k] = va if va is vb else self.join_val(cond, va, vb)
            return ObjRec(ra.cls, at, ra.origin)
        if isinstance(ra, ListRec):
            if ra.segs == rb.segs:
                return ra
            n = 0
            m = min(len(ra.segs), len(rb.segs))
            while n < m and ra.segs[n] == rb.segs[n]:
                n += 1
            # equal length of plain elements: join element-wise
            if len(ra.segs) == len(rb.segs) and all(s[0] == "e" for s in ra.segs + rb.segs):
                return ra.with_segs(("e", ite(cond, x[1], y[1])) for x, y in zip(ra.segs, rb.segs))
            return ra.with_segs(ra.segs[:n] + (("ite", cond, ra.segs[n:], rb.segs[n:]),))
        if isinstance(ra, ArrRec):
            if ra.shape == rb.shape:
                return ArrRec(ra.shape, (ite(cond, x, y) for x, y in zip(ra.data, rb.data)), ra.origin, ra.base if ra.base == rb.base else None, ra.dt if ra.dt == rb.dt else None)
            return ra
        if isinstance(ra, DictRec):
            if ra.items == rb.items:
                return ra
            da, db = dict(ra.items), dict(rb.items)
            items = [(k, ite(cond, da.get(k, UNDEF), db.get(k, UNDEF))) for k in list(da) + [k for k in db if k not in da]]
            return DictRec(items, ra.origin)
        if isinstance(ra, ClsRec):
            ns = {}
            for k in list(ra.ns) + [k for k in rb.ns if k not in ra.ns]:
                va, vb = ra.ns.get(k, UNDEF), rb.ns.get(k, UNDEF)
                ns[k] = va if va is vb else ite(cond, va, vb)
            return ClsRec(ra.name, ra.qual, ra.module, ra.bases, ns, ra.node, ra.file)
        return ra

    # ------------------------------------------------------------- completions
    def branch(self, cond, fa, fb):
        """Evaluate fa() / fb() (-> completion) under cond / not cond."""
        cond = self.simp(cond)
        if cond.op == "const":
            return fa() if cond.args[0] else fb()
        atom = self.first_atom(cond)
        s0 = self.snap()
        base = len(self.trace)
        self.assume(atom, True)
        c1 = self.simp(cond)
        try:
            if c1.op == "const" or c1 is cond:
                r1 = fa() if (c1.op != "const" or c1.args[0]) else fb()
                if c1.op != "const":
                    raise AnalysisError("undecidable atom")
            else:
                r1 = self.branch(c1, fa, fb)
        except PathRaise as e:
            r1 = Leaf("raise", e, None)
        if isinstance(r1, Leaf) and r1.st is None:
            r1.st = self.snap()
        self.restore(s0)
        self.assume(atom, False)
        c2 = self.simp(cond)
        try:
            if c2.op == "const":
                r2 = fa() if c2.args[0] else fb()
            else:
                r2 = self.branch(c2, fa, fb)
        except PathRaise as e:
            r2 = Leaf("raise", e, None)
        if isinstance(r2, Leaf) and r2.st is None:
            r2.st = self.snap()
        return self.merge(Node(atom, r1, r2, base))

    def merge(self, t):
        """Join a node whose two leaves are of the same joinable kind."""
        if isinstance(t, Leaf):
            return t
        a, b = t.a, t.b
        if isinstance(a, Leaf) and isinstance(b, Leaf):
            if a.kind == b.kind and a.kind != "raise":
                self.join_states(t.cond, a.st, b.st, t.base)
                v = None
                if a.val is not None or b.val is not None:
                    v = ite(t.cond, a.val or NONE, b.val or NONE)
                return Leaf(a.kind, v, self.snap())
        return t

    def collapse(self, comp, want=None):
        """Reduce a completion tree to one leaf; raise leaves are dropped when
        another path survives.  Leaves the joined state installed."""
        def go(t):
            if isinstance(t, Leaf):
                return t
            a, b = go(t.a), go(t.b)
            if a.kind == "raise" and b.kind == "raise":
                return a
            if a.kind == "raise":
                self.maybe_split(a, t.cond)
                b.st.facts[t.cond] = False
                b.st.trace.append(("assume", t.cond, False))
                return b
            if b.kind == "raise":
                self.maybe_split(b, t.cond)
                a.st.facts[t.cond] = True
                a.st.trace.append(("assume", t.cond, True))
                return a
            self.join_states(t.cond, a.st, b.st, t.base)
            v = None
            if a.val is not None or b.val is not None:
                v = ite(t.cond, a.val or NONE, b.val or NONE)
            kind = a.kind if a.kind == b.kind else "mixed"
            return Leaf(kind, v, self.snap())
        if isinstance(comp, Leaf):
            if comp.st is not None:
                self.restore(comp.st)
            return comp
        r = go(comp)
        self.restore(r.st)
        return r

    def maybe_split(self, lf, cond):
        if not self.handlers or self.nosplit or self.splits > 200:
            return
        exc = lf.val.exc if isinstance(lf.val, PathRaise) else "Exception"
        if any(self._catches(h, exc) for h in self.handlers):
            raise Split(cond, max(d for h, d in zip(self.handlers, self.hdepth) if self._catches(h, exc)))

    def map_leaves(self, comp, f):
        """Apply f(leaf)->completion to each leaf (state installed first)."""
        if isinstance(comp, Leaf):
            if comp.st is not None:
                self.restore(comp.st)
            try:
                r = f(comp)
            except PathRaise as e:
                r = Leaf("raise", e, None)
            if isinstance(r, Leaf) and r.st is None:
                r.st = self.snap()
            return r
        a = self.map_leaves(comp.a, f)
        b = self.map_leaves(comp.b, f)
        return self.merge(Node(comp.cond, a, b, comp.base))

    # -------------------------------------------------------------- statements
    def exec_block(self, stmts):
        i = 0
        n = len(stmts)
        while i < n:
            st = stmts[i]
            i += 1
            try:
                r = self.exec_stmt(st)
            except PathRaise as e:
                return Leaf("raise", e, self.snap())
            if r is None:
                continue
            if isinstance(r, Leaf):
                if r.kind == NORMAL:
                    if r.st is not None:
                        self.restore(r.st)
                    continue
                return r
            rest = stmts[i:]

            def cont(lf):
                if lf.kind == NORMAL:
                    return self.exec_block(rest) if rest else Leaf(NORMAL, None, self.snap())
                return lf
            return self.map_leaves(r, cont)
        return Leaf(NORMAL, None, None)

    def exec_stmt(self, st):
        self.tick()
        self.curnode = st
        m = self._fstmt.get(st.__class__)
        if m is None:
            m = getattr(self, "st_" + st.__class__.__name__, None)
            self._fstmt[st.__class__] = m
        if m is None:
            self.unk(f"statement {st.__class__.__name__}")
            return None
        if not self.handlers or isinstance(st, COMPOUND):
            return m(st)
        s0 = self.snap()
        ids = (self.next_chunk, self.next_loop, self.next_unk)
        depth = (len(self.frames), len(self.loopstack), len(self.handlers), len(self.problems), len(self.unknowns), len(self.effects))
        try:
            return m(st)
        except Split as e:
            if e.depth < depth[0]:
                raise
            self.splits += 1
            del self.frames[depth[0]:]
            del self.loopstack[depth[1]:]
            del self.handlers[depth[2]:]
            del self.hdepth[depth[2]:]
            del self.problems[depth[3]:]
            del self.unknowns[depth[4]:]
            del self.effects[depth[5]:]
            self.restore(s0)
            top = [self.next_chunk, self.next_loop, self.next_unk]

            def again():
                self.next_chunk, self.next_loop, self.next_unk = ids
                try:
                    r = self.exec_stmt(st)
                finally:
                    for i, v in enumerate((self.next_chunk, self.next_loop, self.next_unk)):
                        top[i] = max(top[i], v)
                return r if r is not None else Leaf(NORMAL, None, self.snap())
            try:
                return self.branch(e.cond, again, again)
            finally:
                self.next_chunk, self.next_loop, self.next_unk = top

    def st_Expr(self, st):
        if isinstance(st.value, ast.Constant):
            return None
        if isinstance(st.value, (ast.Yield, ast.YieldFrom)):
            self.ev(st.value)
            return None
        was, self.dropped = self.dropped, st.value
        try:
            self.ev(st.value)
        finally:
            self.dropped = was

    def st_Pass(self, st):
        return None

    def st_Global(self, st):
        self.fr.globals_decl.update(st.names)

    def st_Nonlocal(self, st):
        cl = self.fr.func.closure if self.fr.func else []
        for n in st.names:
            for e in cl:
                if n in e:
                    self.fr.nonlocals[n] = e
                    break

    def st_Delete(self, st):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.env.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value)
                r = self.rec(o)
                if isinstance(r, ObjRec) and t.attr in r.attrs:
                    a = dict(r.attrs)
                    del a[t.attr]
                    self.put(o, ObjRec(r.cls, a, r.origin))
            else:
                o = self.ev(t.value)
                r = self.rec(o)
                if isinstance(r, ListRec) and isinstance(t.slice, ast.Slice) and \
                        t.slice.lower is None and t.slice.upper is None:
                    self.put(o, r.with_segs(()))
                else:
                    self.unk("del item")
                    if isinstance(r, ListRec):
                        self.put(o, r.with_segs((("opaque", self.unk("del item")),)))

    def st_Return(self, st):
        v = self.ev(st.value) if st.value is not None else NONE
        return Leaf("return", v, self.snap())

    def st_Raise(self, st):
        name = "Exception"
        if st.exc is not None:
            e = st.exc.func if isinstance(st.exc, ast.Call) else st.exc
            try:
                name = ast.unparse(e)
            except Exception:
                pass
        return Leaf("raise", PathRaise(name, "explicit raise"), self.snap())

    def st_Break(self, st):
        return Leaf("break", None, self.snap())

    def st_Continue(self, st):
        return Leaf("continue", None, self.snap())

    def st_Assert(self, st):
        c = truthy(self.truth_of(self.ev(st.test)))
        c = self.simp(c)
        if c.op == "const":
            if not c.args[0]:
                return Leaf("raise", PathRaise("AssertionError"), self.snap())
            return None
        # surviving path: the assertion holds
        self.trace.append(("assume", c, True))
        if c.op in ("ite", "not"):
            def yes():
                return Leaf(NORMAL, None, self.snap())

            def no():
                raise PathRaise("AssertionError")
            return self.branch(c, yes, no)
        self.assume(c, True)

    def st_If(self, st):
        c = truthy(self.truth_of(self.ev(st.test)))
        c = self.simp(c)
        if c.op == "const":
            return self.exec_block(st.body if c.args[0] else st.orelse)
        return self.branch(c, lambda: self.exec_block(st.body),
                           lambda: self.exec_block(st.orelse))

    def st_With(self, st):
        it = st.items[0]
        body = st.body
        if len(st.items) > 1:
            rest = self.with_cache.get(st)
            if rest is None:
                rest = self.with_cache[st] = ast.copy_location(ast.With(st.items[1:], st.body), st)
            body = [rest]
        e = it.context_expr
        if isinstance(e, ast.Call) and not e.keywords:
            fv = self.ev(e.func) if isinstance(e.func, (ast.Name, ast.Attribute)) else NONE
            if fv.op == "ext" and fv.args[0] == "contextlib.suppress":
                new = self.with_cache.get((st, "suppress"))
                if new is None:
                    new = self.with_cache[st, "suppress"] = ast.fix_missing_locations(ast.copy_location(ast.Try(
                        body, [ast.copy_location(ast.ExceptHandler(ast.Tuple(list(e.args), ast.Load()), None, [ast.copy_location(ast.Pass(), st)]), st)], [], []), st))
                return self.st_Try(new)
        v = self.ev(e)
        if v.op == "ctxcall":
            return self.inline_ctx(st, it, body, v)
        ext = None
        if v.op == "ref" and isinstance(self.rec(v), ObjRec):
            ext = self.lookup_method(v, "__exit__")
            ent = self.lookup_method(v, "__enter__")
            if ent is not None:
                v = self.call(ent, [], {}, e)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v)
        comp = self.exec_block(body)
        if ext is None:
            return comp
        if isinstance(comp, Leaf) and comp.st is None:
            comp.st = self.snap()

        def leave(lf):
            if lf.kind == "raise":
                exc = lf.val.exc if isinstance(lf.val, PathRaise) else "Exception"
                r = self.res(self.call(ext, [mk("builtin", exc), mk("ext", "exception.value"), mk("ext", "exception.traceback")], {}, e))
                if self.truth_of(r) is TRUE:
                    return Leaf(NORMAL, None, self.snap())
            else:
                self.call(ext, [NONE, NONE, NONE], {}, e)
            return Leaf(lf.kind, lf.val, self.snap())
        return self.map_leaves(comp, leave)

    def inline_ctx(self, st, it, body, v):
        """A generator used as a context manager: its body around the block."""
        f = self.func(v.args[0])
        key = (st, v.args[0])
        if key not in self.with_cache:
            self.with_cache[key] = self.splice_ctx(f, it, body, len(self.with_cache), st)
        new = self.with_cache[key]
        if new is None:
            self.unk("generator context manager")
            return self.exec_block(body)
        stmts, names, pre = new
        env = self.bind_params(f, list(v.args[1]), dict(v.args[2]))
        fr = Frame(f, env, f.module)
        self.frames.append(fr)
        vals = {}
        try:
            for n in names:
                try:
                    vals[n] = self.ev(ast.copy_location(ast.Name(n, ast.Load()), st))
                except PathRaise:
                    pass
        finally:
            self.frames.pop()
        self.called.add((f.module.name, f.qual))
        for n, x in vals.items():
            self.env[pre + n] = x
        return self.exec_block(stmts)

    def splice_ctx(self, f, it, body, k, st):
        import builtins
        import copy
        if any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.YieldFrom, ast.Global, ast.Nonlocal, ast.Return))
               for b in f.node.body for x in ast.walk(b)):
            return None
        if sum(isinstance(x, ast.Yield) for b in f.node.body for x in ast.walk(b)) != 1:
            return None
        pre = f"%c{k}_"
        a = f.node.args
        params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
        code = copy.deepcopy(f.node.body)
        keep = {id(n) for b in code for h in ast.walk(b) if isinstance(h, ast.ExceptHandler) and h.type is not None for n in ast.walk(h.type)}
        stored = params | {n.id for b in code for n in ast.walk(b) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load)} | \
            {h.name for b in code for h in ast.walk(b) if isinstance(h, ast.ExceptHandler) and h.name}
        loaded = {n.id for b in code for n in ast.walk(b) if isinstance(n, ast.Name)}
        free = {n for n in loaded - stored if not hasattr(builtins, n)}
        for b in code:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and id(n) not in keep and (n.id in stored or n.id in free):
                    n.id = pre + n.id
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    n.name = pre + n.name
        done = []

        def put(stmts):
            out = []
            for s in stmts:
                y = s.value if isinstance(s, (ast.Expr, ast.Assign)) else None
                if isinstance(y, ast.Yield):
                    val = y.value or ast.copy_location(ast.Constant(None), s)
                    out.append(ast.copy_location(ast.Assign([it.optional_vars], val, lineno=s.lineno) if it.optional_vars is not None else ast.Expr(val), s))
                    out.extend(body)
                    if isinstance(s, ast.Assign):
                        out.append(ast.copy_location(ast.Assign(s.targets, ast.copy_location(ast.Constant(None), s), lineno=s.lineno), s))
                    done.append(s)
                    continue
                if isinstance(s, (ast.Try, ast.If, ast.With)):
                    for fld in ("body", "orelse", "finalbody"):
                        if getattr(s, fld, None):
                            setattr(s, fld, put(getattr(s, fld)))
                out.append(s)
            return out
        code = put(code)
        return (code, sorted(params | free), pre) if done else None

    def st_Try(self, st):
        names = set()
        allh = False
        for h in st.handlers:
            if h.type is None:
                allh = True
            else:
                ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                for t in ts:
                    names.add(ast.unparse(t))
        self.handlers.append(None if allh else names)
        self.hdepth.append(len(self.frames))
        try:
            comp = self.exec_block(st.body)
        finally:
            self.handlers.pop()
            self.hdepth.pop()
        if isinstance(comp, Leaf) and comp.st is None:
            comp.st = self.snap()

        def h(lf):
            if lf.kind == "raise":
                exc = lf.val.exc if isinstance(lf.val, PathRaise) else "Exception"
                for hd in st.handlers:
                    ts = None if hd.type is None else {ast.unparse(t) for t in (hd.type.elts if isinstance(hd.type, ast.Tuple) else [hd.type])}
                    if self._catches(ts, exc):
                        if hd.name:
                            self.env[hd.name] = self.unk("exception object")
                        return self.exec_block(hd.body)
                return lf
            if lf.kind == NORMAL and st.orelse:
                return self.exec_block(st.orelse)
            return lf
        if st.handlers or st.orelse:
            comp = self.map_leaves(comp, h)
        if st.finalbody:
            def fin(lf):
                r = self.exec_block(st.finalbody)
                if isinstance(r, Leaf) and r.kind == NORMAL:
                    return Leaf(lf.kind, lf.val, self.snap())
                return r
            comp = self.map_leaves(comp, fin)
        return comp

    st_TryStar = st_Try

    def st_Match(self, st):
        subj = self.ev(st.subject)

        def run(i):
            if i == len(st.cases):
                return Leaf(NORMAL, None, self.snap())
            c = st.cases[i]
            cond = self.match_pat(c.pattern, subj)
            if cond is None:
                self.unk("match pattern")
                return run(i + 1)

            def yes():
                self.bind_pat(c.pattern, subj)
                if c.guard is not None:
                    g = truthy(self.truth_of(self.ev(c.guard)))
                    return self.branch(g, lambda: self.exec_block(c.body), lambda: run(i + 1))
                return self.exec_block(c.body)
            return self.branch(cond, yes, lambda: run(i + 1))
        return run(0)

    def match_pat(self, p, subj):
        if isinstance(p, ast.MatchValue):
            return truthy(self.compare("==", subj, self.ev(p.value)))
        if isinstance(p, ast.MatchSingleton):
            return self.compare("is", subj, const(p.value))
        if isinstance(p, ast.MatchAs):
            return TRUE if p.pattern is None else self.match_pat(p.pattern, subj)
        if isinstance(p, ast.MatchOr):
            r = FALSE
            for q in p.patterns:
                c = self.match_pat(q, subj)
                if c is None:
                    return None
                r = ite(r, TRUE, c)
            return r
        if isinstance(p, ast.MatchSequence):
            items = self.seq_items(subj)
            if items is None or any(isinstance(q, ast.MatchStar) for q in p.patterns):
                return None
            if len(items) != len(p.patterns):
                return FALSE
            r = TRUE
            for q, x in zip(p.patterns, items):
                c = self.match_pat(q, x)
                if c is None:
                    return None
                r = ite(r, c, FALSE)
            return r
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return self.isinstance_(subj, self.ev(p.cls))
        return None

    def bind_pat(self, p, subj):
        if isinstance(p, ast.MatchAs):
            if p.name:
                self.env[p.name] = subj
            if p.pattern is not None:
                self.bind_pat(p.pattern, subj)
        elif isinstance(p, ast.MatchSequence):
            items = self.seq_items(subj) or []
            for q, x in zip(p.patterns, items):
                self.bind_pat(q, x)

    # -- definitions
    def st_FunctionDef(self, st):
        f = self.make_func(st)
        t = mk("func", f)
        for d in reversed(st.decorator_list):
            t = self.decorate(d, t, st)
        self.bind_name(st.name, t)

    st_AsyncFunctionDef = st_FunctionDef

    def decorate(self, d, t, st):
        if isinstance(d, ast.Attribute) and d.attr in ("setter", "getter", "deleter"):
            prop = self.ev(d.value)
            if prop.op == "property":
                g, s = prop.args
                if d.attr == "setter":
                    return mk("property", g, t)
                if d.attr == "getter":
                    return mk("property", t, s)
                return prop
        dv = self.ev(d)
        if dv.op == "builtin":
            n = dv.args[0]
            if n == "property":
                return mk("property", t, NONE)
            if n == "staticmethod":
                return mk("static", t)
            if n == "classmethod":
                return mk("clsm", t)
        if dv.op == "ext":
            n = dv.args[0]
            if n.endswith("abstractmethod"):
                if t.op == "func":
                    self.funcs[t.args[0]].abstract = True
                return t
            if n.endswith("cached_property"):
                return mk("property", t, NONE, TRUE)
            if n in ("functools.lru_cache", "functools.cache"):
                if t.op == "func":
                    self.funcs[t.args[0]].memo = True
                return t
            if n == "contextlib.contextmanager":
                if t.op == "func" and self.funcs[t.args[0]].isgen:
                    self.funcs[t.args[0]].ctx = True
                return t
            if n in ("typing.runtime_checkable", "typing.overload", "typing.final", "functools.wraps",
                     "typing.override"):
                return t
        if dv.op in ("func", "bound"):
            return self.call(dv, [t], {}, d)
        if dv.op == "extcall" and dv.args[0] in ("functools.lru_cache", "functools.cache") and t.op == "func":
            self.funcs[t.args[0]].memo = True
        return t

    def make_dataclass(self, rec, t, st, deco, nf):
        """@dataclass: the __init__ and __eq__ Python generates from the annotated fields."""
        opts = {k.arg: bool(self.ev(k.value).args[0]) for k in deco.keywords if is_const(self.ev(k.value))} \
            if isinstance(deco, ast.Call) else {}
        fields = {}
        for b in rec.bases:
            if b.op == "cls":
                for c in reversed(self.mro(b)):
                    fields.update(self.rec(c).ns.get("__dataclass__", mk("dcfields", ())).args[0] if c.op == "cls" else ())
        kwonly = opts.get("kw_only", False)
        for name, ann in nf.anns.items():
            text = ast.unparse(ann)
            if "ClassVar" in text:
                continue
            if "KW_ONLY" in text:
                kwonly = True
                continue
            value = [x.value for x in st.body if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name) and x.target.id == name][-1]
            default, factory, init, kw = rec.ns.get(name) if value is not None else None, None, True, kwonly
            if isinstance(value, ast.Call) and ast.unparse(value.func).split(".")[-1] == "field":
                kws = {k.arg: self.ev(k.value) for k in value.keywords}
                default, factory = kws.get("default"), kws.get("default_factory")
                init = kws.get("init", TRUE) is not FALSE
                kw = kws.get("kw_only", TRUE if kwonly else FALSE) is TRUE
                rec.ns.pop(name, None)
                if default is not None:
                    rec.ns[name] = default
            fields[name] = (default, factory, init, kw)
        rec.ns["__dataclass__"] = mk("dcfields", tuple(fields.items()))
        hidden = {"_dc_missing": mk("ext", "dataclasses.MISSING")}
        params, kws, body, defaults, kwdefaults = [], [], [], [], []
        for name, (default, factory, init, kw) in fields.items():
            d = hidden["_dc_missing"] if factory is not None else default
            if factory is not None:
                hidden["_dc_factory_" + name] = factory
                body.append(f"self.{name} = _dc_factory_{name}() if {name} is _dc_missing else {name}" if init else
                            f"self.{name} = _dc_factory_{name}()")
            elif init:
                body.append(f"self.{name} = {name}")
            if init and kw:
                kws.append(name if d is None else name + "=0")
                kwdefaults.append(d)
            elif init:
                params.append(name if d is None else name + "=0")
                if d is not None:
                    defaults.append(d)
        if self.class_lookup(t, "__post_init__")[0] is not None:
            body.append("self.__post_init__()")
        made = {}
        if opts.get("init", True) and "__init__" not in rec.ns:
            made["__init__"] = "def __init__(self, " + ", ".join(params + (["*"] + kws if kws else [])) + "):\n " + "\n ".join(body or ["pass"])
        if opts.get("eq", True) and "__eq__" not in rec.ns:
            tup = lambda o: "(" + "".join(f"{o}.{n}, " for n in fields) + ")"
            made["__eq__"] = "def __eq__(self, other):\n if other.__class__ is not self.__class__:\n  return NotImplemented\n return " + \
                tup("self") + " == " + tup("other")
        self.frames.append(nf)
        try:
            for name, text in made.items():
                try:
                    node = ast.parse(text).body[0]
                except SyntaxError:
                    self.problem("dataclass", rec.name, "a field without a default follows one with a default", "TypeError")
                    raise PathRaise("TypeError", "dataclass")
                for x in ast.walk(node):
                    if hasattr(x, "lineno"):
                        x.lineno = x.end_lineno = st.lineno
                        x.col_offset = 0
                i = self.make_func(node)
                f = self.funcs[i]
                f.closure = [hidden] + list(f.closure)
                if name == "__init__":
                    f.defaults, f.kwdefaults = defaults, kwdefaults
                rec.ns[name] = mk("func", i)
                self._own(rec.ns[name], t)
        finally:
            self.frames.pop()

    def make_func(self, st):
        f = Func()
        lam = isinstance(st, ast.Lambda)
        f.name = "<lambda>" if lam else st.name
        fr = self.fr
        pre = ""
        if getattr(fr, "classname", None):
            pre = fr.classname + "."
        elif fr.func is not None:
            pre = fr.func.qual + ".<locals>."
        f.qual = pre + f.name
        f.node = st
        f.module = fr.module
        chain = []
        if fr.func is not None or getattr(fr, "classname", None) or getattr(fr, "iscomp", False):
            if getattr(fr, "classname", None):
                chain = list(getattr(fr, "closure", []))
            else:
                chain = [fr.env] + (list(fr.func.closure) if fr.func else list(getattr(fr, "closure", [])))
        f.closure = chain
        f.defaults = [self.ev_default(d) for d in st.args.defaults]
        f.kwdefaults = [None if d is None else self.ev_default(d) for d in st.args.kw_defaults]
        f.owner = None
        f.file = fr.module.file
        f.abstract = False
        f.isgen = False
        f.memo = False
        f.ctx = False
        if not lam:
            f.isgen = self._is_gen(st)
        self.funcs.append(f)
        return len(self.funcs) - 1

    def ev_default(self, d):
        old = self.origin
        if self.origin is None:
            self.origin = "default"
        try:
            return self.ev(d)
        finally:
            self.origin = old

    @staticmethod
    def _is_gen(st):
        stack = list(st.body)
        while stack:
            x = stack.pop()
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                return True
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            stack.extend(ast.iter_child_nodes(x))
        return False

    def func(self, t):
        return self.funcs[t.args[0]]

    def st_ClassDef(self, st):
        bases = []
        for b in st.bases:
            v = self.ev(b)
            if v.op == "subscripted":
                v = v.args[0]
            bases.append(v)
        fr = self.fr
        env = {}
        nf = Frame(None, env, fr.module)
        pre = ""
        if getattr(fr, "classname", None):
            pre = fr.classname + "."
        elif fr.func is not None:
            pre = fr.func.qual + ".<locals>."
        nf.classname = pre + st.name
        if getattr(fr, "classname", None):
            nf.closure = getattr(fr, "closure", [])
        elif fr.func is not None:
            nf.closure = [fr.env] + list(fr.func.closure)
        else:
            nf.closure = []
        nf.isclass = True
        nf.anns = {}
        env["__module__"] = const(fr.module.name)
        env["__qualname__"] = const(nf.classname)
        self.frames.append(nf)
        try:
            self.collapse(self.exec_block(st.body))
        finally:
            self.frames.pop()
        ns = dict(env)
        ns["__annotations__"] = const(tuple(sorted(nf.anns)))
        rec = ClsRec(st.name, nf.classname, fr.module.name, bases, ns, st, fr.module.file)
        t = self.alloc(rec)
        for k, v in ns.items():
            self._own(v, t)
        for k, v in ns.items():
            sn = self.descr_method(v, "__set_name__") if v.op == "ref" else None
            if sn is not None:
                self.call(sn, [t, const(k)], {}, st)
        hook = next((x for x in (self.class_lookup(b, "__init_subclass__")[0] for b in bases if b.op == "cls") if x is not None), None)
        if hook is not None:
            hook = hook.args[0] if hook.op == "clsm" else hook
            self.call(mk("bound", hook, t), [], {k.arg: self.ev(k.value) for k in st.keywords if k.arg and k.arg != "metaclass"}, st)
        for d in reversed(st.decorator_list):
            dv = self.ev(d)
            if (dv.op == "ext" and dv.args[0].endswith("dataclass")) or \
                    (dv.op == "extcall" and dv.args[0].endswith("dataclass")):
                self.make_dataclass(rec, t, st, d, nf)
            elif dv.op == "func":
                t2 = self.call(dv, [t], {}, d)
                if t2.op == "cls":
                    t = t2
        self.bind_name(st.name, t)

    def _own(self, v, t):
        if v.op == "func":
            f = self.func(v)
            if f.owner is None:
                f.owner = t
        elif v.op in ("static", "clsm"):
            self._own(v.args[0], t)
        elif v.op == "property":
            for x in v.args:
                if x.op == "func":
                    self._own(x, t)

    # -- imports
    def st_Import(self, st):
        for a in st.names:
            if a.name in self.modules:
                self.load(a.name)
                top = a.name if a.asname else a.name.split(".")[0]
                self.bind_name(a.asname or top, mk("mod", top))
            else:
                nm = a.name if a.asname else a.name.split(".")[0]
                self.bind_name(a.asname or nm, mk("ext", nm))

    def resolve_rel(self, st):
        m = self.fr.module
        if not st.level:
            return st.module
        parts = m.name.split(".")
        if not self.ispkg(m):
            parts = parts[:-1]
        if st.level > 1:
            parts = parts[:len(parts) - (st.level - 1)]
        return ".".join(parts + ([st.module] if st.module else []))

    def module_public(self, m):
        allv = m.env.get("__all__")
        if allv is not None:
            items = self.seq_items(allv)
            if items is not None and all(is_const(i) for i in items):
                return [i.args[0] for i in items]
        return [k for k in m.env if not k.startswith("_")]

    def st_ImportFrom(self, st):
        name = self.resolve_rel(st)
        if name in self.modules:
            m = self.load(name)
            for a in st.names:
                if a.name == "*":
                    for k in self.module_public(m):
                        if k in m.env:
                            self.bind_name(k, m.env[k])
                        elif name + "." + k in self.modules:
                            self.load(name + "." + k)
                            self.bind_name(k, mk("mod", name + "." + k))
                        else:
                            self.problem("import-name", f"{name}.{k}", f"__all__ of {name} names {k}, which it does not define", "AttributeError")
                    continue
                if a.name in m.env:
                    self.bind_name(a.asname or a.name, m.env[a.name])
                elif name + "." + a.name in self.modules:
                    self.load(name + "." + a.name)
                    self.bind_name(a.asname or a.name, mk("mod", name + "." + a.name))
                else:
                    self.problem("import-name", f"{name}.{a.name}", f"cannot import name {a.name} from {name}", "ImportError")
                    self.bind_name(a.asname or a.name, self.unk("import"))
        else:
            if name and name.split(".")[0] in {x.split(".")[0] for x in self.modules}:
                self.problem("import-name", name or "?", f"no module {name}", "ImportError")
            for a in st.names:
                if a.name == "*":
                    self.unk(f"star import from {name}")
                    continue
                self.bind_name(a.asname or a.name, mk("ext", f"{name}.{a.name}"))

    # -- assignment
    def bind_name(self, n, v):
        fr = self.fr
        if n in fr.globals_decl:
            if self.origin != "global":
                self.globals_written.append((fr.module.name, n, self.where(), getattr(self.curnode, "lineno", 0)))
                self.effects.append(("global", f"{fr.module.name}.{n}", self.where(), getattr(self.curnode, "lineno", 0)))
            fr.module.env[n] = v
        elif n in fr.nonlocals:
            fr.nonlocals[n][n] = v
        else:
            fr.env[n] = v

    def st_Assign(self, st):
        v = self.ev(st.value)
        for t in st.targets:
            self.assign(t, v)

    def st_AnnAssign(self, st):
        if getattr(self.fr, "isclass", False) and isinstance(st.target, ast.Name):
            self.fr.anns[st.target.id] = st.annotation
        if st.value is not None:
            self.assign(st.target, self.ev(st.value))

    def st_AugAssign(self, st):
        op = BINOPS[st.op.__class__]
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id)
            v = self.aug(op, cur, self.ev(st.value))
            self.assign(t, v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            cur = self.getattr_(o, t.attr)
            v = self.aug(op, cur, self.ev(st.value))
            self.setattr_(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            i = self.ev_slice(t.slice)
            cur = self.getitem(o, i)
            v = self.aug(op, cur, self.ev(st.value))
            self.setitem(o, i, v)

    def aug(self, op, cur, v):
        cur = self.res(cur)
        r = self.rec(cur) if cur.op == "ref" else None
        if isinstance(r, ListRec) and r.kind == "list" and op == "+":
            segs = self.iter_segs(v)
            if segs is None:
                segs = (("opaque", v),)
            self.put(cur, r.with_segs(r.segs + tuple(segs)))
            return cur
        if isinstance(r, ListRec) and r.kind == "bytearray" and op == "+":
            return self.binop(op, cur, v)
        if isinstance(r, ArrRec):
            n = self.binop(op, cur, v)
            nr = self.rec(n)
            if isinstance(nr, ArrRec) and nr.shape == r.shape:
                self.arr_write(cur, r, nr.data, nr.dt)
                return cur
            return n
        return self.binop(op, cur, v)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.bind_name(t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.ev(t.value), t.attr, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack_assign(t.elts, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            self.setitem(o, self.ev_slice(t.slice), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            self.unk("assign target")

    def unpack_assign(self, elts, v):
        v = self.res(v)
        items = self.seq_items(v)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if items is None:
            n = len(elts)
            if v.op == "ite" and not star:
                ia, ib = self.seq_items(v.args[1]), self.seq_items(v.args[2])
                if ia is not None and ib is not None and len(ia) == len(ib) == n:
                    for e, x, y in zip(elts, ia, ib):
                        self.assign(e, ite(v.args[0], x, y))
                    return
            for i, e in enumerate(elts):
                self.assign(e, self.getitem(v, const(i)) if not star else self.unk("star unpack"))
            return
        if star:
            k = star[0]
            after = len(elts) - k - 1
            for e, x in zip(elts[:k], items[:k]):
                self.assign(e, x)
            mid = items[k:len(items) - after]
            self.assign(elts[k].value, self.alloc(ListRec("list", [("e", x) for x in mid])))
            for e, x in zip(elts[k + 1:], items[len(items) - after:]):
                self.assign(e, x)
            return
        if len(items) != len(elts):
            self.problem("unpack-arity", str(len(elts)), f"cannot unpack {len(items)} values into {len(elts)} targets", "ValueError")
            raise PathRaise("ValueError", "unpack arity")
        for e, x in zip(elts, items):
            self.assign(e, x)

    def seq_items(self, v):
        """Concrete list of element values, or None."""
        v = self.res(v)
        if v.op == "const" and isinstance(v.args[0], (tuple, str, bytes)):
            return [x if isinstance(x, T) else const(x) for x in v.args[0]]
        if v.op == "tuple":
            return list(v.args)
        r = self.rec(v) if v.op == "ref" else None
        if isinstance(r, ListRec):
            out = []
            for s in r.segs:
                if s[0] == "e":
                    out.append(s[1])
                elif s[0] == "rep" and is_int(s[2]) and s[2].args[0] <= self.UNROLL and len(s[3]) == 1 and not has_op(s[3][0], "idx", "ref"):
                    out.extend([s[3][0]] * s[2].args[0])
                else:
                    return None
            return out
        if isinstance(r, ArrRec):
            if len(r.shape) == 1:
                return list(r.data)
            n = r.shape[0]
            k = len(r.data) // n if n else 0
            return [self.arr_view(v, r, r.shape[1:], range(i * k, (i + 1) * k)) for i in range(n)]
        if isinstance(r, DictRec):
            return [k for k, _ in r.items]
        if v.op == "range":
            a, b, s = v.args
            if is_int(a) and is_int(b) and is_int(s):
                rr = range(a.args[0], b.args[0], s.args[0])
                if len(rr) <= self.UNROLL:
                    return [const(x) for x in rr]
            return None
        if v.op == "bytes" or v.op == "chunk":
            n = len_(v)
            if is_int(n) and n.args[0] <= self.UNROLL:
                return [unpack_("B", v, i) for i in range(n.args[0])]
        return None
