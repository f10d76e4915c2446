"""Expressions, calls and loops of the abstract interpreter."""
from __future__ import annotations

import ast
import builtins

from .interp import *
from .interp import Interp as _Base, Leaf, Node, NORMAL
from .terms import *

BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//",
          ast.Mod: "%", ast.Pow: "**", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^",
          ast.LShift: "<<", ast.RShift: ">>", ast.MatMult: "@"}
CMPOPS = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">",
          ast.GtE: ">=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
from . import interp as _i
_i.BINOPS = BINOPS

LISTY = ("list", "tuple", "bytearray", "set")


NUM_KINDS = ("uint", "int", "count", "float", "bit", "f64", "any int")   # leaves known to be numbers
# attributes of a number; a leaf may also be a numpy scalar
NUM_ATTRS = {"to_bytes", "bit_length", "real", "imag", "is_integer", "hex", "as_integer_ratio", "conjugate", "numerator",
             "denominator", "bit_count"}
NP_ATTRS = set("T all any argmax argmin argsort astype base byteswap choose clip compress conj copy cumprod cumsum data diagonal dtype "
               "dump dumps fill flags flat flatten fromhex getfield item itemsize max mean min nbytes ndim nonzero prod ptp put ravel "
               "repeat reshape resize round searchsorted setfield setflags shape size sort squeeze std strides sum swapaxes take tobytes "
               "tofile tolist tostring trace transpose var view".split())

class Exprs(_Base):
    _fexpr = {}

    def ev(self, e):
        self.tick()
        c = e.__class__
        m = Exprs._fexpr.get(c)
        if m is None:
            m = getattr(Exprs, "ex_" + c.__name__, None)
            Exprs._fexpr[c] = m
        if m is None:
            return self.unk(f"expression {c.__name__}")
        return m(self, e)

    def ex_Constant(self, e):
        return const(e.value)

    def ex_Name(self, e):
        self.curnode = e
        return self.load_name(e.id)

    def load_name(self, n):
        fr = self.fr
        if n in fr.nonlocals:
            return fr.nonlocals[n][n]
        if n not in fr.globals_decl and n in fr.env:
            v = fr.env[n]
            if v is UNDEF:
                self.problem("unbound", n, f"local variable {n} is used before it is assigned", "UnboundLocalError")
                raise PathRaise("UnboundLocalError", n)
            if v.op == "ite":
                v = self.res(v)
                v = self.drop_undef(v, "possibly-unbound", n)
            return v
        if fr.func is not None and fr.func.node is not None and not isinstance(fr.func.node, ast.Lambda):
            loc = self._locals_of(fr.func)
            if n in loc and n not in fr.globals_decl:
                self.problem("unbound", n, f"local variable {n} is used before it is assigned", "UnboundLocalError")
                raise PathRaise("UnboundLocalError", n)
        for e in (fr.func.closure if fr.func is not None else getattr(fr, "closure", ())):
            if n in e:
                return e[n]
        g = fr.module.env
        if n in g:
            v = g[n]
            if v.op == "ite":
                v = self.res(v)
            return v
        if n in ("print", "len", "range", "int", "float", "str", "bool", "property", "staticmethod",
                 "classmethod", "super", "isinstance", "issubclass", "hasattr", "getattr", "setattr",
                 "list", "tuple", "dict", "set", "bytes", "bytearray", "type", "object") or n in BUILTIN_NAMES:
            return mk("builtin", n)
        self.problem("undefined-name", n, f"name {n!r} is not defined", "NameError")
        raise PathRaise("NameError", n)

    _loc_memo = {}

    def _locals_of(self, f):
        k = id(f.node)
        m = Exprs._loc_memo.get(k)
        if m is None or m[0] is not f.node:
            s = assigned_names(f.node.body)
            a = f.node.args
            s |= {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
            gl = set()
            for x in ast.walk(f.node):
                if isinstance(x, (ast.Global, ast.Nonlocal)):
                    gl.update(x.names)
            m = (f.node, s - gl)
            Exprs._loc_memo[k] = m
        return m[1]

    def drop_undef(self, v, kind, n):
        """v may contain UNDEF branches: report them and continue on the rest."""
        if v is UNDEF:
            self.problem(kind, n, f"{n} is not assigned on some path", "UnboundLocalError" if "unbound" in kind else "AttributeError")
            raise PathRaise("UnboundLocalError", n)
        if v.op == "ite" and has_undef(v):
            c, a, b = v.args
            da = a is UNDEF or (a.op == "ite" and has_undef(a))
            db = b is UNDEF or (b.op == "ite" and has_undef(b))
            if a is UNDEF:
                self.problem(kind, n, f"{n} is not assigned when {show(c)}", "UnboundLocalError" if "unbound" in kind else "AttributeError")
                return self.drop_undef(b, kind, n)
            if b is UNDEF:
                self.problem(kind, n, f"{n} is not assigned unless {show(c)}", "UnboundLocalError" if "unbound" in kind else "AttributeError")
                return self.drop_undef(a, kind, n)
            return ite(c, self.drop_undef(a, kind, n) if da else a, self.drop_undef(b, kind, n) if db else b)
        return v

    def ex_NamedExpr(self, e):
        v = self.ev(e.value)
        self.bind_name(e.target.id, v)
        return v

    def ex_JoinedStr(self, e):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(const(x.value))
            else:
                v = self.ev(x.value)
                if v.op == "const" and x.format_spec is None and isinstance(v.args[0], (str, int)):
                    parts.append(const(str(v.args[0])))
                else:
                    sp = ""
                    if x.format_spec is not None:
                        fs = x.format_spec.values
                        sp = "".join(c.value for c in fs) if all(isinstance(c, ast.Constant) for c in fs) else "?" + ast.unparse(x.format_spec)
                    if x.conversion not in (-1, ord("s")):
                        sp = "!" + chr(x.conversion) + sp
                    parts.append(mk("fmt", v, sp))
        if all(p.op == "const" for p in parts):
            return const("".join(p.args[0] for p in parts))
        return mk("str", tuple(parts))

    def ex_Tuple(self, e):
        return self.alloc(ListRec("tuple", self.elts_segs(e.elts)))

    def ex_List(self, e):
        return self.alloc(ListRec("list", self.elts_segs(e.elts)))

    def ex_Set(self, e):
        return self.alloc(ListRec("set", self.set_order(self.elts_segs(e.elts))))

    def elts_segs(self, elts):
        segs = []
        for x in elts:
            if isinstance(x, ast.Starred):
                s = self.iter_segs(self.ev(x.value))
                segs.extend(s if s is not None else [("opaque", self.unk("star element"))])
            else:
                segs.append(("e", self.ev(x)))
        return segs

    def ex_Dict(self, e):
        items = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(v)
                r = self.rec(o)
                if isinstance(r, DictRec):
                    for kk, vv in r.items:
                        items = [(a, b) for a, b in items if a is not kk] + [(kk, vv)]
                else:
                    self.unk("dict spread")
                continue
            kt = self.ev(k)
            vt = self.ev(v)
            if any(a is kt for a, _ in items):
                items = [(a, vt if a is kt else b) for a, b in items]
            else:
                items.append((kt, vt))
        return self.alloc(DictRec(items))

    def ex_IfExp(self, e):
        c = truthy(self.truth_of(self.ev(e.test)))
        return self.fork(c, lambda: self.ev(e.body), lambda: self.ev(e.orelse))

    def fork(self, c, fa, fb):
        """Value-level conditional."""
        c = self.simp(c)
        if c.op == "const":
            return fa() if c.args[0] else fb()

        def leaf_of(f):
            def g():
                v = f()
                return Leaf("val", v, self.snap())
            return g
        comp = self.branch(c, leaf_of(fa), leaf_of(fb))
        r = self.collapse(comp)
        if r.kind == "raise":
            raise r.val if isinstance(r.val, PathRaise) else PathRaise()
        return r.val

    def ex_BoolOp(self, e):
        def go(i):
            v = self.ev(e.values[i])
            if i == len(e.values) - 1:
                return v
            c = self.truth_of(v)
            cs = self.simp(c)
            if isinstance(e.op, ast.Or):
                if cs.op == "const":
                    return v if cs.args[0] else go(i + 1)
                r = self.or_default(v, lambda: go(i + 1))
                if r is not None:
                    return r
                if is_bool(v):
                    w = self.fork(cs, lambda: TRUE, lambda: go(i + 1))
                    return w
                return self.fork(cs, lambda: v, lambda: go(i + 1))
            if cs.op == "const":
                return go(i + 1) if cs.args[0] else v
            if is_bool(v):
                return self.fork(cs, lambda: go(i + 1), lambda: FALSE)
            return self.fork(cs, lambda: go(i + 1), lambda: v)
        return go(0)

    def or_default(self, v, other):
        """`param or Default()` with an input leaf: adopt the default's shape."""
        return None

    def truth_of(self, v):
        v = self.res(v)
        if v.op == "ref":
            r = self.rec(v)
            if isinstance(r, ListRec):
                if r.segs and any(s[0] == "e" for s in r.segs):
                    return TRUE
                if not r.segs:
                    return FALSE
                return truthy(self.length(v))
            if isinstance(r, DictRec):
                return const(bool(r.items))
            if isinstance(r, ObjRec):
                m = self.lookup_method(v, "__bool__")
                if m is not None:
                    return truthy(self.call(m, [], {}, None))
                m = self.lookup_method(v, "__len__")
                if m is not None:
                    return truthy(self.call(m, [], {}, None))
                return TRUE
            return TRUE
        if v.op == "ite":
            return ite(v.args[0], self.truth_of(v.args[1]), self.truth_of(v.args[2]))
        if v.op in ("chunk", "bytes"):
            return truthy(len_(v))
        return truthy(v)

    def ex_UnaryOp(self, e):
        v = self.res(self.ev(e.operand))
        if isinstance(e.op, ast.Not):
            return neg_(self.truth_of(v))
        if isinstance(e.op, ast.USub):
            return self.neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        if v.op == "const" and isinstance(v.args[0], int):
            return const(~v.args[0])
        return mk("invert", v)

    def neg(self, v):
        if v.op == "const" and isinstance(v.args[0], (int, float)):
            return const(-v.args[0])
        r = self.rec(v) if v.op == "ref" else None
        if isinstance(r, ArrRec):
            return self.alloc(ArrRec(r.shape, [self.neg(x) for x in r.data], dt=r.dt))
        if v.op == "ite":
            return ite(v.args[0], self.neg(v.args[1]), self.neg(v.args[2]))
        if v.op == "neg":
            return v.args[0]
        return mk("neg", v)

    def ex_BinOp(self, e):
        a = self.ev(e.left)
        b = self.ev(e.right)
        self.curnode = e
        return self.binop(BINOPS[e.op.__class__], a, b)

    def binop(self, op, a, b):
        a, b = self.res(a), self.res(b)
        if a.op == "const" and b.op == "const":
            return self._constbin(op, a, b)
        if a.op == "unk" or b.op == "unk":
            return self.unk("unk operand") if a.op != "unk" else a
        if a.op == "ite" and has_ref(a):
            a = self.one_array(a)
        if b.op == "ite" and has_ref(b):
            b = self.one_array(b)
        ra = self.rec(a) if a.op == "ref" else None
        rb = self.rec(b) if b.op == "ref" else None
        if isinstance(ra, ArrRec) or isinstance(rb, ArrRec):
            return self.arr_binop(op, a, b)
        if isinstance(ra, ListRec) and ra.kind in ("list", "tuple"):
            if op == "+" and isinstance(rb, ListRec):
                return self.alloc(ListRec(ra.kind, ra.segs + rb.segs))
            if op == "*":
                return self.list_repeat(ra, b)
        if isinstance(rb, ListRec) and rb.kind in ("list", "tuple") and op == "*":
            return self.list_repeat(rb, a)
        if isinstance(ra, ObjRec):
            m = self.lookup_method(a, DUNDER.get(op, "__none__"))
            if m is not None:
                return self.call(m, [b], {}, None)
        if isinstance(rb, ObjRec):
            m = self.lookup_method(b, DUNDER.get(op, "__none__").replace("__", "__r", 1))
            if m is not None:
                return self.call(m, [a], {}, None)
        if self.is_bytes(a) or self.is_bytes(b):
            if op == "+":
                sa, sb = self.bytes_segs(a), self.bytes_segs(b)
                if sa is not None and sb is not None:
                    return bytes_(tuple(sa) + tuple(sb))
                return self.unk("bytes concat")
            if op == "*":
                x, n = (a, b) if self.is_bytes(a) else (b, a)
                if is_int(n) and n.args[0] <= 64:
                    return bytes_(tuple(self.bytes_segs(x)) * n.args[0])
                if x.op == "const" and len(x.args[0]) == 1:
                    self.next_loop += 1
                    return bytes_((("rep", self.next_loop, n, (("lit", x.args[0]),)),))
                return self.unk("bytes repeat")
        if op == "%" and a.op == "const" and isinstance(a.args[0], str):
            if rb is not None and isinstance(rb, ListRec):
                items = self.seq_items(b) or []
                return self.percent(a.args[0], items)
            return self.percent(a.args[0], [b])
        if op == "+" and (a.op == "str" or b.op == "str" or (a.op == "const" and isinstance(a.args[0], str))
                          or (b.op == "const" and isinstance(b.args[0], str))):
            pa = a.args[0] if a.op == "str" else (a,)
            pb = b.args[0] if b.op == "str" else (b,)
            return mk("str", tuple(pa) + tuple(pb))
        if a.op == "ite" and (b.op == "const" or not has_ref(a)) and op in ("+", "-", "*") and self._smallint(a) and b.op == "const":
            return ite(a.args[0], self.binop(op, a.args[1], b), self.binop(op, a.args[2], b))
        if (a.op == "const" and not isinstance(a.args[0], (int, float, bool))) or \
                (b.op == "const" and not isinstance(b.args[0], (int, float, bool))):
            self.problem("operand-type", op, f"operand {show(a)} {op} {show(b)} is not numeric", "TypeError")
            raise PathRaise("TypeError", op)
        return bin_(op, a, b)

    def _smallint(self, a):
        while a.op == "ite":
            if a.args[1].op != "const":
                return False
            a = a.args[2]
        return a.op == "const"

    def percent(self, fmt, items):
        """'%d%c' % (...) as a structured string term."""
        parts, i, k = [], 0, 0
        import re
        if "%(" not in fmt and "*" not in fmt:
            want = sum(1 for m in re.finditer(r"%[-+ 0#]*\d*(?:\.\d+)?[a-zA-Z%]", fmt) if m.group() != "%%")
            if want != len(items):
                self.problem("format", fmt, f"{want} conversions but {len(items)} values in a % format", "TypeError")
                raise PathRaise("TypeError", "format arguments")
        for m in re.finditer(r"%[-+ 0#]*\d*(?:\.\d+)?[a-zA-Z%]", fmt):
            if m.start() > i:
                parts.append(const(fmt[i:m.start()]))
            i = m.end()
            sp = m.group()
            if sp[-1] not in "diouxXeEfFgGcrsa%":
                self.problem("format", fmt, f"unsupported format character {sp[-1]!r} in {fmt!r}", "ValueError")
                raise PathRaise("ValueError", "unsupported format character")
            if sp == "%%":
                parts.append(const("%"))
                continue
            if k < len(items):
                v = items[k]
                k += 1
                if sp in ("%s", "%c") and v.op == "const" and isinstance(v.args[0], str):
                    parts.append(v)
                elif sp in ("%c", "%s") and v.op == "ite":
                    parts.append(v)
                else:
                    if sp[-1] == "d" and fractional(v):
                        v = mk("int", v)            # %d takes the integer part
                    parts.append(mk("fmt", v, sp if sp != "%d" else ""))
        if i < len(fmt):
            parts.append(const(fmt[i:]))
        return mk("str", tuple(parts))

    def _constbin(self, op, a, b):
        x, y = a.args[0], b.args[0]
        if op == "%" and isinstance(x, str):
            try:
                return const(x % y)
            except Exception:
                return self.unk("format")
        if isinstance(x, (str, bytes)) != isinstance(y, (str, bytes)) and op == "+":
            self.problem("operand-type", op, f"cannot add {x!r} and {y!r}", "TypeError")
            raise PathRaise("TypeError", op)
        if x is None or y is None:
            self.problem("none-operand", op, f"operand of {op} is None", "TypeError")
            raise PathRaise("TypeError", op)
        return bin_(op, a, b)

    def note_work(self, count, body=(), node=None):
        """A loop or an allocation of the given size, for the work bound."""
        if count is not None and not is_const(count):
            self.work.append((count, body, tuple(self.trace)) + (self.where(), getattr(node, "lineno", 0) or getattr(self.curnode, "lineno", 0)))

    def list_repeat(self, r, n):
        self.note_work(n)
        if is_int(n) and n.args[0] * len(r.segs) <= 4096:
            return self.alloc(ListRec(r.kind, r.segs * max(0, n.args[0])))
        if len(r.segs) == 1 and r.segs[0][0] == "e":
            self.next_loop += 1
            return self.alloc(ListRec(r.kind, (("rep", self.next_loop, n, (r.segs[0][1],)),)))
        return self.alloc(ListRec(r.kind, (("opaque", self.unk("list repeat")),)))

    def is_bytes(self, t):
        if t.op in ("bytes", "chunk", "bleaf", "bcarry", "encode"):
            return True
        if t.op == "const":
            return isinstance(t.args[0], (bytes, bytearray))
        if t.op == "leaf":
            return t.args[1] == "bytes"
        r = self.rec(t) if t.op == "ref" else None
        return isinstance(r, ListRec) and r.kind == "bytearray"

    def bytes_segs(self, t):
        """bytes segments of a bytes-like value."""
        t = self.res(t)
        r = self.rec(t) if t.op == "ref" else None
        if isinstance(r, ListRec) and r.kind == "bytearray":
            return self.list_to_segs(r)
        if t.op == "bcarry":
            return (("raw", t, 0, mk("len", t)),)
        return segs_of(t)

    def list_to_segs(self, r):
        out = []
        for s in r.segs:
            if s[0] == "e":
                out.append(pack_seg("B", s[1]))
            elif s[0] == "rep":
                out.append(("rep", s[1], s[2], tuple(pack_seg("B", v) for v in s[3])))
            elif s[0] == "raw":
                out.append(s[1:][0])
            elif s[0] == "bseg":
                out.append(s[1])
            else:
                return None
        return tuple(out)

    # -- comparison
    def ex_Compare(self, e):
        left = self.ev(e.left)
        res = None

        def step(i, left):
            right = self.ev(e.comparators[i])
            self.curnode = e
            c = self.compare(CMPOPS[e.ops[i].__class__], left, right)
            if i == len(e.ops) - 1:
                return c
            c = self.simp(truthy(c))
            return self.fork(c, lambda: step(i + 1, right), lambda: FALSE)
        return step(0, left)

    def compare(self, op, a, b):
        a, b = self.res(a), self.res(b)
        if op in ("in", "not in"):
            r = self.contains(b, a)
            return r if op == "in" else neg_(r)
        if a.op == "tuple" or b.op == "tuple":
            return self.unk("tuple compare")
        if op in ("==", "!=") and a.op == "ref" and b.op == "ref" and a is not b:
            ia, ib = self.seq_items(a), self.seq_items(b)
            if ia is not None and ib is not None:
                if len(ia) != len(ib):
                    return const(op == "!=")
                r = TRUE
                for x, y in zip(ia, ib):
                    r = ite(truthy(self.compare("==", x, y)), r, FALSE)
                return r if op == "==" else neg_(r)
            ra = self.rec(a)
            if isinstance(ra, ObjRec):
                m = self.lookup_method(a, "__eq__")
                if m is not None:
                    v = self.call(m, [b], {}, None)
                    return v if op == "==" else neg_(v)
                return const(op == "!=")
            return self.unk("object compare")
        if op in ("<", ">", "<=", ">=") and (a is NONE or b is NONE):
            self.problem("none-operand", op, f"comparison {op} with None", "TypeError")
            raise PathRaise("TypeError", op)
        if op in ("==", "!=") and ((a.op == "ref" and b.op == "const") or (b.op == "ref" and a.op == "const")):
            r, c = (a, b) if a.op == "ref" else (b, a)
            rr = self.rec(r)
            if isinstance(rr, ListRec):
                return const(op == "!=") if not isinstance(c.args[0], tuple) else self.unk("list compare")
            return const(op == "!=")
        return cmp_(op, a, b)

    def key_eq(self, a, b):
        a, b = self.res(a), self.res(b)
        return truthy(self.compare("==", a, b)) if a.op == b.op == "ref" else cmp_("==", a, b)

    def contains(self, cont, x):
        if cont.op == "dictkeys":
            cont = cont.args[0]
        if cont.op == "ite":
            return ite(cont.args[0], truthy(self.contains(cont.args[1], x)), truthy(self.contains(cont.args[2], x)))
        r = self.rec(cont) if cont.op == "ref" else None
        keys = None
        if isinstance(r, DictRec):
            keys = [k for k, v in r.items]
        elif isinstance(r, ListRec):
            keys = self.seq_items(cont)
        elif cont.op == "const" and isinstance(cont.args[0], (tuple, str, bytes)):
            if x.op == "const" and isinstance(cont.args[0], (str, bytes)):
                try:
                    return const(x.args[0] in cont.args[0])
                except TypeError:
                    return self.unk("in")
            keys = [const(v) for v in cont.args[0]] if isinstance(cont.args[0], tuple) else None
        elif cont.op == "range":
            a, b, s = cont.args
            if s is const(1):
                return ite(cmp_(">=", x, a), cmp_("<", x, b), FALSE)
        if keys is None:
            if isinstance(r, ListRec) and not any(y.op == "unk" for g in r.segs for v in g if isinstance(v, T) for y in subterms(v)) and \
                    all(g[0] in ("e", "rep", "carry") for g in r.segs) and x.op not in ("ref", "unk"):
                return mk("member", x, r.segs)
            return self.unk("in")
        if x.op == "const" and all(k.op == "const" for k in keys) and not (
                isinstance(r, DictRec) and any(v.op == "ite" and has_op(v, "undef") for _, v in r.items)):
            return const(any(type(k.args[0]) is not tuple and k.args[0] == x.args[0] for k in keys))
        res = FALSE
        for n, k in reversed(list(enumerate(keys))):
            c = self.key_eq(x, k)
            if isinstance(r, DictRec):
                c = ite(c, present(r.items[n][1]), FALSE)
            res = ite(c, TRUE, res)
        return res

    # -- attributes
    def ex_Attribute(self, e):
        o = self.ev(e.value)
        self.curnode = e
        return self.getattr_(o, e.attr)

    def mangle(self, n):
        if n.startswith("__") and not n.endswith("__"):
            for f in reversed(self.frames):
                if getattr(f, "classname", None):
                    return "_" + f.classname.split(".")[-1].lstrip("_") + n
                if f.func is not None and f.func.owner is not None:
                    return "_" + self.rec(f.func.owner).name.lstrip("_") + n
                break
        return n

    def mro(self, ct):
        """Linearised ancestors (class terms and ext terms)."""
        out = []

        def go(t):
            if t in out:
                out.remove(t)
            out.append(t)
            r = self.heap.get(t.args[0]) if t.op == "cls" else None
            if r is not None:
                for b in r.bases:
                    go(b)
        go(ct)
        return out

    def class_lookup(self, ct, name, after=None):
        seen = after is None
        for t in self.mro(ct):
            if not seen:
                if t is after:
                    seen = True
                continue
            r = self.heap.get(t.args[0]) if t.op == "cls" else None
            if r is not None and name in r.ns:
                return r.ns[name], t
        return None, None

    def ext_bases(self, ct):
        return [t.args[0] for t in self.mro(ct) if t.op == "ext"]

    def bind_descr(self, v, o, ct):
        if v.op == "func":
            return mk("bound", v, o)
        if v.op == "static":
            return v.args[0]
        if v.op == "clsm":
            return mk("bound", v.args[0], ct)
        if v.op == "pmethod":
            return mk("partial", self.bind_descr(v.args[0], o, ct), v.args[1], v.args[2])
        if v.op == "ref":
            g = self.descr_method(v, "__get__")
            if g is not None:
                return self.call(g, [o, ct], {}, self.curnode)
        return v

    def descr_method(self, v, name):
        """The method that makes an object in a class body a descriptor."""
        r = self.heap.get(v.args[0]) if v is not None and v.op == "ref" else None
        if isinstance(r, ObjRec) and r.cls.op == "cls":
            f = self.class_lookup(r.cls, name)[0]
            if f is not None and f.op == "func":
                return mk("bound", f, v)
        return None

    def lookup_method(self, o, name):
        r = self.rec(o)
        if not isinstance(r, ObjRec):
            return None
        if r.cls.op != "cls":
            return None
        v, t = self.class_lookup(r.cls, name)
        if v is None:
            return None
        return self.bind_descr(v, o, r.cls)

    def getattr_(self, o, name, default=None):
        o = self.res(o)
        op = o.op
        if op == "cval" and name == "value":
            return o.args[0]
        if op == "ref":
            r = self.heap.get(o.args[0])
            if isinstance(r, ObjRec):
                return self.obj_getattr(o, r, self.mangle(name), default)
            if isinstance(r, ArrRec):
                return self.arr_getattr(o, r, name)
            return mk("bmeth", o, name)
        if op == "super":
            return self.super_getattr(o, name)
        if op == "cls":
            return self.cls_getattr(o, self.mangle(name), default)
        if op == "mod":
            m = self.modules[o.args[0]]
            self.load(m.name)
            if name in m.env:
                return m.env[name]
            if m.name + "." + name in self.modules:
                self.load(m.name + "." + name)
                return mk("mod", m.name + "." + name)
            if default is not None:
                return default
            self.problem("missing-attr", f"{m.name}.{name}", f"module {m.name} has no attribute {name}", "AttributeError")
            raise PathRaise("AttributeError", name)
        if op == "ext":
            return self.ext_attr(o, name)
        if op == "structobj" and name in ("size", "format"):
            codes = self.parse_fmt(o.args[0])
            return o.args[0] if name == "format" else self.unk("Struct.size") if codes is None else const(self.fmt_size(codes))
        if op == "ite":
            if has_ref(o) or o.args[1] is NONE or o.args[2] is NONE:
                c, a, b = o.args
                return self.fork(c, lambda: self.getattr_(a, name, default), lambda: self.getattr_(b, name, default))
        if o is NONE:
            if default is not None:
                return default
            if name == "__class__":
                return mk("builtin", "NoneType")
            self.problem("none-attr", name, f"attribute {name} of None", "AttributeError")
            raise PathRaise("AttributeError", name)
        if o is UNDEF:
            self.problem("possibly-unbound", name, "undefined value used", "UnboundLocalError")
            raise PathRaise("UnboundLocalError", name)
        if op == "unk":
            return self.unk(f"attr of unknown")
        if op in ("func", "bound"):
            if name in ("__name__", "__qualname__"):
                f = self.func(o if op == "func" else o.args[0])
                return const(f.name)
            if name == "__self__" and op == "bound":
                return o.args[1]
            if name == "__func__" and op == "bound":
                return o.args[0]
        if op == "property" and name in ("fget", "fset"):
            return o.args[0 if name == "fget" else 1]
        if op == "leaf":
            v = self.leaf_attr(o, name)
            if v is not None:
                return v
        if op == "builtin":
            b = getattr(builtins, o.args[0], None)
            if b is not None and not hasattr(b, name):
                if default is not None:
                    return default
                self.problem("missing-attr", f"{o.args[0]}.{name}", f"{o.args[0]} has no attribute {name}", "AttributeError")
                raise PathRaise("AttributeError", name)
            return mk("builtin", o.args[0] + "." + name)
        if op in ("unpack", "bits", "cmp", "not", "truthy", "int", "float", "idx", "len") or \
                (op == "const" and isinstance(o.args[0], (int, float))) or (op == "bin") or \
                (op == "leaf" and o.args[1] in NUM_KINDS):
            if name in NUM_ATTRS or name.startswith("__") or op == "leaf" and name in NP_ATTRS:
                return mk("bmeth", o, name)
            if default is not None:
                return default
            self.problem("missing-attr", f"number.{name}", f"a number has no attribute {name}", "AttributeError")
            raise PathRaise("AttributeError", name)
        if op == "const" and not hasattr(o.args[0], name):
            if default is not None:
                return default
            self.problem("missing-attr", f"{type(o.args[0]).__name__}.{name}", f"{type(o.args[0]).__name__} has no attribute {name}", "AttributeError")
            raise PathRaise("AttributeError", name)
        if op in ("chunk", "bytes") and not hasattr(b"", name):
            self.problem("missing-attr", f"bytes.{name}", f"bytes has no attribute {name}", "AttributeError")
            raise PathRaise("AttributeError", name)
        return mk("bmeth", o, name)

    def leaf_attr(self, o, name):
        return None

    def obj_getattr(self, o, r, name, default=None):
        if r.cls.op == "intr":
            return self.intr_getattr(o, r, name)
        v, t = self.class_lookup(r.cls, name)
        if v is not None and v.op == "property" and len(v.args) > 2:
            # functools.cached_property: the first result stays in the instance
            if name not in r.attrs:
                x = self.call(v.args[0], [o], {}, self.curnode)
                r = self.rec(o)
                if isinstance(r, ObjRec):
                    self.put(o, r.set(name, x))
                return x
        elif v is not None and v.op == "property":
            return self.call(v.args[0], [o], {}, self.curnode)
        elif v is not None and v.op == "ref" and self.descr_method(v, "__set__") is not None and self.descr_method(v, "__get__") is not None:
            return self.bind_descr(v, o, r.cls)
        if name in r.attrs:
            x = r.attrs[name]
            if x is UNDEF or (x.op == "ite" and has_undef(x)):
                x = self.res(x)
                x = self.drop_undef(x, "possibly-missing-attr", f"{self.clsname(r.cls)}.{name}")
            return x
        if v is not None:
            if v.op == "bitfield_descr":
                return self.unk("bitfield")
            if v.op == "ite" and has_undef(v):
                v = self.drop_undef(self.res(v), "possibly-missing-attr", f"{self.clsname(r.cls)}.{name}")
            return self.bind_descr(v, o, r.cls)
        if name == "__class__":
            return r.cls
        if name == "__dict__":
            return self.alloc(DictRec([(const(k), x) for k, x in r.attrs.items()], ("objdict", o)))
        ga = self.class_lookup(r.cls, "__getattr__")[0]
        if ga is not None:
            return self.call(mk("bound", ga, o), [const(name)], {}, self.curnode)
        exts = self.ext_bases(r.cls)
        if any(x in ("ctypes.BigEndianStructure", "ctypes.LittleEndianStructure", "ctypes.Structure") for x in exts):
            return mk("bmeth", o, name)
        if any(x not in ("typing.Protocol", "abc.ABC", "typing.Generic") for x in exts):
            return self.unk(f"attribute {name} through external base")
        if default is not None:
            return default
        self.problem("missing-attr", f"{self.clsname(r.cls)}.{name}",
                     f"{self.clsname(r.cls)} object has no attribute {name!r}", "AttributeError")
        raise PathRaise("AttributeError", name)

    def clsname(self, ct):
        r = self.heap.get(ct.args[0]) if ct.op == "cls" else None
        return r.name if r is not None else str(ct.args[0])

    def cls_getattr(self, o, name, default=None):
        v, t = self.class_lookup(o, name)
        r = self.rec(o)
        if name == "__name__":
            return const(r.name)
        if name == "__qualname__":
            return const(r.qual)
        if name == "__dict__":
            return self.alloc(DictRec([(const(k), x) for k, x in r.ns.items()]))
        if name == "__mro__":
            return self.alloc(ListRec("tuple", [("e", x) for x in self.mro(o)]))
        if name == "__base__":
            return r.bases[0] if r.bases else mk("builtin", "object")
        if name == "__bases__":
            return self.alloc(ListRec("tuple", [("e", x) for x in r.bases]))
        if v is not None:
            if v.op == "static":
                return v.args[0]
            if v.op == "clsm":
                return mk("bound", v.args[0], o)
            if v.op == "ite" and has_undef(v):
                v = self.drop_undef(self.res(v), "possibly-missing-attr", f"{r.name}.{name}")
            g = self.descr_method(v, "__get__")
            if g is not None:
                return self.call(g, [NONE, o], {}, self.curnode)
            return v
        if any(x.startswith("ctypes.") for x in self.ext_bases(o)):
            return mk("bmeth", o, name)
        if any(x not in ("typing.Protocol", "abc.ABC", "typing.Generic") for x in self.ext_bases(o)):
            return self.unk(f"class attribute {name} through external base")
        if default is not None:
            return default
        if name in ("__doc__", "__module__"):
            return const("")
        self.problem("missing-attr", f"{r.name}.{name}", f"class {r.name} has no attribute {name}", "AttributeError")
        raise PathRaise("AttributeError", name)

    def super_getattr(self, s, name):
        owner, o = s.args
        ct = o if o.op == "cls" else self.rec(o).cls
        v, t = self.class_lookup(ct, name, after=owner)
        if v is None:
            if name == "__init__":
                if o.op == "ref" and any(x.endswith("Structure") for x in self.ext_bases(ct)):
                    return mk("structinit", o)
                return mk("builtin", "object.__init__")
            if name in ("__new__", "__setattr__", "__init_subclass__"):
                return mk("builtin", "object." + name) if name != "__setattr__" else mk("objsetattr", o)
            self.problem("missing-attr", f"super.{name}", f"super() has no attribute {name}", "AttributeError")
            raise PathRaise("AttributeError", name)
        if v.op == "property":
            return self.call(v.args[0], [o], {}, self.curnode)
        return self.bind_descr(v, o, ct)

    def plain_setattr(self, o, r, name, v):
        """object.__setattr__: data descriptors first, then the instance."""
        d, t = self.class_lookup(r.cls, name)
        if d is not None and d.op == "property" and len(d.args) < 3:
            if d.args[1] is NONE:
                self.problem("no-setter", f"{self.clsname(r.cls)}.{name}",
                             f"property {name} of {self.clsname(r.cls)} has no setter", "AttributeError")
                raise PathRaise("AttributeError", name)
            self.call(d.args[1], [o, v], {}, self.curnode)
            return
        ds = self.descr_method(d, "__set__")
        if ds is not None:
            self.call(ds, [o, v], {}, self.curnode)
            return
        self.note_write(o, name, v)
        self.put(o, r.set(name, self.in_bits(r.cls, name, v)))

    def in_bits(self, ct, name, v):
        """ctypes keeps the low bits of a value that need not fit its field."""
        v = self.res(v)
        if any(x.op == "leaf" and x.args[1] == "any int" for x in subterms(v)) and any(x.endswith("Structure") for x in self.ext_bases(ct)):
            w = next((n for f, _, n in (self.bit_layout(ct) or [()])[0] if f == name), None)
            if w is not None:
                return bin_("&", v, const((1 << w) - 1))
        return v

    def setattr_(self, o, name, v):
        o = self.res(o)
        name = self.mangle(name)
        if o.op == "ref":
            r = self.heap.get(o.args[0])
            if isinstance(r, ObjRec):
                if r.cls.op == "intr":
                    self.put(o, r.set(name, v))
                    return
                sa, t = self.class_lookup(r.cls, "__setattr__")
                if sa is not None:
                    self.call(mk("bound", sa, o), [const(name), v], {}, self.curnode)
                    return
                self.plain_setattr(o, r, name, v)
                return
            self.unk("setattr on builtin")
            return
        if o.op == "cls":
            r = self.heap[o.args[0]]
            ns = dict(r.ns)
            ns[name] = v
            self.put_cls(o, ClsRec(r.name, r.qual, r.module, r.bases, ns, r.node, r.file), name)
            return
        if o.op == "ite":
            c, a, b = o.args
            self.fork(c, lambda: (self.setattr_(a, name, v), NONE)[1], lambda: (self.setattr_(b, name, v), NONE)[1])
            return
        if o.op == "mod":
            if self.origin != "global":
                self.globals_written.append((o.args[0], name, self.where(), getattr(self.curnode, "lineno", 0)))
                self.effects.append(("global", f"{o.args[0]}.{name}", self.where(), getattr(self.curnode, "lineno", 0)))
            self.modules[o.args[0]].env[name] = v
            return
        if o is NONE:
            self.problem("none-attr", name, f"attribute {name} set on None", "AttributeError")
            raise PathRaise("AttributeError", name)
        self.unk("setattr")

    def note_write(self, o, name, v):
        pass

    def put_cls(self, o, rec, name):
        old = self.heap[o.args[0]]
        if self.origin != "global" and o.args[0] in getattr(self, "global_cls", ()):
            self.effects.append(("class-attr", o.args[0], f"{old.name}.{name}", self.where(), getattr(self.curnode, "lineno", 0)))
        self.heap[o.args[0]] = rec

    # -- subscripts
    def ev_slice(self, s):
        if isinstance(s, ast.Slice):
            f = lambda x: NONE if x is None else self.ev(x)
            return mk("slice", f(s.lower), f(s.upper), f(s.step))
        return self.ev(s)

    def ex_Subscript(self, e):
        o = self.ev(e.value)
        i = self.ev_slice(e.slice)
        self.curnode = e
        return self.getitem(o, i)

    def ex_Slice(self, e):
        return self.ev_slice(e)

    def ex_Starred(self, e):
        return self.ev(e.value)

    def getitem(self, o, i):
        o, i = self.res(o), self.res(i)
        r = self.rec(o) if o.op in ("ref",) else None
        self.not_lazy(o, "is not subscriptable", "subscript")
        if o.op in ("cls", "ext", "builtin", "subscripted"):
            if o.op == "cls":
                m = self.class_lookup(o, "__class_getitem__")[0]
            return mk("subscripted", o)
        if isinstance(r, ArrRec):
            return self.arr_getitem(o, r, i)
        if isinstance(r, DictRec):
            r = self.live_dict(r)
            for k, v in r.items:
                if k is i and present(v) is TRUE:
                    return v
            if i.op == "const":
                same = [v for k, v in r.items if k.op == "const" and type(k.args[0]) is not tuple and k.args[0] == i.args[0]]
                if same:
                    return same[-1] if present(same[-1]) is TRUE else self.dict_select(DictRec([(i, same[-1])]), i, None)
                self.problem("key-error", show(i), f"key {show(i)} not in dict", "KeyError")
                raise PathRaise("KeyError", show(i))
            return self.dict_select(r, i, None)
        if isinstance(r, ListRec):
            return self.list_getitem(o, r, i)
        if isinstance(r, ObjRec):
            if r.cls.op != "intr":
                m = self.lookup_method(o, "__getitem__")
                if m is not None:
                    return self.call(m, [i], {}, None)
            return self.unk("getitem object")
        if o.op == "const" and isinstance(o.args[0], (str, bytes, tuple)):
            if i.op == "const" and isinstance(i.args[0], int):
                try:
                    x = o.args[0][i.args[0]]
                    return x if isinstance(x, T) else const(x)
                except IndexError:
                    self.problem("index-error", show(i), "constant index out of range", "IndexError")
                    raise PathRaise("IndexError")
            if i.op == "slice" and all(x.op == "const" for x in i.args):
                return const(o.args[0][slice(*(x.args[0] for x in i.args))])
            if isinstance(o.args[0], (str, tuple)) and len(o.args[0]) <= 64:
                return mk("select", o, i)
            return self.unk("const index")
        if o.op in ("bytes", "chunk", "bleaf", "encode") or (o.op == "leaf" and o.args[1] == "bytes"):
            if i.op == "slice":
                lo, hi, st = i.args
                n = len_(o)
                lo = 0 if lo is NONE else lo
                if isinstance(lo, T):
                    if lo.op != "const":
                        return self.unk("slice")
                    lo = lo.args[0]
                if hi is NONE:
                    hi = n
                if is_const(hi) and isinstance(hi.args[0], int) and hi.args[0] < 0:
                    hi = bin_("+", n, hi)
                if lo < 0 and is_int(n):
                    lo = max(0, n.args[0] + lo)
                if st is const(-1) and lo == 0 and i.args[0] is NONE and i.args[1] is NONE and is_int(n) and n.args[0] <= 16:
                    ss = [segs_of(bslice(o, k, 1)) for k in reversed(range(n.args[0]))]
                    return bytes_(tuple(x for s in ss for x in s)) if None not in ss else self.unk("reversed bytes")
                if lo < 0 or st not in (NONE, const(1)):
                    return self.unk("slice")
                # clamp
                if is_const(hi) and is_const(n) and hi.args[0] > n.args[0]:
                    hi = n
                cnt = bin_("+", hi, const(-lo)) if hi.op != "const" else const(max(0, hi.args[0] - lo))
                if lo == 0 and cnt is n:
                    return o
                return bslice(o, lo, cnt.args[0] if is_const(cnt) else cnt)
            if is_int(i):
                k = i.args[0]
                n = len_(o)
                if k < 0:
                    if not is_int(n):
                        return self.unk("negative index")
                    k += n.args[0]
                return unpack_("B", o, k)
            return mk("unpack", "B", o, i)
        if o.op == "range" and is_int(i):
            return bin_("+", o.args[0], bin_("*", i, o.args[2]))
        if o.op == "ite" and (has_ref(o)):
            return self.fork(o.args[0], lambda: self.getitem(o.args[1], i), lambda: self.getitem(o.args[2], i))
        if o is NONE:
            self.problem("none-subscript", show(i), "None is not subscriptable", "TypeError")
            raise PathRaise("TypeError")
        if o.op == "unk":
            return self.unk("item of unknown")
        if self.is_number(o):
            self.problem("number-subscript", show(o)[:40], "a number is not subscriptable", "TypeError")
            raise PathRaise("TypeError", "number is not subscriptable")
        if o.op == "leaf":
            v = self.leaf_item(o, i)
            if v is not None:
                return v
        return mk("item", o, i)

    def leaf_item(self, o, i):
        return None

    def dict_select(self, r, i, default):
        """d.get(i) with an unknown key: a gated selection over the entries."""
        if len(r.items) > 400:
            return self.unk("big dict select")
        res = default
        if res is None:
            # KeyError otherwise: handled as a raise on the remaining path
            cond = FALSE
            for k, v in reversed(r.items):
                cond = ite(self.key_eq(i, k), ite(present(v), TRUE, cond), cond)

            def no():
                raise PathRaise("KeyError", "dict lookup")
            if any(self._catches(h, "KeyError") for h in self.handlers):
                c = self.simp(cond)
                if c.op != "const":
                    self.maybe_split(Leaf("raise", PathRaise("KeyError", ""), None), c)
            self.fork(cond, lambda: NONE, no)
            res = UNDEF
            for k, v in reversed(r.items):
                res = there(v) if res is UNDEF else ite(self.key_eq(i, k), ite(present(v), there(v), res), res)
            return self.res(res)
        for k, v in reversed(r.items):
            res = ite(self.key_eq(i, k), ite(present(v), there(v), res), res)
        return self.res(res)

    def canon_loop(self, l):
        while l in self.loop_alias:
            l = self.loop_alias[l]
        return l

    def list_getitem(self, o, r, i):
        items = self.seq_items(o)
        if i.op == "slice":
            if items is not None and all(x.op == "const" for x in i.args):
                sl = items[slice(*(x.args[0] for x in i.args))]
                return self.alloc(ListRec(r.kind, [("e", x) for x in sl]))
            if i.args == (NONE, NONE, NONE):
                return self.alloc(ListRec(r.kind, r.segs))
            if all(x.op == "const" for x in i.args) and i.args[2] is NONE and is_int(i.args[1]) and \
                    0 <= i.args[1].args[0] <= (i.args[0].args[0] if is_int(i.args[0]) else 0):
                return self.alloc(ListRec(r.kind, ()))
            if i.args[:2] == (NONE, NONE) and i.args[2].op == "const" and i.args[2].args[0] == -1:
                segs = self.permuted("reversed", r.segs)
                if segs is not None:
                    return self.alloc(ListRec(r.kind, segs))
            k = i.args[1]
            if i.args[0] in (NONE, ZERO) and i.args[2] in (NONE, const(1)) and len(r.segs) == 1 and r.segs[0][0] == "rep" and \
                    len(r.segs[0][3]) == 1 and nonneg(k):
                n = r.segs[0][2]
                d = lin_sub(n, k)
                if d is not None and all(nonneg(x) and c >= 0 if isinstance(x, T) else c >= 0 for x, c in d.items()):
                    n = k       # the list is at least that long
                else:
                    n = mk("minmax", "min", n, k)
                return self.alloc(ListRec(r.kind, (("rep", r.segs[0][1], n, r.segs[0][3]),)))
            # some of the elements of the list as it is now
            return self.alloc(ListRec(r.kind, (("opaque", mk("lslice", self.unk("list slice"), self.alloc(ListRec(r.kind, r.segs)))),)))
        if items is not None and is_int(i):
            try:
                return items[i.args[0]]
            except IndexError:
                self.problem("index-error", show(i), f"index {show(i)} out of range for a list of {len(items)}", "IndexError")
                raise PathRaise("IndexError")
        if is_int(i) and i.args[0] >= 0:
            k = i.args[0]
            for n, s in enumerate(r.segs):
                if s[0] != "e":
                    break
                if n == k:
                    return s[1]
        if is_int(i) and i.args[0] < 0:
            for n, s in enumerate(reversed(r.segs), 1):
                if s[0] != "e":
                    break
                if n == -i.args[0]:
                    return s[1]
        if len(r.segs) == 1 and r.segs[0][0] == "rep" and len(r.segs[0][3]) == 1:
            _, lid, cnt, vals = r.segs[0]
            if i.op == "idx":
                l2 = i.args[0]
                c2 = self.loop_info.get(self.canon_loop(l2), (None,))[0]
                if self.canon_loop(l2) == self.canon_loop(lid):
                    return vals[0]
                if c2 is not cnt and c2 is not None:
                    # indexed below a bound other than the list's own length
                    self.index_obligations.append((cnt, c2, self.where(), getattr(self.curnode, "lineno", 0)))
                    c2 = cnt
                if c2 is cnt:
                    self.loop_alias[self.canon_loop(l2)] = self.canon_loop(lid)
                    return vals[0]
        if items is not None and i.op == "idx" and all(is_const(x) for x in items) and len(set(items)) == 1:
            return items[0]
        return mk("listitem", o, i, self.next_oid) if False else self.unk("list index")

    def live_dict(self, r):
        """The dictionary; an object's __dict__ as the object is now."""
        if type(r.origin) is tuple and r.origin[0] == "objdict":
            ob = self.rec(r.origin[1])
            return DictRec([(const(k), x) for k, x in ob.attrs.items()], r.origin)
        return r

    def put(self, t, rec):
        super().put(t, rec)
        if isinstance(rec, DictRec) and type(rec.origin) is tuple and rec.origin[0] == "objdict":
            ob = self.rec(rec.origin[1])
            if all(is_const(k) and isinstance(k.args[0], str) for k, _ in rec.items):
                super().put(rec.origin[1], ObjRec(ob.cls, {k.args[0]: v for k, v in rec.items}, ob.origin))
            else:
                self.unk("write through __dict__")

    def setitem(self, o, i, v):
        o, i = self.res(o), self.res(i)
        r = self.rec(o) if o.op == "ref" else None
        if isinstance(r, DictRec):
            r = self.live_dict(r)
            over = lambda k, x: v if k is i else x if k.op == i.op == "const" else ite(self.key_eq(k, i), v, x)
            items = [(k, over(k, x)) for k, x in r.items] + ([] if any(k is i for k, _ in r.items) else [(i, v)])
            self.put(o, DictRec(items, r.origin))
            return
        if isinstance(r, ListRec):
            if i.op == "slice":
                if i.args == (NONE, NONE, NONE):
                    segs = self.iter_segs(v)
                    self.put(o, r.with_segs(segs if segs is not None else (("opaque", v),)))
                    return
                items, new = self.seq_items(o), self.seq_items(v)
                if items is not None and new is not None and all(x.op == "const" for x in i.args):
                    items[slice(*(x.args[0] for x in i.args))] = new
                    self.put(o, r.with_segs([("e", x) for x in items]))
                    return
                self.put(o, r.with_segs((("opaque", self.unk("slice assign")),)))
                return
            if is_int(i):
                items = self.seq_items(o)
                if items is not None:
                    try:
                        items[i.args[0]] = v
                    except IndexError:
                        self.problem("index-error", show(i), "list assignment index out of range", "IndexError")
                        raise PathRaise("IndexError")
                    self.put(o, r.with_segs([("e", x) for x in items]))
                    return
            if i.op == "idx":
                self.put(o, r.with_segs(r.segs + (("seti", i, v),)))
                return
            self.put(o, r.with_segs((("opaque", self.unk("list item assign")),)))
            return
        if isinstance(r, ArrRec):
            self.arr_setitem(o, r, i, v)
            return
        if isinstance(r, ObjRec) and r.cls.op != "intr":
            m = self.lookup_method(o, "__setitem__")
            if m is not None:
                self.call(m, [i, v], {}, None)
                return
        self.unk("setitem")

    # -- lengths and iteration
    def length(self, v):
        v = self.res(v)
        r = self.rec(v) if v.op == "ref" else None
        if isinstance(r, ListRec):
            return self.segs_len(r.segs)
        if isinstance(r, DictRec):
            return const(len(r.items))
        if isinstance(r, ArrRec):
            return const(r.shape[0]) if r.shape else self.unk("len of scalar array")
        if isinstance(r, ObjRec) and r.cls.op != "intr":
            m = self.lookup_method(v, "__len__")
            if m is not None:
                return self.call(m, [], {}, None)
            self.problem("no-len", self.clsname(r.cls), f"object of type {self.clsname(r.cls)} has no len()", "TypeError")
            raise PathRaise("TypeError", "len")
        if v is NONE:
            self.problem("none-len", "len", "len() of None", "TypeError")
            raise PathRaise("TypeError", "len(None)")
        if v.op == "range":
            return self.range_count(v)
        if v.op == "ite":
            return self.fork(v.args[0], lambda: self.length(v.args[1]), lambda: self.length(v.args[2]))
        if v.op in ("unpack", "bin", "idx", "int", "float") or (v.op == "const" and isinstance(v.args[0], (int, float))):
            self.problem("no-len", "number", "len() of a number", "TypeError")
            raise PathRaise("TypeError", "len")
        return len_(v)

    def segs_len(self, segs):
        n = ZERO
        for s in segs:
            if s[0] == "e":
                n = bin_("+", n, const(1))
            elif s[0] == "rep":
                n = bin_("+", n, bin_("*", s[2], const(len(s[3])))) if n is not ZERO else bin_("*", s[2], const(len(s[3])))
            elif s[0] == "carry":
                n = bin_("+", mk("clen", s[1], s[2]), n)
            elif s[0] == "ite":
                n = ite(s[1], bin_("+", n, self.segs_len(s[2])), bin_("+", n, self.segs_len(s[3])))
            elif s[0] == "seti":
                pass
            elif s[0] == "bseg":
                n = bin_("+", n, seg_len(s[1]))
            elif s[0] in ("condrep", "rep2"):
                n = bin_("+", n, self.total(s[1], s[2], self.segs_len((s[3],) if s[0] == "condrep" else s[3])))
            else:
                n = bin_("+", n, mk("len", s[1]))
        return n

    def total(self, lid, count, v):
        """Sum of v over the passes of loop lid."""
        if v.op == "const":
            return bin_("*", count, v)
        return mk("sum", lid, count, v)

    def range_count(self, v):
        a, b, s = v.args
        if s is const(1):
            return bin_("-", b, a) if a.op == "const" else (bin_("-", b, a) if a is not ZERO else b)
        if is_int(s) and s.args[0] == -1:
            return bin_("-", a, b)
        if is_int(s) and s.args[0] > 0:
            return ceildiv(bin_("-", b, a), s.args[0])
        return self.unk("range step")

    def iter_segs(self, v):
        """Iteration structure of a value as list segments, or None.  Values
        may refer to the loop index."""
        v = self.res(v)
        items = self.seq_items(v)
        if items is not None:
            return tuple(("e", x) for x in items)
        r = self.rec(v) if v.op == "ref" else None
        if isinstance(r, ListRec):
            if r.kind == "bytearray":
                return None
            return r.segs
        if v.op == "range":
            cnt = self.range_count(v)
            self.next_loop += 1
            lid = self.next_loop
            i = mk("idx", lid)
            a, b, s = v.args
            val = i if (a is ZERO and s is const(1)) else bin_("+", bin_("*", i, s), a)
            return (("rep", lid, cnt, (val,)),)
        if v.op in ("bytes", "chunk", "bleaf", "encode") or (v.op == "leaf" and v.args[1] == "bytes"):
            self.next_loop += 1
            lid = self.next_loop
            return (("rep", lid, len_(v), (mk("unpack", "B", v, mk("idx", lid)),)),)
        if v.op == "iter":
            return v.args[0]
        if v.op == "dictkeys" or v.op == "dictvalues" or v.op == "dictitems":
            rr = self.rec(v.args[0])
            if isinstance(rr, DictRec):
                if v.op == "dictkeys":
                    return tuple(("e", k) for k, _ in rr.items)
                if v.op == "dictvalues":
                    return tuple(("e", x) for _, x in rr.items)
                return tuple(("e", self.alloc(ListRec("tuple", [("e", k), ("e", x)]))) for k, x in rr.items)
        if v is NONE:
            self.problem("none-iter", "None", "None is not iterable", "TypeError")
            raise PathRaise("TypeError", "iterate None")
        if v.op in ("unpack", "bin", "bits", "len") or (v.op == "const" and isinstance(v.args[0], (int, float))):
            self.problem("not-iterable", "number", f"{show(v)} is not iterable", "TypeError")
            raise PathRaise("TypeError", "iterate number")
        if isinstance(r, ObjRec) and r.cls.op == "cls":
            m = self.lookup_method(v, "__iter__")
            if m is not None:
                return self.iter_segs(self.call(m, [], {}, None))
            self.problem("not-iterable", self.clsname(r.cls), f"{self.clsname(r.cls)} object is not iterable", "TypeError")
            raise PathRaise("TypeError", "iterate object")
        if v.op == "leaf":
            return self.leaf_iter(v)
        return None

    def leaf_iter(self, v):
        return None

    # ------------------------------------------------------------------- loops
    def st_For(self, st):
        it = self.ev(st.iter)
        it = self.res(it)
        if it.op == "ite":
            c, a, b = it.args
            return self.branch(c, lambda: self._for_over(st, a), lambda: self._for_over(st, b))
        return self._for_over(st, it)

    def _for_over(self, st, it):
        segs = self.iter_segs(it)
        if segs is None:
            self.unk("iterable")
            self.next_loop += 1
            lid = self.next_loop
            segs = (("rep", lid, mk("unk", f"count{lid}"), (mk("unk", f"elem{lid}"),)),)
        return self.run_segs(segs, lambda v: self.assign(st.target, v), st.body, st.orelse, st)

    def run_segs(self, segs, bind, body, orelse, node):
        """Execute a for loop over segments."""
        segs = list(segs)

        def go(k):
            if k == len(segs):
                return self.exec_block(orelse) if orelse else Leaf(NORMAL, None, self.snap())
            s = segs[k]
            if s[0] == "e":
                bind(s[1])
                comp = self.exec_block(body)
            elif s[0] == "rep":
                comp = self.sym_loop(s[1], s[2], s[3], bind, body, node)
            elif s[0] == "ite":
                comp = self.branch(s[1], lambda: self.run_segs(s[2], bind, body, [], node),
                                   lambda: self.run_segs(s[3], bind, body, [], node))
            else:
                self.unk(f"iterate {s[0]} segment")
                self.next_loop += 1
                comp = self.sym_loop(self.next_loop, mk("unk", f"count{self.next_loop}"),
                                     (mk("unk", f"elem{self.next_loop}"),), bind, body, node)

            if isinstance(comp, Leaf) and comp.st is None:
                if comp.kind in (NORMAL, "continue"):
                    return go(k + 1)
                comp.st = self.snap()

            def nxt(lf):
                if lf.kind in (NORMAL, "continue"):
                    return go(k + 1)
                if lf.kind == "break":
                    return Leaf(NORMAL, None, self.snap())
                return lf
            return self.map_leaves(comp, nxt)
        return go(0)

    def sym_loop(self, lid, count, vals, bind, body, node):
        """Summarise a loop with symbolic trip count."""
        if is_int(count) and count.args[0] <= 0:
            return Leaf(NORMAL, None, self.snap())
        self.loop_info.setdefault(lid, (count, self.where(), getattr(node, "lineno", 0)))

        def run():
            comp = None
            for v in vals:
                bind(v)
                c = self.exec_block(body)
                if isinstance(c, Leaf) and c.st is None:
                    c.st = self.snap()
                if comp is None:
                    comp = c
                if len(vals) > 1:
                    self.collapse(c)
            return comp if len(vals) == 1 else Leaf(NORMAL, None, self.snap())
        return self.loop_summary(lid, count, run, node)

    def loop_summary(self, lid, count, run, node, cond_fn=None):
        s0 = self.snap()
        np0, nu0 = len(self.problems), len(self.unknowns)
        items = {}                # key -> carry term ; key: ('env',n) ('attr',oid,a) ('list',oid) ('arr',oid)
        affine = {}
        early = cond0 = None
        self.loopstack.append(lid)
        try:
            for rnd in range(12):
                self.restore(s0)
                self.trace = []
                del self.problems[np0:]
                del self.unknowns[nu0:]
                self.install_carries(lid, items, affine, s0)
                cond = None
                if cond_fn is not None:
                    cond = self.simp(truthy(cond_fn()))
                    if rnd == 0:
                        cond0 = cond
                    if cond.op == "const" and not cond.args[0] and rnd == 0:
                        self.restore(s0)
                        return Leaf(NORMAL, None, self.snap())
                    if cond.op not in ("const",):
                        self.assume_true(cond)
                    if affine:
                        # the body may index a list by the induction variable
                        n = self.trip_count(lid, cond, {}, s0, s0)
                        if n.op != "whilecount":
                            self.loop_info[lid] = (n, self.where(), getattr(node, "lineno", 0))
                try:
                    comp = run()
                    comp, early = self.loop_body_end(comp)
                except PathRaise as e:
                    if (cond_fn is not None and (cond0 is None or is_const(cond0))) or (cond_fn is None and (count is None or is_const(count))) or \
                            any(self._catches(h, e.exc) for h in self.handlers):
                        raise
                    # the body raises on every path: only the empty loop
                    # gets past it
                    pr = self.problems[np0:]
                    self.raising_loops += 1
                    self.restore(s0)
                    del self.problems[np0:]
                    self.problems.extend(pr)
                    none = cmp_("==", count, ZERO) if cond_fn is None else cond0
                    self.assume(none, cond_fn is None)
                    self.trace.append(("assume", none, cond_fn is None))
                    return Leaf(NORMAL, None, self.snap())
                if comp is None:
                    # every path leaves the loop in its first iteration
                    return early
                s1 = self.snap()
                new = self.loop_diff(s0, s1, lid, items)
                if new:
                    items.update(new)
                    continue
                aff = self.find_affine(lid, items, s0, s1)
                if set(aff) - set(affine):
                    # what the body changes is found again: with the
                    # induction variables known it may be much less
                    affine = {**affine, **aff}
                    items = {k: items[k] for k in affine}
                    continue
                break
        finally:
            self.loopstack.pop()
        body_trace = tuple(s1.trace)
        if count is None:
            count = self.trip_count(lid, cond, items, s0, s1)
        if early is not None:
            count = mk("early", lid, count)
        self.loop_info[lid] = (count, self.where(), getattr(node, "lineno", 0))
        # -- post state
        self.restore(s0)
        self.note_work(count, body_trace, node)
        heap1, env1 = s1.heap, s1.env
        for oid, r in heap1.items():
            if oid not in s0.heap:
                self.heap[oid] = r
                self.elem_of[oid] = self.elem_of.get(oid, ()) + (lid,)
            elif self.own_element(oid, lid):
                self.heap[oid] = r
        self.wmap[lid] = {carry: (self.slot(s0, key), self.slot(s1, key)) for key, carry in items.items()
                          if key[0] in ("env", "attr")}
        for key, carry in items.items():
            self.apply_summary(key, carry, lid, count, s0, s1, affine)
        for k, v in env1.items():
            if k not in s0.env:
                self.env[k] = self.last_value(v, lid, count, UNDEF)
        if body_trace:
            self.trace.append(("loop", lid, count, body_trace, getattr(node, "lineno", 0)))
        if early is not None and isinstance(early, (Leaf, Node)) and not (isinstance(early, Leaf) and early.kind == "break"):
            # a return out of the loop: value unknown
            self.unk("return inside loop")
        return Leaf(NORMAL, None, self.snap())

    def assume_true(self, c):
        if c.op == "ite":
            # (a and b): both hold
            if c.args[2] is FALSE:
                self.assume_true(c.args[0])
                self.assume_true(c.args[1])
            return
        self.assume(c, True)

    def loop_body_end(self, comp):
        """Join the leaves that continue; report early exits."""
        early = []

        def go(t):
            if isinstance(t, Leaf):
                if t.kind in (NORMAL, "continue", "mixed"):
                    return Leaf(NORMAL, None, t.st)
                if t.kind == "raise":
                    return Leaf("raise", t.val, t.st)
                early.append(t)
                return Leaf("exit", None, t.st)
            a, b = go(t.a), go(t.b)
            if a.kind == NORMAL and b.kind == NORMAL:
                self.join_states(t.cond, a.st, b.st, t.base)
                return Leaf(NORMAL, None, self.snap())
            if a.kind == NORMAL or b.kind == NORMAL:
                n, o = (a, b) if a.kind == NORMAL else (b, a)
                n.st.facts[t.cond] = a.kind == NORMAL
                if o.kind == "raise":
                    n.st.trace.append(("assume", t.cond, a.kind == NORMAL))
                return n
            return a
        if isinstance(comp, Leaf) and comp.st is None:
            comp.st = self.snap()
        r = go(comp)
        if r.kind == NORMAL:
            self.restore(r.st)
            return r, (early[0] if early else None)
        if r.kind == "raise":
            raise r.val if isinstance(r.val, PathRaise) else PathRaise()
        self.restore(r.st)
        if early and early[0].kind == "break":
            return None, Leaf(NORMAL, None, self.snap())
        return None, early[0]

    def install_carries(self, lid, items, affine, s0):
        for key, c in items.items():
            v = affine.get(key, c)
            if key[0] == "env":
                self.env[key[1]] = v
            elif key[0] == "attr":
                r = self.heap[key[1]]
                a = dict(r.attrs)
                a[key[2]] = v
                self.heap[key[1]] = ObjRec(r.cls, a, r.origin)
            elif key[0] == "clsattr":
                r = self.heap[key[1]]
                ns = dict(r.ns)
                ns[key[2]] = v
                self.heap[key[1]] = ClsRec(r.name, r.qual, r.module, r.bases, ns, r.node, r.file)
            elif key[0] == "list":
                r = self.heap[key[1]]
                self.heap[key[1]] = r.with_segs((("carry", lid, key[1]),))
            elif key[0] == "arr":
                r = self.heap[key[1]]
                self.heap[key[1]] = ArrRec(r.shape, [mk("carry", lid, key, i) for i in range(len(r.data))], r.origin, r.base, r.dt)
            elif key[0] == "dict":
                r = self.heap[key[1]]
                self.heap[key[1]] = DictRec([(k, mk("carry", lid, key, i)) for i, (k, _) in enumerate(r.items)], r.origin)

    def carry_for(self, lid, key, v):
        if self.is_bytes(v):
            return mk("bcarry", lid, key)
        return mk("carry", lid, key)

    def own_element(self, oid, lid):
        """The object made in the round of an earlier loop over the same
        indices: each round of this loop works on its own one."""
        e = self.elem_of.get(oid)
        return e is not None and self.canon_loop(lid) in {self.canon_loop(x) for x in e}

    def loop_diff(self, s0, s1, lid, items):
        new = {}
        for k, v in s1.env.items():
            key = ("env", k)
            if key in items or k not in s0.env:
                continue
            if s0.env[k] is not v:
                new[key] = self.carry_for(lid, key, s0.env[k])
        for oid, r0 in s0.heap.items():
            r1 = s1.heap.get(oid)
            if r1 is r0 or r1 is None or self.own_element(oid, lid):
                continue
            if isinstance(r0, ObjRec) and isinstance(r1, ObjRec):
                for a, v in r1.attrs.items():
                    key = ("attr", oid, a)
                    if key not in items and r0.attrs.get(a) is not v:
                        new[key] = self.carry_for(lid, key, r0.attrs.get(a, UNDEF))
            elif isinstance(r0, ListRec):
                key = ("list", oid)
                if key not in items and r0.segs != r1.segs:
                    new[key] = mk("carry", lid, key)
            elif isinstance(r0, ArrRec):
                key = ("arr", oid)
                if key not in items and r0.data != r1.data:
                    new[key] = mk("carry", lid, key)
            elif isinstance(r0, DictRec):
                key = ("dict", oid)
                if key not in items and r0.items != r1.items:
                    new[key] = mk("carry", lid, key)
            elif isinstance(r0, ClsRec):
                for a, v in r1.ns.items():
                    key = ("clsattr", oid, a)
                    if key not in items and r0.ns.get(a) is not v:
                        new[key] = self.carry_for(lid, key, r0.ns.get(a, UNDEF))
        return new

    def slot(self, s, key):
        if key[0] == "env":
            return s.env.get(key[1], UNDEF)
        if key[0] == "attr":
            r = s.heap.get(key[1])
            return r.attrs.get(key[2], UNDEF) if r is not None else UNDEF
        if key[0] == "clsattr":
            return s.heap[key[1]].ns.get(key[2], UNDEF)
        return s.heap.get(key[1])

    def delta_of(self, v, c):
        """d with v == c + d and c not in d, else None."""
        if v is c:
            return ZERO
        if v.op == "bin" and v.args[0] in ("+", "-"):
            op, a, b = v.args
            if c not in set(subterms(b)):
                d = self.delta_of(a, c)
                if d is not None:
                    return bin_(op, d, b) if d is not ZERO else (b if op == "+" else self.neg(b))
            if op == "+" and c not in set(subterms(a)):
                d = self.delta_of(b, c)
                if d is not None:
                    return bin_("+", a, d) if d is not ZERO else a
        if v.op == "ite":
            d1, d2 = self.delta_of(v.args[1], c), self.delta_of(v.args[2], c)
            if d1 is not None and d2 is not None and c not in set(subterms(v.args[0])):
                return ite(v.args[0], d1, d2)
        return None

    def invariant(self, t, lid, s0):
        for x in subterms(t):
            if x.op == "idx" and self.canon_loop(x.args[0]) == self.canon_loop(lid):
                return False
            if x.op == "carry" or x.op == "bcarry":
                return False
            if x.op == "chunk" and x.args[0] >= s0:
                return False
        return True

    def find_affine(self, lid, items, s0, s1):
        aff = {}
        for key, c in items.items():
            if key[0] not in ("env", "attr") or c.op != "carry":
                continue
            v, init = self.slot(s1, key), self.slot(s0, key)
            if v is UNDEF or init is UNDEF or init.op in ("ref", "unk"):
                continue
            d = self.delta_of(v, c)
            if d is not None and d.op == "const" and isinstance(d.args[0], int):
                i = mk("idx", lid)
                aff[key] = bin_("+", bin_("*", i, d), init) if init is not ZERO else bin_("*", i, d)
        return aff

    def apply_summary(self, key, carry, lid, count, s0, s1, affine):
        init, v = self.slot(s0, key), self.slot(s1, key)
        if key[0] in ("env", "attr", "clsattr"):
            if key in affine:
                # value at loop exit
                i = mk("idx", lid)
                base = affine[key]
                d = self.delta_of_idx(affine[key], i, init)
                nv = bin_("+", init, bin_("*", count, d)) if init is not ZERO else bin_("*", count, d)
            elif init is UNDEF:
                nv = self.last_value(v, lid, count, UNDEF)
            elif carry.op == "bcarry":
                nv = self.bytes_summary(v, carry, lid, count, init)
            elif carry not in set(subterms(v)):
                nv = self.last_value(v, lid, count, init)
            else:
                d = self.delta_of(v, carry)
                if d is not None:
                    if not any(x.op in ("idx", "chunk", "carry", "ref") for x in subterms(d)):
                        nv = bin_("+", init, bin_("*", count, d))
                    else:
                        nv = bin_("+", init, mk("sum", lid, count, d))
                else:
                    nv = mk("loopval", id_of(v), lid, v, init, count)
            if key[0] == "env":
                self.env[key[1]] = nv
            elif key[0] == "attr":
                r = self.heap[key[1]]
                self.put(mk("ref", key[1]), r.set(key[2], nv))
            else:
                r = self.heap[key[1]]
                ns = dict(r.ns)
                ns[key[2]] = nv
                self.heap[key[1]] = ClsRec(r.name, r.qual, r.module, r.bases, ns, r.node, r.file)
            return
        r0, r1 = init, v
        if key[0] == "list":
            segs = r1.segs
            if segs and segs[0][0] == "carry":
                rest = segs[1:]
                if all(s[0] == "e" for s in rest):
                    new = r0.segs + ((("rep", lid, count, tuple(s[1] for s in rest)),) if rest else ())
                elif len(rest) == 1 and rest[0][0] == "seti":
                    ok = self.segs_len(r0.segs) is count or (is_int(count) and is_int(self.segs_len(r0.segs)) and count.args[0] == self.segs_len(r0.segs).args[0])
                    if ok and rest[0][1] is mk("idx", lid):
                        new = (("rep", lid, count, (rest[0][2],)),)
                    else:
                        new = (("opaque", self.unk("indexed list store")),)
                elif all(s[0] in ("e", "rep") for s in rest):
                    new = r0.segs + (("rep2", lid, count, rest),)
                elif all(s[0] == "bseg" for s in rest):
                    new = r0.segs + (("bseg", ("rep", lid, count, tuple(s[1] for s in rest))),)
                elif len(rest) == 1 and rest[0][0] == "ite":
                    new = r0.segs + (("condrep", lid, count, rest[0]),)
                else:
                    new = (("opaque", self.unk("list loop")),)
            elif len(segs) == 2 and segs[-1][0] == "carry" and segs[0][0] == "e":
                # each new element goes to the front
                new = self.permuted("reversed", (("rep", lid, count, (segs[0][1],)),)) + r0.segs
            else:
                # overwritten each iteration
                new = (("opaque", self.unk("list overwritten in loop")),)
            self.put(mk("ref", key[1]), r0.with_segs(new))
            return
        if key[0] == "arr":
            self.put(mk("ref", key[1]), ArrRec(r0.shape, [mk("loopval", 0, lid, x, y, count) for x, y in zip(r1.data, r0.data)], r0.origin, None, r0.dt))
            return
        self.put(mk("ref", key[1]), DictRec([(k, self.unk("dict loop")) for k, _ in r1.items], r0.origin))

    def delta_of_idx(self, t, i, init):
        d = None
        if t.op == "bin" and t.args[0] == "+":
            t = t.args[1]
        if t is i:
            return const(1)
        if t.op == "bin" and t.args[0] == "*":
            return t.args[2] if t.args[1] is i else t.args[1]
        return const(0) if t.op == "const" else const(1)

    def bytes_summary(self, v, carry, lid, count, init):
        segs = segs_of(v) if v.op == "bytes" else None
        if v is carry:
            return init
        if segs and segs[0][0] == "raw" and segs[0][1] is carry:
            si = self.bytes_segs(init)
            if si is not None:
                return bytes_(tuple(si) + (("rep", lid, count, tuple(segs[1:])),))
        return self.unk("bytes accumulation")

    def last_value(self, v, lid, count, init):
        if v is UNDEF:
            return init
        if v.op in ("func", "cls", "mod", "ext", "builtin"):
            return v
        if is_int(count) and count.args[0] > 0 and v.op == "const":
            return v
        return mk("last", lid, count, v, init)

    def st_While(self, st):
        test, body = st.test, list(st.body)
        # while True: if C: break; rest   ==   while not C: rest
        if isinstance(test, ast.Constant) and test.value and body and isinstance(body[0], ast.If) and \
                len(body[0].body) == 1 and isinstance(body[0].body[0], ast.Break):
            test = ast.copy_location(ast.UnaryOp(ast.Not(), body[0].test), test)
            body = list(body[0].orelse) + body[1:]
        # try concrete unrolling first
        s0 = self.snap()
        np0, nu0 = len(self.problems), len(self.unknowns)
        n = 0
        entered = None
        while n <= self.UNROLL:
            c = self.simp(truthy(self.truth_of(self.ev(test))))
            if n == 0:
                entered = c
            if c.op != "const":
                break
            if not c.args[0]:
                return self.exec_block(st.orelse) if st.orelse else None
            comp = self.exec_block(body)
            if not isinstance(comp, Leaf):
                break
            if comp.kind == "break":
                return None
            if comp.kind not in (NORMAL, "continue"):
                return comp
            if comp.st is not None:
                self.restore(comp.st)
            n += 1
        self.restore(s0)
        del self.problems[np0:]
        del self.unknowns[nu0:]
        self.next_loop += 1
        lid = self.next_loop
        self.wentry[lid] = entered
        return self.loop_summary(lid, None, lambda: self.exec_block(body), st,
                                 cond_fn=lambda: self.truth_of(self.ev(test)))

    def trip_count(self, lid, cond, items, s0, s1):
        """Trip count of `while cond` from linear induction variables."""
        self.wconds[lid] = cond
        if cond is None or cond.op == "const":
            return mk("whilecount", lid)
        # symbols: idx(lid) stands for the iteration number after affine install;
        i = mk("idx", lid)
        lens = {}
        for key in items:
            if key[0] == "list":
                r0, r1 = s0.heap[key[1]], s1.heap[key[1]]
                if r1.segs and r1.segs[0][0] == "carry" and all(s[0] == "e" for s in r1.segs[1:]):
                    k = len(r1.segs) - 1
                    lens[mk("clen", lid, key[1])] = (self.segs_len(r0.segs), k)

        def sub(t):
            return rewrite(t, lambda x: bin_("+", lens[x][0], bin_("*", i, const(lens[x][1]))) if x in lens else None)
        c = sub(cond)
        # remaining r(i) > 0
        if c.op == "cmp" and c.args[0] in ("<", "!=", ">", ">="):
            op, a, b = c.args
            if op in (">", ">="):
                a, b = b, a
            r = lin_sub(b, a)
            extra = 1 if op == ">=" else 0
        elif c.op == "truthy":
            r, extra = lin(c.args[0]), 0
        elif c.op == "cmp" and c.args[0] == "<=":
            r, extra = lin_sub(c.args[2], c.args[1]), 1
        else:
            return mk("whilecount", lid)
        if r is None:
            return mk("whilecount", lid)
        k = r.pop(i, 0)
        if c.op == "cmp" and c.args[0] == "!=":
            if k > 0:
                k, r = -k, {t: -n for t, n in r.items()}
            if k != -1:
                return mk("whilecount", lid)
        if any(x.op in ("carry", "clen", "bcarry") for t in r if isinstance(t, T) for x in subterms(t)) or k >= 0:
            return mk("whilecount", lid)
        base = unlin(r, extra)
        if k == -1:
            return base
        return ceildiv(base, -k)

    # -- comprehensions
    def comp_run(self, gens, emit):
        def go(k):
            if k == len(gens):
                emit()
                return Leaf(NORMAL, None, self.snap())
            g = gens[k]
            it = self.res(self.ev(g.iter))
            segs = self.iter_segs(it)
            if segs is None:
                self.next_loop += 1
                lid = self.next_loop
                self.unk("comprehension iterable")
                segs = (("rep", lid, mk("unk", f"count{lid}"), (mk("unk", f"elem{lid}"),)),)

            class _B:
                pass

            def body():
                c = TRUE
                if g.ifs:
                    def conds(i):
                        if i == len(g.ifs):
                            return go(k + 1)
                        t = self.simp(self.truth_of(self.ev(g.ifs[i])))
                        return self.branch(t, lambda: conds(i + 1), lambda: Leaf(NORMAL, None, self.snap()))
                    return conds(0)
                return go(k + 1)
            return self.run_segs_fn(segs, lambda v: self.assign(g.target, v), body, g.iter)
        saved = dict(self.env)
        r = self.collapse(go(0))
        if r.kind == "raise":
            raise r.val
        for n in list(self.env):
            if n not in saved and n != "%acc":
                del self.env[n]
        for g in gens:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    if n.id in saved:
                        self.env[n.id] = saved[n.id]

    def run_segs_fn(self, segs, bind, bodyfn, node):
        for s in segs:
            if s[0] == "e":
                bind(s[1])
                r = self.collapse(bodyfn())
                if r.kind == "raise":
                    raise r.val
            elif s[0] == "rep":
                lid, count, vals = s[1], s[2], s[3]
                self.loop_info.setdefault(lid, (count, self.where(), getattr(node, "lineno", 0)))

                def run():
                    for v in vals:
                        bind(v)
                        r = self.collapse(bodyfn())
                        if r.kind == "raise":
                            raise r.val
                    return Leaf(NORMAL, None, self.snap())
                r = self.loop_summary(lid, count, run, node)
                self.collapse(r)
            elif s[0] == "ite":
                r = self.collapse(self.branch(s[1], lambda: self.run_segs_fn(s[2], bind, bodyfn, node),
                                              lambda: self.run_segs_fn(s[3], bind, bodyfn, node)))
                if r.kind == "raise":
                    raise r.val
            else:
                self.unk("comprehension segment")
        return Leaf(NORMAL, None, self.snap())

    def ex_ListComp(self, e):
        acc = self.alloc(ListRec("list", ()))

        def emit():
            v = self.ev(e.elt)
            r = self.rec(acc)
            self.put(acc, r.with_segs(r.segs + (("e", v),)))
        self.comp_run(e.generators, emit)
        return acc

    def ex_GeneratorExp(self, e):
        if e is self.dropped:
            return NONE
        acc = self.ex_ListComp(e)
        self.put(acc, ListRec("iterator", self.rec(acc).segs))
        return acc

    def not_lazy(self, v, what, where):
        """Generators and iterators have neither length nor elements by number."""
        r = self.rec(v) if v is not None and v.op == "ref" else None
        if isinstance(r, ListRec) and r.kind == "iterator":
            self.problem("iterator", where, f"an iterator {what}", "TypeError")
            raise PathRaise("TypeError", where)

    def ex_SetComp(self, e):
        return self.ex_ListComp(e)

    def ex_DictComp(self, e):
        acc = self.alloc(DictRec(()))

        def emit():
            k = self.ev(e.key)
            v = self.ev(e.value)
            self.setitem(acc, k, v)
        self.comp_run(e.generators, emit)
        return acc

    def ex_Lambda(self, e):
        return mk("func", self.make_func(e))

    def ex_Yield(self, e):
        v = self.ev(e.value) if e.value is not None else NONE
        y = self.env.get("%yield")
        if y is not None:
            r = self.rec(y)
            self.put(y, r.with_segs(r.segs + (("e", v),)))
        return NONE

    def ex_YieldFrom(self, e):
        v = self.ev(e.value)
        y = self.env.get("%yield")
        segs = self.iter_segs(v)
        if y is not None:
            r = self.rec(y)
            self.put(y, r.with_segs(r.segs + tuple(segs if segs is not None else (("opaque", v),))))
        return NONE

    def ex_Await(self, e):
        return self.ev(e.value)

    # ------------------------------------------------------------------- calls
    def ex_Call(self, e):
        # zero-argument / explicit super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in self.env:
            return self.make_super([self.ev(a) for a in e.args])
        f = self.ev(e.func)
        args, kwargs = self.ev_args(e)
        self.curnode = e
        return self.call(f, args, kwargs, e)

    def ev_args(self, e):
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                items = self.seq_items(v)
                if items is None:
                    args.append(mk("starargs", v))
                else:
                    args.extend(items)
            else:
                args.append(self.ev(a))
        kwargs = {}
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                r = self.rec(v)
                if isinstance(r, DictRec):
                    for kk, vv in r.items:
                        if kk.op == "const":
                            kwargs[kk.args[0]] = vv
                else:
                    self.unk("**kwargs")
            else:
                kwargs[k.arg] = v
        return args, kwargs

    def make_super(self, args):
        if len(args) == 2:
            if args[0].op == "ref" and isinstance(self.rec(args[0]), ObjRec) and self.rec(args[0]).cls.op == "cls":
                self.problem("super-args", self.clsname(self.rec(args[0]).cls), "first argument of super() is not a class", "TypeError")
                raise PathRaise("TypeError", "super")
            return mk("super", args[0], args[1])
        fr = self.fr
        i = len(self.frames) - 1
        while i >= 0 and (self.frames[i].func is None or self.frames[i].func.owner is None):
            i -= 1
        if i < 0:
            return self.unk("super()")
        f = self.frames[i].func
        first = f.node.args.posonlyargs + f.node.args.args
        selfv = self.frames[i].env.get(first[0].arg) if first else None
        if selfv is None:
            return self.unk("super()")
        return mk("super", f.owner, selfv)

    def call(self, f, args, kwargs, node):
        f = self.res(f)
        op = f.op
        if op == "func":
            return self.call_func(f, args, kwargs, node)
        if op == "bound":
            if f.args[0].op == "func":
                return self.call_func(f.args[0], [f.args[1]] + list(args), kwargs, node)
            return self.call(f.args[0], [f.args[1]] + list(args), kwargs, node)
        if op == "cls":
            return self.instantiate(f, args, kwargs, node)
        if op == "builtin":
            return self.call_builtin(f.args[0], args, kwargs, node)
        if op == "ext":
            return self.call_ext(f.args[0], args, kwargs, node)
        if op == "bmeth":
            return self.call_bmeth(f.args[0], f.args[1], args, kwargs, node)
        if op == "intrmeth":
            return self.call_intr(f.args[0], f.args[1], args, kwargs, node)
        if op == "subscripted":
            return self.call(f.args[0], args, kwargs, node)
        if op == "static":
            return self.call(f.args[0], args, kwargs, node)
        if op == "partial":
            fn, pa, pk = f.args
            kw = dict(pk)
            kw.update(kwargs)
            return self.call(fn, list(pa) + list(args), kw, node)
        if op == "structm":
            return self.call_struct_obj(f.args[0], f.args[1], args, kwargs)
        if op == "structinit":
            self.init_bitstruct(f.args[0], args, kwargs)
            return NONE
        if op == "objsetattr":
            o = f.args[0]
            r = self.rec(o)
            if isinstance(r, ObjRec) and len(args) > 1 and self.res(args[0]).op == "const":
                self.plain_setattr(o, r, self.res(args[0]).args[0], args[1])
            else:
                self.unk("object.__setattr__")
            return NONE
        if op == "ite":
            c, a, b = f.args
            return self.fork(c, lambda: self.call(a, args, kwargs, node), lambda: self.call(b, args, kwargs, node))
        if op == "ref":
            r = self.rec(f)
            if isinstance(r, ObjRec):
                m = self.lookup_method(f, "__call__")
                if m is not None:
                    return self.call(m, args, kwargs, node)
                self.problem("not-callable", self.clsname(r.cls), f"{self.clsname(r.cls)} object is not callable", "TypeError")
                raise PathRaise("TypeError", "not callable")
            self.problem("not-callable", "value", "value is not callable", "TypeError")
            raise PathRaise("TypeError", "not callable")
        if op == "const" or op in ("unpack", "bin", "len", "cmp"):
            self.problem("not-callable", show(f), f"{show(f)} is not callable", "TypeError")
            raise PathRaise("TypeError", "not callable")
        if op == "item" or op == "leaf" or op == "unk":
            return self.call_unknown(f, args, kwargs)
        return self.call_unknown(f, args, kwargs)

    def call_unknown(self, f, args, kwargs):
        # the unknown callee may read from or write to a stream it is given
        for a in list(args) + list(kwargs.values()):
            for _ in range(2):
                if a.op != "ref":
                    break
                r = self.rec(a)
                if not isinstance(r, ObjRec):
                    break
                if r.cls.op == "intr":
                    if r.cls.args[0] == "RawOut":
                        self.trace.append(("wr", a, self.unk("written by an unknown callee")) + self.site())
                    elif r.cls.args[0] == "RawIn":
                        self.trace.append(("rd", a, self.new_chunk(self.unk("read by an unknown callee"))) + self.site())
                    break
                a = r.attrs.get("stream", NONE)
        return self.unk("call of unknown")

    def bind_params(self, f, args, kwargs):
        a = f.node.args
        pos = a.posonlyargs + a.args
        env = {}
        nd = len(f.defaults)
        fname = f.qual
        if any(x.op == "starargs" for x in args):
            for p in pos[len([x for x in args if x.op != "starargs"]):]:
                env[p.arg] = self.unk("star args")
            for p, v in zip(pos, [x for x in args if x.op != "starargs"]):
                env[p.arg] = v
            for k, v in kwargs.items():
                env[k] = v
            return env
        if len(args) > len(pos) and a.vararg is None:
            self.problem("call-arity", fname, f"{fname}() takes {len(pos)} positional arguments but {len(args)} were given", "TypeError")
            raise PathRaise("TypeError", "arity")
        for p, v in zip(pos, args):
            env[p.arg] = v
        if a.vararg is not None:
            env[a.vararg.arg] = self.alloc(ListRec("tuple", [("e", v) for v in args[len(pos):]]))
        extra = []
        names = {p.arg for p in a.args + a.kwonlyargs}
        for k, v in kwargs.items():
            if k in names:
                if k in env:
                    self.problem("call-arity", fname, f"{fname}() got multiple values for argument {k!r}", "TypeError")
                    raise PathRaise("TypeError", "arity")
                env[k] = v
            else:
                extra.append((k, v))
        if a.kwarg is not None:
            env[a.kwarg.arg] = self.alloc(DictRec([(const(k), v) for k, v in extra]))
        elif extra:
            self.problem("call-arity", fname, f"{fname}() got an unexpected keyword argument {extra[0][0]!r}", "TypeError")
            raise PathRaise("TypeError", "arity")
        for i, p in enumerate(pos):
            if p.arg not in env:
                k = i - (len(pos) - nd)
                if k < 0:
                    self.problem("call-arity", fname, f"{fname}() missing required argument {p.arg!r}", "TypeError")
                    raise PathRaise("TypeError", "arity")
                env[p.arg] = f.defaults[k]
        for p, d in zip(a.kwonlyargs, f.kwdefaults):
            if p.arg not in env:
                if d is None:
                    self.problem("call-arity", fname, f"{fname}() missing keyword argument {p.arg!r}", "TypeError")
                    raise PathRaise("TypeError", "arity")
                env[p.arg] = d
        return env

    def call_memo(self, f, ft, args, kwargs, node):
        """A call of a function under functools.lru_cache: the arguments are hashed, and the
        result is kept and given to every later call with equal arguments."""
        for a in list(args) + list(kwargs.values()):
            r = self.rec(a) if a.op == "ref" else None
            bad = isinstance(r, (DictRec, ArrRec)) or isinstance(r, ListRec) and r.kind not in ("tuple", "gen", "bytes")
            if isinstance(r, ObjRec):
                own = [c for c in self.mro(r.cls) if c.op == "cls" and ("__eq__" in self.rec(c).ns or "__hash__" in self.rec(c).ns)]
                bad = bool(own) and "__hash__" not in self.rec(own[0]).ns
            if bad:
                self.problem("unhashable", f.qual, f"an unhashable argument reaches {f.qual}, whose results are cached", "TypeError")
                raise PathRaise("TypeError", f"an unhashable argument of {f.qual}")
        line = getattr(self.curnode, "lineno", 0) or f.node.lineno
        f.memo = None
        try:
            v = self.call_func(ft, args, kwargs, node)
        finally:
            f.memo = True
        refs = [self.rec(x) for x in subterms(v) if x.op == "ref"]
        if any(isinstance(x, (DictRec, ArrRec, ObjRec)) or isinstance(x, ListRec) and x.kind == "list" for x in refs):
            self.effects.append(("memo", f.qual, "hands out one mutable object to every caller", f.node.lineno))
        given = {x for a in list(args) + list(kwargs.values()) for x in subterms(a)}
        objs = [a for a in list(args) + list(kwargs.values()) if a.op == "ref" and isinstance(self.rec(a), ObjRec)]
        if objs and (v.op == "ref" or any(x.op in ("leaf", "ite", "len", "seqlen") and x not in given for x in subterms(v))):
            self.effects.append(("memo", f.qual, "answers from the first call after the object it was asked about has changed", f.node.lineno))
        return v

    def call_func(self, ft, args, kwargs, node):
        f = self.func(ft)
        if f.memo:
            return self.call_memo(f, ft, args, kwargs, node)
        if self.call_hook is not None:
            r = self.call_hook(self, f, args, kwargs)
            if r is not None:
                return r
        if f.isgen and not f.ctx and node is not None and node is self.dropped:
            return NONE     # a generator that is never advanced runs nothing
        if f.ctx:
            return mk("ctxcall", ft, tuple(args), tuple(sorted(kwargs.items())))
        p = self.prims.get(ft)
        if p is not None and not kwargs and len(args) == (1 if self.func(ft).node.args.args[1:] == [] else 2):
            r = p(args, node)
            if r is not None:
                self.called.add((f.module.name, f.qual))
                return r
        if len(self.frames) > self.MAXDEPTH:
            return self.unk("recursion limit")
        env = self.bind_params(f, args, kwargs)
        self.called.add((f.module.name, f.qual))
        fr = Frame(f, env, f.module)
        fr.callline = getattr(self.curnode, "lineno", 0)
        self.frames.append(fr)
        save_node = self.curnode
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body)
            if f.isgen:
                env["%yield"] = self.alloc(ListRec("list", ()))
            comp = self.exec_block(f.node.body)
            if isinstance(comp, Leaf) and comp.kind == NORMAL:
                if comp.st is not None:
                    self.restore(comp.st)
                val = NONE
            else:
                r = self.collapse(comp)
                if r.kind == "raise":
                    raise r.val if isinstance(r.val, PathRaise) else PathRaise()
                val = r.val if r.val is not None else NONE
            if f.isgen:
                y = fr.env["%yield"]
                self.put(y, ListRec("iterator", self.rec(y).segs))
                return y
            return val
        finally:
            self.frames.pop()
            self.curnode = save_node

    def abstract_methods(self, ct):
        if "typing.Protocol" not in self.ext_bases(ct) and "abc.ABC" not in self.ext_bases(ct):
            return []
        names = {}
        for t in reversed(self.mro(ct)):
            r = self.heap.get(t.args[0]) if t.op == "cls" else None
            if r is None:
                continue
            for k, v in r.ns.items():
                if v.op == "func":
                    names[k] = self.func(v).abstract
                elif v.op == "property" and v.args[0].op == "func":
                    names[k] = self.func(v.args[0]).abstract
                elif k in names:
                    names[k] = False
        return sorted(k for k, v in names.items() if v)

    def instantiate(self, ct, args, kwargs, node):
        r = self.rec(ct)
        exts = self.ext_bases(ct)
        if any(x.endswith("Structure") for x in exts):
            return self.make_bitstruct(ct, args, kwargs)
        if any(x in ("enum.Enum", "enum.IntEnum", "enum.IntFlag", "enum.Flag") for x in exts):
            return args[0] if args else self.unk("enum")
        am = self.abstract_methods(ct)
        if am:
            self.problem("abstract-instantiation", r.name, f"cannot instantiate {r.name}: abstract methods {', '.join(am)}", "TypeError")
            raise PathRaise("TypeError", "abstract")
        o = self.alloc(ObjRec(ct, {}))
        init, t = self.class_lookup(ct, "__init__")
        if init is None:
            if (args or kwargs) and not any(x not in ("typing.Protocol", "abc.ABC", "typing.Generic") for x in exts):
                self.problem("call-arity", r.name, f"{r.name}() takes no arguments", "TypeError")
                raise PathRaise("TypeError", "arity")
            return o
        self.call(mk("bound", init, o), args, kwargs, node)
        return o


DUNDER = {"+": "__add__", "-": "__sub__", "*": "__mul__", "/": "__truediv__", "@": "__matmul__",
          "//": "__floordiv__", "%": "__mod__", "**": "__pow__", "&": "__and__", "|": "__or__"}


def has_undef(v):
    return any(x is UNDEF for x in subterms(v))


def has_ref(v):
    st = [v]
    while st:
        x = st.pop()
        if x.op == "ite":
            st.extend(x.args[1:])
        elif x.op in ("ref", "cls", "func", "bound", "mod", "ext", "bmeth", "intrmeth"):
            return True
    return False


def id_of(v):
    return 0


def lin(t):
    """Linear form {atom|1: coef} of an integer term."""
    if t.op == "const" and isinstance(t.args[0], (int,)):
        return {1: int(t.args[0])}
    if t.op == "bin" and t.args[0] in ("+", "-"):
        a, b = lin(t.args[1]), lin(t.args[2])
        if a is None or b is None:
            return None
        r = dict(a)
        for k, v in b.items():
            r[k] = r.get(k, 0) + (v if t.args[0] == "+" else -v)
        return {k: v for k, v in r.items() if v}
    if t.op == "neg":
        a = lin(t.args[0])
        return None if a is None else {k: -v for k, v in a.items()}
    if t.op == "bin" and t.args[0] == "*":
        a, b = t.args[1], t.args[2]
        if is_int(a):
            a, b = b, a
        if is_int(b):
            x = lin(a)
            return None if x is None else {k: v * b.args[0] for k, v in x.items() if v * b.args[0]}
    return {t: 1}


def lin_sub(a, b):
    return lin(bin_("-", a, b))


def ceildiv(t, k):
    """Number of steps of k it takes to go through t."""
    r = lin(t)
    if r is None:
        return bin_("//", bin_("+", t, const(k - 1)), const(k))
    whole = {a: n // k for a, n in r.items() if isinstance(a, T) and n % k == 0}
    rest = {a: n for a, n in r.items() if a not in whole}
    q = unlin(whole) if whole else ZERO
    c = rest.pop(1, 0) + k - 1
    if not rest:
        return bin_("+", q, const(c // k))
    return bin_("+", q, bin_("//", unlin(rest, c), const(k)))


def unlin(r, extra=0):
    c = r.get(1, 0) + extra
    t = None
    for k in sorted((k for k in r if isinstance(k, T)), key=lambda x: x.n):
        term = bin_("*", k, const(r[k])) if r[k] != 1 else k
        t = term if t is None else bin_("+", t, term)
    if t is None:
        return const(c)
    return bin_("+", t, const(c)) if c else t
