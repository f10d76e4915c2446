"""Codec models: every record / PDU class lowered to its wire-event tree.

For a class C the analysis derives, from the current source,
  * the tree of reads its parse() performs and the state it leaves behind,
  * the tree of writes serialize() performs on that state (re-encode), and
  * the writes serialize() performs on an arbitrary instance whose scalar
    attributes are symbols and whose lists have symbolic length.
Reads and writes are then aligned byte by byte.
"""
from __future__ import annotations

import re

from .interp import ObjRec, ListRec, ClsRec, ArrRec, DictRec, PathRaise, Budget, AnalysisError
from .models import Interp
from .terms import *
from . import terms as tm

OK, BAD, UNKNOWN = "ok", "bad", "unknown"


class Finding:
    """One rule instance that failed (or could not be decided)."""

    def __init__(self, rule, construct, msg, where="", line=0, file="", sure=True):
        self.rule, self.construct, self.msg = rule, construct, msg
        self.where, self.line, self.file, self.sure = where, line, file, sure

    @property
    def key(self):
        return f"{self.rule}:{self.construct}"

    def __repr__(self):
        return f"{self.key}: {self.msg} [{self.where}:{self.line}]"


class Program:
    """The interpreted repository plus cached class models."""

    def __init__(self, root):
        self.I = Interp(root)
        self.I.load_all()
        self.root = root
        self.models = {}
        mods = self.I.modules
        self.heap0 = set(self.I.heap)
        self.I.global_cls = self.heap0
        self.dis = self._find_cls("DataInputStream")
        self.dos = self._find_cls("DataOutputStream")
        from .prims import summarise
        self.prims = self.I.prims = summarise(self)

    def _find_cls(self, name, mod=None):
        for n, m in sorted(self.I.modules.items()):
            v = m.env.get(name)
            if v is not None and v.op == "cls" and (mod is None or n == mod):
                return v
        return None

    def classes(self):
        """Every class defined in the package, in source order."""
        out, seen = [], set()
        for n, m in sorted(self.I.modules.items()):
            for k, v in m.env.items():
                if v.op == "cls" and v not in seen:
                    r = self.I.rec(v)
                    if isinstance(r, ClsRec) and r.module in self.I.modules:
                        seen.add(v)
                        out.append(v)
        return out

    def codec_classes(self):
        """Concrete classes with an instance parse() and serialize()."""
        out = []
        for c in self.classes():
            p = self.I.class_lookup(c, "parse")[0]
            s = self.I.class_lookup(c, "serialize")[0]
            if p is None or s is None or p.op != "func" or s.op != "func":
                continue
            if self.I.abstract_methods(c):
                continue
            if any(x in ("typing.Protocol",) for x in [b.args[0] for b in self.I.rec(c).bases if b.op == "ext"]):
                continue
            out.append(c)
        return out

    def subclasses(self, c):
        return [d for d in self.classes() if d is not c and c in self.I.mro(d)]

    def isolated(self):
        return Isolated(self.I)

    def model_heap0(self):
        """Heap ids that exist after importing the package."""
        return self.heap0

    def model(self, c):
        m = self.models.get(c)
        if m is None:
            m = ClassModel(self, c)
            self.models[c] = m
        return m

    def all_models(self):
        return [self.model(c) for c in self.codec_classes()]

    def contained(self):
        """class -> containers that parse it as (part of) their own content."""
        if getattr(self, "_contained", None) is None:
            out = {}
            for m in self.all_models():
                for v in m.variants():
                    for r in v.reach:
                        if r is not m.c:
                            out.setdefault(r, set()).add(m.name)
            self._contained = out
        return self._contained

    def bodies(self):
        """Classes whose parse() starts after a header read by a container
        (it is told the record's declared length): they are analysed inside
        the containers that parse them, not on their own."""
        return {m.c: sorted(self.contained().get(m.c, ())) for m in self.all_models() if m.needs_length() or m.wants_length() and m.c in self.contained()}


class Isolated:
    """Run analysis steps without disturbing the interpreter's global state."""

    def __init__(self, I):
        self.I = I

    def __enter__(self):
        I = self.I
        self.s = (dict(I.heap), list(I.trace), dict(I.facts), len(I.problems), len(I.unknowns), len(I.effects),
                  len(I.globals_written), set(I.frozen))
        I.trace, I.facts = [], {}
        return self

    def problems(self):
        return self.I.problems[self.s[3]:]

    def unknowns(self):
        return self.I.unknowns[self.s[4]:]

    def effects(self):
        return self.I.effects[self.s[5]:]

    def __exit__(self, *a):
        I = self.I
        I.heap, I.trace, I.facts = self.s[0], self.s[1], self.s[2]
        del I.problems[self.s[3]:]
        del I.unknowns[self.s[4]:]
        del I.effects[self.s[5]:]
        del I.globals_written[self.s[6]:]
        I.frozen = self.s[7]
        return False


class Phase:
    """Outcome of abstractly running one method."""
    __slots__ = ("name", "ok", "exc", "note", "problems", "unknowns", "trace", "heap", "facts", "ret", "effects", "work")

    def __init__(self, name):
        self.name = name
        self.ok, self.exc, self.note = False, None, ""
        self.problems, self.unknowns, self.trace, self.heap, self.facts = [], [], [], None, {}
        self.ret = None
        self.effects = []
        self.work = []


def outer_writes(evs, heap):
    """The trace without what was written to memory streams made on the way."""
    def inner(o):
        r = heap.get(o.args[0]) if o is not None and o.op == "ref" else None
        return getattr(getattr(r, "cls", None), "op", "") == "intr" and r.cls.args[0] == "BytesIO"
    out = []
    for e in evs:
        if e[0] == "wr" and inner(e[1]):
            continue
        if e[0] == "if":
            e = (e[0], e[1], outer_writes(e[2], heap), outer_writes(e[3], heap)) + tuple(e[4:])
        elif e[0] == "loop":
            e = tuple(e[:3]) + (outer_writes(e[3], heap),) + tuple(e[4:])
        out.append(e)
    return out


def run_phase(I, name, thunk, heap=None, facts=None):
    ph = Phase(name)
    p0, u0, e0 = len(I.problems), len(I.unknowns), len(I.effects)
    I.work = []
    I.splits = 0
    if heap is not None:
        I.heap = dict(heap)
    I.trace = []
    I.facts = dict(facts or {})
    nfr = len(I.frames)
    nlo = len(I.loopstack)
    nh = len(I.handlers)
    try:
        ph.ret = thunk()
        ph.ok = True
    except PathRaise as e:
        ph.exc, ph.note = e.exc, e.note
    except (Budget, RecursionError) as e:
        ph.exc, ph.note = "analysis", f"budget: {type(e).__name__}"
        I.unknowns.append(("budget", name, 0))
    except (AnalysisError, KeyError, ValueError, TypeError, AttributeError, IndexError, AssertionError, NotImplementedError) as e:
        import os
        if os.environ.get("SA_DEBUG"):
            raise
        ph.exc, ph.note = "analysis", f"{type(e).__name__}: {e}"
        I.unknowns.append((f"analysis {type(e).__name__}: {e}", name, 0))
    del I.frames[nfr:]
    del I.loopstack[nlo:]
    del I.handlers[nh:]
    del I.hdepth[nh:]
    ph.problems = list(I.problems[p0:])
    ph.unknowns = list(I.unknowns[u0:])
    ph.effects = list(I.effects[e0:])
    ph.trace = outer_writes(I.trace, I.heap)
    ph.work = I.work
    ph.heap = dict(I.heap)
    ph.facts = dict(I.facts)
    return ph


# -------------------------------------------------------------------- class model
class ClassModel:
    def __init__(self, prog, c):
        self.prog, self.I, self.c = prog, prog.I, c
        r = self.I.rec(c)
        self.name, self.qual, self.file = r.name, r.qual, r.file
        self.line = r.node.lineno if r.node is not None else 0
        self.module = r.module
        self.base_heap = dict(self.I.heap)
        self.synthetic = False
        self.variants_ = None
        with prog.isolated():
            self._build()

    # -- running pieces
    def _streams(self, heap):
        pass

    def construct(self, c=None):
        return run_phase(self.I, self.name + ".__init__", lambda: self.I.call(c or self.c, [], {}, None), self.base_heap)

    def _build(self):
        I = self.I
        self.ctor = self.construct()
        if not self.ctor.ok and self.ctor.exc == "ValueError" and self.prog.subclasses(self.c) or \
                (not self.ctor.ok and self.ctor.exc == "ValueError" and self.ctor.note == "explicit raise"):
            # A family base: analysed through a subclass that supplies the
            # class-level identity the constructor insists on.
            r = I.rec(self.c)
            ns = {"pduType": const(0), "protocolFamily": const(0)}
            with_heap = dict(self.base_heap)
            I.heap = with_heap
            sub = I.alloc(ClsRec(r.name, r.qual, r.module, (self.c,), ns, r.node, r.file))
            self.base_heap = dict(I.heap)
            c2 = self.construct(sub)
            if c2.ok:
                self.synthetic = True
                self.ctor_default = self.ctor
                self.ctor = c2
        self.obj = self.ctor.ret if self.ctor.ok and self.ctor.ret.op == "ref" else None
        self.parse = self.fwd = None
        if self.obj is None:
            return
        self.parse = self.run_parse(self.ctor.heap, self.obj)
        if self.parse.ok:
            self.fwd = self.run_serialize(self.parse.heap, self.obj, self.parse.facts)

    def parse_params(self):
        f = self.I.class_lookup(self.c, "parse")[0]
        fn = self.I.func(f)
        a = fn.node.args
        return [x.arg for x in a.posonlyargs + a.args][1:], fn

    def run_parse(self, heap, obj, facts=None, extra=None):
        I = self.I

        def go():
            din = I.call(self.prog.dis, [I.raw_in()], {}, None)
            m = I.getattr_(obj, "parse")
            args = [din]
            ps, _ = self.parse_params()
            fn = I.func(I.class_lookup(self.c, "parse")[0])
            nreq = len(ps) - len(fn.node.args.defaults)
            if len(ps) > 1 and (nreq > 1 or self.wants_length()):
                args.append(extra if extra is not None else leaf("bytelength", "uint"))
            I.trace = []
            return I.call(m, args, {}, None)
        return run_phase(I, self.name + ".parse", go, heap, facts)

    def needs_length(self):
        ps, fn = self.parse_params()
        return len(ps) - len(fn.node.args.defaults) > 1

    def wants_length(self):
        ps, fn = self.parse_params()
        return len(ps) > 1

    def run_serialize(self, heap, obj, facts=None):
        I = self.I

        def go():
            dout = I.call(self.prog.dos, [I.raw_out()], {}, None)
            I.trace = []
            return I.call(I.getattr_(obj, "serialize"), [dout], {}, None)
        return run_phase(I, self.name + ".serialize", go, heap, facts)

    def run_method(self, heap, obj, name, args=(), facts=None):
        I = self.I
        return run_phase(I, f"{self.name}.{name}", lambda: I.call(I.getattr_(obj, name), list(args), {}, None), heap, facts)

    def run_getattr(self, heap, obj, name, facts=None):
        I = self.I
        return run_phase(I, f"{self.name}.{name}", lambda: I.getattr_(obj, name), heap, facts)

    # -- symbolic instances
    def unbounded(self):
        """The variants with numbers that need not fit the fields they are decoded from."""
        if self.parse is None or not self.parse.ok:
            return []
        with self.prog.isolated():
            return Symboliser(self, True).run()

    def variants(self):
        """[(label, heap, leaves, reader facts)] — arbitrary instances shaped
        like what parse produces, one per polymorphic alternative."""
        if self.variants_ is None:
            self.variants_ = []
            if self.parse is not None and self.parse.ok:
                with self.prog.isolated():
                    self.variants_ = Symboliser(self).run()
        return self.variants_


class Variant:
    def __init__(self, label, heap, facts, leaves, choice, repmap, reach=()):
        self.reach = reach
        self.label, self.heap, self.facts, self.leaves = label, heap, facts, leaves
        self.choice, self.repmap = choice, repmap


def scalar_kind(t):
    """Leaf kind of a decoded scalar."""
    if t.op == "unpack":
        c = t.args[0][0]
        if c in "fde":
            return "float"
        if c == "?":
            return "bool"
        return "uint" if c in "BHILQu" else "int"
    if t.op == "bits":
        return "uint"
    if t.op == "const":
        v = t.args[0]
        if isinstance(v, bool):
            return "bool"
        if isinstance(v, int):
            return "int"
        if isinstance(v, float):
            return "float"
        if isinstance(v, (bytes, bytearray)):
            return "bytes"
        if isinstance(v, str):
            return "str"
        return None
    if t.op in ("chunk", "bytes", "bleaf"):
        return "bytes"
    if t.op in ("bin", "neg", "int", "len"):
        ks = {scalar_kind(x) for x in t.args if isinstance(x, T)} - {None}
        if "float" in ks:
            return "float"
        return "int" if ks else None
    if t.op == "ite":
        a, b = scalar_kind(t.args[1]), scalar_kind(t.args[2])
        if a == b:
            return a
        if {a, b} <= {"int", "uint"}:
            return "int"
        return None
    if t.op in ("decode", "str"):
        return "str"
    if tm.is_bool(t):
        return "bool"
    return None


class Symboliser:
    def __init__(self, model, unbounded=False):
        self.m = model
        self.unbounded = unbounded
        self.I = model.I
        self.points = {}          # path -> [(label, facts, term)]

    def run(self):
        # discover choice points first
        out = []
        base = {}
        seen = set()
        todo = [dict(base)]
        while todo and len(out) < 64:
            choice = todo.pop(0)
            key = tuple(sorted(choice.items()))
            if key in seen:
                continue
            seen.add(key)
            self.points = {}
            self.choice = choice
            self.I.heap = dict(self.m.parse.heap)
            self.facts = {}
            self.leaves = {}
            self.repmap = {}
            self.memo = {}
            self.sym_obj(self.m.obj, "", in_place=True)
            reach = {self.I.heap[n.args[0]].cls for n in self.memo.values() if isinstance(self.I.heap[n.args[0]], ObjRec)}
            label = ",".join(f"{p}={self.points[p][min(choice.get(p, 0), len(self.points[p]) - 1)][0]}" for p in sorted(self.points)) or "-"
            out.append(Variant(label, dict(self.I.heap), dict(self.facts), dict(self.leaves), dict(choice), dict(self.repmap), reach))
            for p, alts in self.points.items():
                for i in range(len(alts)):
                    if i != choice.get(p, 0):
                        c2 = dict(choice)
                        c2[p] = i
                        todo.append(c2)
        return out

    def alternatives(self, t):
        """Leaves of an ite tree that contains references: [(label, facts, term)]."""
        out = []

        def go(x, facts):
            if x.op == "ite":
                go(x.args[1], facts + [(x.args[0], True)])
                go(x.args[2], facts + [(x.args[0], False)])
            elif x is UNDEF:
                pass
            else:
                lab = "None" if x is NONE else (self.I.clsname(self.I.rec(x).cls) if x.op == "ref" and isinstance(self.I.rec(x), ObjRec) else "value")
                out.append((lab, facts, x))
        go(t, [])
        return out

    def sym(self, t, path):
        I = self.I
        if t.op == "ite" and _has_ref_or_none(t):
            alts = [a for a in self.alternatives(t)
                    if not any(self.known(c) is not None and self.known(c) != v for c, v in a[1])]
            if any(a[2] is NONE for a in alts):
                # a record without content is written as no bytes at all, the
                # same as its absence
                alts = [a for a in alts if not (a[2].op == "ref" and isinstance(I.rec(a[2]), ObjRec)
                                                and not any(not is_padding(k) for k in I.rec(a[2]).attrs))]
            if not alts:
                return I.unk("no alternative")
            if len(alts) > 1:
                self.points[path] = alts
            i = self.choice.get(path, 0) if len(alts) > 1 else 0
            lab, facts, x = alts[min(i, len(alts) - 1)]
            for c, v in facts:
                self.facts[c] = v
            return self.sym(x, path)
        if t.op == "ref":
            r = I.rec(t)
            if isinstance(r, ObjRec):
                return self.sym_obj(t, path)
            if isinstance(r, ListRec):
                return self.sym_list(t, r, path)
            if isinstance(r, DictRec):
                n = I.alloc(DictRec([(k, self.sym(v, f"{path}[{show(k)}]")) for k, v in r.items]))
                return n
            return t
        if t is NONE or t.op in ("cls", "func", "bound", "ext", "builtin", "mod", "intr"):
            return t
        n = 0
        while t.op == "ite" and n < 200:
            d = self.known(t.args[0])
            if d is None:
                break
            t = t.args[1] if d else t.args[2]
            n += 1
        if t is NONE:
            return t
        k = scalar_kind(t)
        if self.unbounded and k in ("uint", "int"):
            self.leaves[path] = t
            return leaf(path, "any int")
        l = leaf(path, k)
        self.leaves[path] = t
        bv = tm.bitvec(t) if not is_const(t) else None
        if bv is not None:
            w = tm.LEAF_WIDTH.get(l)
            tm.LEAF_WIDTH[l] = len(bv) if w is None else max(w, len(bv))
        elif k == "bool":
            tm.LEAF_WIDTH[l] = 1
        return l

    def sym_obj(self, t, path, in_place=False):
        I = self.I
        if t in self.memo:
            return self.memo[t]
        r = I.rec(t)
        if r.cls.op == "intr":
            return t
        n = t if in_place else I.alloc(ObjRec(r.cls, {}, None))
        self.memo[t] = n
        attrs = {}
        for k, v in r.attrs.items():
            attrs[k] = self.sym(v, f"{path}.{k}" if path else k)
        I.heap[n.args[0]] = ObjRec(r.cls, attrs, None)
        return n

    def known(self, c):
        if c in self.facts:
            return self.facts[c]
        n = neg_(c)
        if n in self.facts:
            return not self.facts[n]
        if c.op == "cmp" and c.args[0] == "==":
            for f, v in self.facts.items():
                if v and f.op == "cmp" and f.args[0] == "==" and f.args[1] is c.args[1] and f.args[2] is not c.args[2] \
                        and is_const(f.args[2]) and is_const(c.args[2]):
                    return False
        return None

    def resolve_segs(self, r, path):
        out = []

        def go(segs, k):
            for s in segs:
                if s[0] == "ite":
                    d = self.known(s[1])
                    if d is None:
                        q = f"{path}#{k}"
                        self.points[q] = [("then", [(s[1], True)], NONE), ("else", [(s[1], False)], NONE)]
                        d = self.choice.get(q, 0) == 0
                        self.facts[s[1]] = d
                    go(s[2] if d else s[3], k + 1)
                else:
                    out.append(s)
        go(r.segs, 0)
        return r.with_segs(out)

    def sym_list(self, t, r, path):
        I = self.I
        if r.kind == "bytearray":
            self.leaves[path] = t
            return leaf(path, "bytes")
        r = self.resolve_segs(r, path)
        if all(s[0] == "e" for s in r.segs):
            if r.segs:
                return I.alloc(ListRec(r.kind, [("e", self.sym(s[1], f"{path}[{i}]")) for i, s in enumerate(r.segs)]))
            # a list parse never fills
            self.leaves[path] = t
            I.next_loop += 1
            lid = I.next_loop
            cnt = leaf(f"len({path})", "count")
            I.loop_info[lid] = (cnt, "symbolic", 0)
            return I.alloc(ListRec(r.kind, [("rep", lid, cnt, (leaf(f"{path}[*]", "elem"),))]))
        segs = []
        for j, s in enumerate(r.segs):
            if s[0] == "rep":
                I.next_loop += 1
                lid = I.next_loop
                sfx = "" if len(r.segs) == 1 else f"#{j}"
                cnt = leaf(f"len({path}){sfx}", "count")
                I.loop_info[lid] = (cnt, "symbolic", 0)
                self.repmap[lid] = s[1]
                segs.append(("rep", lid, cnt, tuple(self.sym(v, f"{path}[*]" if len(s[3]) == 1 else f"{path}[*{q}]")
                                                     for q, v in enumerate(s[3]))))
            elif s[0] == "e":
                segs.append(("e", self.sym(s[1], f"{path}[{j}]")))
            else:
                segs.append(("opaque", I.unk(f"list segment {s[0]}")))
        return I.alloc(ListRec(r.kind, segs))


def _negc(c):
    return neg_(c)


def _has_ref_or_none(t):
    if t.op == "ite":
        return _has_ref_or_none(t.args[1]) or _has_ref_or_none(t.args[2])
    return t.op == "ref" or t is NONE


# --------------------------------------------------------------------- alignment
MAX_STEPS = 4000            # sequences aligned per pair of methods


class TooManyPaths(Exception):
    pass


class Align:
    """Align a read-event tree with a write-event tree, byte for byte."""

    def __init__(self, I, facts=None):
        self.I = I
        self.sub = {}              # chunk -> bytes term
        self.loops = {}            # reader loop -> writer loop
        self.findings = []         # (kind, message, where, line)
        self.facts = dict(facts or {})
        self.unknown = []
        self.soft = []
        self.nreads = 0
        self.bytewise = {}
        self.steps = 0
        self.nbytes = 0
        self.pairs = []            # (chunk, term, where, line)
        self.split = set()          # byte strings of numbers that are read in parts
        self.assumed = []
        self.memo = {}
        self.split_ok = False      # case-split on conditional output
        self.discard = None        # chunk -> True if nothing keeps it

    def subst(self, t):
        def f(x):
            if x.op == "chunk":
                return self.sub.get(x)
            if x.op == "bytes" and self.bytewise:
                s = x.args[0]
                if len(s) == 1 and s[0][0] == "rep" and len(s[0][3]) == 1 and s[0][3][0][0] == "raw":
                    k = self.bytewise.get(s[0][3][0][1])
                    if k is not None and k[0] == s[0][1]:
                        return k[1]
            if x.op == "idx" and x.args[0] in self.loops:
                return mk("idx", self.loops[x.args[0]])
            return None
        return rewrite(t, f)

    def decide(self, c):
        """Reader condition -> True/False/None after substitution."""
        if c in self.facts:
            return self.facts[c]
        n = neg_(c)
        if n in self.facts:
            return not self.facts[n]
        s = self.I_simp(self.subst(c))
        if s.op == "const":
            return bool(s.args[0])
        return None

    def I_simp(self, c):
        old = self.I.facts
        self.I.facts = {self.subst(k): v for k, v in self.facts.items()}
        try:
            return self.I.simp(c) if tm.is_bool(c) or c.op in ("ite",) else c
        finally:
            self.I.facts = old

    # writer pieces
    def pieces(self, evs):
        """Flatten write events into a list of pieces."""
        out = []
        for e in evs:
            if e[0] == "wr":
                s = segs_of(e[2])
                if s is None and e[2].op == "ite":
                    out.append(("ite", e[2].args[0], self.pieces([("wr", e[1], e[2].args[1], e[3], e[4])]),
                                self.pieces([("wr", e[1], e[2].args[2], e[3], e[4])])))
                    continue
                if s is None:
                    out.append(("opq", e[2], e[3], e[4]))
                    continue
                for x in s:
                    out.append(("p", x, e[3], e[4]))
            elif e[0] == "loop":
                b = self.pieces(e[3])
                if b:
                    out.append(("loop", e[1], e[2], b, e[4]))
            elif e[0] == "if":
                a, b = self.pieces(e[2]), self.pieces(e[3])
                if a or b:
                    out.append(("ite", e[1], a, b))
        return [self._norm(p) for p in out]

    def _norm(self, p):
        if p[0] == "p" and p[1][0] == "rep":
            _, lid, cnt, segs = p[1]
            return ("loop", lid, cnt, [self._norm(("p", s, p[2], p[3])) for s in segs], p[3])
        return p

    def run(self, revs, wevs):
        w = self.pieces(wevs)
        self.steps = 0
        try:
            rest = self.go(list(revs), w)
        except TooManyPaths:
            self.unknown.append("too many combinations of conditions")
            return
        finally:
            self.leftovers()
        if rest is None:
            return
        rest = [p for p in rest if not self.empty(p)]
        if rest:
            wh, ln = self.site(rest[0])
            self.extra(rest, f"serialize writes {self.describe(rest)} that parse never reads", wh, ln, True)
            self.leftovers()

    def leftovers(self):
        """After something that could not be matched, what is left over on
        one side may be what was not matched on the other."""
        if not self.unknown:
            return
        for f in [f for f in self.findings if f[0] in ("extra-output", "missing-output")]:
            self.findings.remove(f)
            self.unknown.append(f[1])

    def site(self, p):
        if p[0] == "p":
            return p[2], p[3]
        if p[0] == "opq":
            return p[2], p[3]
        if p[0] == "loop":
            for q in p[3]:
                return self.site(q)[0], p[4]
        if p[0] == "ite":
            for q in p[2] + p[3]:
                return self.site(q)
        return "", 0

    def opaque_only(self, ps):
        """Nothing but output whose very existence is unknown."""
        return all(p[0] == "opq" or (p[0] == "loop" and self.opaque_only(p[3])) or
                   (p[0] == "ite" and self.opaque_only(p[2]) and self.opaque_only(p[3])) or self.empty(p) for p in ps)

    def extra(self, ps, what, wh, ln, last=False):
        if self.opaque_only(ps):
            (self.soft if last else self.unknown).append("output of an unknown callee")
        else:
            self.bad("extra-output", what, wh, ln)

    def empty(self, p):
        if p[0] == "p":
            n = seg_len(p[1])
            return is_const(n) and n.args[0] == 0
        return False

    def describe(self, ps):
        p = ps[0]
        if p[0] == "p":
            n = seg_len(p[1])
            return f"{show(n)} byte(s) ({self.segname(p[1])})" + (" and more" if len(ps) > 1 else "")
        if p[0] == "loop":
            return f"a list of {show(p[2])} element(s)"
        return "bytes"

    def segname(self, s):
        if s[0] == "lit":
            return repr(s[1])
        if s[0] == "pk":
            return f"{s[1]}:{show(s[2])}"
        if s[0] == "raw":
            return show(s[1])
        return s[0]

    def bad(self, kind, msg, where="", line=0):
        self.findings.append((kind, msg, where, line))

    def go(self, revs, w):
        """Consume reader events; return the writer pieces left, None on abort."""
        self.steps += 1
        if self.steps > MAX_STEPS:
            raise TooManyPaths
        i = 0
        revs = list(revs)
        while i < len(revs):
            e = revs[i]
            i += 1
            if self.split_ok and (e[0] == "rd" or e[0] == "loop" and reads_in(e[3])):
                w = self.wsimp(w)
                if w and w[0][0] == "ite":
                    c, outs = w[0][1], []
                    for val, br in ((True, w[0][2]), (False, w[0][3])):
                        f0 = dict(self.facts)
                        self.facts[c] = val
                        r = self.go(revs[i - 1:], list(br) + list(w[1:]))
                        self.facts = f0
                        if r is None:
                            return None
                        outs.append(r)
                    return outs[0] if outs[0] == outs[1] else [("ite", c, outs[0], outs[1])]
            if e[0] == "rd":
                w = self.read(e, w)
                if w is None:
                    return None
            elif e[0] == "loop":
                w = self.loop(e, w)
                if w is None:
                    return None
            elif e[0] == "if":
                if not reads_in(e[2]) and not reads_in(e[3]):
                    # no wire effect: only assumptions
                    continue
                d = self.decide(e[1])
                if d is not None:
                    revs[i:i] = list(e[2] if d else e[3])
                    continue
                # writer is conditional too?
                if w and w[0][0] == "ite":
                    c = self.subst(e[1])
                    r = self.cond_pair(e, c, w)
                    if r is None:
                        return None
                    w = r
                    continue
                self.unknown.append(f"reader condition {show(self.subst(e[1]))}")
                return None
            elif e[0] == "assume":
                self.assumed.append((e[1], e[2]))
                self.facts.setdefault(e[1], e[2])
            elif e[0] in ("seek", "intr", "ext"):
                self.unknown.append(f"reader event {e[0]}")
                return None
        return w

    def cond_pair(self, e, c, w):
        wc, wa, wb = w[0][1], w[0][2], w[0][3]
        if wc is c:
            pass
        elif wc is neg_(c):
            wa, wb = wb, wa
        else:
            self.bad("condition", f"parse reads conditionally on {show(c)} but serialize writes conditionally on {show(wc)}", *self.site(w[0]))
            return None
        f0 = dict(self.facts)
        self.facts[e[1]] = True
        r = self.go(e[2], wa)
        if r is None:
            return None
        if r:
            self.extra(r, f"serialize writes {self.describe(r)} that parse never reads", *self.site(r[0]))
            return None
        self.facts = dict(f0)
        self.facts[e[1]] = False
        r = self.go(e[3], wb)
        if r is None:
            return None
        if r:
            self.extra(r, f"serialize writes {self.describe(r)} that parse never reads", *self.site(r[0]))
            return None
        self.facts = f0
        return w[1:]

    def wsimp(self, w):
        """Resolve a leading conditional piece under the facts."""
        while w and w[0][0] == "ite":
            c = self.I_simp(w[0][1])
            if c.op != "const":
                return w
            w = (w[0][2] if c.args[0] else w[0][3]) + w[1:]
        return w

    def read(self, e, w):
        chunk, where, line = e[2], e[3], e[4]
        n = self.I_arith(self.subst(chunk.args[1]))
        self.nreads += 1
        w = self.wsimp(w)
        if is_const(n):
            need = n.args[0]
            if not isinstance(need, int):
                self.unknown.append(f"read of {show(n)} bytes")
                return None
            if need < 0:
                self.bad("length", f"parse reads {need} bytes", where, line)
                return None
            got = []
            w = list(w)
            while need > 0:
                w = self.wsimp(w)
                if not w:
                    self.bad("missing-output", f"parse reads {n.args[0]} more byte(s) than serialize writes", where, line)
                    return None
                p = w[0]
                if p[0] == "opq":
                    self.unknown.append(f"written value {show(p[1])}")
                    return None
                if p[0] == "ite":
                    self.bad("condition", f"parse reads unconditionally what serialize writes only if {show(p[1])}", *self.site(p))
                    return None
                if p[0] == "loop":
                    k = self.I_arith(p[2])
                    if is_int(k) and 0 <= k.args[0] <= 64:
                        body = p[3]
                        idx = mk("idx", p[1])
                        un = []
                        for j in range(k.args[0]):
                            un.extend(self.reindex(q, idx, const(j)) for q in body)
                        w = un + list(w[1:])
                        continue
                    self.bad("structure", f"parse reads {n.args[0]} byte(s) where serialize writes a list of {show(p[2])} element(s)", where, line)
                    return None
                s = p[1]
                ln = self.I_arith(seg_len(s))
                if not is_const(ln):
                    if s[0] == "raw" and isinstance(s[2], int) and self.known_len(s[1], s[2] + need):
                        pass
                    self.bad("length", f"parse reads a fixed {n.args[0]} byte(s) where serialize writes the variable-length {self.segname(s)}", where, line)
                    return None
                ln = ln.args[0]
                if ln <= need:
                    got.append(s)
                    need -= ln
                    w = w[1:]
                    continue
                a, b = split_seg(s, need)
                if a is None:
                    self.bad("width", f"parse reads {n.args[0]} byte(s) but serialize writes {self.segname(s)} ({ln} bytes)", where, line)
                    return None
                if s[0] == "pk":
                    # a number read in parts: its whole width counts
                    self.split.add(a[1])
                    v = s[2].args[0] if s[2].op == "int" else s[2]
                    if v.op == "leaf":
                        tm.LEAF_WIDTH[v] = max(tm.LEAF_WIDTH.get(v, 0), 8 * ln)
                got.append(a)
                need = 0
                w = [("p", b, p[2], p[3])] + list(w[1:])
            val = bytes_(tuple(got))
            self.sub[chunk] = val
            self.nbytes += n.args[0]
            self.pairs.append((chunk, val, where, line, self.facts))
            return w
        # symbolic length
        if is_bot_len(n):
            return w
        if w and w[0][0] == "loop" and len(w[0][3]) == 1 and w[0][3][0][0] == "p" and self.empty(w[0]) is False \
                and seg_len(w[0][3][0][1]) is const(1) and self.same(self.I_arith(w[0][2]), n):
            p = w[0]
            val = bytes_((("rep", p[1], p[2], (p[3][0][1],)),))
            self.sub[chunk] = val
            self.pairs.append((chunk, val, where, line, self.facts))
            return list(w[1:])
        if not w:
            if self.discard and self.discard(chunk):
                return w
            self.bad("missing-output", f"parse reads {show(n)} byte(s) that serialize never writes", where, line)
            return None
        # find the run of pieces whose total length is n
        tot = ZERO
        got = []
        k = 0
        while k < len(w):
            if tot is n and got:
                break
            p = w[k]
            if p[0] != "p":
                break
            got.append(p[1])
            tot = self.I_arith(bin_("+", tot, seg_len(p[1])))
            k += 1
            if self.same(tot, n):
                tot = n
                break
        if tot is not n:
            p = w[0]
            if self.discard and self.discard(chunk):
                return w[1:] if self.zeros(p) else w
            if p[0] == "p":
                l0 = self.I_arith(seg_len(p[1]))
                if has_unk(l0) or has_unk(n):
                    self.unknown.append(f"length {show(n)} vs {show(l0)}")
                    return None
                self.bad("length", f"parse reads {show(n)} byte(s) but serialize writes {self.segname(p[1])} of {show(l0)} byte(s)", where, line)
            elif p[0] == "loop" and not self.I.unknowns and False:
                pass
            else:
                self.unknown.append(f"bulk read of {show(n)} byte(s) against structured output")
            return None
        val = bytes_(tuple(got))
        self.sub[chunk] = val
        self.pairs.append((chunk, val, where, line, self.facts))
        return list(w[k:])

    def zeros(self, p):
        """A piece of constant zero bytes (padding)."""
        if p[0] == "p":
            return p[1][0] == "lit" and not any(p[1][1])
        return p[0] == "loop" and all(self.zeros(q) for q in p[3])

    def known_len(self, t, n):
        return False

    def same(self, a, b):
        if a is b:
            return True
        from .interp2 import lin_sub
        r = lin_sub(a, b)
        return r is not None and not any(r.values())

    def I_arith(self, t):
        """Resolve ites in an arithmetic term under the facts."""
        def f(x):
            if x.op == "ite":
                c = self.I_simp(x.args[0])
                if c.op == "const":
                    return rewrite(x.args[1] if c.args[0] else x.args[2], f)
            return None
        return rewrite(t, f) if has_op(t, "ite") else t

    def reindex(self, p, idx, val):
        def f(x):
            return val if x is idx else None
        if p[0] == "p":
            s = tuple(rewrite(x, f) if isinstance(x, T) else x for x in p[1])
            return ("p", s, p[2], p[3])
        return p

    def loop(self, e, w):
        _, lid, cnt, body, line = e
        if not reads_in(body):
            return w
        cnt = self.I_arith(self.subst(cnt))
        w = self.wsimp(w)
        where = first_site(body)
        if not w:
            if is_const(cnt) and cnt.args[0] == 0:
                return w
            self.bad("missing-output", f"parse reads a list of {show(cnt)} element(s) that serialize never writes", where, line)
            return None
        p = w[0]
        if p[0] != "loop":
            if is_int(cnt) and cnt.args[0] <= 64:
                for _ in range(cnt.args[0]):
                    w = self.go(body, w)
                    if w is None:
                        return None
                return w
            if p[0] == "p" and len(body) == 1 and body[0][0] == "rd" and body[0][2].args[1] is const(1) and self.same(self.I_arith(seg_len(p[1])), cnt):
                # a run of bytes, read one at a time
                self.nreads += 1
                self.bytewise[body[0][2]] = (lid, bytes_((p[1],)))
                return list(w[1:])
            if p[0] == "p":
                self.bad("structure", f"parse reads a list of {show(cnt)} element(s) where serialize writes {self.describe(w)}", where, line)
                return None
            self.unknown.append("loop against conditional output")
            return None
        wc = self.I_arith(p[2])
        if wc.op == "minmax" and wc.args[0] == "min" and is_int(wc.args[2]):
            # cut at a number the count field cannot exceed anyway
            from .checks.input_checks import bound
            b = bound(e[2])
            if b is not None and b <= wc.args[2].args[0]:
                wc = self.I_arith(wc.args[1])
        if has_unk(cnt) or has_unk(wc) or (cnt is not wc and (has_op(cnt, "whilecount") or has_op(wc, "whilecount"))):
            self.unknown.append(f"loop count {show(cnt)} vs {show(wc)}")
            return None
        if not self.same(cnt, wc) and self.I.canon_loop(lid) != self.I.canon_loop(p[1]):
            self.bad("count", f"parse reads {show(cnt)} element(s) where serialize writes {show(wc)}", where, line)
        self.loops[lid] = p[1]
        f0 = dict(self.facts)
        r = self.go(body, list(p[3]))
        self.facts = f0
        if r is None:
            return None
        if r:
            self.extra(r, f"serialize writes {self.describe(r)} per element that parse never reads", *self.site(r[0]))
            return None
        return list(w[1:])


def is_bot_len(n):
    return is_const(n) and n.args[0] == 0


def has_unk(t):
    return any(x.op == "unk" for x in subterms(t))


def split_seg(s, n):
    if s[0] == "lit":
        return ("lit", s[1][:n]), ("lit", s[1][n:])
    if s[0] == "raw" and isinstance(s[2], int):
        ln = s[3]
        if isinstance(ln, int):
            return ("raw", s[1], s[2], n), ("raw", s[1], s[2] + n, ln - n)
    if s[0] == "pk" and s[1][0] in "HILQu" and 0 < n < tm.code_size(s[1]):
        whole = bytes_((s,))
        return ("raw", whole, 0, n), ("raw", whole, n, tm.code_size(s[1]) - n)
    return None, None


def reads_in(evs):
    for e in evs:
        if e[0] == "rd":
            return True
        if e[0] == "if" and (reads_in(e[2]) or reads_in(e[3])):
            return True
        if e[0] == "loop" and reads_in(e[3]):
            return True
    return False


def first_site(evs):
    for e in evs:
        if e[0] in ("rd", "wr"):
            return e[3]
        if e[0] == "if":
            x = first_site(e[2]) or first_site(e[3])
            if x:
                return x
        if e[0] == "loop":
            x = first_site(e[3])
            if x:
                return x
    return ""


def walk_events(evs, f, ctx=()):
    for e in evs:
        if e[0] == "loop":
            f(e, ctx)
            walk_events(e[3], f, ctx + (("loop", e[1], e[2]),))
        elif e[0] == "if":
            f(e, ctx)
            walk_events(e[2], f, ctx + (("if", e[1], True),))
            walk_events(e[3], f, ctx + (("if", e[1], False),))
        else:
            f(e, ctx)


# --------------------------------------------------------------------- round trip
class RoundTrip:
    """serialize(arbitrary instance) followed by parse, symbolically."""

    def __init__(self, model, variant):
        self.m, self.v, self.I = model, variant, model.I
        self.findings = []          # (kind, what, msg, where, line)
        self.unknown = []
        self.compared = 0
        self.derived_attrs = []
        self.ser = None
        self.al = None
        with model.prog.isolated():
            self._run()

    def add(self, kind, what, msg, where="", line=0):
        self.findings.append((kind, what, msg, where, line))

    def _run(self):
        m, I = self.m, self.I
        ph = m.run_serialize(self.v.heap, m.obj)
        self.ser = ph
        if not ph.ok:
            if ph.exc == "analysis":
                self.unknown.append(ph.note)
            return
        al = Align(I, self.v.facts)
        self.al = al
        al.run(m.parse.trace, ph.trace)
        for kind, msg, where, line in al.findings:
            if kind in ("extra-output", "missing-output") and (m.parse.unknowns or ph.unknowns):
                self.unknown.append(msg)    # may be what was not understood
                continue
            self.add(kind, where, msg, where, line)
        self.unknown += al.unknown
        self.unknown += al.soft + [u[0] for u in ph.unknowns + m.parse.unknowns]
        if not al.findings and not al.unknown:
            # the choice of alternative must be what the reader would decide
            for c, v in self.v.facts.items():
                s = al.I_simp(al.subst(c)) if tm.is_bool(c) else al.subst(c)
                al2 = Align(I)
                s2 = al2.I_simp(al.subst(c))
                if s2.op == "const" and bool(s2.args[0]) != v:
                    self.add("condition", self.v.label, f"serialize writes a discriminator with which parse cannot select {self.v.label}: {show(c)} becomes {show(s2)}")
            for c, v in al.assumed:
                s2 = Align(I).I_simp(al.subst(c))
                if s2.op == "const" and bool(s2.args[0]) != v:
                    self.add("rejected", m.name, f"parse rejects what serialize wrote: requires {show(c)} == {v}, gets {show(s2)}")
            self.seen = set()
            self.cmp_val(m.obj, m.parse.heap, m.obj, self.v.heap, "", None)

    def cmp_val(self, p, hp, s, hs, path, owner):
        I, al = self.I, self.al
        p = self.pick(p)
        if s.op == "ref":
            rs = hs.get(s.args[0])
            if p.op != "ref":
                self.add("field", path, f"{path or 'object'}: parse leaves {show(al.subst(p))} where serialize had an object")
                return
            rp = hp.get(p.args[0])
            if (p, s) in self.seen:
                return
            self.seen.add((p, s))
            if isinstance(rs, ObjRec) and isinstance(rp, ObjRec):
                if rs.cls is not rp.cls:
                    self.add("field", path, f"{path}: parse builds {I.clsname(rp.cls)} where {I.clsname(rs.cls)} was serialized")
                    return
                for k, v in rs.attrs.items():
                    q = f"{path}.{k}" if path else k
                    if is_padding(k):
                        continue
                    if k not in rp.attrs:
                        self.add("field", q, f"{q} missing after parse")
                        continue
                    self.cmp_val(rp.attrs[k], hp, v, hs, q, rs)
                return
            if isinstance(rs, ListRec) and isinstance(rp, ListRec):
                self.cmp_list(rp, hp, rs, hs, path)
                return
            if isinstance(rs, DictRec) and isinstance(rp, DictRec):
                return
            self.add("field", path, f"{path}: different containers")
            return
        if p.op == "ref":
            r = hp.get(p.args[0])
            if isinstance(r, ListRec) and r.kind == "bytearray" and s.op == "leaf":
                return self.cmp_bytes(p, r, s, path)
            self.add("field", path, f"{path}: parse leaves an object where {show(s)} was serialized")
            return
        q = al.I_arith(al.subst(p)) if p.op != "unk" else p
        self.compared += 1
        if q is s or same_value(q, s):
            return
        sb = tm.same_bits(q, s)
        if sb:
            return
        if al.split and any(x in al.split for x in subterms(q)):
            self.add("width", path, f"{path}: read in parts, and put together as {show(q)}, which is not the value that was encoded")
            return
        if has_unk(q) or (sb is None and tm.has_bitops(q)):
            self.unknown.append(f"{path} = {show(q)}")
            return None
        if self.derived(q):
            # e.g. a record length attribute: recomputed from the lists on
            # the wire, never encoded itself
            self.derived_attrs.append(path)
            return
        self.add("field", path, f"{path}: decodes to {show(q)} instead of the value that was encoded")

    def derived(self, q):
        ls = [x for x in subterms(q) if x.op in ("leaf", "unpack", "chunk", "bleaf", "bits", "idx", "unk")]
        return bool(ls) and all(x.op == "leaf" and x.args[0].startswith("len(") for x in ls)

    def cmp_bytes(self, p, r, s, path):
        segs = self.I.list_to_segs(r) if hasattr(self.I, "list_to_segs") else None
        if segs is None:
            self.unknown.append(f"{path}: bytearray")
            return
        q = self.al.subst(bytes_(segs))
        self.compared += 1
        if q is not s:
            self.add("field", path, f"{path}: decodes to {show(q)} instead of the bytes that were encoded")

    def cmp_list(self, rp, hp, rs, hs, path):
        I, al = self.I, self.al
        sp = self.flat(rp.segs)
        ss = self.flat(rs.segs)
        if len(sp) == 1 and sp[0][0] == "rep" and is_int(al.I_arith(al.subst(sp[0][2]))) and \
                all(x[0] == "e" for x in ss) and len(ss) == al.I_arith(al.subst(sp[0][2])).args[0]:
            return
        if len(sp) != len(ss) or any(a[0] != b[0] for a, b in zip(sp, ss)):
            if any(x[0] not in ("e", "rep") for x in sp + ss):
                self.unknown.append(f"{path}: list structure")
                return
            if not sp and all(x[0] == "rep" for x in ss):
                # the loop over the elements fails for every count but zero, or there is none
                fails = any(self.only_zero(c, v, x[2]) for c, v in al.assumed for x in ss)
                self.add("field" if fails else "unrestored", path, f"{path}: parse never restores the list")
                return
            self.add("field", path, f"{path}: parse rebuilds {len(sp)} segment(s), serialize had {len(ss)}")
            return
        for j, (a, b) in enumerate(zip(sp, ss)):
            if a[0] == "e":
                self.cmp_val(a[1], hp, b[1], hs, f"{path}[{j}]", None)
            elif a[0] == "rep":
                ca, cb = al.I_arith(al.subst(a[2])), b[2]
                lw = al.loops.get(a[1])
                obl = any(x[0] is cb for x in I.index_obligations)
                if not al.same(ca, cb) and not obl:
                    if has_unk(ca):
                        self.unknown.append(f"{path}: count {show(ca)}")
                    else:
                        self.add("count", path, f"{path}: {show(ca)} element(s) decoded where {show(cb)} were encoded")
                for x, y in zip(a[3], b[3]):
                    self.cmp_val(x, hp, y, hs, f"{path}[*]", None)

    def only_zero(self, c, v, n):
        """The assumed outcome v of the condition c is that of a count n of zero, not of one."""
        al = self.al
        c = al.I_arith(al.subst(c))
        at = [al.I_arith(rewrite(c, lambda y: const(k) if y is n else None)) for k in (0, 1)]
        if any(y.op != "const" for y in at):
            return False
        return bool(at[0].args[0]) == bool(v) != bool(at[1].args[0])

    def flat(self, segs):
        """Resolve conditional list segments under the variant's facts."""
        out = []
        for s in segs:
            if s[0] == "ite":
                d = self.al.decide(s[1])
                if d is None:
                    return [("opaque",)]
                out.extend(self.flat(s[2] if d else s[3]))
            else:
                out.append(s)
        return out

    def pick(self, t):
        n = 0
        while t.op == "ite" and n < 200:
            d = self.al.decide(t.args[0])
            if d is None:
                break
            t = t.args[1] if d else t.args[2]
            n += 1
        return t


PADDING = re.compile(r"_*(pad|padding|reserved|spare|unused)", re.I)


def is_padding(name):
    """Attributes that hold reserved bytes: they carry no information."""
    return bool(PADDING.match(name))


def same_value(a, b):
    """Value equality beyond identity of terms."""
    if a.op == "const" and b.op == "const":
        return a.args[0] == b.args[0]
    if a.op == "int" and a.args[0] is b:
        return True
    return False


class Reencode:
    """parse(arbitrary bytes) followed by serialize: stored bytes reappear."""

    def __init__(self, model):
        self.m, self.I = model, model.I
        self.findings, self.unknown = [], []
        self.stored = {}           # chunk -> [(attribute path, term)]
        self.skipped = []          # lists that keep only some of the elements read
        self.identical = self.structural = 0
        with model.prog.isolated():
            self._run()

    def _run(self):
        m = self.m
        if not (m.parse and m.parse.ok and m.fwd and m.fwd.ok):
            return
        self.collect(m.obj, m.parse.heap)
        for path, c in self.skipped:
            self.findings.append(("skipped", path, f"{path}: the elements read are kept or dropped depending on {show(c)}: the ones dropped are not re-encoded", m.name + ".parse", m.line))
        al = Align(self.I)
        # reader conditions: both sides see the same tokens, so align under
        # each by identity
        al.subst = lambda t: t
        al.split_ok = True
        al.discard = lambda ch: ch not in self.stored
        al.run(m.parse.trace, m.fwd.trace)
        self.al = al
        self.unknown += al.unknown + al.soft + [u[0] for u in m.fwd.unknowns]
        for kind, msg, where, line in al.findings:
            if kind in ("extra-output", "missing-output") and (m.parse.unknowns or m.fwd.unknowns):
                self.unknown.append(msg)    # may be what was not understood
                continue
            self.findings.append((kind, where, "after re-encoding: " + msg, where, line))
        for chunk, val, where, line, facts in al.pairs:
            al.facts = facts
            if val is chunk:
                self.identical += 1
                continue
            if self.pinned(chunk, val, al):
                self.identical += 1
                continue
            bad = self.differs(chunk, val, al)
            if bad is None:
                self.structural += 1
                continue
            if has_unk(val):
                self.unknown.append(show(val))
                continue
            self.findings.append(("reencode", bad, f"{bad}: bytes read as {show(chunk)} are re-encoded as {show(val)}", where, line))

    def pinned(self, chunk, val, al):
        """A chunk whose value the reader insists on, written as that value."""
        if val.op != "const":
            return False
        for c, v in list(al.assumed) + list(al.facts.items()):
            if v and c.op == "cmp" and c.args[0] == "==" and c.args[1].op == "unpack" and c.args[1].args[1] is chunk:
                return True
        return False

    def differs(self, chunk, val, al):
        """None if every stored attribute is unaffected by the replacement."""
        if chunk not in self.stored:
            return None
        bad = None
        for path, a in self.stored[chunk]:
            a = al.I_arith(a)
            q = al.I_arith(rewrite(a, lambda x: val if x is chunk else (x if x.op == "chunk" else None)))
            if q is a:
                continue
            sb = tm.same_bits(q, a)
            if sb:
                continue
            if sb is None and tm.has_bitops(q) and not (al.split and any(x in al.split for x in subterms(q))):
                self.unknown.append(f"{path} = {show(q)}")
                continue
            return path
        return None

    def collect(self, t, heap):
        seen = set()

        def terms(x, path):
            def walk(y):
                if y.op == "chunk":
                    self.stored.setdefault(y, []).append((path, x))
                    return
                if y.op in ("len", "idx"):
                    return
                for z in y.args:
                    if isinstance(z, T):
                        walk(z)
                    elif isinstance(z, tuple):
                        tup(z)

            def tup(z):
                for q in z:
                    if isinstance(q, T):
                        walk(q)
                    elif isinstance(q, tuple):
                        tup(q)
            walk(x)

        def go(x, path):
            if x.op == "ite" and _has_ref_or_none(x):
                go(x.args[1], path)
                go(x.args[2], path)
                return
            if x.op == "ref":
                if x in seen:
                    return
                seen.add(x)
                r = heap.get(x.args[0])
                if isinstance(r, ObjRec):
                    for k, v in r.attrs.items():
                        if not is_padding(k):
                            go(v, f"{path}.{k}" if path else k)
                elif isinstance(r, ListRec):
                    def gs(segs):
                        for s in segs:
                            if s[0] == "e":
                                go(s[1], path + "[]")
                            elif s[0] == "rep":
                                for v in s[3]:
                                    go(v, path + "[*]")
                            elif s[0] == "ite":
                                gs(s[2])
                                gs(s[3])
                            elif s[0] == "condrep" and s[3][0] == "ite":
                                gs(s[3][2])
                                gs(s[3][3])
                                if bool(s[3][2]) != bool(s[3][3]) and not has_unk(s[3][1]) and not has_op(s[3][1], "idx") and \
                                        (has_op(s[3][1], "chunk") or has_op(s[3][1], "member")) and \
                                        all(g[0] == "e" and (has_op(g[1], "chunk") or g[1].op == "ref") for g in s[3][2] + s[3][3]):
                                    self.skipped.append((path, s[3][1]))
                            elif s[0] == "bseg":
                                for q in s[1]:
                                    if isinstance(q, T):
                                        terms(q, path)
                    gs(r.segs)
                return
            terms(x, path)
        go(t, "")
