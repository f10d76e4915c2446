"""Checks on constructors, name resolution and totality."""
from __future__ import annotations

import ast
import os
import symtable

from . import check
from .codec_checks import PRE, trips
from ..codec import Align, ObjRec, ListRec, ClsRec, run_phase, is_padding, has_unk
from ..interp import BUILTIN_NAMES
from ..terms import *
from .. import terms as tm

from ..report import Result, rel, VERIF


# ------------------------------------------------------------ name resolution
def undefined_names(prog, m):
    """[(name, scope, line)] of names no scope of module m can define."""
    src = open(m.file, encoding="utf-8").read()
    st = symtable.symtable(src, m.file, "exec")
    known = set(m.env) | BUILTIN_NAMES | {"__class__", "__file__", "__name__", "__doc__", "__spec__", "__package__",
                                          "__loader__", "__path__", "__annotations__", "__dict__", "__qualname__", "__module__"}
    known |= {s.get_name() for s in st.get_symbols() if s.is_assigned() or s.is_imported()}
    # names assigned through `global x` in functions
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Global):
            known |= set(n.names)
    bad = []
    lines = {}
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            lines.setdefault(n.id, []).append(n.lineno)
    # annotations are not evaluated in function bodies; drop names used only there
    ann = set()
    for n in ast.walk(m.tree):
        if isinstance(n, ast.AnnAssign):
            for x in ast.walk(n.annotation):
                ann.add(id(x))
    live = {}
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and id(n) not in ann:
            live.setdefault(n.id, []).append(n.lineno)
    count = 0

    def go(t, qual):
        nonlocal count
        for s in t.get_symbols():
            nm = s.get_name()
            if s.is_referenced():
                count += 1
            if s.is_referenced() and s.is_global() and nm not in known and nm in live:
                lo = t.get_lineno()
                ls = [l for l in live[nm] if l >= lo] or live[nm]
                bad.append((nm, qual, ls[0]))
        for c in t.get_children():
            if str(c.get_type()) in ("annotation", "type parameters", "type parameter"):
                continue
            go(c, f"{qual}.{c.get_name()}" if qual else c.get_name())
    go(st, "")
    return bad, count


SKIP_METHODS = {"parse", "serialize"}


def owner(prog, mod, q):
    """The class a function belongs to; for a helper function of the module,
    the only class that uses it."""
    top = q.split(".")[0]
    if mod is None:
        return q
    defs = {n.name: n for n in mod.tree.body if isinstance(n, (ast.ClassDef, ast.FunctionDef))}
    seen = set()
    while isinstance(defs.get(top), ast.FunctionDef) and top not in seen:
        seen.add(top)
        users = {k for k, n in defs.items() if k != top and any(isinstance(x, ast.Name) and x.id == top for x in ast.walk(n))}
        if len(users) != 1:
            break
        top = users.pop()
    return top


@check("C03")
def c03(prog, tier):
    r = Result(PRE + "Rule: construction, parse, serialize, marshalledSize and every property of every concrete record and "
               "PDU class reach no unhandled undefined name, missing attribute, wrong call signature, wrong argument type or "
               "constant-false branch that raises; every name a function of the package or the examples uses is bound in some "
               "enclosing scope, module or the builtins.")
    I = prog.I
    for p in I.problems:
        if not p.handled:
            r.finding(p.kind, f"{p.where}:{p.name}", f"at import: {p.msg}", p.where, p.line, p.file)

    def probs(m, ph, what):
        r.count("methods")
        ok = True
        for p in ph.problems:
            if p.handled:
                continue
            ok = False
            w = owner(prog, next((x for x in I.modules.values() if x.file == p.file), None), p.where) if p.kind == "undefined-name" else p.where
            r.finding(p.kind, f"{w}:{p.name}", f"{m.name}.{what}: {p.msg}", p.where, p.line, p.file)
        if not ph.ok:
            if ph.exc == "analysis":
                r.undecide(f"{m.name}.{what}: {ph.note}")
                r.ob(False)
                return
            ok = False
            r.finding("raises", f"{m.name}.{what}", f"{m.name}.{what} always raises {ph.exc} ({ph.note})", ph.name, m.line, m.file)
        r.ob(ok, f"{m.name}.{what}")
    for m in prog.all_models():
        r.count("classes")
        if m.obj is None:
            probs(m, m.ctor, "__init__")
            continue
        probs(m, m.ctor, "__init__")
        probs(m, m.parse, "parse")
        names = set()
        for k in I.mro(m.c):
            if k.op != "cls":
                continue
            rec = I.rec(k)
            if rec.module not in I.modules:
                continue
            for n, v in rec.ns.items():
                if n in SKIP_METHODS or n.startswith("__"):
                    continue
                if v.op in ("func", "ref", "prop", "property") or v.op not in ("const",):
                    names.add(n)
        if m.ctor.ok:
            for nm in ("serialize", "marshalledSize"):
                if I.class_lookup(m.c, nm)[0] is not None:
                    with prog.isolated():
                        probs(m, m.run_serialize(m.ctor.heap, m.obj) if nm == "serialize" else m.run_method(m.ctor.heap, m.obj, nm), nm + " (of a new instance)")
        for v in m.variants():
            with prog.isolated():
                probs(m, m.run_serialize(v.heap, m.obj), "serialize")
            for n in sorted(names):
                with prog.isolated():
                    fv, _ = I.class_lookup(m.c, n)
                    ph = m.run_getattr(v.heap, m.obj, n)
                    if not ph.ok and ph.exc != "analysis" or any(not p.handled for p in ph.problems) or fv is None or fv.op != "func":
                        probs(m, ph, n)
                        if not ph.ok:
                            continue
                    if ph.ret is not None and ph.ret.op in ("bound", "func") and fv is not None and fv.op == "func":
                        fn = I.func(fv)
                        a = fn.node.args if hasattr(fn.node, "args") else None
                        if a is not None and len(a.posonlyargs + a.args) - len(a.defaults) <= 1 and not [d for d, k in zip(a.kw_defaults, a.kwonlyargs) if d is None]:
                            probs(m, m.run_method(v.heap, m.obj, n), n)
    # every function, including those nothing above reaches
    mods = [m for m in I.modules.values()] + example_modules(prog)
    for mod in mods:
        bad, n = undefined_names(prog, mod)
        r.count("modules")
        r.count("names_resolved", n)
        r.ob(not bad, f"{rel(mod.file)}: {n} names bound")
        for nm, q, ln in bad:
            q2 = q or mod.name
            r.finding("undefined-name", f"{owner(prog, mod, q2)}:{nm}", f"{nm} is not defined anywhere {q2} can see", q2, ln, mod.file)
    return r


class ExMod:
    def __init__(self, name, file, tree, env):
        self.name, self.file, self.tree, self.env = name, file, tree, env


def example_modules(prog):
    """The scripts under examples/, with the names their imports bind."""
    out = []
    base = os.path.join(prog.root, "examples")
    if not os.path.isdir(base):
        return out
    for f in sorted(os.listdir(base)):
        if not f.endswith(".py"):
            continue
        p = os.path.join(base, f)
        tree = ast.parse(open(p, encoding="utf-8").read(), p)
        env = {}
        for n in ast.walk(tree):
            if isinstance(n, ast.ImportFrom) and n.module in prog.I.modules and any(a.name == "*" for a in n.names):
                for k in prog.I.module_public(prog.I.modules[n.module]):
                    env[k] = None
        out.append(ExMod(f[:-3], p, tree, env))
    return out


# ------------------------------------------------------------- constructors
def fixed_default(t):
    return t.op == "const" and not isinstance(t.args[0], bool) and (t.args[0] is None or not t.args[0])


def ctor_params(I, c):
    f, _ = I.class_lookup(c, "__init__")
    if f is None or f.op != "func":
        return None, []
    fn = I.func(f)
    a = fn.node.args
    ps = (a.posonlyargs + a.args)[1:]
    ds = dict(zip([x.arg for x in (a.posonlyargs + a.args)][len(a.posonlyargs + a.args) - len(a.defaults):], a.defaults))
    out = [(x.arg, x.annotation, ds.get(x.arg)) for x in ps]
    out += [(x.arg, x.annotation, d) for x, d in zip(a.kwonlyargs, a.kw_defaults)]
    return fn, out


def keeps(L, v, heap, masks=()):
    """v is what attribute p holds after construction with p=L: is it L (or a
    copy of the sequence L)?  Returns True, False or None (unknown)."""
    if v is L:
        return True
    if v.op in ("int", "float", "bool") and v.args[0] is L:
        return True
    if v.op == "ref":
        rec = heap.get(v.args[0])
        if isinstance(rec, ListRec) and len(rec.segs) == 1:
            s = rec.segs[0]
            if s[0] == "opaque" and s[1] is L:
                return True
            if s[0] == "rep" and s[2] is tm.len_(L) and len(s[3]) == 1 and L in set(subterms(s[3][0])):
                return True if s[3][0].op == "item" or s[3][0].args[:1] == (L,) else None
        return False
    if v.op == "bin" and v.args[0] == "&" and v.args[1] is L and v.args[2] in masks:
        return True                # bit field: the wire carries the same low bits
    if v.op == "ite":
        c, a, b = v.args
        t = tm.truthy(L)
        isnone = tm.cmp_("is", L, NONE)
        # L if L else default; L if L is not None else default
        for cond, x, y in ((c, a, b), (tm.neg_(c), b, a)):
            if cond is t and keeps(L, x, heap, masks):
                # falsy arguments are replaced: by an equal value, or the
                # documented default stands for None / empty
                if fixed_default(y) or y.op == "ref":
                    return True
                if y is L:
                    return True
                return False
            if cond is tm.neg_(isnone) and keeps(L, x, heap, masks):
                return True
    if has_unk(v):
        return None
    return False


def masks_on_wire(m, p):
    """Constants 2^k-1 with which serialize() masks attribute p."""
    out = set()
    for v in m.variants():
        with m.prog.isolated():
            ph = m.run_serialize(v.heap, m.obj)
            if not ph.ok:
                continue
            al = Align(m.I, v.facts)
            for q in al.pieces(ph.trace):
                if q[0] == "p":
                    for x in subterms(q[1]):
                        if x.op == "bin" and x.args[0] == "&" and x.args[1].op == "leaf" and x.args[1].args[0] == p \
                                and is_const(x.args[2]) and (x.args[2].args[0] & (x.args[2].args[0] + 1)) == 0:
                            out.add(x.args[2])
    return out


def annotated_classes(I, mod, ann):
    """Classes named by an annotation such as `X | None`; None if unclear."""
    if ann is None:
        return None
    if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
        try:
            ann = ast.parse(ann.value, mode="eval").body
        except SyntaxError:
            return None
    out = set()

    def go(n):
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.BitOr):
            return go(n.left) and go(n.right)
        if isinstance(n, ast.Constant) and n.value is None:
            return True
        if isinstance(n, ast.Subscript):
            b = ast.unparse(n.value).split(".")[-1]
            if b in ("Optional", "Union"):
                xs = n.slice.elts if isinstance(n.slice, ast.Tuple) else [n.slice]
                return all([go(x) for x in xs])
            out.add(b)
            return True
        if isinstance(n, (ast.Name, ast.Attribute)):
            v = None
            if isinstance(n, ast.Name):
                v = mod.env.get(n.id)
            else:
                b = mod.env.get(n.value.id) if isinstance(n.value, ast.Name) else None
                if b is not None and b.op == "mod":
                    v = I.modules[b.args[0]].env.get(n.attr)
            out.add(v if v is not None and v.op == "cls" else ast.unparse(n).split(".")[-1])
            return True
        return False
    return out if go(ann) else None


@check("C04")
def c04(prog, tier):
    r = Result(PRE + "Rule: each constructor is called with one distinct symbolic argument per parameter; reading the attribute "
               "of that name back must give that argument (or the declared default where the argument is falsy/None), no "
               "other attribute may receive it, and called without arguments each record-typed attribute holds an instance of "
               "its annotated class.")
    I = prog.I
    table = default_table()
    for m in prog.all_models():
        if m.obj is None:
            continue
        fn, ps = ctor_params(I, m.c)
        if fn is None or not ps or fn.node.args.vararg or fn.node.args.kwarg:
            continue
        r.count("constructors")
        with prog.isolated():
            leaves = {p: leaf(f"arg.{p}") for p, _, _ in ps}
            cls = m.ctor.heap[m.obj.args[0]].cls
            ph = run_phase(I, m.name, lambda: I.call(cls, [], dict(leaves), None), m.base_heap)
            if not ph.ok:
                if ph.exc == "analysis":
                    r.undecide(f"{m.name}: {ph.note}")
                else:
                    # arguments may be constrained: retry one at a time is not attempted
                    r.undecide(f"{m.name}: constructor with symbolic arguments: {ph.exc} {ph.note}")
                r.ob(False)
                continue
            heap = ph.heap
            bad = False
            held = {}
            for p, ann, d in ps:
                r.count("parameters")
                g = m.run_getattr(heap, ph.ret, p)
                L = leaves[p]
                if not g.ok:
                    where = sorted(k for k, v in held_by(heap, ph.ret).items() if L in set(subterms(v)))
                    if where:
                        continue
                    bad = True
                    r.finding("lost", f"{m.name}.{p}", f"the constructor argument {p} of {m.name} is stored nowhere", fn.qual, fn.node.lineno, m.file)
                    continue
                k = keeps(L, g.ret, g.heap, masks_on_wire(m, p) if g.ret.op == "bin" else ())
                if k is None:
                    r.undecide(f"{m.name}({p}=…).{p} = {show(g.ret)}")
                elif not k:
                    if tm.same_bits(g.ret, L):
                        continue
                    bad = True
                    r.finding("not-kept", f"{m.name}.{p}", f"{m.name}({p}=x).{p} is {show(g.ret)}, not x", fn.qual, fn.node.lineno, m.file)
            # an argument must not leak into another parameter's attribute
            for p, ann, d in ps:
                g = m.run_getattr(heap, ph.ret, p)
                if g.ok and g.ret.op not in ("ref",):
                    for q in leaves:
                        if q != p and leaves[q] in set(subterms(g.ret)):
                            bad = True
                            r.finding("crossed", f"{m.name}.{p}", f"{m.name}({q}=x) ends up in .{p}", fn.qual, fn.node.lineno, m.file)
            # defaults
            dh = m.ctor.heap
            mod = I.modules[m.module]
            for p, ann, d in ps:
                g = m.run_getattr(dh, m.obj, p)
                if not g.ok:
                    continue
                cs = annotated_classes(I, mod, ann)
                rec = g.heap.get(g.ret.args[0]) if g.ret.op == "ref" else None
                if cs and isinstance(rec, ObjRec) and rec.cls.op == "cls" and all(isinstance(x, T) for x in cs):
                    for x in cs:
                        # records that can be false: an `or` must not drop them
                        if x.op != "cls" or all(I.class_lookup(x, n)[0] is None for n in ("__bool__", "__len__")) or I.abstract_methods(x):
                            continue

                        def falsy():
                            a = I.call(x, [], {}, None)
                            return I.alloc(ListRec("tuple", [("e", a), ("e", I.call(cls, [], {p: a}, None))]))
                        fp = run_phase(I, m.name, falsy, m.base_heap)
                        if fp.ok:
                            a, o = I.seq_items(fp.ret)
                            g2 = m.run_getattr(fp.heap, o, p)
                            r.count("records_with_truth_value")
                            if g2.ok and not has_unk(g2.ret) and g2.ret is not a:
                                bad = True
                                r.finding("not-kept", f"{m.name}.{p}", f"{m.name}({p}=x).{p} is not x when x is a {I.clsname(x)} that counts as false",
                                          fn.qual, fn.node.lineno, m.file)
                    r.count("record_defaults")
                    if not any(x in I.mro(rec.cls) for x in cs):
                        bad = True
                        r.finding("default-class", f"{m.name}.{p}", f"{m.name}().{p} is a {I.clsname(rec.cls)}, annotated "
                                  f"{ast.unparse(ann)}", fn.qual, fn.node.lineno, m.file)
                elif isinstance(d, ast.Constant) and d.value is not None and g.ret.op == "const":
                    r.count("scalar_defaults")
                    if g.ret.args[0] != d.value:
                        bad = True
                        r.finding("default-value", f"{m.name}.{p}", f"{m.name}().{p} is {show(g.ret)}, declared default {d.value!r}",
                                  fn.qual, fn.node.lineno, m.file)
            bad |= initial_values(r, I, m, dh, table, fn)
            r.ob(not bad, f"{m.name}: {len(ps)} arguments stored")
    return r


def default_table():
    """(class, attribute) -> initial value, for what does not start as zero or empty."""
    out = {}
    for ln in open(os.path.join(VERIF, "oracle", "defaults.txt"), encoding="utf-8"):
        ln = ln.split("#")[0].split()
        if ln:
            out[tuple(ln[0].split("."))] = ast.literal_eval(" ".join(ln[1:]))
    return out


def initial_values(r, I, m, heap, table, fn):
    """Everything reachable in a default-constructed instance starts as zero,
    empty or none, except what the table lists."""
    bad = False
    seen = set()

    def want(ct, p):
        for k in I.mro(ct):
            if k.op == "cls" and (I.clsname(k), p) in table:
                return table[I.clsname(k), p]
        return None

    def go(t, top):
        nonlocal bad
        if t in seen:
            return
        seen.add(t)
        rec = heap.get(t.args[0])
        if not isinstance(rec, ObjRec) or rec.cls.op != "cls" or I.rec(rec.cls).module not in I.modules:
            return
        cn = I.clsname(rec.cls)
        for p, v in rec.attrs.items():
            w = want(rec.cls, p)
            if v.op == "const" and isinstance(v.args[0], (int, float, bytes, str)):
                r.count("initial_values")
                if v.args[0] != (w if w is not None else v.args[0].__class__()):
                    bad = True
                    r.finding("initial-value", f"{m.name}:{cn}.{p}", f"{m.name}() has {cn}.{p} = {v.args[0]!r}, not "
                              f"{w if w is not None else v.args[0].__class__()!r}", fn.qual, fn.node.lineno, m.file)
            elif v.op == "ref":
                x = heap.get(v.args[0])
                if isinstance(x, ListRec) and x.kind in ("list", "tuple", "bytearray"):
                    xs = []
                    for g in x.segs:
                        if g[0] == "e":
                            xs.append(g[1])
                        elif g[0] == "rep" and is_const(g[2]) and g[2].args[0] < 1000:
                            xs.extend(list(g[3]) * g[2].args[0])
                        else:
                            xs = None
                            break
                    if xs is None:
                        continue
                    r.count("initial_lists")
                    if len(xs) != (w or 0) or any(e.op == "const" and e.args[0] for e in xs):
                        bad = True
                        r.finding("initial-list", f"{m.name}:{cn}.{p}", f"{m.name}() has {cn}.{p} = [{', '.join(show(e) for e in xs)[:60]}], not "
                                  f"{f'{w} zeros' if w else 'an empty list'}", fn.qual, fn.node.lineno, m.file)
                else:
                    go(v, False)
    go(m.obj, True)
    return bad


def held_by(heap, t):
    """{path: term} of scalar attributes reachable from t."""
    out = {}
    seen = set()

    def go(t, path):
        if t.op == "ref":
            if t in seen:
                return
            seen.add(t)
            r = heap.get(t.args[0])
            if isinstance(r, ObjRec):
                for k, v in r.attrs.items():
                    go(v, f"{path}.{k}" if path else k)
            elif isinstance(r, ListRec):
                for s in r.segs:
                    if s[0] == "e":
                        go(s[1], path + "[]")
            return
        if t.op == "ite":
            go(t.args[1], path)
            go(t.args[2], path)
        out[path] = t
    go(t, "")
    return out
