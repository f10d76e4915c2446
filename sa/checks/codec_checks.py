"""Checks decided on the wire-event trees of parse() and serialize()."""
from __future__ import annotations

import itertools

from . import check
from ..report import Result
from ..codec import RoundTrip, Reencode, Align, is_padding, has_unk, same_value, ObjRec, ListRec, run_phase
from ..interp import DictRec
from ..terms import *
from .. import terms as tm

PRE = ("Abstract interpretation of the current source: every codec class is constructed, parsed from symbolic wire "
       "bytes and serialized from a symbolic instance (hash-consed terms, gated merges at joins, one summary per loop); "
       "no path enumeration, no solver, nothing executed. ")


def trips(prog):
    """All round trips, computed once per run."""
    if getattr(prog, "_trips", None) is None:
        prog._trips = []
        bodies = prog.bodies()
        for m in prog.all_models():
            if m.c in bodies and bodies[m.c]:
                continue
            if not (m.parse and m.parse.ok and m.fwd):
                prog._trips.append((m, None, []))
                continue
            vs = m.variants()
            prog._trips.append((m, Reencode(m), [(v, RoundTrip(m, v)) for v in vs]))
    return prog._trips


def cls_of(m):
    return m.name


def report_trip(r, m, kinds=None):
    """Report the findings of one class's round trips."""
    def rep(kind, what, msg, where, line, v=None):
        if kinds is not None and kind not in kinds:
            return
        lab = "" if v is None or v.label == "-" else f" [{v.label}]"
        r.finding(kind, f"{m.name}.{what}", f"{m.name}{lab}: {msg}", where or m.name, line or m.line, m.file)
    return rep


@check("C01")
def c01(prog, tier):
    r = Result(PRE + "Rule: parse() consumes exactly the bytes serialize() produced (aligned byte by byte, list counts "
               "included), every non-padding attribute decodes to the term it was encoded from, and re-encoding decoded "
               "bytes writes the same bytes back for every stored field.")
    for m, re_, rts in trips(prog):
        rep = report_trip(r, m)
        if re_ is None:
            r.ob(False)
            ph = m.ctor if m.obj is None else (m.parse if not m.parse.ok else m.fwd)
            if ph.exc in ("analysis", "TypeError") and m.obj is None or ph.exc == "analysis":
                r.undecide(f"{m.name}: {ph.name}: {ph.exc} {ph.note}")
            else:
                rep("raises", ph.name.split(".")[-1], f"{ph.name} always raises {ph.exc} ({ph.note})", ph.name, m.line)
            continue
        r.count("classes")
        for u in re_.unknown:
            r.undecide(f"{m.name}: re-encode: {u}")
        for k, what, msg, where, line in re_.findings:
            rep(k, what, msg, where, line)
        r.ob(not re_.findings)
        r.count("chunks_reencoded", re_.identical + re_.structural)
        for v, t in rts:
            r.count("variants")
            if not t.ser.ok:
                if t.ser.exc == "analysis":
                    r.undecide(f"{m.name} {v.label}: {t.ser.note}")
                else:
                    rep("raises", "serialize", f"serialize always raises {t.ser.exc} ({t.ser.note})", t.ser.name, m.line, v)
                r.ob(False)
                continue
            for k, what, msg, where, line in t.findings:
                rep(k, what, msg, where, line, v)
            for u in t.unknown:
                r.undecide(f"{m.name} {v.label}: {u}")
            r.count("fields_compared", t.compared)
            r.count("reads_aligned", t.al.nreads)
            r.ob(not t.findings, f"{m.name}[{v.label}]: {t.al.nreads} reads aligned, {t.compared} attributes equal")
    return r


@check("C05")
def c05(prog, tier):
    r = Result(PRE + "Rule: for every list serialize() writes, the count or length field parse() uses to delimit it is, "
               "as a term, the number of elements (or bytes) written for that list.")
    kinds = {"count", "length", "structure", "condition", "extra-output", "missing-output", "width"}
    for m, re_, rts in trips(prog):
        if re_ is None:
            continue
        rep = report_trip(r, m, kinds)
        for v, t in rts:
            if not t.ser.ok:
                continue
            n = len(t.al.loops)
            if not n and not any(k in ("count", "length") for k, *_ in t.findings):
                continue
            r.count("classes_with_lists")
            r.count("lists", n)
            bad = False
            for k, what, msg, where, line in t.findings:
                if k in kinds:
                    bad = True
                    rep(k, what, msg, where, line, v)
            for u in t.unknown:
                r.undecide(f"{m.name} {v.label}: {u}")
            r.ob(not bad, f"{m.name}[{v.label}]: {n} delimited lists")
    return r


# ------------------------------------------------------------------ sizes
def emitted(al, evs):
    """Number of bytes a write-event tree emits, as a term."""
    def tot(ps):
        s = ZERO
        for p in ps:
            if p[0] == "p":
                s = tm.bin_("+", s, tm.seg_len(p[1]))
            elif p[0] == "opq":
                s = tm.bin_("+", s, tm.len_(p[1]))
            elif p[0] == "loop":
                b = tot(p[3])
                if is_const(b):
                    s = tm.bin_("+", s, tm.bin_("*", p[2], b))
                else:
                    s = tm.bin_("+", s, mk("sum", p[1], p[2], b))
            elif p[0] == "ite":
                s = tm.bin_("+", s, tm.ite(p[1], tot(p[2]), tot(p[3])))
        return s
    return tot(al.pieces(evs))


def small(t, env):
    """Integer value of t when every atom (length, field) has the value env
    gives it; None when t is not arithmetic."""
    if is_const(t):
        return t.args[0] if isinstance(t.args[0], int) else None
    if t.op == "bin":
        a, b = small(t.args[1], env), small(t.args[2], env)
        f = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "//": lambda: a // b if b else None, "%": lambda: a % b if b else None,
             "&": lambda: a & b, "|": lambda: a | b, ">>": lambda: a >> b if 0 <= b < 64 else None, "<<": lambda: a << b if 0 <= b < 64 else None,
             "^": lambda: a ^ b}.get(t.args[0])
        return f() if f and a is not None and b is not None else None
    if t.op == "cmp":
        a, b = small(t.args[1], env), small(t.args[2], env)
        f = {"<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b, "==": lambda: a == b, "!=": lambda: a != b}.get(t.args[0])
        return int(f()) if f and a is not None and b is not None else None
    if t.op == "ite":
        c = small(t.args[0], env)
        return None if c is None else small(t.args[1] if c else t.args[2], env)
    return env.get(t)


def atoms(t, out):
    if t.op in ("bin", "cmp", "ite"):
        for x in t.args:
            if isinstance(x, T):
                atoms(x, out)
    elif t.op == "len" or (t.op == "leaf" and t.args[1] == "count"):
        out.setdefault(t)
    return out


def negative_counts(trace, conds=()):
    """(count, witness) of every bytes(count) written whose count is negative
    for some number of list elements."""
    for e in trace:
        if e[0] == "wr":
            for t in e[1:]:
                for x in subterms(t) if isinstance(t, T) else ():
                    for g in x.args[0] if x.op == "bytes" else ():
                        if g[0] != "rep" or not isinstance(g[2], T) or g[2].op != "bin":
                            continue
                        av = atoms(g[2], {})
                        for c in conds:
                            atoms(c[0], av)
                        if len(av) > 4:
                            continue
                        for vals in itertools.product((0, 1, 2, 3, 5, 8), repeat=len(av)):
                            env = dict(zip(av, vals))
                            if any(small(c, env) in (None, *((0,) if pos else (1,))) for c, pos in conds):
                                continue
                            k = small(g[2], env)
                            if k is not None and k < 0:
                                yield g[2], ", ".join(f"{show(a)} = {b}" for a, b in env.items()) or "always"
                                break
        elif e[0] == "if":
            yield from negative_counts(e[2], conds + ((e[1], True),))
            yield from negative_counts(e[3], conds + ((e[1], False),))
        elif e[0] == "loop":
            for y in e:
                if isinstance(y, tuple) and y and isinstance(y[0], tuple):
                    yield from negative_counts(y, conds)


@check("C11")
def c11(prog, tier):
    r = Result(PRE + "Rule: for every class with marshalledSize(), the term it returns for a symbolic instance equals the "
               "summed length of the write events of serialize() on the same instance.")
    for m in prog.all_models():
        if m.obj is None or prog.I.class_lookup(m.c, "marshalledSize")[0] is None:
            continue
        for v in m.variants():
            with prog.isolated():
                s = m.run_serialize(v.heap, m.obj)
                z = m.run_method(v.heap, m.obj, "marshalledSize")
                if not s.ok or s.exc == "analysis":
                    r.undecide(f"{m.name}: serialize {s.exc} {s.note}")
                    continue
                if not z.ok:
                    if z.exc == "analysis":
                        r.undecide(f"{m.name}: marshalledSize {z.note}")
                    else:
                        r.finding("size-raises", m.name, f"marshalledSize always raises {z.exc} {z.note}", m.name, m.line, m.file)
                    continue
                al = Align(prog.I, v.facts)
                n = emitted(al, s.trace)
                r.count("instances")
                for t, w in negative_counts(s.trace):
                    r.finding("negative-size", m.name, f"serialize() makes bytes({show(t)[:120]}), which is negative ({w}) and raises ValueError",
                              m.name + ".serialize", m.line, m.file)
                z_ = al.I_arith(z.ret)
                n = al.I_arith(n)
                if has_unk(n) or has_unk(z_):
                    r.undecide(f"{m.name} [{v.label}]: size {show(z_)} vs {show(n)}")
                    r.ob(False)
                    continue
                ok = al.same(z_, n) or (is_const(z_) and is_const(n) and z_.args[0] == n.args[0])
                r.ob(ok, f"{m.name}[{v.label}]: {show(n)} bytes")
                if not ok:
                    r.finding("size", m.name, f"marshalledSize() is {show(z_)} but serialize() writes {show(n)} bytes",
                              m.name + ".marshalledSize", m.line, m.file)
    return r


# ------------------------------------------------------- state discipline
def reach(I, heap, t, path="", dup=None, out=None):
    """{heap id: path} of mutable objects reachable from t."""
    if out is None:
        out = {}
    if t.op == "ref":
        oid = t.args[0]
        r = heap.get(oid)
        if oid in out:
            if dup is not None and out[oid] != path and not (isinstance(r, ListRec) and r.kind == "tuple") and \
                    not any(n.startswith("_") for q in (path, out[oid]) for n in q.split(".")):
                dup[oid] = (out[oid], path)
            return out
        if r is None:
            return out
        out[oid] = path
        if isinstance(r, ObjRec):
            for k, v in r.attrs.items():
                reach(I, heap, v, f"{path}.{k}" if path else k, dup, out)
        elif isinstance(r, ListRec):
            def gs(segs):
                for s in segs:
                    if s[0] == "e":
                        reach(I, heap, s[1], path + "[]", dup, out)
                    elif s[0] == "rep":
                        for v in s[3]:
                            reach(I, heap, v, path + "[*]", dup, out)
                    elif s[0] == "ite":
                        gs(s[2])
                        gs(s[3])
            gs(r.segs)
        elif hasattr(r, "items") and not callable(r.items):
            for k, v in r.items:
                reach(I, heap, v, f"{path}[{show(k)}]", dup, out)
        return out
    if t.op in ("ite", "tuple"):
        for x in t.args:
            if isinstance(x, T):
                reach(I, heap, x, path, dup, out)
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, T):
                        reach(I, heap, y, path, dup, out)
    return out


@check("C15")
def c15(prog, tier):
    r = Result(PRE + "Rule: the heap objects reachable from two default-constructed instances of a class are disjoint, none "
               "existed before the construction (so no mutable default argument, class attribute or module object is "
               "shared), and parse() does not link one instance's objects to another's.")
    I = prog.I
    for m in prog.all_models():
        if m.obj is None:
            continue
        with prog.isolated():
            pre = set(m.base_heap)
            dup = {}
            a = reach(I, m.ctor.heap, m.obj, dup=dup)
            r.count("classes")
            r.count("objects", len(a))
            bad = {p for o, p in a.items() if o in pre}
            I.heap = dict(m.ctor.heap)
            b = None
            ph = run_phase(I, m.name, lambda: I.call(I.rec(m.obj).cls, [], {}, None), m.ctor.heap)
            if ph.ok and ph.ret.op == "ref":
                b = reach(I, ph.heap, ph.ret)
                bad |= {p for o, p in b.items() if o in a}
                if m.parse.ok:
                    # parse the first, then look for what both can reach
                    ph2 = m.run_parse(ph.heap, m.obj)
                    if ph2.ok:
                        c = reach(I, ph2.heap, m.obj, dup=dup)
                        d = reach(I, ph2.heap, ph.ret)
                        bad |= {p for o, p in c.items() if o in d}
                        bad |= {p for o, p in c.items() if o in pre}
            r.ob(not bad and not dup, f"{m.name}: {len(a)} objects, all fresh and distinct")
            for x, y in sorted(dup.values()):
                r.finding("aliased", f"{m.name}.{y}", f"{m.name}.{x} and {m.name}.{y} are one object: changing one changes the other", m.name, m.line, m.file)
            for p in sorted(bad):
                r.finding("shared", f"{m.name}.{p}", f"{m.name}.{p} is one object shared by every instance", m.name + ".__init__", m.line, m.file)
    return r


@check("C16")
def c16(prog, tier):
    r = Result(PRE + "Rule: parse() is run twice on one instance with independent symbolic inputs; no byte of the first input "
               "is reachable from a non-padding attribute afterwards.")
    I = prog.I
    bodies = prog.bodies()
    for m in prog.all_models():
        if m.obj is None or not m.parse.ok:
            continue
        with prog.isolated():
            first = chunks_in(m.parse.trace)
            ph = m.run_parse(m.parse.heap, m.obj)
            if not ph.ok:
                if ph.exc == "analysis":
                    r.undecide(f"{m.name}: second parse {ph.note}")
                else:
                    r.ob(False)
                    r.finding("second-parse", m.name, f"decoding into a {m.name} that was decoded into before always raises {ph.exc} ({ph.note})",
                              f"{m.name}.parse", m.line, m.file)
                continue
            if not first:
                continue
            r.count("classes")
            bad = stale(I, ph.heap, m.obj, first)
            r.ob(not bad, f"{m.name}: nothing of the first of two parses survives")
            for p in sorted(bad):
                if bad[p] is None:
                    r.undecide(f"{m.name}.{p}: after a second parse")
                else:
                    r.finding("stale", f"{m.name}.{p}", f"after a second parse {m.name}.{p} still holds data of the first: {show(bad[p])}",
                              m.name + ".parse", m.line, m.file)
    return r


def chunks_in(evs):
    out = set()
    for e in evs:
        if e[0] == "rd":
            out.add(e[2])
        elif e[0] == "loop":
            out |= chunks_in(e[3])
        elif e[0] == "if":
            out |= chunks_in(e[2]) | chunks_in(e[3])
    return out


def stale(I, heap, obj, first):
    bad = {}
    seen = set()

    def term(t, path):
        for x in subterms(t):
            if x.op == "chunk" and x in first:
                bad[path] = t
                return

    def segs(ss, path):
        for s in ss:
            if s[0] == "e":
                go(s[1], path + "[]")
            elif s[0] == "rep":
                term(s[2], path + "(count)")
                for v in s[3]:
                    go(v, path + "[*]")
            elif s[0] == "ite":
                term(s[1], path)
                segs(s[2], path)
                segs(s[3], path)
            elif s[0] == "bseg":
                term(s[1], path)
            elif s[0] == "opaque" and s[1].op == "lslice":
                go(s[1].args[1], path + "[:]")
            elif s[0] in ("condrep", "rep2"):
                term(s[2], path + "(count)")
                segs((s[3],) if s[0] == "condrep" else s[3], path)
            else:
                n = len(bad)
                for x in s[1:]:
                    if isinstance(x, T):
                        go(x, path + "[*]")
                if n == len(bad):
                    bad.setdefault(path, None)

    def go(t, path):
        if t.op == "ref":
            if t in seen:
                return
            seen.add(t)
            r = heap.get(t.args[0])
            if isinstance(r, ObjRec):
                for k, v in r.attrs.items():
                    if not is_padding(k):
                        go(v, f"{path}.{k}" if path else k)
            elif isinstance(r, ListRec):
                segs(r.segs, path)
            return
        if t.op == "ite":
            if any(x.op == "chunk" and x in first for x in subterms(t.args[0])):
                bad[path] = t
                return
            go(t.args[1], path)
            go(t.args[2], path)
            return
        term(t, path)
    go(obj, "")
    return bad


@check("C17")
def c17(prog, tier):
    r = Result(PRE + "Rule: serialize() leaves every attribute and list reachable from the instance with the term it had "
               "before, and writes to no object other than the output stream.")
    I = prog.I
    for m in prog.all_models():
        if m.obj is None:
            continue
        for v in m.variants():
            with prog.isolated():
                ph = m.run_serialize(v.heap, m.obj)
                if not ph.ok:
                    if ph.exc == "analysis":
                        r.undecide(f"{m.name}: {ph.note}")
                    continue
                r.count("instances")
                before = reach(I, v.heap, m.obj)
                bad = []
                for oid, p in before.items():
                    x, y = v.heap.get(oid), ph.heap.get(oid)
                    if x is y:
                        continue
                    bad += diff(x, y, p, I)
                pre = [o for o in m.base_heap if ph.heap.get(o) is not v.heap.get(o) and not isinstance(v.heap.get(o), DictRec) and
                       diff(v.heap.get(o), ph.heap.get(o), "", I)]
                r.count("objects", len(before))
                r.ob(not bad and not pre, f"{m.name}[{v.label}]: {len(before)} objects unchanged")
                for p in bad:
                    r.finding("mutates", f"{m.name}.{p}", f"serialize() changes {m.name}.{p}", m.name + ".serialize", m.line, m.file)
                for o in pre:
                    r.finding("mutates-global", f"{m.name}", "serialize() changes an object shared by all instances", m.name + ".serialize", m.line, m.file)
    return r


def diff(x, y, p, I=None):
    """Attribute paths on which two heap records differ."""
    if x is y:
        return []
    if isinstance(x, ObjRec) and isinstance(y, ObjRec):
        out = []
        for k in set(x.attrs) | set(y.attrs):
            if x.attrs.get(k) is not y.attrs.get(k):
                if I is not None and k not in x.attrs and x.cls.op == "cls":
                    d = I.class_lookup(x.cls, k)[0]
                    if d is not None and d.op == "property":
                        continue                  # functools.cached_property
                out.append(f"{p}.{k}" if p else k)
        return out
    if isinstance(x, ListRec) and isinstance(y, ListRec):
        return [] if x.segs == y.segs else [p or "list"]
    if type(x) is type(y) and hasattr(x, "__dict__") and x.__dict__ == y.__dict__:
        return []
    if type(x) is type(y) and hasattr(x, "__slots__"):
        if all(getattr(x, s, None) == getattr(y, s, None) for s in x.__slots__):
            return []
    return [p or "object"]
