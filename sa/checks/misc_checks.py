"""Derived attributes, entity markings, package state, bit fields and named
constants."""
from __future__ import annotations

import ast
import os

from . import check
from .codec_checks import PRE, trips, reach
from .geo_checks import Geo, dr_args, MODELS, symbols, reach_arrays, XYZ, OXYZ, NED, LAT, LON, ALT, RPY, EUL
from .model_checks import annotated_classes
from ..codec import ListRec, ObjRec, run_phase, has_unk
from ..interp import DictRec, ClsRec
from ..models import ArrRec
from ..poly import Algebra, Unsupported
from ..report import Result, VERIF
from ..terms import *


def rows(name, n):
    """Lines of an oracle table, split into at most n words."""
    out = []
    for ln in open(os.path.join(VERIF, "oracle", name), encoding="utf-8"):
        ln = ln.strip()
        if ln and not ln.startswith("#"):
            out.append(ln.split(None, n - 1))
    return out


# ------------------------------------------------------- derived attributes
@check("C25")
def c25(prog, tier):
    r = Result(PRE + "Rule: on an instance with lists of symbolic length and symbolic record contents, each count or length attribute evaluates to the number "
               "of elements of its list (times the element size the standard names, or the encoded size of its record); after the list "
               "object an attribute hands out has been emptied or extended the attribute evaluates to the new number, and that list object is the one the "
               "instance keeps (appending to it is not lost).")
    I = prog.I
    want = {}
    for cls, getter, rule in rows("derived.txt", 3):
        want.setdefault(cls, {})[getter] = rule
    models = {m.name: m for m in prog.all_models() if m.obj is not None}
    for cls, gs in want.items():
        m = models.get(cls)
        if m is None:
            r.ob(False)
            r.finding("gone", cls, f"the class {cls} is gone", cls, 0, "")
            continue
        r.count("classes")
        vs = [(v.label, v.heap, v.facts) for v in m.variants()] + [("default", m.ctor.heap, {})]
        for getter, rule in gs.items():
            r.count("attributes")
            ok = True
            for label, heap, facts in vs:
                with prog.isolated():
                    v = derived(r, prog, m, getter, rule, heap, facts)
                    if v is None:
                        ok = None
                    elif v:
                        ok = False
                        ln, fl = getter_line(I, m, getter)
                        r.finding("derived", f"{cls}.{getter}", f"{cls}.{getter} {v}", f"{cls}.{getter}", ln, fl)
                        break
            r.ob(ok is True, f"{cls}.{getter} = {rule}")
    # the lists handed out are the instance's own
    for m in models.values():
        for v in m.variants()[:1]:
            for name in sorted(public(I, m)):
                with prog.isolated():
                    g = m.run_getattr(v.heap, m.obj, name, v.facts)
                    if not g.ok or g.ret.op != "ref" or not isinstance(g.heap.get(g.ret.args[0]), (ListRec, ObjRec)):
                        continue
                    r.count("objects_handed_out")
                    if not r.ob(g.ret.args[0] in v.heap):
                        ln, fl = getter_line(I, m, name)
                        r.finding("copy", f"{m.name}.{name}", f"{m.name}.{name} hands out a copy: changes made to it do not reach the encoded "
                                  "record", f"{m.name}.{name}", ln, fl)
    return r


def public(I, m):
    """Names of properties of the class."""
    out = set()
    for k in I.mro(m.c):
        node = I.rec(k).node if k.op == "cls" else None
        for n in getattr(node, "body", ()):
            if isinstance(n, ast.FunctionDef) and any(ast.unparse(d).split(".")[-1] in ("property", "cached_property") for d in n.decorator_list) \
                    and not n.name.startswith("_"):
                out.add(n.name)
    return out


def getter_line(I, m, name):
    for k in I.mro(m.c):
        node = I.rec(k).node if k.op == "cls" else None
        for n in getattr(node, "body", ()):
            if isinstance(n, ast.FunctionDef) and n.name == name:
                return n.lineno, m.file
    return m.line, m.file


def derived(r, prog, m, getter, rule, heap, facts):
    """None undecided, "" holds, else what is wrong."""
    I = prog.I
    g = m.run_getattr(heap, m.obj, getter, facts)
    if not g.ok:
        if g.exc == "analysis":
            r.undecide(f"{m.name}.{getter}: {g.note}")
            return None
        return f"raises {g.exc} ({g.note})"
    if rule.startswith("size("):
        attr = rule[5:-1]
        a = m.run_getattr(heap, m.obj, attr, facts)
        if not a.ok:
            return f"needs {attr}, which is gone"
        if a.ret is NONE:
            return same_number(r, m, getter, g.ret, const(0))
        s = run_phase(I, attr, lambda: I.call(I.getattr_(a.ret, "marshalledSize"), [], {}, None), a.heap, a.facts)
        if not s.ok:
            if s.exc != "analysis":
                return f"cannot be computed: {attr}.marshalledSize raises {s.exc} ({s.note})"
            r.undecide(f"{m.name}.{attr}.marshalledSize: {s.note}")
            return None
        return same_number(r, m, getter, g.ret, s.ret)
    k, attr = rule.split("*")
    k = int(k)
    a = m.run_getattr(heap, m.obj, attr, facts)
    if not a.ok:
        return f"needs {attr}, which is gone"
    n = run_phase(I, attr, lambda: I.call(mk("builtin", "len"), [a.ret], {}, None), a.heap, a.facts)
    if not n.ok:
        r.undecide(f"{m.name}.{attr}: {n.note}")
        return None
    w = same_number(r, m, getter, g.ret, bin_("*", n.ret, const(k)))
    if w != "":
        return w
    # and after the list changes, in place or by assignment, whether or not the attribute was read before
    cnt = leaf("number of elements", "uint")
    fills = (((), const(0), "emptied"), ((("rep", 10 ** 6, cnt, (ELEMENT,)),), cnt, "extended"))
    for before in (heap, g.heap):
        a2 = m.run_getattr(before, m.obj, attr, facts)
        if not a2.ok or a2.ret.op != "ref" or not isinstance(a2.heap.get(a2.ret.args[0]), ListRec):
            continue
        rec = a2.heap[a2.ret.args[0]]
        for segs, size, how in fills:
            h = dict(a2.heap)
            h[a2.ret.args[0]] = ListRec(rec.kind, segs, rec.origin)
            w = again(r, m, getter, h, facts, bin_("*", size, const(k)), f"after {attr} was {how} in place")
            if w != "":
                return w
        for segs, size, how in fills[1:]:
            I.heap = dict(before)
            lst = I.alloc(ListRec("list", segs))
            st = run_phase(I, attr, lambda: (I.setattr_(m.obj, attr, lst), NONE)[1], I.heap, facts)
            if st.ok:
                w = again(r, m, getter, st.heap, facts, bin_("*", size, const(k)), f"after another list was assigned to {attr}")
                if w != "":
                    return w
    return ""


def again(r, m, getter, heap, facts, want, when):
    g = m.run_getattr(heap, m.obj, getter, facts)
    if not g.ok:
        if g.exc != "analysis":
            return f"raises {g.exc} ({g.note}) {when}"
        r.undecide(f"{m.name}.{getter}: {g.note}")
        return None
    w = same_number(r, m, getter, g.ret, want)
    return w + " " + when if w else w


ELEMENT = leaf("element")


def per_element(t, k):
    """The count t adds something other than k for elements that meet a condition."""
    if t.op == "sum" and t.args[2].op == "ite":
        c, x, y = t.args[2].args
        return any(v.op == "const" and v.args[0] != k for v in (x, y)) and not has_unk(c) and \
            any(s.op in ("leaf", "chunk", "wire") and s is not ELEMENT for s in subterms(c))
    return False


def same_number(r, m, getter, got, want):
    if got is want:
        return ""
    if has_unk(got) or has_unk(want):
        r.undecide(f"{m.name}.{getter} = {show(got)[:80]}")
        return None
    if any(per_element(x, 1) for x in subterms(got)) and not any(x.op == "sum" for x in subterms(want)):
        return f"is {show(got)[:160]}, not {show(want)[:80]}"
    A = Algebra()
    try:
        if A.same(A.of(got), A.of(want)):
            return ""
        if got.op == "ite" or want.op == "ite" or any(x.op == "ite" for x in subterms(got)):
            r.undecide(f"{m.name}.{getter} = {show(got)[:80]}")
            return None
        return f"is {show(got)[:80]}, not {show(want)[:80]}"
    except Unsupported as e:
        if got.op == "const":
            return f"is {show(got)[:80]}, not {show(want)[:80]}"
        r.undecide(f"{m.name}.{getter}: {e}")
        return None


# ---------------------------------------------------------- entity marking
def codes(t, s, n):
    """The sequence of character codes (terms; ints for constants) a term for
    a string, bytes or sequence denotes when s has n characters; None if the
    term is not understood."""
    if t is s:
        return [("c", i) for i in range(n)]
    if t.op == "const":
        v = t.args[0]
        if isinstance(v, str):
            return [ord(c) for c in v]
        if isinstance(v, bytes):
            return list(v)
        return None
    if t.op in ("decode", "encode"):
        if str(t.args[1]).lower().replace("_", "-") not in ("utf-8", "utf8", "ascii", "us-ascii", "latin-1", "latin1", "iso-8859-1"):
            return None
        return codes(t.args[0], s, n)
    if t.op == "bytesof":
        return codes(t.args[0], s, n)
    if t.op == "tuple":
        out = []
        for x in (t.args[0] if len(t.args) == 1 and isinstance(t.args[0], tuple) else t.args):
            c = code_of(x, s, n)
            if c is None:
                return None
            out.append(c)
        return out
    if t.op == "filtered" and (t.args[0] is None or t.args[0] is NONE):
        v = codes(t.args[1], s, n)
        return None if v is None else [c for c in v if c != 0]
    if t.op == "pad" and t.args[0] == "ljust" and is_int(t.args[2]):
        v = codes(t.args[1], s, n)
        f = t.args[3] if len(t.args) > 3 else NONE
        fc = codes(f, s, n) if f is not NONE else [32]
        if v is None or fc is None or len(fc) != 1:
            return None
        return v + fc * (t.args[2].args[0] - len(v))
    if t.op in ("bslice", "slice_of", "strslice", "select"):
        v = codes(t.args[0], s, n) if isinstance(t.args[0], T) else None
        if v is None or t.op != "bslice":
            return None
        lo, cnt = t.args[1], t.args[2]
        cnt = cnt.args[0] if isinstance(cnt, T) and is_int(cnt) else cnt
        if not isinstance(lo, int) or not isinstance(cnt, int):
            return None
        return v[lo:lo + cnt]
    if t.op == "mcall" and t.args[0] in ("rstrip", "strip"):
        v = codes(t.args[1], s, n)
        xs = [codes(x, s, n) if isinstance(x, T) else [x] for x in t.args[2]]
        if v is None or xs != [[0]]:
            return None
        while v and v[-1] == 0:
            v.pop()
        while t.args[0] == "strip" and v and v[0] == 0:
            v.pop(0)
        return v
    if t.op == "mcall" and t.args[0] == "replace":
        v = codes(t.args[1], s, n)
        xs = [codes(x, s, n) for x in t.args[2]]
        return [c for c in v if c != 0] if v is not None and xs == [[0], []] else None
    if t.op == "mcall" and t.args[0] == "join":
        sep = codes(t.args[1], s, n)
        if sep != []:
            return None
        out = []
        for x in t.args[2] if isinstance(t.args[2], tuple) else ():
            v = codes(x, s, n) if isinstance(x, T) else None
            if v is None:
                return None
            out += v
        return out
    if t.op == "str":
        out = []
        for x in (t.args[0] if isinstance(t.args[0], tuple) else t.args):
            v = codes(x, s, n)
            if v is None:
                return None
            out += v
        return out
    if t.op in ("item", "select") and t.args[0] is s:
        c = code_of(mk("ord", t), s, n)
        return None if c is None else [c]
    if t.op == "chr":
        c = code_of(t.args[0], s, n)
        return None if c is None else [c]
    if t.op == "bytes":
        out = []
        for sg in t.args[0]:
            if sg[0] == "lit":
                out += list(sg[1])
                continue
            if sg[0] != "pk" or sg[1].strip("<>=!@") not in ("B", "b"):
                return None
            c = code_of(sg[2], s, n)
            if c is None:
                return None
            out.append(c)
        return out
    return None


def known_length(t, s, n):
    memo = {}
    return rewrite(t, lambda x: const(n) if x.op == "len" and x.args[0] is s else None, memo)


def code_of(x, s, n):
    if is_int(x):
        return x.args[0]
    if x.op == "ord" and x.args[0].op in ("item", "select") and x.args[0].args[0] is s:
        i = x.args[0].args[1]
        i = i.args[0] if isinstance(i, T) and is_int(i) else i
        return ("c", i) if isinstance(i, int) and 0 <= i < n else None
    if x.op in ("item", "select"):
        i = x.args[1]
        i = i.args[0] if isinstance(i, T) and is_int(i) else i
        v = codes(x.args[0], s, n) if isinstance(x.args[0], T) else None
        if v is not None and isinstance(i, int) and -len(v) <= i < len(v):
            return v[i]
    if x.op == "unpack" and x.args[0] in ("B", ">B", "b"):
        v = codes(x.args[1], s, n)
        i = x.args[2] if len(x.args) > 2 else 0
        i = i.args[0] if isinstance(i, T) and is_int(i) else i
        if v is not None and isinstance(i, int) and i < len(v):
            return v[i]
    return None


def keeps(x, olds):
    """Is some alternative of x an earlier value?"""
    if x.op == "ite" and not has_unk(x):
        return keeps(x.args[1], olds) or keeps(x.args[2], olds)
    return any(x is y for y in olds)


@check("C26")
def c26(prog, tier):
    r = Result(PRE + "setString and charactersString are interpreted on a symbolic text, once for each length from 0 to beyond the field, on a marking with "
               "arbitrary earlier contents. Rule: character i of the field becomes the code of character i of the text and everything after "
               "the text becomes 0, eleven codes in all; charactersString then gives back the characters stored, in order.")
    I = prog.I
    c = prog._find_cls("EntityMarking")
    m = prog.model(c) if c is not None else None
    if m is None or m.obj is None or not m.variants():
        r.ob(False)
        r.finding("gone", "EntityMarking", "EntityMarking cannot be built and decoded", "EntityMarking", 0, "")
        return r
    s = leaf("text", "str")
    for v in [(x.label, x.heap, x.facts) for x in m.variants()] + [("default", m.ctor.heap, {})]:
        for n in list(range(0, 13)) + ([20, 40] if tier == "thorough" else [20]):
            with prog.isolated():
                facts = dict(v[2])
                facts[cmp_("==", len_(s), const(n))] = True
                for i in range(min(n, 11)):
                    o = mk("ord", mk("item", s, const(i)))
                    for i_ in (const(i), i):
                        o = mk("ord", mk("item", s, i_))
                        facts[truthy(o)] = True
                        facts[cmp_("==", o, const(0))] = False
                        facts[cmp_("!=", o, const(0))] = True
                ph = m.run_method(v[1], m.obj, "setString", [s if n else const("")], facts)
                r.count("lengths")
                ln, fl = getter_line(I, m, "setString")
                if not ph.ok:
                    if ph.exc == "analysis":
                        r.undecide(f"setString: {ph.note}")
                    else:
                        r.finding("raises", "setString", f"setString raises {ph.exc} ({ph.note}) on a text of {n} characters", "EntityMarking.setString", ln, fl)
                    r.ob(False)
                    continue
                probs = [p for p in ph.problems if not p.handled]
                if probs:
                    r.ob(False)
                    r.finding("raises", "setString", f"setString can fail on a text of {n} characters: {probs[0].msg}", "EntityMarking.setString", ln, fl)
                    continue
                g = m.run_getattr(ph.heap, m.obj, "characters", ph.facts)
                items = I.seq_items(g.ret) if g.ok else None
                if items is not None:
                    items = [known_length(x, s, n) for x in items]
                k = min(n, 11)
                want = [("c", i) for i in range(k)] + [0] * (11 - k)
                got = None
                if items is not None:
                    old = m.run_getattr(v[1], m.obj, "characters", v[2])
                    olds = I.seq_items(old.ret) if old.ok else None
                    got = [code_of(x, s, n) if code_of(x, s, n) is not None else ("old" if olds is not None and keeps(x, olds) else None)
                           for x in items]
                elif g.ok:
                    got = codes(g.ret, s, n)
                if got is None or None in got:
                    r.undecide(f"setString: a text of {n} characters gives {[show(x)[:40] for x in items or []][:12]}")
                    r.ob(False)
                    continue
                if not r.ob(got == want, f"setString with {n} characters"):
                    bad = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
                    say = "is missing" if bad >= len(got) else "is left as it was" if got[bad] == "old" else f"is {got[bad]}" if not isinstance(got[bad], tuple) \
                        else f"is character {got[bad][1]} of the text"
                    r.finding("marking", "setString", f"after setString with {n} characters, position {bad} of the marking {say}", "EntityMarking.setString", ln, fl)
                    continue
                t = m.run_method(ph.heap, m.obj, "charactersString", [], ph.facts)
                ln, fl = getter_line(I, m, "charactersString")
                if not t.ok:
                    if t.exc == "analysis":
                        r.undecide(f"charactersString: {t.note}")
                    else:
                        r.finding("raises", "charactersString", f"charactersString raises {t.exc} ({t.note})", "EntityMarking.charactersString", ln, fl)
                    r.ob(False)
                    continue
                back = codes(known_length(I.res(t.ret), s, n), s, n)
                if back is None and is_const(t.ret) and not isinstance(t.ret.args[0], str):
                    r.finding("marking", "charactersString", f"charactersString after setString with {n} characters is {show(t.ret)}, no text",
                              "EntityMarking.charactersString", ln, fl)
                    r.ob(False)
                elif back is None:
                    r.undecide(f"charactersString: {show(t.ret)[:160]}")
                    r.ob(False)
                elif not r.ob(back == want[:k], f"charactersString after {n} characters"):
                    r.finding("marking", "charactersString", f"charactersString after setString with {n} characters gives {len(back)} characters: "
                              f"{back[:12]}", "EntityMarking.charactersString", ln, fl)
    return r


# ------------------------------------------------------------ package state
SETTERS = {"numpy.seterr", "numpy.random.seed", "numpy.set_printoptions", "numpy.seterrcall", "random.seed", "os.chdir", "os.umask", "os.putenv",
           "locale.setlocale", "sys.setrecursionlimit", "sys.settrace", "sys.setprofile", "sys.setswitchinterval", "signal.signal",
           "signal.alarm", "warnings.filterwarnings", "warnings.simplefilter", "socket.setdefaulttimeout", "gc.disable", "gc.enable", "gc.set_threshold",
           "decimal.setcontext", "os.environ.update", "os.environ.setdefault", "threading.stack_size", "faulthandler.enable", "logging.basicConfig",
           "logging.disable", "time.tzset", "codecs.register", "builtins.setattr"}


def dict_values(rec, before):
    """Values a dictionary holds that it did not hold before."""
    if not isinstance(rec, DictRec):
        return []
    old = {v for _, v in before.items} if isinstance(before, DictRec) else set()
    return [x for _, v in rec.items if v not in old for x in subterms(v) if x.op == "ref"]


@check("C27")
def c27(prog, tier):
    r = Result(PRE + "Every constructor, encoder, decoder, size and property of the codec classes, the factory, and every dead reckoning and coordinate function "
               "is interpreted with the objects that exist after import marked. Rule: no path writes one of them, a class attribute or a module global, and "
               "no array or record returned is one of them; no function calls a setter of process-wide state.")
    I = prog.I

    def writes(name, ph, line=0, file="", skip=()):
        r.count("functions")
        bad = False
        for e in ph.effects:
            if e[0] == "mutate":
                rec = ph.heap.get(e[1]) or I.heap.get(e[1])
                if isinstance(rec, DictRec):
                    # a memo is harmless unless what it keeps is also what the caller gets
                    kept = {}
                    for v in dict_values(ph.heap.get(e[1]), I0.get(e[1])):
                        reach(I, ph.heap, v, "", None, kept)
                    got = {}
                    if ph.ret is not None:
                        for v in [x for x in subterms(ph.ret) if x.op == "ref"]:
                            reach(I, ph.heap, v, "", None, got)
                    both = [o for o in kept if o in got and isinstance(ph.heap.get(o), (ObjRec, ListRec, ArrRec))
                            and getattr(ph.heap.get(o), "kind", None) != "tuple"]
                    if both:
                        bad = True
                        r.finding("shared-result", name, f"{name} keeps the object it returns in a module-level dictionary (in {e[2]}, line {e[3]}): "
                                  f"later calls hand out the same object", e[2], e[3], file)
                    else:
                        r.undecide(f"{name}: writes the module-level dictionary at {e[2]}:{e[3]}")
                    continue
                what, where, ln = "an object created at import", e[2], e[3]
            elif e[0] == "class-attr":
                what, where, ln = f"the class attribute {e[2]}", e[3], e[4]
            elif e[0] == "global":
                what, where, ln = f"the module variable {e[1]}", e[2], e[3]
            elif e[0] == "memo":
                bad = True
                r.finding("cached", e[1], f"the cached results of {e[1]} (line {e[3]}) outlive the call: it {e[2]}", e[1], e[3], file)
                continue
            else:
                continue
            bad = True
            r.finding("state", f"{where}", f"{name} changes {what} (in {where}, line {ln}), which every later call and every other thread sees", where, ln, file)
        for oid in prog.heap0:
            a, b = I0.get(oid), ph.heap.get(oid)
            if b is not None and a is not b and not isinstance(a, ClsRec) and not isinstance(a, DictRec) and repr_rec(a) != repr_rec(b) and not bad:
                bad = True
                r.finding("state", name, f"{name} changes an object created at import", name, line, file)
        r.ob(not bad, name if len(r.samples) < 12 and len(r.samples) * 40 <= r.stats["functions"] else None)

    I0 = dict(I.heap)
    for m in prog.all_models():
        for ph in (m.ctor, m.parse, m.fwd):
            if ph is not None and ph.heap is not None:
                writes(ph.name, ph, m.line, m.file)
        if m.obj is None:
            continue
        vs = m.variants()
        for v in vs if tier == "thorough" else vs[:2]:
            with prog.isolated():
                ph = m.run_serialize(v.heap, m.obj)
                if ph.exc != "analysis":
                    writes(ph.name, ph, m.line, m.file)
                names = public(I, m) | plain_methods(I, m)
                for n in sorted(names):
                    ph = m.run_getattr(v.heap, m.obj, n, v.facts) if n in public(I, m) else m.run_method(v.heap, m.obj, n, [], v.facts)
                    if ph.ok:
                        writes(ph.name, ph, m.line, m.file)
    # factory
    for name, mod in sorted(I.modules.items()):
        for fn, mkargs in (("createPdu", lambda: [leaf("data", "bytes")]), ("getPdu", lambda: [I.call(prog.dis, [I.raw_in()], {}, None)]),
                           ("createPduFromFilePath", lambda: [leaf("path", "str")])):
            f = mod.env.get(fn)
            if f is None or f.op != "func" or I.func(f).module is not mod:
                continue
            with prog.isolated():
                hookable = {I.class_lookup(c, "parse")[0] for c in prog.codec_classes()}

                def hook(_, g, args, kwargs):
                    return NONE if getattr(g.node, "name", "") == "parse" and len(args) == 2 else None
                I.call_hook = hook
                try:
                    ph = run_phase(I, fn, lambda: I.call(f, mkargs(), {}, None))
                finally:
                    I.call_hook = None
                if ph.exc == "analysis":
                    r.undecide(f"{fn}: {ph.note}")
                else:
                    writes(fn, ph, I.func(f).node.lineno, mod.file)
    # numeric functions: state and results
    g = Geo(prog, "opendis.DeadReckoning")
    jobs = []
    if g.mod is not None:
        for n, s, *_ in MODELS:
            jobs.append((g, n, None, lambda s=s: dr_args(g, s, "array")))
        jobs.append((g, "get_angular_velocity_matrix", None, lambda: dr_args(g, "w", "array")))
    h = Geo(prog, "opendis.RangeCoordinates")
    if h.mod is not None:
        for n, mk_ in (("deg2rad", lambda: [LAT]), ("rad2deg", lambda: [LAT]), ("euclideanDistance", lambda: [h.seq(XYZ, "array"), h.seq(OXYZ, "array")])):
            jobs.append((h, n, None, mk_))
        w = h.instance("WGS84")
        if w is not None:
            jobs.append((h, "g0", ("WGS84", w, h.heap), lambda: [LAT]))
        p = h.instance("GPS")
        if p is not None:
            a = lambda ts: h.seq(ts, "array")
            for n, mk_ in (("ecef2lla", lambda: [a(XYZ)]), ("ecef2llarpy", lambda: list(XYZ) + list(EUL)), ("ecef2ned", lambda: [a(XYZ), a(OXYZ)]),
                           ("ecef2pae", lambda: [a(XYZ), a(OXYZ)]), ("ecef2utm", lambda: [a(XYZ)]), ("ecefvec2nedvec", lambda: [LAT, LON]),
                           ("lla2ecef", lambda: [a([LAT, LON, ALT])]), ("lla2gcc", lambda: [a([LAT, LON, ALT])]), ("lla2utm", lambda: [a([LAT, LON, ALT])]),
                           ("llarpy2ecef", lambda: [LAT, LON, ALT] + list(RPY)), ("ned2ecef", lambda: [a(NED), a(OXYZ)]), ("ned2pae", lambda: [a(NED)]),
                           ("rotate_3x3", lambda: [LAT, a(XYZ)]), ("transpose", lambda: [a(XYZ)]), ("utmLetterDesignator", lambda: [LAT])):
                jobs.append((h, n, ("GPS", p, h.heap), mk_))
    for g_, n, obj, mk_ in jobs:
        with prog.isolated():
            base = set(obj[2]) if obj else set(g_.heap)
            ph = g_.call(n, mk_, obj=obj[1] if obj else None, heap=dict(obj[2]) if obj else None)
            line, file = g_.where(n, obj[0] if obj else None)
            if ph.exc == "analysis" or not ph.ok:
                r.undecide(f"{n}: {ph.exc} {ph.note}")
                continue
            writes(n, ph, line, file)
            ins = {x.args[0]: x for x in g_.args if x.op == "ref"}
            for oid, x in ins.items():
                rec = ph.heap.get(oid)
                if isinstance(rec, ArrRec) and any(d.op != "leaf" for d in rec.data):
                    r.ob(False)
                    r.finding("input-changed", n, f"{n} changes the array it is given", n, line, file)
            out = set()
            reach_arrays(I, ph.heap, ph.ret, out)
            for oid in out:
                rec = ph.heap[oid]
                org = (getattr(rec, "base", None) or (None,))[0]
                r.count("result_objects")
                if oid in base or org in base:
                    r.ob(False)
                    r.finding("shared-result", n, f"the result of {n} is, or is a view of, an object kept by the package: changing it changes later results", n, line, file)
                elif oid in ins or org in ins:
                    r.ob(False)
                    r.finding("alias", n, f"the result of {n} is, or is a view of, the caller's array", n, line, file)
    # process-wide setters
    for name, mod in sorted(I.modules.items()):
        if not name.startswith("opendis"):
            continue
        imported = imports(mod.tree)
        for node in ast.walk(mod.tree):
            if isinstance(node, ast.Call):
                d = dotted(node.func, imported)
                if d in SETTERS:
                    r.finding("process-state", f"{name}:{d}", f"{name} calls {d}: state of the whole process", name, node.lineno, mod.file)
            tg = node.targets if isinstance(node, (ast.Assign, ast.Delete)) else [node.target] if isinstance(node, (ast.AugAssign, ast.AnnAssign)) else []
            for t in tg:
                base = t
                while isinstance(base, (ast.Attribute, ast.Subscript)):
                    base = base.value
                if base is not t and isinstance(base, ast.Name) and base.id in imported and not imported[base.id].startswith(("opendis", ".")):
                    r.finding("process-state", f"{name}:{ast.unparse(t)}", f"{name} assigns {ast.unparse(t)}: state of an imported module", name, node.lineno, mod.file)
        for ok, fn, node, msg in open_files(mod.tree, imported):
            r.count("files_opened")
            if not r.ob(ok, f"{fn}: the file opened is closed on every path"):
                r.finding("left-open", f"{name}:{fn}", f"{fn} opens a file that {msg}", fn, node.lineno, mod.file)
        r.count("modules")
        r.ob(True)
    return r


OPENERS = {"io.open", "os.fdopen", "gzip.open", "bz2.open", "lzma.open", "codecs.open", "tempfile.TemporaryFile", "tempfile.NamedTemporaryFile",
           "socket.socket", "mmap.mmap", "zipfile.ZipFile", "io.FileIO", "_io.open"}


def open_files(tree, imported):
    """(closed, function, node, what is wrong) for each file a function opens:
    held by a with statement, closed in a finally clause, or handed to the
    caller, who then has it to close."""
    funcs = [n for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef))]
    givers = set()

    def opens(n):
        if not isinstance(n, ast.Call):
            return False
        f = n.func
        if isinstance(f, ast.Name):
            return (f.id == "open" and "open" not in imported) or f.id in givers or imported.get(f.id) in OPENERS
        return dotted(f, imported) in OPENERS or isinstance(f, ast.Attribute) and \
            (f.attr in givers or f.attr == "open" and dotted(f, imported) is None)

    def closes(stmts, var):
        return any(isinstance(n, ast.Call) and (isinstance(n.func, ast.Attribute) and n.func.attr == "close" and
                                                isinstance(n.func.value, ast.Name) and n.func.value.id == var or
                                                any(isinstance(a, ast.Name) and a.id == var for a in n.args) and "close" in ast.unparse(n.func).lower())
                   for st in stmts for n in ast.walk(st))

    def held(fn):
        """calls whose result a with statement (or an exit stack) takes."""
        out = set()
        for n in ast.walk(fn):
            if isinstance(n, (ast.With, ast.AsyncWith)):
                for it in n.items:
                    for c in ast.walk(it.context_expr):
                        out.add(c)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("enter_context", "push", "callback"):
                for a in n.args:
                    out |= set(ast.walk(a))
            elif isinstance(n, ast.Yield):
                pass
        return out

    def returned(fn):
        out = set()
        for n in ast.walk(fn):
            if isinstance(n, ast.Return) and n.value is not None:
                v = n.value
                out.add(v)
                if isinstance(v, ast.IfExp):
                    out |= {v.body, v.orelse}
        return out

    for _ in range(3):
        for fn in funcs:
            rets = returned(fn)
            names = {v.id for v in rets if isinstance(v, ast.Name)}
            for n in ast.walk(fn):
                if opens(n) and n in rets or isinstance(n, ast.Assign) and opens(n.value) and any(isinstance(t, ast.Name) and t.id in names for t in n.targets):
                    givers.add(fn.name)
    for fn in funcs:
        hold, rets = held(fn), returned(fn)
        names = {v.id for v in rets if isinstance(v, ast.Name)}
        assigned = {}
        for n in ast.walk(fn):
            if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None and opens(n.value):
                assigned[n.value] = n.targets if isinstance(n, ast.Assign) else [n.target]
            elif isinstance(n, ast.NamedExpr) and opens(n.value):
                assigned[n.value] = [n.target]
        for n in ast.walk(fn):
            if not opens(n):
                continue
            if n in hold or n in rets:
                yield True, fn.name, n, ""
                continue
            tg = assigned.get(n)
            if tg is None:
                # used in place: nothing is left to close it with
                if isinstance(n.func, ast.Attribute) and dotted(n.func, imported) is None and n.func.attr not in givers:
                    continue                      # an .open() of something else
                yield False, fn.name, n, "nothing closes"
                continue
            if not all(isinstance(t, ast.Name) for t in tg):
                continue                          # kept by an object
            var = tg[0].id
            if var in names or any(isinstance(w, (ast.With, ast.AsyncWith)) and any(isinstance(c, ast.Name) and c.id == var for it in w.items
                                                                                    for c in ast.walk(it.context_expr)) for w in ast.walk(fn)):
                yield True, fn.name, n, ""
            elif any(isinstance(t, ast.Try) and closes(t.finalbody, var) for t in ast.walk(fn)):
                yield True, fn.name, n, ""
            elif not closes(fn.body, var):
                yield False, fn.name, n, "nothing closes"
            else:
                # closed only if nothing in between raises: reading the file is all that may happen
                other = [c for st in fn.body for c in ast.walk(st) if isinstance(c, ast.Call) and c is not n and n.lineno <= c.lineno <=
                         min(k.lineno for k in ast.walk(fn) if isinstance(k, ast.Call) and closes([ast.Expr(k)], var))]
                if all(isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.value.id == var for c in other):
                    yield True, fn.name, n, ""
                else:
                    yield False, fn.name, n, "stays open when decoding it fails"


def plain_methods(I, m):
    """Methods without required arguments besides the codec ones."""
    out = set()
    for k in I.mro(m.c):
        node = I.rec(k).node if k.op == "cls" else None
        for n in getattr(node, "body", ()):
            if isinstance(n, ast.FunctionDef) and (not n.decorator_list or getattr(I.class_lookup(m.c, n.name)[0], "op", "") == "func") and n.name not in ("__init__", "serialize", "parse") \
                    and len(n.args.args) - len(n.args.defaults) == 1 and not n.name.startswith("__"):
                out.add(n.name)
    return out


def repr_rec(a):
    if isinstance(a, ArrRec):
        return ("arr", tuple(a.shape), tuple(id(x) for x in a.data))
    if isinstance(a, ListRec):
        return ("list", a.kind, a.segs)
    if isinstance(a, ObjRec):
        return ("obj", tuple(sorted((k, id(v)) for k, v in a.attrs.items())))
    return id(a)


def imports(tree):
    out = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                out[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
        elif isinstance(n, ast.ImportFrom):
            for a in n.names:
                out[a.asname or a.name] = ("." * n.level) + (n.module or "") + "." + a.name
    return out


def dotted(f, imported):
    parts = []
    while isinstance(f, ast.Attribute):
        parts.append(f.attr)
        f = f.value
    if not isinstance(f, ast.Name) or f.id not in imported:
        return None
    return ".".join([imported[f.id]] + parts[::-1])


# --------------------------------------------------- nothing but the arguments
AMBIENT = {
    "the clock": ("time.", "datetime.datetime.now", "datetime.datetime.utcnow", "datetime.datetime.today", "datetime.date.today", "os.times"),
    "chance": ("random.", "secrets.", "uuid.uuid1", "uuid.uuid4", "uuid.getnode", "os.urandom", "os.getrandom", "numpy.random."),
    "the environment": ("os.environ", "os.getenv", "os.environb", "os.getenvb", "os.getcwd", "os.getpid", "os.getppid", "os.getlogin", "os.uname",
                        "os.cpu_count", "os.sched_getaffinity", "os.listdir", "os.scandir", "glob.", "getpass.", "sys.argv", "sys.stdin", "pathlib.Path.home",
                        "pathlib.Path.cwd", "os.path.expanduser", "os.path.expandvars", "os.get_terminal_size", "gc.get_objects", "resource."),
    "the platform": ("platform.", "sys.byteorder", "sys.platform", "sys.maxsize", "sys.maxunicode", "sys.getsizeof", "sys.float_info", "sys.version",
                     "sys.hexversion", "sys.implementation", "os.name", "sys.getdefaultencoding", "sys.getfilesystemencoding", "struct.calcsize.native"),
    "the locale": ("locale.",),
    "the network": ("socket.", "urllib.", "http.", "requests.", "select.", "asyncio."),
    "other processes": ("subprocess.", "os.system", "os.popen", "os.kill", "os.fork", "multiprocessing."),
    "the console": ("sys.stdout", "sys.stderr", "pprint.pprint", "traceback.print_", "builtins.print", "builtins.input"),
}
AMBIENT_BUILTINS = {"input": "the console", "print": "the console", "id": "the address of an object", "hash": "the hash of an object", "breakpoint": "the console"}


def ambient_uses(tree, imported):
    """(function, node, text, what) for everything outside the arguments that
    the module's code consults or changes."""
    def what(d):
        for k, pres in AMBIENT.items():
            for p in pres:
                if d == p or (p.endswith((".", "_")) and d.startswith(p)) or d.startswith(p + "."):
                    return k
        return None

    def main_guard(n):
        return isinstance(n, ast.If) and any(isinstance(x, ast.Name) and x.id == "__name__" for x in ast.walk(n.test))

    def bound(fn):
        a = fn.args
        out = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y is not None]}
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
        return out
    top = {n.name for n in tree.body if isinstance(n, (ast.FunctionDef, ast.ClassDef))} | \
        {t.id for n in tree.body if isinstance(n, ast.Assign) for t in n.targets if isinstance(t, ast.Name)}

    def walk(n, fn, names, out):
        if main_guard(n) or isinstance(n, ast.arg):
            return
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            fn = n.name if fn == "" or "." not in fn and not fn[:1].isupper() else f"{fn}.{n.name}"
            names = names | bound(n)
            for x in n.decorator_list + n.args.defaults + [y for y in n.args.kw_defaults if y is not None] + n.body:
                walk(x, fn, names, out)
            return
        if isinstance(n, ast.ClassDef):
            for x in n.decorator_list + n.body:
                walk(x, n.name, names, out)
            return
        if isinstance(n, ast.AnnAssign):
            if n.value is not None:
                walk(n.value, fn, names, out)
            return
        if isinstance(n, (ast.Attribute, ast.Name)) and isinstance(getattr(n, "ctx", None), ast.Load):
            d = dotted(n, {k: v for k, v in imported.items() if k not in names})
            if d is None:
                base, parts = n, []
                while isinstance(base, ast.Attribute):
                    parts.append(base.attr)
                    base = base.value
                if parts and isinstance(base, ast.Call) and base.args and isinstance(base.args[0], ast.Constant) and \
                        ast.unparse(base.func) in ("__import__", "importlib.import_module", "import_module"):
                    d = ".".join([str(base.args[0].value)] + parts[::-1])
            k = what(d) if d else None
            if k:
                out.append((fn, n, d, k))
                return
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id not in names and n.func.id not in top and n.func.id not in imported:
            k = AMBIENT_BUILTINS.get(n.func.id)
            last = fn.split(".")[-1]
            if k and not (n.func.id in ("id", "hash") and last in ("__hash__", "__repr__", "__str__", "__eq__")) and \
                    not (n.func.id == "print" and any(q.arg == "file" and isinstance(q.value, ast.Name) and q.value.id in names for q in n.keywords)):
                out.append((fn, n, n.func.id, k))
            if n.func.id == "open" and n.args and isinstance(n.args[0], ast.Constant):
                out.append((fn, n, f"open({n.args[0].value!r})", "a file nobody named"))
        for x in ast.iter_child_nodes(n):
            walk(x, fn, names, out)
    out = []
    for n in tree.body:
        walk(n, "", frozenset(), out)
    return out


@check("C35")
def c35(prog, tier):
    r = Result(PRE + "Every function, method and module body of the package (main-program blocks excepted) is searched, names resolved through the imports, for "
               "anything that reads the clock, random numbers, the environment, the platform, the locale, the network, an object's address or hash, or "
               "the console, or writes to the console. Rule: there is none, so results depend on the arguments only.")
    I = prog.I
    for name, mod in sorted(I.modules.items()):
        if not name.startswith("opendis"):
            continue
        imported = imports(mod.tree)
        uses = ambient_uses(mod.tree, imported)
        r.count("modules")
        r.count("functions", sum(isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) for n in ast.walk(mod.tree)))
        r.count("references", sum(isinstance(n, (ast.Attribute, ast.Call)) for n in ast.walk(mod.tree)))
        bad = set()
        for fn, n, text, what in uses:
            bad.add(fn)
            r.finding("ambient", f"{name}:{fn or 'import'}:{text}", f"{fn or 'importing ' + name} uses {text}: its effect depends on or reaches {what}, not its arguments alone",
                      fn or name, n.lineno, mod.file)
        for n in ast.walk(mod.tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                r.ob(n.name not in {b.split(".")[-1] for b in bad}, f"{name}.{n.name} uses its arguments only" if len(r.samples) < 8 else None)
        r.ob("" not in bad)
    if any(isinstance(n, (ast.Set, ast.SetComp)) or isinstance(n, ast.Name) and n.id in ("set", "frozenset")
           for name, mod in I.modules.items() if name.startswith("opendis") for n in ast.walk(mod.tree)):
        hash_order(prog, r)
    return r


def hash_order(prog, r):
    """The package makes sets: is anything encoded in the order one happens to be gone through?"""
    from ..codec import Program
    from ..layout import layout
    cls = type(prog.I)
    cls.set_forward = True
    try:
        other = Program(prog.root)
        theirs = {(m.file, m.name): {v.label: layout(other, m, v) for v in m.variants()} for m in other.all_models() if m.obj is not None and m.parse.ok}
    finally:
        cls.set_forward = False
    for m in prog.all_models():
        if m.obj is None or not m.parse.ok:
            continue
        for v in m.variants():
            a, b = layout(prog, m, v), theirs.get((m.file, m.name), {}).get(v.label)
            r.count("set_orders")
            if a is not None and b is not None and not r.ob(a == b or "?" in a or "?" in b, ""):
                r.finding("hash-order", m.name, f"the encoding of {m.name} follows the order in which a set is gone through, which is different in every process",
                          m.name + ".serialize", m.line, m.file)
                break
