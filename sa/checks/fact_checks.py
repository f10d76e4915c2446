"""The bit-field factory and the named constants."""
from __future__ import annotations

import itertools

from . import check
from .codec_checks import PRE
from .misc_checks import rows
from ..codec import ListRec, run_phase
from ..report import Result
from ..terms import *


def compositions(n, parts):
    """Ordered ways to write n as a sum of that many positive numbers."""
    if parts == 1:
        yield (n,)
        return
    for a in range(1, n - parts + 2):
        for rest in compositions(n - a, parts - 1):
            yield (a,) + rest


def widths(tier):
    """Field width lists the factory is applied to."""
    deep = tier == "thorough"
    for n, most in ((8, 8 if deep else 4), (16, 3 if deep else 2), (32, 2)):
        for k in range(1, most + 1):
            yield from compositions(n, k)
    yield from ((1,) * 8, (1,) * 16, (1,) * 32, (4,) * 8, (3, 5, 7, 1), (12, 4, 9, 7), (31, 1), (5, 11, 16), (1, 1, 14), (2, 2, 12), (1, 30, 1),
                (10, 10, 12), (7, 9, 16), (16, 9, 7), (3, 5, 8, 16), (2, 3, 3, 8, 16))


BAD = [("no field", []), ("zero width", [("a", "INTEGER", 0), ("b", "INTEGER", 8)]), ("negative width", [("a", "INTEGER", -1), ("b", "INTEGER", 9)]),
       ("33 bits in one field", [("a", "INTEGER", 33), ("b", "INTEGER", 7)]), ("7 bits in all", [("a", "INTEGER", 7)]),
       ("9 bits in all", [("a", "INTEGER", 8), ("b", "INTEGER", 1)]), ("31 bits in all", [("a", "INTEGER", 31)]),
       ("40 bits in all", [("a", "INTEGER", 32), ("b", "INTEGER", 8)]), ("64 bits in all", [("a", "INTEGER", 32), ("b", "INTEGER", 32)]),
       ("unknown field type", [("a", "CHAR", 8)]), ("unknown type of a later field", [("a", "INTEGER", 4), ("b", "FLOAT", 4)]),
       ("width given as a string", [("a", "INTEGER", "8")]), ("width given as a fraction", [("a", "INTEGER", 8.0)]), ("no width", [("a", "INTEGER", None)])]


@check("C28")
def c28(prog, tier):
    r = Result(PRE + "Rule: the bit-field factory, applied to each of a family of width lists that add up to 8, 16 or 32 bits, gives a type whose encoded size is "
               "the total, whose instances encode to that many bytes with field i holding its bits at the sum of the widths before it, counted "
               "from the most significant bit (the base is big-endian), whose parse consumes that many bytes and extracts field i from the same bits, and "
               "whose parsed instances encode to the bytes they came from; two types made by it do not influence one another; a list it cannot lay out is refused.")
    I = prog.I
    mod = I.modules.get("opendis.record.bitfield")
    f = mod and mod.env.get("bitfield")
    if f is None:
        r.ob(False)
        r.finding("gone", "bitfield", "opendis.record.bitfield.bitfield is gone", "bitfield", 0, "")
        return r
    fr = I.func(f)
    line, file = fr.node.lineno, mod.file
    h0 = dict(I.heap)

    def make(name, fields, heap):
        with_heap(I, heap)
        lst = I.alloc(ListRec("list", [("e", I.alloc(ListRec("tuple", [("e", const(x)) for x in t]))) for t in fields]))
        return run_phase(I, "bitfield", lambda: I.call(f, [const(name), lst], {}, None), I.heap)

    def bad(ws, what, sub=""):
        r.finding("bitfield" + (":" + sub if sub else ""), what.split(" -- ")[0], f"fields of {ws} bits: {what.replace(' -- ', ': ')}", "bitfield", line, file)

    seen = set()
    for ws in widths(tier):
        if ws in seen:
            continue
        seen.add(ws)
        r.count("width_lists")
        with prog.isolated():
            ok = one(r, prog, I, make, bad, ws, h0)
            r.ob(ok is not False, f"{ws}: size, {len(ws)} extractions, {len(ws)} insertions" if len(ws) > 2 else None)
    # two types alive at the same time: of one name, of one size, of the same widths, of the same field names
    named = lambda ws: [(f"f{i}", "INTEGER", w) for i, w in enumerate(ws)]
    for n1, n2, w1, w2 in (("A", "B", (3, 5), (12, 4)), ("A", "A", (3, 5), (12, 4)), ("A", "B", (3, 5), (5, 3)), ("A", "A", (3, 5), (5, 3)),
                           ("A", "B", (8, 8), (4, 12)), ("A", "A", (16, 16), (8, 24)), ("A", "A", (3, 5), (3, 5, 8)), ("A", "B", (3, 5), (3, 5)),
                           ("A", "B", (4, 4), (4, 12)), ("A", "", (1, 7), (7, 1))):
        r.count("pairs")
        with prog.isolated():
            a = make(n1, named(w1), h0)
            if a.ok:
                b = make(n2, named(w2), a.heap)
                if b.ok:
                    ws = f"two types {w1} {w2}" if n1 != n2 else f"two types {n1} {w1} {w2}"
                    r.ob(layout_ok(r, prog, I, bad, a.ret, w1, b.heap, ws))
                    r.ob(layout_ok(r, prog, I, bad, b.ret, w2, b.heap, ws))
                elif b.exc != "analysis":
                    r.ob(False)
                    bad(w2, f"refused after {w1} -- {b.exc} {b.note}", "two types")
    # field names of their own
    with prog.isolated():
        a = make("A", [("x", "INTEGER", 3), ("y", "INTEGER", 5)], h0)
        if a.ok:
            b = make("A", [("y", "INTEGER", 3), ("x", "INTEGER", 5)], a.heap)
            if b.ok:
                r.count("pairs")
                same = a.ret == b.ret
                r.ob(not same)
                if same:
                    bad((3, 5), "two types -- lists that name their fields differently get one type", "two types")
    for what, fields in BAD:
        r.count("refused_lists")
        with prog.isolated():
            ph = make("X", fields, h0)
        if ph.exc == "analysis":
            r.undecide(f"{what}: {ph.note}")
            continue
        if ph.ok:
            r.ob(False)
            bad([t[2] for t in fields], f"accepted -- {what}", "accepts")
        else:
            r.ob(True, f"refused: {what} ({ph.exc})")
    # 24 bits: no C integer of that size; refused, or laid out like the others
    with prog.isolated():
        ph = make("X", [("f0", "INTEGER", 8), ("f1", "INTEGER", 16)], h0)
        if ph.ok:
            r.ob(layout_ok(r, prog, I, bad, ph.ret, (8, 16), ph.heap, "24 bits") is not False)
        elif ph.exc != "analysis":
            r.ob(True)
    return r


def with_heap(I, heap):
    I.heap = dict(heap)


def one(r, prog, I, make, bad, ws, h0):
    ph = make("Name", [(f"f{i}", "INTEGER", w) for i, w in enumerate(ws)], h0)
    if ph.exc == "analysis":
        r.undecide(f"{ws}: {ph.note}")
        return None
    if not ph.ok:
        bad(ws, f"refused -- {ph.exc} {ph.note}")
        return False
    if ph.ret.op != "ref" and ph.ret.op != "cls":
        r.undecide(f"{ws}: result is {show(ph.ret)}")
        return None
    return layout_ok(r, prog, I, bad, ph.ret, ws, ph.heap, "")


def layout_ok(r, prog, I, bad, c, ws, heap, sub):
    total = sum(ws) // 8
    good = True
    sz = run_phase(I, "size", lambda: I.call(I.getattr_(c, "marshalledSize"), [], {}, None), heap)
    if sz.exc == "analysis" or (sz.ok and sz.ret.op != "const"):
        r.undecide(f"{ws}: marshalledSize is {sz.note or show(sz.ret)}")
    elif not sz.ok:
        bad(ws, f"marshalledSize fails -- {sz.exc}", sub)
        good = False
    elif sz.ret.args[0] != total:
        bad(ws, f"marshalledSize -- {sz.ret.args[0]}, not {total}", sub)
        good = False
    # decoding
    ps = run_phase(I, "parse", lambda: I.call(I.getattr_(c, "parse"), [I.call(prog.dis, [I.raw_in()], {}, None)], {}, None), heap)
    if ps.exc == "analysis":
        r.undecide(f"{ws}: parse: {ps.note}")
    elif not ps.ok:
        bad(ws, f"parse fails -- {ps.exc} {ps.note}", sub)
        good = False
    else:
        reads = [e for e in ps.trace if e[0] == "rd"]
        if len(ps.trace) != 1 or not reads:
            r.undecide(f"{ws}: parse reads {ps.trace!r}"[:200])
        else:
            wire = reads[0][2]
            n = wire_len(wire)
            if n is None:
                r.undecide(f"{ws}: parse reads {show(wire)}")
            elif n != total:
                bad(ws, f"parse consumes -- {n} bytes, not {total}", sub)
                good = False
            else:
                at = 0
                for i, w in enumerate(ws):
                    g = run_phase(I, "get", lambda: I.getattr_(ps.ret, f"f{i}"), ps.heap)
                    want = mk("bits", wire, at, w)
                    at += w
                    if not g.ok:
                        if g.exc == "analysis":
                            r.undecide(f"{ws}: f{i}: {g.note}")
                        else:
                            bad(ws, f"extraction -- reading f{i} of a parsed instance: {g.exc}", sub)
                            good = False
                    elif g.ret != want:
                        if g.ret.op == "bits" or g.ret.op == "const":
                            bad(ws, f"extraction -- f{i} of a parsed instance is {show(g.ret)}, not {show(want)}", sub)
                            good = False
                        else:
                            r.undecide(f"{ws}: f{i} is {show(g.ret)}")
                s = run_phase(I, "serialize", lambda: I.call(I.getattr_(ps.ret, "serialize"), [I.call(prog.dos, [I.raw_out()], {}, None)], {}, None), ps.heap)
                good &= emitted(r, bad, ws, s, lambda v: v == wire, "re-encoding", sub, show(wire))
    # construction, by keyword and by position
    vals = [leaf(f"f{i}", "uint") for i in range(len(ws))]
    want = mk("bytes", (("bits", total, tuple(zip(ws, vals))),))
    for how, a, k in (("keyword", [], {f"f{i}": v for i, v in enumerate(vals)}), ("position", vals, {})):
        o = run_phase(I, "new", lambda: I.call(c, list(a), dict(k), None), heap)
        if not o.ok:
            if o.exc == "analysis":
                r.undecide(f"{ws}: construction: {o.note}")
            else:
                bad(ws, f"construction -- by {how}: {o.exc} {o.note}", sub)
                good = False
            continue
        s = run_phase(I, "serialize", lambda: I.call(I.getattr_(o.ret, "serialize"), [I.call(prog.dos, [I.raw_out()], {}, None)], {}, None), o.heap)
        good &= emitted(r, bad, ws, s, lambda v: v == want, "encoding", sub, show(want))
    return good


def emitted(r, bad, ws, s, same, what, sub, want):
    if s.exc == "analysis":
        r.undecide(f"{ws}: {what}: {s.note}")
        return True
    if not s.ok:
        bad(ws, f"{what} fails -- {s.exc} {s.note}", sub)
        return False
    wr = [e for e in s.trace if e[0] == "wr"]
    if len(s.trace) == 1 and len(wr) == 1:
        v = wr[0][2]
        if same(v):
            return True
        if v.op in ("wire", "bytes", "const", "chunk"):
            bad(ws, f"{what} -- writes {show(v)[:160]}, not {want[:160]}", sub)
            return False
        r.undecide(f"{ws}: {what} writes {show(v)[:160]}")
        return True
    if not s.trace:
        bad(ws, f"{what} -- writes nothing", sub)
        return False
    r.undecide(f"{ws}: {what} writes {len(s.trace)} chunks")
    return True


def wire_len(t):
    """Byte count of a wire chunk, when constant."""
    n = t.args[1] if len(t.args) > 1 else None
    if isinstance(n, int):
        return n
    if hasattr(n, "op") and n.op == "const":
        return n.args[0]
    return None


# ---------------------------------------------------------- named constants
@check("C29")
def c29(prog, tier):
    r = Result(PRE + "Rule: each name of Table 25 of IEEE 1278.1-2012 in opendis.record.symbolic_names is, after the module body, bound to the number the table gives, and "
               "the record package re-exports that module.")
    I = prog.I
    want = {n: v for n, v in rows("constants.txt", 2)}
    mod = I.modules.get("opendis.record.symbolic_names")
    if mod is None:
        r.ob(False)
        r.finding("gone", "symbolic_names", "the module opendis.record.symbolic_names is gone", "", 0, "")
        return r
    for n, text in want.items():
        r.count("names")
        v = mod.env.get(n)
        if v is None:
            r.ob(False)
            r.finding("undefined", n, f"{n} is not defined", "symbolic_names", 0, mod.file)
            continue
        x = None if text == "None" else float(text)
        if v.op == "const":
            got = v.args[0]
            good = got is None if x is None else (isinstance(got, (int, float)) and not isinstance(got, bool) and got == x)
            if not r.ob(good, f"{n} = {text}"):
                r.finding("value", n, f"{n} is {got!r}, not {text}", "symbolic_names", 0, mod.file)
        else:
            r.undecide(f"{n}: {show(v)}")
    return r
