"""Stream primitives, PDU identity and the two dispatchers."""
from __future__ import annotations

import os

from . import check
from .codec_checks import PRE
from .wire_checks import assumed, decoded, encoded, span
from ..codec import Align, ObjRec, ListRec, ClsRec, run_phase, has_unk
from ..layout import ftype
from ..report import Result, VERIF
from ..terms import *
from .. import terms as tm


def table(name):
    out = []
    for ln in open(os.path.join(VERIF, "oracle", name), encoding="utf-8"):
        ln = ln.split("#")[0].split()
        if ln:
            out.append(ln)
    return out


CODE = {"bool8": "?", "i8": "b", "u8": "B", "i16": "h>", "u16": "H>", "i32": "i>", "u32": "I>", "i64": "q>", "u64": "Q>",
        "f32": "f>", "f64": "d>"}


def flat(al, trace):
    """The segments a straight-line writer emits, or None."""
    out = []
    for p in al.pieces(trace):
        if p[0] == "p":
            out.append(p[1])
        elif p[0] == "opq":
            out.append(("raw", p[1], 0, tm.len_(p[1])))
        else:
            return None
    return out


def exact(al, trace, kind, v, same):
    """(are the bytes written those of the number, what is wrong): every value of a byte, the boundary values of wider numbers;
    None when not known.  same: the expression written is known to be the number."""
    code = CODE[kind]
    lo, hi = span(code)
    n = tm.code_size(code)
    if same and not any(True for _ in assumed(trace)):
        return True, ""
    for x in samples(lo, hi, n):
        got = encoded(al, trace, {v: x})
        if got is None:
            return (True, "") if same else (None, "")
        if got != x.to_bytes(n, "big", signed=lo < 0):
            return False, f"for {x}: " + ("nothing, it is refused" if got == "refused" else got.hex() or "nothing")
    return True, ""


def samples(lo, hi, n):
    if n == 1:
        return range(lo, hi + 1)
    bits = [1 << i for i in range(8 * n)]
    return sorted({x for b in bits for x in (b - 1, b, b + 1, -b, -b - 1, 0x0123456789ABCDEF % b, hi - b, hi ^ b) if lo <= x <= hi} | {lo, hi})


def exact_read(al, trace, kind, ret):
    """(does a reader return the number in the input, what is wrong), as exact()."""
    lo, hi = span(CODE[kind])
    n = tm.code_size(CODE[kind])
    for x in samples(lo, hi, n):
        got, used = decoded(al, trace, ret, x.to_bytes(n, "big", signed=lo < 0) + b"\x5a" * 8)
        if got is None:
            return None, ""
        if got == "refused":
            return False, f"refuses {x}"
        if used != n:
            return False, f"consumes {used} byte(s)"
        if got != x:
            return False, f"returns {got} for {x}"
    return True, ""


def latin(t, v):
    """A coding of v by which each character up to 255 is the byte of its number."""
    if t.op == "padto" and t.args[1] in (1, const(1)):
        t = t.args[0]
    return t.op in ("encode", "decode") and t.args[0] is v and str(t.args[1]).lower().replace("_", "-") in ("latin-1", "latin1", "iso-8859-1", "iso8859-1", "l1") and t.args[2] == "strict"


def strip_str(t):
    """str(x) of a one-character string, int(x) of an int: the same value."""
    while True:
        if t.op == "str" and len(t.args) == 1 and isinstance(t.args[0], tuple) and len(t.args[0]) == 1:
            p = t.args[0][0]
            t = p.args[0] if isinstance(p, T) and p.op == "fmt" else p[1] if isinstance(p, tuple) else p
        elif t.op in ("int", "float") and len(t.args) == 1:
            t = t.args[0]
        else:
            return t


def expected(kind, v):
    """(bytes segments, decoded value as a function of the input bytes)."""
    if kind == "utf":
        return [("pk", "H>", tm.len_(v)), ("raw", v, 0, tm.len_(v))]
    if kind == "raw":
        return [("raw", v, 0, tm.len_(v))]
    if kind in ("char16", "char8"):
        return [("pk", "H>" if kind == "char16" else "B", mk("ord", v))]
    return [("pk", CODE[kind], v)]


@check("C07")
def c07(prog, tier):
    r = Result(PRE + "Rule: every write_X emits exactly the big-endian encoding its name stands for (oracle/primitives.txt) of "
               "its argument and nothing else; every read_X consumes exactly that many bytes and returns the value encoded "
               "in them, so read_X inverts write_X; no primitive keeps state.")
    I = prog.I
    I.prims = {}              # judged as they are written
    tab = {n: k for n, k in table("primitives.txt")}
    wf = prog.dos
    rf = prog.dis
    names = dict(tab)
    for c, pre in ((rf, "read_"), (wf, "write_")):
        for k in I.mro(c):
            if k.op == "cls":
                for n in I.rec(k).ns:
                    if n.startswith(pre):
                        names.setdefault(n[len(pre):], None)
    for n in sorted(names):
        kind = names[n]
        v = leaf("value", "bytes" if kind in ("utf", "raw") else "float" if kind in ("f32", "f64") else None)
        with prog.isolated():
            def wr():
                o = I.call(wf, [I.raw_out()], {}, None)
                I.trace = []
                return I.call(I.getattr_(o, "write_" + n), [v], {}, None)
            w = run_phase(I, "DataOutputStream.write_" + n, wr)
            arg = [tm.len_(v)] if kind == "raw" else []

            def rd():
                o = I.call(rf, [I.raw_in()], {}, None)
                I.trace = []
                return I.call(I.getattr_(o, "read_" + n), list(arg), {}, None)
            d = run_phase(I, "DataInputStream.read_" + n, rd)
            wfn, rfn = (I.class_lookup(c, p + n)[0] for c, p in ((wf, "write_"), (rf, "read_")))
            lines = [I.func(f).node.lineno if f is not None and f.op == "func" else 0 for f in (wfn, rfn)]
            file = I.rec(wf).file
            al = Align(I, {})
            segs = flat(al, w.trace) if w.ok else None
            if segs is not None and kind == "char8":
                segs = [("pk", "B", mk("ord", v)) if x[0] == "raw" and isinstance(x[1], T) and latin(x[1], v) and
                        x[2] in (0, ZERO) and (x[3] in (1, const(1)) or x[3] is tm.len_(x[1])) else x for x in segs]
            if w.ok:
                r.count("writers")
                if kind:
                    exp = expected(kind, v)
                    got = tm.bytes_(tuple(segs)) if segs is not None else None
                    want = tm.bytes_(tuple(exp))
                    ok = got is want
                    if not ok and got is not None and kind in CODE and kind[0] in "iu":
                        n8 = tm.code_size(CODE[kind])
                        if tm.len_(got) is const(n8):
                            x = tm.unpack_(CODE[kind], got, 0)
                            ok = x is v or bool(tm.same_bits(x, v))
                    note = ""
                    if kind in CODE and kind[0] in "iu":
                        ok, note = exact(al, w.trace, kind, v, ok)
                        if ok is None:
                            got, ok = None, False
                    r.ob(ok, f"write_{n}: {kind}")
                    if not ok:
                        if not note and (got is None or has_unk(got)):
                            r.undecide(f"write_{n}: the bytes written are not known")
                        else:
                            r.finding("primitive", f"write_{n}", f"write_{n}(value) writes {note or show(got)}, the wire type is {kind}",
                                      "DataOutputStream.write_" + n, lines[0], file)
                    segs = list(exp)     # judge the reader against the standard encoding
            elif kind or w.exc != "analysis":
                if w.exc == "analysis":
                    r.undecide(f"write_{n}: {w.note}")
                else:
                    r.finding("primitive-missing", f"write_{n}", f"write_{n} always raises {w.exc} ({w.note})", "DataOutputStream", lines[0], file)
                r.ob(False)
                segs = list(expected(kind, v)) if kind else None
            if not d.ok:
                if d.exc == "analysis":
                    r.undecide(f"read_{n}: {d.note}")
                elif kind or segs is not None:
                    r.finding("primitive-missing", f"read_{n}", f"read_{n} always raises {d.exc} ({d.note})", "DataInputStream", lines[1], file)
                r.ob(False)
                continue
            r.count("readers")
            if segs is None:
                r.undecide(f"read_{n}: no writer to compare with")
                continue
            al = Align(I, {})
            al.run(d.trace, [("wr", None, tm.bytes_(tuple(segs)), "write_" + n, 0)])
            got = strip_str(al.subst(d.ret))
            if got.op == "decode" and kind == "char8" and latin(got, tm.bytes_(tuple(segs))):
                got = v
            ok = not al.findings and (got is v or got.op == "chr" and got.args[0].op == "ord" and got.args[0].args[0] is v
                                      or bool(tm.same_bits(got, v)))
            note = ""
            if kind in CODE and kind[0] in "iu" and not (ok and not any(True for _ in assumed(d.trace))):
                res, note = exact_read(Align(I, {}), d.trace, kind, d.ret)
                if res is not None:
                    ok, al.findings = res, []
            r.ob(ok, f"read_{n} inverts write_{n}")
            if not ok and note:
                r.finding("primitive", f"read_{n}", f"read_{n} {note}", "DataInputStream.read_" + n, lines[1], file)
            elif al.findings:
                r.finding("primitive-size", f"read_{n}", f"read_{n}: {al.findings[0][1]}", "DataInputStream.read_" + n, lines[1], file)
            elif not ok:
                if has_unk(got) or al.unknown:
                    r.undecide(f"read_{n}: {show(got)}")
                else:
                    r.finding("primitive", f"read_{n}", f"read_{n} returns {show(d.ret)}: not the inverse of the {kind or 'write_' + n} encoding",
                              "DataInputStream.read_" + n, lines[1], file)
            # no state besides the wrapped stream
            for ph, nm in ((w, "write_" + n), (d, "read_" + n)):
                pass
    return r


# ------------------------------------------------------------- identity
def pdu_classes(prog):
    """Concrete PDU classes (constructible without naming a type)."""
    sup = prog._find_cls("PduSuperclass")
    if sup is None:
        return []
    return [prog.model(c) for c in prog.subclasses(sup) if prog.model(c).obj is not None and not prog.model(c).synthetic]


def oracle_types():
    out, alias = {}, {}
    for t, f, n in table("pdu_types.txt"):
        if n.startswith("-"):
            alias[n[1:]] = (int(t), int(f))
        else:
            out[n] = (int(t), int(f))
    return out, alias


@check("C09")
def c09(prog, tier):
    r = Result(PRE + "Rule: the third and fourth byte serialize() writes for a default-constructed PDU are the SISO-REF-010 "
               "type (UID 4) and protocol family (UID 5) of that PDU, the first is version 7; the class attributes agree, and no "
               "two dispatchable classes share a type.")
    I = prog.I
    prim, alias = oracle_types()
    seen = {}
    names = set()
    for m in pdu_classes(prog):
        names.add(m.name)
        want = prim.get(m.name) or alias.get(m.name)
        with prog.isolated():
            ph = m.run_serialize(m.ctor.heap, m.obj)
            if not ph.ok:
                if ph.exc == "analysis":
                    r.undecide(f"{m.name}: serialize {ph.note}")
                else:
                    r.finding("raises", m.name, f"encoding a newly constructed {m.name} always raises {ph.exc} ({ph.note})", m.name, m.line, m.file)
                r.ob(False)
                continue
            al = Align(I, {})
            b = b""
            for p in al.pieces(ph.trace):
                if p[0] == "p" and p[1][0] == "lit" and len(b) < 4:
                    b += p[1][1]
                else:
                    break
            r.count("classes")
            if len(b) < 4:
                r.undecide(f"{m.name}: header is not constant")
                r.ob(False)
                continue
            ver, typ, fam = b[0], b[2], b[3]
            r.ob(want is None or (typ, fam) == want and ver == 7, f"{m.name}: type {typ} family {fam}")
            if ver != 7:
                r.finding("version", m.name, f"{m.name}() announces protocol version {ver}, DIS 7 is 7", m.name, m.line, m.file)
            if want and typ != want[0]:
                r.finding("type", m.name, f"{m.name}() is sent as PDU type {typ}, SISO-REF-010 assigns {want[0]}", m.name, m.line, m.file)
            if want and fam != want[1]:
                r.finding("family", m.name, f"{m.name}() is sent with protocol family {fam}, SISO-REF-010 assigns {want[1]}", m.name, m.line, m.file)
            for at, x in (("pduType", typ), ("protocolFamily", fam)):
                cv = I.class_lookup(m.c, at)[0]
                if cv is not None and cv.op == "const" and cv.args[0] != x:
                    r.finding("attribute", f"{m.name}.{at}", f"{m.name}.{at} is {cv.args[0]} but {x} is sent", m.name, m.line, m.file)
            if m.name not in alias:
                if typ in seen and want is None:
                    r.finding("duplicate", m.name, f"{m.name} and {seen[typ]} share PDU type {typ}", m.name, m.line, m.file)
                seen.setdefault(typ, m.name)
    # a family has no PDU type of its own: constructing it without one is refused
    sup = prog._find_cls("PduSuperclass")
    for c in prog.subclasses(sup) + [sup] if sup is not None else []:
        miss = [a for a in ("pduType", "protocolFamily") if I.class_lookup(c, a)[0] is None]
        if not miss or I.abstract_methods(c):
            continue
        with prog.isolated():
            ph = run_phase(I, "construct", lambda: I.call(c, [], {}, None), dict(I.heap))
            m = prog.model(c)
            r.count("families")
            if ph.exc == "analysis":
                r.undecide(f"{m.name}(): {ph.note}")
                continue
            if not ph.ok:
                r.ob(True)
                continue
            o = ph.heap[ph.ret.args[0]]
            if not r.ob(all(a in o.attrs and o.attrs[a] is not NONE for a in miss), f"{m.name}() without {', '.join(miss)} is refused"):
                r.finding("no-type", m.name, f"{m.name}() is constructed without a {' or '.join(miss)}", m.name, m.line, m.file)
    return r


@check("C34")
def c34(prog, tier):
    r = Result(PRE + "Rule: the record type (and fixed length) a default-constructed record announces, in its attribute and in the bytes it "
               "encodes to, is the number the table assigns to its class.")
    I = prog.I
    by = {m.name: m for m in prog.all_models()}
    for n, typ, width, attr, length in table("record_types.txt"):
        m = by.get(n)
        if m is None or m.obj is None:
            r.undecide(f"{n} is gone or cannot be constructed")
            continue
        with prog.isolated():
            for a, w in ((attr, int(typ)), ("recordLength", int(length) if length != "-" else None)):
                if w is None:
                    continue
                g = m.run_getattr(m.ctor.heap, m.obj, a)
                r.count("attributes")
                if g.ok and has_unk(g.ret):
                    r.undecide(f"{n}.{a}: {show(g.ret)}")
                elif not r.ob(g.ok and g.ret is const(w), f"{n}().{a} is {w}"):
                    r.finding("announces", f"{n}.{a}", f"{n}().{a} is {show(g.ret) if g.ok else 'missing'}, not {w}", n, m.line, m.file)
            s = m.run_serialize(m.ctor.heap, m.obj)
            if not s.ok:
                if s.exc == "analysis":
                    r.undecide(f"{n}: serialize {s.note}")
                else:
                    r.ob(False)
                    r.finding("raises", n, f"encoding a new {n} always raises {s.exc} ({s.note})", n, m.line, m.file)
                continue
            b = b""
            for q in Align(I, {}).pieces(s.trace):
                if q[0] == "p" and q[1][0] == "lit":
                    b += q[1][1]
                else:
                    break
            exp = int(typ).to_bytes(int(width) // 8, "big") + (int(length).to_bytes(2, "big") if length != "-" else b"")
            r.count("encodings")
            if len(b) < len(exp):
                r.undecide(f"{n}: the start of the encoding is not constant")
            elif not r.ob(b.startswith(exp), f"{n}() encodes to {exp.hex()}…"):
                r.finding("announces", f"{n}.encoded", f"a new {n} is encoded as {b[:len(exp)].hex()}, record type {typ} wants {exp.hex()}", n, m.line, m.file)
    return r


# ------------------------------------------------------------- PDU factory
def stream_bytes(k):
    """Datagram with PDU type k; all other bytes are arbitrary."""
    pre = [("pk", "B", leaf("byte0", "uint")), ("pk", "B", leaf("byte1", "uint")), ("lit", bytes([k])),
           ("pk", "B", leaf("byte3", "uint"))]
    return pre, tm.bytes_(tuple(pre + [("raw", leaf("tail", "bytes"), 0, tm.len_(leaf("tail", "bytes")))]))


@check("C08")
def c08(prog, tier):
    r = Result(PRE + "createPdu, getPdu and createPduFromFilePath are interpreted with symbolic input (record parsing abstracted to one event). "
               "Rule: for each of the 256 values of the type byte the result is a freshly built instance of the class assigned "
               "to that type, parsed exactly once from offset 0, or None if no class has it; nothing else in the datagram "
               "decides.")
    I = prog.I
    prim, alias = oracle_types()
    by_type = {}
    for m in pdu_classes(prog):
        t = m.run_getattr(m.ctor.heap, m.obj, "pduType").ret
        if t is not None and is_const(t) and m.name not in alias:
            by_type.setdefault(t.args[0], []).append(m)
    mods = [m for n, m in sorted(I.modules.items()) if "getPdu" in m.env]
    entry = None
    for m in mods:
        f = m.env["getPdu"]
        if f.op == "func" and I.func(f).module is m:
            entry = m
    if entry is None:
        r.finding("no-factory", "getPdu", "no module defines getPdu", "", 0, "")
        return r
    parses = {I.class_lookup(c, "parse")[0] for c in prog.codec_classes()}

    def hook(_, f, args, kwargs):
        if getattr(f.node, "name", "") == "parse" and len(args) == 2 and args[0].op == "ref" and isinstance(I.rec(args[0]), ObjRec) \
                and I.rec(args[0]).cls.op == "cls" and I.rec(args[1]) is not None and isinstance(I.rec(args[1]), ObjRec) \
                and I.rec(args[1]).cls in I_mro(I, prog.dis):
            I.trace.append(("parse", args[0], I.rec(args[0]).cls, args[1]))
            return NONE
        return None
    for fn, mkargs in (("createPdu", lambda: [leaf("data", "bytes")]),
                       ("getPdu", lambda: [I.call(prog.dis, [I.raw_in()], {}, None)]),
                       ("createPduFromFilePath", lambda: [leaf("path", "str")])):
        if fn not in entry.env:
            r.finding("no-factory", fn, f"{fn} is gone", entry.name, 0, entry.file)
            continue
        f = I.func(entry.env[fn])
        with prog.isolated():
            I.call_hook = hook
            try:
                ph = run_phase(I, fn, lambda: I.call(entry.env[fn], mkargs(), {}, None))
            finally:
                I.call_hook = None
            if not ph.ok:
                if ph.exc == "analysis":
                    r.undecide(f"{fn}: {ph.note}")
                else:
                    r.finding("raises", fn, f"{fn} always raises {ph.exc} ({ph.note})", fn, f.node.lineno, entry.file)
                r.ob(False)
                continue
            for p in ph.problems:
                if not p.handled:
                    r.finding(p.kind, f"{fn}:{p.name}", p.msg, p.where, p.line, p.file)
            r.count("entry_points")
            for k in range(256):
                r.count("dispatches")
                ok, msg = one_dispatch(prog, ph, k, by_type, prim)
                r.ob(ok is True, f"{fn}: type {k} -> {msg}" if k < 4 else None)
                if ok is None:
                    r.undecide(f"{fn} type {k}: {msg}")
                elif not ok:
                    r.finding("dispatch", f"{fn}:{k}", f"{fn}: PDU type {k}: {msg}", fn, f.node.lineno, entry.file)
                elif fn == "getPdu":
                    # the same stream, left elsewhere by an earlier call
                    r.count("dispatches_again")
                    ok, msg = one_dispatch(prog, ph, k, by_type, prim, const(12))
                    r.ob(ok is True)
                    if ok is None:
                        r.undecide(f"{fn} type {k} from a used stream: {msg}")
                    elif not ok:
                        r.finding("dispatch", f"{fn}:used:{k}", f"{fn}: PDU type {k}, on a stream that has been read before: {msg}", fn, f.node.lineno, entry.file)
    # whole datagrams: nothing of them is cut off, stripped or replaced
    for fn, data in [(fn, d) for fn in ("createPdu", "createPduFromFilePath") for d in literal_datagrams(by_type)]:
        f = entry.env.get(fn)
        if f is None or f.op != "func":
            continue
        with prog.isolated():
            I.call_hook = hook
            try:
                if fn == "createPdu":
                    ph = run_phase(I, fn, lambda: I.call(f, [const(data)], {}, None))
                else:
                    I.file_bytes = const(data)
                    ph = run_phase(I, fn, lambda: I.call(f, [leaf("path", "str")], {}, None))
            finally:
                I.call_hook = I.file_bytes = None
            r.count("literal_datagrams")
            what = f"{fn} of {len(data)} bytes {data[:6].hex()}..{data[-3:].hex()}"
            if not ph.ok:
                r.ob(False)
                if ph.exc == "analysis":
                    r.undecide(f"{what}: {ph.note}")
                else:
                    r.finding("datagram", fn, f"{what} raises {ph.exc} ({ph.note})", fn, I.func(f).node.lineno, entry.file)
                continue
            ok, msg = one_dispatch(prog, ph, data[2], by_type, prim, whole=data)
            r.ob(ok is True, what)
            if ok is None:
                r.undecide(f"{what}: {msg}")
            elif not ok:
                r.finding("datagram", fn, f"{what}: {msg}", fn, I.func(f).node.lineno, entry.file)
    return r


def literal_datagrams(by_type):
    """Datagrams with the bytes and sizes careless input handling treats specially: zeros, white space, line ends, every byte, long ones."""
    ks = sorted(k for k in by_type if isinstance(k, int))
    k = ks[0] if ks else 1
    space = next((x for x in (32, 10, 13, 9) if x in by_type), k)
    every = bytes(range(256))
    return [bytes([7, 1, k, 1]) + bytes(20), bytes([0, 0, k]) + bytes(141), bytes([32, 9, space, 32]) + every[65:80] + b" \t\r\n",
            bytes([10, 13, space, 10]) + b"\r\n" * 40, bytes([255, 254, k, 255]) + every + b"\xff\xff", bytes([7, 1, k, 1]) + every * 6, bytes([7, 1, k, 1]) + every * 36]


def I_mro(I, c):
    return set(I.mro(c))


class Pos:
    """Which bytes of the datagram each chunk is, following seeks."""

    def __init__(self, k, heap, whole=None):
        self.pre, self.data = stream_bytes(k) if whole is None else ([("lit", whole[:4])], const(whole))
        self.heap = heap
        self.pos = {}
        self.sub = {leaf("data", "bytes"): self.data}

    def ev(self, t):
        def f(x):
            if x.op == "filedata":
                return self.data
            return self.sub.get(x) if x.op in ("chunk", "leaf", "tell") else None
        return rewrite(t, f)

    def content(self, st):
        """The bytes a stream delivers: the datagram, or None."""
        r = self.heap.get(st.args[0])
        if isinstance(r, ObjRec) and r.cls.op == "intr" and r.cls.args[0] == "BytesIO":
            d = r.attrs.get("data")
            if d is None:
                return None
            if d.op == "filedata":
                a = d.args[0]
                modes = [x.args[0] for x in a if is_const(x) and isinstance(x.args[0], str)]
                if leaf("path", "str") not in set(y for x in a for y in subterms(x)):
                    return None
                if not any("b" in x for x in modes):
                    return mk("text")
            return self.ev(d)
        return self.data


def one_dispatch(prog, ph, k, by_type, prim, start=ZERO, whole=None):
    I = prog.I
    P = Pos(k, ph.heap, whole)
    parsed = []

    def walk(evs):
        for e in evs:
            st = e[1] if len(e) > 1 and isinstance(e[1], T) else None
            if e[0] in ("rd", "seek"):
                pos = P.pos.setdefault(st, start)
            if e[0] == "rd":
                c = e[2]
                if P.content(st) is not P.data:
                    return "reads something else than the datagram"
                ln = P.ev(c.args[1])
                if pos.op == "end" and not (ln is ZERO):
                    return "reads at the end of the datagram, where there is nothing left"
                if not is_const(pos):
                    return "a read at an unknown offset"
                if is_const(ln) and isinstance(ln.args[0], int):
                    o = pos.args[0]
                    P.sub[c] = tm.bslice(tm.bytes_(tuple(P.pre)), o, ln.args[0]) if o + ln.args[0] <= 4 \
                        else tm.bytes_(tuple([("raw", P.data, o, ln)]))
                    P.pos[st] = const(o + ln.args[0])
                elif pos is ZERO and ln.op == "rest":
                    P.sub[c] = P.data
                    P.pos[st] = mk("end")
                else:
                    return "a read of unknown size"
            elif e[0] == "seek":
                a = [P.ev(x) for x in e[2]]
                wh = a[1] if len(a) > 1 else ZERO
                if wh is ZERO and a[0].op == "tell" and start is not ZERO:
                    return "a seek that cannot be followed"
                if wh is ZERO:
                    P.pos[st] = ZERO if a[0].op == "tell" else a[0]
                elif wh is const(1) and is_const(a[0]) and is_const(pos):
                    P.pos[st] = const(pos.args[0] + a[0].args[0])
                elif wh is const(2) and a[0] is ZERO:
                    P.pos[st] = mk("end")
                else:
                    return "a seek that cannot be followed"
            elif e[0] == "if":
                c = P.ev(e[1])
                c = tm.truthy(c) if not is_const(c) else c
                if not is_const(c):
                    return f"the choice depends on {'an unknown value' if has_unk(c) or has_op(c, 'mcall') else show(c)}"
                s = walk(e[2] if c.args[0] else e[3])
                if s:
                    return s
            elif e[0] == "loop":
                return "an unknown number of repetitions"
            elif e[0] == "parse":
                din = P.heap.get(e[3].args[0])
                src = din.attrs.get("stream") if isinstance(din, ObjRec) else None
                parsed.append((e[1], e[2], P.pos.get(src, start), P.content(src) if src is not None and src.op == "ref" else None))
            elif e[0] == "wr":
                return "writes output"
        return None
    s = walk(ph.trace)
    if s:
        return (None if "cannot" in s or "unknown" in s else False), s
    ret = P.ev(ph.ret)
    while ret.op == "ite":
        c = tm.truthy(P.ev(ret.args[0]))
        if not is_const(c):
            return (None if has_unk(c) else False), f"the choice depends on {show(c)}"
        ret = ret.args[1] if c.args[0] else ret.args[2]
    want = by_type.get(k, [])
    if ret is NONE:
        if parsed:
            return False, "parses a PDU but returns None"
        if want:
            return False, f"returns None although {want[0].name} has this type"
        return True, "None"
    if ret.op != "ref":
        return (None if has_unk(ret) else False), f"returns {show(ret)}"
    rec = ph.heap.get(ret.args[0])
    name = I.clsname(rec.cls) if isinstance(rec, ObjRec) else "?"
    if not want:
        return False, f"decodes as {name}, which is not that PDU"
    if rec.cls not in [w.c for w in want]:
        return False, f"decodes as {name} instead of {want[0].name}"
    if name in prim and prim[name][0] != k:
        return False, f"decodes as {name}, whose type is {prim[name][0]}"
    mine = [p for p in parsed if p[0] is ret]
    if len(mine) != 1 or len(parsed) != 1:
        return False, f"{name} parsed {len(mine)} times"
    if mine[0][2] is not ZERO:
        return False, f"{name} parsed from offset {show(mine[0][2])}"
    if mine[0][3] is not P.data:
        return False, f"{name} parsed from something else than the datagram"
    if getattr(rec, "origin", None) == "global":
        return False, f"returns one shared {name} object"
    return True, name


def usable(r, prog, cls, heap, K):
    """"" if a record of an unrecognised type, constructed from bytes, keeps
    them and encodes to type, length and bytes; else what is wrong."""
    I = prog.I
    D = leaf("data", "bytes")
    ph = run_phase(I, "construct", lambda: I.call(cls, [D], {}, None), heap)
    r.count("unknown_records")
    if not ph.ok:
        if ph.exc == "analysis":
            r.undecide(f"constructing a record of an unrecognised type: {ph.note}")
            return ""
        return f"cannot be constructed from its data: {ph.exc} ({ph.note})"
    o = ph.ret

    def ser():
        dout = I.call(prog.dos, [I.raw_out()], {}, None)
        I.trace = []
        return I.call(I.getattr_(o, "serialize"), [dout], {}, None)
    s = run_phase(I, "serialize", ser, ph.heap)
    z = run_phase(I, "size", lambda: I.call(I.getattr_(o, "marshalledSize"), [], {}, None), ph.heap)
    want = bin_("+", const(6), tm.len_(D))
    for q, what in ((s, "encoding it"), (z, "its marshalledSize")):
        if not q.ok:
            if q.exc == "analysis":
                r.undecide(f"record of an unrecognised type: {what}: {q.note}")
                return ""
            return f"fails: {what} raises {q.exc} ({q.note})"
    if has_unk(z.ret):
        r.undecide(f"record of an unrecognised type: size {show(z.ret)}")
    elif z.ret is not want:
        return f"reports the size {show(z.ret)} instead of 6 + the length of its data"
    al = Align(I, {})
    segs = al.pieces(s.trace)
    if any(q[0] != "p" for q in segs) or any(x.op == "unk" for q in segs for y in q[1][1:] if isinstance(y, T) for x in subterms(y)):
        r.undecide("record of an unrecognised type: what it writes")
        return ""
    segs = [q[1] for q in segs]
    ok = len(segs) == 3 and segs[0] == ("pk", "I>", K) and segs[1] == ("pk", "H>", want) and segs[2][0] == "raw" and segs[2][1] is D and segs[2][2] == 0
    r.ob(ok, "a record of an unrecognised type encodes to its number, its length and its data")
    return "" if ok else "does not encode to its number, its length and its data"


@check("C10")
def c10(prog, tier):
    r = Result(PRE + "Rule: the standard-variable registry maps each SISO record type to its class and only to a class that "
               "declares that type; every other non-negative number gets a new class that carries the number and is a "
               "subclass of the expected family; wrong families raise TypeError, non-integers and negatives ValueError.")
    I = prog.I
    ent = None
    for n, m in sorted(I.modules.items()):
        f = m.env.get("getStandardVariableClass")
        if f is not None and f.op == "func" and I.func(f).module is m:
            ent = m
    if ent is None:
        r.finding("no-registry", "getStandardVariableClass", "the standard variable lookup is gone", "", 0, "")
        return r
    f = ent.env["getStandardVariableClass"]
    line = I.func(f).node.lineno
    tab = {int(k): n for k, n in table("sv_records.txt")}
    base = prog._find_cls("StandardVariableRecord")
    fams = [base] + [c for c in prog.subclasses(base) if I.abstract_methods(c)]

    def run(args):
        return run_phase(I, "getStandardVariableClass", lambda: I.call(f, args, {}, None))

    def bad(key, msg):
        r.finding("registry", key, msg, "getStandardVariableClass", line, ent.file)
    K = leaf("recordType", "uint")
    for fam in fams:
        args = [K] if fam is base else [K, fam]
        with prog.isolated():
            I.heap = dict(I.heap)
            ph = run(args)
            r.count("lookups")
            if not ph.ok:
                if ph.exc == "analysis":
                    r.undecide(f"lookup: {ph.note}")
                    r.ob(False)
                    continue
                # every path raises
                bad(f"{I.clsname(fam)}:*", f"lookup of any record type for {I.clsname(fam)} raises {ph.exc}")
                r.ob(False)
                continue
        # known types
        for k, name in sorted(tab.items()):
            with prog.isolated():
                ph = run([const(k)] + args[1:])
                c = prog._find_cls(name)
                if c is None:
                    continue
                member = fam in I.mro(c)
                r.count("known_types")
                if member:
                    ok = ph.ok and ph.ret is c
                    r.ob(ok, f"{k} in {I.clsname(fam)} -> {name}")
                    if not ok:
                        got = I.rec(ph.ret).name if ph.ok and ph.ret.op == "cls" else (ph.exc or show(ph.ret))
                        bad(f"{I.clsname(fam)}:{k}", f"record type {k} is {name}, the lookup gives {got}")
                else:
                    ok = not ph.ok and ph.exc == "TypeError"
                    r.ob(ok, f"{k} in {I.clsname(fam)} -> TypeError")
                    if not ok:
                        bad(f"{I.clsname(fam)}:{k}", f"record type {k} ({name}) is accepted where a {I.clsname(fam)} is expected")
                cv = I.class_lookup(c, "recordType")[0]
                if cv is None or cv is not const(k):
                    bad(f"{name}.recordType", f"{name} declares record type {show(cv) if cv is not None else None}, it is {k}")
        # the general case
        with prog.isolated():
            ph = run(args)
            if ph.ok:
                alts = []

                def known(c, conds):
                    for d, v in conds:
                        if d is c:
                            return v
                        if v and c.op == d.op == "cmp" and c.args[0] == d.args[0] == "==" and c.args[1] is d.args[1] and is_const(c.args[2]) and \
                                is_const(d.args[2]):
                            return False
                    if c.op == "not":
                        x = known(c.args[0], conds)
                        return None if x is None else not x
                    if c.op == "ite":
                        x = known(c.args[0], conds)
                        c = None if x is None else c.args[1] if x else c.args[2]
                        return c.args[0] if c is not None and c.op == "const" else None if c is None else known(c, conds)
                    return None

                def go(t, conds):
                    if t.op == "ite":
                        x = known(t.args[0], conds)
                        if x is not False:
                            go(t.args[1], conds + [(t.args[0], True)])
                        if not x:
                            go(t.args[2], conds + [(t.args[0], False)])
                    else:
                        alts.append((t, conds))
                go(ph.ret, [])
                pinned = 0
                for t, conds in alts:
                    if t.op != "cls":
                        if has_unk(t):
                            r.undecide(f"lookup result {show(t)}")
                        else:
                            bad(f"{I.clsname(fam)}:result", f"the lookup can return {show(t)}")
                        continue
                    rec = ph.heap.get(t.args[0])
                    eq = [c.args[2].args[0] for c, v in conds if v and c.op == "cmp" and c.args[0] == "==" and c.args[1] is K and is_const(c.args[2])]
                    rt = rec.ns.get("recordType")
                    r.count("alternatives")
                    if eq:
                        pinned += 1
                        cv = I.class_lookup(t, "recordType")[0]
                        ok = cv is const(eq[0])
                        r.ob(ok)
                        if not ok:
                            bad(f"{rec.name}:{eq[0]}", f"record type {eq[0]} gives {rec.name}, which declares {show(cv) if cv is not None else None}")
                        if eq[0] in tab and tab[eq[0]] != rec.name:
                            bad(f"{rec.name}:{eq[0]}", f"record type {eq[0]} is {tab[eq[0]]}, the lookup gives {rec.name}")
                        continue
                    fresh = t.args[0] not in prog.model_heap0()
                    ok = rt is K and fresh and fam in I.mro(t) if rt is not None else False
                    r.ob(ok, f"other types -> fresh {rec.name} carrying the number")
                    if not ok:
                        why = "is one class shared by all unrecognised types" if not fresh else \
                            f"carries {show(rt) if rt is not None else 'no'} record type" if rt is not K else f"is not a {I.clsname(fam)}"
                        bad(f"{I.clsname(fam)}:unknown", f"the class given for an unrecognised record type {why}")
                    elif ok:
                        why = usable(r, prog, t, ph.heap, K)
                        if why:
                            bad(f"{I.clsname(fam)}:usable", f"a record of the class given for an unrecognised type {why}")
                # the class stays the first type's when another type is looked up
                K2 = leaf("otherType", "uint")
                h1 = ph.heap
                ph2 = run_phase(I, "getStandardVariableClass", lambda: I.call(f, [K2] + args[1:], {}, None), h1)
                if ph2.ok:
                    for t, conds in alts:
                        if t.op != "cls" or t.args[0] in prog.model_heap0():
                            continue
                        rt = ph2.heap.get(t.args[0])
                        rt = rt.ns.get("recordType") if rt is not None else None
                        r.count("repeated_lookups")
                        if not r.ob(rt is K, "a class handed out keeps its record type after another lookup"):
                            if rt is not None and has_unk(rt):
                                r.undecide(f"record type after another lookup: {show(rt)}")
                            else:
                                bad(f"{I.clsname(fam)}:reused", "looking up another unrecognised record type changes the record type of the class handed out before")
                elif ph2.exc == "analysis":
                    r.undecide(f"second lookup: {ph2.note}")
        for x in (const(-1), const(-2147483648), const("3000"), NONE, const(4000.0)):
            with prog.isolated():
                ph = run([x] + args[1:])
                ok = not ph.ok and ph.exc == "ValueError"
                r.count("rejected_arguments")
                r.ob(ok, f"{show(x)} -> ValueError")
                if not ok and ph.exc != "analysis":
                    bad(f"{I.clsname(fam)}:{show(x)}", f"record type {show(x)} is not rejected with ValueError")
    # unassigned numbers, at the edges, looked up for one family after another
    edge = [k for k in sorted({0, 1, 2, 255, 256, 32767, 32768, 65535, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1} |
                              {k + d for k in tab for d in (-1, 1)}) if k not in tab]

    def judge(ph, k, fam, where):
        why = None
        if not ph.ok:
            if ph.exc == "analysis":
                r.undecide(f"lookup {k}: {ph.note}")
                r.ob(False)
                return
            why = f"is refused with {ph.exc}"
        elif ph.ret.op != "cls":
            if has_unk(ph.ret):
                r.undecide(f"lookup result {show(ph.ret)}")
                r.ob(False)
                return
            why = f"gives {show(ph.ret)}"
        else:
            rt = ph.heap[ph.ret.args[0]].ns.get("recordType")
            if rt is not const(k):
                why = f"gives a class with the record type {show(rt) if rt is not None else None}"
            elif fam not in I.mro(ph.ret):
                why = f"gives a class that is no {I.clsname(fam)}"
        r.count("edge_lookups")
        if not r.ob(why is None, f"{k} in {I.clsname(fam)}{where} -> a class carrying it"):
            bad(f"{I.clsname(fam)}:edge{where}", f"the unassigned record type {k}{where} {why}")
    for fam in fams:
        fa = [] if fam is base else [fam]
        for k in edge:
            with prog.isolated():
                judge(run([const(k)] + fa), k, fam, "")
        for other in fams:
            if other is fam:
                continue
            with prog.isolated():
                k = edge[-1]
                ph = run([const(k)] + fa)
                if ph.ok:
                    judge(run_phase(I, "getStandardVariableClass", lambda: I.call(f, [const(k)] + ([] if other is base else [other]), {}, None), ph.heap),
                          k, other, f" after a lookup for {I.clsname(fam)}")
    # every concrete SV class of the package is registered
    for c in prog.subclasses(base):
        if I.abstract_methods(c):
            continue
        rec = I.rec(c)
        if rec.node is None or "recordType" not in rec.ns or not is_const(rec.ns["recordType"]):
            continue
        with prog.isolated():
            ph = run([rec.ns["recordType"]])
            ok = ph.ok and ph.ret is c
            r.count("registered_classes")
            r.ob(ok, f"{rec.name} registered under {show(rec.ns['recordType'])}")
            if not ok:
                bad(f"{rec.name}:unregistered", f"looking up {show(rec.ns['recordType'])} does not give {rec.name}, which declares it")
    return r


# ------------------------------------------------------- variant records
RADIO_FIELDS = {"pattern type": (68, 2), "pattern length": (70, 2), "major modulation": (90, 2), "radio system": (94, 2),
                "parameter length": (100, 1)}


def radio_record(v):
    if not v["parameter length"]:
        return None
    k = v["radio system"]
    if k == 1:
        return "GenericRadio" if v["major modulation"] else "SimpleIntercomRadio"
    return {2: "BasicHaveQuickMP", 3: "BasicHaveQuickMP", 4: "BasicHaveQuickMP", 6: "CCTTSincgarsMP"}.get(k, "UnknownRadio")


def antenna_record(v):
    if not v["pattern length"]:
        return None
    return "BeamAntennaPattern" if v["pattern type"] == 1 else "UnknownAntennaPattern"


def conditions(t, out):
    if t.op == "ite":
        out.append(t.args[0])
        conditions(t.args[1], out)
        conditions(t.args[2], out)
    return out


def offsets(trace):
    """chunk -> offset for the reads before the first branch or loop."""
    out, o = {}, 0
    for e in trace:
        if e[0] == "rd":
            c = e[2]
            out[c] = o
            n = c.args[1]
            if not is_const(n):
                break
            o += n.args[0]
        elif e[0] in ("if", "loop", "seek"):
            break
    return out


@check("C33")
def c33(prog, tier):
    r = Result(PRE + "Rule: the modulation parameters and the antenna pattern a Transmitter PDU decodes are symbolic choices over the "
               "discriminator and length fields of the datagram; the choice is evaluated for every value the code distinguishes (each "
               "constant compared with, its neighbours, the ends of the field) and must be the record the table assigns.")
    I = prog.I
    m = next((m for m in prog.all_models() if m.name == "TransmitterPdu"), None)
    if m is None or m.obj is None or not m.parse.ok:
        r.undecide("TransmitterPdu cannot be decoded")
        r.ob(False)
        return r
    heap = m.parse.heap
    off = offsets(m.parse.trace)
    for attr, want, fields in (("modulationParameters", radio_record, ("radio system", "major modulation", "parameter length")),
                               ("antennaPattern", antenna_record, ("pattern type", "pattern length"))):
        g = m.run_getattr(heap, m.obj, attr)
        if not g.ok:
            r.finding("variant", f"TransmitterPdu.{attr}", f"TransmitterPdu has no {attr} after decoding", "TransmitterPdu.parse", m.line, m.file)
            r.ob(False)
            continue
        t = g.ret
        consts = {0, 1, 2, 3, 4, 5, 6, 7, 8}
        for c in conditions(t, []):
            for x in subterms(c):
                if is_const(x) and isinstance(x.args[0], int):
                    consts |= {x.args[0] - 1, x.args[0], x.args[0] + 1}
        r.count("variants")

        def values(f):
            w = RADIO_FIELDS[f][1]
            return sorted(k for k in consts | {255, 256, (1 << 8 * w) - 1} if 0 <= k < 1 << 8 * w)

        def combos(fs):
            if not fs:
                yield {}
                return
            for k in values(fs[0]) if fs[0] != "parameter length" and fs[0] != "pattern length" else [0, 1, 2, (1 << 8 * RADIO_FIELDS[fs[0]][1]) - 1]:
                for d in combos(fs[1:]):
                    yield {fs[0]: k, **d}
        bad = und = 0
        for v in combos(fields):
            lits = {RADIO_FIELDS[f][0]: (RADIO_FIELDS[f][1], x) for f, x in v.items()}
            sub = {}
            for c, o in off.items():
                n = c.args[1].args[0] if is_const(c.args[1]) else None
                if n is None:
                    continue
                if any(o <= p < o + n for p in lits):
                    segs, q = [], o
                    while q < o + n:
                        if q in lits and q + lits[q][0] <= o + n:
                            w, x = lits[q]
                            segs.append(("lit", x.to_bytes(w, "big")))
                            q += w
                        else:
                            segs.append(("raw", leaf("datagram", "bytes"), q, ONE))
                            q += 1
                    sub[c] = tm.bytes_(tuple(segs))
            memo = {}
            x = t
            while x.op == "ite":
                c = rewrite(x.args[0], lambda y: sub.get(y) if y.op == "chunk" else None, memo)
                c = tm.truthy(c) if not is_const(c) else c
                if not is_const(c):
                    break
                x = x.args[1] if c.args[0] else x.args[2]
            r.count("choices")
            what = ", ".join(f"{f} {k}" for f, k in v.items())
            if x is NONE:
                got = None
            elif x.op == "ref" and isinstance(heap.get(x.args[0]), ObjRec):
                got = I.clsname(heap[x.args[0]].cls)
            else:
                und += 1
                if und == 1:
                    r.undecide(f"TransmitterPdu.{attr} for {what}: {show(x)[:100]}")
                continue
            if got != want(v):
                bad += 1
                if bad <= 5:
                    r.finding("variant", f"TransmitterPdu.{attr}:{want(v)}->{got}", f"a Transmitter PDU with {what} decodes its {attr} as "
                              f"{got}, not {want(v)}", "TransmitterPdu.parse", m.line, m.file)
        r.ob(not bad and not und, f"TransmitterPdu.{attr}")
    return r
