"""Canonical wire layouts, derived from write-event trees.

A layout line is a list of fields
    <type> <source>
with <type> in u8 i16 f32 bool8 bits(w) zero(n) const … and <source> the public
attribute path the bits come from ("=text" for constants, "~a,b" for values
computed from a and b, "*a" for the elements of list a).
"""
from __future__ import annotations

import struct

from .codec import Align, run_phase
from .interp import ObjRec
from .terms import *
from . import terms as tm
from .codec import is_padding

SIGN = {"b": "i", "h": "i", "i": "i", "l": "i", "q": "i", "S": "i",
        "B": "u", "H": "u", "I": "u", "L": "u", "Q": "u", "u": "u",
        "f": "f", "d": "f", "e": "f", "?": "bool"}


def ftype(code):
    n = tm.code_size(code)
    k = SIGN.get(code[0], code[0])
    le = "le" if code.endswith("<") and n > 1 else ""
    return f"{k}{8 * n}{le}"


def pub(path):
    """Public form of an attribute path: private holders are transparent."""
    parts = path.split(".")
    return ".".join(p for p in parts if not p.startswith("_") or p == parts[-1])


ALIAS = {}        # leaf term -> the path of the public property that gives it


def aliases(prog, m, v):
    """Properties of the instance's objects that give the value of one attribute."""
    I, out = prog.I, {}
    I.heap = dict(v.heap)
    for oid, rec in list(v.heap.items()):
        if not isinstance(rec, ObjRec) or rec.cls.op != "cls":
            continue
        by = {t: n for n, t in rec.attrs.items() if t.op == "leaf"}
        for k in I.mro(rec.cls):
            for n, d in (I.rec(k).ns if k.op == "cls" else {}).items():
                if d.op == "property" and not n.startswith("_") and len(d.args) < 3 and d.args[0].op == "func":
                    ph = run_phase(I, n, lambda: I.getattr_(mk("ref", oid), n), dict(v.heap))
                    I.heap = dict(v.heap)
                    if ph.ok and ph.ret in by:
                        path = ph.ret.args[0]
                        if path.endswith(by[ph.ret]):
                            out.setdefault(ph.ret, path[:-len(by[ph.ret])] + n)
    return out


def source(t):
    """Where the value of a field comes from."""
    if t.op == "leaf":
        p = ALIAS.get(t, t.args[0])
        if p.startswith("len("):
            return "~" + "len(" + pub(p[4:-1] if p.endswith(")") else p[4:]) + ")"
        last = p.split(".")[-1]
        if is_padding(last.split("[")[0]):
            return "pad"
        return pub(p)
    if t.op == "const":
        return "=" + repr(t.args[0])
    if t.op == "int":
        return source(t.args[0])
    ls = set()
    for x in subterms(t):
        if x.op == "leaf":
            ls.add(source(x))
        elif x.op == "unk":
            ls.add("?")
    ls.discard("pad")
    if any(s.startswith("~len(") for s in ls):
        pass
    return "~" + ",".join(sorted(s.lstrip("~") for s in ls))


def seg_fields(s, idx=""):
    if s[0] == "lit":
        b = s[1]
        if not any(b):
            return [("zero", len(b))]
        return [("const", b.hex())]
    if s[0] == "pk":
        src = source(s[2])
        if src == "pad":
            return [("zero", tm.code_size(s[1]))]
        if src == "~":                     # comes from the wire and is no attribute
            return [("raw", tm.code_size(s[1]), src)]
        return [("f", ftype(s[1]), src)]
    if s[0] == "bits":
        out = []
        for w, v in s[2]:
            out.append(("bits", w, source(v)))
        return out
    if s[0] == "raw":
        n = s[3]
        if isinstance(n, T) and not is_const(n):
            return [("bytes", source(s[1]) if s[1].op == "leaf" else source(n))]
        n = n.args[0] if isinstance(n, T) else n
        src = source(s[1])
        return [("raw", n, src)] if src != "pad" else [("zero", n)]
    return [("?", s[0])]


def norm(f):
    """Constants byte by byte; zero bytes and padding are the same thing."""
    if f[0] == "const":
        return [("zero", 1) if b == 0 else ("const", f"{b:02x}") for b in bytes.fromhex(f[1])]
    if f[0] == "bits" and f[2] == "=0":
        return [("bits", f[1], "pad")]
    return [f]


def rejoin(pieces):
    """A number written in parts, most significant first, is one field; bytes
    written a piece at a time are what they were cut from."""
    whole, i = [], 0
    while i < len(pieces):
        j = i
        while j < len(pieces) and pieces[j][0] == "p" and pieces[j][1][0] == "raw":
            j += 1
        if j - i > 1:
            for s in segs_of(bytes_(tuple(p[1] for p in pieces[i:j]))):
                whole += [("p", x) + tuple(pieces[i][2:]) for x in (segs_of(bytes_((s,))) or (s,))]
            i = j
        else:
            whole.append(pieces[i])
            i += 1
    pieces = whole
    out, i = [], 0
    while i < len(pieces):
        n = part(pieces, i)
        if n:
            code, leaf_, k = n
            out.append(("p", ("pk", code, leaf_)) + tuple(pieces[i][2:]))
            i += k
        else:
            out.append(pieces[i])
            i += 1
    return out


def part(pieces, i):
    bits, total = [], 0
    for k in range(i, min(i + 8, len(pieces))):
        p = pieces[k]
        if p[0] != "p" or p[1][0] != "pk" or p[1][1][0] not in "BHILu" or p[1][1].endswith("<") or p[1][2].op == "const":
            return None
        if k == i and (p[1][2].op == "leaf" or not tm.has_bitops(p[1][2])):
            return None
        v = tm.bitvec(p[1][2])
        w = 8 * tm.code_size(p[1][1])
        if v is None or len(v) > w:
            return None
        bits = v + [0] * (w - len(v)) + bits
        total += w
        if k > i and total in (16, 24, 32, 64):
            b = tm._strip(list(bits))
            x = b[0] if b else 0
            if isinstance(x, tuple) and b == tm.bitvec(x[0]) and x[0].op == "leaf" and len(b) > total - w:
                return tm.int_code(total // 8, False, ">"), x[0], k - i + 1
    return None


def fields(pieces):
    out = []
    pieces = rejoin(pieces)
    for p in pieces:
        if p[0] == "p":
            for f in [g for x in seg_fields(p[1]) for g in norm(x)]:
                if f[0] == "zero" and out and out[-1][0] == "zero":
                    out[-1] = ("zero", out[-1][1] + f[1])
                elif f[0] == "const" and out and out[-1][0] == "const":
                    out[-1] = ("const", out[-1][1] + f[1])
                elif f[0] == "bits" and f[2] == "pad" and out and out[-1][0] == "bits" and out[-1][2] == "pad":
                    out[-1] = ("bits", out[-1][1] + f[1], "pad")
                elif f[0] == "zero" and f[1] == 0:
                    pass
                else:
                    out.append(f)
        elif p[0] == "loop":
            out.append(("loop", source(p[2]), tuple(fields(p[3]))))
        elif p[0] == "ite":
            a, b = fields(p[2]), fields(p[3])
            if a == b:
                out.extend(a)
            else:
                out.append(("if", source(p[1]), tuple(a), tuple(b)))
        elif p[0] == "opq":
            out.append(("opq", source(p[1])))
    return out


def text(fs):
    out = []
    for f in fs:
        if f[0] == "f":
            out.append(f"{f[1]}:{f[2]}")
        elif f[0] == "zero":
            out.append(f"pad{8 * f[1]}")
        elif f[0] == "const":
            out.append(f"const:{f[1]}")
        elif f[0] == "bits":
            out.append(f"b{f[1]}:{f[2]}")
        elif f[0] == "raw":
            out.append(f"raw{f[1]}:{f[2]}")
        elif f[0] == "bytes":
            out.append(f"bytes:{f[1]}")
        elif f[0] == "loop":
            out.append("*" + f[1].lstrip("~") + "{" + " ".join(text(f[2])) + "}")
        elif f[0] == "if":
            out.append("?" + f[1].lstrip("~") + "{" + " ".join(text(f[2])) + "|" + " ".join(text(f[3])) + "}")
        else:
            out.append("?" + ":".join(map(str, f[1:])))
    return out


def layout(prog, m, v, alias=False):
    """Layout text of one class variant, or None when serialize fails."""
    with prog.isolated():
        ALIAS.clear()
        if alias:
            ALIAS.update(aliases(prog, m, v))
        s = m.run_serialize(v.heap, m.obj)
        if not s.ok:
            return None
        al = Align(prog.I, v.facts)
        ps = simp(al, al.pieces(s.trace))
        return " ".join(text(fields(ps)))


def simp(al, ps):
    out = []
    for p in ps:
        if p[0] == "ite":
            c = al.I_simp(p[1])
            if c.op == "const":
                out.extend(simp(al, p[2] if c.args[0] else p[3]))
                continue
            out.append(("ite", p[1], simp(al, p[2]), simp(al, p[3])))
        elif p[0] == "loop":
            out.append(("loop", p[1], al.I_arith(p[2]), simp(al, p[3]), p[4]))
        else:
            out.append(p)
    return out


def all_layouts(prog):
    out = {}
    for m in prog.all_models():
        if m.obj is None:
            continue
        for v in m.variants():
            k = m.name if v.label == "-" else f"{m.name}[{v.label}]"
            t = layout(prog, m, v)
            if t is not None:
                out.setdefault(k, t)
    return out
