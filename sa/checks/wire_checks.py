"""Wire layout (C02), constructor fidelity (C04), documented ranges (C06)."""
from __future__ import annotations

import ast
import os
import re

from . import check
from .codec_checks import PRE, trips
from ..report import Result, VERIF
from ..codec import Align, is_padding, ObjRec, ListRec, has_unk, run_phase
from ..layout import layout, ftype
from ..terms import *
from .. import terms as tm


def oracle():
    out = {}
    for ln in open(os.path.join(VERIF, "oracle", "layout.txt"), encoding="utf-8"):
        k, _, v = ln.rstrip("\n").partition(" :: ")
        out.setdefault(k.split("[", 1)[0], []).append(v)
    return out


def split_fields(t):
    out, depth, cur = [], 0, ""
    for ch in t:
        if ch == " " and depth == 0:
            out.append(cur)
            cur = ""
            continue
        depth += ch == "{"
        depth -= ch == "}"
        cur += ch
    return [x for x in out + [cur] if x]


@check("C02")
def c02(prog, tier):
    r = Result(PRE + "Rule: the sequence of (type, byte order, width, public attribute) serialize() writes for each class is "
               "the sequence of the reviewed DIS 7 layout table oracle/layout.txt, which does not depend on how the "
               "code is written (private names, helpers and padding attributes are transparent).")
    orc = oracle()
    seen = set()
    for m in prog.all_models():
        if m.name not in orc:
            r.count("classes_without_oracle")
            continue
        if m.obj is None or not m.parse.ok:
            ph = m.ctor if m.obj is None else m.parse
            if ph.exc == "analysis":
                r.undecide(f"{m.name}: {ph.note}")
            else:
                r.finding("layout", m.name, f"{ph.name} always raises {ph.exc} {ph.note}", ph.name, m.line, m.file)
            seen.add(m.name)
            continue
        want = orc[m.name]
        got = []
        for v in m.variants():
            t = layout(prog, m, v)
            if t is not None and t not in want:
                t2 = layout(prog, m, v, True)
                t = t2 if t2 in want else t
            got.append(t)
            if t is None:
                r.undecide(f"{m.name}[{v.label}]: serialize not modelled")
        seen.add(m.name)
        r.count("classes")
        for t in got:
            if t is None:
                continue
            r.count("layouts")
            fs = split_fields(t)
            r.count("fields", len(fs))
            if t in want:
                r.ob(True, f"{m.name} :: {t[:160]}")
                continue
            if "?" in t:
                r.undecide(f"{m.name}: {t[:200]}")
                r.ob(False)
                continue
            r.ob(False)
            best = min(want, key=lambda w: ndiff(split_fields(w), fs))
            a, b = firstdiff(split_fields(best), fs)
            r.finding("layout", m.name, f"layout differs: expected {a}, serialize() writes {b}", m.name + ".serialize", m.line, m.file)
        if None not in got and not any("?" in t for t in got):
            for w in want:
                if w not in got:
                    r.ob(False)
                    if all(f.construct != m.name for f in r.findings):
                        r.finding("layout-missing", m.name, f"no instance is written with the layout {w[:300]}", m.name + ".serialize", m.line, m.file)
    for k in sorted(set(orc) - seen):
        r.undecide(f"{k}: class not found")
    return r


def ndiff(a, b):
    n = sum(1 for x, y in zip(a, b) if x != y)
    return n + abs(len(a) - len(b))


def firstdiff(a, b):
    for i in range(max(len(a), len(b))):
        x = a[i] if i < len(a) else "the end"
        y = b[i] if i < len(b) else "nothing more"
        if x != y:
            return f"{x} at field {i}", y
    return "", ""


# ------------------------------------------------------------------ annotations
RANGE = re.compile(r"^(u?int|enum|struct|char|float)(8|16|32|64)$")


def ann_type(node):
    """('u'|'i'|'f', bits) of a documented type, looking through Optional/list."""
    if node is None:
        return None, False
    if isinstance(node, ast.Constant) and isinstance(node.value, str):
        try:
            return ann_type(ast.parse(node.value, mode="eval").body)
        except SyntaxError:
            return None, False
    if isinstance(node, ast.BinOp) and isinstance(node.op, ast.BitOr):
        a, la = ann_type(node.left)
        return (a, la) if a else ann_type(node.right)
    if isinstance(node, ast.Subscript):
        base = ast.unparse(node.value).split(".")[-1]
        sl = node.slice.elts[0] if isinstance(node.slice, ast.Tuple) and node.slice.elts else node.slice
        t, l = ann_type(sl)
        if base.lower() in ("list", "sequence"):
            return t, True
        if base == "Optional":
            return t, l
        return None, False
    name = node.id if isinstance(node, ast.Name) else node.attr if isinstance(node, ast.Attribute) else ""
    mt = RANGE.match(name)
    if not mt:
        return None, False
    k = {"uint": "u", "int": "i", "enum": "u", "struct": "u", "char": "u", "float": "f"}[mt.group(1)]
    return (k, int(mt.group(2))), False


def class_annotations(prog, m):
    """{attribute path: ((kind, bits), line, where)} from constructor parameters
    and annotated assignments of the class and its bases."""
    I, out = prog.I, {}
    for c in reversed(I.mro(m.c)):
        if c.op != "ref" and c.op != "cls":
            continue
        try:
            rec = I.rec(c)
        except Exception:
            continue
        node = getattr(rec, "node", None)
        if node is None:
            continue
        for st in node.body:
            if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                t, l = ann_type(st.annotation)
                if t:
                    out[st.target.id + ("[*]" if l else "")] = (t, st.lineno, rec.name)
            if isinstance(st, ast.FunctionDef) and any(isinstance(d, ast.Name) and d.id == "property" for d in st.decorator_list):
                t, l = ann_type(st.returns)
                if t and not l:
                    out["property " + st.name] = (t, st.lineno, rec.name)
            if isinstance(st, ast.FunctionDef) and st.name == "__init__":
                for a in st.args.posonlyargs + st.args.args + st.args.kwonlyargs:
                    t, l = ann_type(a.annotation)
                    if t:
                        out[a.arg + ("[*]" if l else "")] = (t, a.lineno, rec.name)
                for s2 in ast.walk(st):
                    if isinstance(s2, ast.AnnAssign) and isinstance(s2.target, ast.Attribute) \
                            and isinstance(s2.target.value, ast.Name) and s2.target.value.id == "self":
                        t, l = ann_type(s2.annotation)
                        if t:
                            out[s2.target.attr + ("[*]" if l else "")] = (t, s2.lineno, rec.name)
    return out


def written(al, evs):
    """[(code, value term)] of every packed field written."""
    out = []

    def go(ps):
        for p in ps:
            if p[0] == "p" and p[1][0] == "pk":
                out.append((p[1][1], p[1][2], p[2], p[3]))
            elif p[0] == "loop":
                go(p[3])
            elif p[0] == "ite":
                go(p[2])
                go(p[3])
    go(al.pieces(evs))
    return out


@check("C06")
def c06(prog, tier):
    r = Result(PRE + "Rule: each attribute with a documented type (uintN, intN, enumN, structN, charN, floatN on the constructor "
               "parameter, attribute or count property) is written with a field of exactly that width, signedness and "
               "kind, so every documented value encodes without error or loss and every decoded value is documented.")
    for m in prog.all_models():
        if m.obj is None or not m.parse.ok:
            continue
        anns = class_annotations(prog, m)
        done = set()
        for v in m.variants():
            with prog.isolated():
                ph = m.run_serialize(v.heap, m.obj)
                if not ph.ok:
                    continue
                al = Align(prog.I, v.facts)
                w = written(al, ph.trace)
                props = {}
                for k in anns:
                    if k.startswith("property "):
                        q = m.run_getattr(v.heap, m.obj, k[9:])
                        if q.ok and q.ret is not None and not is_const(q.ret):
                            props[q.ret] = k
            for code, val, where, line in w:
                while val.op in ("int",):
                    val = val.args[0]
                key = None
                if val.op == "leaf" and not val.args[0].startswith("len("):
                    p = val.args[0]
                    key = p if p in anns else None
                    if key is None and p.startswith("_"):
                        key = p.lstrip("_") if p.lstrip("_") in anns else None
                elif val in props:
                    key = props[val]
                if key is None or is_padding(key) or (key, code) in done:
                    continue
                done.add((key, code))
                (k, bits), ln, owner = anns[key]
                t = ftype(code)
                want = f"{k}{bits}"
                r.count("fields")
                ok = t == want or (t == "bool8" and want == "u8")
                r.ob(ok, f"{m.name}.{key}: documented {want}, written {t}")
                if not ok:
                    r.finding("range", f"{m.name}.{key}", f"{m.name}.{key} is documented as {name(k, bits)} but written as {t} by {where}",
                              f"{owner}", ln, m.file)
    return r


def name(k, bits):
    return {"u": "uint", "i": "int", "f": "float"}[k] + str(bits)


# ------------------------------------------------------------------ C36
def conditional(al, evs):
    """[(code, value, conditions, function, line)] of every packed number written, the bits of bit fields included."""
    out = []

    def go(ps, cs):
        for p in ps:
            if p[0] == "p" and p[1][0] == "pk":
                out.append((p[1][1], p[1][2], cs, p[2], p[3]))
            elif p[0] == "p" and p[1][0] == "bits":
                for w, x in p[1][2]:
                    out.append((w, x, cs, p[2], p[3]))
            elif p[0] == "loop":
                go(p[3], cs)
            elif p[0] == "ite":
                go(p[2], cs + ((p[1], True),))
                go(p[3], cs + ((p[1], False),))
    go(al.pieces(evs), ())
    return out


def assumed(evs):
    """The conditions of a run that did not fail: the outcomes without an exception, in loops for every element."""
    for e in evs:
        if e[0] == "assume":
            yield e[1], e[2]
        elif e[0] == "loop":
            yield from assumed(e[3])


def span(code):
    """The integers a field can hold, None when it holds something else; a number is the width of a bit field."""
    if isinstance(code, int):
        return 0, (1 << code) - 1
    n = 8 * tm.code_size(code)
    if code[0] in "BHILQu":
        return 0, (1 << n) - 1
    if code[0] in "bhilqs":
        return -(1 << n - 1), (1 << n - 1) - 1
    return None


def at(al, t, env):
    """The value of a term when its inputs have the given values, None when it depends on anything else."""
    def fold(y):
        if y in env:
            return const(env[y])
        if y.op == "minmax" or y.op == "fn" and y.args[0] == "fabs":
            xs = [go(x) for x in y.args[1:]]
            if all(is_int(x) for x in xs):
                return const({"min": min, "max": max, "fabs": lambda x: abs(x)}[y.args[0]](*[x.args[0] for x in xs]))
        if y.op in ("int", "truthy", "invert", "neg") and len(y.args) == 1 and isinstance(y.args[0], T):
            x = go(y.args[0])
            if x.op == "const" and isinstance(x.args[0], (int, bool)):
                return const({"int": int, "truthy": bool, "invert": lambda v: ~v, "neg": lambda v: -v}[y.op](x.args[0]))
        return None

    def go(y):
        return al.I_arith(rewrite(y, fold))
    x = go(t)
    return x.args[0] if x.op == "const" and isinstance(x.args[0], (int, float)) else None


def raw_at(t, chunks):
    """The bytes of a bytes term made of literal bytes and input chunks, else None."""
    if t in chunks:
        return chunks[t]
    if t.op == "const":
        return t.args[0] if isinstance(t.args[0], bytes) else None
    if t.op != "bytes":
        return None
    out = b""
    for s in t.args[0]:
        if s[0] == "lit":
            out += s[1]
        elif s[0] == "raw" and s[1] in chunks and isinstance(s[2], int) and isinstance(s[3], int):
            out += chunks[s[1]][s[2]:s[2] + s[3]]
        else:
            return None
    return out


def decoded(al, evs, ret, data):
    """(what a straight-line reader returns for the given input, bytes consumed): "refused" or None, when not known, for the first."""
    chunks, pos = {}, 0
    conds = []
    for e in evs:
        if e[0] == "rd":
            n = tm.len_(e[2])
            if not is_int(n):
                return None, 0
            chunks[e[2]] = data[pos:pos + n.args[0]]
            pos += n.args[0]
            if pos > len(data):
                return "refused", pos
        elif e[0] == "assume":
            conds.append(e[1:3])
        else:
            return None, 0

    def value(t):
        env = {}
        for y in tm.subterms(t):
            if y.op == "unpack" and isinstance(y.args[2], int) and (len(y.args[0]) < 2 or y.args[0][-1] in "<>") and span(y.args[0]):
                b = raw_at(y.args[1], chunks)
                n = tm.code_size(y.args[0])
                if b is not None and len(b) >= y.args[2] + n:
                    env[y] = int.from_bytes(b[y.args[2]:y.args[2] + n], "little" if y.args[0].endswith("<") else "big", signed=span(y.args[0])[0] < 0)
        return at(al, t, env)

    for c, v in conds:
        x = value(c)
        if x is None:
            return None, pos
        if bool(x) != bool(v):
            return "refused", pos
    return value(ret), pos


def encoded(al, evs, env):
    """The bytes written when the inputs have the given values: a byte string, "refused", or None when not known."""
    for c, v in assumed(evs):
        x = at(al, c, env)
        if x is not None and bool(x) != bool(v):
            return "refused"
    return encoded_pieces(al, al.pieces(evs), env)


def encoded_pieces(al, ps, env):
    out = b""
    for p in ps:
        if p[0] == "ite":
            x = at(al, p[1], env)
            if x is None:
                return None
            b = encoded_pieces(al, p[2] if x else p[3], env)
        elif p[0] == "p" and p[1][0] == "lit":
            b = p[1][1]
        elif p[0] == "p" and p[1][0] == "pk" and span(p[1][1]):
            x = at(al, p[1][2], env)
            if not isinstance(x, int):
                return None
            lo, hi = span(p[1][1])
            if not lo <= x <= hi:
                return "refused"
            b = int(x).to_bytes(tm.code_size(p[1][1]), "little" if p[1][1].endswith("<") else "big", signed=lo < 0)
        else:
            return None
        if not isinstance(b, bytes):
            return b
        out += b
    return out


def altered(al, facts, leaf_, segs, others):
    """A value of the input that no written field can hold but that is written all the same, else None."""
    count = leaf_.args[1] == "count" or leaf_.args[0].startswith("len(")
    direct = [s for s in segs if span(s[0]) and all(at(al, s[1], {leaf_: k}) == k for k in (0, 1, span(s[0])[1]))]
    if direct and len(direct) == len(segs):
        lo, hi = min((span(s[0]) for s in direct), key=lambda z: z[1])
    else:
        n = sum((s[0] if isinstance(s[0], int) else 8 * tm.code_size(s[0])) for s in segs)
        lo, hi = 0, (1 << n) - 1
    if count or len(direct) != len(segs):
        probes = [(hi + 1) * 64, (hi + 1) * 64 + 8, (hi + 1) * 1024 + 24] + ([] if count else [hi + 1, -1])
    else:
        probes = [hi + 1, hi + 2, 2 * hi + 2, 2 * hi + 9, lo - 1, (hi + 1) * 256 + 3]

    def written(p):
        """The numbers written when the input is p, None when it is refused or not known."""
        if any(x is not None and bool(x) != bool(v) for x, v in ((at(al, c, {leaf_: p}), v) for c, v in facts)):
            return None
        env = {o: 0 for o in others}
        env[leaf_] = p
        got = []
        for code, val, cs, _, _ in segs:
            if any(x is not None and bool(x) != v for x, v in ((at(al, c, env), v) for c, v in cs)):
                continue
            x = at(al, val, env)
            if x is None or isinstance(code, int):
                got.append(None if x is None else x & ((1 << code) - 1) if isinstance(x, int) else None)
                continue
            if not isinstance(x, int) or not span(code)[0] <= x <= span(code)[1]:
                return None
            got.append(x)
        return got if None not in got else None

    for p in probes:
        got = written(p)
        if got is None or not got and not any(written(q) for q in (0, 1, hi)):
            continue
        if p < 0 and lo >= 0 and not count and all(written(q) is None for q in (hi, hi // 2 + 1)):
            continue              # the two's complement of a number in the lower half, the upper half being refused
        return p, got
    return None


@check("C36")
def c36(prog, tier):
    r = Result(PRE + "Rule: for every number written, the expression of the attribute (or list length) that is encoded is evaluated at "
               "values the field cannot hold; each of them must leave the range of a field it is written to, where struct refuses it.")
    I = prog.I
    for m in prog.all_models():
        if m.obj is None:
            continue
        seen = set()
        for v in m.unbounded():
            with prog.isolated():
                I.wide = True
                try:
                    ph = m.run_serialize(v.heap, m.obj)
                finally:
                    I.wide = False
                if not ph.ok:
                    continue
                al = Align(I, v.facts)
                by = {}
                segs = conditional(al, ph.trace)
                facts = list(v.facts.items()) + list(ph.facts.items()) + list(assumed(ph.trace))
                for s in segs:
                    if not span(s[0]):
                        continue
                    for x in set(tm.subterms(s[1])):
                        if x.op == "leaf" and x.args[1] in ("any int", "count"):
                            by.setdefault(x, []).append(s)
                for x, segs in sorted(by.items(), key=lambda z: z[0].args[0]):
                    key = x.args[0]
                    last = key.split(".")[-1].split("[")[0]
                    # the other bits of a beam status are padding, by its documentation
                    if is_padding(last) or last == "beamState" or (key, len(segs)) in seen:
                        continue
                    seen.add((key, len(segs)))
                    others = {y for s in segs for y in tm.subterms(s[1]) if y.op == "leaf" and y is not x}
                    bad = altered(al, facts, x, segs, others)
                    r.count("values")
                    if not r.ob(bad is None, f"{m.name}.{key}"):
                        r.finding("altered", f"{m.name}.{key}", f"{key} of {m.name} set to {bad[0]} is encoded as {', '.join(map(str, bad[1])) or 'something else'} "
                                  f"instead of being refused", segs[0][3], segs[0][4], m.file)
    return r
