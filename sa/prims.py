"""Stream primitives written in an unusual way.

A reader or writer of an integer that provably does what the standard primitive does (every value, short input refused,
numbers out of range refused, nothing else touched) is represented by that primitive wherever it is called, so that the
other checks see one form whatever way it is written.  Primitives that are already in that form, or that are not proved
equal to it, are interpreted as they are.
"""
from __future__ import annotations

import ast
import os

from .codec import Align, ObjRec, run_phase
from .terms import *
from . import terms as tm


def summarise(prog):
    out = {}
    try:
        _summarise(prog, out)
    except Exception:      # what has no summary is interpreted as it is written
        if os.environ.get("SA_DEBUG"):
            raise
        prog.I.read_hook = None
        prog.I.wide = False
    return out


def _summarise(prog, out):
    from .checks.input_checks import short_reads
    from .checks.prim_checks import CODE, exact, exact_read, flat, table
    from .checks.wire_checks import encoded, span
    I = prog.I
    if prog.dis is None or prog.dos is None:
        return
    for name, kind in table("primitives.txt"):
        if kind not in CODE or kind[0] not in "iu":
            continue
        code = CODE[kind]
        n = tm.code_size(code)
        lo, hi = span(code)
        f = I.class_lookup(prog.dis, "read_" + name)[0]
        if f is not None and f.op == "func" and plain(I.func(f), 1):
            with prog.isolated():
                ph, o, attr, attrs = run(prog, prog.dis, I.raw_in, "read_" + name, [])
                usual = ph.ok and len(ph.trace) == 1 and ph.trace[0][0] == "rd" and ph.ret is tm.unpack_(code, ph.trace[0][2], 0)
                good = ph.ok and not usual and attr is not None and attrs is not None and not ph.effects and not ph.problems and \
                    exact_read(Align(I, {}), ph.trace, kind, ph.ret)[0]
            if good and not short_reads(prog, f, 0)[0]:
                out[f] = reader(I, attr, code, n)
        f = I.class_lookup(prog.dos, "write_" + name)[0]
        if f is not None and f.op == "func" and plain(I.func(f), 2):
            v = leaf("value", "any int")
            with prog.isolated():
                I.wide = True
                try:
                    ph, o, attr, attrs = run(prog, prog.dos, I.raw_out, "write_" + name, [v])
                finally:
                    I.wide = False
                al = Align(I, {})
                segs = flat(al, ph.trace) if ph.ok else None
                usual = segs == [("pk", code, v)]
                good = ph.ok and not usual and attr is not None and attrs is not None and not ph.effects and not ph.problems and \
                    exact(al, ph.trace, kind, v, False)[0] and \
                    all(encoded(al, ph.trace, {v: x}) == "refused" for x in (lo - 1, lo - 2, 2 * lo - 1, hi + 1, hi + 2, 2 * hi + 2, 256 * (hi + 1) + 3))
            if good:
                out[f] = writer(I, attr, code)
    f = I.class_lookup(prog.dis, "read_bytes")[0]
    if f is not None and f.op == "func" and plain(I.func(f), 2) and not I.func(f).defaults:
        attr = block(prog, f)
        if attr:
            fn = I.func(f)
            a = fn.node.args
            o, n = (x.arg for x in a.posonlyargs + a.args)
            data = "data" if n != "data" else "read"
            node = ast.parse(BLOCK.format(o=o, n=n, data=data, attr=attr)).body[0]
            for x in ast.walk(node):
                if hasattr(x, "lineno"):
                    x.lineno = x.end_lineno = fn.node.lineno
            node.name, node.args = fn.node.name, a
            fn.node = node


BLOCK = """def read({o}, {n}):
    if {n} < 0:
        raise ValueError("negative size")
    {data} = {o}.{attr}.read({n})
    if len({data}) != {n}:
        raise ValueError("short read")
    return {data}
"""


def block(prog, f):
    """The attribute of the raw stream, for a read_bytes in an unusual form (a loop, say) that is proved to return exactly the
    bytes asked for, and to refuse a negative number and a stream that ends early; for the sizes around 0 and around every number it mentions."""
    from .checks.wire_checks import raw_at
    I = prog.I
    fn = I.func(f)

    def go(n, hook):
        I.read_hook = hook
        try:
            with prog.isolated():
                ph, o, attr, attrs = run(prog, prog.dis, I.raw_in, "read_bytes", [n])
        finally:
            I.read_hook = None
        return ph, attr if attrs is not None else None
    n = leaf("n", "int")
    ph, attr = go(n, None)
    if attr and ph.ok and all(e[0] in ("rd", "assume") for e in ph.trace) and sum(e[0] == "rd" for e in ph.trace) == 1 and ph.ret.op == "chunk":
        return None
    sizes = {0, 1, 2, 3, 5, 8}
    for x in ast.walk(fn.node):
        if isinstance(x, ast.Constant) and isinstance(x.value, (int, float)):
            if not isinstance(x.value, int) or not 0 <= x.value <= 64:
                return None
            sizes |= {x.value, x.value + 1, 2 * x.value + 1}
    for size in (-1, -2):
        ph, _ = go(const(size), None)
        if ph.ok or ph.exc == "analysis":
            return None
    for size in sorted(sizes):
        for have in sorted({size + 9, size, size - 1, size // 2, 0} & set(range(size + 10))):
            given = [0]

            def hook(o, n, line):
                if n.op == "rest":
                    k = have - given[0]
                elif is_int(n):
                    k = min(n.args[0], have - given[0])
                else:
                    raise NotImplementedError
                given[0] += k
                return I.new_chunk(const(k))
            ph, attr = go(const(size), hook)
            if ph.exc == "analysis" or ph.ok != (have >= size):
                return None
            if not ph.ok:
                continue
            if attr is None or ph.effects or ph.problems or given[0] != size or any(e[0] not in ("rd", "assume") for e in ph.trace):
                return None
            data = bytes(range(1, size + 1))
            chunks, pos = {}, 0
            for e in ph.trace:
                if e[0] == "rd":
                    k = tm.len_(e[2]).args[0]
                    chunks[e[2]] = data[pos:pos + k]
                    pos += k
            if raw_at(ph.ret, chunks) != data:
                return None
    return attr


def plain(fn, n):
    a = fn.node.args
    return len(a.posonlyargs + a.args) == n and not (a.vararg or a.kwarg or a.kwonlyargs or fn.isgen or fn.memo)


def run(prog, cls, raw, name, args):
    """(the primitive's run, its stream object, the attribute the raw stream is kept in, its attributes if left alone)."""
    I = prog.I
    box = []

    def go():
        w = raw()
        o = I.call(cls, [w], {}, None)
        box.extend((o, w, dict(I.rec(o).attrs)))
        I.trace = []
        return I.call(I.getattr_(o, name), args, {}, None)
    ph = run_phase(I, name, go)
    if len(box) != 3:
        return ph, None, None, None
    o, w, attrs = box
    attr = next((k for k, x in attrs.items() if x is w), None)
    after = ph.heap.get(o.args[0])
    return ph, o, attr, attrs if isinstance(after, ObjRec) and after.attrs == attrs else None


def reader(I, attr, code, n):
    def go(args, node):
        r = I.rec(args[0]) if args[0].op == "ref" else None
        if not isinstance(r, ObjRec) or attr not in r.attrs:
            return None
        return tm.unpack_(code, I.call(I.getattr_(r.attrs[attr], "read"), [const(n)], {}, node), 0)
    return go


def writer(I, attr, code):
    def go(args, node):
        r = I.rec(args[0]) if args[0].op == "ref" else None
        if not isinstance(r, ObjRec) or attr not in r.attrs:
            return None
        v = I.res(args[1])
        I.check_packable(code, v)
        I.fits(code, v, "struct.error")
        I.call(I.getattr_(r.attrs[attr], "write"), [bytes_((I.pack(code, v),))], {}, node)
        return NONE
    return go
