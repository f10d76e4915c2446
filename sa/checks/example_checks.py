"""The example programs, interpreted against the package as it is."""
from __future__ import annotations

import ast
import os

from . import check
from .codec_checks import PRE
from ..codec import run_phase, ListRec, has_unk
from ..interp import Module, ObjRec
from ..report import Result
from ..terms import *

SHOWN = ("latitude", "longitude", "altitude", "roll", "pitch", "yaw")         # in the order ecef2llarpy returns them
WORLD = ("x", "y", "z", "psi", "theta", "phi")


def example(prog, r, name):
    """(module, heap) of an example after its imports and set-up, or None."""
    I = prog.I
    file = os.path.join(prog.root, "examples", name + ".py")
    full = "examples." + name
    try:
        with open(file, encoding="utf-8") as fh:
            I.modules[full] = Module(full, file, ast.parse(fh.read(), file))
    except (OSError, SyntaxError) as e:
        r.undecide(f"examples/{name}.py: {type(e).__name__}")
        return None
    m = I.modules[full]
    ph = run_phase(I, full, lambda: (I.load(full), NONE)[1], dict(I.heap))
    if not settled(r, ph, name, "import", m):
        return None
    return m, ph.heap


def settled(r, ph, name, what, m, line=0):
    r.count("runs")
    bad = [p for p in ph.problems if not p.handled]
    for p in bad[:1]:
        r.finding("runs", f"{name}.{what.replace(' ', '-')}.{p.kind}", f"{name}.py, {what}: {p.msg}", what, p.line or line, m.file)
    if not ph.ok and not bad:
        if ph.exc == "analysis" or ph.exc is None:
            r.undecide(f"{name}.py, {what}: {ph.note}")
        else:
            r.finding("runs", f"{name}.{what.replace(' ', '-')}.{ph.exc}", f"{name}.py, {what}: always ends in {ph.exc} ({ph.note})", what, line, m.file)
    return r.ob(ph.ok and not bad, f"{name}.py: {what}")


def call(prog, m, heap, fn, hook):
    I = prog.I
    old = I.call_hook
    I.call_hook = hook

    def go():
        I.trace = []
        return I.call(m.env[fn], [], {}, None)
    try:
        return run_phase(I, fn, go, dict(heap))
    finally:
        I.call_hook = old


def method_of(prog, modname, cname, mname):
    """The Func of a method or function, to recognise its calls."""
    I = prog.I
    m = I.modules.get(modname)
    v = m.env.get(cname or mname) if m else None
    if v is not None and cname:
        v = I.class_lookup(v, mname)[0]
    return I.func(v) if v is not None and v.op == "func" else None


def parts(t):
    """A text as its literal and computed parts, in order."""
    if t.op == "const":
        return [t.args[0]] if isinstance(t.args[0], str) else [t]
    if t.op == "str":
        return [q for x in t.args[0] for q in (parts(x) if isinstance(x, T) and x.op in ("const", "str") else [x])]
    if t.op == "bin" and t.args[0] == "+":
        return parts(t.args[1]) + parts(t.args[2])
    return [t]


@check("C37")
def c37(prog, tier):
    r = Result(PRE + "The example programs are interpreted against the package: the sender, the receiver on a PDU of every class and on a datagram "
               "the factory knows no class for, and the dead reckoning demonstration. Rule: none meets a missing name, attribute or argument; the PDU sent carries "
               "the position and orientation llarpy2ecef returned, each in its place; the receiver converts exactly what the PDU carries and shows each "
               "component of the result after its own name.")
    I = prog.I
    conv = method_of(prog, "opendis.RangeCoordinates", "GPS", "llarpy2ecef")
    back = method_of(prog, "opendis.RangeCoordinates", "GPS", "ecef2llarpy")
    make = method_of(prog, "opendis.PduFactory", None, "createPdu")
    espdu = prog._find_cls("EntityStatePdu")
    if None in (conv, back, make, espdu):
        r.ob(False)
        r.undecide("GPS.llarpy2ecef, GPS.ecef2llarpy, createPdu or EntityStatePdu is not where it was")
        return r
    world = [leaf("world." + n, "f64") for n in WORLD]
    local = [leaf("local." + n, "f64") for n in SHOWN]
    tup = lambda xs: I.alloc(ListRec("tuple", [("e", x) for x in xs]))

    def attr(heap, o, path):
        for n in path.split("."):
            rec = heap.get(o.args[0]) if o.op == "ref" else None
            if not isinstance(rec, ObjRec) or n not in rec.attrs:
                return None
            o = rec.attrs[n]
        return o

    # sender
    with prog.isolated():
        ex = example(prog, r, "dis_sender")
        if ex and "send" in ex[0].env:
            sent = []

            def hook(I_, f, args, kwargs):
                if f is conv:
                    I_.bind_params(f, args, kwargs)
                    return tup(world)
                if f.name == "serialize" and args and args[0].op == "ref" and isinstance(I_.rec(args[0]), ObjRec) and I_.rec(args[0]).cls is espdu:
                    sent.append((args[0], dict(I_.heap)))
                return None
            ph = call(prog, ex[0], ex[1], "send", hook)
            if settled(r, ph, "dis_sender", "send", ex[0]):
                if not sent:
                    r.ob(False)
                    r.undecide("dis_sender: the PDU it encodes is not recognised")
                for o, heap in sent[:1]:
                    want = dict(zip(["entityLocation.x", "entityLocation.y", "entityLocation.z", "entityOrientation.psi", "entityOrientation.theta",
                                     "entityOrientation.phi"], world))
                    for path, w in want.items():
                        v = attr(heap, o, path)
                        r.count("fields")
                        if v is None or has_unk(v):
                            r.ob(False)
                            r.undecide(f"dis_sender: {path}")
                        elif not r.ob(v is w, f"sent {path}"):
                            r.finding("sent", path, f"dis_sender sends {show(v)[:60]} as {path}, not the {w.args[0]} of the conversion", "send", 0, ex[0].file)
    # receiver
    pdus = [c for c in prog.codec_classes() if any(k.op == "cls" and I.rec(k).name == "Pdu" for k in I.mro(c))]
    with prog.isolated():
        ex = example(prog, r, "dis_receiver")
        if ex and "recv" in ex[0].env:
            kind = {}
            for c in list(pdus):
                ph = run_phase(I, "new", lambda: I.getattr_(I.call(c, [], {}, None), "pduType"), dict(ex[1]))
                kind[c] = ph.ret if ph.ok else None
            # the family classes are no PDUs; of two classes with one type number EntityStatePdu is what is decoded
            pdus = [c for c in pdus if kind[c] is not None and (c is espdu or kind[c] is not kind.get(espdu))]
            for c in [NONE] + pdus:
                name = "None" if c is NONE else I.rec(c).name
                asked = []

                def hook(I_, f, args, kwargs):
                    if f is make:
                        I_.bind_params(f, args, kwargs)
                        if c is NONE:
                            return NONE
                        o = I_.call(c, [], {}, None)
                        for path, w in zip(("entityLocation", "entityOrientation"), (world[:3], world[3:])):
                            q = attr(I_.heap, o, path) if c is espdu else None
                            if q is not None and q.op == "ref":
                                rec = I_.heap[q.args[0]]
                                for n, v in zip(WORLD[:3] if path == "entityLocation" else WORLD[3:], w):
                                    rec = rec.set(n, v)
                                I_.put(q, rec)
                        return o
                    if f is back:
                        I_.bind_params(f, args, kwargs)
                        asked.append([I_.res(a) for a in args[1:7]])
                        return tup(local)
                    return None
                with prog.isolated():
                    ph = call(prog, ex[0], ex[1], "recv", hook)
                    what = "recv of an unknown type" if c is NONE else f"recv of {name}"
                    if not settled(r, ph, "dis_receiver", what, ex[0]) or c is not espdu:
                        continue
                    for a in asked:
                        if any(has_unk(x) for x in a):
                            r.ob(False)
                            r.undecide("dis_receiver: the arguments of ecef2llarpy")
                        elif not r.ob(len(a) == 6 and all(x is y for x, y in zip(a, world)), "converts what was received"):
                            r.finding("converted", "ecef2llarpy", f"dis_receiver converts {[show(x)[:30] for x in a]} instead of position and orientation of the PDU",
                                      "recv", 0, ex[0].file)
                    labels(r, I, ph, local, ex[0])
    # demonstration
    with prog.isolated():
        ex = example(prog, r, "dis_dead_reckoning")
        if ex and "run_demo" in ex[0].env:
            settled(r, call(prog, ex[0], ex[1], "run_demo", None), "dis_dead_reckoning", "run_demo", ex[0])
    for n in ("dis_sender", "dis_receiver", "dis_dead_reckoning"):
        I.modules.pop("examples." + n, None)
    return r


def labels(r, I, ph, local, m):
    """Each converted value is printed after its own name."""
    seen = 0
    for e in ph.trace:
        if e[0] != "ext" or e[1] != "print":
            continue
        said = ""
        for a in e[2]:
            for p in parts(I.res(a)):
                if isinstance(p, str):
                    said += p.lower()
                    continue
                for w, n in zip(local, SHOWN):
                    if any(x is w for x in subterms(p)):
                        seen += 1
                        named = max((said.rfind(k), k) for k in SHOWN)
                        r.count("labels")
                        if named[0] >= 0 and not r.ob(named[1] == n, f"{n} shown as {named[1]}"):
                            r.finding("label", f"dis_receiver.{named[1]}", f"dis_receiver shows the {n} as {named[1]}", "recv", e[3], m.file)
    if not seen:
        r.ob(False)
        r.undecide("dis_receiver: what it prints is not recognised")
