"""What parse() does with foreign input: framing, boundedness, truncation."""
from __future__ import annotations

from . import check
from .codec_checks import PRE
from ..codec import Align, ObjRec, ListRec, run_phase, has_unk, walk_events
from ..interp import PathRaise
from ..interp2 import lin
from ..report import Result
from ..terms import *
from .. import terms as tm


# ------------------------------------------------------------------- framing
def fetch(evs, code, off):
    """The integer decoded from the bytes at constant offset `off` of a
    read-event list; None if a variable-size read comes first."""
    pos = 0
    n = tm.code_size(code)
    got = []
    for e in evs:
        if e[0] == "assume":
            continue
        if e[0] != "rd":
            return None
        c = e[2]
        ln = c.args[1]
        if not is_int(ln):
            return None
        if pos <= off and off + n <= pos + ln.args[0]:
            return tm.unpack_(code, c, off - pos)
        pos += ln.args[0]
        if pos > off:
            # the field is assembled from several reads
            got.append((c, pos - ln.args[0]))
            return None
    return None


def consumed(evs):
    s = ZERO
    for e in evs:
        if e[0] == "rd":
            s = tm.bin_("+", s, e[2].args[1])
        elif e[0] == "loop":
            b = consumed(e[3])
            s = tm.bin_("+", s, tm.bin_("*", e[2], b) if is_const(b) else mk("sum", e[1], e[2], b))
        elif e[0] == "if":
            s = tm.bin_("+", s, tm.ite(e[1], consumed(e[2]), consumed(e[3])))
    return s


class Cases:
    """Linear forms of a size term, by case analysis over its gates and the
    residue of one length field."""

    def __init__(self, I, facts, L=None, mod=1, res=None, zero=False):
        self.I, self.facts = I, dict(facts)
        self.L, self.mod, self.res, self.zero = L, mod, res, zero
        self.n = 0

    def cond(self, c, facts):
        old = self.I.facts
        self.I.facts = facts
        try:
            return self.I.simp(c)
        finally:
            self.I.facts = old

    def run(self, t, facts=None, depth=0):
        """[(facts, linear form)]"""
        facts = dict(self.facts) if facts is None else facts
        g = self.gate(t)
        if g is None:
            self.n += 1
            return [(facts, self.lin(t))]
        c = self.cond(g, facts)
        if c.op == "const":
            return self.run(self.assume(t, g, bool(c.args[0])), facts, depth)
        if depth > 24:
            return [(facts, None)]
        while c.op in ("ite", "not"):
            c = c.args[0]
        out = []
        for v in (True, False):
            f2 = dict(facts)
            f2[c] = v
            out += self.run(t, f2, depth + 1)
        return out

    def gate(self, t):
        """An innermost undecided condition of t."""
        for x in subterms(t):
            if x.op == "ite" and not any(y.op == "ite" for y in subterms(x.args[0])):
                return x.args[0]
        return None

    def assume(self, t, g, v):
        def f(x):
            if x.op == "ite" and x.args[0] is g:
                return rewrite(x.args[1] if v else x.args[2], f)
            return None
        return rewrite(t, f)

    def lin(self, t):
        r = lin(t)
        if r is None:
            return None
        out = {}
        for k, v in r.items():
            for kk, vv in self.atom(k).items():
                out[kk] = out.get(kk, 0) + v * vv
        return {k: v for k, v in out.items() if v}

    def atom(self, k):
        if k == 1:
            return {1: 1}
        q = mk("quot", self.L) if self.L is not None else None
        if self.L is not None and k is self.L:
            if self.zero:
                return {}
            if self.res is not None:
                return {q: self.mod, 1: self.res}
            return {k: 1}
        if k.op == "bin" and k.args[0] in ("//", "%") and is_int(k.args[2]) and k.args[2].args[0] > 0:
            m = k.args[2].args[0]
            a = self.lin(k.args[1])
            if a is not None and all(v % m == 0 for kk, v in a.items() if kk != 1):
                c = a.get(1, 0)
                if k.args[0] == "%":
                    return {1: c % m}
                o = {kk: v // m for kk, v in a.items() if kk != 1}
                o[1] = c // m
                return o
        if k.op == "bin" and k.args[0] in (">>", "&", "<<") and is_int(k.args[2]):
            m = k.args[2].args[0]
            if k.args[0] == ">>":
                return self.atom(tm.mk("bin", "//", k.args[1], const(1 << m)))
            if k.args[0] == "<<":
                return self.lin(tm.bin_("*", k.args[1], const(1 << m))) or {k: 1}
            if m & (m + 1) == 0:
                return self.atom(tm.mk("bin", "%", k.args[1], const(m + 1)))
        if k.op in ("max", "abs") or k.op == "neg":
            return {k: 1}
        if k.op == "bin" and k.args[0] == "*":
            a, b = self.lin(k.args[1]), self.lin(k.args[2])
            if a is not None and b is not None:
                ka, kb = set(a) - {1}, set(b) - {1}
                if not ka:
                    return {x: y * a.get(1, 0) for x, y in b.items()}
                if not kb:
                    return {x: y * b.get(1, 0) for x, y in a.items()}
        if k.op == "int":
            return self.lin(k.args[0]) or {k: 1}
        return {k: 1}


def residue_gates(I, L, mod, res):
    """Facts under which conditions on L % mod are decided."""
    return {}


def sv_loops(evs):
    """Loops whose body starts with a 4-byte and a 2-byte field and goes on
    with a choice on the first."""
    out = []
    for e in evs:
        if e[0] == "loop":
            L = fetch(e[3], "H>", 4)
            ty = fetch(e[3], "I>", 0)
            if L is not None and ty is not None and any(x[0] == "if" and ty in set(subterms(x[1])) for x in e[3]):
                out.append((e, L))
            else:
                out += sv_loops(e[3])
        elif e[0] == "if":
            out += sv_loops(e[2]) + sv_loops(e[3])
    return out


# class -> (offset, code) of the length field, residue modulus, expected total
# consumed bytes for L = mod*q + r as a linear form over {q, 1}, and which
# residues are meaningful
FRAMES = {
    "VariableDatum": (4, "I>", 64, lambda r: (8, 8 + (8 if r else 0)), range(64),
                      "8 bytes of header and the datum padded to a multiple of 64 bits"),
    "IFFData": (4, "H>", 1, lambda r: (1, 0), range(1), "the declared record length"),
    "SignalPdu": (12 + 6 + 2 + 2 + 2 + 4, "H>", 8, lambda r: (1, 32), range(1), "32 bytes and the declared data bits"),
    "IntercomSignalPdu": (12 + 6 + 2 + 2 + 2 + 4, "H>", 8, lambda r: (1, 32), range(1), "32 bytes and the declared data bits"),
}


def skip_sums(t):
    return [x for x in subterms(t) if x.op == "sum"]


@check("C12")
def c12(prog, tier):
    r = Result(PRE + "The bytes parse() consumes are summed as a term over the decoded length fields and brought to linear normal form by "
               "case analysis over its gates (and over the residues of bit lengths). Rule: a record that declares its length "
               "consumes exactly that length in every case that does not raise, whatever its type and whether it is known.")
    I = prog.I
    svc = set()
    for m in prog.all_models():
        if m.obj is None or not m.parse.ok:
            continue
        # standard variable records, wherever a class reads a list of them
        for e, L in sv_loops(m.parse.trace):
            r.count("sv_lists")
            body = consumed(e[3])
            one(r, I, m, m.parse.facts, body, {L: 1}, L, f"{m.name}.sv-record", "a standard variable record")
        fr = FRAMES.get(m.name)
        if fr is not None:
            off, code, mod, exp, residues, text = fr
            L = fetch(m.parse.trace, code, off)
            if L is None:
                r.undecide(f"{m.name}: no {code} field at offset {off}")
                r.ob(False)
            else:
                tot = consumed(m.parse.trace)
                for res in residues:
                    q, c = exp(res)
                    cs = Cases(I, m.parse.facts, L, mod, res)
                    t2 = subst_mod(tot, L, mod, res)
                    forms = cs.run(t2)
                    r.count("length_cases", len(forms))
                    want = {k: v for k, v in ((mk("quot", L), q), (1, c)) if v}
                    okk = judge(r, m, forms, want, f"{m.name}.length", f"{text} (length = {res} mod {mod})")
                    r.ob(okk, f"{m.name}: length = {mod}*q+{res} consumes {q}*q+{c}")
    # standard variable records: a length that is not a multiple of 8 octets is refused
    L = leaf("recordLength", "count")
    sv = prog._find_cls("StandardVariableRecord")
    for m in prog.all_models():
        if sv is None or m.obj is None or sv not in I.mro(m.c) or not m.wants_length():
            continue
        with prog.isolated():
            def go():
                I.assume(tm.cmp_("==", bin_("%", L, const(8)), ZERO), False)
                return I.call(I.getattr_(m.obj, "parse"), [I.call(prog.dis, [I.raw_in()], {}, None), L], {}, None)
            ph = run_phase(I, "parse", go, m.ctor.heap)
            r.count("misaligned_lengths")
            if ph.exc == "analysis":
                r.undecide(f"{m.name}: a length that is not a multiple of 8: {ph.note}")
            elif not r.ob(not ph.ok, f"{m.name}: a length that is not a multiple of 8 is refused"):
                r.finding("misaligned", m.name, f"{m.name}.parse accepts a record length that is not a multiple of 8 octets", f"{m.name}.parse", m.line, m.file)
    # the two length fields of the transmitter PDU
    for m in prog.all_models():
        if m.name != "TransmitterPdu" or m.obj is None or not m.parse.ok:
            continue
        A, M = fetch(m.parse.trace, "H>", 70), fetch(m.parse.trace, "B", 100)
        if A is None or M is None:
            r.undecide("TransmitterPdu: length fields not found")
            r.ob(False)
            continue
        tot = consumed(m.parse.trace)
        sums = skip_sums(tot)
        for za in (False, True):
            for zm in (False, True):
                facts = dict(m.parse.facts)
                t2 = tot
                for L, z in ((A, za), (M, zm)):
                    if z:
                        t2 = rewrite(t2, lambda x, L=L: ZERO if x is L else None)
                    else:
                        facts[tm.truthy(L)] = True
                        facts[tm.cmp_(">", L, ZERO)] = True
                forms = Cases(I, facts).run(drop_sums(t2))
                want = {1: 104}
                if not za:
                    want[A] = 1
                if not zm:
                    want[M] = 1
                r.count("length_cases", len(forms))
                ok = judge(r, m, forms, want, "TransmitterPdu.lengths", "the declared modulation parameters and antenna pattern lengths")
                r.ob(ok, f"TransmitterPdu: 104{'' if zm else ' + modulation'}{'' if za else ' + antenna'} bytes and the SV records")
    negative_sizes(prog, r)
    return r


def negative_sizes(prog, r):
    """A record stating less than its own header leaves a negative number of bytes to read: the stream methods taking
    a size must refuse it, or the whole rest of the datagram is taken."""
    I = prog.I
    for k in I.mro(prog.dis):
        for n, f in sorted(I.rec(k).ns.items()) if k.op == "cls" else []:
            if f.op != "func" or n.startswith("_"):
                continue
            fn = I.func(f)
            a = fn.node.args
            if len(a.posonlyargs + a.args) - 1 - len(a.defaults) != 1:
                continue
            log = []

            def run():
                o = I.call(prog.dis, [I.raw_in()], {}, None)
                I.trace = []
                I.assume(tm.cmp_("<", leaf("arg0", "int"), ZERO), True)
                return I.call(I.getattr_(o, n), [leaf("arg0", "int")], {}, None)
            I.read_hook = lambda o, size, line: log.append(size)
            with prog.isolated():
                try:
                    ph = run_phase(I, fn.qual, run)
                finally:
                    I.read_hook = None
            r.count("negative_sizes")
            if ph.ok and unsure(ph):
                r.undecide(f"{fn.qual}: a negative size: depends on an unknown value")
            elif not r.ob(not (ph.ok and any(x.op == "rest" or leaf("arg0", "int") in subterms(x) for x in log if isinstance(x, T))),
                          f"{fn.qual} refuses a negative size"):
                r.finding("negative-size", fn.qual, f"{fn.qual} asked for a negative number of bytes reads everything that is left", fn.qual,
                          fn.node.lineno, fn.module.file)


def drop_sums(t):
    return rewrite(t, lambda x: ZERO if x.op == "sum" else None)


def subst_mod(t, L, mod, res):
    """Decide conditions on L % k for k | mod."""
    if mod == 1:
        return t

    def f(x):
        if x.op == "bin" and x.args[0] == "%" and x.args[1] is L and is_int(x.args[2]) and x.args[2].args[0] and mod % x.args[2].args[0] == 0:
            return const(res % x.args[2].args[0])
        if x.op == "bin" and x.args[0] == "&" and x.args[1] is L and is_int(x.args[2]) and mod % (x.args[2].args[0] + 1) == 0:
            return const(res & x.args[2].args[0])
        if x.op == "bin" and x.args[0] == "%" and x.args[1].op == "neg" and x.args[1].args[0] is L and is_int(x.args[2]) \
                and x.args[2].args[0] and mod % x.args[2].args[0] == 0:
            return const(-res % x.args[2].args[0])
        return None
    return rewrite(t, f)


def one(r, I, m, facts, body, want, L, key, text):
    forms = Cases(I, facts).run(body)
    r.count("length_cases", len(forms))
    ok = judge(r, m, forms, want, key, text)
    r.ob(ok, f"{key}: {len(forms)} record alternatives consume the declared length")


def judge(r, m, forms, want, key, text):
    ok = True
    for facts, f in forms:
        if f == want:
            continue
        if f is None or any(isinstance(k, T) and (has_unk(k) or k.op in ("bin", "sum", "max", "min")) for k in f):
            r.undecide(f"{key}: consumes {pretty(f)}")
            ok = False
            continue
        ok = False
        cond = ", ".join(f"{show(c)}={v}" for c, v in list(facts.items())[-3:])
        r.finding("framing", key, f"parse consumes {pretty(f)} bytes where {text} takes {pretty(want)} (when {cond or 'always'})",
                  m.name + ".parse", m.line, m.file)
    return ok


def pretty(f):
    if f is None:
        return "?"
    out = []
    for k, v in f.items():
        out.append(str(v) if k == 1 else f"{'' if v == 1 else str(v) + '*'}{show(k)}")
    return " + ".join(out) or "0"


# ------------------------------------------------------------- boundedness
def min_read(evs):
    """A lower bound on the bytes an event list consumes."""
    n = 0
    for e in evs:
        if e[0] == "rd":
            ln = e[2].args[1]
            n += ln.args[0] if is_int(ln) else 0
        elif e[0] == "if":
            n += min(min_read(e[2]), min_read(e[3]))
        elif e[0] == "loop" and is_int(e[2]) and e[2].args[0] > 0:
            n += e[2].args[0] * min_read(e[3])
    return n


def sizes_read(evs):
    """Counts of elements and sizes of reads the events have paid for."""
    out = set()
    for e in evs:
        if e[0] == "rd":
            out.add(e[2].args[1])
            out.add(tm.len_(e[2]))
            n = e[2].args[1]        # k * n bytes pay for n items
            if n.op == "bin" and n.args[0] == "*":
                out |= {b for a, b in (n.args[1:], n.args[:0:-1]) if is_int(a) and a.args[0] >= 1}
        elif e[0] == "loop":
            if min_read(e[3]) > 0:
                out.add(e[2])
            out |= sizes_read(e[3])
        elif e[0] == "if":
            out |= sizes_read(e[2]) & sizes_read(e[3])
    return out


def bound(t):
    """An upper bound of an integer term from the widths of wire fields."""
    if is_int(t):
        return int(t.args[0])
    if t.op == "unpack":
        n = tm.code_size(t.args[0])
        return (1 << 8 * n) - 1
    if t.op == "bin":
        op, a, b = t.args
        x, y = bound(a), bound(b)
        if op == "+" and x is not None and y is not None:
            return x + y
        if op == "-" and x is not None and is_int(b):
            return x - b.args[0]
        if op == "-" and x is not None and tm.nonneg(b):
            return x
        if op == "*" and x is not None and y is not None and tm.nonneg(a) and tm.nonneg(b):
            return x * y
        if op == "//" and x is not None and is_int(b) and b.args[0] > 0:
            return x // b.args[0]
        if op == "%" and is_int(b) and b.args[0] > 0:
            return b.args[0] - 1
        if op == "&" and is_int(b):
            return b.args[0]
        if op == ">>" and x is not None:
            return x
        return None
    if t.op == "ite":
        x, y = bound(t.args[1]), bound(t.args[2])
        return None if x is None or y is None else max(x, y)
    if t.op in ("max",):
        bs = [bound(x) for x in t.args if isinstance(x, T)]
        return None if any(b is None for b in bs) else max(bs)
    if t.op in ("min",):
        bs = [b for b in (bound(x) for x in t.args if isinstance(x, T)) if b is not None]
        return min(bs) if bs else None
    if t.op == "bits":
        return 1 << 32
    if t.op == "int":
        return bound(t.args[0])
    return None


LIMIT = 1 << 17


@check("C13")
def c13(prog, tier):
    r = Result(PRE + "Rule: every loop parse() can enter has a trip count computed from fields read before the loop, and either each "
               "iteration consumes at least one byte of input or the count is below 2^17; no loop runs until some stream "
               "condition, and the parse call graph has no recursion.")
    I = prog.I
    bodies = prog.bodies()
    for m in prog.all_models():
        if m.obj is None or not m.parse.ok:
            if m.obj is not None and m.parse.exc == "analysis":
                r.undecide(f"{m.name}: parse {m.parse.note}")
            continue
        r.count("classes")
        seen = 0

        def go(evs, depth=0):
            nonlocal seen
            for e in evs:
                if e[0] == "loop":
                    seen += 1
                    r.count("loops")
                    cnt = e[2]
                    mr = min_read(e[3])
                    b = bound(cnt)
                    where, line = loop_site(e, m)
                    if cnt.op in ("iters", "while", "unk") or has_unk(cnt):
                        ok = mr > 0
                        if not ok:
                            r.finding("unbounded", f"{m.name}:{where}", f"a loop of {where} may run without bound and an iteration may consume nothing",
                                      where, line, m.file)
                    else:
                        ok = mr > 0 or b is not None and b < LIMIT
                        if not ok:
                            if b is None and not all(x.op in ("unpack", "chunk", "const", "bin", "ite", "cmp", "truthy", "not", "idx") for x in subterms(cnt)):
                                r.undecide(f"{m.name}: loop count {show(cnt)}")
                            else:
                                r.finding("unbounded", f"{m.name}:{where}", f"{where} loops {show(cnt)} times (up to {b}) and an iteration may "
                                          f"consume no input", where, line, m.file)
                    r.ob(ok, f"{m.name}: {show(cnt)[:60]} iterations of at least {mr} bytes")
                    go(e[3], depth + 1)
                elif e[0] == "if":
                    go(e[2], depth)
                    go(e[3], depth)
        go(m.parse.trace)
        # loops that read nothing, and storage allocated by size
        for cnt, body, before, where, line in m.parse.work:
            if body or cnt in sizes_read(before):
                continue
            b = bound(cnt)
            r.count("sized_work")
            ok = b is not None and b < LIMIT
            if not ok:
                if b is None and not all(x.op in ("unpack", "chunk", "const", "bin", "ite", "cmp", "truthy", "not", "idx") for x in subterms(cnt)):
                    r.undecide(f"{m.name}: {where} works through {show(cnt)[:80]}")
                elif any(u[0] in ("next", "iter", "iter_unpack") and u[1] == where for u in m.parse.unknowns):
                    r.undecide(f"{m.name}: {where} works through {show(cnt)[:80]} with an iterator that may read")
                else:
                    r.finding("unbounded", f"{m.name}:{where}", f"{where} (line {line}) does work or takes memory for {show(cnt)} items (up to {b}) "
                              f"without having read them", where, line, m.file)
            r.ob(ok, f"{m.name}: {show(cnt)[:60]} items without reading")
        for u in m.parse.unknowns:
            if "recursion" in u[0] or "budget" in u[0] or "while" in u[0]:
                r.finding("unbounded", f"{m.name}:{u[1]}", f"{m.name}.parse: {u[0]} in {u[1]}", u[1], u[2], m.file)
            else:
                r.undecide(f"{m.name}: {u[0]}")
        r.ob(True)
    return r


def loop_site(e, m):
    for x in e[4:]:
        if isinstance(x, str):
            return x, next((y for y in e[4:] if isinstance(y, int)), m.line)
    return m.name + ".parse", m.line


# -------------------------------------------------------------- truncation
@check("C14")
def c14(prog, tier):
    r = Result(PRE + "Every function that reads from the raw stream is found by interpreting all parse methods; each is re-interpreted with a "
               "stream that delivers fewer bytes than requested (every shorter size for fixed reads, a symbolic shorter length "
               "otherwise). Rule: each of them raises.")
    I = prog.I
    I.prims = {}              # judged as they are written
    readers = {}            # function qual -> set of classes
    sizes = {}

    def hook(o, n, line):
        q = reading(I, publics)
        readers.setdefault(q, set()).add(cur[0])
        sizes[q] = sizes.get(q, 0) + 1
        return None
    cur = [None]
    models = list(prog.all_models())
    publics = {(I.func(f).module.name, I.func(f).qual) for k in I.mro(prog.dis) if k.op == "cls"
               for n, f in I.rec(k).ns.items() if f.op == "func" and not n.startswith("_")}
    I.read_hook = hook
    try:
        for m in models:
            if m.obj is None:
                continue
            cur[0] = m
            with prog.isolated():
                m.run_parse(m.ctor.heap, m.obj)
            r.count("parse_methods")
        # primitives nothing uses yet
        prim = {}
        for k in I.mro(prog.dis):
            if k.op == "cls":
                for n, f in I.rec(k).ns.items():
                    if f.op == "func" and not n.startswith("_"):
                        prim.setdefault(n, f)
    finally:
        I.read_hook = None
    done = set()
    for n, f in sorted(prim.items()):
        fn = I.func(f)
        a = fn.node.args
        extra = len(a.posonlyargs + a.args) - 1 - len(a.defaults)
        bad, cases = short_reads(prog, f, extra)
        done.add((fn.module.name, fn.qual))
        r.count("primitives")
        r.count("short_read_cases", cases)
        r.ob(not bad, f"{fn.qual}: {cases} truncated reads rejected")
        for msg, unknown in bad:
            if unknown:
                r.undecide(f"{fn.qual}: {msg}")
            else:
                r.finding("truncation", fn.qual, f"{fn.qual} {msg}", fn.qual, fn.node.lineno, fn.module.file)
    for q, cs in sorted(readers.items()):
        r.count("raw_read_functions")
        if q in done:
            continue
        # a raw read outside the stream class: analyse the classes using it
        for m in sorted((x for x in cs if x is not None), key=lambda x: (x.name, x.file)):
            name = m.name
            bad = short_parse(prog, m, q, publics)
            r.ob(not bad, f"{name}: raw reads of {q[1]} checked")
            for msg, unknown in bad:
                if unknown:
                    r.undecide(f"{q[1]}: {msg}")
                else:
                    r.finding("truncation", f"{q[1]}:{name}", f"{q[1]} {msg} (parsing {name})", q[1], m.line, m.file)
    truncated_factory(prog, r)
    return r


def truncated_factory(prog, r):
    """The factory passes on the exception of a truncated datagram."""
    from .prim_checks import stream_bytes
    I = prog.I
    entry = next((m for n, m in sorted(I.modules.items()) if "getPdu" in m.env and m.env["getPdu"].op == "func"
                  and I.func(m.env["getPdu"]).module is m), None)
    if entry is None:
        return

    def cut(_, f, args, kwargs):
        if getattr(f.node, "name", "") == "parse" and len(args) == 2 and args[0].op == "ref" and isinstance(I.rec(args[0]), ObjRec) \
                and isinstance(I.rec(args[1]), ObjRec) and I.rec(args[1]).cls in set(I.mro(prog.dis)):
            raise PathRaise("struct.error", "the datagram is truncated")
        return None

    def one(fn, arg, what, hook):
        f = I.func(entry.env[fn])
        with prog.isolated():
            I.call_hook = hook
            try:
                ph = run_phase(I, fn, lambda: I.call(entry.env[fn], [arg()], {}, None))
            finally:
                I.call_hook = None
        r.count("factory_truncations")
        if ph.exc == "analysis":
            r.undecide(f"{fn}: {what}: {ph.note}")
        elif ph.ok and ph.ret is not NONE and ph.ret.op not in ("ref", "ite") or ph.ok and (has_unk(ph.ret) or unsure(ph)):
            r.undecide(f"{fn}: {what}: returns {show(ph.ret)}")
        elif not r.ob(not ph.ok, f"{fn}: {what} raises" if "type 1" in what else None):
            r.finding("truncation", f"{fn}", f"{fn} returns {'None' if ph.ret is NONE else 'a PDU'} for {what} instead of raising", fn, f.node.lineno, entry.file)

    def stream(d):
        return I.call(prog.dis, [I.call_ext("io.BytesIO", [d], {}, None)], {}, None)
    for fn, mk_ in (("createPdu", lambda d: d), ("getPdu", stream)):
        if fn not in entry.env or entry.env[fn].op != "func":
            continue
        for k in (1, 2, 25, 72):
            one(fn, lambda: mk_(stream_bytes(k)[1]), f"a datagram of type {k} whose body is cut short", cut)
        for n in range(3):
            one(fn, lambda: mk_(const(bytes(n))), f"a datagram of {n} byte(s)", None)
    fn = "createPduFromFilePath"
    if fn in entry.env and entry.env[fn].op == "func":
        f = I.func(entry.env[fn])
        with prog.isolated():
            I.call_hook = cut
            try:
                ph = run_phase(I, fn, lambda: I.call(entry.env[fn], [leaf("path", "str")], {}, None))
            finally:
                I.call_hook = None
        r.count("factory_truncations")
        if unsure(ph):
            r.undecide(f"{fn}: a truncated file: depends on an unknown value")
        elif ph.ok and ph.ret is not None and any(x.op == "ref" for x in subterms(ph.ret)):
            r.ob(False)
            r.finding("truncation", fn, f"{fn} returns a PDU although its decoding failed on a truncated file", fn, f.node.lineno, entry.file)


def unsure(ph):
    """The outcome depends on a value the analysis does not know."""
    return any(has_unk(k) for k in ph.facts if isinstance(k, T)) or ph.ret is not None and has_unk(ph.ret) or \
        any(e[0] == "seek" and any(isinstance(x, T) and has_unk(x) for x in e[2]) for e in ph.trace)


def flag(v):
    """Whether the outcome at hand has seen the end of the stream."""
    return ObjRec(mk("intr", "cut"), {"hit": v}, "cut")


def ended(I, mark):
    """Nothing follows a short read."""
    return const(b"") if I.heap[mark.args[0]].attrs.get("hit") is tm.TRUE else None


def short_reads(prog, f, extra):
    """Interpret a reader with its j-th raw read cut short."""
    I = prog.I
    bad = []
    cases = 0
    fn = I.func(f)
    with prog.isolated():
        log = []

        def go(hook):
            def run():
                o = I.call(prog.dis, [I.raw_in()], {}, None)
                I.trace = []
                I.assume(tm.cmp_("<", leaf("arg0", "int"), ZERO), False)
                return I.call(I.getattr_(o, fn.node.name), [leaf(f"arg{i}", "int") for i in range(extra)], {}, None)
            I.read_hook = hook
            try:
                return run_phase(I, fn.qual, run)
            finally:
                I.read_hook = None

        def probe(o, n, line):
            log.append(n)
            return None
        mark = I.alloc(flag(tm.FALSE))
        ph = go(probe)
        if not ph.ok and ph.exc == "analysis":
            return [(f"could not be analysed: {ph.note}", True)], 0
        total = len(log)
        for j in range(total):
            n = log[j]
            ks = list(range(n.args[0])) if is_int(n) else ["sym"]
            if is_int(n) and n.args[0] < 0 or n.op == "rest":
                bad.append(("reads to the end of the stream", False))
                continue
            for k in ks:
                cases += 1
                c = [0]
                hit = [None]
                I.heap[mark.args[0]] = flag(tm.FALSE)

                def cut(o, nn, line, j=j, k=k):
                    i = c[0]
                    c[0] += 1
                    if i != j:
                        return ended(I, mark)
                    if hit[0] is None:
                        hit[0] = I.raising_loops
                    I.heap[mark.args[0]] = flag(tm.TRUE)
                    if k == "sym":
                        s = leaf(f"got{j}", "uint")
                        I.assume(tm.cmp_("<", s, nn), True)
                        I.assume(tm.cmp_("==", s, nn), False)
                        I.assume(tm.cmp_(">", nn, ZERO), True)
                        return I.new_chunk(s)
                    return I.new_chunk(const(k))
                ph = go(cut)
                if ph.ok and hit[0] is not None and (I.raising_loops > hit[0] or I.heap[mark.args[0]].attrs.get("hit") is tm.FALSE):
                    continue
                if ph.ok and unsure(ph):
                    bad.append(("truncated read: depends on an unknown value", True))
                elif ph.ok:
                    msg = f"accepts {'a truncated read' if k == 'sym' else str(k) + ' of ' + str(n.args[0]) + ' bytes'}"
                    bad.append((msg, False))
                elif ph.exc == "analysis":
                    bad.append((f"truncated read: {ph.note}", True))
    return bad[:3], cases


def reading(I, publics):
    """The function a raw read belongs to: the public stream primitive it is part of, else the innermost function."""
    qs = [(fr.module.name, fr.func.qual if fr.func is not None else fr.module.name) for fr in reversed(I.frames)]
    return next((q for q in qs if q in publics), qs[0])


def short_parse(prog, m, q, publics):
    I = prog.I
    bad = []
    with prog.isolated():
        log = []

        def here():
            return reading(I, publics) == q

        def probe(o, n, line):
            if here():
                log.append(n)
            return None
        I.read_hook = probe
        mark = I.alloc(flag(tm.FALSE))
        try:
            m.run_parse(m.ctor.heap, m.obj)
            for j, n in enumerate(list(log)[:40]):
                c = [0]
                hit = [None]

                def cut(o, nn, line, j=j):
                    if not here():
                        return None
                    i = c[0]
                    c[0] += 1
                    if i != j:
                        return ended(I, mark)
                    hit[0] = I.raising_loops
                    I.heap[mark.args[0]] = flag(tm.TRUE)
                    if is_int(nn):
                        return I.new_chunk(const(max(0, nn.args[0] - 1)))
                    s = leaf(f"got{j}", "uint")
                    I.assume(tm.cmp_("<", s, nn), True)
                    I.assume(tm.cmp_("==", s, nn), False)
                    return I.new_chunk(s)
                I.read_hook = cut
                h = dict(m.ctor.heap)
                h[mark.args[0]] = flag(tm.FALSE)
                ph = m.run_parse(h, m.obj)
                if ph.ok:
                    # a read inside a list loop raises for the summary, and
                    # no outcome that is left has seen the short read
                    if hit[0] is None or I.raising_loops > hit[0] or I.heap[mark.args[0]].attrs.get("hit") is tm.FALSE:
                        continue
                    bad.append(("accepts a truncated read", False))
                elif ph.exc == "analysis":
                    bad.append((ph.note, True))
        finally:
            I.read_hook = None
    return bad[:2]
