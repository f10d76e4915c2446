"""Dead reckoning and coordinate conversions, decided by exact algebra on the
terms the functions return."""
from __future__ import annotations

from fractions import Fraction

from . import check
from .codec_checks import PRE
from ..codec import run_phase, ListRec, has_unk
from ..models import ArrRec, PI
from ..poly import Algebra, Unsupported, cases, padd, pscale, ONE_
from ..report import Result
from ..terms import *


# ------------------------------------------------------------------ formulas
class P:
    """Polynomial with operators, for writing down oracles."""

    def __init__(self, A, p):
        self.A, self.p = A, p

    def w(self, o):
        if isinstance(o, P):
            return o.p
        o = Fraction(repr(o)) if isinstance(o, float) else Fraction(o)
        return {(): o} if o else {}

    def __add__(self, o): return P(self.A, padd(self.p, self.w(o)))
    def __radd__(self, o): return P(self.A, padd(self.p, self.w(o)))
    def __sub__(self, o): return P(self.A, padd(self.p, self.w(o), -1))
    def __rsub__(self, o): return P(self.A, padd(self.w(o), self.p, -1))
    def __mul__(self, o): return P(self.A, self.A.mul(self.p, self.w(o)))
    def __rmul__(self, o): return P(self.A, self.A.mul(self.p, self.w(o)))
    def __truediv__(self, o): return P(self.A, self.A.mul(self.p, self.A.inv(self.w(o))))
    def __rtruediv__(self, o): return P(self.A, self.A.mul(self.w(o), self.A.inv(self.p)))
    def __pow__(self, n): return P(self.A, self.A.power(self.p, n))
    def __neg__(self): return P(self.A, pscale(self.p, -1))


class Math:
    def __init__(self, A):
        self.A = A

    def v(self, t):
        return P(self.A, self.A.of(t))

    def num(self, x):
        return P(self.A, {(): Fraction(repr(x))} if x else {})

    def cos(self, x): return P(self.A, self.A.cos(x.p))
    def sin(self, x): return P(self.A, self.A.sin(x.p))
    def tan(self, x): return self.sin(x) / self.cos(x)
    def sqrt(self, x): return P(self.A, self.A.sqrt(x.p))
    def atan2(self, y, x): return P(self.A, self.A.atan2(y.p, x.p))

    @property
    def pi(self): return self.v(PI)
    def rad(self, d): return d * self.pi / 180
    def deg(self, r): return r * 180 / self.pi


def matmul(a, b):
    return [[sum((a[i][k] * b[k][j] for k in range(1, len(b))), a[i][0] * b[0][j]) for j in range(len(b[0]))] for i in range(len(a))]


def apply_(m, v):
    return [sum((m[i][k] * v[k] for k in range(1, len(v))), m[i][0] * v[0]) for i in range(len(m))]


def transp(m):
    return [list(r) for r in zip(*m)]


def euler(M, psi, theta, phi):
    """Rz(psi) Ry(theta) Rx(phi)"""
    c, s = M.cos, M.sin
    z = M.num(0)
    o = M.num(1)
    rz = [[c(psi), -s(psi), z], [s(psi), c(psi), z], [z, z, o]]
    ry = [[c(theta), z, s(theta)], [z, o, z], [-s(theta), z, c(theta)]]
    rx = [[o, z, z], [z, c(phi), -s(phi)], [z, s(phi), c(phi)]]
    return matmul(rz, matmul(ry, rx))


def ned_rows(M, lat, lon):
    c, s = M.cos, M.sin
    return [[-s(lat) * c(lon), -s(lat) * s(lon), c(lat)], [-s(lon), c(lon), M.num(0)], [-c(lat) * c(lon), -c(lat) * s(lon), -s(lat)]]


WA, WB = 6378137.0, 6356752.3142


def ellipsoid(M):
    """a, e^2 of WGS 84"""
    a, b = M.num(WA), M.num(WB)
    return a, 1 - (b * b) / (a * a)


def to_ecef(M, lat, lon, alt):
    a, e2 = ellipsoid(M)
    n = a / M.sqrt(1 - e2 * M.sin(lat) ** 2)
    return [(n + alt) * M.cos(lat) * M.cos(lon), (n + alt) * M.cos(lat) * M.sin(lon), (n * (1 - e2) + alt) * M.sin(lat)]


# ---------------------------------------------------------------- extraction
def shape(I, t, depth=0):
    """Nested lists of scalar terms of a returned sequence."""
    t = I.res(t)
    if t.op == "ref":
        r = I.rec(t)
        if isinstance(r, ArrRec):
            if len(r.shape) == 1:
                return list(r.data)
            if len(r.shape) == 2:
                n, m = r.shape
                return [list(r.data[i * m:(i + 1) * m]) for i in range(n)]
            if len(r.shape) == 0:
                return r.data[0]
            raise Unsupported("array of three dimensions")
        items = I.seq_items(t)
        if items is None:
            raise Unsupported(show(t))
        return [shape(I, x, depth + 1) for x in items]
    if t.op == "extcall":
        raise Unsupported(show(t))
    return t


def outcomes(I, t, conds=()):
    """[(conditions, nested lists)] over gates between whole results."""
    t = I.res(t)
    if t.op == "ite" and any(x.op in ("ref", "ite") for x in t.args[1:]):
        return outcomes(I, t.args[1], conds + ((t.args[0], True),)) + outcomes(I, t.args[2], conds + ((t.args[0], False),))
    return [(conds, shape(I, t))]


def leaves(x):
    if isinstance(x, list):
        return [y for z in x for y in leaves(z)]
    return [x]


def layout_of(x):
    return [layout_of(y) for y in x] if isinstance(x, list) else 0


class Region:
    """The part of the domain a list of gate conditions selects.  Conditions
    compare one polynomial with a constant; each polynomial gets an interval."""

    def __init__(self, A, conds, pos=()):
        self.A = A
        self.iv = {}        # key of u -> [lo, lo_open, hi, hi_open]
        self.polys = {}
        self.eqs = []       # polynomials that are zero in the region
        self.opaque = []
        self.empty = False
        for c, v in conds:
            self.add(c, v)
        for k, (lo, lo_o, hi, hi_o) in self.iv.items():
            if self.nonneg(self.polys[k]):
                if lo < 0:
                    lo, lo_o = Fraction(0), False
            if lo > hi or lo == hi and (lo_o or hi_o):
                self.empty = True

    def nonneg(self, u):
        if len(u) == 1:
            (m, c), = u.items()
            return c > 0 and self.A.pos_mono(m)
        return False

    def add(self, c, v):
        while c.op == "not":
            c, v = c.args[0], not v
        if c.op == "truthy":
            c, v = mk("cmp", "==", c.args[0], ZERO), not v
        if c.op == "const":
            if bool(c.args[0]) != v:
                self.empty = True
            return
        if c.op != "cmp":
            self.opaque.append((c, v))
            return
        op, a, b = c.args
        try:
            d = padd(self.A.of(a), self.A.of(b), -1)
        except Unsupported:
            self.opaque.append((c, v))
            return
        if not v:
            op = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}.get(op)
        if op is None:
            self.opaque.append((c, v))
            return
        k = d.pop((), Fraction(0))      # d + k  op  0
        if not d:
            ok = {"<": k < 0, "<=": k <= 0, ">": k > 0, ">=": k >= 0, "==": k == 0, "!=": k != 0}[op]
            if not ok:
                self.empty = True
            return
        lead = d[max(d)]
        if lead < 0:
            op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        u, t = pscale(d, 1 / lead), -k / lead       # u op t
        key = self.A.key(u)
        self.polys[key] = u
        lo, lo_o, hi, hi_o = self.iv.get(key, (Fraction(-10 ** 30), False, Fraction(10 ** 30), False))
        if op in ("<", "<="):
            if t < hi or t == hi and op == "<":
                hi, hi_o = t, op == "<"
        elif op in (">", ">="):
            if t > lo or t == lo and op == ">":
                lo, lo_o = t, op == ">"
        elif op == "==":
            if t < lo or t > hi:
                self.empty = True
            lo, lo_o, hi, hi_o = t, False, t, False
            self.eqs.append(padd(u, {(): t} if t else {}, -1))
        self.iv[key] = (lo, lo_o, hi, hi_o)

    def bound(self, u):
        """Interval of polynomial u in the region, scaled like add() does."""
        lead = u[max(u)]
        iv = self.iv.get(self.A.key(pscale(u, 1 / lead)))
        return iv


class Geo:
    def __init__(self, prog, module):
        self.prog, self.I = prog, prog.I
        self.mod = self.I.modules.get(module)
        self.gps = None
        self.opaque = {}
        self.heap = self.I.heap

    def instance(self, cname="GPS"):
        I = self.I
        g = self.mod.env.get(cname) if self.mod else None
        if g is None:
            return None
        ph = run_phase(I, cname, lambda: I.call(g, [], {}, None), I.heap)
        if not ph.ok:
            return None
        self.heap = ph.heap
        return ph.ret

    def call(self, name, mkargs, obj=None, hook=None, heap=None):
        """Phase of calling a module function or a method of obj."""
        I = self.I

        def go():
            args = mkargs()
            if obj is not None:
                f = I.getattr_(obj, name)
            else:
                f = self.mod.env.get(name)
                if f is None:
                    from ..interp import PathRaise
                    raise PathRaise("NameError", name)
            self.args = args
            return I.call(f, args, {}, None)
        old = I.call_hook
        I.call_hook = hook
        try:
            return run_phase(I, name, go, heap if heap is not None else self.heap)
        finally:
            I.call_hook = old

    def seq(self, items, kind="tuple"):
        if kind == "float array":
            return self.I.alloc(ArrRec((len(items),), list(items)))
        if kind == "array":
            return self.I.alloc(ArrRec((len(items),), list(items), dt="?"))
        return self.I.alloc(ListRec(kind, [("e", x) for x in items]))

    def where(self, name, obj_cls=None):
        """(line, file) of a function."""
        I = self.I
        f = None
        if obj_cls is not None and self.mod:
            c = self.mod.env.get(obj_cls)
            if c is not None:
                f = I.class_lookup(c, name)[0]
        elif self.mod:
            f = self.mod.env.get(name)
        if f is not None and f.op == "func":
            return I.func(f).node.lineno, self.mod.file
        return 0, self.mod.file if self.mod else ""


def symbols(*names):
    return [leaf(n, "f64") for n in names]


LOOPY = ("loopval", "last", "carry", "whilecount", "unk")


def compare(r, A, name, ret, want, I, where, what, regular=None, angles=(), at_lock=None):
    """Obligation: the returned structure equals `want` (nested lists of P, or
    a function of the region giving one) in every case.  Returns True/False,
    None if undecided."""
    line, file = where

    def bad(msg, construct):
        r.ob(False)
        r.finding("formula", construct, msg, name, line, file)
        return False
    try:
        outs = outcomes(I, ret)
    except Unsupported as e:
        r.undecide(f"{name}: {what}: {e}")
        r.ob(False)
        return None
    verdict = True
    for conds, st in outs:
        lv = leaves(st)
        if any(has_op(x, *LOOPY) for x in lv):
            r.undecide(f"{name}: {what}: depends on a construct the algebra does not model")
            r.ob(False)
            verdict = None
            continue
        try:
            cs = cases(lv, 64, list(conds))
        except Unsupported as e:
            r.undecide(f"{name}: {what}: {e}")
            r.ob(False)
            verdict = None
            continue
        for cc, ts in cs:
            reg = Region(A, cc)
            if reg.empty:
                continue
            if regular is not None:
                k = regular(reg)
                if k is False:
                    r.count("excluded_cases")
                    if at_lock is None:
                        continue
            locked = regular is not None and k is False
            w = at_lock if locked else want
            if layout_of(st) != layout_of(w):
                return bad(f"{what}: the result has the shape {layout_of(st)} instead of {layout_of(w)}", f"{name}.shape")
            for i, (t, x) in enumerate(zip(ts, leaves(w))):
                if x is None:
                    continue
                try:
                    p = A.of(t)
                    q = x.p
                    if regular is not None and at_lock is not None and not locked and regular.reaches(reg) and regular.divides(p):
                        bad(f"{what}: component {i} divides by cos(pitch), which this case does not keep away from 0", f"{name}.lock[{i}]")
                        verdict = False
                        continue
                    for e in reg.eqs:
                        p, q = subst_zero(A, p, e), subst_zero(A, q, e)
                    ok = A.same_angle(p, q) if i in angles or angles == "all" else A.same(p, q)
                except Unsupported as e:
                    if not reg.opaque and (t is NONE or t.op in ("func", "cls", "builtin") or is_const(t) and isinstance(t.args[0], (str, bytes))):
                        verdict = bad(f"{what}: component {i} is {show(t)[:40]}, not a number", f"{name}[{i}]")
                        continue
                    r.undecide(f"{name}: {what}: component {i}: {e}")
                    r.ob(False)
                    verdict = None
                    continue
                r.count("components")
                if ok:
                    r.ob(True, f"{name}: {what} component {i}" if len(r.samples) < 12 else None)
                    continue
                if reg.opaque:
                    r.undecide(f"{name}: {what}: component {i} under the condition {show(reg.opaque[0][0])[:80]}")
                    r.ob(False)
                    verdict = None
                    continue
                cond = ", ".join(("" if v else "not ") + show(c)[:60] for c, v in cc)
                bad(f"{what}: component {i} is {A.show(p, 5)[:260]} instead of {A.show(q, 5)[:260]}" + (f" when {cond}" if cond else ""),
                    f"{name}[{i}]")
                verdict = False
    return verdict


def subst_zero(A, p, e):
    """p with the atom u eliminated, where e = u - t is zero (u a single atom)."""
    if not isinstance(e, dict):
        return p
    ms = [m for m in e if m]
    if len(ms) != 1 or len(ms[0]) != 1 or ms[0][0][1] != 1:
        return p
    a = ms[0][0][0]
    val = pscale({(): e.get((), Fraction(0))} if e.get(()) else {}, -1)
    r = {}
    for m, c in p.items():
        d = dict(m)
        k = d.pop(a, 0)
        if k < 0 and not val:
            raise Unsupported("division by zero in a special case")
        t = A.mul({tuple(sorted(d.items())): c}, A.power(val, k) if k else ONE_) if k else {m: c}
        r = padd(r, t)
    return r


# ------------------------------------------------------------- dead reckoning
#            name        args                          rotating, body, accelerated
MODELS = [("drm_static", "po", False, False, False), ("drm_fpw", "pvto", False, False, False), ("drm_rpw", "pvtow", True, False, False),
          ("drm_rvw", "pvatow", True, False, True), ("drm_fvw", "pvato", False, False, True), ("drm_fpb", "pvto", False, True, False),
          ("drm_rpb", "pvtow", True, True, False), ("drm_rvb", "pvatow", True, True, True), ("drm_fvb", "pvato", False, True, True)]
NAMES = {"p": "position", "v": "velocity", "a": "acceleration", "o": "orientation", "w": "angular_velocity"}
VEC = {k: [leaf(f"{n}[{i}]", "f64") for i in range(3)] for k, n in NAMES.items()}
DT = leaf("dt", "f64")
GIMBAL = Fraction(1, 10 ** 4)


def dr_args(g, sig, kind):
    out = []
    for k in sig:
        out.append(DT if k == "t" else g.seq(VEC[k], kind))
    return out


def gimbal(A, M):
    """region -> False if it lies inside the gimbal-lock neighbourhood |cos(theta)| < 1e-4."""
    c = M.cos(M.v(VEC["o"][1]))
    absc = A.of(mk("fn", "fabs", mk("fn", "cos", VEC["o"][1])))
    sq = (c * c).p
    s = M.sin(M.v(VEC["o"][1]))

    def f(reg):
        for u, t in ((absc, GIMBAL), (sq, GIMBAL ** 2)):
            iv = reg.bound(u)
            if iv is not None and iv[2] <= t:
                return False
        iv = reg.bound(c.p)
        if iv is not None and -GIMBAL <= iv[0] and iv[2] <= GIMBAL:
            return False
        return True

    def reaches(reg):
        """cos(pitch) = 0 lies in the region"""
        for u in (absc, sq):
            iv = reg.bound(u)
            if iv is not None and iv[0] > 0:
                return False
        iv = reg.bound(c.p)
        return iv is None or iv[0] <= 0 <= iv[2]

    at = next(iter(c.p))[0][0]

    def divides(p):
        return any(dict(m).get(at, 0) < 0 for m in p)
    f.reaches, f.divides = reaches, divides
    return f


@check("C18")
def c18(prog, tier):
    r = Result(PRE + "Each dead reckoning function is interpreted on symbolic vectors (given as list, tuple and array); the returned terms become "
               "polynomials over sines and cosines. Rule: they are identical to the formulas of the model (world/body, fixed/rotating, "
               "velocity/acceleration), Euler rates included; where |cos(pitch)| < 1e-4 may be treated apart, heading is held and nothing is divided by it.")
    g = Geo(prog, "opendis.DeadReckoning")
    I = prog.I
    if g.mod is None:
        r.undecide("module opendis.DeadReckoning is gone")
        return r
    A = Algebra()
    M = Math(A)
    vec = {k: [M.v(x) for x in v] for k, v in VEC.items()}
    dt = M.v(DT)
    psi, theta, phi = vec["o"]
    wx, wy, wz = vec["w"]
    R = euler(M, psi, theta, phi)
    rate = [(wy * M.sin(phi) + wz * M.cos(phi)) / M.cos(theta), wy * M.cos(phi) - wz * M.sin(phi),
            wx + (wy * M.sin(phi) + wz * M.cos(phi)) * M.tan(theta)]
    held = [psi, theta + (wy * M.cos(phi) - wz * M.sin(phi)) * dt, phi + wx * dt]
    for name, sig, rot, body, accel in MODELS:
        d = [M.num(0)] * 3
        if "v" in sig:
            d = [v * dt for v in vec["v"]]
        if accel:
            d = [x + a * dt * dt / 2 for x, a in zip(d, vec["a"])]
        if body:
            d = apply_(R, d)
        want = [[p + x for p, x in zip(vec["p"], d)], [o + k * dt for o, k in zip(vec["o"], rate)] if rot else list(vec["o"])]
        for kind in ("list", "tuple", "array"):
            with prog.isolated():
                ph = g.call(name, lambda: dr_args(g, sig, kind))
                r.count("functions")
                if not settle(r, ph, name, g):
                    continue
                lock = [want[0], held] if rot else None
                compare(r, A, name, ph.ret, want, I, g.where(name), f"{name} of {kind}s", gimbal(A, M) if rot else None, at_lock=lock)
    with prog.isolated():
        ph = g.call("get_rotation_matrix", lambda: list(VEC["o"]))
        if settle(r, ph, "get_rotation_matrix", g):
            compare(r, A, "get_rotation_matrix", ph.ret, R, I, g.where("get_rotation_matrix"), "body to world matrix")
    with prog.isolated():
        ph = g.call("get_angular_velocity_matrix", lambda: [g.seq(VEC["w"], "array")])
        z = M.num(0)
        if settle(r, ph, "get_angular_velocity_matrix", g):
            compare(r, A, "get_angular_velocity_matrix", ph.ret, [[z, -wz, wy], [wz, z, -wx], [-wy, wx, z]], I,
                    g.where("get_angular_velocity_matrix"), "skew matrix")
    return r


def settle(r, ph, name, g, cls=None):
    line, file = g.where(name, cls)
    if ph.ok:
        for p in ph.problems:
            if not p.handled:
                r.ob(False)
                r.finding("raises", f"{name}.{p.kind}", f"{name} can fail: {p.msg}", name, p.line or line, file)
                return False
        return True
    r.ob(False)
    if ph.exc == "analysis" or ph.unknowns and ph.exc is None:
        r.undecide(f"{name}: {ph.note}")
    else:
        r.finding("raises", name, f"{name} always raises {ph.exc} ({ph.note})", name, line, file)
    return False


@check("C19")
def c19(prog, tier):
    r = Result(PRE + "Each dead reckoning function is interpreted on vectors held in caller-owned arrays and lists. Rule: afterwards every one of "
               "them (and every module-level object) has its old contents, and no array reachable from the result is one of them or shares "
               "storage with one.")
    g = Geo(prog, "opendis.DeadReckoning")
    I = prog.I
    if g.mod is None:
        r.undecide("module opendis.DeadReckoning is gone")
        return r
    todo = [(n, s) for n, s, *_ in MODELS] + [("get_angular_velocity_matrix", "w")]
    for name, sig in todo:
        for kind in ("array", "float array", "list"):
            with prog.isolated():
                before = dict(g.heap)
                ph = g.call(name, lambda: dr_args(g, sig, kind))
                line, file = g.where(name)
                if not ph.ok:
                    r.undecide(f"{name}: {ph.exc} {ph.note}")
                    continue
                r.count("calls")
                ins = {a: k for a, k in zip(g.args, sig) if a.op == "ref"}
                ok = True
                for a, k in ins.items():
                    rec = ph.heap.get(a.args[0])
                    now = list(rec.data) if isinstance(rec, ArrRec) else [s[1] for s in rec.segs if s[0] == "e"]
                    r.count("inputs")
                    if len(now) != 3 or any(x is not y for x, y in zip(now, VEC[k])):
                        ok = False
                        r.finding("input-changed", f"{name}.{NAMES[k]}", f"{name} changes its argument {NAMES[k]} in place ({kind}): it becomes "
                                  f"[{', '.join(show(x)[:40] for x in now)}]", name, line, file)
                for oid, rec in before.items():
                    if ph.heap.get(oid) is not rec and not same_rec(ph.heap.get(oid), rec):
                        ok = False
                        r.finding("state", f"{name}.module", f"{name} changes an object that outlives the call", name, line, file)
                        break
                out = set()
                reach_arrays(I, ph.heap, ph.ret, out)
                owners = {a.args[0]: k for a, k in ins.items()}
                for oid in out:
                    rec = ph.heap[oid]
                    org = (getattr(rec, "base", None) or (None,))[0]
                    if oid in owners or org in owners:
                        ok = False
                        r.finding("alias", f"{name}.{NAMES[owners.get(oid, owners.get(org))]}", f"the result of {name} is, or is a view of, the caller's "
                                  f"{NAMES[owners.get(oid, owners.get(org))]} {kind}: changing the result changes the argument", name, line, file)
                    elif oid in before:
                        ok = False
                        r.finding("alias", f"{name}.module", f"the result of {name} is an object that outlives the call", name, line, file)
                    r.count("result_objects")
                r.ob(ok, f"{name} on {kind}s")
    return r


def reach_arrays(I, heap, t, out):
    if not isinstance(t, T):
        return
    for s in subterms(t):
        if s.op == "ref" and s.args[0] not in out:
            out.add(s.args[0])
            rec = heap.get(s.args[0])
            if isinstance(rec, ArrRec):
                continue
            for sg in getattr(rec, "segs", ()) or ():
                if sg[0] == "e":
                    reach_arrays(I, heap, sg[1], out)


# ------------------------------------------------------------- coordinates
LAT, LON, ALT = symbols("lat", "lon", "alt")
OLAT, OLON, OALT = symbols("origin.lat", "origin.lon", "origin.alt")
XYZ = symbols("x", "y", "z")
OXYZ = symbols("x0", "y0", "z0")
NED = symbols("north", "east", "down")
RPY = symbols("roll", "pitch", "yaw")
EUL = symbols("psi", "theta", "phi")


def opaque_geodetic(g, cls="GPS"):
    """call_hook: GPS.ecef2lla(point) -> (lat, lon, alt) symbols of that point."""
    I = g.I
    c = g.mod.env.get(cls)
    target = I.class_lookup(c, "ecef2lla")[0] if c is not None else None
    target = I.func(target) if target is not None and target.op == "func" else None
    table = {tuple(XYZ): (LAT, LON, ALT), tuple(OXYZ): (OLAT, OLON, OALT)}
    table.update({tuple(primed(x) for x in k): tuple(primed(x) for x in v) for k, v in list(table.items())})
    seen, tols = [], []

    def hook(I_, f, args, kwargs):
        if target is None or f is not target:
            return None
        pt = args[-1] if not kwargs else args[1]
        if len(args) < 2:
            pt = kwargs.get("ecef", args[-1])
        else:
            pt = args[1]
        items = I.seq_items(pt)
        k = tuple(items[:3]) if items is not None else None
        seen.append(k)
        tols.extend(list(args[2:3]) + [v for n, v in kwargs.items() if n != "ecef"])
        if k in table:
            return I.alloc(ListRec("tuple", [("e", x) for x in table[k]]))
        return I.unk("geodetic coordinates of another point")
    hook.seen, hook.tols = seen, tols
    return hook


def geo_setup(prog, r):
    g = Geo(prog, "opendis.RangeCoordinates")
    if g.mod is None:
        r.undecide("module opendis.RangeCoordinates is gone")
        return None
    g.gps = g.instance()
    if g.gps is None:
        r.undecide("GPS() cannot be constructed")
        r.ob(False)
        return None
    return g


def primed(t):
    """The same value made of other inputs: leaf x becomes leaf x'."""
    if not isinstance(t, T):
        return t
    return rewrite(t, lambda x: leaf(x.args[0] + "'", *x.args[1:]) if x.op == "leaf" else None)


def primed_rec(rec):
    if isinstance(rec, ArrRec):
        return ArrRec(rec.shape, [primed(x) for x in rec.data], rec.origin, rec.base, rec.dt)
    if isinstance(rec, ListRec) and all(sg[0] == "e" for sg in rec.segs):
        return rec.with_segs([("e", primed(sg[1])) for sg in rec.segs])
    return rec


def method(prog, r, g, A, name, mkargs, want, what, angles=(), regular=None):
    I = g.I
    line, file = g.where(name, "GPS")
    before = dict(g.heap)
    with prog.isolated():
        given = {}

        def first():
            args = mkargs()
            given.update({a.args[0]: I.heap[a.args[0]] for a in args if isinstance(a, T) and a.op == "ref" and a.args[0] in I.heap})
            return args
        ph = g.call(name, first, obj=g.gps, hook=opaque_geodetic(g), heap=dict(g.heap))
        r.count("functions")
        if not settle(r, ph, name, g, "GPS"):
            return False
        res = compare(r, A, name, ph.ret, want, I, (line, file), what, angles=angles, regular=regular)
        if given:
            kept = all(same_rec(ph.heap.get(o), rec) for o, rec in given.items())
            r.ob(kept)
            if not kept:
                r.finding("input-changed", f"{name}.args", f"{name} changes a sequence it is given ({what})", name, line, file)
        if all(ph.heap.get(o) is rec or same_rec(ph.heap.get(o), rec) for o, rec in before.items()):
            return res
    with prog.isolated():       # the call leaves something behind: ask again, other numbers in the same objects
        ph = again(g, name, mkargs, opaque_geodetic(g))
        r.count("repeated")
        if not settle(r, ph, name, g, "GPS"):
            return False
        return compare(r, A, name, ph.ret, want, I, (line, file), f"{what}, on an object used before", angles=angles, regular=regular) and res


def again(g, name, mkargs, hook):
    """Phase of a call that follows one on the same objects holding other numbers."""
    I = g.I

    def go():
        args = mkargs()
        other, orig = [], {}
        for a in args:
            rec = I.heap.get(a.args[0]) if isinstance(a, T) and a.op == "ref" else None
            if isinstance(rec, (ListRec, ArrRec)):
                q = primed_rec(rec)
                if isinstance(rec, ListRec) and rec.kind == "tuple":
                    other.append(I.alloc(q))
                    continue
                orig[a.args[0]] = rec
                I.heap[a.args[0]] = q
                other.append(a)
            else:
                other.append(primed(a))
        I.call(I.getattr_(g.gps, name), other, {}, None)
        for o, rec in orig.items():
            I.heap[o] = rec
        return args
    ph = g.call(name, go, obj=g.gps, hook=hook, heap=dict(g.heap))
    if ph.ok:
        I.heap = ph.heap
        ph.ret = merge_points(I, ph.ret)
        ph.heap = I.heap
    return ph


def merge_points(I, t):
    """Where a branch is taken because an earlier number equals one of this
    call, they are the same number in it (done in place in the result's records)."""
    memo = {}

    def go(x, same):
        if x.op == "ref":
            rec = I.rec(x)
            if (x, same) not in memo:
                memo[x, same] = 1
                if isinstance(rec, ArrRec):
                    I.put(x, ArrRec(rec.shape, [go(y, same) for y in rec.data], rec.origin, rec.base, rec.dt))
                elif isinstance(rec, ListRec):
                    I.put(x, rec.with_segs([("e", go(sg[1], same)) if sg[0] == "e" else sg for sg in rec.segs]))
            return x
        if not earlier(x) and not has_op(x, "ref"):
            return x
        if (x, same) in memo:
            return memo[x, same]
        r = None
        for p, q in same:
            if x is q:
                r = p
        if r is None:
            if x.op == "ite":
                c = x.args[0]
                s2 = geodetic_too(same + tuple(equalities(c))) if same_point(c, True) else same
                s3 = geodetic_too(same + tuple(equalities(c))) if same_point(c, False) else same
                r = ite(go(c, same), go(x.args[1], s2), go(x.args[2], s3))
            else:
                na = tuple(go(y, same) if isinstance(y, T) else y for y in x.args)
                r = x if all(p is q for p, q in zip(na, x.args)) else rebuild(x.op, na)
        memo[x, same] = r
        return r
    return go(t, ())


def geodetic_too(same):
    """One point has one geodetic solution."""
    for pt, sol in ((XYZ, (LAT, LON, ALT)), (OXYZ, (OLAT, OLON, OALT))):
        if all((x, primed(x)) in same for x in pt):
            same += tuple((x, primed(x)) for x in sol)
    return same


def equalities(c):
    """Pairs (this call's value, the earlier one) a condition relates."""
    if c.op in ("not", "and", "or", "ite"):
        for x in c.args:
            yield from equalities(x)
    elif c.op == "cmp":
        a, b = c.args[1:3]
        while isinstance(a, T) and isinstance(b, T) and a.op == b.op == "float":
            a, b = a.args[0], b.args[0]
        if isinstance(a, T) and isinstance(b, T):
            if primed(a) is b:
                yield a, b
            elif primed(b) is a:
                yield b, a


def reuse(prog, r, g, name, mkargs):
    """A result depends on earlier calls at most where their points are found equal."""
    I = g.I
    line, file = g.where(name, "GPS")
    before = dict(g.heap)
    hook = (lambda: None) if name == "ecef2lla" else (lambda: opaque_geodetic(g))
    with prog.isolated():
        ph = g.call(name, mkargs, obj=g.gps, hook=hook(), heap=dict(g.heap))
        if not ph.ok or all(same_rec(ph.heap.get(o), rec) for o, rec in before.items()):
            return
    with prog.isolated():
        ph = again(g, name, mkargs, hook())
        r.count("repeated")
        if not settle(r, ph, name, g, "GPS"):
            return
        t = stale(I, ph.ret)
        r.ob(t is None)
        if t is not None:
            r.finding("history", name, f"{name} on an object used before gives a result made of the earlier call's point: {show(t)[:80]}", name, line, file)


def earlier(t):
    return any(s.op == "leaf" and s.args[0].endswith("'") for s in subterms(t))


def same_point(c, v):
    """Whether condition c having value v says an earlier point equals this one."""
    if c.op == "not":
        return same_point(c.args[0], not v)
    if c.op in ("and", "or"):
        return v == (c.op == "and") and all(same_point(x, v) for x in c.args)
    if c.op == "ite":
        return v and c.args[2] is FALSE and all(same_point(x, v) for x in c.args[:2])
    if c.op == "cmp" and c.args[0] in ("==", "!="):
        return v == (c.args[0] == "==")
    if c.op in ("==", "!="):
        return v == (c.op == "==")
    return False


def stale(I, t, seen=None):
    """A part of a result that is made of the earlier call's numbers."""
    if not isinstance(t, T):
        return None
    seen = set() if seen is None else seen
    if t in seen:
        return None
    seen.add(t)
    if t.op == "leaf":
        return t if t.args[0].endswith("'") else None
    if t.op == "ref":
        rec = I.rec(t)
        vals = rec.data if isinstance(rec, ArrRec) else [x[1] for x in rec.segs if x[0] == "e"] if isinstance(rec, ListRec) else []
        return next((q for q in (stale(I, x, seen) for x in vals) if q is not None), None)
    args = t.args
    if t.op == "ite" and earlier(t.args[0]):
        if not same_point(t.args[0], True) and not same_point(t.args[0], False):
            return t.args[0]
        args = t.args[1:]       # what was equal has been merged: nothing earlier may be left
    for x in args:
        q = stale(I, x, seen)
        if q is not None:
            return q
    return None


def same_rec(a, b):
    if a is b:
        return True
    if a is None or type(a) is not type(b):
        return False
    return all(getattr(a, k) == getattr(b, k) for k in type(a).__slots__ if k != "origin")


def nonzero(A, polys):
    """region -> False where one of the given polynomials is zero."""
    def f(reg):
        for p in polys:
            q = p
            for e in reg.eqs:
                try:
                    q = subst_zero(A, q, e)
                except Unsupported:
                    return None
            if not q:
                return False
        return True
    f.reaches = lambda reg: False
    f.divides = lambda p: False
    return f


@check("C20")
def c20(prog, tier):
    r = Result(PRE + "The conversion functions are interpreted on symbolic points (the geodetic solution ecef2lla is an uninterpreted function here). "
               "Rule: what they return is, as an exact algebraic identity, the WGS 84 closed form and the rotation of the local "
               "north-east-down frame at the origin, so that ned2ecef and ecef2ned are inverse to each other; a function that leaves an object changed is "
               "interpreted again after a call with other numbers in the same objects, under the same rule.")
    g = geo_setup(prog, r)
    if g is None:
        return r
    for kind in ("tuple", "list", "array") if tier == "thorough" else ("tuple", "array"):
        A = Algebra()
        M = Math(A)
        s = lambda ts: g.seq(ts, kind)
        lat, lon, alt = [M.v(x) for x in (LAT, LON, ALT)]
        x, o = [M.v(t) for t in XYZ], [M.v(t) for t in OXYZ]
        n = [M.v(t) for t in NED]
        method(prog, r, g, A, "lla2ecef", lambda: [s([LAT, LON, ALT])], to_ecef(M, M.rad(lat), M.rad(lon), alt), f"geodetic to ECEF ({kind})")
        R = ned_rows(M, M.rad(M.v(OLAT)), M.rad(M.v(OLON)))
        d = [a - b for a, b in zip(x, o)]
        method(prog, r, g, A, "ecef2ned", lambda: [s(XYZ), s(OXYZ)], apply_(R, d), f"ECEF to local frame ({kind})")
        back = [a + b for a, b in zip(apply_(transp(R), n), o)]
        method(prog, r, g, A, "ned2ecef", lambda: [s(NED), s(OXYZ)], back, f"local frame to ECEF ({kind})")

        def pae(v):
            h = M.sqrt(v[0] ** 2 + v[1] ** 2)
            return [M.sqrt(v[0] ** 2 + v[1] ** 2 + v[2] ** 2), M.deg(M.atan2(v[1], v[0])), M.deg(M.atan2(-v[2], h))]
        method(prog, r, g, A, "ned2pae", lambda: [s(NED)], pae(n), f"range, azimuth, elevation ({kind})", angles=(1, 2))
        method(prog, r, g, A, "ecef2pae", lambda: [s(XYZ), s(OXYZ)], pae(apply_(R, d)), f"ECEF to range, azimuth, elevation ({kind})", angles=(1, 2))
        e = to_ecef(M, M.rad(lat), M.rad(lon), alt)
        method(prog, r, g, A, "lla2gcc", lambda: [s([LAT, LON, ALT])], e, f"geocentric, no origin ({kind})")
        e0 = to_ecef(M, M.rad(M.num(-15.5)), M.rad(M.num(40.25)), M.num(120.0))
        for org in ("40.25 -15.5 120.0", "  40.25\t-15.5   +120 ") if kind == "tuple" else ("4.025e1 -15.5 120.0",):
            method(prog, r, g, A, "lla2gcc", lambda: [s([LAT, LON, ALT]), const(org)], [a - b for a, b in zip(e, e0)],
                   f"geocentric, with origin {org!r} ({kind})")
    A = Algebra()
    M = Math(A)
    method(prog, r, g, A, "ecefvec2nedvec", lambda: [LAT, LON], ned_rows(M, M.v(LAT), M.v(LON)), "local frame unit vectors")
    th, p, q = symbols("angle", "axis_elevation", "axis_azimuth")
    fn = lambda n, x: mk("fn", n, x)
    ax = [bin_("*", fn("cos", p), fn("cos", q)), bin_("*", fn("cos", p), fn("sin", q)), fn("sin", p)]  # every unit vector
    u = [M.v(t) for t in ax]
    c, sn = M.cos(M.v(th)), M.sin(M.v(th))
    z = M.num(0)
    K = [[z, -u[2], u[1]], [u[2], z, -u[0]], [-u[1], u[0], z]]
    rod = [[(1 - c) * u[i] * u[j] + (c if i == j else z) + sn * K[i][j] for j in range(3)] for i in range(3)]
    method(prog, r, g, A, "rotate_3x3", lambda: [th, g.seq(ax, "array")], rod, "rotation about an axis")
    return r


@check("C21")
def c21(prog, tier):
    r = Result(PRE + "llarpy2ecef and ecef2llarpy are interpreted on symbolic attitudes; their Euler angles are normalised as atan2 directions over "
               "polynomials in sines and cosines. Rule: they are the Euler angles of NED(lat,lon)^T Rz(yaw)Ry(pitch)Rx(roll), and of "
               "NED(lat,lon) Rz(psi)Ry(theta)Rx(phi), so each undoes the other; latitudes, longitudes are radians and the position is the WGS 84 one.")
    g = geo_setup(prog, r)
    if g is None:
        return r
    A = Algebra()
    M = Math(A)
    lat, lon, alt = [M.v(x) for x in (LAT, LON, ALT)]
    roll, pitch, yaw = [M.v(x) for x in RPY]

    def angles(B):
        h = M.sqrt(B[0][0] ** 2 + B[1][0] ** 2)
        return [M.atan2(B[1][0], B[0][0]), M.atan2(-B[2][0], h), M.atan2(B[2][1], B[2][2])]
    B = matmul(transp(ned_rows(M, lat, lon)), euler(M, yaw, pitch, roll))
    want = to_ecef(M, lat, lon, alt) + angles(B)
    method(prog, r, g, A, "llarpy2ecef", lambda: [LAT, LON, ALT] + list(RPY), want, "attitude to DIS Euler angles", angles=(3, 4, 5))
    A = Algebra()
    M = Math(A)
    psi, theta, phi = [M.v(x) for x in EUL]
    la, lo = M.rad(M.v(LAT)), M.rad(M.v(LON))
    C = matmul(ned_rows(M, la, lo), euler(M, psi, theta, phi))
    y, p, ro = angles(C)
    method(prog, r, g, A, "ecef2llarpy", lambda: list(XYZ) + list(EUL), [la, lo, M.v(ALT), ro, p, y], "DIS Euler angles to attitude", angles=(3, 4, 5))
    return r


# ------------------------------------------------------- geodetic solution
class Fixpoint:
    """Values of the variables carried around an iteration at the true geodetic
    coordinates: x = W cos(lat) cos(lon), y = W cos(lat) sin(lon),
    z = (W - e^2 N) sin(lat), W = N + h."""

    def __init__(self, I):
        self.I = I
        A = self.A = Algebra()
        A.divide = True
        M = self.M = Math(A)
        fi, la, w = symbols("latitude", "longitude", "axis distance")
        self.fi, self.la, W = M.v(fi), M.v(la), M.v(w)
        A.principal, A.full = [self.fi.p], [self.la.p]
        c, s = M.cos(self.fi), M.sin(self.fi)
        A.weights[next(iter(W.p))[0][0]] = 6.4e6
        A.positive |= {next(iter(W.p))[0][0], next(iter(c.p))[0][0]}
        a, e2 = ellipsoid(M)
        N = a / M.sqrt(1 - e2 * s ** 2)
        self.alt = W - N
        x, y, z = W * c * M.cos(self.la), W * c * M.sin(self.la), (W - e2 * N) * s
        for t, v in zip(XYZ, (x, y, z)):
            A.memo[t] = v.p
        zero = M.num(0)
        one = M.num(1)
        b = M.num(WB)
        beta_t = s * b / (c * a)        # tan of the parametric latitude
        self.cands = [q.p for q in (self.fi, W - N, N, W, s, c, s / c, M.deg(self.fi), N * s, e2 * N * s, s ** 2, c ** 2, N * (1 - e2), W * c,
                                    M.sqrt(1 - e2 * s ** 2), z + e2 * N * s, N * s + (W - N) * s, zero, one, beta_t, 1 - e2 * N / W,
                                    (W - e2 * N) * s)]
        self.spans = [(self.fi, -1.58, 1.58), (N, 6378136.0, 6399600.0), (s, -1.0, 1.0), (c, 0.0, 1.0)]
        self.base = dict(A.memo)

    def strip(self, t):
        return rewrite(t, lambda x: self.strip(x.args[2]) if x.op in ("last", "loopval") and isinstance(x.args[2], T) else None)

    def ev(self, t, sigma):
        A = self.A
        A.memo = dict(self.base)
        A.memo.update(sigma)
        return A.of(t)

    def carries(self, ts):
        return {x for t in ts for x in subterms(t) if x.op == "carry"}

    def span(self, t, sigma):
        """Interval of a term at the solution, over all points outside the
        Earth's deep interior."""
        if t.op == "const" and isinstance(t.args[0], (int, float)):
            return t.args[0], t.args[0]
        if t.op == "bin" and t.args[0] in "+-*":
            (a, b), (c, d) = self.span(t.args[1], sigma), self.span(t.args[2], sigma)
            if t.args[0] == "+":
                return a + c, b + d
            if t.args[0] == "-":
                return a - d, b - c
            v = (a * c, a * d, b * c, b * d)
            return min(v), max(v)
        v = self.ev(t, sigma)
        if set(v) <= {()}:
            return (float(v.get((), 0)),) * 2
        for q, lo, hi in self.spans:
            if self.A.same(v, q.p):
                return lo, hi
        raise Unsupported("range of " + show(t)[:80])

    def solve(self, outs, good):
        """An assignment of the carried variables that the loop body maps to
        itself and for which good(outputs); None if there is none among the
        candidates.  Raises Unsupported when the loop is not understood."""
        outs = [self.strip(t) for t in outs]
        body = {}
        todo = list(self.carries(outs))
        while todo:
            c = todo.pop()
            if c in body:
                continue
            m = self.I.wmap.get(c.args[0], {})
            if c not in m:
                raise Unsupported(f"carried value {show(c)}")
            body[c] = self.strip(m[c][1])
            todo += self.carries([body[c]])
        ks = list(body)
        res = []
        for conds, ts in cases(outs + [body[k] for k in ks], 16):
            need = self.carries(ts[:len(outs)])
            cut = dict(zip(ks, ts[len(outs):]))
            while True:
                more = self.carries([cut[k] for k in need]) | need
                if more == need:
                    break
                need = more
            try:
                sg = self.solve_case(ts[:len(outs)], {k: cut[k] for k in need}, good)
            except Unsupported as e:
                if len(conds) == 0:
                    raise
                sg = e
            res.append((conds, sg))
        ok = next((sg for _, sg in res if isinstance(sg, dict)), None)
        if ok is None:
            e = next((sg for _, sg in res if isinstance(sg, Unsupported)), None)
            if e is not None:
                raise e
            return None
        for conds, sg in res:
            if isinstance(sg, dict):
                continue
            # this branch misses the solution: does it apply there?
            live = True
            for c, v in conds:
                h = self.holds(c, ok)
                if h is None:
                    raise Unsupported("gate in the iteration: " + show(c)[:100])
                live = live and (h == "either" or h == v)
            if live:
                return None
        return ok

    def holds(self, c, sigma):
        """Truth of a gate at the solution: True, False, 'either' (depends on
        the altitude), None if not known."""
        if c.op == "not":
            h = self.holds(c.args[0], sigma)
            return h if h in (None, "either") else not h
        if c.op != "cmp" or c.args[0] not in ("<", "<=", ">", ">="):
            return None
        try:
            d = self.ev(bin_("-", c.args[1], c.args[2]), sigma)
        except Unsupported:
            return None
        if set(d) <= {()}:
            v = d.get((), 0)
            return {"<": v < 0, "<=": v <= 0, ">": v > 0, ">=": v >= 0}[c.args[0]]
        h = self.alt.p
        for lead in h:
            if lead in d:
                k = d[lead] / h[lead]
                # altitudes above -10 km occur on both sides of a bound in sight
                rest = padd(d, pscale(h, k), -1)
                rest = {m: x for m, x in rest.items() if abs(x) > Fraction(1, 10 ** 9) * abs(k)}
                if set(rest) <= {()} and -10000 < float(-rest.get((), 0) / k) < 1e9:
                    return "either"
        return None

    def solve_case(self, outs, body, good):
        if len(body) > 6:
            raise Unsupported("too many carried values")
        deps = {c: self.carries([b]) for c, b in body.items()}
        order = sorted(body, key=lambda c: repr(c.args[1:]))
        last, missed = [None], [False]

        def go(sigma, guesses):
            # forced values
            sigma = dict(sigma)
            grew = True
            while grew:
                grew = False
                for c in order:
                    if c not in sigma and deps[c] <= set(sigma):
                        try:
                            sigma[c] = self.ev(body[c], sigma)
                        except Unsupported as e:
                            last[0] = e
                            return None
                        grew = True
            for c in order:
                if c in sigma and deps[c] <= set(sigma):
                    try:
                        if not self.A.same(self.ev(body[c], sigma), sigma[c]):
                            missed[0] = True
                            return None
                    except Unsupported as e:
                        last[0] = e
                        return None
            rest = [c for c in order if c not in sigma]
            if not rest:
                try:
                    if good([self.ev(t, sigma) for t in outs]):
                        return sigma
                    missed[0] = True
                    return None
                except Unsupported as e:
                    last[0] = e
                    return None
            if guesses == 0:
                return None
            for v in self.cands:
                r = go({**sigma, rest[0]: v}, guesses - 1)
                if r is not None:
                    return r
            return None
        r = go({}, 3)
        if r is None and not missed[0] and last[0] is not None:
            raise last[0]
        return r


def closed_value(t):
    """Constant value of a comparison between constants (infinities included)."""
    import math

    def go(x):
        if x.op == "const" and isinstance(x.args[0], (int, float)):
            return x.args[0]
        if x.op == "bin" and x.args[0] in "+-*":
            a, b = go(x.args[1]), go(x.args[2])
            return a + b if x.args[0] == "+" else a - b if x.args[0] == "-" else a * b
        if x.op == "neg":
            return -go(x.args[0])
        if x.op == "fn" and x.args[0] in ("fabs", "abs"):
            return math.fabs(go(x.args[1]))
        if x.op == "cmp" and x.args[0] in ("<", "<=", ">", ">="):
            a, b = go(x.args[1]), go(x.args[2])
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[x.args[0]]
        raise Unsupported(show(x))
    try:
        return const(go(t))
    except Unsupported:
        return None


def stopping(I, lid, F, sigma, tol_limit):
    """None if the loop goes on until consecutive iterates agree to within the
    limit, else a description; Unsupported if the condition is not understood."""
    e = I.wentry.get(lid)
    if e is not None and e.op != "const":
        e = closed_value(e)
    if e is None or e.op != "const":
        raise Unsupported("entry of the iteration " + show(I.wentry.get(lid) or NONE)[:80])
    if e.args[0] is not True:
        return "the iteration is never entered"
    c = I.wconds.get(lid)
    if c is None:
        raise Unsupported("iteration without a condition")
    parts = []

    def conj(c):
        if c.op == "ite" and c.args[2].op == "const" and c.args[2].args[0] is False:
            conj(c.args[0])
            conj(c.args[1])
        else:
            parts.append(c)
    conj(c)
    tols = []
    for c in parts:
        if c.op == "not" and c.args[0].op == "cmp":
            flip = {"<": ">=", "<=": ">", ">": "<=", ">=": "<"}
            op, a, b = c.args[0].args
            if op not in flip:
                raise Unsupported(show(c)[:100])
            c = cmp_(flip[op], a, b)
        if c.op != "cmp" or c.args[0] not in ("<", "<=", ">", ">="):
            raise Unsupported("condition " + show(c)[:100])
        op, a, b = c.args
        if op in ("<", "<="):
            a, b = b, a
        # goes on while a > b
        if a.op == "carry" and a in I.wmap.get(lid, {}):
            a = F.strip(I.wmap[lid][a][1])
        if b.op != "const" or not isinstance(b.args[0], (int, float)):
            lo, hi = F.span(F.strip(b), sigma)
            if lo > tol_limit:
                return f"the iteration stops as soon as consecutive values differ by less than {show(b)[:120]}, which is at least {lo:.3g}"
            if not 0 < lo <= hi <= tol_limit:
                raise Unsupported("condition " + show(c)[:100])
            b = const(hi)
        if not (a.op == "fn" and a.args[0] in ("fabs", "abs")):
            raise Unsupported("condition " + show(c)[:100])
        tols.append((a.args[1], b.args[0]))
    if len(tols) != 1:
        raise Unsupported("condition of the iteration")
    d, tol = tols[0]
    if tol > tol_limit:
        return f"the iteration stops as soon as consecutive values differ by less than {tol}"
    if tol <= 0:
        return f"the iteration goes on until consecutive values differ by {tol}: it may never stop"
    sg = dict(sigma)
    m = I.wmap.get(lid, {})
    for _ in range(4):
        for k in F.carries([d]):
            if k not in sg and k in m and F.carries([F.strip(m[k][1])]) <= set(sg):
                sg[k] = F.ev(F.strip(m[k][1]), sg)
    if not F.carries([d]) <= set(sg):
        raise Unsupported("condition of the iteration")
    if F.ev(F.strip(d), sg):
        if not F.A.same(F.ev(F.strip(d), sg), {}):
            return "the iteration does not stop at the geodetic solution"
    if not F.carries([d]):
        return "the iteration stops irrespective of its values"
    return None


@check("C23")
def c23(prog, tier):
    r = Result(PRE + "ecef2lla is interpreted on a symbolic point; its iteration is summarised as a map on the variables carried around the loop. Rule: with "
               "x, y, z written in terms of the true geodetic coordinates, those coordinates are a fixed point of the map (exact algebra), "
               "the values returned there are exactly latitude, longitude and altitude, the loop runs until consecutive iterates agree within 1e-7, "
               "and the poles are special-cased to latitude +-90 and the altitude above the semiminor axis.")
    g = geo_setup(prog, r)
    if g is None:
        return r
    I = prog.I
    line, file = g.where("ecef2lla", "GPS")
    x, y, z = XYZ
    for kind in ("tuple", "list", "array") if tier == "thorough" else ("tuple", "array"):
        with prog.isolated():
            ph = g.call("ecef2lla", lambda: [g.seq(XYZ, kind)], obj=g.gps)
            r.count("functions")
            if not settle(r, ph, "ecef2lla", g, "GPS"):
                continue
            try:
                outs = outcomes(I, ph.ret)
            except Unsupported as e:
                r.undecide(f"ecef2lla: {e}")
                r.ob(False)
                continue
            flat = []
            for conds, st in outs:
                if layout_of(st) != [0, 0, 0]:
                    r.ob(False)
                    r.finding("shape", "ecef2lla", f"ecef2lla returns {layout_of(st)} instead of (latitude, longitude, altitude)", "ecef2lla", line, file)
                    continue
                flat.append((conds, st))
            for conds, vals in flat:
                where = axis_case(conds)
                r.count("outcomes")
                if where == "off" and not any(t in XYZ for t in subterms(vals[0])):
                    r.ob(False)
                    r.finding("offaxis", "ecef2lla", "ecef2lla returns the pole for points that are not on the polar axis", "ecef2lla", line, file)
                elif where in (None, "off"):
                    r.undecide(f"ecef2lla: outcome under {[(show(c)[:60], v) for c, v in conds]}")
                    r.ob(False)
                elif where in ("north", "south"):
                    pole(r, I, vals, where, line, file)
                elif where in ("general", "near"):
                    general(r, I, vals, kind, line, file)
    for kind in ("tuple", "array"):
        reuse(prog, r, g, "ecef2lla", lambda: [g.seq(XYZ, kind)])
    # the centre has no geodetic coordinates
    for zero in (const(0.0), const(0), const(-0.0)):
        with prog.isolated():
            ph = g.call("ecef2lla", lambda: [g.seq([zero] * 3, "tuple")], obj=g.gps)
            r.count("centre")
            if not ph.ok:
                if ph.exc == "analysis":
                    r.undecide(f"ecef2lla at the centre: {ph.note}")
                r.ob(ph.exc != "analysis", "the centre is refused")
                continue
            vals = I.seq_items(ph.ret) if ph.ret.op == "ref" else None
            if vals is None or any(has_unk(v) or has_op(v, *LOOPY) for v in vals):
                r.undecide(f"ecef2lla at the centre: {show(ph.ret)[:80]}")
                r.ob(False)
                continue
            r.ob(False)
            r.finding("centre", "ecef2lla", f"ecef2lla gives the coordinates {[show(v) for v in vals]} for the centre of the Earth instead of refusing it",
                      "ecef2lla", line, file)
            break
    # the converters that start from a geodetic solution ask for a tight one
    for name, mk_ in (("ecef2ned", lambda: [g.seq(XYZ), g.seq(OXYZ)]), ("ned2ecef", lambda: [g.seq(NED), g.seq(OXYZ)]),
                      ("ecef2pae", lambda: [g.seq(XYZ), g.seq(OXYZ)]), ("ecef2utm", lambda: [g.seq(XYZ)]),
                      ("ecef2llarpy", lambda: list(XYZ) + symbols("psi", "theta", "phi"))):
        with prog.isolated():
            hk = opaque_geodetic(g)
            ph = g.call(name, mk_, obj=g.gps, hook=hk, heap=dict(g.heap))
            r.count("callers")
            ln, fl = g.where(name, "GPS")
            if not ph.ok:
                r.undecide(f"{name}: {ph.note}")
                r.ob(False)
                continue
            loose = [t for t in hk.tols if not (t.op == "const" and isinstance(t.args[0], (int, float)) and 0 < t.args[0] <= 1e-7)]
            if not r.ob(not loose, f"{name} solves for the geodetic position within 1e-7 rad"):
                r.finding("tolerance", name, f"{name} asks ecef2lla for a tolerance of {show(loose[0])}", name, ln, fl)
    return r


def axis_case(conds):
    """north/south/centre/general from the branch conditions on x, y and z;
    'near' for a whole neighbourhood of the polar axis."""
    x, y, z = XYZ
    p2 = {}
    zero_x = zero_y = nz = None
    zs = None
    near = False
    for c, v in conds:
        if c.op == "not":
            c, v = c.args[0], not v
        if c.op == "truthy":
            c, v = cmp_("==", c.args[0], const(0)), not v
        if c.op != "cmp":
            return None
        op, a, b = c.args
        if a.op == "const" and b.op != "const":
            op, a, b = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op), b, a
        if not (b.op == "const" and isinstance(b.args[0], (int, float))):
            return None
        if not v:
            op = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}[op]
        if b.args[0] != 0:
            # a disc or slab about the axis; within a millimetre of it counts as on it
            k = distance(a)
            if k is None or b.args[0] < 0 or op in ("==", "!="):
                return None
            if op in (">", ">="):
                nz = True
            elif b.args[0] <= 1e-3 ** k:
                zero_x = zero_y = True
            else:
                near = True
            continue
        vs = {t for t in subterms(a) if t in (x, y, z)}
        if a is z:
            if op in (">", ">="):
                zs = "north"
            elif op in ("<", "<="):
                zs = zs or "south"
            elif op == "==":
                zs = "centre"
        elif a is x and op in ("==", "!="):
            zero_x = op == "=="
        elif a is y and op in ("==", "!="):
            zero_y = op == "=="
        elif vs == {x, y}:
            # the distance from the axis, in any form that vanishes on it only
            if distance(a) is None:
                return None
            if op in ("==", "<="):
                zero_x = zero_y = True
            elif op in ("!=", ">"):
                nz = True
            else:
                return None
        else:
            return None
    if zero_x and zero_y:
        return zs
    if near:
        return "near"
    if nz or zero_x is False or zero_y is False:
        return "general"
    if not conds:
        return "general"
    return "off"


def distance(t):
    """2 if t is the squared distance from the polar axis, 1 if it is the distance."""
    A = Algebra()
    M = Math(A)
    x, y, _ = XYZ
    try:
        p = A.of(t)
        rho = M.v(x) ** 2 + M.v(y) ** 2
        return 2 if A.same(p, rho.p) else 1 if A.same(p, M.sqrt(rho).p) else None
    except Unsupported:
        return None


def pole(r, I, vals, where, line, file):
    A = Algebra()
    M = Math(A)
    z = M.v(XYZ[2])
    lat, lon, alt = vals
    if alt.op == "round":
        alt = alt.args[0] if alt.args[1].op == "const" and isinstance(alt.args[1].args[0], int) and alt.args[1].args[0] >= 2 else alt
    s = 1 if where == "north" else -1
    for what, t, w in (("latitude", lat, M.num(90) * s), ("altitude", alt, z * s - M.num(WB))):
        try:
            ok = A.same(A.of(t), w.p)
        except Unsupported as e:
            r.undecide(f"ecef2lla: {what} on the axis: {e}")
            r.ob(False)
            continue
        if not r.ob(ok, f"ecef2lla: {what} at the {where} pole"):
            r.finding("pole", f"ecef2lla.{where}.{what}", f"ecef2lla: the {what} on the {where} polar axis is {show(t)[:80]}, not {'90' if s > 0 else '-90'}"
                      if what == "latitude" else f"ecef2lla: the altitude on the {where} polar axis is {show(t)[:80]}, not |z| - {WB}", "ecef2lla", line, file)
    ok = lon.op == "const" and isinstance(lon.args[0], (int, float)) and -180 <= lon.args[0] <= 180 or lon.op == "bin"
    if not r.ob(ok):
        r.finding("pole", f"ecef2lla.{where}.longitude", f"ecef2lla: the longitude on the {where} polar axis is {show(lon)[:60]}", "ecef2lla", line, file)


def general(r, I, vals, kind, line, file):
    F = Fixpoint(I)
    A, M = F.A, F.M
    want = [M.deg(F.fi).p, M.deg(F.la).p, F.alt.p]
    names = ("latitude", "longitude", "altitude")
    try:
        try:
            okl = A.same(F.ev(F.strip(vals[1]), {}), want[1])
        except Unsupported as e:
            if F.carries([vals[1]]):
                raise
            raise
        if not r.ob(okl, f"ecef2lla: longitude ({kind})"):
            r.finding("longitude", "ecef2lla", f"ecef2lla: the longitude is {A.show(F.ev(F.strip(vals[1]), {}), 3)[:160]}, not the angle of (x, y)",
                      "ecef2lla", line, file)
        lids = {x.args[0] for v in vals for x in subterms(v) if x.op == "carry"}
        if not lids:
            d = [F.ev(v, {}) for v in (vals[0], vals[2])]
            if A.same(d[0], want[0]) and A.same(d[1], want[2]):
                r.ob(True, f"ecef2lla: closed form ({kind})")
            elif not any(x.op in ("last", "loopval", "unk") for v in vals for x in subterms(v)) and not any(t in XYZ for t in subterms(vals[0])):
                r.ob(False)
                r.finding("fixpoint", "ecef2lla.latitude", "ecef2lla: the latitude does not depend on the point", "ecef2lla", line, file)
            else:
                raise Unsupported("a closed form that is not algebraically the geodetic solution")
            return
        sig = F.solve([vals[0], vals[2]], lambda o: A.same(o[0], want[0]) and A.same(o[1], want[2]))
        if not r.ob(sig is not None, f"ecef2lla: the geodetic latitude and altitude are a fixed point of the iteration ({kind})"):
            part = F.solve([vals[0]], lambda o: A.same(o[0], want[0]))
            msg = "the geodetic latitude is not a fixed point of the iteration" if part is None else \
                "at its fixed point the iteration does not give the geodetic altitude"
            r.finding("fixpoint", "ecef2lla." + ("latitude" if part is None else "altitude"), f"ecef2lla: {msg}", "ecef2lla", line, file)
            return
        for lid in sorted(lids):
            bad = stopping(I, lid, F, sig, 1e-7)
            if not r.ob(bad is None, f"ecef2lla: stopping rule ({kind})"):
                r.finding("stopping", "ecef2lla", f"ecef2lla: {bad}", "ecef2lla", line, file)
    except Unsupported as e:
        r.undecide(f"ecef2lla: {e}")
        r.ob(False)


@check("C24")
def c24(prog, tier):
    r = Result(PRE + "Rule: the angle helpers multiply by pi/180 and 180/pi, the distance helper is the Euclidean norm (of the difference), and each "
               "published constant of the WGS84 class, read as an exact rational, is the published number; surface gravity is the documented formula.")
    g = geo_setup(prog, r)
    if g is None:
        return r
    I = prog.I
    A = Algebra()
    M = Math(A)
    for name, want in (("deg2rad", M.rad(M.v(LAT))), ("rad2deg", M.deg(M.v(LAT)))):
        with prog.isolated():
            ph = g.call(name, lambda: [LAT])
            if settle(r, ph, name, g):
                compare(r, A, name, ph.ret, want, I, g.where(name), "angle conversion")
    for kind in ("tuple", "list", "array"):
        for k in (2, 3):
            d = [M.v(x) for x in XYZ[:k]]
            e = [M.v(x) for x in OXYZ[:k]]
            nm = "euclideanDistance"
            with prog.isolated():
                ph = g.call(nm, lambda: [g.seq(XYZ[:k], kind)])
                if settle(r, ph, nm, g):
                    compare(r, A, nm, ph.ret, M.sqrt(sum((x * x for x in d[1:]), d[0] * d[0])), I, g.where(nm), "norm")
            with prog.isolated():
                ph = g.call(nm, lambda: [g.seq(XYZ[:k], kind), g.seq(OXYZ[:k], kind)])
                if settle(r, ph, nm, g):
                    q = [(x - y) ** 2 for x, y in zip(d, e)]
                    compare(r, A, nm, ph.ret, M.sqrt(sum(q[1:], q[0])), I, g.where(nm), "distance")
    a, e2 = ellipsoid(M)
    b = M.num(WB)
    want = {"a": a, "b": b, "f": (a - b) / a, "e": M.sqrt(e2), "c": M.num(299792458.0), "F": M.num(-4.442807633e-10),
            "mu": M.num(3.986005e14), "omega_ie": M.num(7.2921151467e-5)}
    w = g.mod.env.get("WGS84")
    for n, v in want.items():
        with prog.isolated():
            r.count("constants")
            inst = run_phase(I, "WGS84", lambda: I.getattr_(I.call(w, [], {}, None), n), g.heap) if w is not None else None
            if inst is None or not inst.ok:
                r.ob(False)
                r.finding("constant", f"WGS84.{n}", f"WGS84.{n} cannot be read", "WGS84", 0, g.mod.file)
                continue
            compare(r, A, f"WGS84.{n}", inst.ret, v, I, (I.rec(w).node.lineno, g.mod.file), f"WGS84.{n}")
    for n, v in (("EARTH_SEMI_MAJOR_AXIS", WA), ("EARTH_SEMI_MINOR_AXIS", WB)):
        m = I.modules.get("opendis.DeadReckoning")
        t = m.env.get(n) if m is not None else None
        if t is not None:
            compare(r, A, n, t, M.num(v), I, (0, m.file), n)
    s2 = M.sin(M.v(LAT)) ** 2
    grav = M.num(9.7803267715) * (1 + M.num(0.001931851353) * s2) / M.sqrt(1 - M.num(0.0066943800229) * s2)
    with prog.isolated():
        ph = run_phase(I, "g0", lambda: I.call(I.getattr_(I.call(w, [], {}, None), "g0"), [LAT], {}, None), g.heap)
        if settle(r, ph, "g0", g, "WGS84"):
            compare(r, A, "g0", ph.ret, grav, I, g.where("g0", "WGS84"), "surface gravity")
    return r


# --------------------------------------------------------------------- UTM
INF = Fraction(10 ** 9)


class Piece:
    """A point or an open interval of one variable."""

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    @property
    def point(self):
        return self.lo == self.hi

    def iv(self):
        o = not self.point
        return (self.lo, o, self.hi, o)

    def __repr__(self):
        return f"{float(self.lo):g}" if self.point else f"({float(self.lo):g},{float(self.hi):g})"


def pieces(points, lo, hi):
    ps = sorted({p for p in points if lo <= p <= hi} | {lo, hi})
    out = []
    for a, b in zip(ps, ps[1:]):
        out += [Piece(a, a), Piece(a, b)]
    return out + [Piece(hi, hi)]


class Cells:
    """Decides gates and integer parts of terms on pieces of (lat, lon)."""

    def __init__(self, A, variables):
        self.A = A
        self.vars = {next(iter(A.of(v)))[0][0]: v for v in variables}      # atom -> symbol
        self.memo = {}

    def linear(self, t):
        """(var, slope, offset) of a term linear in one variable, or None."""
        k = self.memo.get(t, 0)
        if k != 0:
            return k
        try:
            p = self.A.of(t)
        except Unsupported:
            p = None
        r = None
        if p is not None:
            ms = [m for m in p if m]
            if not ms:
                r = (None, Fraction(0), p.get((), Fraction(0)))
            elif len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1 and ms[0][0][0] in self.vars:
                r = (self.vars[ms[0][0][0]], p[ms[0]], p.get((), Fraction(0)))
        self.memo[t] = r
        return r

    def breaks(self, ts, lo, hi):
        """{var: points where a gate or integer part of ts may change}"""
        out = {v: set() for v in self.vars.values()}
        seen = set()
        for t in ts:
            for s in subterms(t):
                if s in seen:
                    continue
                seen.add(s)
                if s.op == "cmp":
                    l = self.linear(bin_("-", s.args[1], s.args[2]))
                    if l is not None and l[0] is not None:
                        out[l[0]].add(-l[2] / l[1])
                arg = self.intarg(s)
                if arg is not None:
                    l = self.linear(arg)
                    if l is not None and l[0] is not None:
                        a, b = l[1] * lo + l[2], l[1] * hi + l[2]
                        a, b = min(a, b), max(a, b)
                        if b - a < 2000:
                            from math import floor, ceil
                            for k in range(floor(a), ceil(b) + 1):
                                out[l[0]].add((k - l[2]) / l[1])
        return out

    def intarg(self, s):
        if s.op == "int" and isinstance(s.args[0], T):
            return s.args[0]
        if s.op == "fn" and s.args[0] in ("floor", "trunc", "ceil"):
            return s.args[1]
        if s.op == "bin" and s.args[0] == "//":
            return bin_("/", s.args[1], s.args[2])
        return None

    def interval(self, t, env, memo):
        r = memo.get(t, 0)
        if r != 0:
            return r
        r = self.interval_(t, env, memo)
        memo[t] = r
        return r

    def interval_(self, t, env, memo):
        from math import floor, ceil
        if t.op == "ite":
            return self.interval(self.resolve(t, env, memo), env, memo) if self.decide(t.args[0], env, memo) is not None else None
        a = self.intarg(t)
        if a is not None:
            iv = self.interval(self.resolve(a, env, memo), env, memo)
            if iv is None:
                return None
            lo, lo_o, hi, hi_o = iv
            fl = t.op == "bin" or t.args[0] == "floor"

            def cut(x, up):
                # integer part just inside an open end
                return x
            if t.op == "fn" and t.args[0] == "ceil":
                a_ = floor(lo) + 1 if lo_o else ceil(lo)
                b_ = ceil(hi)
                return (Fraction(a_), False, Fraction(b_), False)
            f1 = floor(lo)
            f2 = ceil(hi) - 1 if hi_o else floor(hi)
            if lo_o is False and hi_o is False and lo == hi:
                f2 = f1
            if not fl:
                # towards zero
                f1 = f1 if lo >= 0 else (-(ceil(-lo) - 1) if lo_o else -floor(-lo))
                f2 = f2 if hi > 0 or hi == 0 and not hi_o else (-floor(-hi) if not (hi_o and hi == int(hi)) else -floor(-hi))
                if hi <= 0 and hi_o and hi == int(hi):
                    f2 = int(hi)
                if hi_o and hi > 0:
                    f2 = ceil(hi) - 1
            return (Fraction(f1), False, Fraction(max(f1, f2)), False)
        if t.op == "minmax":
            ivs = [self.interval(self.resolve(x, env, memo), env, memo) for x in t.args[1:] if isinstance(x, T)]
            if any(v is None for v in ivs):
                return None
            f = min if t.args[0] == "min" else max
            lo, hi = f(v[0] for v in ivs), f(v[2] for v in ivs)
            return (lo, any(v[0] == lo and v[1] for v in ivs), hi, any(v[2] == hi and v[3] for v in ivs))
        if t.op == "bin" and t.args[0] in ("+", "-", "*", "/"):
            x, y = [self.interval(self.resolve(u, env, memo), env, memo) for u in t.args[1:]]
            l = self.linear(t)
            if l is None or l[0] is None:
                if x is None or y is None:
                    return None
                if t.args[0] == "+":
                    return (x[0] + y[0], x[1] or y[1], x[2] + y[2], x[3] or y[3])
                if t.args[0] == "-":
                    return (x[0] - y[2], x[1] or y[3], x[2] - y[0], x[3] or y[1])
                if y[0] == y[2]:
                    k = y[0] if t.args[0] == "*" else (1 / y[0] if y[0] else None)
                    if k is None:
                        return None
                    a_, b_ = (x[0] * k, x[1]), (x[2] * k, x[3])
                    if k < 0:
                        a_, b_ = b_, a_
                    return a_ + b_
                if x[0] == x[2] and t.args[0] == "*":
                    k = x[0]
                    a_, b_ = (y[0] * k, y[1]), (y[2] * k, y[3])
                    if k < 0:
                        a_, b_ = b_, a_
                    return a_ + b_
                return None
        l = self.linear(t)
        if l is None:
            return None
        if l[0] is None:
            return (l[2], False, l[2], False)
        iv = env.get(l[0])
        if iv is None:
            return None
        a_, b_ = (iv[0] * l[1] + l[2], iv[1]), (iv[2] * l[1] + l[2], iv[3])
        if l[1] < 0:
            a_, b_ = b_, a_
        return a_ + b_

    def decide(self, c, env, memo):
        if c.op == "const":
            return bool(c.args[0])
        if c.op == "not":
            v = self.decide(c.args[0], env, memo)
            return None if v is None else not v
        if c.op == "ite":
            v = self.decide(c.args[0], env, memo)
            return None if v is None else self.decide(c.args[1 if v else 2], env, memo)
        if c.op == "truthy":
            iv = self.interval(self.resolve(c.args[0], env, memo), env, memo)
            if iv is None:
                return None
            if iv[0] == iv[2]:
                return iv[0] != 0
            return True if iv[0] > 0 or iv[2] < 0 or iv[0] == 0 and iv[1] or iv[2] == 0 and iv[3] else None
        if c.op != "cmp":
            return None
        op, a, b = c.args
        iv = self.interval(self.resolve(bin_("-", a, b), env, memo), env, memo)
        if iv is None:
            return None
        lo, lo_o, hi, hi_o = iv
        pos = lo > 0 or lo == 0 and lo_o
        neg = hi < 0 or hi == 0 and hi_o
        zero = lo == hi == 0
        nonneg, nonpos = lo >= 0, hi <= 0
        return {"<": True if neg else False if nonneg else None, "<=": True if nonpos else False if pos else None,
                ">": True if pos else False if nonpos else None, ">=": True if nonneg else False if neg else None,
                "==": True if zero else False if pos or neg else None, "!=": False if zero else True if pos or neg else None}.get(op)

    def resolve(self, t, env, memo):
        k = ("r", t)
        r = memo.get(k)
        if r is None:
            r = self.resolve_(t, env, memo)
            memo[k] = r
        return r

    def resolve_(self, t, env, memo):
        if t.op == "ite":
            v = self.decide(t.args[0], env, memo)
            if v is None:
                raise Unsupported("undecided condition " + show(t.args[0])[:100])
            return self.resolve(t.args[1 if v else 2], env, memo)
        if t.op in ("minmax", "int") or self.intarg(t) is not None:
            iv = self.interval(t, env, memo)
            if iv is not None and iv[0] == iv[2] and iv[0].denominator == 1:
                return const(int(iv[0]))
        if t.op == "select":
            i = self.resolve(t.args[1], env, memo)
            if i.op == "const" and isinstance(i.args[0], int):
                seq = t.args[0]
                if isinstance(seq, T) and seq.op == "const" and isinstance(seq.args[0], str) and -len(seq.args[0]) <= i.args[0] < len(seq.args[0]):
                    return const(seq.args[0][i.args[0]])
                if isinstance(seq, tuple) and -len(seq) <= i.args[0] < len(seq) and all(isinstance(x, T) for x in seq):
                    return self.resolve(seq[i.args[0]], env, memo)
            return t
        if t.op in ("bin", "neg", "fn", "fmt", "str", "minmax", "int", "cmp", "float", "mcall", "pad"):
            def go(x):
                if isinstance(x, tuple):
                    return tuple(go(y) for y in x)
                return self.resolve(x, env, memo) if isinstance(x, T) else x
            na = tuple(go(x) for x in t.args)
            if any(p is not q for p, q in zip(na, t.args)):
                from ..terms import rebuild
                return rebuild(t.op, na)
        return t


def const_str(t):
    """Text of a constant string term, else None."""
    if t.op == "const" and isinstance(t.args[0], str):
        return t.args[0]
    if t.op == "const" and (t.args[0] is None or isinstance(t.args[0], int)):
        return str(t.args[0])
    if t.op == "fmt":
        v, sp = t.args
        v = v.args[0] if v.op == "const" else const_str(v)
        if v is None or sp[:1] in ("!", "?"):
            return None
        try:
            return sp % v if sp[:1] == "%" else format(v, sp)
        except (TypeError, ValueError):
            return None
    if t.op == "bin" and t.args[0] == "+":
        ps = [const_str(x) for x in t.args[1:]]
        return None if None in ps else ps[0] + ps[1]
    if t.op == "mcall" and t.args[0] in ("zfill", "upper", "strip") or t.op == "pad":
        o, xs = (t.args[1], t.args[2]) if t.op == "mcall" else (t.args[1], t.args[2:])
        o = const_str(o)
        xs = [x.args[0] for x in xs if isinstance(x, T) and x.op == "const" and x.args[0] is not None]
        try:
            return None if o is None else getattr(o, t.args[0])(*xs)
        except (TypeError, ValueError):
            return None
    if t.op == "str":
        ps = [const_str(x) for x in (t.args[0] if isinstance(t.args[0], tuple) else t.args)]
        return None if any(p is None for p in ps) else "".join(ps)
    return None


LETTERS = "CDEFGHJKLMNPQRSTUVWX"


def utm_letter(lat):
    if lat < -80 or lat > 84:
        return "Z"
    return LETTERS[min(int((lat + 80) // 8), 19)]


def utm_zone(lat, lon):
    """Zone number by the UTM grid definition."""
    z = int((lon + 180) // 6) + 1
    if 56 <= lat < 64 and 3 <= lon < 12:
        z = 32
    if 72 <= lat < 84 and 0 <= lon < 42:
        z = 31 if lon < 9 else 33 if lon < 21 else 35 if lon < 33 else 37
    return z


def mid(p):
    return (p.lo + p.hi) / 2


STD_LAT = {Fraction(k) for k in list(range(-80, 80, 8)) + [84, 56, 64, 72, 0]}
STD_LON = {Fraction(k) for k in list(range(-180, 181, 6)) + [3, 9, 12, 21, 33, 42]}


@check("C22")
def c22(prog, tier):
    r = Result(PRE + "lla2utm is interpreted on a symbolic position. The zone and band gates are decided by interval analysis on the cells between all "
               "points where any of them can change; in every cell the zone and letter must be those of the UTM grid, and the easting, northing and scale "
               "factor must be, as exact algebraic identities, Snyder's series about that zone's central meridian.")
    g = geo_setup(prog, r)
    if g is None:
        return r
    I = prog.I
    A = Algebra()
    M = Math(A)
    lat, lon = M.v(LAT), M.v(LON)
    fi = M.rad(lat)
    A.angles.append(fi.p)
    M.sin(fi), M.cos(fi)
    A.positive.add(next(iter(M.cos(fi).p))[0][0])       # |latitude| < 90
    line, file = g.where("lla2utm", "GPS")

    # -- letters
    ll, lf = g.where("utmLetterDesignator", "GPS")
    with prog.isolated():
        ph = g.call("utmLetterDesignator", lambda: [LAT], obj=g.gps)
        if settle(r, ph, "utmLetterDesignator", g, "GPS"):
            C = Cells(A, [LAT, LON])
            br = C.breaks([ph.ret], Fraction(-90), Fraction(90))[LAT] | STD_LAT
            for p in pieces(br, Fraction(-90), Fraction(90)):
                try:
                    t = C.resolve(ph.ret, {LAT: p.iv()}, {})
                except Unsupported as e:
                    r.undecide(f"utmLetterDesignator at {p}: {e}")
                    r.ob(False)
                    continue
                s = const_str(t)
                r.count("bands")
                if s is None:
                    r.ob(False)
                    r.undecide(f"utmLetterDesignator at {p}: {show(t)[:80]}")
                elif not r.ob(s == utm_letter(mid(p)), f"band at {p}: {s}" if p.lo % 24 == 0 else None):
                    r.finding("band", f"{float(p.lo):g}", f"latitude {p} is in UTM band {utm_letter(mid(p))}, not {s}", "utmLetterDesignator", ll, lf)

    # -- zones and coordinates
    with prog.isolated():
        ph = g.call("lla2utm", lambda: [g.seq([LAT, LON, ALT])], obj=g.gps, hook=opaque_geodetic(g))
        if settle(r, ph, "lla2utm", g, "GPS"):
            utm_body(r, I, A, M, g, ph.ret, fi, lat, lon, line, file, "lla2utm")
    reuse(prog, r, g, "lla2utm", lambda: [g.seq([LAT, LON, ALT], "array")])
    reuse(prog, r, g, "ecef2utm", lambda: [g.seq(XYZ, "array")])
    with prog.isolated():
        ph = g.call("ecef2utm", lambda: [g.seq(XYZ)], obj=g.gps, hook=opaque_geodetic(g))
        if settle(r, ph, "ecef2utm", g, "GPS"):
            line, file = g.where("ecef2utm", "GPS")
            utm_body(r, I, A, M, g, ph.ret, fi, lat, lon, line, file, "ecef2utm")
    return r


def utm_body(r, I, A, M, g, ret, fi, lat, lon, line, file, name):
    try:
        outs = outcomes(I, ret)
    except Unsupported as e:
        r.undecide(f"{name}: {e}")
        r.ob(False)
        return
    a, e2 = ellipsoid(M)
    ep2 = e2 / (1 - e2)
    k0 = M.num(0.9996)
    s, c = M.sin(fi), M.cos(fi)
    t = s / c
    N = a / M.sqrt(1 - e2 * s ** 2)
    Tt = t ** 2
    Cc = ep2 * c ** 2
    q = lambda n, d: M.num(1) * Fraction(n, d)
    Mm = a * ((1 - e2 / 4 - 3 * e2 ** 2 / 64 - 5 * e2 ** 3 / 256) * fi - (3 * e2 / 8 + 3 * e2 ** 2 / 32 + 45 * e2 ** 3 / 1024) * M.sin(2 * fi)
              + (15 * e2 ** 2 / 256 + 45 * e2 ** 3 / 1024) * M.sin(4 * fi) - (35 * e2 ** 3 / 3072) * M.sin(6 * fi))

    def oracle(zone, south):
        Aa = M.rad(lon - (6 * zone - 183)) * c
        x = k0 * N * (Aa + (1 - Tt + Cc) * Aa ** 3 / 6 + (5 - 18 * Tt + Tt ** 2 + 72 * Cc - 58 * ep2) * Aa ** 5 / 120) + 500000
        y = k0 * (Mm + N * t * (Aa ** 2 / 2 + (5 - Tt + 9 * Cc + 4 * Cc ** 2) * Aa ** 4 / 24
                                + (61 - 58 * Tt + Tt ** 2 + 600 * Cc - 330 * ep2) * Aa ** 6 / 720))
        if south:
            y = y + 10000000
        k = k0 * (1 + (1 + Cc) * Aa ** 2 / 2 + (5 - 4 * Tt + 42 * Cc + 13 * Cc ** 2 - 28 * ep2) * Aa ** 4 / 24
                  + (61 - 148 * Tt + 16 * Tt ** 2) * Aa ** 6 / 720)
        return x, y, k

    for conds, st in outs:
        if layout_of(st) != [[0, 0, 0], [0, 0]]:
            r.ob(False)
            r.finding("shape", name, f"{name} returns the shape {layout_of(st)} instead of ((easting, northing, altitude), (zone, scale))", name, line, file)
            return
    ts = [x for _, st in outs for x in leaves(st)] + [c_ for cs, _ in outs for c_, _ in cs]
    # the zone must not depend on the altitude; where a condition does, a few altitudes are enough to tell
    deep = any(ALT in subterms(x.args[0]) for t_ in ts for x in subterms(t_) if x.op == "ite") or any(ALT in subterms(c_) for cs, _ in outs for c_, _ in cs)
    alts = [{ALT: Piece(Fraction(x), Fraction(x)).iv()} for x in (0, 100, -100, 60, 6000)] if deep else [{}]
    C = Cells(A, [LAT, LON, ALT] if deep else [LAT, LON])
    br = C.breaks(ts, Fraction(-180), Fraction(180))
    lats = [p for p in pieces(br[LAT] | STD_LAT, Fraction(-80), Fraction(84)) if not (p.point and p.lo == 84)]
    lons = pieces(br[LON] | STD_LON, Fraction(-180), Fraction(180))
    checked = {}
    groups = {}
    for pa in lats:
        for po, alt_ in [(x, y) for x in lons for y in alts]:
            env = {LAT: pa.iv(), LON: po.iv(), **alt_}
            memo = {}
            r.count("cells")
            try:
                got = None
                for conds, st in outs:
                    vs = [C.decide(c_, env, memo) for c_, v in conds]
                    if any(v is None for v in vs):
                        raise Unsupported("undecided outcome")
                    if all(bool(x) == v for x, (_, v) in zip(vs, conds)):
                        got = st
                        break
                if got is None:
                    raise Unsupported("no outcome")
                (x, y, h), (z, k) = got
                zs = const_str(C.resolve(z, env, memo))
                vals = tuple(C.resolve(u, env, memo) for u in (x, y, h, k))
            except Unsupported as e:
                r.undecide(f"{name}: {e}")
                r.ob(False)
                return
            if zs is None:
                r.undecide(f"{name}: zone at latitude {pa}, longitude {po}: {show(C.resolve(z, env, memo))[:80]}")
                r.ob(False)
                return
            la, lo = mid(pa), mid(po)
            wz = utm_zone(la, lo) if lo < 180 else None
            letter = utm_letter(la)
            num = zs[:-1]
            okz = zs == f"{wz}{letter}" if wz is not None else zs[-1] == letter and num in ("1", "60", "01")
            if not okz:
                r.ob(False)
                r.finding("zone", f"{name}.{wz}{letter}", f"latitude {pa}, longitude {po} is in UTM zone {wz}{letter}, {name} says {zs}", name, line, file)
                continue
            groups.setdefault((int(num), la < 0, vals), (pa, po))
    for (zone, south, vals), (pa, po) in groups.items():
        x, y, k = checked.get((zone, south)) or checked.setdefault((zone, south), oracle(zone, south))
        for what, t_, w in zip(("easting", "northing", "altitude", "scale factor"), vals, (x, y, M.v(ALT), k)):
            try:
                ok = A.same(A.of(t_), w.p)
            except Unsupported as e:
                r.undecide(f"{name}: {what}: {e}")
                r.ob(False)
                continue
            r.count("formulas")
            if not r.ob(ok, f"{name}: {what} of zone {zone}{' south' if south else ''}" if zone % 15 == 1 else None):
                d = padd(A.of(t_), w.p, -1)
                r.finding("formula", f"{name}.{what.split()[0]}", f"{name}: the {what} at latitude {pa}, longitude {po} differs from the UTM formula by "
                          f"{A.show(d, 3)[:200]}", name, line, file)
