"""Hash-consed terms: the abstract values the interpreter computes.

A term is an uninterpreted expression over *leaves* (inputs of the analysed
function) and *wire chunks* (bytes an abstract parse has consumed).  Terms are
interned, so identity is structural equality.
"""
from __future__ import annotations

_TABLE: dict = {}


class T:
    __slots__ = ("op", "args", "n")

    def __init__(self, op, args, n):
        self.op = op
        self.args = args
        self.n = n

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.n < other.n


def _k(a):
    if isinstance(a, T):
        return a
    if isinstance(a, tuple):
        return tuple(_k(x) for x in a)
    return (type(a).__name__, repr(a) if isinstance(a, float) else a)


def mk(op, *args):
    key = (op,) + tuple(_k(a) for a in args)
    t = _TABLE.get(key)
    if t is None:
        t = T(op, args, len(_TABLE))
        _TABLE[key] = t
    return t


def const(v):
    return mk("const", v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
UNDEF = mk("undef")
ZERO = const(0)


def is_const(t):
    return t.op == "const"


def cval(t):
    return t.args[0]


def is_int(t):
    return t.op == "const" and isinstance(t.args[0], int)


def present(v):
    """Whether a dictionary entry that was stored on some paths only is there."""
    if v.op == "undef":
        return FALSE
    if v.op == "ite" and has_op(v, "undef"):
        return ite(v.args[0], present(v.args[1]), present(v.args[2]))
    return TRUE


def there(v):
    """Its value where it is."""
    if v.op == "ite" and has_op(v, "undef"):
        a, b = there(v.args[1]), there(v.args[2])
        return b if a.op == "undef" else a if b.op == "undef" else ite(v.args[0], a, b)
    return v


def unk(reason):
    return mk("unk", reason)


def leaf(path, kind=None):
    return mk("leaf", path, kind)


def subterms(t, seen=None):
    """All subterms of t (including t), each once."""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(x.args)


def has_op(t, *ops):
    return any(s.op in ops for s in subterms(t))


def show(t, depth=0):
    if isinstance(t, tuple):
        return "(" + ", ".join(show(x, depth + 1) for x in t) + ")"
    if not isinstance(t, T):
        return repr(t)
    if depth > 7:
        return "…"
    op, a = t.op, t.args
    s = lambda x: show(x, depth + 1)
    if op == "const":
        return repr(a[0])
    if op == "leaf":
        return str(a[0])
    if op == "bin":
        return f"({s(a[1])} {a[0]} {s(a[2])})"
    if op == "cmp":
        return f"({s(a[1])} {a[0]} {s(a[2])})"
    if op == "not":
        return f"not {s(a[0])}"
    if op == "neg":
        return f"-{s(a[0])}"
    if op == "ite":
        return f"({s(a[1])} if {s(a[0])} else {s(a[2])})"
    if op == "unpack":
        off = "" if a[2] == 0 else f"+{a[2]}"
        return f"{a[0]}<{s(a[1])}{off}>"
    if op == "chunk":
        return f"wire#{a[0]}[{s(a[1])}]"
    if op == "len":
        return f"len({s(a[0])})"
    if op == "idx":
        return f"i{a[0]}"
    if op == "unk":
        return f"?{a[0]}"
    return f"{op}({', '.join(s(x) for x in a)})"


# --------------------------------------------------------------- struct codes
INT_CODES = {"b": (1, True), "B": (1, False), "h": (2, True), "H": (2, False),
             "i": (4, True), "I": (4, False), "l": (4, True), "L": (4, False),
             "q": (8, True), "Q": (8, False)}
FLOAT_CODES = {"f": 4, "d": 8, "e": 2}
CANON = {"l": "i", "L": "I"}


def code_size(code):
    c = code[0]
    if c in INT_CODES:
        return INT_CODES[c][0]
    if c in FLOAT_CODES:
        return FLOAT_CODES[c]
    if c == "?":
        return 1
    if c in "uS":                      # u3> : n-byte integer
        return int(code[1])
    raise KeyError(code)


def int_code(n, signed, endian):
    tab = {1: "bB", 2: "hH", 4: "iI", 8: "qQ"}
    if n in tab:
        c = tab[n][0 if signed else 1]
    else:
        c = ("S" if signed else "u") + str(n)
    if n == 1:
        return c
    return c + endian


def nonneg(t):
    """Provably >= 0."""
    if t.op == "const":
        return isinstance(t.args[0], (int, float)) and t.args[0] >= 0
    if t.op == "len" or t.op == "idx":
        return True
    if t.op == "unpack":
        c = t.args[0][0]
        return c in "BHIQLu?"
    if t.op == "bits":
        return True
    if t.op == "leaf":
        return t.args[1] in ("uint", "count")
    if t.op == "bin" and t.args[0] in ("+", "*"):
        return nonneg(t.args[1]) and nonneg(t.args[2])
    if t.op == "bin" and t.args[0] == "%":
        return is_int(t.args[2]) and t.args[2].args[0] > 0
    if t.op == "bin" and t.args[0] == "//":
        return nonneg(t.args[1]) and is_int(t.args[2]) and t.args[2].args[0] > 0
    if t.op == "ite":
        return nonneg(t.args[1]) and nonneg(t.args[2])
    return False


def is_bool(t):
    return (t.op == "const" and isinstance(t.args[0], bool)) or \
        t.op in ("cmp", "not", "truthy", "and", "or", "isinst")


# ------------------------------------------------------------------- builders
def truthy(t):
    if t.op == "const":
        return const(bool(t.args[0]))
    if is_bool(t):
        return t
    if t.op in ("ref", "cls", "func", "bound", "builtin", "ext"):
        return TRUE
    if t.op == "ite":
        return ite(t.args[0], truthy(t.args[1]), truthy(t.args[2]))
    if t.op == "int" and is_bool(t.args[0]):
        return t.args[0]
    return mk("truthy", t)


def neg_(t):
    t = truthy(t)
    if t.op == "const":
        return const(not t.args[0])
    if t.op == "not":
        return t.args[0]
    if t.op == "cmp":
        o = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">",
             "is": "is not", "is not": "is", "in": "not in", "not in": "in"}
        return cmp_(o[t.args[0]], t.args[1], t.args[2])
    if t.op == "ite":
        return ite(t.args[0], neg_(t.args[1]), neg_(t.args[2]))
    return mk("not", t)


def ite(c, a, b):
    if a is b:
        return a
    if c.op == "const":
        return a if c.args[0] else b
    if c.op == "not":
        return ite(c.args[0], b, a)
    if c.op == "cmp" and c.args[0] in ("!=", "is not", "not in", ">=", "<="):
        # canonical polarity
        return ite(neg_(c), b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return neg_(c)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    # x if x else 0  ->  x   (integers)
    if c.op == "truthy" and c.args[0] is a and b.op == "const" and \
            b.args[0] in (0, False) and not isinstance(b.args[0], bytes):
        return a
    if c.op == "truthy" and c.args[0] is b and a.op == "const" and \
            isinstance(a.args[0], (int, float)) and a.args[0] == 0:
        return a                       # 0-valued anyway / x falsy
    return mk("ite", c, a, b)


def prune(v, known=None):
    """A choice without the arms its own outer conditions rule out."""
    if v.op != "ite":
        return v
    known = known or {}
    c = rewrite(v.args[0], lambda x: known.get(x)) if known else v.args[0]
    if c.op == "const":
        return prune(v.args[1] if c.args[0] else v.args[2], known)
    yes, no = dict(known), dict(known)
    todo = [c]
    while todo:
        x = todo.pop()
        yes[x] = TRUE
        if x.op == "ite" and x.args[2] is FALSE:
            todo += x.args[:2]
    no[c] = FALSE
    return ite(c, prune(v.args[1], yes), prune(v.args[2], no))


_FLIP = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}


def may_be_nan(a):
    return a.op == "unpack" and a.args[0].strip("<>=!@") in ("f", "d", "e") or a.op == "leaf" and a.args[1] == "float"


def cmp_(op, a, b):
    if a.op == "const" and b.op == "const":
        x, y = a.args[0], b.args[0]
        try:
            if op == "==": return const(x == y)
            if op == "!=": return const(x != y)
            if op == "<": return const(x < y)
            if op == "<=": return const(x <= y)
            if op == ">": return const(x > y)
            if op == ">=": return const(x >= y)
            if op == "is": return const(x is y or (type(x) is type(y) and x == y and not isinstance(x, (tuple, bytes))))
            if op == "is not": return const(not (x is y or (type(x) is type(y) and x == y)))
        except TypeError:
            return unk("cmp")
    if b.op == "bitlen" and op in ("<", "<=", ">", ">="):
        a, b, op = b, a, {"<": ">", "<=": ">=", ">": "<", ">=": "<="}[op]
    if a.op == "bitlen" and b.op == "const" and type(b.args[0]) is int and op in ("<", "<=", ">", ">="):
        n = b.args[0] + (op in (">", "<="))
        x = a.args[0]
        big = TRUE if n <= 0 else ite(cmp_(">=", x, const(1 << n - 1)), TRUE, cmp_("<=", x, const(-(1 << n - 1))))
        return big if op[0] == ">" else neg_(big)
    if op in ("is", "is not") and (a is NONE or b is NONE):
        o = b if a is NONE else a
        if o.op == "ite":
            return ite(o.args[0], cmp_(op, o.args[1], NONE), cmp_(op, o.args[2], NONE))
        if o.op in ("ref", "cls", "func", "bound", "builtin", "ext", "unpack",
                    "bin", "len", "chunk", "bytes", "idx", "const", "bits",
                    "int", "float", "cmp", "not", "truthy") or \
                (o.op == "leaf" and o.args[1] not in (None, "opt")):
            return const((o is NONE) == (op == "is"))
    if op in ("==", "!=") and (a is NONE or b is NONE):
        return cmp_("is" if op == "==" else "is not", a, b)
    if op in ("is", "is not", "==", "!=") and a is b and a.op in ("ref", "cls", "func"):
        return const(op in ("is", "=="))
    if op in ("is", "is not") and a.op in ("ref", "cls", "func") and b.op in ("ref", "cls", "func"):
        return const((a is b) == (op == "is"))
    if op in ("==", "!=") and a is not b and {a.op, b.op} <= {"cls", "func", "ext", "const", "builtin"} and {a.op, b.op} & {"cls", "func"}:
        return const(op == "!=")            # classes and functions equal only themselves
    if op in ("==", "!=") and a.op == "ite":
        return ite(a.args[0], cmp_(op, a.args[1], b), cmp_(op, a.args[2], b))
    if op in ("==", "!=") and b.op == "ite":
        return ite(b.args[0], cmp_(op, a, b.args[1]), cmp_(op, a, b.args[2]))
    if a is b and op in ("==", "!=", "<=", ">=") and may_be_nan(a):
        return mk("cmp", op, a, b) if op in ("==", "<=", ">=") else mk("not", mk("cmp", "==", a, b))
    if op in ("==", "!=", "<=", ">=") and a is b and a.op != "unk":
        return const(op != "!=")
    if op in ("<", ">") and a is b and a.op != "unk":
        return FALSE
    # constants to the right
    if a.op == "const" and b.op != "const" and op in ("==", "!=", "<", ">", "<=", ">="):
        return cmp_(_FLIP.get(op, op), b, a)
    # zero tests on non-negative integers
    if b.op == "const" and isinstance(b.args[0], int) and not isinstance(b.args[0], bool):
        k = b.args[0]
        if nonneg(a):
            if (op == ">" and k == 0) or (op == "!=" and k == 0) or (op == ">=" and k == 1):
                return truthy(a)
            if (op == "==" and k == 0) or (op == "<" and k == 1) or (op == "<=" and k == 0):
                return neg_(truthy(a))
            if op == ">=" and k <= 0: return TRUE
            if op == "<" and k <= 0: return FALSE
            if op == ">" and k < 0: return TRUE
            if op == "<=" and k < 0: return FALSE
            if op == "==" and k < 0: return FALSE
        if op in ("==", "!=") and k == 0 and a.op in ("unpack", "bits", "len"):
            return neg_(truthy(a)) if op == "==" else truthy(a)
        # range of a fixed width token
        if a.op == "unpack" and a.args[0][0] in INT_CODES:
            n, sg = INT_CODES[a.args[0][0]]
            lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if sg else (0, (1 << (8 * n)) - 1)
            if op in (">", ">=") and k > hi: return FALSE
            if op == ">" and k == hi: return FALSE
            if op in ("<", "<=") and k < lo: return FALSE
            if op in ("<", "<=") and k > hi: return TRUE
            if op == "<=" and k >= hi: return TRUE
            if op in (">", ">=") and k < lo: return TRUE
            if op == "==" and not lo <= k <= hi: return FALSE
            if op == "!=" and not lo <= k <= hi: return TRUE
        # integer comparisons to a canonical strict form
        if op == ">=" and _intlike(a): return neg_(cmp_("<", a, b)) if False else mk("cmp", ">=", a, b)
        if op == ">" and _intlike(a): return cmp_(">=", a, const(k + 1))
        if op == "<=" and _intlike(a): return cmp_("<", a, const(k + 1))
    if op == "in" or op == "not in":
        return mk("cmp", op, a, b)
    if op == ">":
        return mk("cmp", "<", b, a) if b.op != "const" else mk("cmp", op, a, b)
    if op == "<=" and b.op != "const":
        return mk("cmp", ">=", b, a)
    return mk("cmp", op, a, b)


def _intlike(t):
    if t.op in ("len", "idx", "bits"):
        return True
    if t.op == "const":
        return isinstance(t.args[0], int)
    if t.op == "unpack":
        return t.args[0][0] in INT_CODES or t.args[0][0] in "uS"
    if t.op == "leaf":
        return t.args[1] in ("uint", "int", "count", "any int")
    if t.op == "bin" and t.args[0] in ("+", "-", "*", "//", "%", "&", "|", "^", "<<", ">>"):
        return _intlike(t.args[1]) and _intlike(t.args[2])
    return False


def bin_(op, a, b):
    if a.op == "const" and b.op == "const":
        x, y = a.args[0], b.args[0]
        isf = isinstance(x, float) or isinstance(y, float)
        if isf and isinstance(x, (int, float)) and isinstance(y, (int, float)):
            # keep float arithmetic symbolic (exact rationals later)
            return mk("bin", op, a, b)
        try:
            if op == "/":
                return mk("bin", op, a, b)
            r = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y,
                 "//": lambda: x // y, "%": lambda: x % y, "**": lambda: x ** y,
                 "&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y,
                 "<<": lambda: x << y, ">>": lambda: x >> y}[op]()
            if isinstance(r, (bytes, str)) and len(r) > 4096:
                return unk("big constant")
            return const(r)
        except Exception:
            return unk("constant arithmetic error")
    # additive constants normalised: (x + c1) + c2
    if op == "-" and b.op == "const" and isinstance(b.args[0], int) and not isinstance(b.args[0], bool):
        return bin_("+", a, const(-b.args[0]))
    if op == "+":
        if a.op == "const" and isinstance(a.args[0], int) and not isinstance(a.args[0], bool) and b.op != "const":
            a, b = b, a
        if b.op == "const" and isinstance(b.args[0], int) and not isinstance(b.args[0], bool):
            if b.args[0] == 0 and _intlike(a):
                return a
            if a.op == "bin" and a.args[0] == "+" and a.args[2].op == "const" and \
                    isinstance(a.args[2].args[0], int):
                return bin_("+", a.args[1], const(a.args[2].args[0] + b.args[0]))
    if op in ("+", "-") and b.op == "const" and b.args[0] == 0 and _intlike(a):
        return a
    if op == "-" and a is b and _intlike(a):
        return ZERO
    if op == "+" and a.op == "bin" and a.args[0] == "-" and a.args[2] is b and _intlike(a.args[1]):
        return a.args[1]
    if op == "*" and ((b.op == "const" and b.args[0] == 1 and _intlike(a))):
        return a
    if op == "*" and ((a.op == "const" and a.args[0] == 1 and _intlike(b))):
        return b
    if op == "//" and is_int(b) and b.args[0] > 0 and _intlike(a):
        k = b.args[0]
        if k == 1:
            return a
        # (k*x + c) // k  ->  x + c // k
        x, c = (a.args[1], a.args[2].args[0]) if a.op == "bin" and a.args[0] == "+" and is_int(a.args[2]) else (a, 0)
        if x.op == "bin" and x.args[0] == "*":
            for p, q in ((x.args[1], x.args[2]), (x.args[2], x.args[1])):
                if is_int(p) and p.args[0] % k == 0:
                    y = bin_("*", q, const(p.args[0] // k)) if p.args[0] != k else q
                    return bin_("+", y, const(c // k)) if c // k else y
    if op == "%" and is_int(b) and b.args[0] > 0 and a.op == "bin" and a.args[0] == "*":
        for p in a.args[1:]:
            if is_int(p) and p.args[0] % b.args[0] == 0 and _intlike(a):
                return ZERO
    if op == "<<" and is_int(b) and 0 <= b.args[0] < 64 and _intlike(a):
        return bin_("*", a, const(1 << b.args[0])) if b.args[0] else a
    if op in ("<<", ">>") and b.op == "const" and b.args[0] == 0:
        return a
    if op == ">>" and is_int(b) and 0 < b.args[0] < 64 and _counted(a):
        return bin_("//", a, const(1 << b.args[0]))
    if op == "&" and is_int(b) and b.args[0] > 0 and b.args[0] & (b.args[0] + 1) == 0 and _counted(a):
        return bin_("%", a, const(b.args[0] + 1))
    if op == "|" and b.op == "const" and b.args[0] == 0:
        return a
    if op == "|" and a.op == "const" and a.args[0] == 0:
        return b
    if op in ("|", "+", "^"):
        j = _joined(a, b) or _joined(b, a)
        if j is not None:
            return j
    return mk("bin", op, a, b)


def _shifted(t):
    """(field, k): t is the unpacked field times 2**k."""
    if t.op == "unpack":
        return t, 0
    if t.op == "bin" and t.args[0] == "*":
        for x, c in ((t.args[1], t.args[2]), (t.args[2], t.args[1])):
            if x.op == "unpack" and is_int(c) and c.args[0] > 0 and c.args[0] & (c.args[0] - 1) == 0:
                return x, c.args[0].bit_length() - 1
    return None, 0


def _joined(hi, lo):
    """Two neighbouring fields of one byte string, the upper one shifted above the
    lower one, are one wider field."""
    if lo.op not in ("unpack", "bin") or hi.op != "bin":
        return None
    h, i = _shifted(hi)
    l, k = _shifted(lo)
    if h is None or l is None or h.args[1] is not l.args[1] or not isinstance(h.args[2], int) or not isinstance(l.args[2], int):
        return None
    ch, cl = h.args[0], l.args[0]
    if ch[0] not in "bBhHiIqQuS" or cl[0] not in "BHIQu":
        return None
    n, m = code_size(ch), code_size(cl)
    if i - k != 8 * m or k % 8 or n + m > 9:
        return None
    signed = ch[0] in "bhiqS"
    if h.args[2] + n == l.args[2] and not (ch.endswith("<") or cl.endswith("<")):
        t = unpack_(int_code(n + m, signed, ">"), h.args[1], h.args[2])
    elif l.args[2] + m == h.args[2] and not (ch.endswith(">") or cl.endswith(">")):
        t = unpack_(int_code(n + m, signed, "<"), h.args[1], l.args[2])
    else:
        return None
    return bin_("*", t, const(1 << k)) if k else t


def fractional(t):
    """The number may have a fraction."""
    if t.op == "const":
        return isinstance(t.args[0], float)
    if t.op == "bin":
        return t.args[0] == "/" or any(fractional(x) for x in t.args[1:])
    if t.op in ("ite", "minmax"):
        return any(fractional(x) for x in t.args[1:] if isinstance(x, T))
    return t.op == "fn" and t.args[0] not in ("floor", "ceil", "trunc") or t.op == "leaf" and t.args[1] == "float" or t.op == "sym"


def _counted(a):
    """An integer computed by counting and arithmetic, not a bit pattern."""
    if a.op == "ite":
        return all(_counted(x) or is_int(x) for x in a.args[1:])
    return a.op in ("len", "idx") or (a.op == "leaf" and a.args[1] == "count") or \
        (a.op == "bin" and a.args[0] in ("+", "-", "*", "//", "%") and _intlike(a))


def rewrite(t, f, memo=None):
    """Bottom-up rewriting: f(term-with-rewritten-args) -> term or None."""
    if memo is None:
        memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        if x in memo:
            return memo[x]
        r = f(x)
        if r is None:
            na = tuple(go(y) for y in x.args)
            if na == x.args and all(p is q for p, q in zip(na, x.args)):
                r = x
            else:
                r = rebuild(x.op, na)
        memo[x] = r
        return r
    return go(t)


def rebuild(op, a):
    if op == "ite":
        return ite(*a)
    if op == "cmp":
        return cmp_(*a)
    if op == "bin":
        return bin_(*a)
    if op == "not":
        return neg_(a[0])
    if op == "truthy":
        return truthy(a[0])
    if op == "len":
        return len_(a[0])
    if op == "unpack":
        return unpack_(*a)
    if op == "bytes":
        return bytes_(a[0])
    return mk(op, *a)


# ---------------------------------------------------------------- byte strings
# bytes term: ('bytes', segs)  segs: tuple of
#   ('lit', b'..') | ('pk', code, val) | ('raw', bytesTerm, off:int, n:int|T)
#   | ('rep', loopid, count, segs)
def seg_len(s):
    if s[0] == "lit":
        return const(len(s[1]))
    if s[0] == "pk":
        return const(code_size(s[1]))
    if s[0] == "raw":
        return s[3] if isinstance(s[3], T) else const(s[3])
    if s[0] == "bits":
        return const(s[1])
    if s[0] == "rep":
        r = ZERO
        for x in s[3]:
            r = bin_("+", r, seg_len(x))
        if is_const(r):
            return bin_("*", s[2], r)
        return mk("sum", s[1], s[2], r)
    return unk("seglen")


def bytes_(segs):
    out = []
    for s in segs:
        if s[0] == "lit" and not s[1]:
            continue
        if s[0] == "raw" and isinstance(s[3], T) and s[3].op == "const":
            s = ("raw", s[1], s[2], s[3].args[0])
        if s[0] == "raw" and s[3] == 0 and not isinstance(s[3], T):
            continue
        if out and s[0] == "lit" and out[-1][0] == "lit":
            out[-1] = ("lit", out[-1][1] + s[1])
            continue
        if out and s[0] == "raw" and out[-1][0] == "raw" and s[1] is out[-1][1] and \
                isinstance(s[2], int) and isinstance(out[-1][3], int) and \
                out[-1][2] + out[-1][3] == s[2] and isinstance(s[3], int):
            out[-1] = ("raw", s[1], out[-1][2], out[-1][3] + s[3])
            continue
        out.append(s)
    if not out:
        return const(b"")
    if len(out) == 1:
        s = out[0]
        if s[0] == "lit":
            return const(s[1])
        if s[0] == "raw" and s[2] == 0:
            ln = s[3] if isinstance(s[3], T) else const(s[3])
            if len_(s[1]) is ln:
                return s[1]
    return mk("bytes", tuple(out))


def segs_of(t):
    """Segments of a bytes-valued term, or None."""
    if t.op == "const" and isinstance(t.args[0], (bytes, bytearray)):
        return (("lit", bytes(t.args[0])),) if t.args[0] else ()
    if t.op == "bytes":
        return t.args[0]
    if t.op in ("chunk", "bleaf", "encode"):
        n = len_(t)
        return (("raw", t, 0, n.args[0] if is_const(n) else n),)
    if t.op == "leaf":
        return (("raw", t, 0, len_(t)),)
    if t.op == "elem":
        return (("raw", t, 0, len_(t)),)
    return None


def len_(t):
    if t.op == "const" and hasattr(t.args[0], "__len__"):
        return const(len(t.args[0]))
    if t.op == "chunk":
        return t.args[1]
    if t.op == "bytes":
        r = ZERO
        for s in t.args[0]:
            r = bin_("+", r, seg_len(s))
        return r
    if t.op == "ite":
        return ite(t.args[0], len_(t.args[1]), len_(t.args[2]))
    return mk("len", t)


def pack_seg(code, v):
    """One packed field as a byte segment, undoing a matching unpack."""
    if v.op == "unpack" and v.args[0] == code:
        return ("raw", v.args[1], v.args[2], code_size(code))
    if v.op == "const" and isinstance(v.args[0], int):
        c = code[0]
        n = code_size(code)
        try:
            if c in INT_CODES or c in "uS":
                sg = INT_CODES[c][1] if c in INT_CODES else c == "S"
                return ("lit", int(v.args[0]).to_bytes(
                    n, "little" if code.endswith("<") else "big", signed=sg))
            if c == "?":
                return ("lit", bytes([1 if v.args[0] else 0]))
        except OverflowError:
            pass
    if v.op == "const" and isinstance(v.args[0], (int, float)) and not isinstance(v.args[0], bool) \
            and code[0] in "fd" and v.args[0] == 0 and str(v.args[0])[0] != "-":
        return ("lit", bytes(code_size(code)))
    if v.op == "ite":
        pass
    return ("pk", code, v)


def bslice(t, off, n):
    """t[off:off+n] as bytes term (ints), best effort."""
    segs = segs_of(t)
    if segs is None:
        return unk("slice")
    if len(segs) == 1 and segs[0][0] == "raw":
        s = segs[0]
        if isinstance(s[2], int):
            return bytes_((("raw", s[1], s[2] + off, n),))
    out = []
    pos = 0
    for s in segs:
        if isinstance(n, int) and pos >= off + n:
            break
        ln = seg_len(s)
        if not is_const(ln) or not isinstance(n, int):
            return unk("slice")
        ln = ln.args[0]
        lo, hi = max(off, pos), min(off + n, pos + ln)
        if lo < hi:
            if lo == pos and hi == pos + ln:
                out.append(s)
            elif s[0] == "lit":
                out.append(("lit", s[1][lo - pos:hi - pos]))
            elif s[0] == "raw" and isinstance(s[2], int):
                out.append(("raw", s[1], s[2] + lo - pos, hi - lo))
            elif s[0] == "pk" and (s[1][0] in INT_CODES or s[1][0] in "uS"):
                # some bytes of a packed integer
                end = "<" if s[1].endswith("<") else ">"
                sh = 8 * (lo - pos if end == "<" else pos + ln - hi)
                x = bin_(">>", s[2], const(sh)) if sh else s[2]
                out.append(pack_seg(int_code(hi - lo, False, end), bin_("&", x, const((1 << 8 * (hi - lo)) - 1))))
            else:
                return unk("slice")
        pos += ln
    return bytes_(tuple(out))


def unpack_(code, b, off):
    """Decode the field of format `code` at offset `off` of bytes term b."""
    if b.op == "bytes":
        if not isinstance(off, int):
            q = b.args[0]
            if isinstance(off, T) and off.op == "idx" and len(q) == 1 and q[0][0] == "rep" and len(q[0][3]) == 1 and \
                    q[0][3][0][0] == "pk" and q[0][3][0][1] == code and code_size(code) == 1:
                # one of as many one-byte elements
                i = mk("idx", q[0][1])
                return rewrite(q[0][3][0][2], lambda x: off if x is i else None)
            return mk("unpack", code, b, off)
        pos = 0
        n = code_size(code)
        for s in b.args[0]:
            if pos == off:
                if s[0] == "pk" and s[1] == code:
                    return s[2]
                if s[0] == "raw" and isinstance(s[2], int) and (not isinstance(s[3], int) or s[3] >= n):
                    return mk("unpack", code, s[1], s[2])
            ln = seg_len(s)
            if is_const(ln) and isinstance(ln.args[0], int):
                if s[0] == "raw" and isinstance(s[2], int) and pos <= off and off + n <= pos + ln.args[0]:
                    return mk("unpack", code, s[1], s[2] + off - pos)
                if s[0] == "lit" and pos <= off and off + n <= pos + ln.args[0]:
                    return unpack_(code, const(s[1]), off - pos)
                pos += ln.args[0]
            else:
                break
        return mk("unpack", code, b, off)
    if b.op == "const" and isinstance(b.args[0], bytes) and isinstance(off, int):
        import struct
        try:
            if code[0] in "uS":
                raw = b.args[0][off:off + code_size(code)]
                return const(int.from_bytes(raw, "little" if code.endswith("<") else "big", signed=code[0] == "S"))
            e = {"<": "<", ">": ">"}.get(code[1:2], ">")
            return const(struct.unpack_from(e + code[0], b.args[0], off)[0])
        except struct.error:
            return unk("unpack const")
    if b.op == "ite":
        return ite(b.args[0], unpack_(code, b.args[1], off), unpack_(code, b.args[2], off))
    return mk("unpack", code, b, off)


# ------------------------------------------------------------------ bit vectors
LEAF_WIDTH: dict = {}      # leaf term -> number of bits in its documented domain
MAXBITS = 128


def _strip(v):
    v = list(v)
    while v and v[-1] == 0:
        v.pop()
    return v


def byte_bits(b, k):
    """The 8 bits (LSB first) of byte k of a bytes term, or None."""
    if b.op == "const":
        x = b.args[0]
        if not isinstance(x, (bytes, bytearray)) or k >= len(x):
            return None
        return [(x[k] >> i) & 1 for i in range(8)]
    if b.op == "bytes":
        pos = 0
        for s in b.args[0]:
            n = seg_len(s)
            if not is_const(n):
                return None
            n = n.args[0]
            if pos <= k < pos + n:
                j = k - pos
                if s[0] == "lit":
                    return [(s[1][j] >> i) & 1 for i in range(8)]
                if s[0] == "raw" and isinstance(s[2], int):
                    return byte_bits(s[1], s[2] + j)
                if s[0] == "pk":
                    c = s[1]
                    if c[0] not in "BHILQu?" and not (c[0] in "bhilqS" and is_const(s[2])):
                        return None
                    v = bitvec(s[2])
                    if v is None or len(v) > 8 * n:
                        return None
                    v = v + [0] * (8 * n - len(v))
                    m = j if c.endswith("<") else n - 1 - j
                    return v[8 * m:8 * m + 8]
                if s[0] == "bits":
                    allb = []            # MSB first
                    for w, val in s[2]:
                        v = bitvec(val)
                        if v is None:
                            v = [(val, i) for i in range(w)]
                        v = (v + [0] * w)[:w]
                        allb.extend(reversed(v))
                    return list(reversed(allb[8 * j:8 * j + 8]))
                return None
            pos += n
        return None
    if b.op in ("chunk", "leaf", "bleaf"):
        return [(b, k, i) for i in range(8)]
    return None


def bitvec(t):
    """Bits (LSB first, high zeros stripped) of a non-negative integer term."""
    if t.op == "const":
        x = t.args[0]
        if isinstance(x, bool):
            x = int(x)
        if not isinstance(x, int) or x < 0 or x.bit_length() > MAXBITS:
            return None
        return [(x >> i) & 1 for i in range(x.bit_length())]
    if t.op == "leaf":
        w = LEAF_WIDTH.get(t)
        if w is None:
            return None
        return [(t, i) for i in range(w)]
    if t.op == "unpack":
        c, b, off = t.args
        if not isinstance(off, int) or c[0] not in "BHILQu":
            return None
        n = code_size(c)
        out = []
        order = range(n) if c.endswith("<") else range(n - 1, -1, -1)
        for k in order:
            v = byte_bits(b, off + k)
            if v is None:
                return None
            out.extend(v)
        return _strip(out)
    if t.op == "bits":
        b, off, n = t.args
        if not isinstance(off, int) or not isinstance(n, int):
            return None
        out = []
        for p in range(off + n - 1, off - 1, -1):
            v = byte_bits(b, p // 8)
            if v is None:
                return None
            out.append(v[7 - p % 8])
        return _strip(out)
    if t.op == "int":
        return bitvec(t.args[0])
    if t.op == "truthy":
        v = bitvec(t.args[0])
        if v is None or len(v) > 1:
            return None
        return v
    if t.op == "cmp" and t.args[0] in ("==", "!=") and t.args[2].op == "const":
        v = bitvec(t.args[1])
        k = t.args[2].args[0]
        if v is not None and len(v) <= 1 and isinstance(k, int):
            if (t.args[0] == "==" and k == 1) or (t.args[0] == "!=" and k == 0):
                return v
        return None
    if t.op == "ite":
        # (1 if bit else 0)
        v = bitvec(t.args[0]) if is_bool(t.args[0]) else None
        a, b = t.args[1], t.args[2]
        if v is not None and len(v) == 1 and is_int(a) and is_int(b) and b.args[0] == 0 and a.args[0] > 0:
            return _strip([v[0] if (a.args[0] >> i) & 1 else 0 for i in range(a.args[0].bit_length())])
        return None
    if t.op != "bin":
        return None
    op, a, b = t.args
    if op in ("<<", ">>") and is_int(b):
        v = bitvec(a)
        k = b.args[0]
        if v is None or k < 0 or k > MAXBITS:
            return None
        return _strip(([0] * k + v) if op == "<<" else v[k:])
    if op in ("//", "%", "*") and is_int(b) and b.args[0] > 0 and b.args[0] & (b.args[0] - 1) == 0:
        v = bitvec(a)
        k = b.args[0].bit_length() - 1
        if v is None:
            return None
        return _strip({"//": v[k:], "%": v[:k], "*": [0] * k + v}[op])
    if op in ("&", "|", "^", "+"):
        x, y = bitvec(a), bitvec(b)
        if x is None or y is None:
            return None
        n = max(len(x), len(y))
        x = x + [0] * (n - len(x))
        y = y + [0] * (n - len(y))
        out = []
        for p, q in zip(x, y):
            if op == "&":
                r = 0 if p == 0 or q == 0 else (q if p == 1 else p if q == 1 else p if p == q else None)
            elif op == "|":
                r = 1 if p == 1 or q == 1 else (q if p == 0 else p if q == 0 else p if p == q else None)
            elif op == "^":
                r = q if p == 0 else p if q == 0 else (0 if p == q else None)
            else:
                r = q if p == 0 else p if q == 0 else None
            if r is None:
                return None
            out.append(r)
        return _strip(out)
    return None


BITOPS = ("<<", ">>", "&", "|", "^", "%", "//")


def has_bitops(t):
    for x in subterms(t):
        if x.op == "bits" or (x.op == "bin" and x.args[0] in BITOPS):
            return True
        if x.op == "bytes" and any(s[0] in ("bits",) or (s[0] == "pk" and s[1][0] in "uS") for s in x.args[0]):
            return True
        if x.op == "unpack" and x.args[0][0] in "uS":
            return True
    return False


def same_bits(a, b):
    """True / False / None (undecided)."""
    x = bitvec(a)
    if x is None:
        return None
    y = bitvec(b)
    if y is None:
        return None
    return x == y
