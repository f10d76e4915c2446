"""Models of builtins and of the external modules the repository uses
(struct, io, ctypes, math, numpy, functools, typing)."""
from __future__ import annotations

import struct as _struct
import math as _math
import re

from .interp import *
from .interp2 import *
from .interp2 import Exprs, lin, unlin, has_ref
from .terms import *

MATHFN = {"sin", "cos", "tan", "asin", "acos", "atan", "atan2", "sqrt", "hypot",
          "exp", "log", "floor", "ceil", "fabs", "trunc", "fmod", "isnan", "isinf",
          "isfinite", "copysign", "pow", "arctan2", "arcsin", "arccos", "arctan",
          "sign", "degrees", "radians", "deg2rad", "rad2deg", "square", "absolute",
          "isclose", "fsum", "dist", "cbrt", "sinh", "cosh", "tanh", "log10", "log2"}
NPALIAS = {"arctan2": "atan2", "arcsin": "asin", "arccos": "acos", "arctan": "atan",
           "deg2rad": "radians", "rad2deg": "degrees", "absolute": "fabs", "abs": "fabs",
           "power": "pow"}
# functions that need more than one argument, or that are not in MATHFN
ARITY = {"atan2": 2, "fmod": 2, "copysign": 2, "pow": 2, "dist": 2, "dot": 2, "matmul": 2, "inner": 2, "outer": 2,
         "cross": 2, "add": 2, "subtract": 2, "multiply": 2, "divide": 2, "full": 2, "array": 1, "asarray": 1, "norm": 1,
         "zeros": 1, "ones": 1, "eye": 1, "transpose": 1, "sum": 1, "vstack": 1, "hstack": 1, "hypot": 0}
PI = mk("sym", "pi")


def floaty(t):
    """Certainly a float, whatever the inputs."""
    if t.op == "const":
        return isinstance(t.args[0], float)
    if t.op == "bin":
        return t.args[0] == "/" or any(floaty(x) for x in t.args[1:])
    if t.op == "ite":
        return all(floaty(x) for x in t.args[1:])
    if t.op == "neg":
        return floaty(t.args[0])
    return t is PI or t.op == "fn" and t.args[0] not in ("floor", "ceil", "trunc", "fabs", "sign", "truncated-if-integers") or \
        t.op == "leaf" and t.args[1] == "float"


class Interp(Exprs):
    # ---------------------------------------------------------------- externals
    def ext_attr(self, o, name):
        n = o.args[0]
        full = n + "." + name
        if full in ("math.pi", "numpy.pi"):
            return PI
        if full in ("math.tau",):
            return bin_("*", const(2), PI)
        if full in ("math.inf", "numpy.inf", "math.nan", "numpy.nan", "math.e", "numpy.e"):
            return mk("sym", name)
        if full in ("io.SEEK_SET", "io.SEEK_CUR", "io.SEEK_END", "os.SEEK_SET", "os.SEEK_CUR", "os.SEEK_END"):
            return const(("SEEK_SET", "SEEK_CUR", "SEEK_END").index(name))
        return mk("ext", full)

    def load_name(self, n):
        v = super().load_name(n)
        if v.op == "ext" and v.args[0] in ("math.pi", "numpy.pi"):
            return PI
        return v

    def call_ext(self, n, args, kwargs, node):
        short = n.rsplit(".", 1)[-1]
        top = n.split(".", 1)[0]
        if top in ("math", "numpy", "cmath"):
            return self.call_math(n, top, short, args, kwargs)
        if top == "struct":
            return self.call_structmod(short, args, kwargs)
        if n in ("io.BytesIO", "_io.BytesIO"):
            data = args[0] if args else const(b"")
            return self.alloc(ObjRec(mk("intr", "BytesIO"), {"data": data, "pos": ZERO}))
        if n in ("io.open", "open", "io.FileIO", "os.open", "pathlib.Path.open"):
            return self.alloc(ObjRec(mk("intr", "BytesIO"), {"data": self.file_bytes or mk("filedata", tuple(args) + tuple(kwargs.values())), "pos": ZERO}))
        if n == "types.MappingProxyType" and len(args) == 1:
            return args[0]
        if n == "functools.partialmethod" and args:
            return mk("pmethod", args[0], tuple(args[1:]), tuple(sorted(kwargs.items())))
        if n == "functools.partial":
            return mk("partial", args[0], tuple(args[1:]), tuple(sorted(kwargs.items())))
        if n.startswith("ctypes.c_") and len(args) == 1 and not kwargs and self.is_number(self.res(args[0])):
            # C integers keep the low bits
            w = re.fullmatch(r"ctypes.c_(u?)int(8|16|32|64)", n) or re.fullmatch(r"ctypes.c_(u?)(short|int|byte|longlong)", n)
            if w:
                k = {"short": 16, "int": 32, "byte": 8, "longlong": 64}.get(w[2]) or int(w[2])
                h = 0 if w[1] else 1 << k - 1
                return mk("cval", bin_("-", bin_("&", bin_("+", self.res(args[0]), const(h)), const((1 << k) - 1)), const(h)))
        if n == "ctypes.sizeof":
            return self.sizeof(args[0])
        if n in ("typing.cast",):
            return args[1]
        if n in ("functools.reduce",) and len(args) >= 2:
            items = self.seq_items(args[1])
            if items is not None:
                acc = args[2] if len(args) > 2 else (items.pop(0) if items else self.unk("reduce"))
                for x in items:
                    acc = self.call(args[0], [acc, x], {}, node)
                return acc
            return self.unk("reduce")
        if n == "operator.attrgetter" and len(args) == 1 and args[0].op == "const":
            return mk("partial", mk("builtin", "%getattr2"), (args[0],), ())
        if n in ("copy.copy", "copy.deepcopy") and args:
            return self.copy_(args[0], n.endswith("deepcopy"))
        if n in ("itertools.chain", "itertools.chain.from_iterable"):
            parts = args
            if n.endswith("from_iterable"):
                parts = self.seq_items(args[0])
                if parts is None:
                    return self.unk("chain")
            segs = []
            for a in parts:
                s = self.iter_segs(a)
                if s is None:
                    return self.unk("chain")
                segs.extend(s)
            return self.alloc(ListRec("tuple", segs))
        if n in ("itertools.repeat",) and len(args) == 2:
            return self.list_repeat(ListRec("tuple", (("e", args[0]),)), args[1])
        if n.startswith(("typing.", "abc.", "collections.abc.", "enum.", "dataclasses.", "warnings.", "logging.")):
            return mk("extcall", n, tuple(args))
        self.trace.append(("ext", n, tuple(args), getattr(node, "lineno", 0)))
        return mk("extcall", n, tuple(args))

    def copy_(self, v, deep):
        v = self.res(v)
        r = self.rec(v) if v.op == "ref" else None
        if r is None:
            return v
        if isinstance(r, ListRec):
            segs = r.segs
            if deep:
                segs = tuple(("e", self.copy_(s[1], True)) if s[0] == "e" else s for s in segs)
            return self.alloc(ListRec(r.kind, segs))
        if isinstance(r, ArrRec):
            return self.alloc(ArrRec(r.shape, r.data, dt=r.dt))
        if isinstance(r, DictRec):
            return self.alloc(DictRec(r.items))
        if isinstance(r, ObjRec):
            return self.alloc(ObjRec(r.cls, {k: self.copy_(x, True) if deep else x for k, x in r.attrs.items()}))
        return v

    set_forward = False

    def set_order(self, segs):
        """The order a set is gone through is not that of its making, except for numbers: take another."""
        segs = tuple(segs)
        if not self.set_forward and len(segs) > 1 and all(s[0] == "e" for s in segs) and not all(is_const(s[1]) and isinstance(s[1].args[0], int) for s in segs):
            return segs[::-1]
        return segs

    def permuted(self, how, segs):
        """The elements of a loop in another order: element i is some
        element, not the i-th."""
        if segs is None or len(segs) != 1 or segs[0][0] != "rep" or len(segs[0][3]) != 1:
            return None
        lid = segs[0][1]

        def wrap(v, depth=0):
            v = self.res(v)
            r = self.rec(v) if v.op == "ref" else None
            if r is None or depth > 12:
                if v.op == "reversed" and how == "reversed":
                    return v.args[0]
                return mk(how, v) if any(x.op in ("idx", "chunk") or x.op == "leaf" and "[*]" in x.args[0] for x in subterms(v)) else v
            if isinstance(r, ListRec):
                def sg(s):
                    if s[0] == "e":
                        return ("e", wrap(s[1], depth + 1))
                    if s[0] == "rep":
                        return ("rep", s[1], wrap(s[2]), tuple(wrap(x, depth + 1) for x in s[3]))
                    return ("opaque", self.unk(how))
                return self.alloc(ListRec(r.kind, [sg(s) for s in r.segs]))
            if isinstance(r, ObjRec):
                return self.alloc(ObjRec(r.cls, {k: wrap(x, depth + 1) for k, x in r.attrs.items()}))
            return mk(how, v)
        return (("rep", lid, segs[0][2], (wrap(segs[0][3][0]),)),)

    # ------------------------------------------------------------------ struct
    def parse_fmt(self, fmt):
        """struct format -> [(code, count-for-s)], or None."""
        if fmt.op != "const" or not isinstance(fmt.args[0], (str, bytes)):
            return None
        f = fmt.args[0]
        if isinstance(f, bytes):
            f = f.decode()
        f = f.strip()
        order = "@"
        if f and f[0] in "@=<>!":
            order, f = f[0], f[1:]
        end = {">": ">", "!": ">", "<": "<", "=": "=", "@": "="}[order]
        out = []
        num = ""
        for ch in f:
            if ch.isspace():
                continue
            if ch.isdigit():
                num += ch
                continue
            k = int(num) if num else 1
            if ch == "s":
                out.append(("s", k))
            elif ch == "x":
                out.append(("x", k))
            elif ch in "bBhHiIlLqQfd?ec":
                c = ch
                if ch in "lL" and order in "<>!=":
                    c = CANON[ch]
                elif ch in "lL":
                    c = "q" if ch == "l" else "Q"
                if ch == "c":
                    out.extend([("s", 1)] * k)
                else:
                    n = code_size(c)
                    out.extend([(c if n == 1 else c + end, None)] * k)
            else:
                return None
            num = ""
        return out

    def fmt_size(self, codes):
        return sum(k if c in "sx" else code_size(c) for c, k in codes)

    def call_structmod(self, short, args, kwargs):
        if short == "Struct" and args:
            return mk("structobj", args[0])
        if short in ("unpack", "unpack_from", "iter_unpack") and len(args) > 1 and \
                (args[1].op == "str" or args[1].op == "const" and not isinstance(args[1].args[0], (bytes, bytearray))):
            self.problem("struct-buffer", show(args[1])[:40], f"struct.{short} of {show(args[1])[:40]}: not bytes", "TypeError")
            raise PathRaise("TypeError", "struct buffer")
        codes = self.parse_fmt(args[0]) if args else None
        if codes is None:
            rep = self.repeat_fmt(args[0]) if args else None
            if rep is not None:
                v = self.repeated(short, *rep, args[1:], kwargs)
                if v is not None:
                    return v
            if args and args[0].op == "ite":
                return self.fork(args[0].args[0],
                                 lambda: self.call_structmod(short, [args[0].args[1]] + args[1:], kwargs),
                                 lambda: self.call_structmod(short, [args[0].args[2]] + args[1:], kwargs))
            if args and args[0].op == "const":
                f = args[0].args[0]
                try:
                    _struct.calcsize(f)
                except (_struct.error, TypeError, UnicodeEncodeError) as e:
                    k = "error" if isinstance(e, _struct.error) else type(e).__name__
                    self.problem("struct-format", str(f), f"struct cannot read the format {f!r}", k)
                    raise PathRaise(k, "struct format")
            if args and self.is_number(args[0]):
                self.problem("struct-format", show(args[0])[:40], "the struct format is a number", "TypeError")
                raise PathRaise("TypeError", "struct format")
            return self.unk("struct format")
        if short == "calcsize":
            return const(self.fmt_size(codes))
        if short == "pack":
            return self.do_pack(codes, args[1:])
        if short == "pack_into" and len(args) > 2:
            b = self.res(args[1])
            r = self.rec(b) if b.op == "ref" else None
            n = self.fmt_size(codes)
            new = self.do_pack(codes, args[3:])
            if isinstance(r, ListRec) and r.kind == "bytearray":
                s = self.bytes_segs(b)
                old = bytes_(s) if s is not None else self.unk("buffer")
                ln = len_(old)
                off = args[2]
                if is_int(off) and is_int(ln) and old.op != "unk" and new.op != "unk" and 0 <= off.args[0] <= ln.args[0] - n:
                    k = off.args[0]
                    parts = (tm.bslice(old, 0, k), new, tm.bslice(old, k + n, ln.args[0] - k - n))
                    ss = [segs_of(x) for x in parts]
                    if None not in ss:
                        self.put(b, ListRec("bytearray", tuple(("bseg", x) for y in ss for x in y)))
                        return NONE
                self.put(b, ListRec("bytearray", (("opaque", self.unk("pack_into")),)))
                return NONE
        if short in ("unpack", "unpack_from", "iter_unpack"):
            off = 0
            if short == "iter_unpack":
                b, size = self.res(args[1]), self.fmt_size(codes)
                if b.op == "ref":
                    s = self.bytes_segs(b)
                    b = bytes_(s) if s is not None else self.unk("buffer")
                n = len_(b) if b.op != "unk" else None
                if n is None or not is_int(n) or not size or n.args[0] > 4096:
                    return self.unk("iter_unpack")
                if n.args[0] % size:
                    raise PathRaise("struct.error", "iter_unpack size")
                return self.alloc(ListRec("list", [("e", self.do_unpack(codes, tm.bslice(b, k, size), 0, True)) for k in range(0, n.args[0], size)]))
            if short == "unpack_from" and (len(args) > 2 or "offset" in kwargs):
                o = args[2] if len(args) > 2 else kwargs["offset"]
                if not is_int(o):
                    return self.unk("unpack_from offset")
                off = o.args[0]
            return self.do_unpack(codes, args[1], off, short == "unpack")
        return self.unk("struct." + short)

    def repeat_fmt(self, t):
        """(count, code) of a format such as f"{n}s", else None."""
        if t.op != "str":
            return None
        ps = [x for x in t.args[0] if not (x.op == "const" and x.args[0] in ("", ">", "<", "!", "=", "@"))]
        if len(ps) != 2 or ps[0].op != "fmt" or ps[0].args[1] not in ("", "d") or ps[1].op != "const" or ps[1].args[0] not in ("s", "B"):
            return None
        if t.args[0].index(ps[0]) not in (0, 1):
            return None
        return ps[0].args[0], ps[1].args[0]

    def repeated(self, short, n, c, args, kwargs):
        """struct functions with a computed repeat count of one byte each."""
        if kwargs or short not in ("calcsize", "unpack", "pack"):
            return None
        if short == "calcsize":
            return n

        def fail():
            raise PathRaise("struct.error", f"struct.{short} size")

        if short == "unpack":
            b = self.res(args[0])
            if b.op == "ref":
                s = self.bytes_segs(b)
                b = bytes_(s) if s is not None else self.unk("buffer")
            if b.op == "unk":
                return None

            def take():
                if c == "s":
                    return self.alloc(ListRec("tuple", [("e", b)]))
                segs = self.iter_segs(b)
                return self.alloc(ListRec("tuple", segs)) if segs is not None else self.unk("unpack")
            return self.fork(cmp_("<", n, ZERO), fail, lambda: self.fork(cmp_("==", n, len_(b)), take, fail))
        if len(args) != 1:
            return None
        if c == "s":
            v = self.res(args[0])
            if v.op == "ref":
                s = self.bytes_segs(v)
                v = bytes_(s) if s is not None else self.unk("bytes")
            if v.op == "unk":
                return None
            return self.fork(cmp_("==", n, len_(v)), lambda: v, lambda: self.unk("padded or cut to a length"))
        if args[0].op == "starargs":
            v = args[0].args[0]
            return self.fork(cmp_("==", n, self.call_builtin("len", [v], {}, None)), lambda: self.call_builtin("bytes", [v], {}, None), fail)
        return None

    def sort_items(self, items, kwargs):
        """The items in sorted order when their keys are known, else None."""
        rev = kwargs.get("reverse", FALSE)
        if items is None or rev.op != "const" or len(items) > 400:
            return None
        key = kwargs.get("key", NONE)
        keys = []
        for x in items:
            k = self.res(x) if key is NONE else self.res(self.call(key, [x], {}, None))
            part = self.seq_items(k) if k.op == "ref" else None
            if part is not None:
                k = self.res(part[0]) if part else k
            if k.op != "const" or k is NONE:
                return None
            keys.append(k.args[0])
            if part is not None and keys.count(keys[-1]) > 1:
                return None
        try:
            order = sorted(range(len(items)), key=lambda i: keys[i], reverse=bool(rev.args[0]))
        except TypeError:
            return None
        return [items[i] for i in order]

    def call_struct_obj(self, so, name, args, kwargs):
        if name in ("pack", "unpack", "unpack_from"):
            return self.call_structmod(name, [so.args[0]] + list(args), kwargs)
        return self.unk("Struct." + name)

    def do_pack(self, codes, vals):
        segs = []
        want = sum(1 for c, k in codes if c != "x")
        if any(v.op == "starargs" for v in vals):
            return self.unk("pack *args")
        if want != len(vals):
            self.problem("struct-arity", str(want), f"struct.pack expects {want} values, got {len(vals)}", "struct.error")
            raise PathRaise("struct.error", "pack arity")
        it = iter(vals)
        for c, k in codes:
            if c == "x":
                segs.append(("lit", bytes(k)))
            elif c == "s":
                v = next(it)
                n = len_(v)
                s = self.bytes_segs(v)
                if s is not None and is_int(n) and n.args[0] == k:
                    segs.extend(s)
                elif v.op == "const" and isinstance(v.args[0], bytes):
                    segs.append(("lit", v.args[0][:k].ljust(k, b"\0")))
                else:
                    segs.append(("raw", mk("padto", v, k), 0, k))
            else:
                v = self.res(next(it))
                self.check_packable(c, v)
                self.fits(c, v, "struct.error")
                segs.append(self.pack(c, v))
        return bytes_(tuple(segs))

    def fits(self, c, v, exc):
        """A number that may be out of the range of its field is refused there."""
        if not self.wide or not (c[0] in tm.INT_CODES or c[0] in "uS") or \
                not any(x.op == "leaf" and x.args[1] in ("any int", "count") for x in tm.subterms(v)):
            return
        n = 8 * tm.code_size(c)
        sg = tm.INT_CODES[c[0]][1] if c[0] in tm.INT_CODES else c[0] == "S"
        lo, hi = (-(1 << n - 1), (1 << n - 1) - 1) if sg else (0, (1 << n) - 1)
        for t in (cmp_("<=", const(lo), v), cmp_("<=", v, const(hi))):
            if any(self._catches(h, exc) for h in self.handlers):
                def fail():
                    raise PathRaise(exc, "number out of range")
                self.fork(t, lambda: NONE, fail)
            elif t.op != "const":
                self.trace.append(("assume", t, True))

    def pack(self, c, v):
        return pack_seg(c, v)

    def check_packable(self, c, v):
        """Definite type errors of struct.pack."""
        bad = None
        if v is NONE:
            bad = "None"
        elif v.op == "ref":
            r = self.rec(v)
            if isinstance(r, ObjRec):
                if r.cls.op == "cls" and (self.lookup_method(v, "__index__") is not None or self.lookup_method(v, "__float__") is not None):
                    return
                bad = self.clsname(r.cls) + " object"
            elif isinstance(r, ListRec):
                bad = r.kind
        elif v.op == "const" and isinstance(v.args[0], (str, bytes)):
            bad = repr(v.args[0])
        elif v.op in ("chunk", "bytes", "str"):
            bad = "bytes" if v.op != "str" else "str"
        elif c[0] in "bBhHiIqQlL" and v.op == "const" and isinstance(v.args[0], float):
            bad = f"float {v.args[0]!r}"
        elif c[0] in "bBhHiIqQlL" and v.op == "unpack" and v.args[0][0] in "fd":
            bad = "a float"
        elif v.op == "ite":
            a, b = v.args[1], v.args[2]
            if a is NONE or b is NONE or a.op == "ref" or b.op == "ref":
                self.fork(v.args[0], lambda: (self.check_packable(c, self.res(a)), NONE)[1],
                          lambda: (self.check_packable(c, self.res(b)), NONE)[1])
            return
        elif v is UNDEF:
            bad = "undefined"
        elif v.op in ("cls", "func", "bound", "builtin", "mod", "subscripted"):
            bad = f"{v.op} object"
        if bad:
            self.problem("pack-type", c, f"struct format {c!r} cannot pack {bad}", "struct.error")
            raise PathRaise("struct.error", "pack type")

    def do_unpack(self, codes, b, off, exact):
        b = self.res(b)
        if b.op == "ite":
            return self.fork(b.args[0], lambda: self.do_unpack(codes, b.args[1], off, exact),
                             lambda: self.do_unpack(codes, b.args[2], off, exact))
        size = self.fmt_size(codes)
        if b.op == "ref":
            s = self.bytes_segs(b)
            b = bytes_(s) if s is not None else self.unk("buffer")
        if b.op not in ("unk",):
            n = len_(b)
            if exact and is_int(n) and n.args[0] != size:
                self.problem("struct-size", f"{size}", f"struct.unpack needs {size} bytes but the buffer has {n.args[0]}", "struct.error")
                raise PathRaise("struct.error", "unpack size")
        out = []
        for c, k in codes:
            if c == "x":
                off += k
            elif c == "s":
                out.append(("e", bslice(b, off, k)))
                off += k
            else:
                out.append(("e", unpack_(c, b, off)))
                off += code_size(c)
        return self.alloc(ListRec("tuple", out))

    # ---------------------------------------------------------- ctypes bitfields
    def struct_fields(self, ct):
        v, t = self.class_lookup(ct, "_fields_")
        if v is None:
            return None
        out = []
        items = self.seq_items(v)
        if items is None:
            return None
        for it in items:
            e = self.seq_items(it)
            if e is None or len(e) not in (2, 3) or e[0].op != "const":
                return None
            base = e[1].args[0] if e[1].op == "ext" else None
            w = {"c_uint8": 8, "c_ubyte": 8, "c_uint16": 16, "c_ushort": 16, "c_uint32": 32,
                 "c_uint": 32, "c_uint64": 64, "c_int8": 8, "c_int16": 16, "c_int32": 32}.get((base or "").rsplit(".", 1)[-1])
            if w is None:
                return None
            sg = "c_int" in base
            if len(e) == 3 and not is_int(e[2]):
                return None
            out.append((e[0].args[0], w, e[2].args[0] if len(e) == 3 else None, sg))
        return out

    def bit_layout(self, ct):
        """[(name, bit offset, bits)], total bytes, big-endian?  — MSB-first
        packing inside storage units of a common width."""
        f = self.struct_fields(ct)
        if not f:
            return None
        be = any(x.endswith("BigEndianStructure") for x in self.ext_bases(ct))
        if any(s for *_, s in f):
            return None
        size = ofs = unit = 0         # bytes so far, bits used in the open unit, its width
        align = 1
        out = []
        for name, w, bits, _ in f:
            if bits is not None and unit == w and ofs + bits <= w:
                start = size * 8 - w
            elif bits is not None and unit and unit < w and ofs + bits <= w:
                return None           # the open unit grows: not modelled
            else:
                size = -(-size // (w // 8)) * (w // 8) + w // 8
                start, ofs, unit = size * 8 - w, 0, w if bits is not None else 0
            n = w if bits is None else bits
            if be:
                at = start + ofs
            elif ofs // 8 == (ofs + n - 1) // 8:
                at = start + ofs // 8 * 8 + 8 - ofs % 8 - n
            else:
                return None           # least significant octet first: the field is in pieces
            out.append((name, at, n))
            ofs = ofs + bits if bits is not None else 0
            align = max(align, w // 8)
        out.sort(key=lambda x: x[1])
        return out, -(-size // align) * align

    def sizeof(self, ct):
        if ct.op == "cls":
            l = self.bit_layout(ct)
            if l:
                return const(l[1])
        return self.unk("sizeof")

    def make_bitstruct(self, ct, args, kwargs):
        lay = self.bit_layout(ct)
        if lay is None:
            return self.unk("ctypes structure")
        o = self.alloc(ObjRec(ct, {f[0]: ZERO for f in self.struct_fields(ct)}))
        f, _ = self.class_lookup(ct, "__init__")
        if f is not None and f.op == "func":
            self.call(mk("bound", f, o), args, kwargs, self.curnode)
        else:
            self.init_bitstruct(o, args, kwargs)
        return o

    def init_bitstruct(self, o, args, kwargs):
        """ctypes.Structure.__init__: each value is assigned to its field."""
        ct = self.rec(o).cls
        names = [f[0] for f in self.struct_fields(ct)]
        if len(args) > len(names):
            self.problem("call-arity", self.clsname(ct), "too many initializers", "TypeError")
            raise PathRaise("TypeError", "too many initializers")
        if self.class_lookup(ct, "__setattr__")[0] is None:
            attrs = dict(self.rec(o).attrs, **dict(zip(names, args)))
            attrs.update({k: v for k, v in kwargs.items() if k in names})
            attrs = {k: self.in_bits(ct, k, v) for k, v in attrs.items()}
            self.put(o, ObjRec(ct, attrs, self.rec(o).origin))
            return
        for k, v in list(zip(names, args)) + list(kwargs.items()):
            self.setattr_(o, k, v)

    def bitstruct_bytes(self, o):
        r = self.rec(o)
        lay = self.bit_layout(r.cls)
        if lay is None:
            return self.unk("bit layout")
        fields, nbytes = lay
        parts = []
        pos = 0
        src = None
        ok = True
        for name, off, bits in fields:
            if off > pos:
                parts.append((pos, off - pos, ZERO))
            v = self.res(r.attrs.get(name, ZERO))
            parts.append((off, bits, v))
            pos = off + bits
        if pos < nbytes * 8:
            parts.append((pos, nbytes * 8 - pos, ZERO))
        # all bits of one chunk, unmodified?
        for off, bits, v in parts:
            if v.op == "bits" and v.args[1] == off and v.args[2] == bits and (src is None or v.args[0] is src):
                src = v.args[0]
            else:
                ok = False
        if ok and src is not None:
            return bytes_((("raw", src, 0, nbytes),))
        if all(v.op == "const" and isinstance(v.args[0], int) for _, _, v in parts):
            x = 0
            for off, bits, v in parts:
                x = (x << bits) | (int(v.args[0]) & ((1 << bits) - 1))
            return const(x.to_bytes(nbytes, "big"))
        return bytes_((("bits", nbytes, tuple((bits, v) for _, bits, v in parts)),))

    # -------------------------------------------------------------- intrinsics
    def raw_in(self, name="input"):
        return self.alloc(ObjRec(mk("intr", "RawIn"), {"name": const(name)}))

    def raw_out(self, name="output"):
        return self.alloc(ObjRec(mk("intr", "RawOut"), {"name": const(name)}))

    def intr_getattr(self, o, r, name):
        return mk("intrmeth", o, name)

    def new_chunk(self, n):
        self.next_chunk += 1
        return mk("chunk", self.next_chunk, n)

    def call_intr(self, o, name, args, kwargs, node):
        r = self.rec(o)
        kind = r.cls.args[0]
        line = getattr(node, "lineno", 0)
        if kind == "BytesIO" and name in ("read", "seek", "tell", "getvalue", "getbuffer", "read1", "readline", "readlines"):
            v = self.memory_stream(o, r, name, [self.res(a) for a in args])
            if v is not None:
                return v
        if name == "read":
            n = args[0] if args else NONE
            n = self.res(n)
            if n is NONE or (is_int(n) and n.args[0] < 0):
                n = mk("rest", self.next_chunk)
            c = self.read_hook(o, n, line) if self.read_hook is not None else None
            if c is None:
                c = self.new_chunk(n)
            self.trace.append(("rd", o, c) + self.site())
            return c
        if name == "readinto":
            return self.unk("readinto")
        if name == "write":
            v = self.res(args[0])
            if v.op == "ref":
                s = self.bytes_segs(v)
                if s is None:
                    rr = self.rec(v)
                    if isinstance(rr, ListRec) and rr.kind != "bytearray":
                        self.problem("write-type", rr.kind, f"stream.write of a {rr.kind}", "TypeError")
                        raise PathRaise("TypeError", "write")
                    if isinstance(rr, ObjRec) and rr.cls.op == "cls":
                        if any(x.endswith("Structure") for x in self.ext_bases(rr.cls)):
                            v = self.bitstruct_bytes(v)
                            s = segs_of(v)
                        else:
                            self.problem("write-type", self.clsname(rr.cls), f"stream.write of a {self.clsname(rr.cls)}", "TypeError")
                            raise PathRaise("TypeError", "write")
                v = bytes_(s) if s is not None else self.unk("write value")
            elif v is NONE or (v.op == "const" and not isinstance(v.args[0], bytes)) or v.op == "str" or v.op in ("unpack", "bin", "len"):
                self.problem("write-type", show(v), f"stream.write of {show(v)}", "TypeError")
                raise PathRaise("TypeError", "write")
            self.trace.append(("wr", o, v) + self.site())
            return len_(v) if v.op != "unk" else self.unk("len")
        if name in ("seek",):
            self.trace.append(("seek", o, tuple(args)) + self.site())
            return self.unk("seek result")
        if name == "tell":
            return mk("tell", o, len(self.trace))
        if name == "getvalue":
            return self.written(o, list(self.trace), ())
        if name in ("__enter__",):
            return o
        if name in ("__exit__", "close", "flush"):
            return NONE
        if name in ("getbuffer",):
            return r.attrs.get("data", self.unk("getbuffer"))
        if name in ("readable", "seekable", "writable"):
            return TRUE
        self.trace.append(("intr", name, o, line))
        return self.unk(f"stream.{name}")

    def memory_stream(self, o, r, name, args):
        """A BytesIO over bytes the program itself has read or made."""
        d = self.res(r.attrs.get("data", const(b"")))
        if d.op == "ref":
            sg = self.bytes_segs(d)
            d = bytes_(sg) if sg is not None else self.unk("BytesIO data")
        wrote = any(_mentions(ev, o, ("wr",)) for ev in self.trace)
        if name == "read" and d.op == "const" and not d.args[0] and not wrote and not self.loopstack:
            return const(b"")
        if d.op in ("leaf", "filedata") or (d.op == "const" and not d.args[0] and not wrote):
            return None
        if wrote:
            if not (d.op == "const" and not d.args[0]) or name in ("getvalue", "getbuffer"):
                return None
            if name != "seek" or not (is_int(args[0]) and args[0].args[0] == 0 and len(args) == 1):
                if name == "tell":
                    d = self.written(o, list(self.trace), ())
                    return self.unk("tell") if d.op == "unk" else len_(d)
                return self.unk(f"BytesIO.{name} after write")
            # rewound for reading: what was written is its content from now on
            d = self.written(o, list(self.trace), ())
            o2 = self.rec(o)
            self.put(o, ObjRec(o2.cls, dict(o2.attrs, data=d, pos=ZERO), o2.origin))
            self.trace = [ev for ev in self.trace if not (ev[0] == "wr" and ev[1] is o)]
            if any(_mentions(ev, o) for ev in self.trace):
                return self.unk("BytesIO rewound after conditional writes")
            return ZERO
        pos = self.res(r.attrs.get("pos", ZERO))
        set_pos = lambda p: self.put(o, ObjRec(r.cls, dict(r.attrs, pos=p), r.origin))
        if name in ("getvalue", "getbuffer"):
            return d
        if name == "tell":
            return pos
        if name == "seek":
            wh = args[1] if len(args) > 1 else ZERO
            base = {0: ZERO, 1: pos, 2: len_(d)}.get(wh.args[0]) if is_int(wh) else None
            new = bin_("+", base, args[0]) if base is not None else self.unk("seek")
            set_pos(new)
            return new
        n = args[0] if args else NONE
        if name in ("readline", "readlines"):
            if not (d.op == "const" and isinstance(d.args[0], bytes) and is_int(pos) and not args):
                return None
            import io
            f = io.BytesIO(d.args[0])
            f.seek(pos.args[0])
            v = f.readline() if name == "readline" else f.readlines()
            set_pos(const(f.tell()))
            return const(v) if name == "readline" else self.alloc(ListRec("list", [("e", const(x)) for x in v]))
        if n is NONE or (is_int(n) and n.args[0] < 0):
            hi = NONE
        else:
            hi = bin_("+", pos, n)
        v = self.getitem(d, mk("slice", pos, hi, NONE))
        set_pos(bin_("+", pos, len_(v)) if v.op != "unk" else self.unk("stream position"))
        return v

    def written(self, o, evs, pre):
        """The bytes the events write to the stream o, after the segments pre."""
        pre = tuple(pre)
        for i, ev in enumerate(evs):
            if ev[0] == "wr" and ev[1] is o:
                if ev[2].op == "ite":
                    c, a, b = ev[2].args
                    rest = evs[i + 1:]
                    return ite(c, self.written(o, [("wr", o, a)] + rest, pre), self.written(o, [("wr", o, b)] + rest, pre))
                s = segs_of(ev[2])
                if s is None:
                    return self.unk("getvalue")
                pre += tuple(s)
            elif ev[0] == "seek" and ev[1] is o:
                return self.unk("getvalue after seek")
            elif ev[0] == "if" and _mentions(ev, o):
                rest = evs[i + 1:]
                return ite(ev[1], self.written(o, list(ev[2]) + rest, pre), self.written(o, list(ev[3]) + rest, pre))
            elif ev[0] == "loop" and _mentions(ev, o):
                b = self.written(o, list(ev[3]), ())
                s = segs_of(b)
                if s is None:
                    return self.unk("getvalue")
                pre += (("rep", ev[1], ev[2], tuple(s)),)
        return bytes_(pre)

    # ---------------------------------------------------------------- builtins
    def is_number(self, v):
        return v.op in ("unpack", "bits", "cmp", "not", "truthy", "int", "float", "idx", "len", "bin") or is_const(v) or \
            (v.op == "leaf" and v.args[1] in NUM_KINDS)

    def known_codec(self, enc):
        """Raise LookupError for a text encoding that does not exist."""
        import codecs
        if isinstance(enc, str):
            try:
                codecs.lookup(enc)
            except LookupError:
                self.problem("unknown-encoding", enc, f"there is no text encoding {enc!r}", "LookupError")
                raise PathRaise("LookupError", f"unknown encoding {enc}")

    def isinstance_(self, v, c):
        if self.is_number(c) and c.op != "bin" or c is NONE or (c.op == "const" and not isinstance(c.args[0], (tuple, type))):
            self.problem("isinstance-arg", show(c)[:40], "second argument of isinstance is not a type", "TypeError")
            raise PathRaise("TypeError", "isinstance")
        v = self.res(v)
        c = self.res(c)
        if c.op == "ref":
            items = self.seq_items(c) or []
            r = FALSE
            for x in items:
                r = ite(r, TRUE, self.isinstance_(v, x))
            return r
        if c.op == "bin" and c.args[0] == "|":
            return ite(self.isinstance_(v, c.args[1]), TRUE, self.isinstance_(v, c.args[2]))
        if v.op == "ite":
            return ite(v.args[0], self.isinstance_(v.args[1], c), self.isinstance_(v.args[2], c))
        if c.op == "builtin":
            n = c.args[0]
            if n == "object":
                return TRUE
            if v.op == "const":
                py = {"int": int, "float": float, "str": str, "bytes": bytes, "bool": bool, "tuple": tuple, "list": list, "dict": dict, "bytearray": bytearray, "type": type, "set": set}.get(n)
                return const(isinstance(v.args[0], py)) if py else self.unk("isinstance")
            if v.op == "unpack":
                k = v.args[0][0]
                return const((n == "int" and (k in INT_CODES or k in "uS?")) or (n == "float" and k in "fde") or (n == "bool" and k == "?"))
            if v.op in ("bits", "len", "idx", "ord"):
                return const(n == "int")
            if v.op == "leaf":
                k = v.args[1]
                if k in ("uint", "int", "count", "any int"):
                    return const(n == "int")
                if k == "float":
                    return const(n in ("float",)) if n != "int" else FALSE
                if k == "bytes":
                    return const(n == "bytes")
                if k == "str":
                    return const(n == "str")
            if v.op in ("chunk", "bytes"):
                return const(n == "bytes")
            if v.op == "str":
                return const(n == "str")
            if v.op == "ref":
                r = self.rec(v)
                if isinstance(r, ListRec):
                    return const(n == r.kind)
                if isinstance(r, DictRec):
                    return const(n == "dict")
                return FALSE
            if v.op == "cls":
                return const(n == "type")
            if v.op == "bin" and n in ("int", "float"):
                l = tm_intlike(v)
                if l:
                    return const(n == "int")
            if is_bool(v):
                return const(n in ("bool", "int"))
            return mk("isinst", v, c)
        if c.op == "cls":
            if v.op == "ref":
                r = self.rec(v)
                if isinstance(r, ObjRec) and r.cls.op == "cls":
                    return const(c in self.mro(r.cls))
                return FALSE
            if v.op in ("const", "unpack", "bits", "chunk", "bytes", "str", "len"):
                return FALSE
            return mk("isinst", v, c)
        if c.op == "ext":
            if v.op == "ref" and isinstance(self.rec(v), ArrRec):
                return const(c.args[0].endswith("ndarray"))
            if v.op in ("const", "unpack", "chunk", "bytes", "len", "bits") or v.op == "ref":
                if c.args[0] in ("collections.abc.Sequence", "typing.Sequence", "collections.abc.Iterable"):
                    r = self.rec(v) if v.op == "ref" else None
                    return const(isinstance(r, ListRec))
                return FALSE
        return mk("isinst", v, c)

    def issub(self, a, b):
        a, b = self.res(a), self.res(b)
        if a.op == "ite":
            return ite(a.args[0], self.issub(a.args[1], b), self.issub(a.args[2], b))
        if b.op == "ref":
            r = FALSE
            for x in self.seq_items(b) or []:
                r = ite(r, TRUE, self.issub(a, x))
            return r
        if a.op == "cls" and b.op == "cls":
            return const(b in self.mro(a))
        if a.op == "builtin" and b.op == "builtin":
            return const(a is b or (a.args[0] == "bool" and b.args[0] == "int"))
        if a.op == "cls":
            return const(b in self.mro(a) or (b.op == "builtin" and b.args[0] == "object"))
        return self.unk("issubclass")

    def to_num(self, kind, v):
        v = self.res(v)
        if v.op == "const":
            try:
                return const(int(v.args[0]) if kind == "int" else float(v.args[0]))
            except (TypeError, ValueError):
                self.problem("conversion", kind, f"{kind}({v.args[0]!r}) fails", "TypeError")
                raise PathRaise("TypeError", kind)
        if v.op == "ite":
            a, b = v.args[1], v.args[2]
            return ite(v.args[0], self.to_num(kind, a), self.to_num(kind, b))
        if kind == "int":
            if v.op in ("unpack",) and (v.args[0][0] in INT_CODES or v.args[0][0] in "uS?"):
                return v
            if v.op in ("bits", "len", "idx", "ord"):
                return v
            if v.op == "leaf" and v.args[1] in ("uint", "int", "count", "any int"):
                return v
            if is_bool(v):
                if v.op == "truthy" and self.bitwidth(v.args[0]) == 1:
                    return v.args[0]
                return mk("int", v)
            if v.op == "bin" and tm_intlike(v):
                return v
            if v.op == "truthy":
                return mk("int", v)
        else:
            if v.op == "unpack" and v.args[0][0] in "fde":
                return v
            if v.op == "leaf" and v.args[1] == "float":
                return v
            if v.op in ("bin", "fn", "neg", "sym") and not tm_intlike(v):
                return v
        r = self.rec(v) if v.op == "ref" else None
        if isinstance(r, (ListRec, DictRec)) or (isinstance(r, ObjRec) and r.cls.op == "cls" and
                                                 self.lookup_method(v, f"__{kind}__") is None):
            self.problem("conversion", kind, f"{kind}() of a non-number", "TypeError")
            raise PathRaise("TypeError", kind)
        if isinstance(r, ArrRec) and len(r.data) == 1:
            return r.data[0]
        return mk(kind, v)

    def bitwidth(self, v):
        if v.op == "bits":
            return v.args[2]
        if v.op == "leaf" and v.args[1] == "bit":
            return 1
        return None

    def call_builtin(self, n, args, kwargs, node):
        a0 = self.res(args[0]) if args else None
        if n in ("int", "float"):
            if not args:
                return const(0 if n == "int" else 0.0)
            if len(args) > 1:
                return self.unk("int base")
            return self.to_num(n, a0)
        if n == "bool":
            if not args:
                return FALSE
            return self.truth_of(a0)
        if n == "str":
            if not args:
                return const("")
            if a0.op == "const" and isinstance(a0.args[0], (str, int)):
                return const(str(a0.args[0]))
            if a0.op == "str":
                return a0
            return mk("str", (mk("fmt", a0, ""),))
        if n == "len":
            self.not_lazy(a0, "has no len()", "len")
            return self.length(a0)
        if n == "range":
            z, one = ZERO, const(1)
            b = [self.res(x) for x in args]
            for x in b:
                if x is NONE or (x.op == "const" and not isinstance(x.args[0], int)) or (x.op == "ref"):
                    self.problem("range-type", show(x), f"range() of {show(x)}", "TypeError")
                    raise PathRaise("TypeError", "range")
            if len(b) == 1:
                return mk("range", z, b[0], one)
            if len(b) == 2:
                return mk("range", b[0], b[1], one)
            return mk("range", *b[:3])
        if n == "print":
            self.trace.append(("ext", "print", tuple(args), getattr(node, "lineno", 0)))
            return NONE
        if n == "isinstance":
            return self.isinstance_(a0, args[1])
        if n == "issubclass":
            return self.issub(a0, args[1])
        if n == "callable":
            return const(a0.op in ("func", "bound", "cls", "builtin", "ext", "bmeth"))
        if n == "hasattr":
            return self.hasattr_(a0, args[1])
        if n in ("getattr", "%getattr2"):
            if n == "%getattr2":
                a0, nm = self.res(args[1]), args[0]
                d = None
            else:
                nm = self.res(args[1])
                d = args[2] if len(args) > 2 else None
            if nm.op == "const" and isinstance(nm.args[0], str):
                return self.getattr_nomangle(a0, nm.args[0], d)
            if nm.op == "ite":
                return self.fork(nm.args[0], lambda: self.call_builtin("getattr", [a0, nm.args[1]] + args[2:], kwargs, node),
                                 lambda: self.call_builtin("getattr", [a0, nm.args[2]] + args[2:], kwargs, node))
            return self.unk("getattr name")
        if n == "setattr":
            nm = self.res(args[1])
            if nm.op == "const":
                self.setattr_(a0, nm.args[0], args[2])
            else:
                self.unk("setattr name")
            return NONE
        if n == "delattr":
            self.unk("delattr")
            return NONE
        if n == "super":
            return self.make_super(args)
        if n == "type":
            if len(args) == 1:
                if a0.op == "ref":
                    r = self.rec(a0)
                    if isinstance(r, ObjRec) and r.cls.op == "cls":
                        return r.cls
                    if isinstance(r, ListRec):
                        return mk("builtin", r.kind)
                return self.unk("type()")
            return self.unk("type()")
        if n in ("list", "tuple", "set", "frozenset"):
            if not args:
                return self.alloc(ListRec(n, ()))
            if a0.op == "ite" and has_ref(a0):
                return self.fork(a0.args[0], lambda: self.call_builtin(n, [a0.args[1]], kwargs, node),
                                 lambda: self.call_builtin(n, [a0.args[2]], kwargs, node))
            segs = self.iter_segs(a0)
            if segs is None:
                if a0.op == "leaf":
                    r = self.leaf_as_list(a0)
                    if r is not None:
                        return r
                return self.alloc(ListRec(n, (("opaque", a0),)))
            if n in ("set", "frozenset"):
                p = self.permuted("set", segs)
                if p is not None and segs[0][2].op != "range" and not (a0.op == "range"):
                    segs = (("rep", p[0][1], mk("distinct", p[0][2]), p[0][3]),)
                segs = self.set_order(segs)
            return self.alloc(ListRec(n, segs))
        if n == "dict":
            if not args:
                return self.alloc(DictRec([(const(k), v) for k, v in kwargs.items()]))
            r = self.rec(a0)
            if isinstance(r, DictRec):
                return self.alloc(DictRec(r.items + tuple((const(k), v) for k, v in kwargs.items())))
            items = self.seq_items(a0)
            if items is not None:
                out = []
                for it in items:
                    kv = self.seq_items(it)
                    if kv is None or len(kv) != 2:
                        return self.unk("dict()")
                    out.append((kv[0], kv[1]))
                return self.alloc(DictRec(out))
            return self.unk("dict()")
        if n in ("bytes", "bytearray"):
            return self.mk_bytes(n, args, kwargs)
        if n == "memoryview":
            return a0
        if n == "enumerate":
            start = args[1] if len(args) > 1 else kwargs.get("start", ZERO)
            segs = self.iter_segs(a0)
            if segs is None:
                return self.unk("enumerate")
            out = []
            k = start
            for s in segs:
                if s[0] == "e":
                    out.append(("e", self.alloc(ListRec("tuple", [("e", k), ("e", s[1])]))))
                    k = bin_("+", k, const(1))
                elif s[0] == "rep" and len(s[3]) == 1:
                    i = mk("idx", s[1])
                    out.append(("rep", s[1], s[2], (self.alloc(ListRec("tuple", [("e", bin_("+", i, k)), ("e", s[3][0])])),)))
                    k = bin_("+", k, s[2])
                else:
                    return self.unk("enumerate")
            return mk("iter", tuple(out))
        if n == "zip":
            return self.zip_(args)
        if n == "map":
            if node is not None and node is self.dropped:
                return NONE     # a map that is never advanced calls nothing
            acc = self.alloc(ListRec("iterator", ()))
            segs = [self.iter_segs(x) for x in args[1:]]
            if len(segs) == 1 and segs[0] is not None:
                def bind(v):
                    self.env["%m"] = v

                def body():
                    v = self.call(a0, [self.env["%m"]], {}, node)
                    self.put(acc, self.rec(acc).with_segs(self.rec(acc).segs + (("e", v),)))
                    return Leaf(NORMAL, None, self.snap())
                self.collapse(self.run_segs_fn(segs[0], bind, body, node))
                self.env.pop("%m", None)
                return acc
            items = [self.seq_items(x) for x in args[1:]]
            if all(i is not None for i in items):
                return self.alloc(ListRec("iterator", [("e", self.call(a0, list(t), {}, node)) for t in zip(*items)]))
            return self.unk("map")
        if n == "filter":
            items = self.seq_items(args[1])
            if a0 is NONE and items is not None and all(x.op == "const" for x in items):
                return self.alloc(ListRec("list", [("e", x) for x in items if x.args[0]]))
            return mk("filtered", a0, self.value_key(args[1]))
        if n == "sum":
            segs = self.iter_segs(a0)
            if segs is None:
                return self.unk("sum")
            tot = self.sum_segs(segs, args[1] if len(args) > 1 else ZERO)
            return self.unk("sum") if tot is None else tot
        if n in ("any", "all"):
            items = self.seq_items(a0)
            if items is None:
                return self.unk(n)
            r = FALSE if n == "any" else TRUE
            for x in reversed(items):
                t = self.truth_of(x)
                r = ite(t, TRUE, r) if n == "any" else ite(t, r, FALSE)
            return r
        if n in ("min", "max"):
            items = list(args) if len(args) > 1 else self.seq_items(a0)
            if items is None or kwargs:
                return self.unk(n)
            if all(x.op == "const" for x in items):
                return const((min if n == "min" else max)(x.args[0] for x in items))
            acc = items[0]
            for x in items[1:]:
                if acc is x:
                    continue
                # max(0, n) with n >= 0
                if n == "max" and acc is ZERO and nonneg(x):
                    acc = x
                elif n == "max" and x is ZERO and nonneg(acc):
                    pass
                else:
                    acc = mk("minmax", n, acc, x)
            return acc
        if n == "abs":
            if a0.op == "const":
                return const(abs(a0.args[0]))
            return mk("fn", "fabs", a0)
        if n == "round":
            return mk("round", a0, args[1] if len(args) > 1 else NONE)
        if n == "pow" and len(args) == 2:
            return self.binop("**", args[0], args[1])
        if n == "divmod":
            return self.alloc(ListRec("tuple", [("e", self.binop("//", args[0], args[1])), ("e", self.binop("%", args[0], args[1]))]))
        if n == "ord":
            if a0.op == "const":
                try:
                    return const(ord(a0.args[0]))
                except TypeError:
                    self.problem("conversion", "ord", f"ord({a0.args[0]!r})", "TypeError")
                    raise PathRaise("TypeError", "ord")
            if a0.op == "chr":
                return a0.args[0]
            return mk("ord", a0)
        if n == "chr":
            if a0.op == "const":
                return const(chr(a0.args[0]))
            if a0.op == "ord":
                return a0.args[0]
            return mk("chr", a0)
        if n == "reversed":
            items = self.seq_items(a0)
            if items is not None:
                return self.alloc(ListRec("tuple", [("e", x) for x in reversed(items)]))
            segs = self.permuted("reversed", self.iter_segs(a0))
            return mk("iter", segs) if segs is not None else self.unk("reversed")
        if n == "sorted":
            items = self.seq_items(a0)
            if items is not None and all(x.op == "const" for x in items) and not kwargs:
                try:
                    return self.alloc(ListRec("list", [("e", const(x)) for x in sorted(i.args[0] for i in items)]))
                except TypeError:
                    pass
            if items is not None and len(items) < 2:
                return self.alloc(ListRec("list", [("e", x) for x in items]))
            done = self.sort_items(items, kwargs)
            if done is not None:
                return self.alloc(ListRec("list", [("e", x) for x in done]))
            segs = self.permuted("sorted", self.iter_segs(a0)) if items is None else None
            return self.alloc(ListRec("list", segs)) if segs is not None else self.unk("sorted")
        if n == "iter":
            segs = self.iter_segs(a0)
            if segs is None or len(args) > 1:
                return self.unk("iter")
            return self.alloc(ListRec("iterator", segs))
        if n == "next":
            r = self.rec(a0)
            if isinstance(r, ListRec) and r.segs and r.segs[0][0] == "e":
                v = r.segs[0][1]
                if r.kind == "iterator":
                    self.put(a0, r.with_segs(r.segs[1:]))
                return v
            if isinstance(r, ListRec) and not r.segs:
                if len(args) > 1:
                    return args[1]
                self.problem("stop-iteration", "next", "next() of an exhausted iterator", "StopIteration")
                raise PathRaise("StopIteration", "next")
            return self.unk("next")
        if n == "repr" or n == "format" or n == "hex":
            return mk("str", (mk("fmt", a0, n),))
        if n == "id" or n == "hash":
            return self.unk(n)
        if n == "vars":
            return self.getattr_(a0, "__dict__")
        if n == "open":
            return self.call_ext("io.open", args, kwargs, node)
        if n == "slice":
            x = [self.res(y) for y in args] 
            if len(x) == 1:
                x = [NONE, x[0], NONE]
            while len(x) < 3:
                x.append(NONE)
            return mk("slice", *x)
        if n.startswith("object."):
            if n == "object.__new__" and args:
                return self.alloc(ObjRec(args[0], {}))
            if n == "object.__setattr__" and len(args) == 3:
                return self.call(mk("objsetattr", self.res(args[0])), args[1:], {}, None)
            if n == "object.__getattribute__" and len(args) == 2 and self.res(args[1]).op == "const":
                o = self.res(args[0])
                r = self.rec(o)
                if isinstance(r, ObjRec):
                    return self.obj_getattr(o, r, self.res(args[1]).args[0], None)
            return NONE
        if n == "object":
            return self.alloc(ObjRec(mk("intr", "object"), {}))
        if n == "int.from_bytes":
            order = args[1] if len(args) > 1 else kwargs.get("byteorder", const("big"))
            sg = kwargs.get("signed", FALSE)
            ln = len_(a0) if a0.op != "ref" else self.unk("x")
            if is_int(ln) and ln.args[0] == 0:
                return const(0)
            if is_int(ln) and order.op == "const" and sg.op == "const" and 0 < ln.args[0] <= 9:
                return unpack_(int_code(ln.args[0], bool(sg.args[0]), ">" if order.args[0] == "big" else "<"), a0, 0)
            return self.unk("from_bytes")
        if n in ("int.to_bytes", "float.fromhex", "bytes.fromhex", "dict.fromkeys", "str.maketrans"):
            if n == "int.to_bytes":
                return self.call_bmeth(a0, "to_bytes", list(args[1:]), kwargs, node)
            if n == "bytes.fromhex" and a0.op == "const":
                return const(bytes.fromhex(a0.args[0]))
            return self.unk(n)
        if n.endswith("Error") or n.endswith("Exception") or n in ("StopIteration", "KeyboardInterrupt"):
            return mk("exc", n)
        if n in ("list.append",) and len(args) == 2:
            return self.call_bmeth(a0, "append", list(args[1:]), kwargs, node)
        if "." in n:
            return self.call_bmeth(a0, n.split(".", 1)[1], list(args[1:]), kwargs, node) if args else self.unk(n)
        return self.unk(f"builtin {n}")

    def value_key(self, v):
        items = self.seq_items(v)
        if items is not None:
            return mk("tuple", *items)
        r = self.rec(v) if v.op == "ref" else None
        if isinstance(r, ListRec) and len(r.segs) == 1 and r.segs[0][0] == "rep" and len(r.segs[0][3]) == 1:
            s = r.segs[0]
            return mk("reptuple", s[1], s[2], s[3][0])
        return v

    def sum_segs(self, segs, tot):
        """Sum of the elements of the segments, added to tot."""
        def plus(x, y):
            return y if x is ZERO else x if y is ZERO else bin_("+", x, y)
        for s in segs:
            if s[0] == "e":
                tot = s[1] if tot is ZERO else self.binop("+", tot, s[1])
            elif s[0] == "rep":
                for v in s[3]:
                    if any(x.op in ("idx", "chunk", "ref", "carry", "leaf") for x in subterms(v)) and not v.op == "const":
                        tot = plus(tot, mk("sum", s[1], s[2], v))
                    else:
                        tot = plus(tot, bin_("*", s[2], v))
            elif s[0] == "ite":
                a, b = self.sum_segs(s[2], ZERO), self.sum_segs(s[3], ZERO)
                if a is None or b is None:
                    return None
                tot = plus(tot, ite(s[1], a, b))
            elif s[0] in ("condrep", "rep2"):
                v = self.sum_segs((s[3],) if s[0] == "condrep" else s[3], ZERO)
                if v is None:
                    return None
                tot = plus(tot, self.total(s[1], s[2], v))
            else:
                return None
        return tot

    def leaf_as_list(self, v):
        return None

    def getattr_nomangle(self, o, name, d=None):
        o = self.res(o)
        if d is not None:
            h = self.hasattr_(o, const(name))
            return self.fork(h, lambda: self.getattr_(o, name), lambda: d)
        return self.getattr_(o, name)

    def hasattr_(self, o, nm):
        nm = self.res(nm)
        o = self.res(o)
        if nm.op != "const":
            return self.unk("hasattr")
        n = nm.args[0]
        if o.op == "ite":
            return self.fork(o.args[0], lambda: self.hasattr_(o.args[1], nm), lambda: self.hasattr_(o.args[2], nm))
        if o.op == "ref":
            r = self.rec(o)
            if isinstance(r, ObjRec) and r.cls.op == "cls":
                if n in r.attrs:
                    x = r.attrs[n]
                    if x is UNDEF:
                        return FALSE
                    if x.op == "ite" and any(s is UNDEF for s in subterms(x)):
                        return self._defd(self.res(x))
                    return TRUE
                v, t = self.class_lookup(r.cls, n)
                return const(v is not None)
            if isinstance(r, ListRec):
                return const(hasattr({"list": [], "tuple": (), "set": set(), "bytearray": bytearray()}.get(r.kind, []), n))
            if isinstance(r, ArrRec):
                return self.unk("hasattr array")
        if o.op == "cls":
            return const(self.class_lookup(o, n)[0] is not None)
        if o is NONE:
            return const(hasattr(None, n))
        if o.op == "const":
            return const(hasattr(o.args[0], n))
        if o.op in ("unpack", "bits", "len", "idx"):
            return const(hasattr(0, n) if o.op != "unpack" or o.args[0][0] not in "fd" else hasattr(0.0, n))
        if o.op in ("chunk", "bytes"):
            return const(hasattr(b"", n))
        return self.unk("hasattr")

    def _defd(self, x):
        if x is UNDEF:
            return FALSE
        if x.op == "ite":
            return ite(x.args[0], self._defd(x.args[1]), self._defd(x.args[2]))
        return TRUE

    def zip_(self, args):
        items = [self.seq_items(x) for x in args]
        if all(i is not None for i in items):
            return self.alloc(ListRec("tuple", [("e", self.alloc(ListRec("tuple", [("e", y) for y in t]))) for t in zip(*items)]))
        segs = [self.iter_segs(x) for x in args]
        if all(s is not None and len(s) == 1 and s[0][0] == "rep" and len(s[0][3]) == 1 for s in segs):
            counts = {s[0][2] for s in segs}
            if len(counts) == 1:
                lid = segs[0][0][1]
                for s in segs[1:]:
                    a, b = self.canon_loop(s[0][1]), self.canon_loop(lid)
                    if a != b:
                        self.loop_alias[a] = b
                return mk("iter", (("rep", lid, segs[0][0][2],
                                    (self.alloc(ListRec("tuple", [("e", s[0][3][0]) for s in segs])),)),))
        return self.unk("zip")

    def mk_bytes(self, kind, args, kwargs):
        if not args:
            r = const(b"")
        else:
            v = self.res(args[0])
            if v.op == "ite":
                return self.fork(v.args[0], lambda: self.mk_bytes(kind, [v.args[1]] + list(args[1:]), kwargs),
                                 lambda: self.mk_bytes(kind, [v.args[2]] + list(args[1:]), kwargs))
            rec = self.rec(v) if v.op == "ref" else None
            if isinstance(rec, ObjRec) and rec.cls.op == "cls":
                if any(x.endswith("Structure") for x in self.ext_bases(rec.cls)):
                    r = self.bitstruct_bytes(v)
                else:
                    m = self.lookup_method(v, "__bytes__")
                    r = self.call(m, [], {}, None) if m is not None else self.unk("bytes(obj)")
            elif self.is_bytes(v):
                s = self.bytes_segs(v)
                r = bytes_(s) if s is not None else self.unk("bytes")
            elif is_int(v) and v.args[0] < 0:
                self.problem("negative-size", str(v.args[0]), f"bytes({v.args[0]}): negative count", "ValueError")
                raise PathRaise("ValueError", "negative count")
            elif v.op == "const" and isinstance(v.args[0], int):
                r = const(bytes(v.args[0])) if 0 <= v.args[0] <= 4096 else self.unk("bytes(n)")
            elif v.op == "const" and isinstance(v.args[0], str):
                enc = args[1] if len(args) > 1 else kwargs.get("encoding")
                r = self.call_bmeth(v, "encode", [enc] if enc is not None else [], {}, None)
            elif v.op == "str" or (v.op == "leaf" and v.args[1] == "str"):
                enc = args[1] if len(args) > 1 else kwargs.get("encoding")
                r = self.call_bmeth(v, "encode", [enc] if enc is not None else [], {}, None)
            elif v.op == "filtered":
                r = mk("bytesof", v)
            elif v.op in ("unpack", "len", "bin", "bits"):
                self.note_work(v)
                self.next_loop += 1
                r = bytes_((("rep", self.next_loop, v, (("lit", b"\0"),)),))
            else:
                segs = self.iter_segs(v)
                if segs is None:
                    r = self.unk("bytes(iterable)")
                else:
                    s = self.list_to_segs(ListRec("list", segs))
                    r = bytes_(s) if s is not None else self.unk("bytes(list)")
        if kind == "bytes":
            return r
        s = segs_of(r) if r.op != "unk" else None
        if s is None:
            return self.alloc(ListRec("bytearray", (("opaque", r),)))
        return self.alloc(ListRec("bytearray", tuple(("bseg", x) for x in s)))

    # ---------------------------------------------------------- builtin methods
    def call_bmeth(self, o, name, args, kwargs, node):
        o = self.res(o)
        r = self.rec(o) if o.op == "ref" else None
        if isinstance(r, ListRec):
            return self.list_method(o, r, name, args, kwargs, node)
        if name == "__len__" and not args and not (isinstance(r, ObjRec)):
            return self.length(o)
        if name == "__getitem__" and len(args) == 1 and not (isinstance(r, ObjRec)):
            return self.getitem(o, args[0])
        if isinstance(r, DictRec):
            return self.dict_method(o, r, name, args, kwargs)
        if isinstance(r, ArrRec):
            return self.arr_method(o, r, name, args, kwargs)
        if isinstance(r, ObjRec) and r.cls.op == "cls":
            lay = self.bit_layout(r.cls) if any(x.endswith("Structure") for x in self.ext_bases(r.cls)) else None
            return self.unk(f"structure.{name}")
        if o.op == "cls" and any(x.endswith("Structure") for x in self.ext_bases(o)):
            if name in ("from_buffer_copy", "from_buffer") and args:
                lay = self.bit_layout(o)
                if lay is None:
                    return self.unk("bit layout")
                b = self.res(args[0])
                if b.op == "ref":
                    s = self.bytes_segs(b)
                    b = bytes_(s) if s is not None else self.unk("buffer")
                n = len_(b)
                if is_int(n) and n.args[0] < lay[1]:
                    self.problem("struct-size", str(lay[1]), "buffer smaller than the structure", "ValueError")
                    raise PathRaise("ValueError", "from_buffer_copy")
                return self.alloc(ObjRec(o, {nm: mk("bits", b, off, bits) for nm, off, bits in lay[0]}))
            return self.unk(f"structure.{name}")
        if o.op == "structobj":
            return self.call_struct_obj(o, name, args, kwargs)
        if name == "bit_length" and not args and self.is_number(o) and o.op != "const":
            return mk("bitlen", o)
        if name == "to_bytes":
            n = args[0] if args else kwargs.get("length", const(1))
            order = args[1] if len(args) > 1 else kwargs.get("byteorder", const("big"))
            sg = kwargs.get("signed", FALSE)
            if is_int(n) and order.op == "const" and sg.op == "const" and n.args[0] > 0:
                self.fits(int_code(n.args[0], bool(sg.args[0]), ">"), o, "OverflowError")
                return bytes_((pack_seg(int_code(n.args[0], bool(sg.args[0]), ">" if order.args[0] == "big" else "<"), o),))
            return self.unk("to_bytes")
        if o.op == "const" and isinstance(o.args[0], (str, bytes)):
            if name == "join":
                return self.join_(o, args[0])
            if name == "encode" and o.op == "const":
                enc = args[0].args[0] if args and args[0].op == "const" else "utf-8"
                self.known_codec(enc)
                try:
                    return const(o.args[0].encode(enc))
                except Exception:
                    return self.unk("encode")
            if name == "format":
                return self.str_format(o.args[0], args, kwargs)
            if all(a.op == "const" for a in args) and not kwargs:
                try:
                    v = getattr(o.args[0], name)(*[a.args[0] for a in args])
                except Exception:
                    return self.unk(f"str.{name}")
                if isinstance(v, list):
                    return self.alloc(ListRec("list", [("e", const(x)) for x in v]))
                return const(v)
            return self.unk(f"str.{name}")
        if name in ("encode", "decode") and args and args[0].op == "const":
            self.known_codec(args[0].args[0])
        if name == "encode":
            enc = args[0].args[0] if args and args[0].op == "const" else "utf-8"
            err = args[1].args[0] if len(args) > 1 and args[1].op == "const" else kwargs.get("errors", const("strict")).args[0]
            return mk("encode", o, enc, err)
        if name == "decode":
            enc = args[0].args[0] if args and args[0].op == "const" else "utf-8"
            err = args[1].args[0] if len(args) > 1 and args[1].op == "const" else kwargs.get("errors", const("strict")).args[0]
            if o.op == "encode" and o.args[1] == enc:
                return o.args[0]
            return mk("decode", o, enc, err)
        if name in ("ljust", "rjust") and args and is_int(args[0]):
            return mk("pad", name, o, args[0], args[1] if len(args) > 1 else NONE)
        if o.op == "item" or o.op in ("leaf", "unk", "extcall", "loopval", "last"):
            return self.call_unknown(mk("bmeth", o, name), args, kwargs)
        if o.op in ("chunk", "bytes") and name == "hex":
            return mk("str", (mk("fmt", o, "hex"),))
        return mk("mcall", name, o, tuple(self.value_key(a) for a in args))

    def str_format(self, text, args, kwargs):
        """'{}{}'.format(...) as a structured string term."""
        import string
        parts, auto = [], 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(text):
                if lit:
                    parts.append(const(lit))
                if field is None:
                    continue
                if field == "":
                    field, auto = str(auto), auto + 1
                v = args[int(field)] if field.isdigit() and int(field) < len(args) else kwargs.get(field)
                if v is None or "{" in spec:
                    return self.unk("format")
                if v.op == "const" and not spec and conv in (None, "s") and isinstance(v.args[0], (str, int)):
                    parts.append(const(str(v.args[0])))
                else:
                    parts.append(mk("fmt", v, ("!" + conv if conv not in (None, "s") else "") + spec))
        except ValueError:
            return self.unk("format")
        if all(p.op == "const" for p in parts):
            return const("".join(p.args[0] for p in parts))
        return mk("str", tuple(parts))

    def join_(self, sep, it):
        segs = self.iter_segs(it)
        if isinstance(sep.args[0], bytes) and not sep.args[0] and segs is not None:
            out = []
            for s in segs:
                if s[0] == "e":
                    x = self.bytes_segs(s[1])
                    if x is None:
                        return self.unk("join")
                    out.extend(x)
                elif s[0] == "rep":
                    xs = []
                    for v in s[3]:
                        x = self.bytes_segs(v)
                        if x is None:
                            return self.unk("join")
                        xs.extend(x)
                    out.append(("rep", s[1], s[2], tuple(xs)))
                else:
                    return self.unk("join")
            return bytes_(tuple(out))
        items = self.seq_items(it)
        if isinstance(sep.args[0], str) and items is not None:
            if all(x.op == "const" for x in items):
                try:
                    return const(sep.args[0].join(x.args[0] for x in items))
                except TypeError:
                    return self.unk("join")
            return mk("str", tuple(items))
        return mk("mcall", "join", sep, (self.value_key(it),))

    def list_method(self, o, r, name, args, kwargs, node):
        if r.kind == "bytearray":
            if name in ("append",):
                self.put(o, r.with_segs(r.segs + (("bseg", pack_seg("B", args[0])),)))
                return NONE
            if name in ("extend",):
                s = self.bytes_segs(args[0]) if self.is_bytes(self.res(args[0])) else None
                if s is None:
                    sg = self.iter_segs(args[0])
                    s = self.list_to_segs(ListRec("list", sg)) if sg is not None else None
                self.put(o, r.with_segs(r.segs + (tuple(("bseg", x) for x in s) if s is not None else (("opaque", self.unk("extend")),))))
                return NONE
            if name == "decode":
                return self.call_bmeth(self.mk_bytes("bytes", [o], {}), name, args, kwargs, node)
            return self.unk(f"bytearray.{name}")
        if name == "append":
            self.put(o, r.with_segs(r.segs + (("e", args[0]),)))
            return NONE
        if name == "add":
            self.put(o, r.with_segs(r.segs + (("e", args[0]),)))
            return NONE
        if name == "extend":
            segs = self.iter_segs(args[0])
            self.put(o, r.with_segs(r.segs + (tuple(segs) if segs is not None else (("opaque", args[0]),))))
            return NONE
        if name == "insert":
            i = self.res(args[0])
            items = self.seq_items(o)
            if is_int(i) and items is not None:
                items.insert(i.args[0], args[1])
                self.put(o, r.with_segs([("e", x) for x in items]))
                return NONE
            if i is ZERO and r.kind == "list":
                self.put(o, r.with_segs((("e", args[1]),) + r.segs))
                return NONE
            # insert at the end
            if self.segs_len(r.segs) is i:
                self.put(o, r.with_segs(r.segs + (("e", args[1]),)))
                return NONE
            self.put(o, r.with_segs((("opaque", self.unk("insert")),)))
            return NONE
        if name == "clear":
            self.put(o, r.with_segs(()))
            return NONE
        if name == "copy":
            return self.alloc(ListRec(r.kind, r.segs))
        if name == "pop":
            items = self.seq_items(o)
            if items is not None:
                k = args[0].args[0] if args and is_int(args[0]) else -1
                try:
                    v = items.pop(k)
                except IndexError:
                    self.problem("index-error", "pop", "pop from empty list", "IndexError")
                    raise PathRaise("IndexError")
                self.put(o, r.with_segs([("e", x) for x in items]))
                return v
            self.put(o, r.with_segs((("opaque", self.unk("pop")),)))
            return self.unk("pop")
        if name == "reverse":
            items = self.seq_items(o)
            segs = [("e", x) for x in reversed(items)] if items is not None else self.permuted("reversed", r.segs)
            self.put(o, r.with_segs(segs if segs is not None else (("opaque", self.unk("reverse")),)))
            return NONE
        if name == "sort" and r.kind == "list":
            done = self.sort_items(self.seq_items(o), kwargs)
            if done is not None:
                self.put(o, r.with_segs([("e", x) for x in done]))
                return NONE
            segs = self.permuted("sorted", r.segs)
            if segs is not None:
                self.put(o, r.with_segs(segs))
                return NONE
        if name in ("index", "count"):
            items = self.seq_items(o)
            if items is not None and len(items) <= 32 and len(args) == 1:
                eqs = [cmp_("==", self.res(x), self.res(args[0])) for x in items]
                if name == "count":
                    n = ZERO
                    for c in eqs:
                        n = bin_("+", n, ite(c, const(1), ZERO))
                    return n

                def first(i):
                    if i == len(eqs):
                        self.problem("value-error", "index", "the list has no such element", "ValueError")
                        raise PathRaise("ValueError", "list.index")
                    if eqs[i] is TRUE:
                        return const(i)
                    if eqs[i] is FALSE:
                        return first(i + 1)
                    return self.fork(eqs[i], lambda: const(i), lambda: first(i + 1))
                return first(0)
            return self.unk(f"list.{name}")
        if name in ("sort", "remove"):
            self.put(o, r.with_segs((("opaque", self.unk(name)),)))
            return NONE
        if name in ("__len__",):
            return self.length(o)
        if name in ("__getitem__",):
            return self.getitem(o, args[0])
        if not hasattr({"list": [], "tuple": (), "set": set()}.get(r.kind, []), name):
            self.problem("missing-attr", f"{r.kind}.{name}", f"{r.kind} object has no attribute {name!r}", "AttributeError")
            raise PathRaise("AttributeError", name)
        return self.unk(f"list.{name}")

    def dict_method(self, o, r, name, args, kwargs):
        r = self.live_dict(r)
        if name == "__setitem__" and len(args) == 2:
            self.setitem(o, args[0], args[1])
            return NONE
        if name == "__getitem__" and len(args) == 1:
            return self.getitem(o, args[0])
        if name == "__len__":
            return const(len(r.items))
        if name == "get":
            d = args[1] if len(args) > 1 else NONE
            k = self.res(args[0])
            for kk, v in r.items:
                if kk is k and present(v) is TRUE:
                    return v
            if k.op == "const":
                for kk, v in r.items:
                    if kk.op == "const" and not isinstance(kk.args[0], tuple) and kk.args[0] == k.args[0]:
                        return self.res(ite(present(v), there(v), d))
                if all(kk.op == "const" for kk, _ in r.items):
                    return d
            return self.dict_select(r, k, d)
        if name == "keys":
            return mk("dictkeys", o)
        if name == "values":
            return mk("dictvalues", o)
        if name == "items":
            return mk("dictitems", o)
        if name == "copy":
            return self.alloc(DictRec(r.items))
        if name == "update":
            items = list(r.items)
            if args:
                rr = self.rec(args[0])
                if isinstance(rr, DictRec):
                    for k, v in rr.items:
                        items = [(a, b) for a, b in items if a is not k] + [(k, v)]
                else:
                    self.unk("dict.update")
            for k, v in kwargs.items():
                items = [(a, b) for a, b in items if a is not const(k)] + [(const(k), v)]
            self.put(o, DictRec(items, r.origin))
            return NONE
        if name == "setdefault":
            k = self.res(args[0])
            for kk, v in r.items:
                if kk is k:
                    return v
            d = args[1] if len(args) > 1 else NONE
            # of equal keys the first counts
            self.put(o, DictRec(r.items + ((k, d),), r.origin))
            return self.dict_select(r, k, d)
        if name == "pop":
            k = self.res(args[0])
            for kk, v in r.items:
                if kk is k:
                    self.put(o, DictRec([(a, b) for a, b in r.items if a is not k], r.origin))
                    return v
            self.put(o, r)
            return args[1] if len(args) > 1 else self.unk("dict.pop")
        if name == "clear":
            self.put(o, DictRec((), r.origin))
            return NONE
        if not hasattr({}, name):
            self.problem("missing-attr", f"dict.{name}", f"dict has no attribute {name!r}", "AttributeError")
            raise PathRaise("AttributeError", name)
        return self.unk(f"dict.{name}")

    # ------------------------------------------------------------------- numpy
    def call_math(self, n, top, short, args, kwargs):
        s = NPALIAS.get(short, short)
        least = ARITY.get(s, 1 if s in MATHFN else 0)
        if len(args) < least and not kwargs and not any(a.op == "star" for a in args):
            self.problem("call-arity", s, f"{n} needs {least} arguments, got {len(args)}", "TypeError")
            raise PathRaise("TypeError", f"{n} arity")
        if top == "numpy":
            if short in ("array", "asarray", "asanyarray", "ascontiguousarray", "copy"):
                dt = kwargs.get("dtype", args[1] if len(args) > 1 and short != "copy" else None)
                return self.as_dtype(self.np_array(args[0], copy=(short in ("array", "copy") and kwargs.get("copy", TRUE) is TRUE)), dt)
            if short in ("zeros", "ones", "empty", "zeros_like", "ones_like", "full"):
                v = const(1.0) if short.startswith("ones") else const(0.0)
                if short == "full":
                    v = args[1]
                if short.endswith("_like"):
                    r = self.rec(self.as_arr(args[0]))
                    shape = self.shape_of(kwargs["shape"]) if "shape" in kwargs else r.shape
                else:
                    shape = self.shape_of(args[0])
                if shape is None:
                    return self.unk("np shape")
                k = 1
                for d in shape:
                    k *= d
                a = self.alloc(ArrRec(shape, [v] * k, dt=self.kind_of([v]) if short == "full" else r.dt if short.endswith("_like") else None))
                return self.as_dtype(a, kwargs.get("dtype", args[1] if len(args) > 1 and short != "full" else None))
            if short in ("identity", "eye"):
                k = args[0].args[0] if is_int(args[0]) else None
                if k is None:
                    return self.unk("identity")
                return self.alloc(ArrRec((k, k), [const(1) if i == j else const(0) for i in range(k) for j in range(k)]))
            if short in ("dot", "matmul", "inner"):
                return self.np_dot(args[0], args[1])
            if short == "cross":
                a, b = self.seq_items(self.as_arr(args[0])), self.seq_items(self.as_arr(args[1]))
                if a and b and len(a) == len(b) == 3 and not any(self.res(x).op == "ref" for x in a + b):
                    m = lambda i, j: self.binop("-", self.binop("*", a[i], b[j]), self.binop("*", a[j], b[i]))
                    return self.alloc(ArrRec((3,), [m(1, 2), m(2, 0), m(0, 1)]))
                return self.unk("cross")
            if short == "fromiter":
                return self.as_dtype(self.np_array(args[0], True), kwargs.get("dtype", args[1] if len(args) > 1 else None))
            if short in ("round", "around", "round_", "rint", "trunc", "fix"):
                v = self.res(args[0])
                r = self.rec(v) if v.op == "ref" else None
                fn = lambda x: x if is_int(x) else mk("fn", short.strip("_"), x, *args[1:], *kwargs.values())
                if r is None:
                    return fn(v)
                v = self.as_arr(v)
                return self.alloc(ArrRec(self.rec(v).shape, [fn(x) for x in self.rec(v).data])) if v.op == "ref" else v
            if short == "negative":
                return self.neg(self.as_arr(args[0]) if self.res(args[0]).op == "ref" else args[0])
            if short == "outer":
                a, b = self.seq_items(self.as_arr(args[0])), self.seq_items(self.as_arr(args[1]))
                if a and b and not any(self.res(x).op == "ref" for x in a + b):
                    return self.alloc(ArrRec((len(a), len(b)), [self.binop("*", x, y) for x in a for y in b]))
                return self.unk("outer")
            if short == "transpose":
                a = self.as_arr(args[0])
                return self.arr_getattr(a, self.rec(a), "T")
            if short == "einsum" and len(args) > 1 and args[0].op == "const" and isinstance(args[0].args[0], str):
                return self.einsum(args[0].args[0], args[1:])
            if short in ("sum",):
                a = self.as_arr(args[0])
                r = self.rec(a)
                if isinstance(r, ArrRec) and (len(args) == 2 or set(kwargs) == {"axis"}):
                    return self.sum_axis(r, kwargs.get("axis", args[-1]))
                if isinstance(r, ArrRec) and not kwargs and len(args) == 1:
                    t = ZERO
                    for x in r.data:
                        t = self.binop("+", t, x) if t is not ZERO else x
                    return t
                return self.unk("np.sum")
            if n == "numpy.linalg.norm":
                items = self.seq_items(self.as_arr(args[0]))
                if items is not None:
                    t = None
                    for x in items:
                        q = self.binop("**", x, const(2))
                        t = q if t is None else self.binop("+", t, q)
                    return mk("fn", "sqrt", t)
                return self.unk("norm")
            if short in ("add", "subtract", "multiply", "divide"):
                op = {"add": "+", "subtract": "-", "multiply": "*", "divide": "/"}[short]
                res = self.binop(op, self.as_arr(args[0]), args[1])
                out = kwargs.get("out")
                if out is not None:
                    ro, rr = self.rec(self.res(out)), self.rec(res)
                    if isinstance(ro, ArrRec) and isinstance(rr, ArrRec):
                        self.arr_write(self.res(out), ro, rr.data, rr.dt)
                        return out
                return res
            if short in ("float64", "float32", "double"):
                return self.to_num("float", args[0])
            if short in ("vstack", "stack", "column_stack", "hstack", "concatenate", "block"):
                rows = self.seq_items(args[0])
                if rows is not None and short in ("vstack", "stack", "column_stack", "hstack", "concatenate") and not kwargs:
                    arr = self.np_array(args[0], True)
                    if short in ("vstack", "stack"):
                        return arr
                    if short == "column_stack":
                        return self.arr_getattr(arr, self.rec(arr), "T")
                return self.unk(short)
            if short in ("ndarray", "dtype"):
                return mk("extcall", n, tuple(args))
        if s == "isclose" and top == "math" and len(args) == 2 and "abs_tol" in kwargs and self.res(kwargs.get("rel_tol", NONE)).op == "const" \
                and self.res(kwargs.get("rel_tol", NONE)).args[0] == 0:
            return cmp_("<=", mk("fn", "fabs", self.binop("-", args[0], args[1])), self.res(kwargs["abs_tol"]))
        if s == "dist" and top == "math" and len(args) == 2:
            p, q = self.seq_items(args[0]), self.seq_items(args[1])
            if p is not None and q is not None:
                if len(p) != len(q):
                    self.problem("array-argument", s, "math.dist of points of different dimension", "ValueError")
                    raise PathRaise("ValueError", "math.dist of points of different dimension")
                return self.math1("hypot", [self.binop("-", x, y) for x, y in zip(p, q)]) if p else const(0.0)
            return self.unk("math.dist")
        if s in MATHFN:
            a = [self.res(x) for x in args]
            for x in a:
                r = self.rec(x) if x.op == "ref" else None
                if isinstance(r, ArrRec):
                    if top == "numpy" and len(a) == 1:
                        return self.alloc(ArrRec(r.shape, [self.math1(s, [y]) for y in r.data]))
                    if len(r.data) == 1 and top == "math":
                        return self.math1(s, [r.data[0]])
                    if top == "math" and len(r.data) > 1:
                        self.problem("array-argument", s, f"math.{s} of an array of {len(r.data)} elements", "TypeError")
                        raise PathRaise("TypeError", f"math.{s} of an array")
                    return self.unk("array math")
                if x is NONE or isinstance(r, (ListRec, ObjRec)):
                    if top == "numpy" and isinstance(r, ListRec):
                        arr = self.np_array(x, True)
                        return self.alloc(ArrRec(self.rec(arr).shape, [self.math1(s, [y]) for y in self.rec(arr).data]))
                    self.problem("math-type", s, f"{n} of a non-number", "TypeError")
                    raise PathRaise("TypeError", s)
            return self.math1(s, a)
        if top == "numpy" and short in ("testing", "random"):
            return self.unk(n)
        return mk("extcall", n, tuple(args))

    def math1(self, s, a):
        if s == "radians":
            return bin_("/", bin_("*", a[0], PI), const(180))
        if s == "degrees":
            return bin_("/", bin_("*", a[0], const(180)), PI)
        if s == "pow":
            return self.binop("**", a[0], a[1])
        if s == "square":
            return self.binop("**", a[0], const(2))
        if s == "hypot":
            t = None
            for x in a:
                q = self.binop("**", x, const(2))
                t = q if t is None else self.binop("+", t, q)
            return mk("fn", "sqrt", t)
        if a and a[0].op == "ite" and len(a) == 1 and s not in ("floor",):
            return ite(a[0].args[0], self.math1(s, [a[0].args[1]]), self.math1(s, [a[0].args[2]]))
        return mk("fn", s, *a)

    def shape_of(self, t):
        t = self.res(t)
        if is_int(t):
            return (t.args[0],)
        items = self.seq_items(t)
        if items is not None and all(is_int(x) for x in items):
            return tuple(x.args[0] for x in items)
        return None

    def as_arr(self, v):
        v = self.res(v)
        if v.op == "ref" and isinstance(self.rec(v), ArrRec):
            return v
        return self.np_array(v, True)

    def one_array(self, v):
        """A choice between arrays of one shape as an array of choices."""
        arms, todo = [], [v]
        while todo:
            x = self.res(todo.pop())
            if x.op == "ite":
                todo.extend(x.args[1:])
            else:
                r = self.rec(x) if x.op == "ref" else None
                if not isinstance(r, ArrRec):
                    return v
                arms.append(r.shape)
        return self.np_array(v, False) if len(set(arms)) == 1 else v

    def np_array(self, v, copy):
        v = self.res(v)
        r = self.rec(v) if v.op == "ref" else None
        if isinstance(r, ArrRec):
            return self.alloc(ArrRec(r.shape, r.data, dt=r.dt)) if copy else v
        if v.op == "ite":
            v = prune(v)
            if v.op != "ite":
                return self.np_array(v, copy)
            a, b = self.np_array(v.args[1], False), self.np_array(v.args[2], False)
            ra, rb = [self.rec(x) if x.op == "ref" else None for x in (a, b)]
            if isinstance(ra, ArrRec) and isinstance(rb, ArrRec) and ra.shape == rb.shape:
                return self.alloc(ArrRec(ra.shape, [ite(v.args[0], x, y) for x, y in zip(ra.data, rb.data)]))
        if v.op in ("cls", "func", "ext", "builtin", "bound", "mod", "subscripted"):
            self.problem("not-a-vector", "array", f"{show(v)} is given where a vector is expected", "TypeError")
            raise PathRaise("TypeError", "not a vector")
        items = self.seq_items(v)
        if items is None:
            w = self.vector_leaf(v)
            if w is not None:
                return w
            return self.unk("np.array")
        rows = []
        shape = None
        for x in items:
            x = self.res(x)
            rx = self.rec(x) if x.op == "ref" else None
            if isinstance(rx, (ListRec, ArrRec)):
                a = self.np_array(x, True)
                ra = self.rec(a) if a.op == "ref" else None
                if not isinstance(ra, ArrRec):
                    return self.unk("np.array")
                if shape is None:
                    shape = ra.shape
                elif shape != ra.shape:
                    return self.ragged(items)
                rows.extend(ra.data)
            else:
                if shape not in (None, ()):
                    return self.ragged(items)
                shape = ()
                rows.append(x)
        return self.alloc(ArrRec((len(items),) + (shape or ()), rows, dt=self.kind_of(rows)))

    def kind_of(self, rows):
        """The element type numpy gives an array of these numbers."""
        if any(floaty(x) for x in rows):
            return None
        return "i" if all(is_int(x) for x in rows) else "?"

    def as_dtype(self, a, dt):
        """The array as (a copy of) the requested element type."""
        r = self.rec(a) if a.op == "ref" else None
        if dt is None or dt is NONE or not isinstance(r, ArrRec):
            return a
        dt = self.res(dt)
        name = dt.args[0] if dt.op in ("builtin", "ext", "const") and isinstance(dt.args[0], str) else None
        if name is None:
            return self.unk("dtype")
        name = name.rsplit(".", 1)[-1]
        if name in ("float", "float64", "double", "d", "f8", "<f8", "=f8", "float_", "longdouble"):
            if r.dt is None:
                return a
            return self.alloc(ArrRec(r.shape, [const(float(x.args[0])) if is_int(x) else x for x in r.data]))
        if name in ("float32", "f", "f4", "single", "half", "float16", "<f4", ">f4"):
            return self.alloc(ArrRec(r.shape, [x if x.op == "const" else mk("fn", "f32", x) for x in r.data]))
        if re.match(r"u?int|[<>=]?[iub]\d$|[bhilqBHILQ]$|long$|bool", name):
            return self.alloc(ArrRec(r.shape, [self.to_num("int", x) for x in r.data], dt="i"))
        if name in (">f8",):
            return self.alloc(ArrRec(r.shape, r.data))
        return self.unk("dtype")

    def ragged(self, items):
        """np.array of rows of different shapes."""
        for x in items:
            x = self.res(x)
            if x.op not in ("ref", "bin", "neg", "fn", "sym", "const", "leaf") or any(y.op == "unk" for y in subterms(x)):
                return self.unk("ragged array")
        self.problem("ragged-array", "array", "an array of rows of different shapes", "ValueError")
        raise PathRaise("ValueError", "an array of rows of different shapes")

    def vector_leaf(self, v):
        return None

    def np_dot(self, a, b):
        a, b = self.as_arr(a), self.as_arr(b)
        ra, rb = self.rec(a) if a.op == "ref" else None, self.rec(b) if b.op == "ref" else None
        if not isinstance(ra, ArrRec) or not isinstance(rb, ArrRec):
            return self.unk("dot")

        def dot(xs, ys):
            t = None
            for x, y in zip(xs, ys):
                q = self.binop("*", x, y)
                t = q if t is None else self.binop("+", t, q)
            return t
        sa, sb = ra.shape, rb.shape
        if len(sa) == 1 and len(sb) == 1 and sa == sb:
            return dot(ra.data, rb.data)
        if len(sa) == 2 and len(sb) == 1 and sa[1] == sb[0]:
            n = sa[1]
            return self.alloc(ArrRec((sa[0],), [dot(ra.data[i * n:(i + 1) * n], rb.data) for i in range(sa[0])]))
        if len(sa) == 1 and len(sb) == 2 and sa[0] == sb[0]:
            m = sb[1]
            return self.alloc(ArrRec((m,), [dot(ra.data, rb.data[j::m]) for j in range(m)]))
        if len(sa) == 2 and len(sb) == 2 and sa[1] == sb[0]:
            n, m = sa[1], sb[1]
            return self.alloc(ArrRec((sa[0], m), [dot(ra.data[i * n:(i + 1) * n], rb.data[j::m]) for i in range(sa[0]) for j in range(m)]))
        return self.unk("dot shapes")

    def arr_binop(self, op, a, b):
        if op == "@":
            return self.np_dot(a, b)
        ra = self.rec(a) if a.op == "ref" else None
        rb = self.rec(b) if b.op == "ref" else None
        if isinstance(ra, ListRec):
            a = self.np_array(a, True); ra = self.rec(a) if a.op == "ref" else None
        if isinstance(rb, ListRec):
            b = self.np_array(b, True); rb = self.rec(b) if b.op == "ref" else None
        sa = ra.shape if isinstance(ra, ArrRec) else ()
        sb = rb.shape if isinstance(rb, ArrRec) else ()
        if a.op == "unk" or b.op == "unk":
            return self.unk("array op")
        # broadcast
        n = max(len(sa), len(sb))
        pa, pb = (1,) * (n - len(sa)) + tuple(sa), (1,) * (n - len(sb)) + tuple(sb)
        shape = []
        for x, y in zip(pa, pb):
            if x != y and 1 not in (x, y):
                self.problem("broadcast", op, f"operands of shapes {sa} and {sb} cannot be broadcast", "ValueError")
                raise PathRaise("ValueError", "broadcast")
            shape.append(max(x, y))

        def at(r, t, ps, ix):
            if not isinstance(r, ArrRec):
                return t
            k = 0
            for d, i in zip(ps, ix):
                k = k * d + (i if d > 1 else 0)
            return r.data[k]
        import itertools
        data = []
        for ix in itertools.product(*[range(d) for d in shape]):
            data.append(self.binop(op, at(ra, a, pa, ix), at(rb, b, pb, ix)))
        kinds = {r.dt if isinstance(r, ArrRec) else self.kind_of([t]) for r, t in ((ra, a), (rb, b))}
        return self.alloc(ArrRec(shape, data, dt=None if op == "/" or None in kinds else "?" if "?" in kinds else "i"))

    def arr_getattr(self, o, r, name):
        if name == "T":
            if len(r.shape) == 2:
                n, m = r.shape
                return self.arr_view(o, r, (m, n), [i * m + j for j in range(m) for i in range(n)])
            return o
        if name == "shape":
            return self.alloc(ListRec("tuple", [("e", const(d)) for d in r.shape]))
        if name == "size":
            return const(len(r.data))
        if name == "ndim":
            return const(len(r.shape))
        return mk("bmeth", o, name)

    def arr_method(self, o, r, name, args, kwargs):
        if name in ("dot",):
            return self.np_dot(o, args[0])
        if name == "astype":
            if kwargs.get("copy") is not FALSE:
                o = self.alloc(ArrRec(r.shape, r.data, dt=r.dt))
            return self.as_dtype(o, kwargs.get("dtype", args[0] if args else None))
        if name == "copy":
            return self.alloc(ArrRec(r.shape, r.data, dt=r.dt))
        if name in ("tolist",):
            items = self.seq_items(o)
            return self.alloc(ListRec("list", [("e", self.arr_method(x, self.rec(x), "tolist", [], {}) if x.op == "ref" else x) for x in items]))
        if name in ("transpose",) and not args:
            return self.arr_getattr(o, r, "T")
        if name in ("reshape",):
            sh = self.shape_of(args[0]) if len(args) == 1 else tuple(a.args[0] for a in args if is_int(a))
            if sh is not None:
                if -1 in sh:
                    k = 1
                    for d in sh:
                        if d != -1:
                            k *= d
                    sh = tuple(len(r.data) // k if d == -1 else d for d in sh)
                return self.arr_view(o, r, sh, range(len(r.data)))
        if name == "ravel":
            return self.arr_view(o, r, (len(r.data),), range(len(r.data)))
        if name == "view" and not args:
            return self.arr_view(o, r, r.shape, range(len(r.data)))
        if name == "flatten":
            return self.alloc(ArrRec((len(r.data),), r.data, dt=r.dt))
        if name == "fill":
            self.arr_write(o, r, [args[0]] * len(r.data))
            return NONE
        if name == "item" and len(r.data) == 1:
            return r.data[0]
        if name == "sum" and (args or kwargs):
            return self.sum_axis(r, kwargs.get("axis", args[0] if args else NONE))
        if name == "sum" and not args and not kwargs:
            t = None
            for x in r.data:
                t = x if t is None else self.binop("+", t, x)
            return t
        return self.unk(f"ndarray.{name}")

    def sum_axis(self, r, axis):
        axis = self.res(axis)
        if len(r.shape) != 2 or not is_int(axis) or not -2 <= axis.args[0] < 2:
            return self.unk("sum axis")
        n, m = r.shape
        rows = [[r.data[i * m + j] for j in range(m)] for i in range(n)]
        if axis.args[0] % 2 == 0:
            rows = [list(c) for c in zip(*rows)]
        out = []
        for row in rows:
            t = row[0]
            for x in row[1:]:
                t = self.binop("+", t, x)
            out.append(t)
        return self.alloc(ArrRec((len(out),), out))

    def einsum(self, spec, ops):
        import itertools
        ins, _, out = spec.replace(" ", "").partition("->")
        ins = ins.split(",")
        recs = [self.rec(self.as_arr(x)) for x in ops]
        if len(ins) != len(recs) or not all(isinstance(x, ArrRec) for x in recs) or not re.fullmatch(r"[a-z,]*", ",".join(ins) + out):
            return self.unk("einsum")
        if "->" not in spec:
            s = "".join(ins)
            out = "".join(sorted(c for c in set(s) if s.count(c) == 1))
        dim = {}
        for lab, rec in zip(ins, recs):
            if len(lab) != len(rec.shape):
                return self.unk("einsum")
            for c, d in zip(lab, rec.shape):
                if dim.setdefault(c, d) != d:
                    return self.unk("einsum")
        if not set(out) <= set(dim):
            return self.unk("einsum")
        inner = [c for c in dim if c not in out]
        data = []
        for o in itertools.product(*(range(dim[c]) for c in out)):
            tot = None
            for i in itertools.product(*(range(dim[c]) for c in inner)):
                at = dict(zip(list(out) + inner, o + i))
                t = None
                for lab, rec in zip(ins, recs):
                    k = 0
                    for c, d in zip(lab, rec.shape):
                        k = k * d + at[c]
                    t = rec.data[k] if t is None else self.binop("*", t, rec.data[k])
                tot = t if tot is None else self.binop("+", tot, t)
            data.append(tot)
        return self.alloc(ArrRec(tuple(dim[c] for c in out), data)) if out else data[0]

    def arr_getitem(self, o, r, i):
        if is_int(i):
            n = r.shape[0]
            k = i.args[0]
            if k < 0:
                k += n
            if not 0 <= k < n:
                self.problem("index-error", show(i), f"index {show(i)} out of range for axis of size {n}", "IndexError")
                raise PathRaise("IndexError")
            if len(r.shape) == 1:
                return r.data[k]
            m = len(r.data) // n
            return self.arr_view(o, r, r.shape[1:], range(k * m, (k + 1) * m))
        ix = self.seq_items(i) if i.op == "ref" else None
        if ix is not None and all(is_int(x) for x in ix) and len(ix) == len(r.shape):
            k = 0
            for d, x in zip(r.shape, ix):
                k = k * d + (x.args[0] if x.args[0] >= 0 else d + x.args[0])
            return r.data[k]
        if ix is not None and len(ix) == 2 and len(r.shape) == 2:
            n, m = r.shape
            if ix[0].op == "slice" and ix[0].args == (NONE, NONE, NONE) and is_int(ix[1]):
                return self.arr_view(o, r, (n,), range(ix[1].args[0] % m, n * m, m))
            if ix[1].op == "slice" and ix[1].args == (NONE, NONE, NONE) and is_int(ix[0]):
                k = ix[0].args[0]
                return self.arr_view(o, r, (m,), range(k % n * m, (k % n + 1) * m))
        if i.op == "slice" and all(x.op == "const" for x in i.args):
            n = r.shape[0]
            k = len(r.data) // n if n else 1
            rows = range(n)[slice(*(x.args[0] for x in i.args))]
            return self.arr_view(o, r, (len(rows),) + r.shape[1:], [j * k + q for j in rows for q in range(k)])
        return self.unk("array index")

    def arr_view(self, o, r, shape, ix):
        """A view of some elements of an array: shares storage with it."""
        ix = tuple(ix)
        base = r.base if r.base is not None else (o.args[0], tuple(range(len(r.data))))
        return self.alloc(ArrRec(shape, [r.data[i] for i in ix], r.origin, (base[0], tuple(base[1][i] for i in ix)), r.dt))

    def arr_write(self, o, r, data, dt="set"):
        """In-place change of an array (dt: the type of the result of an augmented assignment), seen through its
        base and all views of it."""
        data = list(data)
        if r.dt is not None and not (dt == r.dt == "i"):
            # an array of integers keeps integers: values are truncated, and adding fractions in place raises
            new = [x for x, y in zip(data, r.data) if x is not y and not is_int(x)]
            if dt is None and r.dt == "i":
                self.problem("integer-array", "array", "an array of integers cannot hold the result in place", "TypeError")
                raise PathRaise("TypeError", "in-place result of an integer array")
            if any(x not in r.data for x in new):
                data = [x if x is y or is_int(x) else mk("fn", "truncated-if-integers", x) for x, y in zip(data, r.data)]
        self.put(o, ArrRec(r.shape, data, r.origin, r.base, r.dt))
        root = r.base[0] if r.base is not None else o.args[0]
        rr = self.heap.get(root)
        if not isinstance(rr, ArrRec):
            return
        full = list(rr.data)
        if r.base is not None:
            for k, x in zip(r.base[1], data):
                full[k] = x
            self.put(mk("ref", root), ArrRec(rr.shape, full, rr.origin, rr.base, rr.dt))
        else:
            full = data
        for oid, v in list(self.heap.items()):
            if isinstance(v, ArrRec) and v.base is not None and v.base[0] == root and oid != o.args[0]:
                self.put(mk("ref", oid), ArrRec(v.shape, [full[k] for k in v.base[1]], v.origin, v.base, v.dt))

    def arr_setitem(self, o, r, i, v):
        data = list(r.data)
        if is_int(i) and len(r.shape) == 1 and -len(data) <= i.args[0] < len(data):
            data[i.args[0]] = v
            self.arr_write(o, r, data)
            return
        ix = self.seq_items(i) if i.op == "ref" else None
        if ix is not None and all(is_int(x) for x in ix) and len(ix) == len(r.shape):
            k = 0
            for d, x in zip(r.shape, ix):
                k = k * d + (x.args[0] if x.args[0] >= 0 else d + x.args[0])
            data[k] = v
            self.arr_write(o, r, data)
            return
        if i.op == "slice" and i.args == (NONE, NONE, NONE):
            b = self.arr_binop("+", mk("const", 0), v) if False else v
            v = self.res(v)
            rv = self.rec(v) if v.op == "ref" else None
            if isinstance(rv, ListRec):
                v = self.np_array(v, True)
                rv = self.rec(v) if v.op == "ref" else None
            if isinstance(rv, ArrRec) and rv.shape == r.shape:
                self.arr_write(o, r, rv.data)
            elif rv is None:
                self.arr_write(o, r, [v] * len(data))
            else:
                self.arr_write(o, r, [self.unk("array store")] * len(data))
            return
        if i.op == "slice" and all(x.op == "const" for x in i.args):
            n = r.shape[0]
            k = len(r.data) // n if n else 1
            pos = [j * k + q for j in range(n)[slice(*(x.args[0] for x in i.args))] for q in range(k)]
            v = self.res(v)
            src = self.np_array(v, True) if v.op == "ref" else None
            rv = self.rec(src) if src is not None and src.op == "ref" else None
            if isinstance(rv, ArrRec) and len(rv.data) == len(pos):
                for q, x in zip(pos, rv.data):
                    data[q] = x
                self.arr_write(o, r, data)
                return
            if v.op != "ref":
                for q in pos:
                    data[q] = v
                self.arr_write(o, r, data)
                return
        if is_int(i) and len(r.shape) == 2:
            n, m = r.shape
            row = self.seq_items(v)
            if row is not None and len(row) == m:
                k = i.args[0] % n
                data[k * m:(k + 1) * m] = row
                self.arr_write(o, r, data)
                return
        self.arr_write(o, r, [self.unk("array store")] * len(data))


def tm_intlike(v):
    from .terms import _intlike
    return _intlike(v)


def _mentions(ev, o, kinds=("wr", "rd", "seek")):
    if ev[0] == "if":
        return any(_mentions(e, o, kinds) for e in list(ev[2]) + list(ev[3]))
    if ev[0] == "loop":
        return any(_mentions(e, o, kinds) for e in ev[3])
    return ev[0] in kinds and ev[1] is o
