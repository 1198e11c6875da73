"""Symbolic execution of MIR: every path of every function, loops by closed-form summaries (or complete unrolling)."""
import re
import time
from fractions import Fraction
from .terms import *
from . import terms as TM
from .values import *
from . import values as VL
from . import mir as M

UNROLL = 70
VARIANTS = {"None": ("Option", 0), "Some": ("Option", 1), "Ok": ("Result", 0), "Err": ("Result", 1),
            "Continue": ("ControlFlow", 0), "Break": ("ControlFlow", 1),
            "Less": ("Ordering", -1), "Equal": ("Ordering", 0), "Greater": ("Ordering", 1)}


class St:
    __slots__ = ("cells", "facts")

    def __init__(self, cells=None, facts=()):
        self.cells = cells if cells is not None else {}
        self.facts = tuple(facts)
        if TM.SPLIT:
            self.facts = tuple(f for f in TM.SPLIT if f not in self.facts) + self.facts

    def clone(self):
        return St(dict(self.cells), self.facts)

    def assume(self, *fs):
        s = set(self.facts)
        new = []
        for f in fs:
            for c in (f.args if f.op == "and" else (f,)):
                if c is not TRUE and c not in s:
                    s.add(c)
                    new.append(c)
        if new:
            self.facts = self.facts + tuple(new)
        return self

    def feasible(self):
        return FALSE not in self.facts


class Frame:
    def __init__(self, fn, tyenv=None):
        self.fn = fn
        self.cells = {}
        self.active = set()
        self.tyenv = tyenv or {}


def thresholds(v, own):
    """bounds that the new length of a sequence compares its old length with"""
    out = []
    if not isinstance(v, Seq) or v.len is None:
        return out
    for a in atoms(v.len, lambda x: x.op == "ite"):
        for c in atoms(a.args[0], lambda x: x.op in ("le0", "eq0")):
            for l in fv(c) & own:
                q = to_poly(c.args[0])
                k = ((l, 1),)
                if abs(q.get(k, 0)) == 1 and all(x is not l for m in q if m != k for x, _ in m):
                    r = from_poly({m: -z / q[k] for m, z in q.items() if m != k}, "I")
                    if not fv(r) & own:
                        out += [x for x in (r, add(r, ONE_I), sub(r, ONE_I)) if x not in out]
    return out


def param_conds(vals):
    """conditions on the parameters of the specification that decide between branches inside the values"""
    out = []

    def cond(c):
        if c.op in ("and", "or", "not"):
            for x in c.args:
                cond(x)
        elif c.op in ("le0", "eq0") and c not in out:
            vs = fv(c)
            if vs and all("!" not in str(v.args[0]) for v in vs):
                out.append(c)

    def walk(v):
        if isinstance(v, T):
            for a in atoms(v, lambda x: x.op == "ite"):
                cond(a.args[0])
        elif isinstance(v, Seq):
            if v.len is not None:
                walk(v.len)
        elif hasattr(v, "xs"):
            for x in v.xs:
                walk(x)
    for v in vals:
        walk(v)
    return out


def frem(x, y):
    """floating-point remainder: x - y * trunc(x / y)"""
    x, y = toreal(x), toreal(y)
    q = rdiv(x, y)
    if entails(le(ZERO_R, q)):
        return sub(x, mul(y, toreal(f2u(q))))
    return sub(x, mul(y, ite(le(ZERO_R, q), toreal(f2u(q)), neg(toreal(f2u(neg(q)))))))


class Panic:
    def __init__(self, facts, cond, msg, where):
        self.facts, self.cond, self.msg, self.where = facts, cond, msg, where

    def __repr__(self):
        return "panic %r in %s when %s under %s" % (self.msg, self.where, self.cond, self.facts)


_cell = itertools.count(1)
_MV = re.compile(r"^(?:no_retag )?(copy|move) (.*)$")
_INT = re.compile(r"^(-?\d+)_(?:usize|isize|u\d+|i\d+)$")
_FLT = re.compile(r"^(-?[\d.]+(?:[eE][-+]?\d+)?)_?f(?:64|32)$")
_BIN = re.compile(r"^(Add|Sub|Mul|Div|Rem|BitXor|BitAnd|BitOr|Shl|Shr|Eq|Ne|Lt|Le|Gt|Ge|Cmp|AddWithOverflow|SubWithOverflow|MulWithOverflow|AddUnchecked|SubUnchecked|MulUnchecked|Offset|Not|Neg|PtrMetadata|Len|discriminant|CopyForDeref|deref_copy)\(")


class Exec:
    def __init__(self, mir, std, contracts=None):
        self.mir = mir
        self.std = std              # name -> handler(ex, call, args, st) -> value | list of outcomes
        self.contracts = contracts or {}
        self.panics = []
        self.nonpanic = set()
        self.depth = 0
        self.used_fns = set()
        self.used_contracts = set()
        self.used_std = set()
        self.tyenv = {}
        self.const_cache = {}
        self.loop_log = []
        self.rec_depth = 0
        self.after = None
        self.exit_vars = []         # skolem exit indices of loops without a solved exit
        self.rec_mark = 0
        self.exit_cands = []
        self.maxpaths = 64

    # ------------------------------------------------------------ places
    def cell_of(self, fr, local, st):
        c = fr.cells.get(local)
        if c is None:
            c = next(_cell)
            fr.cells[local] = c
        return c

    def resolve(self, fr, place, st, write=False):
        """-> (cell, path) or ('val', value, path) when it goes through a shared reference"""
        cell, path, val = self.cell_of(fr, place.local, st), [], None
        for p in place.proj:
            k = p[0]
            if k == "deref":
                v = self.load(cell, path, val, st)
                if isinstance(v, Ref):
                    cell, path, val = v.cell, list(v.path), None
                elif isinstance(v, PRef):
                    cell, path, val = None, [], v.v
                elif isinstance(v, Opq) and v.kind == "Box":
                    path = path + [0]
                else:
                    raise Unsupported("deref of %s" % type(v).__name__)
            elif k == "field":
                path = path + [p[1]]
            elif k == "variant":
                nm = p[1].split("::")[-1]
                if nm not in VARIANTS:
                    raise Unsupported("variant " + nm)
                path = path + [("v", VARIANTS[nm][1])]
            elif k == "index":
                i = self.load(self.cell_of(fr, p[1], st), [], None, st)
                path = path + [("i", i)]
            elif k == "cindex":
                n = p[1]
                s = self.load(cell, path, val, st)
                i = num(n) if n >= 0 else add(s.len, num(n))
                path = path + [("i", i)]
            elif k == "subslice":
                s = self.load(cell, path, val, st)
                a = int(p[1])
                b = p[2]
                e = s.len if b in ("", "-0") else (add(s.len, num(int(b))) if b.startswith("-") else num(int(b)))
                path = path + [("s", num(a), e)]
            else:
                raise Unsupported("projection " + k)
        return cell, path, val

    def load(self, cell, path, val, st):
        if cell is None:
            return getp(val, path)
        if cell not in st.cells:
            raise Unsupported("read of an uninitialised or dead local")
        return getp(st.cells[cell], path)

    def read(self, fr, place, st):
        cell, path, val = self.resolve(fr, place, st)
        return self.load(cell, path, val, st)

    def write(self, fr, place, st, v):
        cell, path, val = self.resolve(fr, place, st, True)
        if cell is None:
            raise Unsupported("write through a shared reference")
        self.put(Ref(cell, path), v, st)

    def put(self, ref, v, st):
        if not ref.path:
            st.cells[ref.cell] = v
        else:
            if ref.cell not in st.cells:
                # initialising an aggregate field by field
                raise Unsupported("partial initialisation")
            st.cells[ref.cell] = setp(st.cells[ref.cell], ref.path, v)

    def get(self, ref, st):
        """value behind any reference-like value"""
        if isinstance(ref, Ref):
            return self.load(ref.cell, ref.path, None, st)
        if isinstance(ref, PRef):
            return ref.v
        return ref

    def new_cell(self, v, st):
        c = next(_cell)
        st.cells[c] = v
        return Ref(c)

    # ------------------------------------------------------------ operands
    def operand(self, fr, s, st):
        s = s.strip()
        m = _MV.match(s)
        if m:
            return self.read(fr, M.parse_place(m.group(2)), st)
        if s.startswith("const "):
            return self.const(fr, s[6:].strip(), st)
        if re.match(r"^_\d+$", s) or s.startswith("("):
            try:
                return self.read(fr, M.parse_place(s), st)
            except ValueError:
                pass
        return FnItem(s)

    def const(self, fr, c, st):
        m = _INT.match(c)
        if m:
            if c.endswith("_u8"):
                return byte_const(int(m.group(1)) & 255)
            return num(int(m.group(1)))
        m = _FLT.match(c)
        if m:
            x = float(m.group(1))
            return num(Fraction(repr(x)) if "e" not in repr(x) else Fraction(repr(x)), "R")
        gc = getattr(self, "generic_const", None)
        if gc and c in gc:
            return gc[c]
        if c == "true":
            return TRUE
        if c == "false":
            return FALSE
        if c == "()":
            return UNIT
        if c.startswith('"'):
            return Opq("str", (c,))
        if c.startswith("{closure@"):
            return Closure(c, ())
        b = M.strip_generics(c)
        last = b.split("::")[-1]
        if b in ("std::f64::consts::PI", "core::f64::consts::PI"):
            return PI
        if b in ("std::f64::consts::TAU", "core::f64::consts::TAU"):
            return mul(num(2, "R"), PI)
        if b.startswith(("std::f64::consts::", "core::f64::consts::")):
            if last == "SQRT_2":
                return sqrt(num(2, "R"))
            if last == "FRAC_1_SQRT_2":
                return inv(sqrt(num(2, "R")))
            if last == "FRAC_PI_2":
                return mul(num(Fraction(1, 2), "R"), PI)
            if last == "FRAC_PI_4":
                return mul(num(Fraction(1, 4), "R"), PI)
            raise Unsupported("constant " + c)
        if last in ("NAN", "INFINITY", "NEG_INFINITY", "MAX", "MIN", "EPSILON", "MAX_POSITIVE", "MIN_POSITIVE") and ("f64" in b or "usize" in b or "u64" in b):
            if last in ("NAN", "INFINITY", "NEG_INFINITY"):
                return app("f64_" + last, (), "R")
            raise Unsupported("constant " + c)
        if c in fr.tyenv:
            return fr.tyenv[c]
        if c in self.mir.consts or b in self.mir.consts:
            key = c if c in self.mir.consts else b
            if key in self.const_cache:
                return self.const_cache[key]
            d = self.mir.consts[key]
            if isinstance(d, tuple):
                v = self.const(fr, d[1].replace("const ", ""), st)
            else:
                st2 = St({}, ())
                outs = self.run_fn(d, [], st2, fr.tyenv)
                if len(outs) != 1:
                    raise Unsupported("constant with several outcomes: " + c)
                v = outs[0][1]
                v = self.close_refs(v, outs[0][0])
            self.const_cache[key] = v
            return v
        m = re.match(r"^(.*)::promoted\[(\d+)\]$", c)
        if m:
            own = "%s::promoted[%s]" % (fr.fn.name, m.group(2))
            for key in self.mir.consts:
                if key.endswith("promoted[%s]" % m.group(2)) and (M.strip_generics(key) == b or key == own):
                    d = self.mir.consts[key]
                    st2 = St({}, ())
                    outs = self.run_fn(d, [], st2, fr.tyenv)
                    return self.close_refs(outs[0][1], outs[0][0])
            raise Unsupported("promoted constant " + c)
        if c.startswith("ZeroSized") or ": " in c:
            # `const ZeroSized: {closure..}` or a typed literal
            ty = c.split(": ", 1)[1]
            if ty.startswith("{closure@"):
                return Closure(ty, ())
        h = self.std.get("const " + b)
        if h is not None:
            return h
        if re.match(r"^[\w:<>,\s&'\[\];\-\(\)]+$", b):
            return FnItem(c)
        raise Unsupported("constant " + c)

    def close_refs(self, v, st):
        if isinstance(v, Ref):
            return PRef(self.close_refs(self.get(v, st), st))
        return v

    # ------------------------------------------------------------ rvalues
    def rvalue(self, fr, s, st, dty):
        s = s.strip()
        m = _BIN.match(s)
        if m:
            op = m.group(1)
            j = M.scan(s, m.end(), ")")
            if j == len(s) - 1:
                parts = M.split_top(s[m.end():j])
                if op in ("discriminant", "Len", "CopyForDeref", "deref_copy"):
                    v = self.read(fr, M.parse_place(parts[0]), st)
                    if op == "Len":
                        return v.len
                    if op == "discriminant":
                        if not isinstance(v, En):
                            raise Unsupported("discriminant of %s" % type(v).__name__)
                        return v.tag
                    return v
                vs = [self.operand(fr, p, st) for p in parts]
                return self.binop(op, vs, dty, fr, s)
        m = re.match(r"^(.*) as (.*) \((\w+)(?:\(.*\))?\)$", s)
        if m and not s.startswith(("&", "(", "[")) and " as " in s and m.group(3)[0].isupper() and (s.startswith(("copy ", "move ", "const ", "no_retag"))):
            j = M.scan(s, 0, " ")
            sm = re.match(r"^(?:copy|move) _(\d+)$", m.group(1).strip())
            sty = fr.fn.types.get(int(sm.group(1))) if sm else None
            return self.cast(self.operand(fr, m.group(1), st), m.group(2), m.group(3), sty)
        if s.startswith("&"):
            mm = re.match(r"^&(raw const |raw mut |fake shallow |fake |mut |two_phase )?(?:\(fake\) )?(.*)$", s)
            pl = M.parse_place(mm.group(2))
            kind = (mm.group(1) or "").strip()
            cell, path, val = self.resolve(fr, pl, st)
            if kind in ("mut", "raw mut"):
                if cell is None:
                    if kind == "mut":
                        # &mut of something behind a shared ref: only happens for by-value snapshots of &mut
                        raise Unsupported("mutable borrow through a shared reference")
                return Ref(cell, path)
            if kind == "raw const":
                # used only for slice metadata
                return PRef(self.load(cell, path, val, st))
            return PRef(self.load(cell, path, val, st))
        m = _MV.match(s)
        if m or s.startswith("const "):
            return self.operand(fr, s, st)
        if s.startswith("["):
            j = M.scan(s, 1, "]")
            body = s[1:j]
            k = M.scan(body, 0, ";")
            if k < len(body):
                v = self.operand(fr, body[:k], st)
                n = body[k + 1:].strip()
                n = n[6:] if n.startswith("const ") else n
                gc = getattr(self, "generic_const", {})
                n = gc[n] if n in gc else self.const(fr, n if not n.isdigit() else n + "_usize", st)
                if not isinstance(n, T):
                    raise Unsupported("array length " + body)
                if is_num(n) and nval(n) <= 64:
                    return lit([v] * int(nval(n)), "arr")
                return Seq(n, gen=lambda i: v, kind="arr")
            return lit([self.operand(fr, x, st) for x in M.split_top(body)], "arr")
        if s.startswith("("):
            j = M.scan(s, 1, ")")
            return Tup([self.operand(fr, x, st) for x in M.split_top(s[1:j])])
        if s.startswith("{closure@"):
            j = M.scan(s, 1, "}")
            ty = s[:j + 1]
            rest = s[j + 1:].strip()
            return Closure(ty, self.fields(fr, rest, st))
        # aggregates: Path { f: op } | Path(op..) | Path
        i = M.scan(s, 0, "{(")
        path = s[:i].strip()
        b = M.strip_generics(path)
        last = b.split("::")[-1]
        if i < len(s) and s[i] == "{":
            return self.mkstruct(last, self.fields(fr, s[i:], st))
        xs = []
        if i < len(s) and s[i] == "(":
            j = M.scan(s, i + 1, ")")
            xs = [self.operand(fr, x, st) for x in M.split_top(s[i + 1:j])]
        if last in VARIANTS and (xs or i >= len(s)):
            ty, tag = VARIANTS[last]
            return En(ty, num(tag), {tag: tuple(xs)})
        if i < len(s):
            return self.mkstruct(last, xs)
        if b in self.mir.fns or "::" in b or re.match(r"^\w+$", b):
            if self.mir_struct(last) or last == "RangeFull":
                return Struct(last, ())
            return FnItem(s)
        raise Unsupported("rvalue " + s)

    def mir_struct(self, name):
        return any(k[1] == name for k in self.mir.methods)

    def mkstruct(self, name, xs):
        if name in ("Range", "RangeFrom", "RangeTo", "RangeFull", "RangeInclusive", "RangeToInclusive"):
            return Struct(name, xs)
        return Struct(name, xs)

    def fields(self, fr, s, st):
        s = s.strip()
        if not s:
            return []
        assert s[0] == "{", s
        j = M.scan(s, 1, "}")
        out = []
        for p in M.split_top(s[1:j]):
            m = re.match(r"^[\w#]+: (.*)$", p, re.S)
            out.append(self.operand(fr, m.group(1), st))
        return out

    def cast(self, v, ty, kind, sty=None):
        ty = ty.strip()
        if kind == "IntToFloat":
            if isinstance(v, Byte):
                v = byte_int(v)
            if ty == "f32" and not (is_num(v) and abs(nval(v)) <= 2 ** 24):
                return app("f32", (toreal(v),), "R")
            return toreal(v)
        if kind == "FloatToInt":
            if ty.startswith("i"):
                i = isreal_int(v)
                if i is not None:
                    return i
                if ty in ("i32", "i16", "i8"):
                    raise Unsupported("f64 as " + ty)
                if entails(le(ZERO_R, v)):
                    return f2u(v)
                return app("f2i", (v,), "I")
            if ty == "u8":
                raise Unsupported("f64 as u8")
            r = f2u(v)
            if ty in NARROW and not in_range(r, ty):
                r = ite(lt(num(NARROW[ty][1]), r), num(NARROW[ty][1]), r)
            return r
        if kind == "IntToInt":
            if isinstance(v, Byte):
                return v if ty in ("u8", "i8") else byte_int(v)
            if v.sort == "B":
                if ty == "u8":
                    return Byte([v] + [FALSE] * 7)
                return ite(v, ONE_I, ZERO_I)
            if ty == "u8":
                if is_num(v):
                    return byte_const(int(nval(v)) & 255)
                return int_byte(v)
            if ty in NARROW:
                return wrap(v, ty, sty)
            if ty in ("usize", "u64", "u128", "i64", "isize", "i128"):
                if ty.startswith("u") and not (is_num(v) and nval(v) >= 0) and not entails(le(ZERO_I, v)):
                    raise Unsupported("possibly negative integer cast to unsigned")
                return v
            raise Unsupported("cast to " + ty)
        if kind == "FloatToFloat":
            if ty == "f32":
                return app("f32", (v,), "R")
            return v
        if kind in ("PointerCoercion", "Unsize", "PtrToPtr", "Transmute", "ReifyFnPointer", "ClosureFnPointer", "BoxDerefTransmute"):
            if kind == "Transmute":
                raise Unsupported("transmute")
            return v
        raise Unsupported("cast %s" % kind)

    def binop(self, op, vs, dty, fr, src):
        if op == "Not":
            v = vs[0]
            if isinstance(v, Byte):
                return Byte([bnot(b) for b in v.bits])
            if v.sort == "B":
                return bnot(v)
            w = (dty or "usize").strip()
            if w in ("usize", "u64"):
                return sub(num(2 ** 64 - 1), v)
            if w in ("u16", "u32"):
                return sub(num(NARROW[w][1]), v)
            return sub(neg(v), ONE_I)
        if op == "Neg":
            return neg(vs[0])
        if op == "PtrMetadata":
            v = vs[0]
            v = v.v if isinstance(v, PRef) else v
            if isinstance(v, Ref):
                raise Unsupported("metadata of a mutable reference")
            if isinstance(v, Seq):
                return v.len
            raise Unsupported("PtrMetadata")
        a, b = vs
        if (dty or "").strip() == "f32":
            # single precision: the rounding is kept as an uninterpreted function of the exact result
            return app("f32", (toreal(self.binop(op, vs, "f64", fr, src)),), "R")
        if isinstance(a, Byte) or isinstance(b, Byte):
            return self.byteop(op, a, b)
        if not isinstance(a, T) or not isinstance(b, T):
            if isinstance(a, PRef) and isinstance(b, PRef):
                return self.binop(op, [a.v, b.v], dty, fr, src)
            raise Unsupported("%s on %s" % (op, type(a).__name__))
        if op in ("Add", "AddUnchecked"):
            return add(a, b)
        if op in ("Sub", "SubUnchecked"):
            return sub(a, b)
        if op in ("Mul", "MulUnchecked"):
            return mul(a, b)
        if op in ("AddWithOverflow", "MulWithOverflow", "SubWithOverflow"):
            r = (add if op[0] == "A" else mul if op[0] == "M" else sub)(a, b)
            of = FALSE
            w = (dty or "(usize").lstrip("(").split(",")[0].strip()
            if w in NARROW and a.sort == "I" and not (is_num(r) and NARROW[w][0] <= nval(r) <= NARROW[w][1]):
                of = bnot(band(le(num(NARROW[w][0]), r), le(r, num(NARROW[w][1]))))
            elif op[0] == "S" and w.startswith("u"):
                of = lt(a, b)
            return Tup([r, of])
        if op == "Div":
            if a.sort == "I" and b.sort == "I":
                if entails(le(ZERO_I, a)) and entails(lt(ZERO_I, b)):
                    return idiv(a, b)
                if "i" == (dty or "u")[0] and not (entails(le(ZERO_I, a))):
                    raise Unsupported("signed division")
                return idiv(a, b)
            return rdiv(a, b)
        if op == "Rem":
            if a.sort == "I" and b.sort == "I":
                if "i" == (dty or "u")[0] and not (entails(le(ZERO_I, a))):
                    raise Unsupported("signed remainder")
                return imod(a, b)
            return frem(a, b)
        if op == "Eq":
            return iff(a, b) if a.sort == "B" else self.feq(a, b)
        if op == "Ne":
            return bnot(iff(a, b) if a.sort == "B" else self.feq(a, b))
        if op in ("Lt", "Le", "Gt", "Ge"):
            if a.sort == "B":
                x, y = {"Lt": (a, b), "Ge": (a, b), "Gt": (b, a), "Le": (b, a)}[op]
                r = band(bnot(x), y)        # x < y
                return r if op in ("Lt", "Gt") else bnot(r)
            if any(t.op == "app" and t.args[0].startswith("f64_") for t in (a, b)):
                raise Unsupported("comparison with a non-finite constant")
            return {"Lt": lt, "Le": le, "Gt": gt, "Ge": ge}[op](a, b)
        if op == "Cmp":
            return En("Ordering", ite(lt(a, b), num(-1), ite(eq(a, b), ZERO_I, ONE_I)), {-1: (), 0: (), 1: ()})
        if op in ("BitAnd", "BitOr", "BitXor"):
            if a.sort == "B":
                return {"BitAnd": band, "BitOr": bor, "BitXor": bxor}[op](a, b)
            if is_num(a) and is_num(b):
                x, y = int(nval(a)), int(nval(b))
                return num({"BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y}[op])
            if op == "BitAnd":
                for x, y in ((a, b), (b, a)):
                    if is_num(y):
                        k = int(nval(y))
                        if k >= 0 and (k & (k + 1)) == 0:
                            return imod(x, num(k + 1))
            return app(op.lower(), (a, b) if a.id < b.id else (b, a), "I")
        if op == "Shl":
            if is_num(b):
                r = mul(a, num(2 ** int(nval(b))))
                w = (dty or "usize").strip()
                if w in NARROW:
                    return wrap(r, w)
                return r
            raise Unsupported("symbolic shift")
        if op == "Shr":
            if is_num(b):
                return idiv(a, num(2 ** int(nval(b))))
            raise Unsupported("symbolic shift")
        raise Unsupported("operator " + op)

    def feq(self, a, b):
        for x in (a, b):
            if x.op == "app" and x.args[0].startswith("f64_"):
                if x.args[0] == "f64_NAN":
                    return FALSE
                return FALSE        # reals are finite
        return eq(a, b)

    def byteop(self, op, a, b):
        if op in ("Shl", "Shr"):
            if isinstance(b, Byte):
                b = byte_int(b)
            ks = [int(nval(b))] if is_num(b) else range(8)
            r = None
            for k in reversed(list(ks)):
                if op == "Shl":
                    x = Byte(([FALSE] * k + list(a.bits))[:8])
                else:
                    x = Byte((list(a.bits) + [FALSE] * k)[k:k + 8])
                r = x if r is None else merge(eq(b, num(k)), x, r)
            return r
        if isinstance(a, T):
            a = byte_const(int(nval(a)) & 255) if is_num(a) else int_byte(a)
        if isinstance(b, T):
            b = byte_const(int(nval(b)) & 255) if is_num(b) else int_byte(b)
        if op in ("BitAnd", "BitOr", "BitXor"):
            f = {"BitAnd": band, "BitOr": bor, "BitXor": bxor}[op]
            return Byte([f(x, y) for x, y in zip(a.bits, b.bits)])
        if op in ("Eq", "Ne"):
            r = band(*[iff(x, y) for x, y in zip(a.bits, b.bits)])
            return r if op == "Eq" else bnot(r)
        if op in ("Add", "AddWithOverflow"):
            # disjoint bits only
            if all(band(x, y) is FALSE for x, y in zip(a.bits, b.bits)):
                r = Byte([bor(x, y) for x, y in zip(a.bits, b.bits)])
                return Tup([r, FALSE]) if op == "AddWithOverflow" else r
        if op in ("Lt", "Le", "Gt", "Ge"):
            return self.binop(op, [byte_int(a), byte_int(b)], None, None, "")
        raise Unsupported("byte operator " + op)

    # ------------------------------------------------------------ control
    def panic(self, st, cond, msg, where):
        """the program panics when cond holds (under the facts of st)"""
        self.nonpanic.update(St({}, ()).assume(bnot(cond)).facts)
        with set_facts(st.facts):
            if cond is FALSE or entails(bnot(cond)):
                return
        self.panics.append(Panic(st.facts, cond, msg, where))

    def decided(self, st0, st):
        """facts of st beyond st0 that are not merely the absence of a panic"""
        return sum(1 for f in st.facts[len(st0.facts):] if f not in self.nonpanic)

    def liveness(self, fn):
        if hasattr(fn, "_live"):
            return fn._live
        use, kill, borrowed = {}, {}, set()
        for b, stmts in fn.blocks.items():
            u, k = set(), set()
            for s in stmts:
                m = re.match(r"^_(\d+) = ", s)
                rhs = s[m.end():] if m else s
                if s.startswith(("StorageLive", "StorageDead")):
                    n = int(re.search(r"_(\d+)", s).group(1))
                    k.add(n)
                    continue
                for x in re.findall(r"(?<![\w!])_(\d+)\b", rhs):
                    if int(x) not in k:
                        u.add(int(x))
                if m:
                    k.add(int(m.group(1)))
                for x in re.findall(r"&(?:mut |raw mut |raw const )?\(?\(*_(\d+)", rhs):
                    borrowed.add(int(x))
            use[b], kill[b] = u, k
        live = {b: set() for b in fn.blocks}
        succ = {b: M.successors(s[-1]) for b, s in fn.blocks.items()}
        ch = True
        while ch:
            ch = False
            for b in fn.blocks:
                out = set()
                for s in succ[b]:
                    out |= live.get(s, set())
                n = use[b] | (out - kill[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        fn._live = (live, borrowed)
        return fn._live

    def run_fn(self, fn, args, st, tyenv=None, merge=True):
        """-> list of (state, return value); path conditions are in state.facts"""
        self.depth += 1
        if self.depth > 60:
            self.depth -= 1
            raise Unsupported("recursion")
        try:
            self.used_fns.add(fn.name)
            fr = Frame(fn, tyenv)
            if len(args) != len(fn.args):
                raise Unsupported("argument count of %s" % fn.name)
            st = st.clone()
            pre_cells = set(st.cells)
            for (n, ty), v in zip(fn.args, args):
                st.cells[self.cell_of(fr, n, st)] = v
            pre = len(st.facts)
            outs = self.run_blocks(fr, 0, st, frozenset())
            res = []
            for kind, _, s, v in outs:
                assert kind == "ret"
                for n in list(fr.cells.values()):
                    pass
                res.append((s, v))
            if merge:
                res = self.merge_outcomes(res, pre)
            # drop this frame's locals that nothing can refer to
            for s, v in res:
                keep = set()
                self.ref_cells(v, keep, s)
                for c in list(s.cells):
                    if c not in pre_cells and c not in keep and c in fr.cells.values():
                        # locals of a returning frame are dead (borrowck) unless returned by reference
                        del s.cells[c]
            return res
        finally:
            self.depth -= 1

    def ref_cells(self, v, acc, st):
        if isinstance(v, Ref):
            if v.cell not in acc:
                acc.add(v.cell)
                if v.cell in st.cells:
                    self.ref_cells(st.cells[v.cell], acc, st)
        elif isinstance(v, (Tup, Struct, Closure, Opq)):
            for x in v.xs:
                if isinstance(x, V):
                    self.ref_cells(x, acc, st)
        elif isinstance(v, En):
            for xs in v.pay.values():
                for x in xs:
                    if isinstance(x, V):
                        self.ref_cells(x, acc, st)
        elif isinstance(v, PRef):
            if isinstance(v.v, V):
                self.ref_cells(v.v, acc, st)
        elif isinstance(v, It):
            if v.org is not None:
                self.ref_cells(v.org, acc, st)
            if v.seq.items is not None:
                for x in v.seq.items:
                    if isinstance(x, V):
                        self.ref_cells(x, acc, st)
            elif isinstance(v.seq._t, V):
                self.ref_cells(v.seq._t, acc, st)

    def merge_outcomes(self, outs, pre):
        if len(outs) <= 1:
            return outs
        base = outs[0][0].facts[:pre]
        acc = None
        conds = []
        try:
            for s, v in reversed(outs):
                delta = band(*s.facts[pre:])
                conds.append(delta)
                if acc is None:
                    acc = (s.clone(), v)
                    continue
                with set_facts(base):
                    a, va = acc
                    cells = {}
                    for c in set(a.cells) | set(s.cells):
                        if c in a.cells and c in s.cells:
                            x, y = s.cells[c], a.cells[c]
                            cells[c] = x if x is y else (x if same(x, y) else merge(delta, x, y))
                        else:
                            cells[c] = a.cells.get(c, s.cells.get(c))
                    if v is None and va is None:
                        nv = None
                    else:
                        nv = merge(delta, v, va)
                    acc = (St(cells, base), nv)
        except NoMerge:
            return outs
        s, v = acc
        s.facts = base
        with set_facts(base):
            s.assume(bor(*conds))
        return [(s, v)]

    def run_blocks(self, fr, bb, st, stops, first=True):
        out = []
        work = [(bb, st, first)]
        lps = M.loops(fr.fn)
        while work:
            if len(work) + len(out) > self.maxpaths:
                raise Unsupported("too many paths in %s" % fr.fn.name)
            bb, st, fst = work.pop()
            if FALSE in st.facts:
                continue
            if not fst and bb in stops:
                out.append(("at", bb, st, None))
                continue
            if bb in lps and bb not in fr.active:
                for o in self.loop(fr, bb, lps[bb], st):
                    if o[0] == "ret":
                        out.append(o)
                    else:
                        work.append((o[1], o[2], False))
                continue
            for o in self.block(fr, bb, st):
                if o[0] == "ret":
                    out.append(o)
                else:
                    work.append((o[1], o[2], False))
        return out

    def block(self, fr, bb, st):
        """execute one basic block; st is owned"""
        fn = fr.fn
        stmts = fn.blocks[bb]
        st = st.clone()
        with set_facts(st.facts):
            for s in stmts[:-1]:
                self.stmt(fr, s, st)
        return self.terminator(fr, stmts[-1], st, bb)

    def stmt(self, fr, s, st):
        if s.startswith("StorageDead("):
            c = fr.cells.get(int(s[13:-2]))
            if c is not None:
                st.cells.pop(c, None)
            return
        if s.startswith(("StorageLive(", "FakeRead", "PlaceMention", "AscribeUserType", "nop", "Retag", "ConstEvalCounter", "Coverage", "Deinit", "BackwardIncompatibleDropHint")):
            return
        if s.startswith("assume("):
            return
        i = M.scan(s, 0, "=")
        # the first ' = ' at top level
        k = s.find(" = ")
        if k < 0:
            raise Unsupported("statement " + s)
        lhs, rhs = s[:k].strip(), s[k + 3:].rstrip(";").strip()
        pl = M.parse_place(lhs)
        dty = fr.fn.types.get(pl.local) if not pl.proj else None
        if dty is None and not pl.proj and pl.local == 0:
            dty = fr.fn.ret
        v = self.rvalue(fr, rhs, st, dty)
        self.write(fr, pl, st, v)

    def terminator(self, fr, s, st, bb):
        if s.startswith("goto"):
            return [("at", int(re.search(r"bb(\d+)", s).group(1)), st)]
        if s.startswith("return"):
            c = fr.cells.get(0)
            v = st.cells.get(c, UNIT) if c is not None else UNIT
            return [("ret", None, st, v)]
        if s.startswith(("unreachable", "resume", "terminate")):
            return []
        if s.startswith("drop("):
            m = re.search(r"return: bb(\d+)", s)
            return [("at", int(m.group(1)), st)]
        if s.startswith("falseEdge") or s.startswith("falseUnwind"):
            m = re.search(r"real: bb(\d+)", s)
            return [("at", int(m.group(1)), st)]
        if s.startswith("switchInt("):
            j = M.scan(s, 10, ")")
            with set_facts(st.facts):
                v = self.operand(fr, s[10:j], st)
                if isinstance(v, Byte):
                    v = byte_int(v)
                m = re.search(r"-> \[(.*)\];", s[j:])
                outs = []
                rest = []
                for part in M.split_top(m.group(1)):
                    k, t = part.rsplit(":", 1)
                    t = int(re.search(r"bb(\d+)", t).group(1))
                    if k.strip() == "otherwise":
                        c = band(*[bnot(x) for x in rest])
                    else:
                        n = int(k.strip().split("_")[0])
                        if n >= 2 ** 63:
                            n -= 2 ** 64 if n < 2 ** 64 else 2 ** 128
                        if v.sort == "B":
                            c = bnot(v) if n == 0 else v
                        else:
                            c = eq(v, num(n))
                        rest.append(c)
                    outs.append((c, t))
                res = []
                for c, t in outs:
                    if c is FALSE:
                        continue
                    if c is not TRUE:
                        if entails(bnot(c)):
                            continue
                        if entails(c):
                            c = TRUE
                    s2 = st.clone()
                    s2.assume(c)
                    res.append(("at", t, s2))
                    if c is TRUE:
                        return [res[-1]] if len(res) == 1 else res
                return res
        if s.startswith("assert("):
            j = M.scan(s, 7, ")")
            parts = M.split_top(s[7:j])
            m = re.search(r"success: bb(\d+)", s[j:])
            with set_facts(st.facts):
                c = parts[0]
                want = True
                if c.startswith("!"):
                    want, c = False, c[1:]
                v = self.operand(fr, c, st)
                if not want:
                    v = bnot(v)
                if v is not TRUE and not entails(v):
                    self.panic(st, bnot(v), parts[1].strip('"'), fr.fn.name)
                    st.assume(v)
            if v is FALSE:
                return []
            return [("at", int(m.group(1)), st)]
        # calls
        m = re.match(r"^(.*) -> (\[return: bb(\d+).*\]|unwind.*|bb\d+|\[unwind.*\]);$", s)
        if m:
            ret = m.group(3)
            body = m.group(1)
            k = body.find(" = ")
            lhs, rhs = body[:k], body[k + 3:]
            i = self.call_paren(rhs)
            callee, argtxt = rhs[:i], rhs[i + 1:-1]
            with set_facts(st.facts):
                args = [self.operand(fr, a, st) for a in M.split_top(argtxt)]
            if ret is None:
                # diverging call: a panic
                msg = argtxt
                with set_facts(st.facts):
                    if entails(FALSE):
                        return []
                self.panics.append(Panic(st.facts, TRUE, msg, fr.fn.name))
                return []
            pl = M.parse_place(lhs)
            res = []
            mv = _MV.match(callee)
            for s2, v in self.call(callee, args, st, fr):
                with set_facts(s2.facts):
                    self.write(fr, pl, s2, v)
                res.append(("at", int(ret), s2))
            return res
        raise Unsupported("terminator " + s)

    def call_paren(self, rhs):
        """position of the '(' that opens the argument list: the last top-level one"""
        d = 0
        i = len(rhs) - 1
        assert rhs[i] == ")", rhs
        # walk forward collecting top-level '(' positions
        j = 0
        last = None
        while True:
            k = M.scan(rhs, j, "(")
            if k >= len(rhs):
                break
            e = M.scan(rhs, k + 1, ")")
            last = k
            if e == len(rhs) - 1:
                return k
            j = e + 1
        return last

    # ------------------------------------------------------------ calls
    def parse_callee(self, callee):
        """-> (self type text or None, trait base or None, method, full stripped path, generics text)"""
        c = callee.strip()
        if c.startswith("<"):
            j = M.scan(c, 1, ">")
            inner = c[1:j]
            rest = c[j + 1:]
            meth = M.strip_generics(rest).split("::")[-1]
            k = None
            d = 0
            pos = 0
            while True:
                pos = inner.find(" as ", pos)
                if pos < 0:
                    break
                pre = inner[:pos]
                if pre.count("<") - pre.count("->") * 0 == len(re.findall(r"(?<!-)>", pre)) and pre.count("(") == pre.count(")") and pre.count("[") == pre.count("]") and pre.count("{") == pre.count("}"):
                    k = pos
                    break
                pos += 1
            if k is None:
                return inner, None, meth, c, ""
            return inner[:k], M.base(inner[k + 4:]), meth, c, inner[k + 4:]
        b = M.strip_generics(c)
        m = re.match(r"^(?:.*::)?<impl ([^>]*(?:<.*>)?[^>]*)>::(\w+)$", b)
        if m:
            return m.group(1), None, m.group(2), b, ""
        parts = b.split("::")
        return None, None, parts[-1], b, ""

    def call(self, callee, args, st, fr):
        """-> list of (state, value)"""
        mv = _MV.match(callee)
        if mv:
            f = self.read(fr, M.parse_place(mv.group(2)), st)
            return self.call_value(f, args, st)
        selfty, trait, meth, path, tg = self.parse_callee(callee)
        # closures called through the Fn traits
        if trait in ("FnOnce", "FnMut", "Fn"):
            f, tup = args
            return self.call_value(f, list(tup.xs) if isinstance(tup, Tup) else [tup], st)
        # contracts of repository functions
        key = "%s::%s" % (trait, meth) if trait else path
        cfn = self.contracts.get(key)
        if cfn is None and not trait and selfty is None:
            cfn = self.contracts.get("::".join(path.split("::")[-2:]))
        if cfn is not None:
            r = cfn(self, args, st)
            if r is not None:
                self.used_contracts.add(key)
                return self.norm(r, st)
        fn = self.find_fn(selfty, trait, meth, path, args, st)
        if fn is not None:
            return self.run_fn(fn, args, st, fr.tyenv if fr else None)
        return self.std_call(selfty, trait, meth, path, args, st, fr, callee)

    def norm(self, r, st):
        if isinstance(r, list):
            return r
        return [(st, r)]

    def find_fn(self, selfty, trait, meth, path, args, st):
        mir = self.mir
        if trait is None and selfty is None:
            if path in mir.fns:
                return mir.fns[path]
            parts = path.split("::")
            if len(parts) >= 2:
                f = mir.methods.get((None, parts[-2], meth))
                if f:
                    return f[0]
            cands = [f for n, f in mir.fns.items() if M.strip_generics(n) == path]
            if cands:
                return cands[0]
            return None
        # trait method on a repository type: by declared self type or by the value's type
        names = []
        if selfty and not re.match(r"^(?:&(?:'\w+ )?(?:mut )?)*(?:std|core|alloc)::", selfty.strip()):
            names.append(M.base(selfty))
        if args:
            v = args[0]
            for _ in range(3):
                if isinstance(v, (Ref, PRef)):
                    v = self.get(v, st)
            if isinstance(v, Struct):
                names.append(v.name)
        if trait:
            for n in names:
                f = mir.methods.get((trait, n, meth))
                if f:
                    return f[0]
            # default methods of repository traits
            for n, f in mir.fns.items():
                if n.endswith("%s::%s" % (trait, meth)) and not n.startswith(("std::", "core::")):
                    return f
        else:
            for n in names:
                f = mir.methods.get((None, n, meth))
                if f:
                    return f[0]
        return None

    def std_call(self, selfty, trait, meth, path, args, st, fr, callee):
        keys = []
        if re.search(r"\bf32\b", callee) and meth not in ("from", "into", "map", "enumerate", "zip", "next", "into_iter", "iter", "collect"):
            raise Unsupported("single precision in " + callee)
        if trait:
            keys += ["%s::%s" % (trait, meth)]
        if selfty and not trait:
            b = M.base(selfty)
            if selfty.strip().startswith("["):
                b = "slice"
            keys += ["%s::%s" % (b, meth)]
        parts = path.split("::")
        if not path.startswith("<"):
            keys += ["::".join(parts[-2:]), meth if len(parts) == 1 else parts[-1]]
            keys = list(dict.fromkeys(keys))
        info = {"selfty": selfty, "trait": trait, "meth": meth, "path": path, "callee": callee, "fr": fr}
        for k in keys:
            h = self.std.get(k)
            if h is not None:
                self.used_std.add(k)
                with set_facts(st.facts):
                    r = h(self, args, st, info)
                return self.norm(r, st)
        raise Unsupported("call to %s" % callee)

    def call_value(self, f, args, st):
        """call a closure / function value -> outcomes"""
        ref = None
        while isinstance(f, (Ref, PRef)):
            if isinstance(f, Ref):
                ref = f
            f = self.get(f, st)
        if isinstance(f, PyFn):
            with set_facts(st.facts):
                return self.norm(f.f(self, args, st), st)
        if isinstance(f, Closure):
            fn = self.mir.closures.get(f.ty)
            if fn is None:
                raise Unsupported("closure body not found: " + f.ty)
            t0 = fn.args[0][1]
            if t0.startswith("&mut"):
                if ref is None:
                    st = st.clone()
                    ref = self.new_cell(f, st)
                a0 = ref
            elif t0.startswith("&"):
                a0 = PRef(f)
            else:
                a0 = f
            n = len(fn.args) - 1
            return self.run_fn(fn, [a0] + list(args), st)
        if isinstance(f, FnItem):
            name = f.path
            return self.call(name, list(args), st, Frame(_NOFN))
        if isinstance(f, Opq) and f.kind == "fnptr":
            return self.call_value(f.xs[0], args, st)
        raise Unsupported("call of %s" % type(f).__name__)

    # ------------------------------------------------------------ loops in code
    def loop(self, fr, header, body, st):
        live, borrowed = self.liveness(fr.fn)

        def prune(s):
            keep = live[header] | borrowed
            for n, c in fr.cells.items():
                if n not in keep and n != 0:
                    s.cells.pop(c, None)
            return s

        def step(s):
            """one iteration -> (list of continuing states, list of (exit block, state))"""
            fr.active.add(header)
            try:
                outs = self.run_blocks(fr, header, s.clone(), frozenset({header} | (set(fr.fn.blocks) - body)), first=True)
            finally:
                fr.active.discard(header)
            cont, ex = [], []
            for o in outs:
                if o[0] == "at" and o[1] == header:
                    cont.append(prune(o[2]))
                else:
                    ex.append(o)
            return cont, ex
        st = prune(st.clone())
        hook = getattr(self, "loop_hook", None)
        if hook is not None:
            # a loop invariant supplied by the specification
            r = hook(self, fr, header, step, st)
            if r is not None:
                return r
        # 1. complete unrolling when every iteration is decided
        saved = len(self.panics)
        cur = st
        for k in range(UNROLL):
            cont, ex = step(cur)
            if not cont:
                return ex
            if ex or len(cont) > 1:
                if not ex:
                    pre = len(cur.facts)
                    m = self.merge_outcomes([(c, None) for c in cont], pre)
                    if len(m) == 1:
                        cur = m[0][0]
                        if k >= 5 and self.decided(st, cur) >= k:
                            cur = None
                            break
                        continue
                cur = None
                break
            cur = cont[0]
            if k >= 5 and self.decided(st, cur) >= k:
                cur = None          # each iteration is an assumption, not a decision
                break
        else:
            cur = None
        del self.panics[saved:]
        try:
            return self.summarise_loop(fr, header, step, st)
        except Unsupported as e:
            del self.panics[saved:]
            first = e
        if getattr(self, "leaf_candidates", None) and self.rec_depth:
            raise first
        # 2. bounded number of iterations known to suffice
        out = []
        frontier = [st]
        for k in range(20):
            nxt = []
            if k > 6 and frontier and len(frontier[0].facts) >= len(st.facts) + k:
                break
            for s in frontier:
                cont, ex = step(s)
                out += ex
                nxt += cont
            if not nxt:
                return self.group_exits(out, len(st.facts))
            m = self.merge_outcomes([(c, None) for c in nxt], len(st.facts)) if len(nxt) > 1 else [(nxt[0], None)]
            frontier = []
            for s, _ in m:
                with set_facts(s.facts):
                    if not entails(FALSE):
                        frontier.append(s)
            if not frontier:
                return self.group_exits(out, len(st.facts))
            if len(frontier) > 3:
                break
        del self.panics[saved:]
        raise first

    def group_exits(self, outs, pre):
        """merge the exits that lead to the same block"""
        groups = {}
        for o in outs:
            groups.setdefault((o[0], o[1]), []).append(o)
        res = []
        for (k, bb), os in groups.items():
            m = self.merge_outcomes([(o[2], o[3]) for o in os], pre)
            for s, v in m:
                res.append((k, bb, s, v))
        return res

    def summarise_loop(self, fr, header, step, st):
        """loop with symbolic trip count"""
        def step2(s, j):
            cont, ex = step(s)
            return cont, ex
        rec = self.recur(step2, st)
        j, cont, exits = rec.j, rec.cont, rec.exits
        contc = rec.contc
        res, sols = [], []
        pre = len(st.facts)
        # iterations at which the loop may stop: the earlier ones continued there
        with set_facts(st.facts):
            self.solve_exit(j, [bnot(contc)])
            cands = [c for c in self.exit_cands if not is_num(c) and entails(le(ZERO_I, c))][:4]
        for o in exits:
            s = o[2]
            # facts of the exiting path at iteration J, plus: the previous iteration did continue
            prev = implies(le(ONE_I, j), subst(contc, {j: sub(j, ONE_I)}))
            first = implies(le(ONE_I, j), subst(contc, {j: ZERO_I}))
            mid = [implies(lt(c, j), subst(contc, {j: c})) for c in cands]
            s = s.clone()
            with set_facts(s.facts):
                s.assume(prev, first, *mid)
            with set_facts(s.facts):
                if entails(FALSE):
                    continue
                sol = self.solve_exit(j, s.facts)
            if sol is None:
                sol = self.first_exit(j, s, contc, pre)
            if sol is not None:
                m = {j: sol}
                facts = [subst(f, m) for f in s.facts]
                s2 = St({}, ())
                s2.assume(*facts)
                with set_facts(s2.facts):
                    s2.cells = {c: (v if j not in fvv(v) else substv(v, m)) for c, v in s.cells.items()}
                    v = o[3]
                    if v is not None and j in fvv(v):
                        v = substv(v, m)
                    if entails(FALSE):
                        continue
                res.append((o[0], o[1], s2, v))
                sols.append(sol)
            else:
                # keep the exit index as a symbolic value, fresh for this exit
                J = fresh("exit")
                self.exit_vars.append(J)
                m = {j: J}
                s2 = St({}, ())
                s2.assume(*[subst(f, m) for f in s.facts])
                with set_facts(s2.facts):
                    s2.cells = {c: (v if j not in fvv(v) else substv(v, m)) for c, v in s.cells.items()}
                    v = o[3] if o[3] is None else substv(o[3], m)
                res.append((o[0], o[1], s2, v))
                sols.append(J)
        if len(res) > 1:
            # "every earlier iteration continued" is kept at a few instances only: where it does not follow for all of them,
            # the path condition is too wide; a free Boolean then stands for the rest of it
            for i, (o, sol) in enumerate(zip(res, sols)):
                if rec.exact and self.all_before(o[2].facts, sol, contc, j):
                    continue
                w = fresh("weak", "B")
                self.exit_vars.append(w)
                o[2].assume(w)
        if not res:
            raise Unsupported("loop without a reachable exit in %s" % fr.fn.name)
        return res

    def all_before(self, facts, sol, contc, j):
        t = fresh("t")
        with set_facts(tuple(facts)):
            with with_facts([le(ZERO_I, t), lt(t, sol)]):
                return entails(subst(contc, {j: t}))

    def first_exit(self, j, s, contc, pre):
        """an iteration E at which this exit is taken for certain while every earlier iteration continues"""
        base = [f for f in s.facts[:pre]]
        ex = band(*[f for f in s.facts[pre:] if j in fv(f)])
        for c in self.exit_cands[:8]:
            t = fresh("t")
            with set_facts(base):
                if not entails(le(ZERO_I, c)):
                    continue
                # the exit condition itself, without the facts about earlier iterations
            with set_facts(base):
                with with_facts([le(ZERO_I, t), lt(t, c)]):
                    if not entails(subst(contc, {j: t})):
                        continue
                # at c the loop does not continue, so some exit is taken there; this one is the only candidate path at c
                if not entails(bnot(subst(contc, {j: c}))):
                    continue
            return c
        return None

    def solve_exit(self, j, facts):
        cands = []

        def collect(f):
            if f.op in ("and", "or"):
                for x in f.args:
                    collect(x)
            elif f.op in ("le0", "eq0") and j in fv(f):
                p = to_poly(f.args[0])
                k = ((j, 1),)
                if k in p and abs(p[k]) == 1 and all(all(a is not j for a, _ in m) for m in p if m != k) and f.args[0].sort == "I":
                    # a*j + r <= 0
                    r = from_poly({m: -c / p[k] for m, c in p.items() if m != k}, "I")
                    for d in (0, 1, -1):
                        cands.append(add(r, num(d)))
        for f in facts:
            collect(f)
        for f in facts:
            for a in atoms(f, lambda x: x.op == "mod" and j in fv(x)):
                x, b = a.args
                r = sub(x, j)
                if j in fv(r) or j in fv(b):
                    continue
                # (j + r) mod b = 0 first at (-r) mod b
                cands.append(imod(neg(r), b))
                cands.append(sub(mul(b, add(idiv(sub(r, ONE_I), b), ONE_I)), r))
        seen = set()
        for c in cands:
            if c in seen or j in fv(c):
                continue
            seen.add(c)
            if entails(eq(j, c)):
                return c
        self.exit_cands = [c for c in seen]
        return None

    # ------------------------------------------------------------ recurrences
    def recur(self, step, st0, bound=None, period=None):
        """Closed form of the state after j iterations of step, j >= 0 arbitrary (bounded by `bound` if given).
        period: write j as q*period + r with 0 <= r < period (candidate invariants only)."""
        mark, self.rec_mark = self.rec_mark, len(self.exit_vars)
        self.rec_depth += 1
        try:
            return self._recur(step, st0, bound, period)
        finally:
            self.rec_mark = mark
            self.rec_depth -= 1

    def _recur(self, step, st0, bound=None, period=None):
        j = fresh("it")
        if period is not None:
            q, r = fresh("q"), fresh("r")
            base_facts = list(St({}, st0.facts).assume(le(ZERO_I, q), le(ZERO_I, r), lt(r, period)).facts)
            j = add(mul(q, period), r)
            if bound is not None:
                base_facts += [lt(j, bound)]
        else:
            base_facts = list(st0.facts) + [le(ZERO_I, j)]
            if bound is not None:
                base_facts.append(lt(j, bound))
        closed = {}           # (cell, path) -> (lambda j term -> value)
        unsolved = {}         # (cell, path) -> description
        contc = None
        saved = len(self.panics)
        syms = {}
        seqsyms = {}
        state_keys = {}

        def build(jt, with_syms=True, facts=None):
            facts = base_facts if facts is None else facts
            s = St(dict(st0.cells), tuple(facts))
            with set_facts(facts):
                for (c, p), f in sorted(closed.items(), key=lambda kv: (len(kv[0][1]))):
                    v = f(jt)
                    s.cells[c] = setp(s.cells[c], p, v)
                if with_syms:
                    for (c, p), sy in unsolved.items():
                        s.cells[c] = setp(s.cells[c], p, sy)
            return s

        for attempt in range(14):
            del self.panics[saved:]
            s = build(j)
            if contc is not None and period is None:
                with set_facts(base_facts):
                    s.assume(implies(le(ONE_I, j), subst(contc, {j: sub(j, ONE_I)})))
            pre = len(s.facts)
            try:
                cont, exits = step(s, j)
            except Unsupported:
                del self.panics[saved:]
                self.after = None
                if unsolved and self.try_candidates(unsolved, closed, st0, s, step, j, build, base_facts, contc):
                    contc = None
                    continue
                raise
            if not cont:
                raise Unsupported("loop body never continues")
            m = self.merge_outcomes([(c, None) for c in cont], pre)
            if len(m) != 1:
                raise Unsupported("loop body outcomes cannot be merged")
            after = m[0][0]
            cc = band(*after.facts[pre:])
            symset = self.symset(unsolved)
            contc_new = cc if not (fv(cc) & symset) and not self.has_seqsym(cc, unsolved) else None
            # changed leaves
            changed = {}
            for c in s.cells:
                if c not in after.cells:
                    continue
                a, b = s.cells[c], after.cells[c]
                if a is b:
                    continue
                d = {}
                self.diff(a, b, (), d)
                for p, k in d.items():
                    changed[(c, p)] = k
            new = [k for k in changed if k not in unsolved and k not in closed]
            # expected: solved leaves must be reproduced by their closed form (checked below)
            if new:
                for k in new:
                    unsolved[k] = self.sym_for(getp(st0.cells[k[0]], k[1]), getp(after.cells[k[0]], k[1]), changed[k])
                contc = None
                continue
            if period is not None:
                contc_new = None
            if not unsolved:
                # all leaves in closed form: final run; check the induction step
                self.check_closed(closed, s, after, j, st0, base_facts)
                r = _Rec()
                r.exact = not (fv(cc) & symset)
                if not r.exact:
                    cc = band(*[x for x in (cc.args if cc.op == "and" else (cc,)) if not (fv(x) & symset)])
                r.j, r.cont, r.exits, r.contc, r.closed = j, after, exits, cc, closed
                r.state_at = lambda t: None
                r.build = build
                r.base_facts = base_facts
                self.loop_log.append(("closed form", len(closed)))
                return r
            # solve what can be solved
            facts = tuple(s.facts)
            with set_facts(facts + ((cc,) if cc is not TRUE else ())):
                progress = period is None and self.solve_leaves(unsolved, closed, st0, s, after, j)
            self.after = after
            if not progress:
                progress = self.try_candidates(unsolved, closed, st0, s, step, j, build, base_facts, contc)
            if not progress:
                e = Unsupported("no closed form for loop-carried state: %s" % [(k[1], getp(after.cells[k[0]], k[1])) for k in unsolved][:3])
                e.split = param_conds([getp(after.cells[k[0]], k[1]) for k in unsolved])
                raise e
            contc = contc_new
        raise Unsupported("loop-carried state does not stabilise")

    def try_candidates(self, unsolved, closed, st0, s, step, j, build, base_facts, contc):
        """candidate closed forms supplied by the specification: kept only when initial and inductive"""
        saved = len(self.panics)
        for k in list(unsolved):
            sy = unsolved[k]
            c, p = k
            v0 = getp(st0.cells[c], p)
            cands = []
            if isinstance(v0, T):
                if v0.sort == "I":
                    cands.append(lambda t, v0=v0: add(v0, t))
                cands.append(lambda t, v0=v0: v0)
            delay = getattr(self, "delay", None)
            if delay is not None and isinstance(sy, SymSeq) and self.after is not None:
                cs = thresholds(getp(self.after.cells[c], p), sy._lensym)[:8]
                with set_facts(tuple(st0.facts)):
                    cs += [mini(x, y) for i, x in enumerate(cs) for y in cs[:i] if not is_num(sub(x, y))]
                for C in cs:
                    cands.append(lambda t, C=C, v0=v0: delay(t, C, v0))
            for g in getattr(self, "leaf_candidates" if self.rec_depth == 1 else "inner_candidates", ()):
                cands.append(lambda t, g=g, v0=v0: g(t, v0))
            for f in cands:
                try:
                    with set_facts(tuple(st0.facts)):
                        w0 = f(ZERO_I)
                    if w0 is None:
                        continue
                    if isinstance(w0, T) != isinstance(sy, T) or (isinstance(w0, T) and w0.sort != sy.sort):
                        continue
                    if not self.prove_same(tuple(st0.facts), v0, w0):
                        continue
                    un = {q: x for q, x in unsolved.items() if q != k}
                    old, cl = unsolved[k], dict(closed)
                    closed[k] = f
                    del unsolved[k]
                    ok = False
                    try:
                        s1 = build(j)
                        if contc is not None:
                            with set_facts(base_facts):
                                s1.assume(implies(le(ONE_I, j), subst(contc, {j: sub(j, ONE_I)})))
                        pre = len(s1.facts)
                        cont, _ = step(s1, j)
                        del self.panics[saved:]
                        ok = bool(cont)
                        for c2 in cont:
                            v1 = getp(c2.cells[c], p)
                            with set_facts(c2.facts):
                                w1 = f(add(j, ONE_I))
                            if not self.prove_same(tuple(c2.facts), v1, w1):
                                ok = False
                                break
                    finally:
                        if not ok:
                            del closed[k]
                            unsolved[k] = old
                    if ok:
                        self.loop_log.append(("candidate invariant", p))
                        return True
                except Unsupported:
                    continue
        return False

    def prove_same(self, facts, a, b):
        from .spec import parts
        from . import prove as PV
        try:
            for _, fs, g in parts(a, b, tuple(facts)):
                ok, _ = PV.prove(list(fs), g, budget={"deadline": time.time() + 10})
                if not ok:
                    return False
        except Unsupported:
            return False
        return True

    def has_seqsym(self, t, unsolved):
        names = {sy._symname for sy in unsolved.values() if isinstance(sy, SymSeq)}
        if not names:
            return False
        return bool(atoms(t, lambda x: x.op == "app" and x.args[0].split("|")[0] in names))

    def symset(self, unsolved):
        s = set(self.exit_vars[self.rec_mark:])
        for v in unsolved.values():
            if isinstance(v, T):
                s |= fv(v)
            elif isinstance(v, Byte):
                for b in v.bits:
                    s |= fv(b)
            elif isinstance(v, SymSeq):
                s |= v._lensym
        return s

    def diff(self, a, b, path, out):
        if same(a, b):
            return
        if isinstance(a, T) and isinstance(b, T):
            out[path] = "t"
            return
        if type(a) is not type(b) and not (isinstance(a, Seq) and isinstance(b, Seq)):
            raise Unsupported("loop changes the shape of a value (%s to %s)" % (type(a).__name__, type(b).__name__))
        if isinstance(a, (Tup, Struct, Closure, Opq)) and len(a.xs) == len(b.xs):
            for i, (x, y) in enumerate(zip(a.xs, b.xs)):
                if isinstance(x, (V, T)):
                    self.diff(x, y, path + (i,), out)
                elif x != y:
                    raise Unsupported("loop changes an opaque value")
            return
        if isinstance(a, En):
            if set(a.pay) == set(b.pay):
                if a.tag is not b.tag:
                    out[path + ("tag",)] = "t"
                for k in a.pay:
                    for i, (x, y) in enumerate(zip(a.pay[k], b.pay[k])):
                        self.diff(x, y, path + (("v", k), i), out)
                return
            raise Unsupported("loop-carried enum changes variants")
        if isinstance(a, Byte):
            out[path] = "byte"
            return
        if isinstance(a, Seq):
            if a.items is not None and b.items is not None and len(a.items) == len(b.items):
                for i, (x, y) in enumerate(zip(a.items, b.items)):
                    self.diff(x, y, path + (("i", num(i)),), out)
                return
            out[path] = "seq"
            return
        if isinstance(a, It):
            if not same(a.seq, b.seq):
                raise Unsupported("loop replaces an iterator")
            out[path + ("pos",)] = "t"
            return
        if isinstance(a, PRef):
            self.diff(a.v, b.v, path + ("pr",), out)
            return
        raise Unsupported("loop-carried %s" % type(a).__name__)

    def sym_for(self, v0, v1, kind):
        if kind == "t":
            return fresh("lv", v0.sort if v0.sort != "I" or v1.sort != "R" else "R")
        if kind == "byte":
            return Byte([fresh("lb", "B") for _ in range(8)])
        if kind == "seq":
            nm = "@%d" % next(_cell)
            samelen = v0.len is v1.len
            L = v0.len if samelen else fresh("ll")
            src = v0
            empty = is_num(v0.len) and nval(v0.len) == 0 if v0.len is not None else False
            shape = None
            try:
                if not empty:
                    shape = v0.at(ZERO_I) if v0.items is not None else v0.template()[1]
                else:
                    shape = v1.at(ZERO_I) if v1.items is not None else v1.template()[1]
            except Unsupported:
                shape = None

            def gen(i, shape=shape):
                if shape is None:
                    raise Unsupported("read of a sequence under construction")
                return symval(shape, nm, (i,))
            s = SymSeq(L, gen=gen, facts=(), kind=v0.kind)
            s._symname = nm
            s._shape = shape
            s._lensym = frozenset() if samelen else fv(L)
            return s
        raise Unsupported("loop-carried kind " + kind)

    def solve_leaves(self, unsolved, closed, st0, s, after, j):
        progress = False
        symset = self.symset(unsolved)
        seqnames = {sy._symname: k for k, sy in unsolved.items() if isinstance(sy, SymSeq)}

        def clean(t, own=()):
            """t mentions no unsolved symbol except own"""
            if (fv(t) & symset) - set(own):
                return False
            for a in atoms(t, lambda x: x.op == "app" and x.args[0].split("|")[0] in seqnames):
                return False
            return True
        for k in list(unsolved):
            sy = unsolved[k]
            c, p = k
            v0 = getp(st0.cells[c], p)
            v1 = getp(after.cells[c], p)
            if isinstance(sy, T):
                f = solve1(sy, v0, v1, j) if clean(v1, [sy]) else None
                if f is None:
                    # again with everything the continuing iteration decides
                    v2 = resimplify(v1)
                    f = solve1(sy, v0, v2, j) if v2 is not v1 and clean(v2, [sy]) else None
                if f is None:
                    continue
                closed[k] = f
                del unsolved[k]
                progress = True
                # one at a time: the next run substitutes it
                return True
            elif isinstance(sy, Byte):
                fs = []
                ok = True
                for b, b0, b1 in zip(sy.bits, v0.bits, v1.bits):
                    if not clean(b1, [b]):
                        ok = False
                        break
                    f = solve1(b, b0, b1, j)
                    if f is None:
                        ok = False
                        break
                    fs.append(f)
                if ok:
                    closed[k] = lambda t, fs=fs: Byte([f(t) for f in fs])
                    del unsolved[k]
                    return True
            else:
                f = self.solve_seq(sy, v0, v1, j, clean, symset)
                if f is None:
                    continue
                closed[k] = f
                del unsolved[k]
                return True
        return progress

    def solve_seq(self, sy, v0, v1, j, clean, symset):
        if v1.len is sy.len:
            # pointwise update
            i = fresh("ix")
            rng = [le(ZERO_I, i), lt(i, sy.len)]
            with with_facts(rng):
                x1 = v1.at(i)
                x0 = v0.at(i) if not (v0.items is not None and len(v0.items) == 0) else None
            if x0 is None:
                return None
            f = self.pointwise(sy._symname, x0, x1, i, j, clean, v0, symset, rng)
            if f is None:
                return None
            n = v0.len

            def mk(t, f=f):
                return Seq(n, gen=lambda q: f(q, t), kind=v0.kind)
            return mk
        d = sub(v1.len, sy.len)
        if is_num(d) and nval(d) > 0:
            kk = int(nval(d))
            es = []
            for r in range(kk):
                e = v1.at(add(sy.len, num(r)))
                if isinstance(e, Seq) and v1.gen is not None:
                    e = v1.gen(add(sy.len, num(r)))          # a row: decided here which one it is
                if any((fv(t) & symset) or not clean(t) for t in terms_of(e)):
                    try:
                        e = resimp(e)
                    except Unsupported:
                        return None
                if any((fv(t) & symset) or not clean(t) for t in terms_of(e)):
                    return None
                es.append(e)
            # the old part must be untouched
            i = fresh("ix")
            with with_facts([le(ZERO_I, i), lt(i, sy.len)]):
                try:
                    x = resimp(v1.at(i))
                    if isinstance(x, Seq) and v1.gen is not None:
                        x = v1.gen(i)
                    if sy._shape is not None and not same(x, sy.at(i)):
                        return None
                except Unsupported:
                    if sy._shape is not None:
                        return None
            n0 = v0.len

            def mk(t, es=es):
                base = v0

                def gen(q):
                    off = sub(q, n0)
                    if is_num(n0) and nval(n0) == 0:
                        return pick(off)
                    c = lt(q, n0)
                    if entails(c):
                        return base.at(q)
                    if entails(bnot(c)):
                        return pick(off)
                    with with_facts([bnot(c)]):
                        y = pick(off)
                    with with_facts([c]):
                        z = base.at(q)
                    return merge(c, z, y)

                def pick(off):
                    if kk == 1:
                        return substv(es[0], {j: off})
                    q, r = idiv(off, num(kk)), imod(off, num(kk))
                    out = substv(es[-1], {j: q})
                    for z in range(kk - 2, -1, -1):
                        out = merge(eq(r, num(z)), substv(es[z], {j: q}), out)
                    return out
                return Seq(add(n0, mul(num(kk), t)), gen=gen, kind=v0.kind)
            return mk
        return None

    def pointwise(self, name, x0, x1, i, j, clean, v0, symset, rng):
        """closed form of one element as a function (index, iteration) -> value"""
        if isinstance(x1, T):
            x1 = align(x1, name, i)
            me = [a for a in atoms(x1, lambda x: x.op == "app" and x.args[0].split("|")[0] == name)]
            own = fresh("el", x1.sort)
            m = {}
            others = []
            for a in me:
                if a.args[1][0] is i:
                    m[a] = own
                else:
                    others.append(a)
            u = replace(x1, m) if m else x1
            if others:
                return self.pointwise_other(name, x0, u, own, others, i, j, v0, rng)
            if (fv(u) & symset):
                return None
            if not clean(u):
                return None
            f = solve1(own, x0, u, j)
            if f is None:
                return None

            def g(q, t):
                r = f(t)
                return subst(r, {i: q}) if i in fv(r) else r
            return g
        if isinstance(x1, (Tup, Struct)):
            fs = []
            for n, (a, b) in enumerate(zip(x0.xs, x1.xs)):
                f = self.pointwise_c(name, a, b, i, j, clean, v0, symset, rng)
                if f is None:
                    return None
                fs.append(f)
            if isinstance(x1, Tup):
                return lambda q, t: Tup([f(q, t) for f in fs])
            return lambda q, t: Struct(x1.name, [f(q, t) for f in fs])
        if isinstance(x1, Byte):
            fs = []
            for a, b in zip(x0.bits, x1.bits):
                f = self.pointwise_c(name, a, b, i, j, clean, v0, symset, rng)
                if f is None:
                    return None
                fs.append(f)
            return lambda q, t: Byte([f(q, t) for f in fs])
        if isinstance(x1, Seq) and isinstance(x0, Seq) and x1.len is x0.len:
            i2 = fresh("ix")
            r2 = [le(ZERO_I, i2), lt(i2, x0.len)]
            with with_facts(r2):
                y0, y1 = x0.at(i2), x1.at(i2)
            f = self.pointwise2(name, y0, y1, (i, i2), j, symset, rng + r2, v0)
            if f is None:
                return None
            n = x0.len

            def g(q, t):
                nn = subst(n, {i: q})
                return Seq(nn, gen=lambda q2: f(q, q2, t), kind=x0.kind)
            return g
        return None

    def pointwise_c(self, name, a, b, i, j, clean, v0, symset, rng):
        if isinstance(b, T):
            comp = [x for x in atoms(b, lambda x: x.op == "app" and x.args[0].split("|")[0] == name)]
        return self.pointwise(name, a, b, i, j, clean, v0, symset, rng)

    def pointwise2(self, name, y0, y1, ii, j, symset, rng, v0=None):
        if not isinstance(y1, T):
            if isinstance(y1, (Tup, Struct)):
                fs = [self.pointwise2(name, a, b, ii, j, symset, rng) for a, b in zip(y0.xs, y1.xs)]
                if any(f is None for f in fs):
                    return None
                return lambda q, q2, t: (Tup([f(q, q2, t) for f in fs]) if isinstance(y1, Tup) else Struct(y1.name, [f(q, q2, t) for f in fs]))
            return None
        with with_facts(rng):
            y1 = resimplify(y1)
        y1 = align_all(y1, name, tuple(ii))
        own = fresh("el", y1.sort)
        m, others = {}, []
        for a in atoms(y1, lambda x: x.op == "app" and x.args[0].split("|")[0] == name):
            if tuple(a.args[1]) == tuple(ii):
                m[a] = own
            elif v0 is not None and len(a.args[1]) == 2:
                # read at another position: taken to be the initial element there, checked below
                try:
                    x = v0.at(a.args[1][0]).at(a.args[1][1])
                except Unsupported:
                    return None
                if not isinstance(x, T) or x.sort != a.sort:
                    return None
                m[a] = x
                others.append((a.args[1], x))
            else:
                return None
        u = replace(y1, m) if m else y1
        if fv(u) & symset or atoms(u, lambda x: x.op == "app" and x.args[0].split("|")[0] == name):
            return None
        f = solve1(own, y0, u, j)
        if f is None:
            return None

        def g(q, q2, t):
            return subst(f(t), {ii[0]: q, ii[1]: q2})
        for (q, q2), x in others:
            if not self.prove_same(Ctx.facts, g(q, q2, j), x):
                return None
        return g

    def pointwise_other(self, name, x0, u, own, others, i, j, v0, rng):
        """elements read at other positions: accepted when those are provably still the initial ones"""
        m = {}
        for a in others:
            k = a.args[0].split("|")[1:]
            if len(a.args[1]) != 1 or i in fv(a.args[1][0]) or len(k) != 1:
                return None
            x = (terms_of(v0.at(a.args[1][0])) + [None] * 16)[int(k[0]) - 1]
            if x is None or x.sort != a.sort:
                return None
            m[a] = x
        u2 = replace(u, m)
        if atoms(u2, lambda x: x.op == "app" and x.args[0].split("|")[0] == name):
            return None
        f = solve1(own, x0, u2, j)
        if f is None:
            return None

        def g(q, t):
            r = f(t)
            return subst(r, {i: q}) if i in fv(r) else r
        for a, x in m.items():
            if True:
                if u.sort != a.sort or not self.prove_same(Ctx.facts, g(a.args[1][0], j), x):
                    return None
            if a.args[0].split("|")[1] != "1" or len(terms_of(v0.at(a.args[1][0]))) != 1:
                return None          # components of records: not needed so far
        return g

    def check_closed(self, closed, s, after, j, st0, base_facts):
        """sanity check of the induction step for the leaves where it is cheap (constant-free identities)"""
        return


class SymSeq(Seq):
    __slots__ = ("_symname", "_shape", "_lensym")


class _Rec:
    pass


class _NoFn:
    name = "<value>"
    types = {}
    ret = None


_NOFN = _NoFn()


def terms_of(v):
    if isinstance(v, T):
        return [v]
    if isinstance(v, (Tup, Struct, Closure, Opq)):
        return [t for x in v.xs if isinstance(x, (V, T)) for t in terms_of(x)]
    if isinstance(v, En):
        return [v.tag] + [t for xs in v.pay.values() for x in xs for t in terms_of(x)]
    if isinstance(v, Byte):
        return list(v.bits)
    if isinstance(v, Seq):
        r = [v.len] if v.len is not None else []
        if v.items is not None:
            return r + [t for x in v.items for t in terms_of(x)]
        return r + terms_of(v.template()[1])
    if isinstance(v, It):
        return terms_of(v.seq) + [v.pos]
    if isinstance(v, PRef):
        return terms_of(v.v)
    return []


def symval(shape, name, args):
    """a fully symbolic value of the same shape, a function of args"""
    cnt = [0]

    def go(v):
        if isinstance(v, T):
            cnt[0] += 1
            return app("%s|%d" % (name, cnt[0]), args, v.sort)
        if isinstance(v, Tup):
            return Tup([go(x) for x in v.xs])
        if isinstance(v, Struct):
            return Struct(v.name, [go(x) for x in v.xs])
        if isinstance(v, Byte):
            return Byte([go(b) for b in v.bits])
        if isinstance(v, Seq):
            if v.items is not None and len(v.items) <= 16:
                return lit([go(x) for x in v.items], v.kind)
            sh = v.template()[1]
            return Seq(v.len, gen=lambda q: symval(sh, name + "|s", tuple(args) + (q,)), kind=v.kind)
        if isinstance(v, PRef):
            return PRef(go(v.v))
        raise Unsupported("symbolic %s" % type(v).__name__)
    return go(shape)


def align_all(u, name, ii, eqs=()):
    """align for an element with several indices: read at e1, e2, .. where all the equations i1 = e1, .. hold"""
    if u.op != "ite":
        m = {}
        for t in atoms(u, lambda y: y.op == "app" and y.args[0].split("|")[0] == name):
            if len(t.args[1]) == len(ii) and all(x is i or (i, x) in eqs for x, i in zip(t.args[1], ii)):
                m[t] = app(t.args[0], ii, t.sort)
        return replace(u, m) if m else u
    c, a, b = u.args
    out = []
    for cond, br in ((c, a), (bnot(c), b)):
        new = []
        for x in (cond.args if cond.op == "and" else (cond,)):
            if x.op == "eq0":
                for i in ii:
                    if i in fv(x):
                        e = solve_for(x.args[0], i)
                        if e is not None:
                            new.append((i, e))
        out.append(align_all(br, name, ii, eqs + tuple(new)))
    return ite(c, out[0], out[1])


def align(u, name, i, pos=0):
    """inside a branch taken only when i = e, an element read at e is the element itself"""
    if u.op != "ite":
        return u
    c, a, b = u.args
    out = []
    for cond, br in ((c, a), (bnot(c), b)):
        br = align(br, name, i, pos)
        m = {}
        for x in (cond.args if cond.op == "and" else (cond,)):
            if x.op == "eq0" and i in fv(x):
                e = solve_for(x.args[0], i)
                if e is None:
                    continue
                for t in atoms(br, lambda y: y.op == "app" and y.args[0].split("|")[0] == name):
                    if len(t.args[1]) > pos and t.args[1][pos] is e:
                        m[t] = app(t.args[0], tuple(t.args[1][:pos]) + (i,) + tuple(t.args[1][pos + 1:]), t.sort)
        out.append(replace(br, m) if m else br)
    return ite(c, out[0], out[1])


def solve1(v, v0, u, j):
    """closed form (as a function of the iteration count) of v' = u(v, j), v(0) = v0; None if not recognised"""
    if u is v:
        return lambda t: v0
    if v not in fv(u):
        if j not in fv(u):
            if u is v0:
                return lambda t: v0

            def f(t):
                if is_num(t) and nval(t) == 0:
                    return v0
                if entails(le(ONE_I, t)):
                    return u
                return ite(le(ONE_I, t), u, v0)
            return f
        u_at = lambda t: subst(u, {j: sub(t, ONE_I)})
        if u_at(ZERO_I) is v0:
            return u_at

        def f(t):
            if is_num(t) and nval(t) == 0:
                return v0
            if entails(le(ONE_I, t)):
                return u_at(t)
            return ite(le(ONE_I, t), u_at(t), v0)
        return f
    if v.sort in ("I", "R"):
        d = sub(u, v)
        if v not in fv(d):
            if j not in fv(d):
                return lambda t: add(v0, mul(d, t if d.sort == "I" and v.sort == "I" else toreal(t)))

            def f(t):
                w = fresh("s")
                with with_facts([le(ZERO_I, w), lt(w, t)]):
                    b = subst(d, {j: w})
                return add(v0, sum_(t, w, b))
            return f
        # conditional: v' = ite(c, w, v) or v + conditional amount hidden in an ite
        if u.op == "ite":
            c, a, b = u.args
            if v not in fv(c):
                da, db = sub(a, v), sub(b, v)
                if v not in fv(da) and v not in fv(db):
                    dd = ite(c, da, db)

                    def f(t):
                        w = fresh("s")
                        with with_facts([le(ZERO_I, w), lt(w, t)]):
                            x = subst(dd, {j: w})
                        return add(v0, sum_(t, w, x))
                    r = _unique(c, a, b, v, v0, j)
                    return r or f
    if u.op == "ite" and v.sort == "I":
        r = _saturating(v, v0, u, j)
        if r:
            return r
    if u.op == "ite":
        c, a, b = u.args
        if v not in fv(c):
            r = _unique(c, a, b, v, v0, j)
            if r:
                return r
    if v.op == "var" and j in fv(u):
        r = _point(u, v, v0, j) or _points(u, v, v0, j)
        if r:
            return r
    if v.sort == "B":
        if u.op == "or" and v in u.args:
            c = bor(*[x for x in u.args if x is not v])
            if v not in fv(c):
                def f(t):
                    w = fresh("s")
                    cnt = sum_(t, w, ite(subst(c, {j: w}), ONE_I, ZERO_I))
                    return bor(v0, lt(ZERO_I, cnt))
                # a condition that holds for one iteration only, or that keeps holding
                return _unique(c, TRUE, v, v, v0, j) or _monotone(c, v0, j) or f
        if u.op == "and" and v in u.args:
            c = band(*[x for x in u.args if x is not v])
            if v not in fv(c):
                def f(t):
                    w = fresh("s")
                    cnt = sum_(t, w, ite(subst(bnot(c), {j: w}), ONE_I, ZERO_I))
                    return band(v0, le(cnt, ZERO_I))
                return _unique(bnot(c), FALSE, v, v, v0, j) or f
    return None


def _monotone(c, v0, j):
    w = fresh("s")
    with with_facts([le(ZERO_I, w), subst(c, {j: w})]):
        if not entails(subst(c, {j: add(w, ONE_I)})):
            return None

    def f(t):
        if is_num(t) and nval(t) == 0:
            return v0
        return bor(v0, band(le(ONE_I, t), subst(c, {j: sub(t, ONE_I)})))
    return f


def _saturating(v, v0, u, j):
    """v' = if v < n then v + d else v (any spelling of the condition), with d = 1 and v0 <= n"""
    c, a, b = u.args
    for cc, x, y in ((c, a, b), (bnot(c), b, a)):
        if y is v and sub(x, v) is ONE_I:
            # cc must be v + 1 - n <= 0 for a bound n free of v and j
            if cc.op != "le0":
                continue
            n = sub(add(v, ONE_I), cc.args[0])
            if v in fv(n) or j in fv(n):
                continue
            if not entails(le(v0, n)):
                return lambda t: maxi(v0, mini(add(v0, t), n))
            return lambda t: mini(add(v0, t), n)
    return None


def _unique(c, a, b, v, v0, j):
    """v' = ite(c, a, b) with one branch keeping v and the other taken for at most one j"""
    if b is v:
        cc, w = c, a
    elif a is v:
        cc, w = bnot(c), b
    else:
        return None
    extra = []
    eqs = None
    parts = cc.args if cc.op == "and" else (cc,)
    for x in parts:
        if x.op == "eq0" and j in fv(x) and eqs is None:
            sol = solve_for(x.args[0], j)
            if sol is not None:
                eqs = sol
                continue
        extra.append(x)
    if eqs is None:
        return _unique_cases(parts, w, v, v0, j)
    w0 = subst(w, {v: v0}) if v in fv(w) else w

    def f(t):
        cond = band(le(ZERO_I, eqs), lt(eqs, t), *[subst(x, {j: eqs}) for x in extra])
        if cond is TRUE or entails(cond):
            return subst(w0, {j: eqs})
        if cond is FALSE or entails(bnot(cond)):
            return v0
        with with_facts([cond]):
            x = subst(w0, {j: eqs})
        return ite(cond, x, v0)
    return f


def _point(u, v, v0, j):
    """v' = v except in the one iteration whose number solves the equations in u (whatever else u tests)"""
    conds, sol = {}, None
    todo, seen = [u], set()
    while todo:
        x = todo.pop()
        if not isinstance(x, T) or x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "ite":
            todo += list(x.args)
        elif x.op in ("and", "or", "not", "iff"):
            todo += list(x.args)
        elif x.op == "eq0" and j in fv(x) and v not in fv(x):
            e = solve_for(x.args[0], j)
            if e is not None and (sol is None or e is sol):
                sol = e
                conds[x] = FALSE
    if sol is None or j in fv(sol):
        return None
    if replace(u, conds) is not v:
        return None
    w = replace(u, {c: TRUE for c in conds})

    def f(t):
        cond = band(le(ZERO_I, sol), lt(sol, t))
        if cond is FALSE or entails(bnot(cond)):
            return v0
        with with_facts([] if cond is TRUE else [cond]):
            x = subst(w, {v: v0, j: sol})
        return x if cond is TRUE or entails(cond) else ite(cond, x, v0)
    return f


def _points(u, v, v0, j):
    """v' = v except in at most two iterations, those whose numbers solve the equations in u"""
    conds, sols = {}, []
    todo, seen = [u], set()
    while todo:
        x = todo.pop()
        if not isinstance(x, T) or x.id in seen:
            continue
        seen.add(x.id)
        if x.op in ("ite", "and", "or", "not", "iff"):
            todo += list(x.args)
        elif x.op == "eq0" and j in fv(x) and v not in fv(x):
            e = solve_for(x.args[0], j)
            if e is not None and j not in fv(e):
                conds[x] = FALSE
                if not any(e is y for y in sols):
                    sols.append(e)
    if len(sols) != 2 or replace(u, conds) is not v:
        return None
    e1, e2 = sols

    def f(t):
        def inr(e):
            return band(le(ZERO_I, e), lt(e, t))

        def case(c, a, b):
            if c is TRUE or entails(c):
                return a()
            if c is FALSE or entails(bnot(c)):
                return b()
            with with_facts([c]):
                x = a()
            with with_facts([bnot(c)]):
                y = b()
            return ite(c, x, y)

        def w(e, prev):
            return subst(u, {j: e, v: prev})

        def both():
            return case(eq(e1, e2), lambda: w(e1, v0),
                        lambda: case(lt(e1, e2), lambda: w(e2, w(e1, v0)), lambda: w(e1, w(e2, v0))))
        return case(inr(e1), lambda: case(inr(e2), both, lambda: w(e1, v0)), lambda: case(inr(e2), lambda: w(e2, v0), lambda: v0))
    return f


def _unique_cases(parts, w, v, v0, j):
    """a write at position ite(c(j), e1(j), e2(j)): solved in each case; the cases may not write the same element"""
    for n, x in enumerate(parts):
        if x.op != "eq0" or j not in fv(x):
            continue
        its = [a for m, _ in to_poly(x.args[0]).items() for a, _ in m if a.op == "ite" and j in fv(a)]
        if len(its) != 1:
            continue
        a = its[0]
        rest = [y for k, y in enumerate(parts) if k != n]
        sols = []
        for cond, br in ((a.args[0], a.args[1]), (bnot(a.args[0]), a.args[2])):
            e = solve_for(subst_term(x.args[0], a, br), j)
            if e is None:
                break
            sols.append((e, cond))
        if len(sols) != 2:
            continue
        w0 = subst(w, {v: v0}) if v in fv(w) else w
        (e1, c1), (e2, c2) = sols

        def guard(e, c, t):
            return band(le(ZERO_I, e), *([lt(e, t)] if t is not None else []), subst(c, {j: e}), *[subst(y, {j: e}) for y in rest])
        both = band(guard(e1, c1, None), guard(e2, c2, None))
        if not (both is FALSE or entails(bnot(both))):
            from . import prove as PV
            if not PV.prove(list(Ctx.facts), bnot(both), budget={"deadline": time.time() + 5})[0]:
                continue

        def f(t):
            out = v0
            for e, c in reversed(sols):
                g = guard(e, c, t)
                if g is FALSE or entails(bnot(g)):
                    continue
                with with_facts([g]):
                    y = subst(w0, {j: e})
                out = ite(g, y, out)
            return out
        return f
    return None


def subst_term(p, a, b):
    return replace(p, {a: b})


INVERSES = {}


def solve_for(p, j):
    """p = 0 for the integer polynomial p: solve for j when it occurs linearly with coefficient +-1, or under an invertible map"""
    q = to_poly(p)
    k = ((j, 1),)
    if k in q and abs(q[k]) == 1 and all(all(j not in fv(a) for a, _ in m) for m in q if m != k):
        return from_poly({m: -c / q[k] for m, c in q.items() if m != k}, "I")
    # an app f(.., j) with a registered inverse
    for m, c in q.items():
        if len(m) == 1 and m[0][1] == 1 and abs(c) == 1 and m[0][0].op == "app":
            a = m[0][0]
            nm = a.args[0].split("#")[0]
            if nm in INVERSES and a.args[1][-1] is j and all(all(j not in fv(x) for x, _ in mm) for mm in q if mm != m):
                r = from_poly({mm: -cc / c for mm, cc in q.items() if mm != m}, "I")
                return INVERSES[nm](a, r)
    return None


def byte_int(b):
    return add(*[ite(x, num(1 << k), ZERO_I) for k, x in enumerate(b.bits)])


NARROW = {"u16": (0, 2 ** 16 - 1), "u32": (0, 2 ** 32 - 1), "i8": (-2 ** 7, 2 ** 7 - 1),
          "i16": (-2 ** 15, 2 ** 15 - 1), "i32": (-2 ** 31, 2 ** 31 - 1)}
WIDTH = {"u8": (0, 255), "char": (0, 0x10ffff), "bool": (0, 1), **NARROW}


def in_range(v, ty):
    lo, hi = NARROW[ty]
    return entails(le(num(lo), v)) and entails(le(v, num(hi)))


def wrap(v, ty, sty=None):
    """v as ty, modulo 2^width"""
    lo, hi = NARROW[ty]
    if sty in WIDTH and lo <= WIDTH[sty][0] and WIDTH[sty][1] <= hi:
        return v
    if in_range(v, ty):
        return v
    n = num(hi - lo + 1)
    return imod(v, n) if lo == 0 else sub(imod(add(v, num(-lo)), n), num(-lo))


def int_byte(t):
    return Byte([eq(imod(idiv(t, num(1 << k)), num(2)), ONE_I) for k in range(8)])
