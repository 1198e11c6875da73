"""Parser for `rustc -Zunpretty=mir` text."""
import re

OPEN = {"(": ")", "[": "]", "{": "}", "<": ">"}


def scan(s, i, stops):
    """index of the first top-level character in stops at or after i (string/char literals and nesting respected)"""
    d = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '"':
            i += 1
            while s[i] != '"':
                i += 2 if s[i] == "\\" else 1
        elif c == "'" and i + 2 < n and (s[i + 2] == "'" or (s[i + 1] == "\\")):
            j = s.find("'", i + 2)
            if j > 0:
                i = j
        elif d == 0 and c in stops and not (c == ">" and i > 0 and s[i - 1] in "-="):
            return i
        elif c in "([{<":
            if c == "<" and i + 1 < n and s[i + 1] in "= " and i > 0 and s[i - 1] == " ":
                pass
            else:
                d += 1
        elif c in ")]}":
            d -= 1
        elif c == ">":
            if i > 0 and s[i - 1] in "-=":
                pass
            else:
                d -= 1
        i += 1
    return n


def split_top(s, sep=","):
    out = []
    i = 0
    while True:
        j = scan(s, i, sep)
        out.append(s[i:j].strip())
        if j >= len(s):
            break
        i = j + 1
    return [x for x in out if x != ""]


# ---------------------------------------------------------------- places
class Place:
    __slots__ = ("local", "proj")

    def __init__(self, local, proj):
        self.local, self.proj = local, proj

    def __repr__(self):
        return "_%d%s" % (self.local, "".join(map(str, self.proj)))


def parse_place(s):
    s = s.strip()
    p, i = _place(s, 0)
    if i != len(s):
        raise ValueError("place: " + s)
    return p


def _place(s, i):
    if s[i] == "_":
        m = re.compile(r"_(\d+)").match(s, i)
        p = Place(int(m.group(1)), ())
        i = m.end()
    elif s[i] == "(":
        if s[i + 1] == "*":
            p, j = _place(s, i + 2)
            assert s[j] == ")", s
            p = Place(p.local, p.proj + (("deref",),))
            i = j + 1
        else:
            p, j = _place(s, i + 1)
            if s.startswith(" as ", j):
                k = scan(s, j + 4, ")")
                p = Place(p.local, p.proj + (("variant", s[j + 4:k].strip()),))
                i = k + 1
            elif s[j] == ".":
                m = re.compile(r"\.(\d+): ").match(s, j)
                k = scan(s, m.end(), ")")
                p = Place(p.local, p.proj + (("field", int(m.group(1)), s[m.end():k].strip()),))
                i = k + 1
            else:
                raise ValueError("place: " + s)
    else:
        raise ValueError("place: " + s)
    while i < len(s) and s[i] == "[":
        j = scan(s, i + 1, "]")
        body = s[i + 1:j]
        m = re.fullmatch(r"_(\d+)", body)
        if m:
            pr = ("index", int(m.group(1)))
        elif re.fullmatch(r"-?\d+ of \d+", body):
            pr = ("cindex", int(body.split()[0]))
        else:
            m = re.fullmatch(r"(\d+):(-?\d*)", body)
            if not m:
                raise ValueError("place: " + s)
            pr = ("subslice", int(m.group(1)), m.group(2))
        p = Place(p.local, p.proj + (pr,))
        i = j + 1
    return p, i


# ---------------------------------------------------------------- functions
class Fn:
    def __init__(self, name, header):
        self.name = name
        self.header = header
        self.args = []          # list of (local, type)
        self.ret = "()"
        self.types = {}
        self.blocks = {}        # id -> list of raw statement strings, last is the terminator
        self.cleanup = set()
        self._loops = None
        self.parsed = {}

    def __repr__(self):
        return "<fn %s>" % self.name


def strip_generics(p):
    """Remove ::<...> argument lists (not the <T as Trait> prefix)."""
    out = []
    i = 0
    n = len(p)
    while i < n:
        if p.startswith("::<", i) and not p.startswith("::<impl ", i):
            j = scan(p, i + 3, ">")
            i = j + 1
            continue
        out.append(p[i])
        i += 1
    return "".join(out)


def parse_fn_header(h):
    # fn NAME(args) -> RET {
    body = h[3:]
    # the argument list starts at the first top-level '('
    i = scan(body, 0, "(")
    name = body[:i].strip()
    j = scan(body, i + 1, ")")
    args = body[i + 1:j]
    rest = body[j + 1:].strip()
    ret = "()"
    if rest.startswith("->"):
        ret = rest[2:].strip()
        if ret.endswith("{"):
            ret = ret[:-1].strip()
    f = Fn(name, h)
    for a in split_top(args):
        m = re.match(r"_(\d+): (.*)$", a, re.S)
        f.args.append((int(m.group(1)), m.group(2)))
    f.ret = ret
    return f


class Mir:
    def __init__(self, text, src_root):
        self.fns = {}
        self.consts = {}
        self.src_root = src_root
        self.closures = {}        # closure type -> Fn
        self.impls = {}           # impl path prefix -> (trait or None, self type text)
        self._parse(text)
        self._index()

    def _parse(self, text):
        cur = None
        bb = None
        for line in text.split("\n"):
            if cur is None:
                if line.startswith("fn ") and line.rstrip().endswith("{"):
                    cur = parse_fn_header(line.rstrip())
                    bb = None
                elif line.startswith(("const ", "static ")):
                    m = re.match(r"(?:const|static(?: mut)?) (.*)$", line)
                    body = m.group(1)
                    k = self._const_colon(body)
                    name = body[:k]
                    rest = body[k + 2:]
                    if rest.endswith(" = {"):
                        cur = Fn(name, line)
                        cur.ret = rest[:-4]
                        cur.is_const = True
                        bb = None
                    elif rest.endswith(";"):
                        ty, v = rest[:-1].split(" = ", 1)
                        self.consts[name] = (ty, v)
                continue
            if line == "}":
                if getattr(cur, "is_const", False):
                    self.consts[cur.name] = cur
                else:
                    self.fns.setdefault(cur.name, cur)
                cur = None
                continue
            s = line.strip()
            if not s or s.startswith("//"):
                continue
            m = re.match(r"let (?:mut )?_(\d+): (.*);$", s)
            if m and bb is None:
                cur.types[int(m.group(1))] = m.group(2)
                continue
            m = re.match(r"bb(\d+)( \(cleanup\))?: \{$", s)
            if m:
                bb = int(m.group(1))
                cur.blocks[bb] = []
                if m.group(2):
                    cur.cleanup.add(bb)
                continue
            if bb is None:
                continue
            if s == "}":
                bb = None
                continue
            cur.blocks[bb].append(s)

    @staticmethod
    def _const_colon(body):
        # name: type  -- the first ': ' at nesting depth 0
        d = 0
        for i, c in enumerate(body):
            if c in "<([{":
                d += 1
            elif c in ")]}":
                d -= 1
            elif c == ">" and body[i - 1] != "-":
                d -= 1
            elif d == 0 and c == ":" and body[i + 1:i + 2] == " ":
                return i
        raise ValueError(body)

    def _index(self):
        for f in list(self.fns.values()):
            for n, t in f.args:
                f.types[n] = t
            if "{closure#" in f.name and f.args:
                m = re.search(r"\{closure@[^}]*\}", f.args[0][1])
                if m and re.search(r"\{closure#\d+\}$", f.name):
                    t = f.args[0][1]
                    t = re.sub(r"^&(?:mut )?", "", t)
                    self.closures[t] = f
        spans = {}
        for name in list(self.fns) + list(self.consts):
            for m in re.finditer(r"<impl at ([^:>]+):(\d+):(\d+): (\d+):(\d+)>", name):
                spans[m.group(0)] = m.groups()
        cache = {}
        import os
        for key, (file, l1, c1, l2, c2) in spans.items():
            path = os.path.join(self.src_root, file)
            if path not in cache:
                try:
                    cache[path] = open(path).read().split("\n")
                except OSError:
                    cache[path] = []
            lines = cache[path]
            l1, c1, l2, c2 = int(l1), int(c1), int(l2), int(c2)
            seg = lines[l1 - 1:l2]
            if not seg:
                continue
            if l1 == l2:
                txt = seg[0][c1 - 1:c2 - 1]
            else:
                txt = "\n".join([seg[0][c1 - 1:]] + seg[1:-1] + [seg[-1][:c2 - 1]])
            txt = " ".join(txt.split())
            m = re.match(r"(?:unsafe )?impl\b", txt)
            if not m:
                self.impls[key] = (None, txt)      # derive etc.
                continue
            rest = txt[m.end():].strip()
            if rest.startswith("<"):
                j = scan(rest, 1, ">")
                rest = rest[j + 1:].strip()
            w = re.split(r"\bwhere\b", rest)[0].strip()
            # trait for type
            d = 0
            pos = None
            for i in range(len(w)):
                if w[i] == "<":
                    d += 1
                elif w[i] == ">" and w[i - 1] != "-":
                    d -= 1
                elif d == 0 and w.startswith(" for ", i):
                    pos = i
                    break
            if pos is not None:
                self.impls[key] = (base(w[:pos]), base(w[pos + 5:]))
            else:
                self.impls[key] = (None, base(w))
        # method index: (trait or None, self type's last segment, method) -> Fn
        self.methods = {}
        for name, f in self.fns.items():
            m = re.search(r"(<impl at [^>]+>)::([\w]+)$", name)
            if m and m.group(1) in self.impls:
                tr, ty = self.impls[m.group(1)]
                self.methods.setdefault((tr, ty, m.group(2)), []).append(f)
        self.const_methods = {}


def base(t):
    """Last path segment of a type without generics/refs: `&mut a::b::C<D>` -> `C`"""
    t = t.strip()
    t = re.sub(r"^&(?:'\w+ )?(?:mut )?", "", t)
    t = re.sub(r"^dyn ", "", t)
    i = scan(t, 0, "<")
    t2 = t[:i]
    return t2.split("::")[-1].strip()


# ---------------------------------------------------------------- control flow
def successors(term):
    """Non-unwind successors of a terminator string."""
    if term.startswith("goto"):
        return [int(x) for x in re.findall(r"bb(\d+)", term)]
    if term in ("return;", "unreachable;", "resume;") or term.startswith(("return", "unreachable", "resume", "terminate")):
        return []
    m = re.search(r" -> \[(.*)\];$", term)
    if m:
        out = []
        for part in split_top(m.group(1)):
            if part.startswith("unwind"):
                continue
            k = re.search(r": bb(\d+)$", part)
            if k:
                out.append(int(k.group(1)))
        return out
    m = re.search(r" -> bb(\d+);$", term)
    if m:
        # `call -> bbN` with no return edge is an unwind-only edge
        return []
    return []


def loops(f):
    """header -> set of blocks of the natural loop"""
    if f._loops is not None:
        return f._loops
    succ = {b: [x for x in successors(st[-1]) if x not in f.cleanup] for b, st in f.blocks.items() if b not in f.cleanup}
    # dominators
    order, seen = [], set()
    stack = [(0, iter(succ.get(0, [])))]
    seen.add(0)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(succ.get(s, []))))
                break
        else:
            order.append(b)
            stack.pop()
    rpo = order[::-1]
    pred = {b: [] for b in rpo}
    for b in rpo:
        for s in succ[b]:
            if s in pred:
                pred[s].append(b)
    dom = {b: set(rpo) for b in rpo}
    dom[0] = {0}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            ps = [dom[p] for p in pred[b]]
            n = (set.intersection(*ps) if ps else set()) | {b}
            if n != dom[b]:
                dom[b] = n
                ch = True
    res = {}
    for b in rpo:
        for s in succ[b]:
            if s in dom[b]:
                body = res.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(pred[x])
    f._loops = res
    return res
