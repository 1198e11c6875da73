"""Contracts assumed for ndarray / numpy arrays: a 1-D array is its elements, a 2-D array its rows and their common length;
memory layout and strides are not modelled (as_slice succeeds: it is only supported on arrays built from contiguous storage)."""
from .std import *
from .std import h, strip, cx, is_cx, as_seq, as_it, mkit, rest, one, map_seq, sum_value, zero_of, bounds, vref, append, refs, small, ordering
from . import std as SD
from . import prove as PV


def arr1(s):
    return Opq("arr1", (s,))


def arr2(rows, ncols):
    return Opq("arr2", (rows, ncols))


def is2(v):
    return isinstance(v, Opq) and v.kind == "arr2"


def nd(ex, v, st):
    v = strip(ex, v, st)
    if isinstance(v, Opq) and v.kind in ("arr1", "arr2"):
        return v
    raise Unsupported("not an array: %r" % type(v).__name__)


def flat(v):
    """row-major elements of a 2-D array"""
    rows, n = v.xs
    tot = mul(rows.len, n)
    return Seq(tot, gen=lambda q: rows.at(idiv(q, n)).at(imod(q, n)))


def elem_ty(info):
    m = re.search(r"OwnedRepr<(.*?)>, ", info["selfty"] or "")
    t = m.group(1) if m else ""
    return t + ">" if t.count("<") > t.count(">") else t


@h("ArrayBase::zeros")
def nd_zeros(ex, a, st, info):
    z = zero_of(elem_ty(info), ex)
    d = a[0]
    if isinstance(d, Tup):
        r, c = d.xs
        row = Seq(c, gen=lambda k: z)
        if is_num(r) and nval(r) == 0:
            return arr2(lit([]), c)
        return arr2(Seq(r, gen=lambda i: row), c)
    if isinstance(d, T):
        return arr1(Seq(d, gen=lambda k: z))
    raise Unsupported("shape")


@h("ArrayBase::from_elem")
def nd_from_elem(ex, a, st, info):
    z, d = a[1], a[0]
    if isinstance(d, Tup):
        return arr2(Seq(d.xs[0], gen=lambda i: Seq(d.xs[1], gen=lambda k: z)), d.xs[1])
    return arr1(Seq(d, gen=lambda k: z))


@h("ArrayBase::from_vec")
def nd_from_vec(ex, a, st, info):
    return arr1(as_seq(ex, a[0], st))


@h("ArrayBase::from_shape_fn")
def nd_from_shape_fn(ex, a, st, info):
    d, f = a
    if not isinstance(d, Tup):
        return arr1(map_seq(ex, Seq(d, gen=lambda i: i), f, st))
    r, c = d.xs
    s = map_seq(ex, Seq(mul(r, c), gen=lambda q: Tup([idiv(q, c), imod(q, c)])), f, st)
    return arr2(Seq(r, gen=lambda i: Seq(c, gen=lambda k: s.at(add(mul(i, c), k)))), c)


@h("ArrayBase::push_row")
def nd_push_row(ex, a, st, info):
    r = vref(ex, a[0], st)
    v = ex.get(r, st)
    if not is2(v):
        raise Unsupported("push_row")
    s = as_seq(ex, a[1], st)
    ok = eq(s.len, v.xs[1])
    err = En("Result", ONE_I, {0: (UNIT,), 1: (Opq("ShapeError", ()),)})
    good_ = En("Result", ZERO_I, {0: (UNIT,), 1: ()})
    outs = []
    if ok is not FALSE:
        s1 = st.clone().assume(ok)
        with set_facts(s1.facts):
            ex.put(r, arr2(append(v.xs[0], lit([s])), v.xs[1]), s1)
        outs.append((s1, good_))
    if ok is not TRUE and not entails(ok):
        outs.append((st.clone().assume(bnot(ok)), err))
    return outs


@h("ArrayBase::push_column")
def nd_push_column(ex, a, st, info):
    r = vref(ex, a[0], st)
    v = ex.get(r, st)
    s = as_seq(ex, a[1], st)
    rows, c = v.xs
    ok = eq(s.len, rows.len)
    if not entails(ok):
        raise Unsupported("push_column of another length")
    st = st.clone()
    ex.put(r, arr2(Seq(rows.len, gen=lambda i: append(rows.at(i), lit([s.at(i)]))), add(c, ONE_I)), st)
    return [(st, En("Result", ZERO_I, {0: (UNIT,), 1: ()}))]


def transpose(v):
    rows, n = v.xs
    return arr2(Seq(n, gen=lambda c: Seq(rows.len, gen=lambda r: rows.at(r).at(c))), rows.len)


@h("ArrayBase::reversed_axes", "ArrayBase::t")
def nd_rev(ex, a, st, info):
    v = nd(ex, a[0], st)
    return transpose(v) if is2(v) else v


@h("ArrayBase::view", "ArrayBase::view_mut", "ArrayBase::to_owned", "ArrayBase::into_owned", "PyReadonlyArray::as_array", "PyReadonlyArray::to_owned_array",
   "ArrayBase::as_standard_layout")
def nd_view(ex, a, st, info):
    if info["meth"] == "view_mut":
        raise Unsupported("view_mut")
    return nd(ex, a[0], st)


@h("ArrayBase::row", "ArrayBase::column", "ArrayBase::index_axis")
def nd_row(ex, a, st, info):
    v = nd(ex, a[0], st)
    rows, n = v.xs
    where = info["fr"].fn.name if info.get("fr") else ""
    if info["meth"] == "index_axis":
        ax, i = axis(a[1]), a[2]
        col = ax == 1
    else:
        col, i = info["meth"] == "column", a[1]
    if col:
        st = bounds(ex, st, i, n, where)
        return [(st, arr1(Seq(rows.len, gen=lambda r: rows.at(r).at(i))))]
    st = bounds(ex, st, i, rows.len, where)
    with set_facts(st.facts):
        return [(st, arr1(rows.at(i)))]


@h("ArrayBase::rows", "ArrayBase::outer_iter")
def nd_rows(ex, a, st, info):
    v = nd(ex, a[0], st)
    rows, n = v.xs
    return It(Seq(rows.len, gen=lambda i: arr1(rows.at(i))))


@h("ArrayBase::columns")
def nd_columns(ex, a, st, info):
    v = transpose(nd(ex, a[0], st))
    rows = v.xs[0]
    return It(Seq(rows.len, gen=lambda i: arr1(rows.at(i))))


def axis(v):
    if isinstance(v, Struct) and v.name == "Axis" and is_num(v.xs[0]):
        return int(nval(v.xs[0]))
    raise Unsupported("axis %r" % (v,))


@h("ArrayBase::axis_iter", "ArrayBase::lanes")
def nd_axis_iter(ex, a, st, info):
    v = nd(ex, a[0], st)
    k = axis(a[1])
    if info["meth"] == "lanes":
        k = 1 - k
    if k == 1:
        v = transpose(v)
    rows = v.xs[0]
    return It(Seq(rows.len, gen=lambda i: arr1(rows.at(i))))


@h("ArrayBase::iter", "ArrayBase::into_iter")
def nd_iter(ex, a, st, info):
    v = nd(ex, a[0], st)
    s = flat(v) if is2(v) else v.xs[0]
    return It(refs(s))


@h("ArrayBase::map", "ArrayBase::mapv", "ArrayBase::mapv_into")
def nd_map(ex, a, st, info):
    v = nd(ex, a[0], st)
    byref = info["meth"] == "map"
    if not is2(v):
        s = v.xs[0]
        s1 = Seq(s.len, gen=s.at)
        m = map_seq(ex, refs(s1) if byref else s1, a[1], st)
        return arr1(m if m.items is None else Seq(s.len, gen=lambda k: _cell(ex, a[1], s.at(k), st, byref)))
    rows, n = v.xs
    f = flat(v)
    map_seq(ex, refs(f) if byref else f, a[1], st)          # its failures, and that it changes nothing else
    # element (i, k) of the result is f(element (i, k)): the value is recomputed at that element
    return arr2(Seq(rows.len, gen=lambda i: Seq(n, gen=lambda k: _cell(ex, a[1], rows.at(i).at(k), st, byref))), n)


def _cell(ex, f, x, st, byref):
    s2 = St(dict(st.cells), ()).assume(*Ctx.facts)
    _, v = one(ex.call_value(f, [PRef(x) if byref else x], s2))
    return ex.close_refs(v, s2)


@h("ArrayBase::sum_axis")
def nd_sum_axis(ex, a, st, info):
    v = nd(ex, a[0], st)
    k = axis(a[1])
    if not is2(v):
        raise Unsupported("sum_axis of a 1-D array")
    if k == 1:
        v = transpose(v)
    rows, n = v.xs

    def gen(c):
        j = fresh("r")
        with with_facts([le(ZERO_I, j), lt(j, rows.len)]):
            x = rows.at(j).at(c)
        return sum_value(rows.len, j, x)
    return arr1(Seq(n, gen=gen))


@h("ArrayBase::sum")
def nd_sum(ex, a, st, info):
    v = nd(ex, a[0], st)
    if is2(v):
        rows, n = v.xs
        j, w = fresh("r"), fresh("w")
        with with_facts([le(ZERO_I, j), lt(j, rows.len), le(ZERO_I, w), lt(w, n)]):
            x = rows.at(j).at(w)
        return sum_value(rows.len, j, sum_value(n, w, x))
    s = v.xs[0]
    j, x = s.template()
    return sum_value(s.len, j, x)


@h("ArrayBase::nrows", "ArrayBase::ncols", "ArrayBase::dim", "ArrayBase::len")
def nd_dim(ex, a, st, info):
    v = strip(ex, a[0], st)
    m = info["meth"]
    if not is2(v):
        return as_seq(ex, v, st).len
    r, c = v.xs[0].len, v.xs[1]
    return {"nrows": r, "ncols": c, "dim": Tup([r, c]), "len": mul(r, c)}[m]


@h("ArrayBase::as_slice", "ArrayBase::as_slice_mut")
def nd_as_slice(ex, a, st, info):
    r = a[0]
    while isinstance(r, Ref) and isinstance(ex.get(r, st), (Ref, PRef)):
        r = ex.get(r, st)
    v = nd(ex, r, st)
    if is2(v):
        raise Unsupported("slice of a 2-D array")
    if isinstance(r, Ref):
        return some(Ref(r.cell, r.path + (0,)))
    if info["meth"] == "as_slice_mut":
        raise Unsupported("mutation through a shared array")
    return some(PRef(v.xs[0]))


@h("ArrayBase::to_vec", "ArrayBase::into_raw_vec")
def nd_to_vec(ex, a, st, info):
    v = nd(ex, a[0], st)
    return flat(v) if is2(v) else v.xs[0]


# ---------------------------------------------------------------- extremes of symbolic sequences
# max_by(f): element m of the sequence, m a fresh index in range, with f(s[i], s[m]) not Greater for every i; f must be a total
# preorder (checked on arbitrary elements).  The record (m, sequence, relation) lets a specification use the bound at an index.
_max = [0]


def extreme(ex, s, st, rel, greatest, where):
    """rel(x, y, state) -> sign of the comparison"""
    if s.len is None:
        raise Unsupported("extreme of an endless sequence")
    with set_facts(st.facts):
        j, v = s.template()
    if isinstance(v, PRef):
        s = Seq(s.len, gen=lambda i, s=s: s.at(i).v)
        v = v.v
    if not (isinstance(v, T) and v.sort in ("R", "I")):
        raise Unsupported("extreme of %s" % type(v).__name__)
    x, y, z = (fresh("x", v.sort) for _ in range(3))
    xy, yx, yz, xz = rel(x, y), rel(y, x), rel(y, z), rel(x, z)
    for c in (implies(le(xy, ZERO_I), le(ZERO_I, yx)), implies(band(le(xy, ZERO_I), le(yz, ZERO_I)), le(xz, ZERO_I))):
        if not PV.prove(list(st.facts), c)[0]:
            raise Unsupported("comparison that is no total order")
    _max[0] += 1
    m = fresh("ext")
    some_ = lt(ZERO_I, s.len)
    st2 = st.clone().assume(le(ZERO_I, m), implies(some_, lt(m, s.len)))
    sg = ONE_I if greatest else num(-1)

    def bound(i):
        """not (s[i] above s[m])"""
        with with_facts([le(ZERO_I, i), lt(i, s.len)]):
            return le(mul(sg, rel(s.at(i), s.at(m))), ZERO_I)
    if not hasattr(ex, "extremes"):
        ex.extremes = []
    ex.extremes.append((m, s, bound))
    with set_facts(st2.facts):
        val = s.at(m) if entails(some_) else None
    if val is None:
        with set_facts(st2.facts):
            with with_facts([some_]):
                val = s.at(m)
        return [(st2, En("Option", ite(some_, ONE_I, ZERO_I), {0: (), 1: (val,)}))]
    return [(st2, some(val))]


def _by(greatest):
    def f(ex, a, st, info):
        s, org = rest(ex, a[0], st)
        if org is not None:
            raise Unsupported("extreme of a borrowed iterator")
        its = s.to_items(8)
        if its is not None and not its:
            return none()

        def rel(x, y):
            # the comparator may not fail on comparable values
            saved = len(ex.panics)
            outs = ex.call_value(a[1], [PRef(x), PRef(y)], st)
            for p in ex.panics[saved:]:
                if not PV.prove(list(p.facts), bnot(p.cond))[0]:
                    raise Unsupported("comparison that may fail")
            del ex.panics[saved:]
            if len(outs) != 1 or not isinstance(outs[0][1], En):
                raise Unsupported("comparison")
            return outs[0][1].tag
        return extreme(ex, s, st, rel, greatest, info["fr"].fn.name if info.get("fr") else "")
    return f


def _plain(greatest):
    def f(ex, a, st, info):
        s, org = rest(ex, a[0], st)
        its = s.to_items(8)
        if its is not None and not its:
            return none()
        return extreme(ex, s, st, lambda x, y: ordering(x, y).tag, greatest, "")
    return f


STD["Iterator::max_by"] = _by(True)
STD["Iterator::min_by"] = _by(False)
STD["Iterator::max"] = _plain(True)
STD["Iterator::min"] = _plain(False)


# an array becomes an iterator by value; by reference it iterates over references
def _into(v, byref):
    s = flat(v) if is2(v) else v.xs[0]
    return It(refs(s)) if byref else It(s)


@h("PyArray::from_iter_bound", "PyArray1::from_iter_bound")
def py_from_iter(ex, a, st, info):
    s, org = rest(ex, a[-1], st)
    return arr1(s)


@h("IntoPyArray::into_pyarray_bound")
def py_into(ex, a, st, info):
    v = strip(ex, a[0], st)
    return arr1(v) if isinstance(v, Seq) else v
