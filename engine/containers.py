"""lists, dicts, sets, tuples, iteration and subscripts"""

import ast

from . import regex
from .interp import HObj, SliceV, SuperV, alts_of, flat_items
from .ops import EXT_TABLES, Ops, add, is_path, probe, spec_hole, tname
from .values import (
    EMPTY, FALSE, NONE, TRUE, BoundV, ClassV, Const, Empty, ExcV, ExtV, FuncV, Hole, LStar, Meth,
    ModV, Num, Partial, Raise, Ref, RxV, Star, Str, TupV, Union, Unk, Wrap, hole, is_int, is_str,
    mk_parts, mk_str, parts_of, walk,
)


def trusted_index(src):
    """an index computed from lengths, enumerations, searches: assumed in range"""
    for x in walk(src):
        if isinstance(x, str) and x in ("len", "range", "enum", "find", "join"):
            return True
    return False


def literal_index(x):
    if isinstance(x, ast.UnaryOp):
        x = x.operand
    return isinstance(x, ast.Constant)


def is_table(v):
    return isinstance(v, ExtV) and v.name in EXT_TABLES


class Containers(Ops):
    # ------------------------------------------------------------- iteration
    def iterate(self, st, v, node):
        """[(state, tuple of items | Raise)]"""
        I = self.I
        if isinstance(v, Union):
            out = []
            for x in v.alts:
                out.extend(self.iterate(st.copy(), x, node))
            return out
        if isinstance(v, Ref):
            o = st.heap[v.id]
            if o.kind in ("list", "set", "gen"):
                return [(st, o.items)]
            if o.kind == "dict":
                return [(st, self.dict_keys(o, v))]
            if o.kind == "inst":
                f = I.class_lookup(st, o.cls, "__iter__")
                if isinstance(f, FuncV):
                    return I.bind(I.call(st, BoundV(f, v), (), {}, node), lambda s, r: self.iterate(s, r, node))
                if o.meta.get("listlike"):
                    return [(st, o.items)]
            if o.kind == "ext":
                return [(st, (LStar(("iter", v), frozenset([(Unk(("elem", v)),)]), True),))]
            return [self.exc(st, node, "TypeError", f"{tname(v, st)} object is not iterable")]
        if isinstance(v, TupV):
            return [(st, v.items)]
        if isinstance(v, Const) and isinstance(v.v, str):
            if len(v.v) <= 60:
                return [(st, tuple(Const(c) for c in v.v))]
            return [(st, (LStar(("chars", v), frozenset([(hole(("char", v)),)]), True),))]
        if isinstance(v, Str):
            return [(st, (LStar(("chars", v), frozenset([(hole(("char", v)),)]), True),))]
        if is_table(v):
            return [(st, (LStar(("iter", v), frozenset([(self.table_key(v),)]), True),))]
        if isinstance(v, (Unk, ExtV, Meth)):
            if is_path(v):
                return [self.exc(st, node, "TypeError", "path is not iterable")]
            if isinstance(v, Unk) and v.src and v.src[0] == "file":
                return [(st, (LStar(("lines", v), frozenset([(hole(("line", v)),)]), True),))]
            return [(st, (LStar(("iter", v), frozenset([(Unk(("elem", v)),)]), True),))]
        if isinstance(v, Const) and isinstance(v.v, (bytes, tuple, frozenset)):
            return [(st, tuple(Const(c) for c in v.v))]
        return [self.exc(st, node, "TypeError", f"{tname(v, st)} object is not iterable")]

    def dict_keys(self, o, v):
        its = list(o.entries)
        if o.weak:
            ks = []
            for k, _ in o.weak:
                for x in alts_of(k):
                    if x not in ks:
                        ks.append(x)
            its.append(LStar(("dkeys", v), frozenset((k,) for k in ks), not o.meta.get("filtered")))
        return tuple(its)

    def dict_items(self, o, v):
        its = [TupV((k, x)) for k, x in o.entries.items()]
        out = []
        for t in its:
            if isinstance(t.items[1], Union):
                out.append(Union(frozenset(TupV((t.items[0], a)) for a in t.items[1].alts)))
            else:
                out.append(t)
        if o.weak:
            al = set()
            for k, x in o.weak:
                for kk in alts_of(k):
                    for xx in alts_of(x):
                        al.add((TupV((kk, xx)),))
            out.append(LStar(("ditems", v), frozenset(al), True))
        return tuple(out)

    def dict_values(self, o, v):
        out = list(o.entries.values())
        if o.weak:
            out.append(LStar(("dvals", v), frozenset((x,) for _, w in o.weak for x in alts_of(w)), True))
        return tuple(out)

    def map_items(self, items, fn):
        """fn(elem)->elem, structure preserving"""
        out = []
        for it in items:
            if isinstance(it, LStar):
                out.append(LStar(it.origin, frozenset(self.map_items(a, fn) for a in it.alts), it.each))
            elif isinstance(it, Union):
                out.append(Union(frozenset(fn(x) for x in it.alts)))
            else:
                out.append(fn(it))
        return tuple(out)

    # ------------------------------------------------------------- lists
    def list_append(self, st, ref, v, node):
        st = st.copy()
        self.I.mutated(st, ref, "append", node)
        self.I.stored(st, ref, v)
        o = st.mut(ref.id)
        if o.meta.get("summary"):
            o.items = o.items + (LStar(("join", ref.id), frozenset([(v,)]), False),) if not any(
                isinstance(i, LStar) and (v,) in i.alts for i in o.items) else o.items
        else:
            o.items = o.items + (v,)
        if o.kind == "set":
            o.items = tuple(dict.fromkeys(o.items))
        return [(st, NONE)]

    def list_extend(self, st, ref, b, node):
        def f(s, items):
            s = s.copy()
            self.I.mutated(s, ref, "extend", node)
            for x in items:
                self.I.stored(s, ref, x)
            o = s.mut(ref.id)
            o.items = o.items + tuple(items)
            return [(s, NONE)]
        return self.I.bind(self.iterate(st, b, node), f)

    def weak_items(self, items, v, slot):
        """all elements of items joined with v"""
        els = set(flat_items(items))
        els.add(v)
        return (LStar(("join", slot), frozenset((e,) for e in els), False),)

    # ------------------------------------------------------------- dicts
    def dict_has(self, st, ref, k, node):
        o = st.heap[ref.id]
        k = self.I.simplify(st, k)
        if k in o.entries:
            return [(st, True)]
        if k in o.absent:
            return [(st, False)]
        if isinstance(k, (Const, ClassV, FuncV)):
            out = []
            cands = [(wk, wv) for wk, wv in o.weak if self.may_equal(st, wk, k)]
            # entries with non-constant keys
            if not cands and all(isinstance(x, (Const, ClassV, FuncV)) for x in o.entries):
                return [(st, False)]
            a = st.copy()
            n = a.mut(ref.id)
            vals = set()
            for wk, wv in cands:
                vals |= set(alts_of(wv))
            for wk, wv in o.entries.items():
                if not isinstance(wk, Const):
                    vals |= set(alts_of(wv))
            vals = {self.per_key(x, k) for x in vals}
            n.entries[k] = next(iter(vals)) if len(vals) == 1 else Union(frozenset(vals))
            n.absent = n.absent - {k}
            b = st.copy()
            m = b.mut(ref.id)
            m.absent = m.absent | {k}
            return [(a, True), (b, False)]
        if is_str(k):
            consts = [c for c in o.entries if isinstance(c, Const) and isinstance(c.v, str)]
            if len(consts) == len(o.entries) and not o.weak:
                return self.I.in_consts(st, k, frozenset(c.v for c in consts))
        if isinstance(k, Num) and not o.weak and o.entries and all(
                isinstance(c, Const) and isinstance(c.v, int) for c in o.entries) and len(o.entries) <= 32:
            lo, hi = self.I.num_range(st, k)
            out = []
            keys = {c.v for c in o.entries}
            for c in sorted(keys):
                if (lo is None or lo <= c) and (hi is None or c <= hi):
                    s = st.copy()
                    s.dom[k.src] = (c, c)
                    out.append((s, True))
            if lo is None or hi is None or hi - lo > 1000 or any(x not in keys for x in range(lo, hi + 1)):
                out.append((st, False))
            return out
        if not o.entries and not o.weak:
            return [(st, False)]
        return self.I.fork_atom(st, ("in", k, ("dict", ref, tuple(o.entries), o.weak)))

    def per_key(self, v, k):
        """value stored under an unknown key, now read under key k: distinct keys hold distinct values"""
        if isinstance(v, Str) and len(v.parts) == 1 and isinstance(v.parts[0], Hole) and v.parts[0].src[0] in ("dval", "spec-attr"):
            h = v.parts[0]
            if len(h.src) > 2:
                return v
            return Str((Hole(h.src + (k,), h.ops),))
        return v

    def may_equal(self, st, wk, k):
        for x in alts_of(wk):
            if isinstance(x, Const):
                if x == k:
                    return True
            elif is_str(x):
                if isinstance(k, Const) and isinstance(k.v, str):
                    return True
            elif isinstance(x, Unk):
                return True
        return False

    def dict_get(self, st, ref, k, node):
        """[(state, value | None-if-absent)]"""
        out = []
        for s, b in self.dict_has(st, ref, k, node):
            if not b:
                out.append((s, None))
                continue
            o = s.heap[ref.id]
            k2 = self.I.simplify(s, k)
            if k2 in o.entries:
                v = o.entries[k2]
                out.extend(self.I.resolve(s, v, lambda t, x: t.mut(ref.id).entries.__setitem__(k2, x), node))
                continue
            vals = set()
            d = None
            h = self.I.single_hole(k2)
            if h is not None:
                d = s.dom.get(h)
            for kk, x in list(o.entries.items()) + list(o.weak):
                if isinstance(kk, Const) and d is not None and d[0] == "in" and kk.v not in d[1]:
                    continue
                for y in alts_of(x):
                    if d is not None and d[0] == "in" and isinstance(kk, Const):
                        t = s.copy()
                        t.dom[h] = ("in", frozenset([kk.v]))
                        out.append((t, y))
                    else:
                        vals.add(y)
            for y in sorted(vals, key=hash):
                out.append((s.copy(), y))
        return out

    def setitem(self, st, obj, idx, v, node, quiet=False):
        I = self.I
        if I.hooks.get("stored") and isinstance(obj, Ref):
            st = st.copy()
            I.stored(st, obj, v)
        if isinstance(obj, Union):
            out = []
            for x in obj.alts:
                out.extend(self.setitem(st.copy(), x, idx, v, node, quiet))
            return out
        if isinstance(obj, Ref):
            o = st.heap[obj.id]
            if o.kind == "dict":
                st = st.copy()
                if not quiet:
                    I.mutated(st, obj, ("key", idx), node)
                n = st.mut(obj.id)
                idx = I.simplify(st, idx)
                if isinstance(idx, Ref) and st.heap[idx.id].kind in ("list", "dict", "set"):
                    return [self.exc(st, node, "TypeError", "unhashable key")]
                if isinstance(idx, (Const, ClassV, FuncV)) and not n.meta.get("summary"):
                    n.entries[idx] = v
                    n.absent = n.absent - {idx}
                else:
                    if (idx, v) not in n.weak:
                        n.weak = tuple(sorted(set(n.weak) | {(idx, v)}, key=hash))
                        if len(n.weak) > 12:
                            ks = sorted({k for k, _ in n.weak}, key=hash)
                            vs = [x for _, w in n.weak for x in alts_of(w)]
                            k0 = ks[0]
                            for k1 in ks[1:]:
                                k0 = I.join_value(k0, k1, ("dk", obj.id), st, st)
                            v0 = vs[0]
                            for v1 in vs[1:]:
                                v0 = I.join_value(v0, v1, ("dv", obj.id), st, st)
                            n.weak = ((k0, v0),)
                    n.absent = frozenset()
                return [(st, NONE)]
            if o.kind == "list" or o.meta.get("listlike"):
                st = st.copy()
                if not quiet:
                    I.mutated(st, obj, "item", node)
                n = st.mut(obj.id)
                if isinstance(idx, SliceV):
                    its = self.iterate(st, v, node)
                    out = []
                    for s, items in its:
                        if isinstance(items, Raise):
                            out.append((s, items))
                            continue
                        s = s.copy()
                        m = s.mut(obj.id)
                        if idx.lo == NONE and idx.hi == NONE:
                            m.items = tuple(items)
                        else:
                            for x in flat_items(items):
                                m.items = self.weak_items(m.items, x, obj.id)
                        out.append((s, NONE))
                    return out
                if isinstance(idx, Const) and isinstance(idx.v, int):
                    i = idx.v
                    k = I.len_known(n.items)
                    if k is not None:
                        if -k <= i < k:
                            its = list(n.items)
                            its[i] = v
                            n.items = tuple(its)
                            return [(st, NONE)]
                        return [self.exc(st, node, "IndexError", "assignment index out of range")]
                    pre = n.items[:i + 1] if i >= 0 else n.items[i:]
                    if len(pre) == (i + 1 if i >= 0 else -i) and not any(isinstance(x, LStar) for x in pre):
                        its = list(n.items)
                        its[i] = v
                        n.items = tuple(its)
                        return [(st, NONE)]
                n.items = self.weak_items(n.items, v, obj.id)
                return [(st, NONE)]
            if o.kind == "inst":
                f = I.class_lookup(st, o.cls, "__setitem__")
                if isinstance(f, FuncV):
                    return I.call(st, BoundV(f, obj), (idx, v), {}, node)
            if o.kind == "ext":
                I.mutated(st, obj, "item", node)
                return [(st, NONE)]
        if isinstance(obj, ExtV):
            I.event("static-write", ("external", obj.name, "item"), st, node)
            return [(st, NONE)]
        if isinstance(obj, Unk):
            I.event("caller-write", (obj.src, "item"), st, node)
            return [(st, NONE)]
        return [self.exc(st, node, "TypeError", f"{tname(obj, st)} object does not support item assignment")]

    def delitem(self, st, obj, idx, node):
        I = self.I
        if isinstance(obj, Ref):
            o = st.heap[obj.id]
            st = st.copy()
            if o.kind == "dict":
                out = []
                for s, b in self.dict_has(st, obj, idx, node):
                    if not b:
                        out.append(self.exc(s, node, "KeyError", f"del of missing key {idx!r}"))
                        continue
                    s = s.copy()
                    I.mutated(s, obj, "del", node)
                    n = s.mut(obj.id)
                    if idx in n.entries:
                        del n.entries[idx]
                    out.append((s, NONE))
                return out
            if o.kind == "list":
                I.mutated(st, obj, "del", node)
                n = st.mut(obj.id)
                if isinstance(idx, Const) and isinstance(idx.v, int):
                    k = I.len_known(n.items)
                    if k is not None and not -k <= idx.v < k:
                        return [self.exc(st, node, "IndexError", "del index out of range")]
                    i = idx.v
                    if n.items and not isinstance(n.items[i if i < 0 else min(i, len(n.items) - 1)], LStar) and (
                            k is not None or i == -1 or i == 0):
                        its = list(n.items)
                        del its[i]
                        n.items = tuple(its)
                    elif k is None and not n.meta.get("nonempty") and not any(not isinstance(x, LStar) for x in n.items):
                        e = self.exc(st.copy(), node, "IndexError", "del on a possibly empty list")
                        n.meta.pop("nonempty", None)
                        return [e, (st, NONE)]
                n.meta.pop("nonempty", None)
                I.event("list-del", (obj, idx), st, node)
                return [(st, NONE)]
        return [(st, NONE)]

    # ------------------------------------------------------------- subscripts
    def getitem(self, st, o, i, node):
        I = self.I
        if isinstance(o, Union) or isinstance(i, Union):
            out = []
            for x in alts_of(o):
                for y in alts_of(i):
                    out.extend(self.getitem(st.copy(), x, y, node))
            return out
        if isinstance(o, Ref):
            h = st.heap[o.id]
            if h.kind == "dict":
                out = []
                for s, v in self.dict_get(st, o, i, node):
                    if v is None:
                        out.append(self.exc(s, node, "KeyError", f"key {i!r} may be missing", (i,)))
                    else:
                        out.append((s, v))
                return out
            if h.kind in ("list", "gen") or h.meta.get("listlike"):
                if isinstance(i, SliceV):
                    return self.slice_items(st, h.items, i, node, True)
                return self.index_items(st, o, h, h.items, i, node)
            if h.kind == "match":
                return self.match_group(st, o, i, node)
            if h.kind == "inst":
                f = I.class_lookup(st, h.cls, "__getitem__")
                if isinstance(f, FuncV):
                    return I.call(st, BoundV(f, o), (i,), {}, node)
            if h.kind == "ext":
                return [(st, Unk(("item", o, i)))]
            return [self.exc(st, node, "TypeError", f"{tname(o, st)} object is not subscriptable")]
        if isinstance(o, TupV):
            if isinstance(i, SliceV):
                return self.slice_items(st, o.items, i, node, False)
            return self.index_items(st, None, None, o.items, i, node)
        if is_str(o):
            return self.str_index(st, o, i, node)
        if isinstance(o, ExtV):
            if o.name in EXT_TABLES:
                return self.ext_table(st, o, i, node)
            return [(st, Unk(("item", o, i)))]
        if isinstance(o, (Unk, ClassV)):
            r = self.unk_hook("getitem", st, o, (i,), node)
            return r if r is not None else [(st, Unk(("item", o, i)))]
        return [self.exc(st, node, "TypeError", f"{tname(o, st)} object is not subscriptable")]

    def ext_table(self, st, o, k, node):
        import html.entities as he
        t = getattr(he, o.name.rsplit(".", 1)[1])
        if isinstance(k, Const):
            if k.v in t:
                return [(st, Const(t[k.v]))]
            return [self.exc(st, node, "KeyError", f"{k.v!r} not in {o.name}")]
        out = []
        for s, b in self.I.fork_atom(st, ("in", k, o)):
            if not b:
                out.append(self.exc(s, node, "KeyError", f"{o.name}[{k!r}]", (k,)))
            else:
                out.append((s, self.table_value(o, k)))
        return out

    def table_value(self, o, k):
        """any value of the table"""
        import html.entities as he
        vals = list(getattr(he, o.name.rsplit(".", 1)[1]).values())
        if isinstance(vals[0], int):
            return Num(("table", o, k), min(vals), max(vals))
        return hole(("table", o, k))

    def table_key(self, o):
        import html.entities as he
        keys = list(getattr(he, o.name.rsplit(".", 1)[1]))
        if isinstance(keys[0], int):
            return Num(("tkey", o), min(keys), max(keys))
        return hole(("tkey", o))

    def table_method(self, st, o, name, args, kwargs, node):
        """methods of a table of html.entities"""
        if name == "get" and args:
            default = args[1] if len(args) > 1 else kwargs.get("default", NONE)
            out = []
            for s, v in self.ext_table(st, o, self.I.simplify(st, args[0]), node):
                out.append((s, default if isinstance(v, Raise) else v))
            return out
        if name in ("keys", "values", "items", "copy"):
            if name == "copy":
                return self.b_dict(st, (o,), {}, node)
            k = self.table_key(o)
            v = self.table_value(o, k)
            x = {"keys": k, "values": v, "items": TupV((k, v))}[name]
            return [(st, TupV((LStar(("table", o, name), frozenset([(x,)]), True),)))]
        return None

    def index_items(self, st, ref, h, items, i, node):
        I = self.I
        i = I.simplify(st, i)
        if isinstance(i, (Unk,)):
            fl = flat_items(items)
            if not fl:
                return [self.exc(st, node, "IndexError", "index into an empty list")]
            return [(st.copy(), x) for x in fl]
        if not is_int(i):
            return [self.exc(st, node, "TypeError", f"list indices must be integers, not {tname(i, st)}")]
        if isinstance(i, Const):
            n = i.v
            k = I.len_known(items)
            if k is not None:
                if -k <= n < k:
                    v = items[n]
                    if isinstance(v, Union):
                        if ref is not None and not h.meta.get("summary"):
                            def store(s, x):
                                m = s.mut(ref.id)
                                its = list(m.items)
                                its[n] = x
                                m.items = tuple(its)
                            return I.resolve(st, v, store, node)
                        return [(st.copy(), x) for x in v.alts]
                    return [(st, v)]
                return [self.exc(st, node, "IndexError", f"index {n} into {k} items")]
            seq = items if n >= 0 else items[::-1]
            m = n if n >= 0 else -n - 1
            # leading fixed items
            lead = 0
            while lead < len(seq) and not isinstance(seq[lead], LStar):
                lead += 1
            if m < lead:
                v = seq[m]
                return [(st.copy(), x) for x in alts_of(v)]
            vals = flat_items(seq[lead:] if m >= lead else seq)
            fixed = sum(1 for x in seq if not isinstance(x, LStar))
            sure = m < fixed or (m == 0 and h is not None and h.meta.get("nonempty"))
            ix = getattr(node, "slice", None)
            if ix is not None and not literal_index(ix):
                # an index kept in a variable: the relation to the length of the
                # list is out of reach here, assumed to be maintained
                sure = sure or bool(vals)
            out = []
            for x in vals:
                s = st.copy()
                if ref is not None and m == 0:
                    s.mut(ref.id).meta["nonempty"] = True
                out.append((s, x))
            if not sure:
                s = st.copy()
                if ref is not None and m == 0 and fixed == 0:
                    s.mut(ref.id).items = ()
                out.append(self.exc(s, node, "IndexError", f"index {n} may be out of range"))
            return out
        vals = flat_items(items)
        out = [(st.copy(), x) for x in vals]
        if not vals or not trusted_index(i.src):
            out.append(self.exc(st.copy(), node, "IndexError", "index may be out of range"))
        return out

    def slice_items(self, st, items, sl, node, aslist):
        I = self.I
        k = I.len_known(items)
        res = None
        cs = [x.v if isinstance(x, Const) else "?" for x in (sl.lo, sl.hi, sl.step)]
        if "?" not in cs:
            if k is not None:
                res = items[slice(*cs)]
            elif cs[2] in (None, 1):
                lo, hi = cs[0] or 0, cs[1]
                lead = 0
                while lead < len(items) and not isinstance(items[lead], LStar):
                    lead += 1
                tail = 0
                while tail < len(items) and not isinstance(items[-1 - tail], LStar):
                    tail += 1
                if hi is None and 0 <= lo <= lead:
                    res = items[lo:]
                elif lo == 0 and hi is not None and 0 <= hi <= lead:
                    res = items[:hi]
                elif lo == 0 and hi is not None and hi < 0 and -hi <= tail:
                    res = items[:hi]
                elif hi is None and lo < 0 and -lo <= tail:
                    res = items[lo:]
                elif lo == 0 and hi is None:
                    res = items
        if res is None:
            els = flat_items(items)
            res = (LStar(("slice", items, sl), frozenset((e,) for e in els), False),) if els else ()
        if aslist:
            st = st.copy()
            return [(st, self.new_list(st, node, res, "slice"))]
        return [(st, TupV(tuple(res)))]

    def str_index(self, st, o, i, node):
        I = self.I
        o = I.simplify(st, o)
        if isinstance(i, SliceV):
            cs = [x.v if isinstance(x, Const) else "?" for x in (i.lo, i.hi, i.step)]
            if isinstance(o, Const) and "?" not in cs:
                return [(st, Const(o.v[slice(*cs)]))]
            if isinstance(o, Str) and "?" not in cs and cs[2] in (None, 1):
                ps = list(o.parts)
                lo, hi = cs[0] or 0, cs[1]
                ok = True
                if lo > 0:
                    while lo > 0 and ps and isinstance(ps[0], str):
                        n = min(lo, len(ps[0]))
                        ps[0] = ps[0][n:]
                        lo -= n
                        if not ps[0]:
                            ps.pop(0)
                    ok = lo == 0
                elif lo < 0:
                    ok = False
                if ok and hi is not None:
                    if hi < 0:
                        hi = -hi
                        while hi > 0 and ps and isinstance(ps[-1], str):
                            n = min(hi, len(ps[-1]))
                            ps[-1] = ps[-1][:len(ps[-1]) - n]
                            hi -= n
                            if not ps[-1]:
                                ps.pop()
                        ok = hi == 0
                    elif ps and isinstance(ps[0], str) and len(ps[0]) >= hi:
                        ps = [ps[0][:hi]]
                    else:
                        ok = False
                if ok:
                    return [(st, mk_str(ps))]
            h = I.single_hole(o)
            if h is not None and cs[0] in (1,) and cs[1] is None:
                return [(st, self.opaque(o, "slice", i))]
            return [(st, self.opaque(o, "slice", i))]
        i = I.simplify(st, i)
        if isinstance(o, Const):
            if isinstance(i, Const) and isinstance(i.v, int):
                try:
                    return [(st, Const(o.v[i.v]))]
                except IndexError:
                    return [self.exc(st, node, "IndexError", "string index out of range")]
            if isinstance(i, Num):
                return [(st, hole(("char", o)))]
        if isinstance(i, Const) and isinstance(i.v, int) and isinstance(o, Str):
            ps = o.parts
            e = ps[0] if i.v >= 0 else ps[-1]
            if isinstance(e, str) and (i.v < len(e) if i.v >= 0 else -i.v <= len(e)):
                return [(st, Const(e[i.v]))]
            res = self.opaque(o, "index", i.v)
            out = []
            known = i.v in (0, -1) and any(isinstance(p, str) or (isinstance(p, Hole) and I.hole_nonempty(st, p)) for p in ps)
            if known:
                return [(st, res)]
            h = I.single_hole(o)
            if h is not None and i.v in (0, -1):
                for s, b in I.truth(st, o, node):
                    out.append((s, res) if b else self.exc(s, node, "IndexError", "string index out of range (empty text)"))
                return out
            return [(st, res), self.exc(st.copy(), node, "IndexError", "string index out of range")]
        if isinstance(i, Num):
            out = [(st, self.opaque(o, "index", i))]
            if not trusted_index(i.src):
                out.append(self.exc(st.copy(), node, "IndexError", "string index out of range"))
            return out
        if isinstance(i, Unk):
            return [(st, self.opaque(o, "index", i))]
        return [self.exc(st, node, "TypeError", f"string indices must be integers, not {tname(i, st)}")]

    def m_dict_update(self, st, ref, args, kwargs, node):
        I = self.I
        cur = [(st, NONE)]
        for a in args:
            def f(s, _, a=a):
                if isinstance(a, Ref) and s.heap[a.id].kind == "dict":
                    s = s.copy()
                    o = s.heap[a.id]
                    I.mutated(s, ref, "update", node)
                    n = s.mut(ref.id)
                    for k, x in o.entries.items():
                        n.entries[k] = x
                        n.absent = n.absent - {k}
                    n.weak = tuple(sorted(set(n.weak) | set(o.weak), key=hash))
                    if o.weak:
                        n.absent = frozenset()
                    return [(s, NONE)]
                if isinstance(a, (Unk, ExtV)):
                    s = s.copy()
                    I.mutated(s, ref, "update", node)
                    n = s.mut(ref.id)
                    n.weak = n.weak + ((self.table_key(a), self.table_value(a, None)) if is_table(a) else (Unk(("dkey", a)), Unk(("dval", a))),)
                    n.absent = frozenset()
                    return [(s, NONE)]
                return I.bind(self.iterate(s, a, node), lambda s2, items: self.fill_pairs(s2, ref, items, node))
            cur = I.bind(cur, f)
        for k, v in kwargs.items():
            if k == "**":
                cur = I.bind(cur, lambda s, _, v=v: self.m_dict_update(s, ref, (v,), {}, node))
            else:
                cur = I.bind(cur, lambda s, _, k=k, v=v: self.setitem(s, ref, Const(k), v, node, quiet=False))
        return cur

    def fill_pairs(self, st, ref, items, node):
        """dict(list of pairs)"""
        I = self.I
        st = st.copy()
        n = st.mut(ref.id)
        weak = set(n.weak)
        for it in items:
            star = isinstance(it, LStar)
            for p in (flat_items((it,)) if star else alts_of(it)):
                if isinstance(p, TupV) and len(p.items) == 2:
                    k, v = p.items
                elif isinstance(p, Ref) and st.heap[p.id].kind == "list" and I.len_known(st.heap[p.id].items) == 2:
                    k, v = st.heap[p.id].items
                elif isinstance(p, Unk):
                    k, v = Unk(("item", p, 0)), Unk(("item", p, 1))
                else:
                    return [self.exc(st, node, "ValueError", "dictionary update sequence element is not a pair")]
                if not star and isinstance(k, Const):
                    n.entries[k] = v
                else:
                    for vv in alts_of(v):
                        weak.add((k, vv))
        n.weak = tuple(sorted(weak, key=hash))
        return [(st, NONE)]
