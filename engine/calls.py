"""Calls of builtins and of methods of builtin values."""

import builtins

from . import regex
from .interp import HObj, SliceV, alts_of, flat_items, short_exc
from .ops import BUILTIN_FUNCS, EXT_TABLES, FILE_FUNCS, is_path, tname
from .strings import Strings
from .values import (
    EMPTY, FALSE, NONE, TRUE, BoundV, ClassV, Const, ExcV, ExtV, FuncV, Hole, LStar, Meth, ModV, Num,
    Partial, Raise, Ref, RxV, Str, TupV, Union, Unk, Wrap, hole, is_int, is_str, walk,
)


def from_param(v):
    """does an unknown value come from the caller of the entry point?"""
    o = v
    while isinstance(o, Unk) and o.src and o.src[0] == "attr":
        o = o.src[1]
    if isinstance(o, Unk) and o.src and o.src[0] in ("file", "path", "encoded", "bytes", "dt"):
        return False
    return any(isinstance(x, tuple) and x and x[0] == "param" for x in _walk(v))


def _walk(v):
    stack = [v]
    while stack:
        y = stack.pop()
        yield y
        if isinstance(y, (tuple, frozenset)):
            stack.extend(y)
        elif hasattr(y, "_k"):
            stack.extend(y._k)


class Calls(Strings):
    # ------------------------------------------------------------- dispatch
    def call_ext(self, st, fv, args, kwargs, node):
        I = self.I
        for i, a in enumerate(args):
            if isinstance(a, Union):
                out = []
                for x in a.alts:
                    out.extend(self.call_ext(st.copy(), fv, tuple(args[:i]) + (x,) + tuple(args[i + 1:]), kwargs, node))
                return out
        if any(isinstance(a, tuple) for a in args) and not (isinstance(fv, ExtV) and fv.name in (
                "builtins.print", "itertools.zip_longest", "builtins.zip", "itertools.chain", "builtins.max", "builtins.min")):
            args = tuple(Unk(("stararg", i)) if isinstance(a, tuple) else a for i, a in enumerate(args))
        if isinstance(fv, Meth):
            return self.call_meth(st, fv.obj, fv.name, tuple(args), kwargs, node)
        name = fv.name
        if name.rpartition(".")[0] in EXT_TABLES:
            r = self.table_method(st, ExtV(name.rpartition(".")[0]), name.rpartition(".")[2], args, kwargs, node)
            if r is not None:
                return r
        I.event("extcall", (name, tuple(args), tuple(sorted(kwargs.items(), key=lambda x: x[0]))), st, node)
        h = I.hooks.get(("ext", name))
        if h is not None:
            r = h(I, st, args, kwargs, node)
            if r is not None:
                return r
        if name.startswith("builtins."):
            b = name[9:]
            t = getattr(builtins, b, None)
            if isinstance(t, type) and issubclass(t, BaseException):
                return [(st, ExcV(b, tuple(args), I.site(node), "new"))]
            m = getattr(self, "b_" + b.replace(".", "_"), None)
            if m is not None:
                return m(st, tuple(args), kwargs, node)
            if "." in b:
                # unbound method: str.lower(x), dict.get(d, k)
                cls, meth = b.split(".", 1)
                if cls in ("str", "list", "dict", "set") and args:
                    return I.bind(I.getattr(st, args[0], meth, node),
                                  lambda s, f: I.call(s, f, tuple(args[1:]), kwargs, node))
                if b == "object.__init__":
                    return [(st, NONE)]
            return self.unk(st, node, name)
        return self.lib_call(st, name, tuple(args), kwargs, node)

    def call_unk(self, st, fv, args, kwargs, node):
        I = self.I
        I.event("unkcall", (fv, tuple(args), tuple(sorted(kwargs.items(), key=lambda x: x[0]))), st, node)
        h = I.hooks.get("unkcall-model")
        if h is not None:
            r = h(I, st, fv, args, kwargs, node)
            if r is not None:
                return r
        if from_param(fv):
            res = Unk(("usercall", fv, I.site(node)))
            bad = st.copy()
            return [(st, res), (bad, Raise(ExcV("Exception?", (), I.site(node), "user callable")))]
        if fv.src and fv.src[0] == "attr" and isinstance(fv.src[1], Unk):
            return self.unk_method(st, fv.src[1], fv.src[2], tuple(args), kwargs, node)
        return self.unk(st, node, repr(fv)[:80])

    def loop(self, st, items, body, node, tag):
        """body(state, element) -> [(state, signal)] for every item, in order"""
        var = f"<it{tag}{getattr(node, 'lineno', 0)}:{getattr(node, 'col_offset', 0)}>"
        fr = st.fr

        def assign(s, v):
            s = s.copy()
            s.setvar(fr, var, v)
            return [(s, None)]

        def run(s):
            v = s.envs[fr][var]
            s = s.copy()
            s.delvar(fr, var)
            return body(s, v)
        return self.I.loop_items(st, items, assign, run, lambda s: [(s, None)], node)

    def mapped(self, st, items, fn, node, tag):
        """list of fn(element) results; fn -> [(state, value|Raise)]; value None: dropped"""
        I = self.I
        st = st.copy()
        var = f"<map{tag}{getattr(node, 'lineno', 0)}:{getattr(node, 'col_offset', 0)}>"
        acc = I.alloc(st, node, tag, HObj("list"))
        st.setvar(st.fr, var, acc)
        fr = st.fr

        def body(s, v):
            out = []
            for s2, r in fn(s, v):
                if isinstance(r, Raise):
                    out.append((s2, ("exc", r.exc)))
                    continue
                if r is not None:
                    s2 = s2.copy()
                    s2.mut(s2.envs[fr][var].id).items += (r,)
                out.append((s2, None))
            return out
        res = []
        for s, sig in self.loop(st, items, body, node, tag):
            if sig is not None and sig[0] == "exc":
                res.append((s, Raise(sig[1])))
            else:
                s = s.copy()
                a = s.envs[fr][var]
                s.delvar(fr, var)
                res.append((s, a))
        return res

    # ------------------------------------------------------------- methods
    def call_meth(self, st, o, name, args, kwargs, node):
        I = self.I
        if is_str(o):
            return self.str_method(st, o, name, args, kwargs, node)
        if isinstance(o, RxV) or isinstance(o, Unk) and o.src and o.src[0] == "rx":
            return self.rx_method(st, o, name, args, kwargs, node)
        if isinstance(o, Ref):
            h = st.heap[o.id]
            if h.kind == "match":
                return self.match_method(st, o, name, args, kwargs, node)
            if h.kind == "dict":
                return self.dict_method(st, o, name, args, kwargs, node)
            if h.kind in ("list", "gen", "inst"):
                return self.list_method(st, o, name, args, kwargs, node)
            if h.kind == "set":
                return self.set_method(st, o, name, args, kwargs, node)
        if isinstance(o, TupV):
            if name in ("geturl", "_replace"):
                return [(st, hole(("url", o)) if name == "geturl" else Unk(("call", name, o)))]
            if name == "index":
                return [(st, Num(("find", o, args), 0, None))]
            if name == "count":
                return [(st, Num(("count", o, args), 0, None))]
        if isinstance(o, Const) and all(isinstance(a, Const) for a in args) and not kwargs:
            try:
                s, v = self.from_py(st, getattr(o.v, name)(*[a.v for a in args]), node)
                return [(s, v)]
            except Exception as e:
                return [self.exc(st, node, type(e).__name__, str(e))]
        if isinstance(o, Unk):
            return self.unk_method(st, o, name, args, kwargs, node)
        return self.unk(st, node, f"{tname(o, st)}.{name}")

    def list_method(self, st, ref, name, args, kwargs, node):
        I = self.I
        o = st.heap[ref.id]
        arity = {"append": (1, 1), "extend": (1, 1), "insert": (2, 2), "pop": (0, 1), "remove": (1, 1), "clear": (0, 0),
                 "reverse": (0, 0), "copy": (0, 0), "index": (1, 3), "count": (1, 1), "sort": (0, 0)}.get(name)
        if arity and not arity[0] <= len(args) <= arity[1]:
            return [self.exc(st, node, "TypeError", f"list.{name}() takes {arity[0]} arguments ({len(args)} given)")]
        if name == "append":
            return self.list_append(st, ref, args[0], node)
        if name == "extend":
            return self.list_extend(st, ref, args[0], node)
        if name == "insert":
            st = st.copy()
            I.mutated(st, ref, "insert", node)
            n = st.mut(ref.id)
            i = args[0]
            if isinstance(i, Const) and i.v == 0 and not n.meta.get("summary"):
                n.items = (args[1],) + n.items
            elif isinstance(i, Const) and I.len_known(n.items) is not None and not n.meta.get("summary"):
                l = list(n.items)
                l.insert(i.v, args[1])
                n.items = tuple(l)
            else:
                n.items = self.weak_items(n.items, args[1], ref.id)
            return [(st, NONE)]
        if name == "pop":
            I.event("list-pop", (ref, args), st, node)
            if not o.items:
                return [self.exc(st, node, "IndexError", "pop from empty list")]
            i = args[0] if args else Const(-1)
            out = []
            for s, v in self.index_items(st, ref, o, o.items, i, node):
                if not isinstance(v, Raise):
                    s = s.copy()
                    I.mutated(s, ref, "pop", node)
                    n = s.mut(ref.id)
                    n.meta.pop("nonempty", None)
                    if isinstance(i, Const) and not n.meta.get("summary"):
                        if i.v == -1 and n.items and not isinstance(n.items[-1], LStar):
                            n.items = n.items[:-1]
                        elif i.v == 0 and n.items and not isinstance(n.items[0], LStar):
                            n.items = n.items[1:]
                        elif I.len_known(n.items) is not None:
                            l = list(n.items)
                            try:
                                l.pop(i.v)
                            except IndexError:
                                pass
                            n.items = tuple(l)
                out.append((s, v))
            return out
        if name == "remove":
            st = st.copy()
            I.mutated(st, ref, "remove", node)
            els = flat_items(o.items)
            n = st.mut(ref.id)
            if I.len_known(o.items) is not None and args[0] in o.items:
                l = list(o.items)
                l.remove(args[0])
                n.items = tuple(l)
                return [(st, NONE)]
            if not els:
                return [self.exc(st, node, "ValueError", "list.remove(x): x not in list")]
            bad = st.copy()
            n.items = (LStar(("join", ref.id), frozenset((e,) for e in els), False),)
            n.meta.pop("nonempty", None)
            out = [(st, NONE)]
            if args[0] not in els or True:
                if not any(st.facts.get(("in", args[0], x)) for x in (ref, self.key_of(bad, ref))):
                    out.append(self.exc(bad, node, "ValueError", "list.remove(x): x not in list"))
            return out
        if name == "clear":
            st = st.copy()
            I.mutated(st, ref, "clear", node)
            n = st.mut(ref.id)
            n.items = ()
            n.meta.pop("nonempty", None)
            return [(st, NONE)]
        if name == "reverse":
            st = st.copy()
            I.mutated(st, ref, "reverse", node)
            st.mut(ref.id).items = self.rev_items(o.items)
            return [(st, NONE)]
        if name == "copy":
            st = st.copy()
            return [(st, self.new_list(st, node, o.items, "listcopy"))]
        if name == "sort":
            st = st.copy()
            I.mutated(st, ref, "sort", node)
            if I.len_known(o.items) != 1:
                els = flat_items(o.items)
                if len(els) != len(o.items) or len(els) > 1:
                    st.mut(ref.id).items = (LStar(("sorted", ref), frozenset((e,) for e in els), False),) if els else ()
            return [(st, NONE)]
        if name == "index":
            return [(st, Num(("find", ref, args), 0, None))]
        if name == "count":
            return [(st, Num(("count", ref, args), 0, None))]
        if name == "__len__":
            return self.b_len(st, (ref,), {}, node)
        if name == "__init__":
            return [(st, NONE)]
        if name == "__iter__":
            return [(st, ref)]
        if name == "__next__":
            return self.b_next(st, (ref,), {}, node)
        return self.unk(st, node, f"list.{name}")

    def rev_items(self, items):
        out = []
        for it in reversed(items):
            if isinstance(it, LStar):
                out.append(LStar(("rev", it.origin) if not (isinstance(it.origin, tuple) and it.origin[0] == "rev") else it.origin[1],
                                 frozenset(self.rev_items(a) for a in it.alts), it.each))
            else:
                out.append(it)
        return tuple(out)

    def set_method(self, st, ref, name, args, kwargs, node):
        I = self.I
        o = st.heap[ref.id]
        if name == "add":
            return self.list_append(st, ref, args[0], node)
        if name in ("update",):
            cur = [(st, NONE)]
            for a in args:
                cur = I.bind(cur, lambda s, _, a=a: self.list_extend(s, ref, a, node))
            return cur
        if name in ("discard", "remove"):
            st = st.copy()
            I.mutated(st, ref, name, node)
            els = [e for e in flat_items(o.items) if e != args[0]]
            st.mut(ref.id).items = (LStar(("join", ref.id), frozenset((e,) for e in els), False),) if els else ()
            return [(st, NONE)]
        if name == "clear":
            st = st.copy()
            I.mutated(st, ref, name, node)
            st.mut(ref.id).items = ()
            return [(st, NONE)]
        if name in ("copy", "union", "intersection", "difference"):
            st = st.copy()
            new = self.new_list(st, node, o.items, "setop", "set")
            if name == "union":
                cur = [(st, NONE)]
                for a in args:
                    cur = I.bind(cur, lambda s, _, a=a: self.list_extend(s, new, a, node))
                return [(s, v if isinstance(v, Raise) else new) for s, v in cur]
            return [(st, new)]
        if name in ("issubset", "issuperset", "isdisjoint"):
            return [(s, Const(b)) for s, b in I.fork_atom(st, (name, ref, args))]
        if name == "pop":
            return [(st, Unk(("elem", ref)))]
        return self.unk(st, node, f"set.{name}")

    def dict_method(self, st, ref, name, args, kwargs, node):
        I = self.I
        o = st.heap[ref.id]
        if name == "get":
            if not args:
                return [self.exc(st, node, "TypeError", "get expected at least 1 argument")]
            d = args[1] if len(args) > 1 else NONE
            return [(s, d if v is None else v) for s, v in self.dict_get(st, ref, args[0], node)]
        if name == "items":
            st = st.copy()
            return [(st, self.new_list(st, node, self.dict_items(o, ref), "items"))]
        if name == "keys":
            st = st.copy()
            return [(st, self.new_list(st, node, self.dict_keys(o, ref), "keys"))]
        if name == "values":
            st = st.copy()
            return [(st, self.new_list(st, node, self.dict_values(o, ref), "values"))]
        if name == "setdefault":
            d = args[1] if len(args) > 1 else NONE
            out = []
            for s, v in self.dict_get(st, ref, args[0], node):
                if v is None:
                    out.extend(I.bind(self.setitem(s, ref, args[0], d, node), lambda s2, _: [(s2, d)]))
                else:
                    out.append((s, v))
            return out
        if name == "update":
            return self.m_dict_update(st, ref, args, kwargs, node)
        if name == "pop":
            out = []
            for s, v in self.dict_get(st, ref, args[0], node):
                if v is None:
                    if len(args) > 1:
                        out.append((s, args[1]))
                    else:
                        out.append(self.exc(s, node, "KeyError", f"pop({args[0]!r})", (args[0],)))
                    continue
                if isinstance(v, Raise):
                    out.append((s, v))
                    continue
                for s2, r in self.delitem(s, ref, args[0], node):
                    out.append((s2, r if isinstance(r, Raise) else v))
            return out
        if name == "copy":
            st = st.copy()
            n = HObj("dict", entries=dict(o.entries), weak=o.weak, absent=o.absent)
            return [(st, I.alloc(st, node, "dictcopy", n))]
        if name == "clear":
            st = st.copy()
            I.mutated(st, ref, "clear", node)
            n = st.mut(ref.id)
            n.entries, n.weak, n.absent = {}, (), frozenset()
            n.meta.pop("nonempty", None)
            return [(st, NONE)]
        if name == "__len__":
            return self.b_len(st, (ref,), {}, node)
        if name == "__contains__":
            return [(s, b if isinstance(b, Raise) else Const(b)) for s, b in self.dict_has(st, ref, args[0], node)]
        if name == "__getitem__":
            return self.getitem(st, ref, args[0], node)
        if name == "__setitem__":
            return self.setitem(st, ref, args[0], args[1], node)
        return self.unk(st, node, f"dict.{name}")

    # ------------------------------------------------------------- builtins
    def b_len(self, st, args, kwargs, node):
        I = self.I
        if len(args) != 1:
            return [self.exc(st, node, "TypeError", "len() takes exactly one argument")]
        v = I.simplify(st, args[0])
        if isinstance(v, Const):
            try:
                return [(st, Const(len(v.v)))]
            except TypeError as e:
                return [self.exc(st, node, "TypeError", str(e))]
        if isinstance(v, Str):
            lo = sum(len(p) if isinstance(p, str) else 1 if isinstance(p, Hole) and I.hole_nonempty(st, p) else 0 for p in v.parts)
            h = I.single_hole(v)
            hi = None
            if h is not None and not h.ops and h.src[0] == "re":
                inf = regex.info(h.src[1].pattern, h.src[1].flags)
                lo = max(lo, inf.min_width(h.src[2]))
                hi = inf.max_width(h.src[2])
                hi = None if hi > 10 ** 6 else hi
            return [(st, Num(("len", v), lo, hi))]
        if isinstance(v, TupV):
            k = I.len_known(v.items)
            return [(st, Const(k) if k is not None else Num(("len", v), len([x for x in v.items if not isinstance(x, LStar)]), None))]
        if isinstance(v, Ref):
            o = st.heap[v.id]
            if o.kind in ("list", "set"):
                k = I.len_known(o.items)
                if k is not None and not o.meta.get("summary") and (o.kind == "list" or k < 2):
                    return [(st, Const(k))]
                lo = len([x for x in o.items if not isinstance(x, LStar)])
                return [(st, Num(("len", v), max(lo, 1 if o.meta.get("nonempty") else 0), None))]
            if o.kind == "dict":
                if not o.weak and not o.meta.get("summary"):
                    return [(st, Const(len(o.entries)))]
                return [(st, Num(("len", v), max(len(o.entries), 1 if o.meta.get("nonempty") else 0), None))]
            if o.kind == "inst":
                f = I.class_lookup(st, o.cls, "__len__")
                if isinstance(f, FuncV):
                    return I.call(st, BoundV(f, v), (), {}, node)
                if o.meta.get("listlike"):
                    return [(st, Num(("len", v), 0, None))]
            return [self.exc(st, node, "TypeError", f"object of type {tname(v, st)} has no len()")]
        if isinstance(v, Unk):
            return [(st, Num(("len", v), 0, None))]
        return [self.exc(st, node, "TypeError", f"object of type {tname(v, st)} has no len()")]

    def numeric(self, st, v, base):
        """can int(v, base) fail?  returns (may_fail, why, lo)"""
        I = self.I
        h = I.single_hole(v)
        if h is None:
            return True, "not a number"
        ops = [o for o in h.ops if o[0] not in ("strip",)]
        s = h.src
        if s[0] == "num":
            return False, ""
        if s[0] == "spec" and len(s) > 1 and not ops:
            if s[1] == "dec" and base == 10 or s[1] == "hex" and base == 16 or s[1] == "dec" and base == 16:
                if base == 10:
                    return True, "more than 4300 digits"
                return False, ""
            return True, "not a number"
        if s[0] == "re" and not ops:
            inf = regex.info(s[1].pattern, s[1].flags)
            if inf.is_number(s[2], base):
                if base == 10 and inf.max_width(s[2]) > 4300:
                    return True, "more than 4300 digits"
                return False, ""
        d = st.dom.get(h)
        if d and d[0] == "in":
            try:
                for c in d[1]:
                    int(c, base)
                return False, ""
            except ValueError:
                return True, "not a number"
        if any(a[0] == "isdigit" and a[1] == v and b for a, b in st.facts.items() if len(a) > 1):
            return True, "more than 4300 digits (or a digit without decimal value)"
        return True, "not a number"

    def b_int(self, st, args, kwargs, node):
        I = self.I
        if not args:
            return [(st, Const(0))]
        v = I.simplify(st, args[0])
        base = args[1] if len(args) > 1 else kwargs.get("base")
        b = base.v if isinstance(base, Const) and isinstance(base.v, int) else 10
        if isinstance(v, Const):
            try:
                return [(st, Const(int(v.v, b) if isinstance(v.v, str) else int(v.v)))]
            except (ValueError, TypeError, OverflowError) as e:
                return [self.exc(st, node, type(e).__name__, f"int({v.v!r}): {e}", (Const(str(e)),))]
        if isinstance(v, Num):
            return [(st, v)]
        if isinstance(v, Str):
            h = I.single_hole(v)
            if h is not None and h.src[0] == "num" and not h.ops:
                return [(st, h.src[1])]
            bad, why = self.numeric(st, v, b)
            out = []
            nonneg = h is not None and (h.src[0] == "spec" or h.src[0] == "re")
            if bad:
                s = st.copy()
                out.append((s, Raise(ExcV("ValueError", (hole(("exc-text", "int", v)),), I.site(node), f"int(): {why}"))))
            lo, hi = 0 if nonneg else None, None
            if h is not None and h.src[0] == "re" and not h.ops and b == 10:
                inf = regex.info(h.src[1].pattern, h.src[1].flags)
                r = inf.int_range(h.src[2])
                if r is not None:
                    lo, hi = r
            out.append((st, Num(("int", v, b), lo, hi)))
            return out
        if isinstance(v, Unk):
            s = st.copy()
            out = [(st, Num(("int", v, b), None, None))]
            if from_param(v):
                out.append(self.exc(s, node, "ValueError", "int() of caller value", (hole(("exc-text", "int", v)),)))
            return out
        return [self.exc(st, node, "TypeError", f"int() argument must be a string or number, not {tname(v, st)}")]

    def b_float(self, st, args, kwargs, node):
        v = self.I.simplify(st, args[0]) if args else Const(0)
        if isinstance(v, Const):
            try:
                return [(st, Const(float(v.v)))]
            except (ValueError, TypeError) as e:
                return [self.exc(st, node, type(e).__name__, str(e))]
        s = st.copy()
        if isinstance(v, Str):
            return [(st, Unk(("float", v))), self.exc(s, node, "ValueError", "float()", (hole(("exc-text", "float", v)),))]
        if isinstance(v, (Num, Unk)):
            return [(st, Unk(("float", v)))]
        return [self.exc(st, node, "TypeError", "float()")]

    def b_str(self, st, args, kwargs, node):
        if not args:
            return [(st, EMPTY)]
        return self.str_(st, args[0], node)

    def b_repr(self, st, args, kwargs, node):
        return self.repr_(st, args[0], node)

    b_ascii = b_repr

    def b_format(self, st, args, kwargs, node):
        return self.format_(st, args[0], args[1] if len(args) > 1 else EMPTY, node)

    def b_chr(self, st, args, kwargs, node):
        I = self.I
        v = I.simplify(st, args[0])
        if isinstance(v, Const):
            try:
                return [(st, Const(chr(v.v)))]
            except (ValueError, TypeError, OverflowError) as e:
                return [self.exc(st, node, type(e).__name__, str(e))]
        if isinstance(v, Num):
            lo, hi = I.num_range(st, v)
            out = [(st, hole(("chr", v)))]
            if hi is None or hi > 0x10FFFF or lo is None or lo < 0:
                out.append(self.exc(st.copy(), node, "ValueError", "chr() arg not in range(0x110000)"))
            if hi is None or hi > 2 ** 31:
                out.append(self.exc(st.copy(), node, "OverflowError", "chr(): Python int too large to convert to C int"))
            return out
        if isinstance(v, Unk):
            return [(st, hole(("chr", v)))]
        return [self.exc(st, node, "TypeError", "chr()")]

    def b_ord(self, st, args, kwargs, node):
        v = self.I.simplify(st, args[0])
        if isinstance(v, Const) and isinstance(v.v, str) and len(v.v) == 1:
            return [(st, Const(ord(v.v)))]
        return [(st, Num(("ord", v), 0, 0x10FFFF))]

    def b_range(self, st, args, kwargs, node):
        I = self.I
        args = tuple(I.simplify(st, a) for a in args)
        for a in args:
            if not is_int(a) and not isinstance(a, Unk):
                return [self.exc(st, node, "TypeError", f"range(): {tname(a, st)} cannot be interpreted as an integer")]
        if all(isinstance(a, Const) for a in args):
            r = range(*[a.v for a in args])
            if len(r) <= 40:
                return [(st, TupV(tuple(Const(i) for i in r)))]
        lo = args[0] if len(args) > 1 else Const(0)
        hi = args[1] if len(args) > 1 else args[0]
        l0, l1 = I.num_range(st, lo) if is_int(lo) else (None, None)
        h0, h1 = I.num_range(st, hi) if is_int(hi) else (None, None)
        if len(args) == 3:
            l0 = l1 = h0 = h1 = None
            if all(isinstance(a, Const) or True for a in args):
                l0 = None
        e = Num(("range", args), l0, None if h1 is None else h1 - 1)
        if h1 is not None and l0 is not None and h1 <= l0:
            return [(st, TupV(()))]
        return [(st, TupV((LStar(("range", args), frozenset([(e,)]), True),)))]

    def b_enumerate(self, st, args, kwargs, node):
        I = self.I
        start = args[1] if len(args) > 1 else kwargs.get("start", Const(0))

        def f(s, items):
            out = []
            n = start.v if isinstance(start, Const) else None
            for it in items:
                if isinstance(it, LStar):
                    n = None
                    out.extend(self.map_items((it,), lambda x: TupV((Num(("enum", it.origin), 0, None), x))))
                else:
                    i = Const(n) if n is not None else Num(("enum",), 0, None)
                    for x in (it.alts if isinstance(it, Union) else (it,)):
                        pass
                    out.append(TupV((i, it)))
                    if n is not None:
                        n += 1
            s = s.copy()
            return [(s, self.new_list(s, node, out, "enum"))]
        return I.bind(self.iterate(st, args[0], node), f)

    def iter_all(self, st, args, node):
        """[(state, list of item tuples | Raise)]"""
        cur = [(st, [])]
        out = []
        for a in args:
            nxt = []
            for s, acc in cur:
                if isinstance(a, tuple):
                    nxt.append((s, acc + [("*", a[1])]))
                    continue
                for s2, items in self.iterate(s, a, node):
                    if isinstance(items, Raise):
                        out.append((s2, items))
                    else:
                        nxt.append((s2, acc + [items]))
            cur = nxt
        return out + cur

    def b_zip(self, st, args, kwargs, node, longest=False):
        I = self.I
        fill = kwargs.get("fillvalue", NONE)
        kind = "zip_longest" if longest else "zip"
        I.event("zip", (kind, tuple(args)), st, node)

        def f(s, seqs):
            s = s.copy()
            if not seqs:
                return [(s, self.new_list(s, node, (), "zip"))]
            if any(isinstance(q, tuple) and len(q) == 2 and q[0] == "*" for q in seqs):
                # zip(*rows): columns; each element is one cell per row
                rows = [x for q in seqs for x in (flat_items(q[1]) if q and q[0] == "*" else [])]
                cells = []
                for r in rows:
                    for s2, its in self.iterate(s, r, node):
                        if not isinstance(its, Raise):
                            cells.extend(x for x in flat_items(its) if x not in cells)
                if longest and fill not in cells:
                    cells.append(fill)
                if not cells:
                    return [(s, self.new_list(s, node, (), "zip"))]
                one = cells[0] if len(cells) == 1 else Union(frozenset(cells))
                col = TupV((one, LStar(("column", kind), frozenset((c,) for c in cells), False)))
                return [(s, self.new_list(s, node, (LStar((kind, "columns"), frozenset([(col,)]), False),) if cells else (), "zip"))]
            lens = [I.len_known(q) for q in seqs]
            if all(n is not None for n in lens) and lens:
                n = max(lens) if longest else min(lens)
                out = [TupV(tuple(q[i] if i < len(q) else fill for q in seqs)) for i in range(n)]
                return [(s, self.new_list(s, node, out, "zip"))]
            els = [flat_items(q) for q in seqs]
            if longest:
                els = [e + [fill] if fill not in e else e for e in els]
            if any(not e for e in els):
                return [(s, self.new_list(s, node, (), "zip"))]
            ts = TupV(tuple(e[0] if len(e) == 1 else Union(frozenset(e)) for e in els))
            return [(s, self.new_list(s, node, (LStar((kind, tuple(seqs)), frozenset([(ts,)]), not longest and len(seqs) == 1),), "zip"))]
        return I.bind(self.iter_all(st, args, node), f)

    def b_map(self, st, args, kwargs, node):
        I = self.I
        if len(args) == 2:
            return I.bind(self.iterate(st, args[1], node), lambda s, items: self.mapped(
                s, items, lambda s2, v: I.call(s2, args[0], (v,), {}, node), node, "map"))
        return I.bind(self.b_zip(st, args[1:], {}, node), lambda s, z: self.mapped(
            s, s.heap[z.id].items, lambda s2, v: I.call(s2, args[0], v.items, {}, node), node, "map"))

    def b_filter(self, st, args, kwargs, node):
        I = self.I

        def keep(s, v):
            rs = [(s, v)] if args[0] == NONE else I.call(s, args[0], (v,), {}, node)
            out = []
            for s2, r in rs:
                if isinstance(r, Raise):
                    out.append((s2, r))
                    continue
                for s3, b in I.truth(s2, r, node):
                    out.append((s3, b if isinstance(b, Raise) else v if b else None))
            return out
        return I.bind(self.iterate(st, args[1], node), lambda s, items: self.mapped(s, items, keep, node, "filter"))

    def b_reversed(self, st, args, kwargs, node):
        def f(s, items):
            s = s.copy()
            return [(s, self.new_list(s, node, self.rev_items(items), "reversed"))]
        return self.I.bind(self.iterate(st, args[0], node), f)

    def b_sorted(self, st, args, kwargs, node):
        def f(s, items):
            s = s.copy()
            els = flat_items(items)
            if all(isinstance(x, Const) for x in items) and not kwargs:
                try:
                    its = tuple(Const(x) for x in sorted(x.v for x in items))
                    return [(s, self.new_list(s, node, its, "sorted"))]
                except TypeError as e:
                    return [self.exc(s, node, "TypeError", str(e))]
            if len(items) == 1 and isinstance(items[0], LStar):
                its = (LStar(("sorted", items[0].origin), items[0].alts, items[0].each),)
            else:
                its = (LStar(("sorted", tuple(items)), frozenset((e,) for e in els), True),) if els else ()
            return [(s, self.new_list(s, node, its, "sorted"))]
        return self.I.bind(self.iterate(st, args[0], node), f)

    def conv(self, st, args, node, kind):
        I = self.I
        st = st.copy()
        if not args:
            return [(st, TupV(()) if kind == "tuple" else self.new_list(st, node, (), kind, kind))]

        def f(s, items):
            if kind == "tuple":
                return [(s, TupV(tuple(items)))]
            s = s.copy()
            if kind == "set":
                items = tuple(dict.fromkeys(items))
            return [(s, self.new_list(s, node, items, kind + "()", kind))]
        return I.bind(self.iterate(st, args[0], node), f)

    def b_list(self, st, args, kwargs, node):
        return self.conv(st, args, node, "list")

    def b_tuple(self, st, args, kwargs, node):
        return self.conv(st, args, node, "tuple")

    def b_set(self, st, args, kwargs, node):
        return self.conv(st, args, node, "set")

    b_frozenset = b_set

    def b_dict(self, st, args, kwargs, node):
        st = st.copy()
        ref = self.I.alloc(st, node, "dict()", HObj("dict"))
        return [(s, v if isinstance(v, Raise) else ref) for s, v in self.m_dict_update(st, ref, args, kwargs, node)]

    def b_bool(self, st, args, kwargs, node):
        if not args:
            return [(st, FALSE)]
        return [(s, b if isinstance(b, Raise) else Const(b)) for s, b in self.I.truth(st, args[0], node)]

    def anyall(self, st, args, node, which):
        I = self.I

        def f(s, items):
            if I.len_known(items) is not None and len(items) <= 6:
                cur, out = [s], []
                for x in items:
                    nxt = []
                    for s2 in cur:
                        for s3, b in I.truth(s2, x, node):
                            if isinstance(b, Raise) or b == which:
                                out.append((s3, b if isinstance(b, Raise) else Const(which)))
                            else:
                                nxt.append(s3)
                    cur = nxt
                return out + [(s2, Const(not which)) for s2 in cur]
            els = flat_items(items)
            if els and all(e == Const(not which) for e in els) or not els:
                return [(s, Const(not which))]
            return [(s2, Const(b)) for s2, b in I.fork_atom(s, ("anyall", which, tuple(items)))]
        return I.bind(self.iterate(st, args[0], node), f)

    def b_any(self, st, args, kwargs, node):
        return self.anyall(st, args, node, True)

    def b_all(self, st, args, kwargs, node):
        return self.anyall(st, args, node, False)

    def extremum(self, st, args, kwargs, node, which):
        I = self.I

        def pick(s, items):
            els = flat_items(items)
            sure = any(not isinstance(x, LStar) for x in items)
            out = []
            if not sure:
                src = args[0] if len(args) == 1 and not isinstance(args[0], tuple) else None
                ne = isinstance(src, Ref) and s.heap[src.id].meta.get("nonempty") or any(
                    isinstance(x, LStar) and self.star_nonempty(s, x) for x in items)
                if "default" in kwargs:
                    if not ne:
                        out.append((s.copy(), kwargs["default"]))
                elif not ne:
                    out.append(self.exc(s.copy(), node, "ValueError", f"{which}() of an empty sequence"))
            if not els:
                return out
            ints = [e for e in els if is_int(e)]
            if len(ints) == len(els):
                rs = [I.num_range(s, e) for e in els]
                fn = max if which == "max" else min
                if all(isinstance(e, Const) for e in els) and sure and I.len_known(items) is not None:
                    out.append((s, Const(fn(e.v for e in els))))
                    return out
                los = [r[0] for r in rs]
                his = [r[1] for r in rs]
                if which == "max":
                    lo = max([x for x in los if x is not None], default=None) if sure and I.len_known(items) is not None else \
                        (None if None in los else min(los))
                    hi = None if None in his else max(his)
                else:
                    hi = min([x for x in his if x is not None], default=None) if sure and I.len_known(items) is not None else \
                        (None if None in his else max(his))
                    lo = None if None in los else min(los)
                out.append((s, Num((which, tuple(items)), lo, hi)))
                return out
            if all(is_str(e) for e in els):
                out.append((s, hole((which, tuple(items)))))
                return out
            bad = [e for e in els if isinstance(e, Const) and e.v is None]
            if bad and len(els) > 1 and "key" not in kwargs:
                out.append(self.exc(s.copy(), node, "TypeError", f"{which}(): None is not comparable"))
            out.append((s, els[0] if len(els) == 1 else Unk((which, tuple(items)))))
            return out
        if len(args) == 1 and not isinstance(args[0], tuple):
            return I.bind(self.iterate(st, args[0], node), pick)
        items = ()
        for a in args:
            items += tuple(a[1]) if isinstance(a, tuple) else (a,)
        return pick(st, items)

    def star_nonempty(self, st, x):
        o = x.origin
        if isinstance(o, tuple) and o and o[0] in ("lines", "split", "pieces"):
            return True
        return False

    def b_max(self, st, args, kwargs, node):
        return self.extremum(st, args, kwargs, node, "max")

    def b_min(self, st, args, kwargs, node):
        return self.extremum(st, args, kwargs, node, "min")

    def b_sum(self, st, args, kwargs, node):
        def f(s, items):
            if all(isinstance(x, Const) and isinstance(x.v, int) for x in items):
                return [(s, Const(sum(x.v for x in items)))]
            return [(s, Num(("sum", tuple(items)), None, None))]
        return self.I.bind(self.iterate(st, args[0], node), f)

    def b_abs(self, st, args, kwargs, node):
        v = args[0]
        if isinstance(v, Const):
            return [(st, Const(abs(v.v)))]
        return [(st, Num(("abs", v), 0, None))]

    def b_divmod(self, st, args, kwargs, node):
        import ast
        I = self.I
        return I.bind(I.binop(st, ast.FloorDiv(), args[0], args[1], node), lambda s, q: I.bind(
            I.binop(s, ast.Mod(), args[0], args[1], node), lambda s2, r: [(s2, TupV((q, r)))]))

    def b_round(self, st, args, kwargs, node):
        return [(st, Num(("round", args), None, None))]

    def b_getattr(self, st, args, kwargs, node):
        I = self.I
        o, n = args[0], I.simplify(st, args[1])
        default = args[2] if len(args) > 2 else None
        if isinstance(n, Const):
            return I.getattr(st, o, n.v, node, default)
        if isinstance(n, (Str, Unk)) and isinstance(o, (Ref, ClassV, ModV)):
            if isinstance(n, Unk):
                n = hole(("str", n))
            if isinstance(o, Ref):
                h = st.heap[o.id]
                names = set(h.fields)
                cls = h.cls if isinstance(h.cls, ClassV) else None
            elif isinstance(o, ClassV):
                names, cls = set(), o
            else:
                names, cls = set(st.envs[("mod", o.name)]), None
            if cls is not None:
                names |= set(I.class_attrs(st, cls))
            extnames = set()
            if cls is not None:
                for b in I.ext_bases(cls):
                    if b.name == "html.parser.HTMLParser":
                        from html.parser import HTMLParser
                        extnames |= set(dir(HTMLParser))
            out = []
            s0 = st
            for c in sorted(x for x in names | extnames if isinstance(x, str)):
                s1 = None
                nxt = None
                for s2, b in I.eq_const(s0, n, c):
                    if b:
                        out.extend(I.getattr(s2, o, c, node, default))
                    else:
                        nxt = s2
                if nxt is None:
                    return out
                s0 = nxt
            I.event("dyn-missing", (o, n), s0, node)
            if default is not None:
                out.append((s0, default))
            elif isinstance(o, Ref) and cls is not None and I.class_lookup(s0, cls, "__getattr__") is not None:
                out.extend(I.call(s0, BoundV(I.class_lookup(s0, cls, "__getattr__"), o), (n,), {}, node))
            else:
                out.append(self.exc(s0, node, "AttributeError", f"dynamic attribute {n!r}"))
            return out
        if isinstance(o, Unk):
            r = self.unk_hook("getattr", st, o, (n.v if isinstance(n, Const) else n,), node)
            if r is not None:
                return [(s, default if default is not None and isinstance(v, Raise) and v.exc.cls == "AttributeError" else v) for s, v in r]
            r = [(st, Unk(("attr", o, n)))]
            if default is not None:
                r.append((st.copy(), default))
            elif from_param(o):
                r.append(self.exc(st.copy(), node, "AttributeError", "attribute of a caller object"))
            return r
        if default is not None:
            return [(st, Unk(("getattr", o, n))), (st.copy(), default)]
        return [(st, Unk(("getattr", o, n)))]

    def b_hasattr(self, st, args, kwargs, node):
        I = self.I
        o, n = args[0], I.simplify(st, args[1])
        if isinstance(o, Unk):
            r = self.unk_hook("getattr", st, o, (n.v if isinstance(n, Const) else n,), node)
            if r is not None:
                return [(s, Const(not isinstance(v, Raise))) for s, v in r]
            return [(s, Const(b)) for s, b in I.fork_atom(st, ("hasattr", o, n))]
        miss = ExtV("<nohasattr>")
        out = []
        for s, v in self.b_getattr(st, (o, n, miss), {}, node):
            if isinstance(v, Raise) and v.exc.cls == "AttributeError":
                out.append((s, FALSE))
            else:
                out.append((s, v if isinstance(v, Raise) else Const(v != miss)))
        return out

    def b_setattr(self, st, args, kwargs, node):
        I = self.I
        n = I.simplify(st, args[1])
        if isinstance(n, Const):
            outs = I.setattr(st, args[0], n.v, args[2], node)
            return [(s, Raise(sig[1]) if sig and sig[0] == "exc" else NONE) for s, sig in outs]
        if isinstance(args[0], Ref):
            st = st.copy()
            I.mutated(st, args[0], "setattr", node)
        return [(st, NONE)]

    def b_isinstance(self, st, args, kwargs, node):
        I = self.I
        if len(args) != 2:
            return [self.exc(st, node, "TypeError", "isinstance expected 2 arguments")]
        r = self.unk_hook("isinstance", st, args[0], (args[1],), node)
        if r is not None:
            return [(st, Const(r))]
        r = self.isinst(st, args[0], args[1])
        if r is not None:
            return [(st, Const(r))]
        return [(s, Const(b)) for s, b in I.fork_atom(st, ("isinstance", args[0], args[1]))]

    def b_issubclass(self, st, args, kwargs, node):
        a, b = args
        if isinstance(a, ClassV) and isinstance(b, ClassV):
            return [(st, Const(b in self.I.classes[a.key]["mro"]))]
        return [(s, Const(x)) for s, x in self.I.fork_atom(st, ("issubclass", a, b))]

    def b_callable(self, st, args, kwargs, node):
        v = args[0]
        if isinstance(v, (FuncV, BoundV, ClassV, Partial, Meth, Wrap)):
            return [(st, TRUE)]
        if isinstance(v, ExtV):
            return [(st, TRUE)]
        if isinstance(v, Unk):
            return [(s, Const(b)) for s, b in self.I.fork_atom(st, ("callable", v))]
        if isinstance(v, Ref) and st.heap[v.id].kind == "inst":
            return [(st, Const(self.I.class_lookup(st, st.heap[v.id].cls, "__call__") is not None))]
        return [(st, FALSE)]

    def b_type(self, st, args, kwargs, node):
        v = args[0]
        if isinstance(v, Ref) and st.heap[v.id].kind == "inst":
            return [(st, st.heap[v.id].cls)]
        if isinstance(v, Ref):
            return [(st, ExtV(f"builtins.{st.heap[v.id].kind}"))]
        if isinstance(v, ExcV):
            return [(st, v.cls if isinstance(v.cls, ClassV) else ExtV(f"builtins.{v.cls}"))]
        if isinstance(v, Unk):
            return [(st, Unk(("type", v)))]
        return [(st, ExtV(f"builtins.{tname(v, st)}") if not (isinstance(v, Const) and v.v is None) else ExtV("builtins.NoneType"))]

    def b_id(self, st, args, kwargs, node):
        return [(st, Num(("id", args), 0, None))]

    b_hash = b_id

    def b_iter(self, st, args, kwargs, node):
        return self.I.bind(self.iterate(st, args[0], node), lambda s, items: self._iter(s, items, node))

    def _iter(self, s, items, node):
        s = s.copy()
        return [(s, self.new_list(s, node, items, "iter"))]

    def b_next(self, st, args, kwargs, node):
        I = self.I
        v = args[0]

        def f(s, items):
            out = []
            if not items or isinstance(items[0], LStar):
                if len(args) > 1:
                    out.append((s.copy(), args[1]))
                else:
                    out.append(self.exc(s.copy(), node, "StopIteration", ""))
            if items:
                if isinstance(items[0], LStar):
                    for e in flat_items(items):
                        out.append((s.copy(), e))
                else:
                    s = s.copy()
                    if isinstance(v, Ref) and s.heap[v.id].kind == "list":
                        s.mut(v.id).items = items[1:]
                    out.extend((s.copy(), x) for x in alts_of(items[0]))
            return out
        return I.bind(self.iterate(st, v, node), f)

    def b_print(self, st, args, kwargs, node):
        I = self.I
        I.event("print", (tuple(args), kwargs.get("file", NONE)), st, node)
        st = st.copy()
        st.trace = st.trace + (("print", kwargs.get("file", NONE), tuple(args)),)
        return [(st, NONE)]

    def b_open(self, st, args, kwargs, node):
        return self.open_file(st, "builtins.open", args, kwargs, node)

    def b_vars(self, st, args, kwargs, node):
        return self.I.getattr(st, args[0], "__dict__", node)

    def b_dir(self, st, args, kwargs, node):
        return [(st, Unk(("dir", args)))]

    def b_super(self, st, args, kwargs, node):
        from .interp import SuperV
        if len(args) == 2:
            return [(st, SuperV(args[0], args[1]))]
        return self.unk(st, node, "super")

    def b_object(self, st, args, kwargs, node):
        return [(st, Unk(("object", self.I.site(node))))]

    def b_slice(self, st, args, kwargs, node):
        a = tuple(args)
        if len(a) == 1:
            a = (NONE, a[0], NONE)
        return [(st, SliceV(*(a + (NONE,) * (3 - len(a)))))]

    def b_exec(self, st, args, kwargs, node):
        self.I.event("exec", tuple(args), st, node)
        return [(st, NONE)]

    def b_eval(self, st, args, kwargs, node):
        self.I.event("exec", tuple(args), st, node)
        return [(st, Unk(("eval", args)))]

    def b_globals(self, st, args, kwargs, node):
        return [(st, Unk(("globals",)))]
