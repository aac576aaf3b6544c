"""Abstract semantics of builtins, str/list/dict methods and of the few library
functions the analysed package relies on.  Everything else yields an unknown
value (recorded in interp.unmodelled) and is assumed not to raise."""

import ast
import builtins
import re
import string

from . import regex
from .values import (
    EMPTY, FALSE, NONE, TRUE, BoundV, ClassV, Const, Empty, ExcV, ExtV, FuncV, Hole, LStar, Meth,
    ModV, Num, Partial, Raise, Ref, RxV, Star, Str, TupV, Union, Unk, Wrap, hole, is_int, is_str,
    mk_parts, mk_str, parts_of, top_holes, walk,
)

TAG_RE = re.compile(r"[a-z][^\t\n\r\f />\x00]*\Z")

RE_FLAGS = {n: int(getattr(re, n)) for n in
            ("A", "ASCII", "DEBUG", "I", "IGNORECASE", "L", "LOCALE", "M", "MULTILINE", "S", "DOTALL",
             "U", "UNICODE", "X", "VERBOSE", "NOFLAG") if hasattr(re, n)}

BUILTIN_FUNCS = {n for n, v in vars(builtins).items() if callable(v)}

EXT_TABLES = {"html.entities.name2codepoint", "html.entities.html5", "html.entities.codepoint2name",
              "html.entities.entitydefs"}

STR_PURE = {"strip", "lstrip", "rstrip", "lower", "upper", "title", "capitalize", "swapcase", "replace",
            "startswith", "endswith", "find", "rfind", "index", "count", "isdigit", "isalpha", "isalnum",
            "isspace", "isnumeric", "isdecimal", "isupper", "islower", "isidentifier", "ljust", "rjust",
            "center", "zfill", "expandtabs", "casefold", "removeprefix", "removesuffix", "partition",
            "rpartition", "split", "rsplit", "splitlines", "encode", "isascii", "translate", "rindex",
            "isprintable", "istitle"}

LIST_METHS = {"append", "extend", "insert", "pop", "remove", "clear", "index", "count", "sort", "reverse",
              "copy", "__len__", "__getitem__", "__iter__", "__contains__"}
DICT_METHS = {"get", "items", "keys", "values", "setdefault", "update", "pop", "copy", "clear", "popitem",
              "__getitem__", "__contains__", "__iter__", "__len__", "fromkeys"}
SET_METHS = {"add", "discard", "remove", "update", "union", "copy", "clear", "pop", "issubset", "issuperset",
             "intersection", "difference", "isdisjoint"}
MATCH_METHS = {"group", "groups", "groupdict", "start", "end", "span", "expand", "__getitem__"}
MATCH_ATTRS = {"string", "lastgroup", "lastindex", "re", "pos", "endpos", "regs"}
RX_METHS = {"sub", "subn", "match", "search", "fullmatch", "finditer", "findall", "split"}

FILE_FUNCS = {"open", "builtins.open", "io.open", "codecs.open"}


def spec_hole(kind):
    return Hole(("spec", kind), ())


class Ops:
    def __init__(self, interp):
        self.I = interp

    # ------------------------------------------------------------- small helpers
    def tag_possible(self, c):
        """can c be the (lower-cased) name of an HTML tag?"""
        return isinstance(c, str) and bool(TAG_RE.match(c)) and c == c.lower()

    def exc(self, st, node, cls, why="", args=()):
        return self.I.exc(st, node, cls, why, args)

    def unk(self, st, node, what):
        self.I.unmodelled.setdefault(what, self.I.site(node))
        return [(st, Unk(("call", what, self.I.site(node))))]

    def new_list(self, st, node, items, tag="list", kind="list", meta=None):
        ref = self.I.alloc(st, node, tag, HObj(kind, items=tuple(items), meta=dict(meta or {})))
        return ref

    def key_of(self, st, v):
        """immutable description of a value for facts (includes list contents)"""
        if isinstance(v, Ref):
            o = st.heap[v.id]
            if o.kind in ("list", "set", "gen"):
                return ("items", o.items)
            if o.kind == "dict":
                return ("dict", v, tuple(o.entries), o.weak)
        return v

    # ------------------------------------------------------------- string algebra
    def map_parts(self, parts, lit, op):
        """apply a character-wise operation: lit(str)->str on literals, op on holes"""
        out = []
        for p in parts:
            if isinstance(p, str):
                out.append(lit(p))
            elif isinstance(p, Hole):
                out.append(Hole(p.src, p.ops + (op,)))
            elif isinstance(p, Star):
                out.append(Star(p.origin, frozenset(self.map_parts(a, lit, op) for a in p.alts), p.each))
            else:
                out.append(p)
        return mk_parts(out)

    def map_str(self, v, lit, op):
        return mk_str(self.map_parts(parts_of(v), lit, op))

    def opaque(self, v, *op):
        """operation not expressible part-wise"""
        if isinstance(v, Str) and len(v.parts) == 1 and isinstance(v.parts[0], Hole):
            h = v.parts[0]
            return Str((Hole(h.src, h.ops + (op,)),))
        return Str((Hole(("tpl", v), (op,)),))

    def strip(self, st, v, side, chars):
        if isinstance(v, Const):
            return Const(getattr(v.v, side)(chars))
        parts = list(v.parts)

        def go(parts, left):
            seq = parts if left else parts[::-1]
            out = []
            seq = list(seq)
            while seq:
                p = seq[0]
                if isinstance(p, str):
                    q = p.lstrip(chars) if left else p.rstrip(chars)
                    if q:
                        seq[0] = q
                        break
                    seq.pop(0)
                elif isinstance(p, Empty):
                    out.append(seq.pop(0))
                elif isinstance(p, Hole):
                    op = ("strip" if side == "strip" and False else ("lstrip" if left else "rstrip"), chars)
                    if not (p.ops and p.ops[-1] == op) and not (p.ops[-2:] and op in p.ops[-2:]
                                                                and p.ops[-1][0] in ("lstrip", "rstrip")):
                        seq[0] = Hole(p.src, p.ops + (op,))
                    break
                else:
                    # a repetition at the edge: strip every alternative's edge
                    if isinstance(p, Star):
                        alts = frozenset(tuple(go(list(a), left)) for a in p.alts)
                        seq[0] = Star(p.origin, p.alts | alts if not p.each else p.alts | alts, p.each)
                    break
            seq = out + seq
            return seq if left else seq[::-1]
        if side in ("strip", "lstrip"):
            parts = go(parts, True)
        if side in ("strip", "rstrip"):
            parts = go(parts, False)
        return mk_str(parts)

    def str_(self, st, v, node):
        if is_str(v):
            return [(st, v)]
        if isinstance(v, Const):
            return [(st, Const(str(v.v)))]
        if isinstance(v, Num):
            return [(st, Str((Hole(("num", v), ()),)))]
        if isinstance(v, ExcV):
            if v.args and is_str(v.args[0]) and len(v.args) == 1:
                return [(st, v.args[0])]
            return [(st, hole(("exc-text", v)))]
        if isinstance(v, Ref):
            o = st.heap[v.id]
            if o.kind == "inst":
                for m in ("__str__", "__repr__"):
                    f = self.I.class_lookup(st, o.cls, m)
                    if isinstance(f, FuncV):
                        return self.I.call(st, BoundV(f, v), (), {}, node)
            if o.kind in ("list", "dict", "set", "gen"):
                return [(st, hole(("repr", o.kind, tuple(x for x in walk(o.items) if isinstance(x, Hole))[:4])))]
            return [(st, hole(("repr", v)))]
        return [(st, hole(("str", v)))]

    def repr_(self, st, v, node):
        if isinstance(v, Const):
            return [(st, Const(repr(v.v)))]
        if isinstance(v, Str):
            return [(st, self.opaque(v, "repr"))]
        if isinstance(v, Num):
            return self.str_(st, v, node)
        if isinstance(v, Ref) and st.heap[v.id].kind == "inst":
            f = self.I.class_lookup(st, st.heap[v.id].cls, "__repr__")
            if isinstance(f, FuncV):
                return self.I.call(st, BoundV(f, v), (), {}, node)
        return [(st, hole(("repr", v)))]

    def format_(self, st, v, spec, node):
        if spec == EMPTY:
            return self.str_(st, v, node)
        if isinstance(spec, Const):
            s = spec.v
            if isinstance(v, Const) and isinstance(v.v, (str, int, float)):
                try:
                    return [(st, Const(format(v.v, s)))]
                except (ValueError, TypeError) as e:
                    return [self.exc(st, node, type(e).__name__, str(e))]
            t = s[-1:]
            if t in "dxXobn" and t:
                if isinstance(v, Num):
                    return [(st, Str((Hole(("num", v), (("format", s),)),)))]
                if isinstance(v, Str):
                    return [self.exc(st, node, "ValueError", "integer format of a string")]
                if isinstance(v, (Unk,)):
                    return [(st, hole(("str", v), ("format", s)))]
                return [self.exc(st, node, "TypeError", f"format {s!r} of {tname(v)}")]
            if isinstance(v, Const) and v.v is None or isinstance(v, (Ref, TupV)):
                return [self.exc(st, node, "TypeError", f"format {s!r} of {tname(v)}")]
            if is_str(v):
                return [(st, self.pad(v, s))]
        return self.I.bind(self.str_(st, v, node), lambda s2, r: [(s2, r if isinstance(spec, Const) else r)])

    def pad(self, v, what):
        return mk_str(parts_of(v) + (Star(("pad", what), frozenset([(" ",)]), False),))

    # ------------------------------------------------------------- operators
    def binop(self, st, op, a, b, node):
        for x, left in ((a, True), (b, False)):
            if isinstance(x, Union):
                out = []
                for y in x.alts:
                    out.extend(self.binop(st.copy(), op, y if left else a, b if left else y, node))
                return out
        if isinstance(op, ast.Add):
            if is_str(a) and is_str(b):
                return [(st, mk_str(parts_of(a) + parts_of(b)))]
            if is_str(a) and isinstance(b, Unk):
                return [(st, mk_str(parts_of(a) + (Hole(("str", b), ()),)))]
            if isinstance(a, Unk) and is_str(b):
                return [(st, mk_str((Hole(("str", a), ()),) + parts_of(b)))]
            if isinstance(a, TupV) and isinstance(b, TupV):
                return [(st, TupV(a.items + b.items))]
            if isinstance(a, Ref) and isinstance(b, Ref):
                oa, ob = st.heap[a.id], st.heap[b.id]
                if oa.kind == ob.kind == "list":
                    st = st.copy()
                    return [(st, self.new_list(st, node, oa.items + ob.items, "listadd"))]
        if isinstance(op, ast.Mod) and is_str(a):
            return self.percent(st, a, b, node)
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if is_str(x) and is_int(y):
                    if isinstance(y, Const) and isinstance(x, Const) and len(x.v) * max(y.v, 0) < 5000:
                        return [(st, Const(x.v * y.v))]
                    if isinstance(y, Const):
                        if y.v <= 0:
                            return [(st, EMPTY)]
                        if y.v < 20:
                            return [(st, mk_str(parts_of(x) * y.v))]
                    return [(st, mk_str((Star(("times", y), frozenset([parts_of(x)]), False),)))]
                if is_str(x) and isinstance(y, Unk):
                    return [(st, mk_str((Star(("times", y), frozenset([parts_of(x)]), False),)))]
                if isinstance(x, Ref) and st.heap[x.id].kind == "list" and is_int(y):
                    st = st.copy()
                    o = st.heap[x.id]
                    if isinstance(y, Const) and 0 <= y.v < 50:
                        return [(st, self.new_list(st, node, o.items * y.v, "listmul"))]
                    return [(st, self.new_list(st, node, (LStar(("times", y), frozenset([o.items]), False),), "listmul"))]
        if isinstance(a, Const) and isinstance(b, Const) and isinstance(a.v, (int, float, str, bytes)) \
                and isinstance(b.v, (int, float, str, bytes)):
            try:
                r = {ast.Add: lambda x, y: x + y, ast.Sub: lambda x, y: x - y, ast.Mult: lambda x, y: x * y,
                     ast.Div: lambda x, y: x / y, ast.FloorDiv: lambda x, y: x // y, ast.Mod: lambda x, y: x % y,
                     ast.BitOr: lambda x, y: x | y, ast.BitAnd: lambda x, y: x & y,
                     ast.BitXor: lambda x, y: x ^ y}[type(op)](a.v, b.v)
                return [(st, Const(r))]
            except KeyError:
                return self.unk(st, node, "binop")
            except Exception as e:
                return [self.exc(st, node, type(e).__name__, str(e))]
        if is_int(a) and is_int(b):
            la, ha = self.I.num_range(st, a)
            lb, hb = self.I.num_range(st, b)
            if isinstance(op, ast.Add):
                return [(st, Num(("+", a, b), add(la, lb), add(ha, hb)))]
            if isinstance(op, ast.Sub):
                return [(st, Num(("-", a, b), add(la, neg(hb)), add(ha, neg(lb))))]
            if isinstance(op, (ast.Div, ast.FloorDiv, ast.Mod)) and (lb is None or lb <= 0) and (hb is None or hb >= 0):
                return [(st, Num(("op", type(op).__name__, a, b), None, None)),
                        self.exc(st.copy(), node, "ZeroDivisionError")]
            if isinstance(op, ast.Mult) and la is not None and lb is not None and la >= 0 and lb >= 0:
                return [(st, Num(("*", a, b), la * lb, None if ha is None or hb is None else ha * hb))]
            return [(st, Num(("op", type(op).__name__, a, b), None, None))]
        if isinstance(op, ast.BitOr) and isinstance(a, (ExtV, Const, Num)) and isinstance(b, (ExtV, Const, Num)):
            return [(st, Unk(("or", a, b)))]
        if isinstance(a, Ref) and isinstance(b, Ref):
            oa, ob = st.heap[a.id], st.heap[b.id]
            if oa.kind == ob.kind == "dict" and isinstance(op, ast.BitOr):
                st = st.copy()
                n = self.I.alloc(st, node, "dictor", oa.clone())
                st.heap[n.id].meta = {}
                return self.I.bind(self.m_dict_update(st, n, (b,), {}, node), lambda s, v: [(s, n)])
            if oa.kind == ob.kind == "set":
                st = st.copy()
                if isinstance(op, ast.BitOr):
                    return [(st, self.new_list(st, node, tuple(dict.fromkeys(oa.items + ob.items)), "setor", "set"))]
                return [(st, self.new_list(st, node, oa.items, "setop", "set"))]
        if isinstance(op, ast.Div) and isinstance(a, (Unk, Str, Const)) and isinstance(b, (Unk, Str, Const)):
            if is_path(a) or is_path(b):
                return [(st, mk_path((a, b)))]
        if isinstance(a, (Unk, ExtV)) or isinstance(b, (Unk, ExtV)):
            return [(st, Unk(("binop", type(op).__name__, a, b)))]
        return [self.exc(st, node, "TypeError",
                         f"unsupported operand types for {type(op).__name__}: {tname(a, st)} and {tname(b, st)}")]

    def percent(self, st, a, b, node):
        if not isinstance(a, Const):
            if any(isinstance(p, str) and "%" in p for p in a.parts):
                out = [(st, self.opaque(a, "percent", b))]
                if any(not isinstance(p, str) for p in a.parts):
                    out.append(self.exc(st.copy(), node, "ValueError", "the format string contains data"))
                return out
            return [self.exc(st, node, "ValueError", "the format string contains data")]
        pat = re.compile(r"%(?:\((\w*)\))?([#0\- +]*)(\*|\d+)?(?:\.(\d+))?([a-zA-Z%])")
        pos = 0
        cur = [(st, ())]
        args = list(b.items) if isinstance(b, TupV) else None
        mapping = b if isinstance(b, Ref) and st.heap[b.id].kind == "dict" else None
        used = 0
        out = []
        for m in pat.finditer(a.v):
            lit = a.v[pos:m.start()]
            pos = m.end()
            if m.group(5) == "%":
                cur = [(s, p + (lit + "%",)) for s, p in cur]
                continue
            nxt = []
            for s, p in cur:
                if m.group(1) is not None:
                    if mapping is None:
                        if isinstance(b, Unk):
                            vals = [(s, Unk(("item", b, m.group(1))))]
                        else:
                            out.append(self.exc(s, node, "TypeError", "format requires a mapping"))
                            continue
                    else:
                        vals = self.getitem(s, mapping, Const(m.group(1)), node)
                elif args is not None:
                    if used >= len(args):
                        out.append(self.exc(s, node, "TypeError", "not enough arguments for format string"))
                        continue
                    vals = [(s, args[used])]
                else:
                    if used > 0:
                        out.append(self.exc(s, node, "TypeError", "not enough arguments for format string"))
                        continue
                    vals = [(s, b)]
                for s2, v in vals:
                    if isinstance(v, Raise):
                        out.append((s2, v))
                        continue
                    c = m.group(5)
                    width = m.group(2) or m.group(3) or m.group(4)
                    if c in "ra":
                        rs = self.repr_(s2, v, node)
                    elif c == "s":
                        rs = self.str_(s2, v, node)
                    elif is_int(v) or isinstance(v, Unk):
                        rs = self.str_(s2, v, node)
                    elif isinstance(v, Const) and isinstance(v.v, float):
                        rs = self.str_(s2, v, node)
                    else:
                        out.append(self.exc(s2, node, "TypeError", f"%{c} format: a number is required, not {tname(v)}"))
                        continue
                    for s3, r in rs:
                        if isinstance(r, Raise):
                            out.append((s3, r))
                        else:
                            rp = parts_of(r) if is_str(r) else (Hole(("str", r), ()),)
                            if width:
                                rp = parts_of(self.pad(mk_str(rp), width))
                            nxt.append((s3, p + (lit,) + rp))
            if m.group(1) is None:
                used += 1
            cur = nxt
        if args is not None and used < len(args):
            return out + [self.exc(st, node, "TypeError", "not all arguments converted during string formatting")]
        return out + [(s, mk_str(p + (a.v[pos:],))) for s, p in cur]

    def str_format(self, st, a, args, kwargs, node):
        if not isinstance(a, Const):
            if any(not isinstance(p, str) for p in a.parts):
                return [(st, self.opaque(a, "format")), self.exc(st.copy(), node, "ValueError", "the format string contains data")]
        cur = [(st, ())]
        out = []
        auto = 0
        for lit, field, spec, conv in string.Formatter().parse(a.v):
            nxt = []
            for s, p in cur:
                p = p + (lit,)
                if field is None:
                    nxt.append((s, p))
                    continue
                m = re.match(r"(\w*)(.*)\Z", field, re.S)
                name, rest = m.group(1), m.group(2)
                if name == "" or name.isdigit():
                    i = int(name) if name else auto
                    if i >= len(args):
                        out.append(self.exc(s, node, "IndexError", "format: argument index out of range"))
                        continue
                    vals = [(s, args[i])]
                elif name in kwargs:
                    vals = [(s, kwargs[name])]
                elif "**" in kwargs:
                    vals = [(s, Unk(("kw", name)))]
                else:
                    out.append(self.exc(s, node, "KeyError", f"format: {name!r}"))
                    continue
                for am in re.finditer(r"\.(\w+)|\[([^\]]+)\]", rest):
                    if am.group(1):
                        vals = self.I.bind(vals, lambda s2, v: self.I.getattr(s2, v, am.group(1), node))
                    else:
                        k = am.group(2)
                        k = Const(int(k)) if k.isdigit() else Const(k)
                        vals = self.I.bind(vals, lambda s2, v: self.getitem(s2, v, k, node))
                if conv == "r":
                    vals = self.I.bind(vals, lambda s2, v: self.repr_(s2, v, node))
                elif conv == "s":
                    vals = self.I.bind(vals, lambda s2, v: self.str_(s2, v, node))
                vals = self.I.bind(vals, lambda s2, v: self.format_(s2, v, Const(spec or ""), node))
                for s2, v in vals:
                    if isinstance(v, Raise):
                        out.append((s2, v))
                    else:
                        nxt.append((s2, p + (parts_of(v) if is_str(v) else (Hole(("str", v), ()),))))
            if field is not None and re.match(r"\w*", field).group() == "":
                auto += 1
            cur = nxt
        return out + [(s, mk_str(p)) for s, p in cur]

    # ------------------------------------------------------------- comparisons
    def equal(self, st, a, b, node):
        """[(state, bool)]"""
        I = self.I
        if isinstance(a, Union) or isinstance(b, Union):
            out = []
            for x in (a.alts if isinstance(a, Union) else (a,)):
                for y in (b.alts if isinstance(b, Union) else (b,)):
                    out.extend(self.equal(st.copy(), x, y, node))
            return out
        a, b = I.simplify(st, a), I.simplify(st, b)
        if isinstance(a, Const) and isinstance(b, Const):
            try:
                return [(st, a.v == b.v)]
            except Exception:
                return [(st, False)]
        if isinstance(b, Str) and isinstance(a, Const):
            a, b = b, a
        if isinstance(a, Str) and isinstance(b, Const):
            if not isinstance(b.v, str):
                return [(st, False)]
            return I.eq_const(st, a, b.v)
        if isinstance(a, Str) and isinstance(b, Str):
            if a == b and not any(isinstance(p, Star) for p in a.parts):
                return [(st, True)]
            if templates_differ(a.parts, b.parts):
                return [(st, False)]
            k = sorted((a, b), key=hash)
            return I.fork_atom(st, ("eq", k[0], k[1]))
        if is_int(a) and is_int(b):
            return self.num_cmp(st, ast.Eq(), a, b)
        if isinstance(a, Ref) and isinstance(b, Ref):
            oa, ob = st.heap[a.id], st.heap[b.id]
            if oa.kind == "inst" or ob.kind == "inst":
                f = I.class_lookup(st, oa.cls, "__eq__") if oa.kind == "inst" else None
                if isinstance(f, FuncV):
                    out = []
                    for s, v in I.call(st, BoundV(f, a), (b,), {}, node):
                        if isinstance(v, Raise):
                            out.append((s, v))
                        else:
                            out.extend(I.truth(s, v, node))
                    return out
                return self.same_obj(st, a, b)
            if a == b:
                return [(st, True)]
            return I.fork_atom(st, ("eq", a, b, oa.items, ob.items))
        if isinstance(a, TupV) and isinstance(b, TupV):
            if len(a.items) != len(b.items) and not any(isinstance(x, LStar) for x in a.items + b.items):
                return [(st, False)]
            if a == b:
                return [(st, True)]
            return I.fork_atom(st, ("eq", a, b))
        if isinstance(a, Unk) or isinstance(b, Unk):
            if a == b:
                return [(st, True)]
            k = sorted((a, b), key=hash)
            return I.fork_atom(st, ("eq", k[0], k[1]))
        if isinstance(a, Ref) and (isinstance(b, TupV) or is_str(b) or is_int(b)) or \
                isinstance(b, Ref) and (isinstance(a, TupV) or is_str(a) or is_int(a)):
            return [(st, False)]
        return [(st, a == b)]

    def same_obj(self, st, a, b):
        I = self.I
        oa, ob = st.heap[a.id], st.heap[b.id]
        symm = oa.meta.get("sym") or ob.meta.get("sym")
        if a == b:
            if oa.meta.get("summary") or (isinstance(a.id, tuple) and a.id[0] in ("symjoin", "symold")):
                return I.fork_atom(st, ("is", a, b))
            return [(st, True)]
        if not symm:
            if oa.kind != ob.kind or oa.cls != ob.cls:
                return [(st, False)]
            if oa.meta.get("summary") or ob.meta.get("summary"):
                return I.fork_atom(st, ("is", a, b))
            return [(st, False)]
        if not (I.is_sym_cls(oa) and I.is_sym_cls(ob)):
            return [(st, False)]
        ra, rb = self.is_tree_root(st, a), self.is_tree_root(st, b)
        if ra and rb:
            # there is only one parentless node
            return [(st, True)]
        if not (ra or rb):
            x, y = (a, b) if oa.meta.get("sym") else (b, a)
            return I.fork_atom(st, ("is", x, y))
        # a symbolic node compared with the (only) parentless node
        x = b if ra else a
        if not st.heap[x.id].meta.get("sym"):
            return [(st, False)]
        cands = list(I.sym_cands(st, st.heap[x.id]))
        isroot = tuple(i for i in cands if self.root_record(i))
        if not isroot and cands:
            return [(st, False)]
        out = []
        for s, r in I.fork_atom(st, ("is", x, a if x is b else b)):
            rest = isroot if r else tuple(i for i in cands if i not in isroot)
            if cands and not rest:
                continue
            s.mut(x.id).meta["cands"] = rest
            out.append((s, r))
        return out

    def root_record(self, i):
        return self.I.records[i][1].get("parent") == frozenset([("const", None)])

    def is_tree_root(self, st, a):
        """is it certainly the node without a parent?"""
        o = st.heap[a.id]
        if not o.meta.get("sym"):
            return o.fields.get("parent") == NONE
        c = list(self.I.sym_cands(st, o))
        return bool(c) and all(self.root_record(i) for i in c)

    def is_(self, st, a, b, node):
        I = self.I
        if isinstance(a, Union) or isinstance(b, Union):
            out = []
            for x in (a.alts if isinstance(a, Union) else (a,)):
                for y in (b.alts if isinstance(b, Union) else (b,)):
                    out.extend(self.is_(st.copy(), x, y, node))
            return out
        if isinstance(a, Const) and isinstance(b, Const):
            return [(st, type(a.v) is type(b.v) and a.v == b.v)]
        if isinstance(a, Ref) and isinstance(b, Ref):
            return self.same_obj(st, a, b)
        if isinstance(a, Unk) or isinstance(b, Unk):
            if a == b:
                return [(st, True)]
            k = sorted((a, b), key=hash)
            return I.fork_atom(st, ("is", k[0], k[1]))
        if (isinstance(a, Str) and is_str(b)) or (isinstance(b, Str) and is_str(a)):
            return I.fork_atom(st, ("is", a, b)) if a != b else [(st, True)]
        if is_int(a) and is_int(b):
            return self.num_cmp(st, ast.Eq(), a, b)
        return [(st, a == b)]

    def compare(self, st, op, l, r, node):
        I = self.I
        if isinstance(op, ast.Eq):
            return self.equal(st, l, r, node)
        if isinstance(op, ast.NotEq):
            return [(s, b if isinstance(b, Raise) else not b) for s, b in self.equal(st, l, r, node)]
        if isinstance(op, ast.Is):
            return self.is_(st, l, r, node)
        if isinstance(op, ast.IsNot):
            return [(s, not b) for s, b in self.is_(st, l, r, node)]
        if isinstance(op, ast.In):
            return self.contains(st, l, r, node)
        if isinstance(op, ast.NotIn):
            return [(s, b if isinstance(b, Raise) else not b) for s, b in self.contains(st, l, r, node)]
        for x, left in ((l, True), (r, False)):
            if isinstance(x, Union):
                out = []
                for y in x.alts:
                    out.extend(self.compare(st.copy(), op, y if left else l, r if left else y, node))
                return out
        if is_int(l) and is_int(r):
            return self.num_cmp(st, op, l, r)
        if isinstance(l, Const) and isinstance(r, Const):
            try:
                return [(st, {ast.Lt: l.v.__lt__, ast.LtE: l.v.__le__, ast.Gt: l.v.__gt__,
                              ast.GtE: l.v.__ge__}[type(op)](r.v) is True)]
            except Exception:
                return [self.exc(st, node, "TypeError", f"comparison of {tname(l)} and {tname(r)}")]
        if isinstance(l, (Unk, ExtV)) or isinstance(r, (Unk, ExtV)):
            return I.fork_atom(st, ("cmp", type(op).__name__, l, r))
        if is_str(l) and is_str(r) or isinstance(l, TupV) and isinstance(r, TupV):
            return I.fork_atom(st, ("cmp", type(op).__name__, l, r))
        if isinstance(l, Ref) and isinstance(r, Ref):
            if st.heap[l.id].kind == st.heap[r.id].kind and st.heap[l.id].kind in ("list", "set"):
                return I.fork_atom(st, ("cmp", type(op).__name__, l, r))
        if (isinstance(l, Const) and isinstance(l.v, float)) or (isinstance(r, Const) and isinstance(r.v, float)):
            return I.fork_atom(st, ("cmp", type(op).__name__, l, r))
        return [self.exc(st, node, "TypeError", f"{type(op).__name__} between {tname(l, st)} and {tname(r, st)}")]

    def num_cmp(self, st, op, l, r):
        I = self.I
        if isinstance(l, Const) and isinstance(r, Num):
            sw = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
            return self.num_cmp(st, sw[type(op)](), r, l)
        la, ha = I.num_range(st, l)
        lb, hb = I.num_range(st, r)
        if isinstance(l, Const) and isinstance(r, Const):
            a, b = l.v, r.v
            return [(st, {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b, ast.Eq: a == b,
                          ast.NotEq: a != b}[type(op)])]
        # decided by ranges?
        lt = ha is not None and lb is not None and ha < lb
        le = ha is not None and lb is not None and ha <= lb
        gt = la is not None and hb is not None and la > hb
        ge = la is not None and hb is not None and la >= hb
        t = type(op)
        if t is ast.Eq:
            if lt or gt:
                return [(st, False)]
            if l == r:
                return [(st, True)]
        elif (t is ast.Lt and lt) or (t is ast.LtE and le) or (t is ast.Gt and gt) or (t is ast.GtE and ge):
            return [(st, True)]
        elif (t is ast.Lt and ge) or (t is ast.LtE and gt) or (t is ast.Gt and le) or (t is ast.GtE and lt):
            return [(st, False)]
        if isinstance(r, Const) and isinstance(l, Num):
            c = r.v
            y, n = st.copy(), st.copy()
            if t is ast.Eq:
                y.dom[l.src] = (c, c)
                n.dom[l.src] = (c + 1 if la == c else la, c - 1 if ha == c else ha)
            elif t is ast.Lt:
                y.dom[l.src] = (la, c - 1)
                n.dom[l.src] = (c, ha)
            elif t is ast.LtE:
                y.dom[l.src] = (la, c)
                n.dom[l.src] = (c + 1, ha)
            elif t is ast.Gt:
                y.dom[l.src] = (c + 1, ha)
                n.dom[l.src] = (la, c)
            elif t is ast.GtE:
                y.dom[l.src] = (c, ha)
                n.dom[l.src] = (la, c - 1)
            out = []
            for s, b in ((y, True), (n, False)):
                s = self.len_feedback(s, l)
                if s is not None:
                    out.append((s, b))
            return out
        return I.fork_atom(st, ("ncmp", t.__name__, l, r))

    def len_feedback(self, st, n):
        """a decision about len(x) says something about x"""
        if n.src and n.src[0] == "len":
            lo, hi = self.I.num_range(st, n)
            x = n.src[1]
            if isinstance(x, Ref) and x.id in st.heap:
                o = st.heap[x.id]
                if lo is not None and lo > 0:
                    if o.kind in ("list", "set", "dict") and not o.meta.get("nonempty"):
                        st.mut(x.id).meta["nonempty"] = True
                elif hi == 0:
                    st.mut(x.id).items = ()
                    st.mut(x.id).weak = ()
            elif isinstance(x, Str):
                h = self.I.single_hole(x)
                if h is not None:
                    if lo is not None and lo > 0:
                        return self.I.assume_ne(st, h, frozenset([""]))
                    if hi == 0:
                        return self.I.assume_eq(st, h, "")
        return st

    def contains(self, st, x, c, node):
        I = self.I
        if isinstance(x, Union) or isinstance(c, Union):
            out = []
            for a in (x.alts if isinstance(x, Union) else (x,)):
                for b in (c.alts if isinstance(c, Union) else (c,)):
                    out.extend(self.contains(st.copy(), a, b, node))
            return out
        if isinstance(c, Ref):
            o = st.heap[c.id]
            if o.kind == "dict":
                return self.dict_has(st, c, x, node)
            if o.kind in ("list", "set", "gen"):
                return self.in_items(st, x, o.items, node, c)
            if o.kind == "inst":
                f = I.class_lookup(st, o.cls, "__contains__")
                if isinstance(f, FuncV):
                    out = []
                    for s, v in I.call(st, BoundV(f, c), (x,), {}, node):
                        out.extend([(s, v)] if isinstance(v, Raise) else I.truth(s, v, node))
                    return out
            return [self.exc(st, node, "TypeError", f"argument of type {tname(c, st)} is not iterable")]
        if isinstance(c, TupV):
            return self.in_items(st, x, c.items, node, c)
        if is_str(c):
            if not is_str(x):
                if isinstance(x, Unk):
                    return I.fork_atom(st, ("contains", c, x))
                return [self.exc(st, node, "TypeError", f"'in <string>' requires string, not {tname(x, st)}")]
            c, x = I.simplify(st, c), I.simplify(st, x)
            if isinstance(c, Const) and isinstance(x, Const):
                return [(st, x.v in c.v)]
            if x == EMPTY:
                return [(st, True)]
            if isinstance(c, Str) and isinstance(x, Const):
                if any(isinstance(p, str) and x.v in p for p in c.parts):
                    return [(st, True)]
                if len(x.v) == 1 and all(self.hole_never(p, x.v, st) for p in c.parts):
                    return [(st, False)]
                return I.fork_atom(st, ("contains", c, x.v))
            if isinstance(c, Const) and isinstance(x, Str) and I.single_hole(x) is not None and \
                    I.single_hole(x).ops and I.single_hole(x).ops[-1][0] in ("index", "slice1"):
                return I.in_consts(st, x, frozenset(c.v))
            return I.fork_atom(st, ("contains", c, x))
        if isinstance(c, (Unk, ExtV)):
            r = self.unk_hook("contains", st, c, (x,), node)
            if r is not None:
                return r
            if isinstance(c, ExtV) and c.name in EXT_TABLES and isinstance(x, Const):
                import html.entities as he
                return [(st, x.v in getattr(he, c.name.rsplit(".", 1)[1]))]
            return I.fork_atom(st, ("in", x, c))
        return [self.exc(st, node, "TypeError", f"argument of type {tname(c, st)} is not iterable")]

    def unk_hook(self, what, st, o, args, node):
        h = self.I.hooks.get("unk")
        return h(self.I, what, st, o, args, node) if h is not None and isinstance(o, Unk) else None

    def hole_never(self, p, ch, st=None):
        """a part of a template which can not contain the character ch"""
        if isinstance(p, str):
            return ch not in p
        if type(p).__name__ == "Empty":
            return True
        if isinstance(p, Star):
            return all(self.hole_never(q, ch, st) for a in p.alts for q in a)
        if isinstance(p, Hole):
            def harmless(ops):
                # no other character is turned into ch
                return all(ch not in (probe(ops, o) or ch) for o in "a<>&\"' " if o != ch)
            src = p.src
            if src and src[0] == "num" and not p.ops:
                return ch not in "-0123456789"
            cs = probe(p.ops, ch)
            if cs is not None and ch not in cs and harmless(p.ops):
                return True
            if src[0] == "re" and not p.ops:
                cs = regex.info(src[1].pattern, src[1].flags).charset(src[2])
                return cs is not None and ch not in cs and not ("\\d" in cs and ch.isdigit())
            if src[0] == "piece" and src[2] == Const(ch) and src[4] in (None, -1) and harmless(p.ops):
                return True
            if src[0] == "line" and ch in "\n\r\x0b\x0c" and harmless(p.ops):
                return True
            if ch == "\n" and harmless(p.ops) and (src[0] == "nonl" or len(src) > 1 and isinstance(src[1], Unk) and
                                                   src[1].src and src[1].src[0] == "dt"):
                return True
            if st is not None:
                for a, b in st.facts.items():
                    if a[0] == "contains" and b is False and a[2] in (ch, Const(ch)):
                        for h in top_holes(a[1]):
                            if h.src == src and p.ops[:len(h.ops)] == h.ops and harmless(p.ops[len(h.ops):]):
                                return True
        return False

    def in_items(self, st, x, items, node, container):
        I = self.I
        flat = [it for it in flat_items(items)]
        if not flat:
            return [(st, False)]
        if is_str(x) and all(isinstance(i, Const) for i in flat) and not any(isinstance(i, LStar) for i in items):
            return I.in_consts(st, x, frozenset(i.v for i in flat if isinstance(i.v, str)))
        if isinstance(x, (Const, Num)) and all(isinstance(i, Const) for i in flat) and not any(isinstance(i, LStar) for i in items):
            if isinstance(x, Const):
                return [(st, any(i.v == x.v for i in flat))]
            out = []
            cur = [st]
            for c in flat:
                nxt = []
                for s in cur:
                    for s2, b in self.equal(s, x, c, node):
                        (out.append((s2, True)) if b else nxt.append(s2))
                cur = nxt
            return out + [(s, False) for s in cur]
        if any(isinstance(i, LStar) for i in items):
            # maybe a member: identical fixed items are
            for i in items:
                if not isinstance(i, LStar) and i == x and not isinstance(i, Unk):
                    return [(st, True)]
            return I.fork_atom(st, ("in", x, self.key_of(st, container)))
        out = []
        cur = [st]
        for c in flat:
            nxt = []
            for s in cur:
                for s2, b in self.equal(s, x, c, node):
                    if isinstance(b, Raise):
                        out.append((s2, b))
                    elif b:
                        out.append((s2, True))
                    else:
                        nxt.append(s2)
            cur = nxt
        return out + [(s, False) for s in cur]


# ------------------------------------------------------------------ module helpers

def add(a, b):
    return None if a is None or b is None else a + b


def neg(a):
    return None if a is None else -a


PROBE = "a<>&\"' \t\n\\"


def probe(ops, ch):
    """what a chain of operations turns the single character ch into; None: unknown"""
    s = ch
    for op in ops:
        k = op[0]
        if k == "replace" and len(op) == 3 and isinstance(op[1], str) and isinstance(op[2], str):
            s = s.replace(op[1], op[2])
        elif k == "escape":
            for a, b in op[1]:
                s = s.replace(a, b)
        elif k in ("lstrip", "rstrip", "strip", "lower", "upper", "title", "capitalize", "index", "slice",
                   "split", "piece", "tag-cut", "casefold", "pad", "partition", "sub-rest", "clean"):
            pass
        elif k == "json":
            import json
            s = json.dumps(s)[1:-1]
        elif k == "quote":
            from urllib.parse import quote
            s = quote(s, safe=op[1])
        elif k == "map":
            s = "".join(op[1].get(c, c) if isinstance(op[1], dict) else dict(op[1]).get(c, c) for c in s)
        else:
            return None
    return s


def templates_differ(a, b):
    """are the two templates different for every text in their holes?"""
    if any(not isinstance(p, (str, Hole)) for p in a + b):
        return False
    if any(isinstance(p, Hole) and p.ops and p.ops[-1][0] == "rx" for p in a + b):
        return False

    def strip(a, b, rev):
        a, b = list(a), list(b)
        if rev:
            a.reverse(), b.reverse()
        while a and b:
            x, y = a[0], b[0]
            if x == y:
                del a[0], b[0]
            elif isinstance(x, str) and isinstance(y, str):
                k = min(len(x), len(y))
                if (x[-k:] != y[-k:]) if rev else (x[:k] != y[:k]):
                    return None
                a[0], b[0] = (x[:-k], y[:-k]) if rev else (x[k:], y[k:])
                a, b = [p for p in a if p != ""], [p for p in b if p != ""]
            else:
                break
        if rev:
            a.reverse(), b.reverse()
        return a, b
    for rev in (False, True):
        r = strip(a, b, rev)
        if r is None:
            return True
        a, b = r
    ha, hb = [sorted((hash(p) for p in x if not isinstance(p, str))) for x in (a, b)]
    return ha == hb and sum(len(p) for p in a if isinstance(p, str)) != sum(len(p) for p in b if isinstance(p, str))


def is_path(v):
    return isinstance(v, Unk) and bool(v.src) and isinstance(v.src, tuple) and v.src[0] == "path"


def mk_path(args):
    """Path(*args)"""
    parts = ()
    for a in args:
        if is_path(a):
            parts += a.src[1:]
        elif isinstance(a, Const) and isinstance(a.v, str) and parts:
            parts += tuple(Const(x) for x in a.v.split("/") if x and x != ".") or ()
        else:
            parts += (a,)
    return Unk(("path",) + parts)


def tname(v, st=None):
    if isinstance(v, Const):
        return "None" if v.v is None else type(v.v).__name__
    if isinstance(v, Str):
        return "str"
    if isinstance(v, Num):
        return "int"
    if isinstance(v, TupV):
        return "tuple"
    if isinstance(v, Ref) and st is not None:
        o = st.heap[v.id]
        return o.cls.key[1] if isinstance(o.cls, ClassV) else o.kind
    return v.__class__.__name__


from .interp import HObj, SliceV, SuperV, alts_of, flat_items, short_exc  # noqa: E402
