"""str methods and regular-expression objects"""

import ast
import re

from . import regex
from .containers import Containers
from .interp import HObj, SliceV, alts_of, flat_items
from .ops import STR_PURE, probe, tname
from .values import (
    EMPTY, FALSE, NONE, TRUE, BoundV, ClassV, Const, Empty, ExcV, ExtV, FuncV, Hole, LStar, Meth,
    ModV, Num, Partial, Raise, Ref, RxV, Star, Str, TupV, Union, Unk, Wrap, hole, is_int, is_str,
    mk_parts, mk_str, parts_of, walk,
)


class Strings(Containers):
    def from_py(self, st, v, node):
        """a Python constant as abstract value"""
        if isinstance(v, list):
            items = []
            for x in v:
                st, y = self.from_py(st, x, node)
                items.append(y)
            st = st.copy()
            return st, self.new_list(st, node, items, "pylist")
        if isinstance(v, tuple):
            items = []
            for x in v:
                st, y = self.from_py(st, x, node)
                items.append(y)
            return st, TupV(tuple(items))
        return st, Const(v)

    def join(self, st, sep, items, node):
        """sep.join(items)"""
        parts = []
        first = True
        sp = parts_of(sep)

        def elem(x):
            x = self.I.simplify(st, x)
            if is_str(x):
                return parts_of(x)
            if isinstance(x, Unk):
                return (Hole(("str", x), ()),)
            return None
        out = []
        for n, it in enumerate(items):
            if isinstance(it, LStar):
                alts = set()
                for a in it.alts:
                    ps = ()
                    for x in a:
                        if isinstance(x, LStar):
                            inner = set()
                            for b in x.alts:
                                q = ()
                                for y in flat_items(b):
                                    e = elem(y)
                                    if e is None:
                                        return [self.exc(st, node, "TypeError", f"join: expected str, found {tname(y, st)}")]
                                    q += sp + e
                                inner.add(mk_parts(q))
                            ps += (Star(x.origin, frozenset(inner), x.each),)
                            continue
                        es = [elem(y) for y in alts_of(x)]
                        if None in es:
                            return [self.exc(st, node, "TypeError", f"join: expected str, found {tname(x, st)}")]
                        ps += (sp if not first or n else ()) + es[0] if len(es) == 1 else (
                            Star(("alt", x), frozenset(es), True),)
                    alts.add(mk_parts(ps if (n or not sp) else ps + sp if sp else ps))
                parts.append(Star(it.origin, frozenset(alts), it.each))
                if not n and sp and len(items) > 1:
                    first = True
                    continue
                first = False
                continue
            es = [elem(y) for y in alts_of(it)]
            if None in es:
                return [self.exc(st, node, "TypeError", f"join: expected str, found {tname(it, st)}")]
            if not first:
                parts.extend(sp)
            first = False
            if len(es) == 1:
                parts.extend(es[0])
            else:
                parts.append(Star(("alt", it), frozenset(es), True))
        return [(st, mk_str(parts))]

    def str_method(self, st, o, name, args, kwargs, node):
        I = self.I
        o = I.simplify(st, o)
        for i, a in enumerate(args):
            if isinstance(a, Union):
                out = []
                for x in a.alts:
                    out.extend(self.str_method(st.copy(), o, name, args[:i] + (x,) + args[i + 1:], kwargs, node))
                return out
        args = tuple(I.simplify(st, a) for a in args)
        if name == "join":
            if len(args) != 1:
                return [self.exc(st, node, "TypeError", "join() takes one argument")]
            return I.bind(self.iterate(st, args[0], node), lambda s, items: self.join(s, o, items, node))
        if name == "format":
            return self.str_format(st, o, args, kwargs, node)
        if name == "format_map":
            return self.str_format(st, o, (), {"**": NONE}, node)
        kw = {k: v for k, v in kwargs.items()}
        if isinstance(o, Const) and all(isinstance(a, Const) or isinstance(a, TupV) and all(isinstance(x, Const) for x in a.items)
                                        for a in list(args) + list(kw.values())) and name in STR_PURE:
            try:
                py = [a.v if isinstance(a, Const) else tuple(x.v for x in a.items) for a in args]
                r = getattr(o.v, name)(*py, **{k: v.v for k, v in kw.items()})
            except Exception as e:
                return [self.exc(st, node, type(e).__name__, str(e))]
            s, v = self.from_py(st, r, node)
            return [(s, v)]
        # argument types
        need = {"replace": 2, "split": 0, "rsplit": 0, "partition": 1, "rpartition": 1, "startswith": 1, "endswith": 1,
                "find": 1, "rfind": 1, "index": 1, "count": 1, "removeprefix": 1, "removesuffix": 1}
        if name in need:
            if len(args) < need[name]:
                return [self.exc(st, node, "TypeError", f"{name}() needs {need[name]} arguments")]
            for a in args[:2]:
                if isinstance(a, Const) and a.v is None and name not in ("split", "rsplit", "startswith", "endswith") or \
                        isinstance(a, (Ref, ExcV)) and name not in ("startswith", "endswith"):
                    return [self.exc(st, node, "TypeError", f"str.{name}: argument must be str, not {tname(a, st)}")]
        if name in ("strip", "lstrip", "rstrip"):
            ch = args[0] if args else NONE
            if isinstance(ch, Const):
                return [(st, self.strip(st, o, name, ch.v))]
            return [(st, self.opaque(o, name, ch))]
        if name in ("lower", "upper", "casefold", "title", "capitalize", "swapcase"):
            return [(st, self.map_str(o, lambda p: getattr(p, name)(), (name,)))]
        if name == "replace":
            a, b = args[0], args[1]
            cnt = args[2] if len(args) > 2 else kw.get("count")
            if isinstance(a, Const) and isinstance(b, Const) and cnt is None:
                if a.v == "":
                    return [(st, self.opaque(o, "replace", a, b))]
                return [(st, self.map_str(o, lambda p: p.replace(a.v, b.v), ("replace", a.v, b.v)))]
            if isinstance(a, Const) and isinstance(o, Str) and not isinstance(b, Const):
                n = cnt.v if isinstance(cnt, Const) else -1
                # replaced text is data
                return [(st, Str((Hole(("tpl", o), (("replace-by", a.v, n),)), Star(("replaced", a.v, n), frozenset([parts_of(b)]), False))))]
            if isinstance(o, Const) and isinstance(a, Const):
                n = cnt.v if isinstance(cnt, Const) else -1
                ps = o.v.split(a.v, n) if a.v else [o.v]
                out = []
                for i, p in enumerate(ps):
                    if i:
                        out.extend(parts_of(b))
                    out.append(p)
                return [(st, mk_str(out))]
            return [(st, self.opaque(o, "replace", a, b, cnt))]
        if name in ("startswith", "endswith"):
            return self.prefix(st, o, name, args[0], node)
        if name in ("removeprefix", "removesuffix"):
            a = args[0]
            out = []
            for s, b in self.prefix_test(st, o, "startswith" if name == "removeprefix" else "endswith", a, node):
                if isinstance(b, Raise):
                    out.append((s, b))
                elif not b:
                    out.append((s, o))
                elif isinstance(a, Const):
                    sl = SliceV(Const(len(a.v)), NONE, NONE) if name == "removeprefix" else SliceV(NONE, Const(-len(a.v)), NONE)
                    out.extend(self.str_index(s, o, sl, node))
                else:
                    out.append((s, self.opaque(o, name, a)))
            return out
        if name in ("partition", "rpartition"):
            sep = args[0]
            ex = self.exact_split(st, o, sep, name == "rpartition", 1)
            if ex is not None and len(ex) == 2:
                return [(st, TupV((ex[0], sep, ex[1])))]
            out = []
            for s, b in self.contains(st, sep, o, node):
                if isinstance(b, Raise):
                    out.append((s, b))
                elif b:
                    h, m, t = self.pieces(o, sep, name, 2)
                    out.append((s, TupV((h, sep, t))))
                else:
                    out.append((s, TupV((o, EMPTY, EMPTY) if name == "partition" else (EMPTY, EMPTY, o))))
            return out
        if name in ("split", "rsplit"):
            return self.split(st, o, name, args, kw, node)
        if name == "splitlines":
            st = st.copy()
            return [(st, self.new_list(st, node, (LStar(("splitlines", o), frozenset([(hole(("line", o)),)]), True),), "splitlines"))]
        if name in ("find", "rfind", "count"):
            lo = 0 if name == "count" else -1
            return [(st, Num((("find"), name, o, args[0]), lo, None))]
        if name in ("index", "rindex"):
            out = []
            for s, b in self.contains(st, args[0], o, node):
                out.append((s, Num(("find", name, o, args[0]), 0, None)) if b is True else
                           self.exc(s, node, "ValueError", "substring not found"))
            return out
        if name.startswith("is"):
            out = []
            cur = I.truth(st, o, node) if isinstance(o, Str) else [(st, bool(o.v))]
            for s, b in cur:
                if not b:
                    out.append((s, Const(name in ("isascii", "isprintable"))))
                else:
                    out.extend((t, Const(c)) for t, c in I.fork_atom(s, ("strpred", name, o)))
            return out
        if name in ("ljust", "rjust", "center", "zfill"):
            w = args[0] if args else NONE
            if not (is_int(w) or isinstance(w, Unk)):
                return [self.exc(st, node, "TypeError", f"{name}: width must be an integer, not {tname(w, st)}")]
            fill = args[1].v if len(args) > 1 and isinstance(args[1], Const) else "0" if name == "zfill" else " "
            padp = Star(("pad", name, w), frozenset([(fill,)]), False)
            ps = parts_of(o)
            return [(st, mk_str(ps + (padp,) if name == "ljust" else (padp,) + ps if name in ("rjust", "zfill")
                                else (padp,) + ps + (padp,)))]
        if name == "encode":
            enc = args[0] if args else kw.get("encoding", Const("utf-8"))
            err = args[1] if len(args) > 1 else kw.get("errors", Const("strict"))
            out = [(st, Unk(("encoded", o, enc, err)))]
            if I.hooks.get("io-errors"):
                if not isinstance(enc, Const):
                    out.append(self.exc(st.copy(), node, "LookupError", "unknown encoding"))
                    out.append(self.exc(st.copy(), node, "UnicodeEncodeError", "encode()"))
                elif str(enc.v).lower().replace("_", "-") not in ("utf-8", "utf8"):
                    out.append(self.exc(st.copy(), node, "UnicodeEncodeError", "encode()"))
            return out
        if name in ("translate", "expandtabs", "maketrans"):
            if name == "translate" and isinstance(args[0], Ref) and st.heap[args[0].id].kind == "dict":
                d = st.heap[args[0].id]
                if all(isinstance(k, Const) and isinstance(v, Const) for k, v in d.entries.items()) and not d.weak:
                    m = {(chr(k.v) if isinstance(k.v, int) else k.v): ("" if v.v is None else v.v if isinstance(v.v, str) else chr(v.v))
                         for k, v in d.entries.items()}
                    op = ("map", tuple(sorted(m.items())))
                    return [(st, self.map_str(o, lambda p: "".join(m.get(c, c) for c in p), op))]
            return [(st, self.opaque(o, name))]
        return self.unk(st, node, f"str.{name}")

    def exact_split(self, st, o, sep, right, n):
        """the pieces of a template, if its separators are known; else None"""
        if not (isinstance(o, Str) and isinstance(sep, Const) and isinstance(sep.v, str) and sep.v):
            return None
        ps = list(o.parts)
        pieces, cur = [], []
        while ps and len(pieces) < n:
            p = ps.pop() if right else ps.pop(0)
            if isinstance(p, str):
                if sep.v in p:
                    a, b = p.rsplit(sep.v, 1) if right else p.split(sep.v, 1)
                    if right:
                        pieces.append(mk_str([b] + cur))
                        ps.append(a)
                    else:
                        pieces.append(mk_str(cur + [a]))
                        ps.insert(0, b)
                    cur = []
                else:
                    cur = [p] + cur if right else cur + [p]
            elif len(sep.v) == 1 and self.hole_never(p, sep.v, st):
                cur = [p] + cur if right else cur + [p]
            else:
                return None
        pieces.append(mk_str(ps + cur if right else cur + ps))
        return pieces[::-1] if right else pieces

    def pieces(self, o, sep, how, n):
        """the texts around a separator"""
        def cut(v, side):
            if isinstance(v, Const):
                return v
            # literal prefix / suffix without separator
            h = self.I.single_hole(v)
            if h is not None:
                return Str((Hole(h.src, h.ops + (("piece", how, sep, side),)),))
            return Str((Hole(("tpl", v), (("piece", how, sep, side),)),))
        if isinstance(sep, Const) and isinstance(o, Str):
            ps = o.parts
            for i, p in enumerate(ps):
                if isinstance(p, str) and sep.v and sep.v in p and how != "rpartition" and \
                        all(isinstance(q, str) or self.hole_never(q, sep.v) for q in ps[:i]):
                    a, b = p.split(sep.v, 1)
                    return mk_str(ps[:i] + (a,)), sep, mk_str((b,) + ps[i + 1:])
        return cut(o, 0), sep, cut(o, 1)

    def split(self, st, o, name, args, kw, node):
        sep = args[0] if args else kw.get("sep", NONE)
        mx = args[1] if len(args) > 1 else kw.get("maxsplit", Const(-1))
        if sep == NONE:
            st = st.copy()
            if isinstance(mx, Const) and mx.v > 0:
                its = (LStar(("split", o, "ws"), frozenset([(hole(("word", o)),)]), True),)
            else:
                its = (LStar(("split", o, "ws"), frozenset([(hole(("word", o)),)]), True),)
            return [(st, self.new_list(st, node, its, "split"))]
        if sep == EMPTY:
            return [self.exc(st, node, "ValueError", "empty separator")]
        out = []
        if isinstance(mx, Const) and isinstance(mx.v, int) and mx.v > 0:
            ex = self.exact_split(st, o, sep, name == "rsplit", mx.v)
            if ex is not None:
                st = st.copy()
                return [(st, self.new_list(st, node, tuple(ex), "split"))]
        for s, b in self.contains(st, sep, o, node):
            s = s.copy()
            if isinstance(b, Raise):
                out.append((s, b))
            elif not b:
                out.append((s, self.new_list(s, node, (o,), "split")))
            elif isinstance(mx, Const) and mx.v == 1:
                h, _, t = self.pieces(o, sep, "partition" if name == "split" else "rpartition", 2)
                out.append((s, self.new_list(s, node, (h, t), "split")))
            elif isinstance(mx, Const) and mx.v == 0:
                out.append((s, self.new_list(s, node, (o,), "split")))
            else:
                mxk = mx.v if isinstance(mx, Const) else None
                p = hole(("piece", o, sep, name, mxk))
                if name == "rsplit" and mxk is not None and mxk > 1:
                    its = (Str((Hole(("rsplit-head", o, sep, mxk), ()),)), p, LStar(("split", o, sep), frozenset([(p,)]), True))
                else:
                    its = (Str((Hole(("split-head", o, sep), ()),)), p, LStar(("split", o, sep), frozenset([(p,)]), True))
                    if name == "split" and mxk in (None, -1):
                        # uniform: every piece is alike (one repetition, known to have two at least)
                        ref = self.new_list(s, node, (LStar(("split", o, sep), frozenset([(p,)]), True),), "split",
                                            meta={"nonempty": True, "atleast": 2})
                        its = None
                        out.append((s, ref))
                if its is not None:
                    out.append((s, self.new_list(s, node, its, "split")))
        return out

    def prefix(self, st, o, name, a, node):
        return [(s, b if isinstance(b, Raise) else Const(b)) for s, b in self.prefix_test(st, o, name, a, node)]

    def prefix_test(self, st, o, name, a, node):
        I = self.I
        if isinstance(a, TupV):
            out = []
            cur = [st]
            for x in a.items:
                nxt = []
                for s in cur:
                    for s2, b in self.prefix_test(s, o, name, x, node):
                        (out.append((s2, b)) if isinstance(b, Raise) or b else nxt.append(s2))
                cur = nxt
            return out + [(s, False) for s in cur]
        if not is_str(a):
            if isinstance(a, Unk):
                return I.fork_atom(st, (name, o, a))
            return [self.exc(st, node, "TypeError", f"{name} first arg must be str, not {tname(a, st)}")]
        if isinstance(a, Const):
            c = a.v
            if isinstance(o, Const):
                return [(st, getattr(o.v, name)(c))]
            if c == "":
                return [(st, True)]
            e = o.parts[0] if name == "startswith" else o.parts[-1]
            if isinstance(e, str):
                if getattr(e, name)(c):
                    return [(st, True)]
                k = min(len(e), len(c))
                if name == "startswith" and e[:k] != c[:k] or name == "endswith" and e[-k:] != c[-k:]:
                    return [(st, False)]
            if isinstance(e, Hole):
                if not self.may_edge(st, e, name, c):
                    if len(o.parts) == 1 or self.I.hole_nonempty(st, e):
                        return [(st, False)]
            return I.fork_atom(st, (name, o, c))
        return I.fork_atom(st, (name, o, a))

    def may_edge(self, st, h, name, c):
        """may the text of hole h start/end with c?"""
        if h.src[0] == "num":
            return c[0 if name == "startswith" else -1] in "-0123456789"
        if h.src[0] == "spec" and h.src[1] in ("dec",) and not h.ops:
            return all(x in "0123456789" for x in c)
        if h.src[0] == "spec" and h.src[1] == "hex" and not h.ops:
            return all(x in "0123456789abcdefABCDEF" for x in c)
        if h.src[0] == "re" and not h.ops:
            cs = regex.info(h.src[1].pattern, h.src[1].flags).charset(h.src[2])
            if cs is not None and not all(x in cs or "\\d" in cs and x.isdigit() for x in c):
                return False
        for op in h.ops[::-1]:
            if op[0] == "rstrip" and name == "endswith":
                ch = op[1]
                return not (c[-1] in ch if ch is not None else c[-1].isspace())
            if op[0] == "lstrip" and name == "startswith":
                ch = op[1]
                return not (c[0] in ch if ch is not None else c[0].isspace())
            if op[0] not in ("lstrip", "rstrip"):
                break
        return True

    # ------------------------------------------------------------- regular expressions
    def mk_rx(self, st, pat, flags, node):
        I = self.I
        if isinstance(pat, RxV):
            return [(st, pat)]
        if isinstance(pat, Const) and isinstance(pat.v, str):
            fl = flags.v if isinstance(flags, Const) and isinstance(flags.v, int) else 0
            try:
                regex.info(pat.v, int(fl))
            except re.error as e:
                return [self.exc(st, node, "re.error", str(e))]
            rx = RxV(pat.v, int(fl))
            I.event("regex", rx, st, node)
            return [(st, rx)]
        return [(st, Unk(("rx", pat)))]

    def new_match(self, st, node, rx, subject, cfg, tag):
        info = regex.info(rx.pattern, rx.flags)
        id = self.I.sid(node, tag)
        if id in st.heap:
            self.I.forget(st, id)
        ent = {}
        for g in range(info.ngroups + 1):
            h = hole(("re", rx, g, id))
            if g == 0 or g in cfg[0]:
                ent[Const(g)] = h
            elif g in cfg[1]:
                ent[Const(g)] = Union(frozenset([h, NONE]))
            else:
                ent[Const(g)] = NONE
        st.heap[id] = HObj("match", entries=ent, meta={"rx": rx, "subject": subject})
        return Ref(id)

    def py_match(self, st, node, rx, m):
        if m is None:
            return st, NONE
        st = st.copy()
        id = self.I.sid(node, "cmatch")
        ent = {Const(i): Const(m.group(i)) for i in range(m.re.groups + 1)}
        st.heap[id] = HObj("match", entries=ent, meta={"rx": rx, "subject": Const(m.string), "span": m.span()})
        return st, Ref(id)

    def all_cfg(self, rx):
        info = regex.info(rx.pattern, rx.flags)
        must = frozenset.intersection(*[c[0] for c in info.configs]) if info.configs else frozenset()
        may = frozenset().union(*[c[0] | c[1] for c in info.configs]) - must if info.configs else frozenset()
        return (must, may)

    def rx_method(self, st, rx, name, args, kwargs, node):
        I = self.I
        order = {"sub": ("repl", "string", "count"), "subn": ("repl", "string", "count"), "split": ("string", "maxsplit"),
                 "match": ("string",), "search": ("string",), "fullmatch": ("string",), "finditer": ("string",),
                 "findall": ("string",)}[name]
        a = dict(zip(order, args))
        a.update(kwargs)
        if "string" not in a:
            return [self.exc(st, node, "TypeError", f"{name}: missing string")]
        text = a["string"]
        if isinstance(text, Union):
            out = []
            for t in text.alts:
                out.extend(self.rx_method(st.copy(), rx, name, (a["repl"], t) if "repl" in a else (t,), {}, node))
            return out
        text = I.simplify(st, text)
        I.event("rxuse", (rx, name), st, node)
        if I.hooks.get("stored") and is_str(text):
            st = st.copy()
            I.stored(st, None, text)
        if not is_str(text) and not isinstance(text, Unk):
            return [self.exc(st, node, "TypeError", f"re.{name}: expected string, got {tname(text, st)}")]
        if isinstance(text, Unk):
            text = hole(("str", text))
        if not isinstance(rx, RxV):
            I.event("unknown-regex", (name,), st, node)
            if name in ("sub", "subn") and isinstance(a["repl"], (FuncV, BoundV)):
                # user supplied pattern: the callback gets some match
                pass
            return [(st, Unk(("rxcall", rx, name, text)))]
        crx = None
        if isinstance(text, Const):
            crx = re.compile(rx.pattern, rx.flags)
        if name in ("match", "search", "fullmatch"):
            if crx is not None:
                s, v = self.py_match(st, node, rx, getattr(crx, name)(text.v))
                return [(s, v)]
            out = []
            for s, b in I.fork_atom(st, ("rematch", text, rx, name)):
                if b:
                    info = regex.info(rx.pattern, rx.flags)
                    cfgs = info.configs if len(info.configs) <= 24 else [self.all_cfg(rx)]
                    for i, c in enumerate(cfgs):
                        s2 = s.copy()
                        out.append((s2, self.new_match(s2, node, rx, text, c, f"match{i}")))
                else:
                    out.append((s, NONE))
            return out
        if name == "finditer":
            s = st.copy()
            if crx is not None:
                items = []
                for i, m in enumerate(crx.finditer(text.v)):
                    if i > 40:
                        break
                    id = I.sid(node, f"cmatch{i}")
                    s.heap[id] = HObj("match", entries={Const(g): Const(m.group(g)) for g in range(m.re.groups + 1)},
                                      meta={"rx": rx, "subject": text})
                    items.append(Ref(id))
                return [(s, self.new_list(s, node, items, "finditer"))]
            info = regex.info(rx.pattern, rx.flags)
            cfgs = info.configs if len(info.configs) <= 40 else [self.all_cfg(rx)]
            ms = [self.new_match(s, node, rx, text, c, f"fmatch{i}") for i, c in enumerate(cfgs)]
            return [(s, self.new_list(s, node, (LStar(("finditer", rx, text), frozenset((m,) for m in ms), True),), "finditer"))]
        if name == "findall":
            s = st.copy()
            if crx is not None:
                s, v = self.from_py(s, crx.findall(text.v), node)
                return [(s, v)]
            n = regex.info(rx.pattern, rx.flags).ngroups
            e = hole(("findall", rx, text)) if n <= 1 else TupV(tuple(hole(("findall", rx, text, i)) for i in range(n)))
            return [(s, self.new_list(s, node, (LStar(("findall", rx, text), frozenset([(e,)]), True),), "findall"))]
        if name == "split":
            s = st.copy()
            if crx is not None:
                s, v = self.from_py(s, crx.split(text.v), node)
                return [(s, v)]
            p = hole(("piece", text, rx))
            return [(s, self.new_list(s, node, (p, LStar(("resplit", rx, text), frozenset([(p,)]), True)), "resplit"))]
        return self.rx_sub(st, rx, name, a, text, node)

    def rx_sub(self, st, rx, name, a, text, node):
        I = self.I
        repl = a["repl"]

        def done(s, v):
            return (s, v) if name == "sub" or isinstance(v, Raise) else (s, TupV((v, Num(("subn", rx), 0, None))))
        if isinstance(repl, Const) and isinstance(repl.v, str):
            if isinstance(text, Const):
                try:
                    return [done(st, Const(re.sub(rx.pattern, repl.v, text.v, flags=rx.flags)))]
                except re.error as e:
                    return [self.exc(st, node, "re.error", str(e))]
            return [done(st, self.opaque(text, "resub", rx, repl.v))]
        if is_str(repl):
            out = [done(st, self.opaque(text, "resub", rx, repl))]
            if any(isinstance(p, Hole) for p in parts_of(repl)):
                out.append(self.exc(st.copy(), node, "re.error", "replacement template contains data"))
            return out
        # callable
        if isinstance(text, Const) and text.v == "":
            # only patterns matching the empty string call the callback
            if regex.info(rx.pattern, rx.flags).min_width(0) > 0:
                return [done(st, EMPTY)]
        info = regex.info(rx.pattern, rx.flags)
        st = st.copy()
        cfgs = info.configs if len(info.configs) <= 120 else [self.all_cfg(rx)]
        ms = [self.new_match(st, node, rx, text, c, f"smatch{i}") for i, c in enumerate(cfgs)]
        acc = self.new_list(st, node, (), "subacc")
        star = LStar(("resub", rx, text, I.sid(node, "resub")), frozenset((m,) for m in ms), True)
        cur = []

        def assign(s, v):
            s = s.copy()
            s.setvar(s.fr, f"<m{node.lineno if hasattr(node, 'lineno') else 0}>", v)
            return [(s, None)]

        def body(s):
            m = s.envs[s.fr][f"<m{node.lineno if hasattr(node, 'lineno') else 0}>"]

            def f(s2, r):
                r = I.simplify(s2, r)
                if r == NONE:
                    r = EMPTY
                if isinstance(r, Unk):
                    r = hole(("str", r))
                if not is_str(r):
                    return [self.exc(s2, node, "TypeError", f"re.sub callback returned {tname(r, s2)}")]
                h = I.hooks.get("match_done")
                if h:
                    h(I, (rx, m, r), s2, node)
                s2 = s2.copy()
                s2.mut(acc.id).items += (r,)
                return [(s2, r)]
            return I.after(I.bind(I.call(s, repl, (m,), {}, node), f))
        outs = I.loop_items(st, (star,), assign, body, lambda s: [(s, None)], node)
        res = []
        for s, sig in outs:
            if sig is not None and sig[0] == "exc":
                res.append((s, Raise(sig[1])))
                continue
            s = s.copy()
            items = s.heap[acc.id].items if acc.id in s.heap else ()
            alts = set()
            for x in flat_items(items):
                if is_str(x):
                    alts.add(parts_of(x))
            alts.add((Hole(("unmatched", rx, text), ()),))
            res.append(done(s, mk_str((Star(("resub", rx, text), frozenset(alts), True),))))
        return res

    def match_group(self, st, ref, k, node):
        I = self.I
        o = st.heap[ref.id]
        info = regex.info(o.meta["rx"].pattern, o.meta["rx"].flags)
        if isinstance(k, Const):
            g = info.num(k.v)
            if g is None:
                return [self.exc(st, node, "IndexError", f"no such group {k.v!r}")]
            return I.resolve(st, o.entries[Const(g)], lambda s, x: s.mut(ref.id).entries.__setitem__(Const(g), x), node)
        if isinstance(k, Str):
            out = []
            h = I.single_hole(k)
            if h is not None:
                cur = st
                for n, g in info.groupindex.items():
                    s = I.assume_eq(st, h, n)
                    if s is not None:
                        out.extend((t, v) for t, v in self.match_group(s, ref, Const(n), node))
                s = I.assume_ne(st, h, frozenset(info.groupindex))
                if s is not None:
                    out.append(self.exc(s, node, "IndexError", "no such group"))
                return out
        return [(st, Unk(("group", ref, k)))]

    def match_method(self, st, ref, name, args, kwargs, node):
        I = self.I
        o = st.heap[ref.id]
        rx = o.meta["rx"]
        info = regex.info(rx.pattern, rx.flags)
        if name == "group" or name == "__getitem__":
            if not args:
                args = (Const(0),)
            if len(args) == 1:
                return self.match_group(st, ref, args[0], node)
            cur = [(st, ())]
            out = []
            for a in args:
                nxt = []
                for s, vs in cur:
                    for s2, v in self.match_group(s, ref, a, node):
                        (out.append((s2, v)) if isinstance(v, Raise) else nxt.append((s2, vs + (v,))))
                cur = nxt
            return out + [(s, TupV(vs)) for s, vs in cur]
        if name == "groups":
            dflt = args[0] if args else kwargs.get("default", NONE)
            return [(st, TupV(tuple(self.deflt(o.entries[Const(g)], dflt) for g in range(1, info.ngroups + 1))))]
        if name == "groupdict":
            dflt = args[0] if args else kwargs.get("default", NONE)
            st = st.copy()
            ent = {Const(n): self.deflt(o.entries[Const(g)], dflt) for n, g in info.groupindex.items()}
            return [(st, self.I.alloc(st, node, "groupdict", HObj("dict", entries=ent)))]
        if name in ("start", "end"):
            return [(st, Num(("find", name, ref, args), 0 if not args else -1, None))]
        if name == "span":
            return [(st, TupV((Num(("find", "start", ref, args), 0, None), Num(("find", "end", ref, args), 0, None))))]
        if name == "expand":
            return [(st, hole(("expand", ref, args)))]
        return self.unk(st, node, f"match.{name}")

    def deflt(self, v, d):
        if d == NONE:
            return v
        xs = frozenset(d if x == NONE else x for x in alts_of(v))
        return next(iter(xs)) if len(xs) == 1 else Union(xs)
