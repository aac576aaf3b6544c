"""C06: the conversions from HTML lose no text."""
from engine import regex

from .common import *  # noqa
from .html import in_match
import re._constants as C

from .textflow import Flow, reachable

RULE = ("Abstract interpretation of the four converters from HTML for unknown input, to a fixpoint. Rules: the parser gets the whole input (only blanks stripped; for every re.sub "
        "the text a match can carry is in the replacement or stored); it is closed; every text callback creates a node with its text, every node has a parent; the result template of the "
        "emitter for every kind of node contains the children (the content for text nodes) with nothing but blanks cut off, or stores them in the table of the emitter, unless the path says that they are "
        "empty; kinds emitted without children never become the current node of the parser; MarkupTable: every cell of model tables is in every rendering.")
MINIMUM = {"converters": 4, "kinds of nodes": 30, "outcomes of emitter functions": 200, "text callbacks": 200, "substitutions": 2, "texts fed": 4, "results": 4, "cells": 200, "nodes created": 12}
DBG = bool(__import__("os").environ.get("C06DBG"))
CONTENT_KINDS = {"data", "charref", "entityref"}
TEXTY = {"handle_data": "text", "handle_charref": "a character reference", "handle_entityref": "an entity"}


def wanted_children(h):
    return bool(h.src) and h.src[0] in ("rec", "recany")


def wanted_content(h):
    return bool(h.src) and (h.src[0] in ("spec", "content") or h.src[0] == "nonempty" and "data" in h.src)


def wanted_input(h):
    return h.src == ("param", "text")


def wanted_group(rx, g):
    return lambda h: bool(h.src) and h.src[0] == "re" and h.src[1] == rx and h.src[2] == g


def kinds_of(I, s, o):
    k = o.fields.get("kind")
    if isinstance(k, Const):
        return ("in", frozenset([k.v]))
    h = I.single_hole(k) if k is not None else None
    d = s.dom.get(h) if h is not None else None
    return d if d is not None else ("notin", frozenset())


def possible(ks, kind):
    return (kind in ks[1]) == (ks[0] == "in")


def domtext(ks):
    return ("" if ks[0] == "in" else "all but ") + ",".join(sorted(map(str, ks[1]))[:6])


def FLOWS():
    fc, ft = Flow(wanted_children), Flow(wanted_content)
    fc.name, ft.name = "children", "content"
    return fc, ft


class Emitter:
    """what the emitter makes of the nodes"""

    def __init__(self):
        self.childless = {}     # kind -> text, kinds of which an outcome does not contain the children
        self.contentless = {}   # kind -> text
        self.contented = set()  # kinds with an outcome which contains the content


def known_empty(I, s, flow):
    """does the state say that the text we look for is empty (or equal to something in the result)?"""
    if s.facts.get(("known", flow.name)):
        return True
    for h, d in s.dom.items():
        if d[0] == "in" and all(isinstance(x, str) and not x.strip() for x in d[1]) and isinstance(h, V) and flow.inner(h)[0]:
            return True
    return False


def assumption(flows):
    """keeps in the facts of a state that a text is empty or equal to another one"""
    def h(st, atom, value):
        if atom[0] == "truth" and value is False or atom[0] in ("eq", "cmp", "==") and value is True:
            for f in flows:
                if f.inner(atom[1:])[0]:
                    st.facts[("known", f.name)] = True
    return h


def merge_key(s):
    """states which differ in this are not merged"""
    return (frozenset(k for k in s.facts if k[0] in ("known", "stored")),
            frozenset((h, d) for h, d in s.dom.items() if isinstance(h, Hole) and h.src[0] in ("kind", "spec") and "symarg" in str(h.src[1])[:12]))


def is_text(I, s, c):
    return c is not None and c != NONE and not (isinstance(c, Union) and NONE in c.alts) and is_str(c)


def finite(I, s, c):
    if isinstance(c, Const):
        return c != NONE
    h = I.single_hole(c) if c is not None and is_str(c) else None
    d = s.dom.get(h) if h is not None else None
    return d is not None and d[0] == "in"


def emitter(rep, I, conv, bodies):
    em = Emitter()
    fc, ft = FLOWS()
    both = Flow(lambda h: wanted_children(h) or wanted_content(h))
    for ctx, (fi, env, res) in bodies.items():
        syms = [v for v in env.values() if isinstance(v, Ref) and isinstance(v.id, tuple) and v.id[0] == "symarg"]
        for s, v in res:
            if isinstance(v, Raise) or not is_str(v) or len(syms) != 1 or syms[0].id not in s.heap:
                continue
            rep.add("outcomes of emitter functions")
            o = s.heap[syms[0].id]
            ks = kinds_of(I, s, o)
            for k in ks[1] if ks[0] == "in" else ():
                rep.seen("kinds of nodes", k)
            where = f"{fi.qual}: {domtext(ks)}"
            has, loss = both.value(v)
            for l in loss:
                rep.find("cut", f"{conv}:{where}"[:90], f"{conv}: {where}: {l}")
            children = fc.value(v)[0] or known_empty(I, s, fc)
            children = children or ("stored", "children") in s.facts
            fed = any(x[0] == "feed" and ft.value(x[1])[0] for x in s.trace) and fc.value(v)[0]
            blank = "".join(p for p in parts_of(v) if isinstance(p, str)).isspace() and "entityref" in ks[1] and not is_text(I, s, o.fields.get("content"))
            content = fed or blank or o.fields.get("content") == NONE or finite(I, s, o.fields.get("content")) or ft.value(v)[0] or known_empty(I, s, ft)
            if ks[0] == "in":
                for k in ks[1]:
                    if not children and not is_text(I, s, o.fields.get("content")) and not (content and o.fields.get("content") != NONE and k in CONTENT_KINDS):
                        em.childless.setdefault(k, short(v, 60))
                    if DBG and (not content or not children) and k in ("td", "entityref", "inlinedata_pre", "data"):
                        print("?", k, children, content, short(o.fields.get("content"), 200), [k for k in s.facts if k[0] == "stored"], [x[0] for x in s.trace], short(v, 300))
                    if not content:
                        em.contentless.setdefault(k, short(v, 60))
                    if ft.value(v)[0]:
                        em.contented.add(k)
            elif not children:
                rep.find("children", f"{conv}:{where}"[:90], f"{conv}: {where}: the children of the node are not in the result {short(v, 100)}")
    return em


def item_ids(v):
    from engine.values import refs
    return list(refs(v))


def parser(rep, I, conv, em, nodes):
    """nodes: [(callback, kind domain, content, has a parent, is current, arg)]"""
    for cb, ks, content, parent, cur, site in nodes:
        rep.add("nodes created")
        if not parent:
            rep.find("parent", f"{conv}:{cb}", f"{conv}: {cb} creates a node ({domtext(ks)}) which is not in the tree")
        if cur:
            for k, r in em.childless.items():
                if possible(ks, k):
                    rep.find("void", f"{conv}:{k}", f"{conv}: {cb}: what follows becomes part of the {k!r} node, which is emitted as {r} without its children")
        if content:
            for k, r in em.contentless.items():
                if possible(ks, k) and (k in em.contented or cb in TEXTY):
                    rep.find("content", f"{conv}:{k}", f"{conv}: {cb} stores the text in a {k!r} node, which is emitted as {r} without it")


# ------------------------------------------------------------------ regular expressions
def free_text(info):
    """the groups (None: outside of groups) of the pattern which can match letters that do not stand in the pattern"""
    out = set()

    def go(sub, g):
        for op, av in sub:
            if op in (C.ANY, C.NOT_LITERAL) or op is C.IN and any(in_match(av, c) for c in "q7"):
                out.add(g)
            elif op is C.CATEGORY:
                out.add(g)
            elif op in (C.ASSERT, C.ASSERT_NOT, C.AT, C.LITERAL):
                continue
            elif op is C.SUBPATTERN:
                go(av[3], av[0] if av[0] is not None else g)
            else:
                for x in info._children(op, av):
                    go(x, g)
    go(info.tree, None)
    return out


def outer_groups(info, g):
    while g is not None:
        yield g
        g = info.outer.get(g)


def resubs(rep, I, conv, subs):
    for (rx, site), outs in subs.items():
        info = regex.info(rx.pattern, rx.flags)
        rep.seen("substitutions", f"{site}")
        need = free_text(info)
        for r, kept in outs:
            for g in need:
                rep.add("texts of matches")
                chain = [0] + list(outer_groups(info, g))
                if not any(x in kept for x in chain):
                    rep.find("match", f"{conv}:{site}:{g}", f"{conv}: {site}: the text the regular expression matches"
                             f"{f' in group {info.names.get(g, g)!r}' if g else ''} is neither in the replacement {short(r, 100)} nor stored")


def stored_keys(x, memo={}):
    """which texts a stored value contains: the children of a node, groups of a match"""
    if isinstance(x, V):
        if x in memo:
            return memo[x]
        memo[x] = frozenset()
    out = frozenset()
    if isinstance(x, Hole):
        if wanted_children(x):
            out = frozenset([("children",)])
        elif x.src and x.src[0] == "re":
            out = frozenset([("group", x.src[1:4])])
        elif x.src and x.src[0] == "arg":
            out = frozenset([("arg", x.src[1:3])])
        elif wanted_input(x):
            out = frozenset([("input",)])
    for y in getattr(x, "_k", None) or (x if isinstance(x, (tuple, frozenset, list)) else ()):
        if isinstance(y, (V, tuple, frozenset, list)):
            out = out | stored_keys(y)
    if isinstance(x, V):
        memo[x] = out
    return out


def whole(key, v, flows={}):
    """is the text in the value, with nothing cut off?"""
    if key not in flows:
        flows[key] = Flow(wanted_children if key[0] == "children" else wanted_group(*key[1][:2]) if key[0] == "group" else
                          wanted_input if key[0] == "input" else lambda h: bool(h.src) and h.src[0] == "arg" and h.src[1:3] == key[1])
    if not is_str(v):
        return True
    has, loss = flows[key].value(v)
    return has and not loss


def conversion(conv):
    def t(rep, repo):
        I = make(repo)
        bodies, nodes, subs, feeds = {}, [], {}, []

        def body(I, fi, ctx, env, res):
            if len(ctx) == 1 and ctx[0][0] == "tab":
                bodies[ctx] = (fi, env, res)

        def stored(st, v, ref):
            if ref is None:
                return ()
            keys = frozenset(k for k in stored_keys(v) if whole(k, v))
            if ("children",) in keys and ref.id not in reachable(st, [i for i, o in st.heap.items() if o.kind == "inst" and not I.is_sym_cls(o)]):
                keys = keys - {("children",)}
            return keys

        def match_done(I, m, s, node):
            rx, ref, r = m
            site = ":".join(map(str, I.site(node)[:2]))
            o = s.heap[ref.id]
            kept = set()
            for g, v in o.entries.items():
                if v == NONE or not isinstance(g, Const):
                    continue
                if v == EMPTY or isinstance(v, Const):
                    kept.add(g.v)
                    continue
                has, loss = Flow(wanted_group(rx, g.v)).value(r)
                d = s.dom.get(I.single_hole(v)) if I.single_hole(v) is not None else None
                if has and not loss or d is not None and d[0] == "in":
                    kept.add(g.v)
                elif any(k[0] == "stored" and k[1] == "group" and k[2][:2] == (rx, g.v) for k in s.facts):
                    kept.add(g.v)
            for g, v in o.entries.items():
                if v == NONE and isinstance(g, Const):
                    kept.add(g.v)       # did not take part in the match
            x = (r, frozenset(kept))
            if x not in subs.setdefault((rx, site), []):
                subs[(rx, site)].append(x)

        def callback(I, name, ref, args, s0, s):
            new = {i: o for i, o in s.heap.items() if o.cls is not None and I.is_sym_cls(o) and not o.meta.get("sym") and s0.heap.get(i) is not o}
            me = s.heap[ref.id]
            current = {i for v in me.fields.values() for i in item_ids(v)}
            got = False
            site = ":".join(map(str, ref.id[1:2]))
            for i, o in new.items():
                c = o.fields.get("content", NONE)
                x = (name, kinds_of(I, s, o), c != NONE, o.fields.get("parent", NONE) != NONE and not has_none(o.fields["parent"]), i in current, site)
                if x not in nodes:
                    nodes.append(x)
                if name in TEXTY and c == args[0]:
                    got = True
            if name in TEXTY and not got:
                rep.find("dropped", f"{conv}:{name}", f"{conv}: {name} ({TEXTY[name]}) creates no node with the text {short(args[0], 60)}: {[str(o.fields.get('content'))[:60] for o in new.values()]}")
            elif name in TEXTY:
                rep.add("text callbacks")

        I.hooks.update({"body": body, "stored": stored, "match_done": match_done, "html-callback": callback, "assumed": assumption(FLOWS()), "merge-key": merge_key})
        outs = run(I, "creole", conv, (text(),), {})
        rep.seen("converters", conv)
        em = emitter(rep, I, conv, bodies)
        parser(rep, I, conv, em, nodes)
        resubs(rep, I, conv, subs)
        flow = Flow(lambda h: wanted_input(h) or wanted_content(h))
        for e in I.events.values():
            if e["kind"] == "feed":
                rep.add("texts fed")
                has, loss = flow.value(e["data"][1])
                if not has or loss:
                    rep.find("fed", conv, f"{conv}: the parser gets {short(e['data'][1], 120)}: {loss[0] if loss else 'not the input'}")
        tree = FLOWS()[0]
        for s, v in outs:
            if not isinstance(v, Raise):
                rep.add("results")
                has, loss = tree.value(v)
                if not has and not known_empty(I, s, tree):
                    rep.find("result", conv, f"{conv}: the result {short(v, 120)} is not the text of the tree")
                for l in loss:
                    rep.find("result", f"{conv}:{l[:40]}", f"{conv}: the result: {l}")
                feeds = [x[0] for x in s.trace if x[0] in ("feed", "close-parser")]
                if feeds[-1:] != ["close-parser"]:
                    rep.find("close", conv, f"{conv}: the parser is not closed: an unfinished end of the text is lost ({feeds})")
        coverage(I, rep)
        if DBG:
            print("childless", em.childless); print("contentless", sorted(em.contentless)); print("contented", em.contented)
            for n in nodes: print("NODE", n[0], domtext(n[1]), n[2:])
            for (rx, site), o in subs.items(): print("SUB", site, free_text(regex.info(rx.pattern, rx.flags)), [(short(r, 80), sorted(k)) for r, k in o][:6])
    return t


def has_none(v):
    return NONE in (v.alts if isinstance(v, Union) else (v,))


# ------------------------------------------------------------------ tables
SHAPES = {"a row with two cells and a row with one": (("tr",), ("th", 0), ("td", 1), ("tr",), ("td", 2)),
          "a short first row": (("tr",), ("td", 0), ("tr",), ("td", 1), ("td", 2)),
          "cells without row": (("td", 0), ("th", 1)),
         "an empty row": (("tr",), ("tr",), ("td", 0))}
RENDERERS = ("get_table_markup", "get_rest_table", "get_markdown_table")


def tables(rep, repo):
    """MarkupTable: every cell which was added is in every rendering"""
    for shape, adds in SHAPES.items():
        for render in RENDERERS:
            for auto in (True, False) if render == "get_table_markup" else (True,):
                I = make(repo)

                def go(I):
                    cls = lookup(I, "creole.shared.markup_table", "MarkupTable")
                    res = I.call_entry(I.state0, cls, (), {"head_prefix": hole(("prefix",)), "auto_width": Const(auto)})
                    for no, step in enumerate(adds + (("render",),)):
                        name = {"tr": "add_tr", "th": "add_th", "td": "add_td", "render": render}[step[0]]
                        args = tuple(hole(("cell", i)) for i in step[1:])

                        def one(s, r, name=name, args=args, no=no):
                            table = r.items[0] if isinstance(r, TupV) else r
                            method = BoundV(I.class_lookup(s, cls, name), table)
                            return I.bind(I.call_entry(s, method, args, {}, f"step {no}"), lambda s, v: [(s, TupV((table, v)))])
                        res = I.bind(res, one)
                    return res
                where = f"{render}{'' if auto else ' (no auto width)'}"
                for s, v in I.run(go):
                    if isinstance(v, Raise):
                        rep.find("table-raise", f"{where}:{exc_construct(v.exc)}", f"{where}, {shape}: {exc_text(v.exc)}")
                        continue
                    out = v.items[1]
                    rep.add("tables")
                    for step in adds:
                        if len(step) == 2:
                            rep.add("cells")
                            f = Flow(lambda h, i=step[1]: h.src == ("cell", i))
                            has, loss = f.value(out)
                            empty = any(k[0] == "truth" and x is False and f.inner(k[1:])[0] for k, x in s.facts.items()) or \
                                any(d == ("in", frozenset([""])) and f.inner(h)[0] for h, d in s.dom.items() if isinstance(h, V))
                            if not (has and not loss) and not empty:
                                rep.find("cell", f"{where}:{shape}", f"{where}, {shape}: cell {step[1]} ({step[0]}) is not in the result {short(out, 160)} {loss}")


tasks = [(c, conversion(c)) for c in ("html2rest", "html2markdown", "html2creole", "html2textile")] + [("MarkupTable", tables)]
