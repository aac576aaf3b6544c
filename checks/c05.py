"""C05: creole2html loses no text."""
import re._constants as C

from engine import regex

from .common import *  # noqa
from .c06 import FLOWS, Emitter, assumption, domtext, emitter, free_text, kinds_of, outer_groups, possible, stored_keys, whole
from .html import in_match
from .textflow import Flow, item_refs

RULE = ("Abstract interpretation of creole2html for unknown markup, to a fixpoint. Rules: the markup is parsed as a whole; for every match of the parser's patterns the text of each group which can contain letters is stored in the "
        "document tree or passed on to an other pattern (as a whole, or it is known to be empty), no letters stand outside of groups, none can be between two matches; functions which get such texts use them as a whole; every node is in the tree, "
        "only break, line and separator nodes are removed, nodes with text or children are of kinds which are emitted with them, what is emitted is not cut, and the result is the text of the whole tree.")
MINIMUM = {"patterns": 4, "texts of matches": 200, "outcomes of emitter functions": 60, "results": 4, "kinds of nodes": 20}
DBG = bool(__import__("os").environ.get("C05DBG"))
BLANK_KINDS = {"break", "line", "separator"}


def merge_key(s):
    return frozenset(k for k in s.facts if k[0] in ("known", "stored"))


WORDY = "q7Q_\u00e4\u4e2d"
PUNCT = "!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~"


def cls_accepts(op, av, chars):
    return op is C.ANY or op is C.IN and all(in_match(av, c) for c in chars) or op is C.NOT_LITERAL and chr(av) not in chars


def branches(info):
    items = list(info.tree)
    while len(items) == 1 and items[0][0] is C.SUBPATTERN:
        items = list(items[0][1][3])
    return [list(b) for b in items[0][1][1]] if len(items) == 1 and items[0][0] is C.BRANCH else [items]


def covers(items):
    """do these items match at least one character at whatever character but the newline? (number of such items, None: no)"""
    n = 0
    for op, av in items:
        if op in (C.MAX_REPEAT, C.MIN_REPEAT) and av[0] == 0:
            continue
        if cls_accepts(op, av, WORDY + PUNCT + " \t"):
            k = 1
        elif op is C.SUBPATTERN:
            k = covers(list(av[3]))
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT) and av[0] == 1:
            k = covers(list(av[2]))
        elif op is C.BRANCH:
            k = max((covers(list(b)) or 0 for b in av[1])) or None
        else:
            return None
        if k is None or n + k > 1:
            return None
        n += k
    return n


def starts_with_word(items):
    """can the items match a text which starts with any letter?"""
    for op, av in items:
        if cls_accepts(op, av, WORDY):
            return True
        if op is C.SUBPATTERN:
            if starts_with_word(list(av[3])):
                return True
            if covers(list(av[3])) is not None:
                continue
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
            if starts_with_word(list(av[2])):
                return True
            if av[0] == 0:
                continue
        elif op is C.BRANCH:
            return any(starts_with_word(list(b)) for b in av[1])
        elif op is C.AT:
            continue
        return False
    return False


def accepts_first(item, char):
    op, av = item
    if op is C.LITERAL:
        return chr(av) == char
    if op is C.SUBPATTERN:
        inner = list(av[3])
        return len(inner) > 0 and inner[0][0] is not C.AT and accepts_first(inner[0], char)
    if op in (C.MAX_REPEAT, C.MIN_REPEAT):
        return av[0] > 0 and len(av[2]) > 0 and accepts_first(list(av[2])[0], char)
    if op is C.BRANCH:
        return any(len(b) > 0 and accepts_first(list(b)[0], char) for b in av[1])
    return cls_accepts(op, av, char)


def ends_safely(items, start):
    """the match ends at the end of a line, or before a character which starts the next match"""
    for op, av in reversed(items):
        if op is C.AT:
            return av in (C.AT_END, C.AT_END_LINE, C.AT_END_STRING)
        if op is C.MAX_REPEAT and av[1] is C.MAXREPEAT:
            inner = list(av[2])
            while len(inner) == 1 and inner[0][0] is C.SUBPATTERN:
                inner = list(inner[0][1][3])
            alts = [list(b) for b in inner[0][1][1]] if len(inner) == 1 and inner[0][0] is C.BRANCH else [inner]
            if any(len(a) == 1 and cls_accepts(*a[0], WORDY) and all(cls_accepts(*a[0], c) or accepts_first(start, c) for c in PUNCT + " \t") for a in alts):
                return True
            if av[0] == 0:
                continue
        if op is C.MIN_REPEAT and av[0] == 0:
            continue
        if op is C.SUBPATTERN:
            return ends_safely(list(av[3]), start)
        if op is C.BRANCH:
            return all(ends_safely(list(b), start) for b in av[1])
        return False
    return False


def no_gap(info):
    """why no letter can be between two matches (None: it can)"""
    bs = branches(info)
    if any(covers(b) for b in bs):
        return "an alternative matches every character"
    for b in bs:
        k = 0
        while k < len(b) and (b[k][0] is C.AT or b[k][0] in (C.MAX_REPEAT, C.MIN_REPEAT) and b[k][1][0] == 0 and not starts_with_word(list(b[k][1][2]))):
            k += 1
        if k < len(b) and not starts_with_word(b[k:k + 1]) and starts_with_word(b[k + 1:]) and ends_safely(b, b[k]):
            return "the matches end where the next one starts"
        while k < len(b) and b[k][0] is C.SUBPATTERN:
            b = list(b[k][1][3]) + b[k + 1:]
            k = 0
            while k < len(b) and b[k][0] in (C.MAX_REPEAT, C.MIN_REPEAT) and b[k][1][0] == 0:
                k += 1
            if k < len(b) and not starts_with_word(b[k:k + 1]) and starts_with_word(b[k + 1:]) and ends_safely(b, b[k]):
                return "the matches end where the next one starts"
    return None


def assume(flows):
    known = assumption(flows)

    def h(st, atom, value):
        known(st, atom, value)
        if atom[0] == "truth" and value is False:
            for k in stored_keys(atom[1:]):
                if k[0] in ("group", "arg", "input"):
                    st.facts[("stored",) + k] = True      # there is no text
    return h


def escaped_place(op):
    """the replaced text can not be text of the markup, which is escaped"""
    return op[0] in ("replace", "replace-by") and len(op) > 1 and "<" in str(op[1].v if isinstance(op[1], Const) else op[1])


class TreeFlow(Flow):
    def hole(self, h, star):
        if isinstance(h, Hole) and any(escaped_place(o) for o in h.ops):
            h = Hole(h.src, tuple(o for o in h.ops if not escaped_place(o)))
        return super().hole(h, star)


def creole(label, kw):
    def t(rep, repo):
        I = make(repo)
        bodies, created, matches, current, calls = {}, {}, {}, {}, set()

        def body(I, fi, ctx, env, res):
            if len(ctx) == 1 and ctx[0][0] == "tab":
                bodies[ctx] = (fi, env, res)

        def stored(st, v, ref):
            return frozenset(k for k in stored_keys(v) if whole(k, v))

        def rec(I, data, st, node):
            for p, v in data[1].items():
                if is_str(v) and any(k[0] in ("group", "arg", "input") for k in stored_keys(v)):
                    calls.add((data[0][0][:2], p))

        def judge(I, rx, ref, r, s, node):
            o = s.heap[ref.id]
            kept = set()
            for g, v in o.entries.items():
                if not isinstance(g, Const):
                    continue
                h = I.single_hole(v) if is_str(v) else None
                d = s.dom.get(h) if h is not None else None
                if v == NONE or isinstance(v, Const) or d is not None and d[0] == "in":
                    kept.add(g.v)
                elif any(k[0] == "stored" and k[1] == "group" and k[2][:2] == (rx, g.v) for k in s.facts):
                    kept.add(g.v)
                else:
                    flow = Flow(lambda h: bool(h.src) and h.src[0] == "re" and h.src[1] == rx and h.src[2] == g.v)
                    has, loss = flow.value(r)
                    if has and not loss or any(d[0] == "in" and all(isinstance(x, str) and not x.strip() for x in d[1]) and isinstance(h, V) and flow.inner(h)[0] for h, d in s.dom.items()):
                        kept.add(g.v)
            matches.setdefault((rx, ":".join(map(str, I.site(node)[:2]))), set()).add((r, frozenset(kept)))
            for o in s.heap.values():
                if o.kind == "inst" and not I.is_sym_cls(o):
                    for a, v in o.fields.items():
                        x = s.heap.get(v.id) if isinstance(v, Ref) else None
                        if x is not None and I.is_sym_cls(x) and isinstance(x.fields.get("kind"), Const):
                            current.setdefault(a, set()).add(x.fields["kind"].v)

        def match_done(I, m, s, node):
            judge(I, m[0], m[1], m[2], s, node)

        def iteration(I, v, s, node):
            if isinstance(v, Ref) and v.id in s.heap and s.heap[v.id].kind == "match" and v.id[0][:5] in ("fmatc", "cmatc"):
                judge(I, s.heap[v.id].meta["rx"], v, EMPTY, s, node)

        parents = set()

        def made(I, ref, s, node):
            o = s.heap[ref.id]
            p = o.fields.get("parent", NONE)
            c = o.fields.get("content", NONE)
            for i, me in s.heap.items():
                if me.kind == "inst" and not I.is_sym_cls(me):
                    parents.update(a for a, v in me.fields.items() if v == p and p != NONE)
            site = ":".join(map(str, I.site(node)[:2]))
            for x in p.alts if isinstance(p, Union) else (p,):
                pk = kinds_of(I, s, s.heap[x.id]) if isinstance(x, Ref) and x.id in s.heap else None
                sure = pk is not None and isinstance(s.heap[x.id].fields.get("kind"), Const)
                created[(site, kinds_of(I, s, o), is_str(c) and not isinstance(c, Const), x == NONE, pk if sure else None)] = 1

        def mutated(I, st, ref, what, node):
            own = [o for o in st.heap.values() if I.is_sym_cls(o) and o.fields.get("children") == ref]
            if not own or what in ("append", "insert", "extend"):
                return
            items = st.heap[ref.id].items
            ks = None
            if what in ("del", "pop") and items:
                last = [kinds_of(I, st, st.heap[i]) if i in st.heap else None for i in item_refs(items[-1])]
                if last and all(x and x[0] == "in" for x in last):
                    ks = ("in", frozenset().union(*[x[1] for x in last]))
                # a variable holds the node which was looked at
                seen = [st.heap[v.id] for v in st.envs.get(st.fr, {}).values() if isinstance(v, Ref) and v.id in item_refs(items[-1]) and v.id in st.heap]
                seen = [kinds_of(I, st, o) for o in seen]
                if len(seen) == 1 and (ks is None or not ks[1] <= BLANK_KINDS):
                    ks = seen[0]
            rep.add("removed nodes")
            if ks is None or ks[0] != "in" or not ks[1] <= BLANK_KINDS:
                rep.find("removed", f"{':'.join(map(str, I.site(node)[:2]))}", f"{I.site(node)}: {what} of children which can be {domtext(ks) if ks else 'anything'}, with all text in it")

        I.hooks.update({"body": body, "stored": stored, "match_done": match_done, "iteration": iteration, "created": made, "rec": rec,
                        "mutated": mutated, "assumed": assume(FLOWS()), "merge-key": merge_key})
        outs = run(I, "creole", "creole2html", (text(),), kw)
        em = emitter(rep, I, "creole2html", {c: b for c, b in bodies.items() if any(isinstance(v, Ref) and isinstance(v.id, tuple) and v.id[0] == "symarg" for v in b[1].values())})
        # the nodes
        childless = {k: v for k, v in em.childless.items() if "macro" not in k}
        for site, ks, content, orphan, pk in created:
            rep.seen("kinds of nodes", domtext(ks))
            if orphan and ks != ("in", frozenset(["document"])):
                rep.find("parent", site, f"{site}: the node {domtext(ks)} is not in the tree")
            for k in ks[1] if ks[0] == "in" else ():
                if content and k in em.contentless and "macro" not in k:
                    rep.find("content", f"{site}:{k}", f"{site}: the text in a {k!r} node is not in what it is emitted as: {em.contentless[k]}")
            if pk:
                for k, r in childless.items():
                    if possible(pk, k):
                        rep.find("void", f"{site}:{k}", f"{site}: a {domtext(ks)} node in a {k!r} node, which is emitted as {r} without its children")
        for a in parents & set(current):
            for k in current[a] & set(childless):
                rep.find("void", f"{a}:{k}", f"what follows becomes part of the {k!r} node, which is emitted as {childless[k]} without its children (.{a})")
        # the matches
        for (rx, site), outcomes in matches.items():
            info = regex.info(rx.pattern, rx.flags)
            rep.seen("patterns", site)
            need = free_text(info)
            for r, kept in outcomes:
                for g in need:
                    rep.add("texts of matches")
                    if not any(x in kept for x in [0] + list(outer_groups(info, g))):
                        rep.find("match", f"{site}:{info.names.get(g, g)}", f"{site}: the text the regular expression matches"
                                 f"{f' in group {info.names.get(g, g)!r}' if g else ' outside of groups'} is neither stored nor passed on (result {short(r, 80)})")
            if all(r == EMPTY for r, _ in outcomes):
                why = no_gap(info)
                rep.seen("patterns without gaps", f"{site}: {why}")
                if why is None:
                    rep.find("gap", site, f"{site}: text between the matches of {rx.pattern[:60]!r}... is lost")
        # the functions texts are passed to
        for c, (fi, env, res) in bodies.items():
            for p in env:
                if ((fi.modname, fi.qual), p) in calls:
                    for s, v in res:
                        rep.add("texts passed on")
                        if isinstance(v, Raise) or ("stored", "arg", ((fi.modname, fi.qual), p)) in s.facts:
                            continue
                        f = Flow(lambda h: bool(h.src) and h.src[0] == "arg" and h.src[1:3] == ((fi.modname, fi.qual), p))
                        has, loss = f.value(v) if is_str(v) else (False, ())
                        if not has or loss:
                            rep.find("passed", f"{fi.qual}:{p}", f"{fi.qual} does not use its argument {p!r} as a whole")
        tree = TreeFlow(FLOWS()[0].wanted)
        for s, v in outs:
            if isinstance(v, Raise):
                continue
            rep.add("results")
            if ("stored", "input") not in s.facts:
                rep.find("input", "", "the markup is not parsed as a whole")
                continue
            has, loss = tree.value(v)
            if not has or loss:
                rep.find("result", "", f"the result {short(v, 120)} is not the whole tree {loss}")
        coverage(I, rep)
        if DBG:
            print("childless", em.childless); print("contentless", sorted(em.contentless)); print("contented", em.contented, "current", current, "parents", parents)
            for c in created: print("NEW", c[0], domtext(c[1]), c[2:4], c[4] and domtext(c[4]))
    return t


tasks = [("default", creole("default", {})), ("wiki line breaks, strict", creole("wiki", {"blog_line_breaks": Const(False), "strict": Const(True)}))]
