"""Can a regular expression backtrack exponentially?  Decided on the position automaton of its parse tree:
exponential backtracking needs a state with two different ways over the same text back to itself (EDA), and a
continuation that can fail.  States from which the match can always be finished without reading on end the
search, so they are left out."""
import re
import re._constants as C
import re._parser as P

SAMPLE = [chr(i) for i in range(128)] + list("\x85\xa0éßİıſK\u0660\u2003\u2028\u4e2d\U0001f600")
ALL = frozenset(SAMPLE)
COPIES = 8
CATS = {C.CATEGORY_DIGIT: r"\d", C.CATEGORY_NOT_DIGIT: r"\D", C.CATEGORY_SPACE: r"\s", C.CATEGORY_NOT_SPACE: r"\S",
        C.CATEGORY_WORD: r"\w", C.CATEGORY_NOT_WORD: r"\W"}


class Frag:
    """first/last: position -> number of ways, null: the ways to read nothing"""

    def __init__(self, first=None, last=None, null=0):
        self.first, self.last, self.null = first or {}, last or {}, min(null, 2)


class Automaton:
    """`done`: what follows can always be finished without reading on, so arriving there ends the search"""

    def __init__(self, pattern, flags=0, full=False):
        self.sets = []
        self.follow = {}
        self.subs = []
        tree = P.parse(pattern, flags)
        self.flags = flags | tree.state.flags
        self.seq(list(tree), self.flags, not full)

    # ----------------------------------------------------------- construction
    def pos(self, chars):
        self.sets.append(frozenset(chars))
        p = len(self.sets) - 1
        self.follow[p] = {}
        return Frag({p: 1}, {p: 1})

    def link(self, last, first):
        for p, n in last.items():
            for q, m in first.items():
                self.follow[p][q] = min(2, self.follow[p].get(q, 0) + n * m)

    def cat(self, a, b, done):
        """done: the point between a and b ends the search"""
        r = Frag(dict(a.first), dict(b.last), a.null * b.null)
        if not done:
            self.link(a.last, b.first)
        if a.null:
            for p, n in b.first.items():
                r.first[p] = min(2, r.first.get(p, 0) + n * a.null)
        if b.null:
            for p, n in a.last.items():
                r.last[p] = min(2, r.last.get(p, 0) + n * b.null)
        return r

    def alt(self, frags):
        r = Frag()
        for f in frags:
            for d, e in ((r.first, f.first), (r.last, f.last)):
                for p, n in e.items():
                    d[p] = min(2, d.get(p, 0) + n)
            r.null = min(2, r.null + f.null)
        return r

    def free(self, items):
        """can the items be passed without reading and without an assertion?"""
        for op, av in items:
            if op is C.SUBPATTERN:
                ok = self.free(av[3])
            elif op is C.BRANCH:
                ok = any(self.free(x) for x in av[1])
            elif op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT):
                ok = av[0] == 0 or self.free(av[2])
            else:
                ok = False
            if not ok:
                return False
        return True

    def seq(self, items, flags, done):
        items = list(items)
        r = Frag(null=1)
        for i, (op, av) in enumerate(items):
            here = done and self.free(items[i:])
            after = done and self.free(items[i + 1:])
            r = self.cat(r, self.node(op, av, flags, after), here)
        return r

    def repeat(self, lo, hi, sub, flags, done):
        often = hi == C.MAXREPEAT or hi > COPIES
        lo = min(lo, COPIES)
        n = lo if often else hi
        skip = self.free(sub)
        r = Frag(null=1)
        for i in range(min(n, lo)):
            r = self.cat(r, self.seq(sub, flags, done and (i + 1 >= lo or skip)), done and skip)
        opt = Frag(null=1)
        for i in range(n - lo):
            # x(x(x)?)?
            opt = self.cat(self.seq(sub, flags, done), opt, done)
            opt.null = 1
        r = self.cat(r, opt, done)
        if often:
            f = self.seq(sub, flags, done)
            if not done:
                self.link(f.last, f.first)
            f.null = 1
            r = self.cat(r, f, done)
        return r

    def chars(self, op, av, flags):
        esc = None
        if op is C.LITERAL:
            esc = {chr(av)}
        elif op is C.NOT_LITERAL:
            esc = {chr(av)}
        if esc is not None:
            c = next(iter(esc))
            if flags & re.IGNORECASE:
                esc = {x for x in SAMPLE if re.fullmatch(re.escape(c), x, flags & (re.IGNORECASE | re.ASCII))} | esc
            return frozenset(ALL - esc) if op is C.NOT_LITERAL else frozenset(esc)
        if op is C.ANY:
            return ALL if flags & re.DOTALL else ALL - {"\n"}
        if op is C.CATEGORY:
            return frozenset(x for x in SAMPLE if re.fullmatch(CATS[av], x, flags & re.ASCII))
        if op is C.RANGE:
            r = {x for x in SAMPLE if av[0] <= ord(x) <= av[1]} | {chr(av[0]), chr(av[1])}
            if flags & re.IGNORECASE:
                r |= {x.lower() for x in r} | {x.upper() for x in r if len(x.upper()) == 1}
            return frozenset(r)
        if op is C.IN:
            neg = av and av[0][0] is C.NEGATE
            r = frozenset().union(*[self.chars(o, a, flags) for o, a in av if o is not C.NEGATE])
            return ALL - r if neg else r
        raise ValueError(f"unknown regular expression construct {op}")

    def node(self, op, av, flags, done):
        if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN, C.CATEGORY, C.RANGE):
            return self.pos(self.chars(op, av, flags))
        if op is C.SUBPATTERN:
            return self.seq(av[3], (flags | av[1]) & ~av[2], done)
        if op is C.BRANCH:
            return self.alt([self.seq(b, flags, done) for b in av[1]])
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            return self.repeat(av[0], av[1], av[2], flags, done)
        if op in (C.ATOMIC_GROUP, C.POSSESSIVE_REPEAT):
            # no way back into it: one state which reads anything
            f = self.pos(ALL)
            self.link(f.last, f.first)
            f.null = 1
            return f
        if op is C.GROUPREF:
            f = self.pos(ALL)
            self.link(f.last, f.first)
            f.null = 1
            return f
        if op is C.GROUPREF_EXISTS:
            return self.alt([self.seq(x, flags, done) if x is not None else Frag(null=1) for x in av[1:]])
        if op in (C.ASSERT, C.ASSERT_NOT):
            self.subs.append((av[1], flags))
            return Frag(null=1)
        if op is C.AT:
            return Frag(null=1)
        if op is C.FAILURE:
            return Frag()
        raise ValueError(f"unknown regular expression construct {op}")

    # ------------------------------------------------------------- ambiguity
    def exponential(self):
        """(position, word) with two ways over the word from the position to itself, or None"""
        nodes = list(self.follow)
        keep = set(nodes)
        succ = {p: {q for q in self.follow[p] if q in keep} for p in nodes}
        comp = scc(nodes, succ)
        for p in nodes:
            for q in succ[p]:
                if comp[p] == comp[q] and self.follow[p][q] > 1:
                    return p, sorted(self.sets[q])[:1]
        for group in {}.fromkeys(comp.values()):
            members = [p for p in nodes if comp[p] == group]
            if len(members) < 2:
                continue
            ms = set(members)
            start = [(p, p) for p in members]
            # the product of the component with itself
            edges, seen, todo = {}, set(start), list(start)
            while todo:
                a, b = todo.pop()
                e = edges[(a, b)] = []
                for x in succ[a] & ms:
                    for y in succ[b] & ms:
                        if self.sets[x] & self.sets[y]:
                            e.append((x, y))
                            if (x, y) not in seen:
                                seen.add((x, y))
                                todo.append((x, y))
            pc = scc(list(seen), {k: set(v) for k, v in edges.items()})
            diag = {pc[(p, p)]: p for p in members}
            for (a, b), c in pc.items():
                if a != b and c in diag:
                    return diag[c], sorted(self.sets[diag[c]])[:1]
        return None


def scc(nodes, succ):
    """component number of each node (Tarjan, iterative)"""
    index, low, comp, stack, on = {}, {}, {}, [], set()
    n = 0
    for root in nodes:
        if root in index:
            continue
        work = [(root, iter(succ.get(root, ())))]
        index[root] = low[root] = n
        n += 1
        stack.append(root)
        on.add(root)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in index:
                    index[w] = low[w] = n
                    n += 1
                    stack.append(w)
                    on.add(w)
                    work.append((w, iter(succ.get(w, ()))))
                    break
                if w in on:
                    low[v] = min(low[v], index[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == index[v]:
                    while True:
                        w = stack.pop()
                        on.discard(w)
                        comp[w] = v
                        if w == v:
                            break
    return comp


def exponential(pattern, flags=0, full=False):
    a = Automaton(pattern, flags, full)
    r = a.exponential()
    subs = list(a.subs)
    while r is None and subs:
        sub, fl = subs.pop()
        b = Automaton("", 0)
        b.seq(sub, fl, True)
        r = b.exponential()
        subs += b.subs
    return r, len(a.sets)
