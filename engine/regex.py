"""Static facts about regular expressions, from sre's parse tree (the pattern is
parsed, never matched)."""

import functools
import re
import re._constants as C
import re._parser as P


class RxInfo:
    def __init__(self, pattern, flags):
        self.pattern = pattern
        self.flags = flags
        self.tree = P.parse(pattern, flags)
        self.groupindex = dict(self.tree.state.groupdict)
        self.ngroups = self.tree.state.groups - 1
        self.names = {n: k for k, n in self.groupindex.items()}
        self.subs = {}
        self.outer = {}
        self._collect(self.tree, None)
        self.flags = flags | self.tree.state.flags

    def _children(self, op, av):
        if op is C.SUBPATTERN:
            return [av[3]]
        if op is C.BRANCH:
            return list(av[1])
        if op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT):
            return [av[2]]
        if op in (C.ASSERT, C.ASSERT_NOT):
            return [av[1]]
        if op is C.GROUPREF_EXISTS:
            return [x for x in av[1:] if x is not None]
        if op is C.ATOMIC_GROUP:
            return [av]
        return []

    def _collect(self, sub, outer):
        for op, av in sub:
            o = outer
            if op is C.SUBPATTERN and av[0] is not None:
                self.subs[av[0]] = av[3]
                self.outer[av[0]] = outer
                o = av[0]
            for ch in self._children(op, av):
                self._collect(ch, o)

    # -- which groups take part in a match -----------------------------------
    def groups_in(self, sub):
        r = set()
        for op, av in sub:
            if op is C.SUBPATTERN and av[0] is not None:
                r.add(av[0])
            for ch in self._children(op, av):
                r |= self.groups_in(ch)
        return r

    def _cfg(self, sub):
        res = {(frozenset(), frozenset())}
        for op, av in sub:
            cur = self._cfg_item(op, av)
            res = {(p | q, m | n) for p, m in res for q, n in cur}
            if len(res) > 400:
                g = frozenset(self.groups_in(sub))
                return {(frozenset(), g)}
        return res

    def _cfg_item(self, op, av):
        none = (frozenset(), frozenset())
        if op is C.SUBPATTERN:
            c = self._cfg(av[3])
            if av[0] is not None:
                c = {(p | {av[0]}, m) for p, m in c}
            return c
        if op is C.BRANCH:
            r = set()
            for b in av[1]:
                r |= self._cfg(b)
            return r
        if op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT):
            lo, hi, p = av
            gs = self.groups_in(p)
            if not gs:
                return {none}
            c = self._cfg(p)
            if hi == 1:
                return c if lo else c | {none}
            must = frozenset.intersection(*[x[0] for x in c])
            multi = (must, frozenset(gs) - must)
            return {multi} if lo else {none, multi}
        if op is C.ASSERT:
            return self._cfg(av[1])
        if op is C.GROUPREF_EXISTS:
            r = set()
            for b in av[1:]:
                r |= self._cfg(b) if b is not None else {none}
            return r
        if op is C.ATOMIC_GROUP:
            return self._cfg(av)
        return {none}

    @functools.cached_property
    def configs(self):
        cs = self._cfg(self.tree)
        return sorted(((p, m - p) for p, m in cs), key=lambda c: (sorted(c[0]), sorted(c[1])))

    # -- what a group can match ----------------------------------------------
    def num(self, g):
        if isinstance(g, int):
            return g if 0 <= g <= self.ngroups else None
        return self.groupindex.get(g)

    def min_width(self, g):
        sub = self.tree if g == 0 else self.subs[g]
        try:
            return sub.getwidth()[0]
        except Exception:
            return 0

    def max_width(self, g):
        sub = self.tree if g == 0 else self.subs[g]
        try:
            return sub.getwidth()[1]
        except Exception:
            return 10 ** 9

    def charset(self, g):
        """finite set of characters the group consists of, 'digit' for \\d, or None"""
        sub = self.tree if g == 0 else self.subs[g]
        try:
            return self._chars(sub)
        except KeyError:
            return None

    def _chars(self, sub):
        r = set()
        for op, av in sub:
            if op is C.LITERAL:
                r.add(chr(av))
            elif op is C.IN:
                r |= self._in(av)
            elif op in (C.ASSERT, C.ASSERT_NOT, C.AT):
                continue
            elif op in (C.ANY, C.NOT_LITERAL, C.GROUPREF):
                raise KeyError
            else:
                for ch in self._children(op, av):
                    r |= self._chars(ch)
        return r

    def _in(self, av):
        r = set()
        for op, a in av:
            if op is C.LITERAL:
                r.add(chr(a))
            elif op is C.RANGE:
                if a[1] - a[0] > 300:
                    raise KeyError
                r |= {chr(i) for i in range(a[0], a[1] + 1)}
            elif op is C.CATEGORY and a is C.CATEGORY_DIGIT:
                r.add("\\d")
            elif op is C.CATEGORY and a is C.CATEGORY_SPACE:
                r |= set(" \t\n\r\x0b\x0c")
            else:
                raise KeyError
        return r

    def literal_only(self, g):
        cs = self.charset(g)
        return cs

    def int_range(self, g):
        """bounds of a decimal number made of at most four listed digits"""
        cs = self.charset(g)
        n = self.max_width(g)
        if not cs or n > 4 or not all(c in "0123456789" for c in cs):
            return None
        ds = sorted(int(c) for c in cs)
        return int(str(ds[0]) * max(self.min_width(g), 1)), int(str(ds[-1]) * n)

    def is_number(self, g, base):
        cs = self.charset(g)
        if cs is None or self.min_width(g) < 1:
            return False
        ok = set("0123456789") if base == 10 else set("0123456789abcdefABCDEF")
        return all(c == "\\d" or c in ok for c in cs)


@functools.lru_cache(None)
def info(pattern, flags):
    return RxInfo(pattern, flags)
