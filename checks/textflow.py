"""Does a string template the emitter returns still contain the texts it is made of?"""
from .common import *  # noqa
from engine.values import refs

REC = ("rec", "recany", "arg")
KEEPS = {"strip", "lstrip", "rstrip", "lower", "upper", "title", "capitalize", "casefold", "swapcase", "pad", "escape", "quote",
         "json", "encode", "decode", "ljust", "rjust", "center", "expandtabs", "zfill", "indent", "map", "clean", "call", "str"}
CUTS = {"index", "slice", "slice1", "piece", "partition", "split", "tag-cut", "removeprefix", "removesuffix"}
PIECES = {"piece", "word", "line", "char", "split-head", "rsplit-head", "findall", "elem"}


def wordy(t):
    return not isinstance(t, str) or any(c.isalnum() for c in t)


def op_loses(op):
    k = op[0]
    if k in ("strip", "lstrip", "rstrip"):
        return any(wordy(a.v if isinstance(a, Const) else a) for a in op[1:] if a is not None and a != NONE)
    if k == "replace" and len(op) >= 3:
        a, b = (x.v if isinstance(x, Const) else x for x in op[1:3])
        return wordy(a) and not (isinstance(a, str) and isinstance(b, str) and a in b)
    return k in CUTS


class Flow:
    """wanted(hole): is this the text we look for?"""

    def __init__(self, wanted):
        self.wanted = wanted
        self.memo = {}

    def value(self, v):
        """(contains the text, [losses])"""
        if isinstance(v, Const) or not isinstance(v, V):
            return False, ()
        if isinstance(v, (Hole, Star)):
            return self.parts((v,))
        if is_str(v):
            return self.parts(parts_of(v))
        return False, ()

    def inner(self, x, depth=0):
        """does a provenance description contain the text?"""
        if isinstance(x, Const):
            return False, ()
        if isinstance(x, (Hole, Star, Str)):
            return self.value(x)
        has, loss = False, ()
        if isinstance(x, _ITER) or hasattr(x, "_k"):
            for y in (x._k if hasattr(x, "_k") else x):
                h, l = self.inner(y, depth + 1)
                has = has or h
                if h:
                    loss = loss + tuple(z for z in l if z not in loss)
        return has, loss

    def hole(self, h, star):
        k = ("h", h, star)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = (False, ())
        src = h.src
        loss = ()
        if self.wanted(h):
            has = True
        elif isinstance(src, tuple) and src:
            has, loss = self.inner(src[1:])
            if has and src[0] in PIECES and not star:
                loss = loss + (f"only a part ({src[0]}) is kept",)
        else:
            has = False
        if has:
            for op in h.ops:
                if op_loses(op) and not (star and op[0] in ("piece", "split")):
                    loss = loss + (f"{op[0]}{tuple(op[1:])!r:.60} cuts the text",)
        self.memo[k] = has, loss
        return has, loss

    def parts(self, parts, star=False):
        """one part which keeps the text is enough"""
        has, loss, clean = False, (), False
        whole = sum(1 for p in parts if isinstance(p, Hole) and p.src and (p.src[0] in PIECES or any(o[0] in ("piece", "partition") for o in p.ops)))
        for p in parts:
            if isinstance(p, Hole):
                h, l = self.hole(p, star or whole > 1)
            elif isinstance(p, Star):
                h, l = self.star(p)
            else:
                continue
            has = has or h
            clean = clean or h and not l
            if h:
                loss = loss + l
        return has, () if clean else loss

    def star(self, s):
        k = ("s", s)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = (False, ())
        has, loss, without = False, (), []
        o = s.origin if isinstance(s.origin, tuple) and s.origin else ("",)
        resub = o[0] == "resub"
        if resub:
            has, loss = self.inner(o[2])
        for a in s.alts:
            h, l = self.parts(a, True)
            if h:
                has, loss = True, loss + l
            elif resub:
                continue        # the matches are judged where they are replaced
            elif not any(isinstance(p, Empty) for p in a):
                without.append(a)
        if has and without and not s.each and o[0] not in ("resub", "slice"):
            has, loss = False, ()      # a list which other nodes fill too
        if has and without:
            loss = loss + (f"some of the texts are dropped or replaced by {short(without[0], 80)}",)
        if has and o[0] == "slice":
            loss = loss + ("only a slice of the texts is kept",)
        self.memo[k] = has, loss
        return has, loss


_ITER = (tuple, frozenset, list)


def reachable(st, roots):
    seen, todo = set(), list(roots)
    while todo:
        i = todo.pop()
        if i in seen or i not in st.heap:
            continue
        seen.add(i)
        o = st.heap[i]
        for v in list(o.fields.values()) + list(o.entries.values()) + list(o.items) + [w for p in o.weak for w in p]:
            todo.extend(item_refs(v))
    return seen


def item_refs(v):
    if isinstance(v, LStar):
        return [r for a in v.alts for x in a for r in item_refs(x)]
    return list(refs(v))
