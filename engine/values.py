"""Abstract values of the interpreter.

All values are immutable and hashable, mutable objects live in the abstract
heap of a State and are denoted by Ref(id).
"""


class V:
    __slots__ = ()


class Const(V):
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return o.__class__ is Const and type(o.v) is type(self.v) and o.v == self.v

    def __hash__(self):
        return hash((type(self.v).__name__, self.v))

    def __repr__(self):
        return f"{self.v!r}"


NONE = Const(None)
TRUE = Const(True)
FALSE = Const(False)
EMPTY = Const("")


class _Tup(V):
    """structural value base: equality on the tuple of its fields"""
    __slots__ = ("_k", "_h", "_r", "_hs", "_ss", "_sy", "_th")
    NAMES = ()
    LEAF = False

    def __init__(self, *a):
        self._k = a
        self._h = hash((self.__class__.__name__,) + a)

    def __eq__(self, o):
        return self is o or (o.__class__ is self.__class__ and self._h == o._h and self._k == o._k)

    def __hash__(self):
        return self._h

    def __repr__(self):
        return f"{self.__class__.__name__}{self._k!r}"


def _field(i):
    return property(lambda self: self._k[i])


class Hole(_Tup):
    """an unknown string: where it comes from, and which operations were applied"""
    LEAF = True
    __slots__ = ()
    src = _field(0)
    ops = _field(1)

    def __init__(self, src, ops=()):
        super().__init__(src, ops)

    def __repr__(self):
        o = "".join(f".{op[0]}{op[1:]!r}" for op in self.ops)
        return f"⟦{self.src!r}{o}⟧"


class Star(_Tup):
    """repetition: for every element of `origin` (in order) one of `alts` (tuples
    of parts).  each=False: an unknown number of repetitions."""
    LEAF = True
    __slots__ = ()
    origin = _field(0)
    alts = _field(1)
    each = _field(2)

    def __repr__(self):
        return f"({'|'.join(map(repr, self.alts))}){'*' if self.each else '**'}"


class Empty(_Tup):
    """an empty string which stands for a text known to be empty (payload)"""
    LEAF = True
    __slots__ = ()
    of = _field(0)


class Str(_Tup):
    """string template, parts: str | Hole | Star | Empty"""
    LEAF = True
    __slots__ = ()
    parts = _field(0)

    def __repr__(self):
        return "S" + repr(self.parts)


class Num(_Tup):
    """an unknown integer (src) inside [lo, hi] (None: unbounded)"""
    LEAF = True
    __slots__ = ()
    src = _field(0)
    lo = _field(1)
    hi = _field(2)


class TupV(_Tup):
    __slots__ = ()
    items = _field(0)


class Ref(_Tup):
    __slots__ = ()
    id = _field(0)

    def __repr__(self):
        i = self._k[0]
        return f"<{i[0] if isinstance(i, tuple) else i}#{self._h & 0xffff:x}>"


class FuncV(_Tup):
    """fid: key into interp.functions; closure: env ids innermost first"""
    __slots__ = ()
    fid = _field(0)
    closure = _field(1)
    defaults = _field(2)    # tuple of (name, V)
    cls = _field(3)         # ClassV key of the defining class or None

    def __repr__(self):
        return f"<func {self._k[0]}>"


class BoundV(_Tup):
    __slots__ = ()
    func = _field(0)
    self = _field(1)


class ClassV(_Tup):
    LEAF = True
    __slots__ = ()
    key = _field(0)         # (module, qualname)

    def __repr__(self):
        return f"<class {'.'.join(self._k[0])}>"


class ModV(_Tup):
    LEAF = True
    __slots__ = ()
    name = _field(0)


class ExtV(_Tup):
    """something outside the analysed package, by canonical dotted name"""
    LEAF = True
    __slots__ = ()
    name = _field(0)

    def __repr__(self):
        return f"<ext {self._k[0]}>"


class Meth(_Tup):
    """a method of a builtin/external value"""
    __slots__ = ()
    obj = _field(0)
    name = _field(1)


class Partial(_Tup):
    __slots__ = ()
    func = _field(0)
    args = _field(1)
    kwargs = _field(2)


class Wrap(_Tup):
    """decorator wrappers: kind in property/static/class/ctxmgr"""
    __slots__ = ()
    kind = _field(0)
    func = _field(1)


class RxV(_Tup):
    """compiled regular expression with constant pattern"""
    LEAF = True
    __slots__ = ()
    pattern = _field(0)
    flags = _field(1)

    def __repr__(self):
        return f"<rx {self._k[0][:20]!r}>"


class Unk(_Tup):
    """a value we know nothing about but where it comes from"""
    LEAF = True
    __slots__ = ()
    src = _field(0)


class Union(_Tup):
    """only stored in slots (variables, fields, elements); resolved at read"""
    __slots__ = ()
    alts = _field(0)


class ExcV(_Tup):
    """an exception instance"""
    LEAF = True
    __slots__ = ()
    cls = _field(0)         # dotted name for external, ClassV for repo classes
    args = _field(1)
    site = _field(2)        # (file, line, function)
    why = _field(3)


class LStar(_Tup):
    """list item: repetition of one of `alts` (tuples of items) per element of origin"""
    __slots__ = ()
    origin = _field(0)
    alts = _field(1)
    each = _field(2)


class Raise(_Tup):
    __slots__ = ()
    exc = _field(0)


class Slice(_Tup):
    __slots__ = ()


# ---------------------------------------------------------------------------

def mk_parts(parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            if not p:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
                continue
        elif isinstance(p, Star) and all(not a for a in p.alts):
            continue
        out.append(p)
    return tuple(out)


def mk_str(parts):
    parts = mk_parts(parts)
    if not parts:
        return EMPTY
    if len(parts) == 1 and isinstance(parts[0], str):
        return Const(parts[0])
    return Str(parts)


def hole(src, *ops):
    return Str((Hole(src, tuple(ops)),))


def parts_of(v):
    """parts of a Const str / Str"""
    if isinstance(v, Const):
        assert isinstance(v.v, str), v
        return (v.v,) if v.v else ()
    return v.parts


def is_str(v):
    return isinstance(v, Str) or (isinstance(v, Const) and isinstance(v.v, str))


def is_int(v):
    return isinstance(v, Num) or (isinstance(v, Const) and isinstance(v.v, int))


def walk(x):
    """every value / part / tuple element reachable structurally"""
    stack = [x]
    while stack:
        y = stack.pop()
        yield y
        if isinstance(y, _Tup):
            stack.extend(y._k)
        elif isinstance(y, (tuple, frozenset, list)):
            stack.extend(y)
        elif isinstance(y, Const):
            pass


NOREFS = frozenset()


def refs(x):
    """ids of the heap objects a value refers to (provenance descriptions excluded)"""
    if isinstance(x, _Tup):
        try:
            return x._r
        except AttributeError:
            pass
        if x.LEAF:
            r = NOREFS
        elif isinstance(x, Ref):
            r = frozenset([x._k[0]])
        else:
            r = NOREFS
            for y in x._k:
                q = refs(y)
                if q:
                    r = r | q
        x._r = r
        return r
    if isinstance(x, (tuple, frozenset)):
        r = NOREFS
        for y in x:
            q = refs(y)
            if q:
                r = r | q
        return r
    return NOREFS


def holes_in(x):
    """every hole inside of a value (also the ones inside of provenance descriptions)"""
    if isinstance(x, _Tup):
        try:
            return x._hs
        except AttributeError:
            pass
        r = (x,) if isinstance(x, Hole) else ()
        for y in x._k:
            if isinstance(y, (_Tup, tuple, frozenset, list)):
                q = holes_in(y)
                if q:
                    r += q
        if len(r) > 1:
            r = tuple(dict.fromkeys(r))
        x._hs = r
        return r
    if isinstance(x, (tuple, frozenset, list)):
        r = ()
        for y in x:
            if isinstance(y, (_Tup, tuple, frozenset, list)):
                r += holes_in(y)
        return tuple(dict.fromkeys(r)) if len(r) > 1 else r
    return ()


def top_holes(s):
    """the holes a string is made of"""
    if not isinstance(s, (Str, Star)):
        return NOREFS
    try:
        return s._th
    except AttributeError:
        pass
    out = set()
    for p in s.parts if isinstance(s, Str) else [p for a in s.alts for p in a]:
        if isinstance(p, Hole):
            out.add(p)
        elif isinstance(p, Star):
            out |= top_holes(p)
    s._th = r = frozenset(out)
    return r


NONE_SET = frozenset()
_SRCS = {}
_SYMS = {}


def srcs_in(x):
    """the sources of everything unknown inside of a value"""
    if isinstance(x, _Tup):
        try:
            return x._ss
        except AttributeError:
            pass
        r = NONE_SET
        if isinstance(x, (Hole, Num, Unk)):
            r = frozenset([x._k[0]])
        for y in x._k:
            if isinstance(y, (_Tup, tuple, frozenset)):
                q = srcs_in(y)
                if q:
                    r = r | q
        x._ss = r
        return r
    if isinstance(x, (tuple, frozenset)):
        r = _SRCS.get(x)
        if r is None:
            r = NONE_SET
            for y in x:
                if isinstance(y, (_Tup, tuple, frozenset)):
                    q = srcs_in(y)
                    if q:
                        r = r | q
            _SRCS[x] = r
        return r
    return NONE_SET


def syms_in(x):
    """identities of symbolic objects mentioned anywhere inside of a value"""
    if isinstance(x, _Tup):
        try:
            return x._sy
        except AttributeError:
            pass
        r = NONE_SET
        for y in x._k:
            if isinstance(y, (_Tup, tuple)):
                q = syms_in(y)
                if q:
                    r = r | q
        x._sy = r
        return r
    if isinstance(x, tuple):
        r = _SYMS.get(x)
        if r is None:
            r = frozenset([x]) if x and isinstance(x[0], str) and x[0].startswith("sym") else NONE_SET
            for y in x:
                if isinstance(y, (_Tup, tuple)):
                    q = syms_in(y)
                    if q:
                        r = r | q
            _SYMS[x] = r
        return r
    return NONE_SET
