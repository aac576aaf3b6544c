"""Abstract interpreter for the Python source of the analysed package.

The deciding machinery of all checks: module sources are parsed (never imported
or executed); statements are interpreted over the abstract domain of values.py,
with trace partitioning on undecided branch conditions, widening at loops, and
tabulated summaries for (mutually) recursive functions.
"""

import ast
import builtins
import os

from . import regex
from .values import (
    EMPTY, FALSE, NONE, TRUE, BoundV, ClassV, Const, Empty, ExcV, ExtV, FuncV, Hole, LStar, Meth,
    ModV, Num, Partial, Raise, Ref, RxV, Star, Str, TupV, Union, Unk, Wrap, hole, holes_in, srcs_in, syms_in, top_holes, is_int,
    is_str, mk_str, parts_of, refs, walk,
)


DEBUG_LOOPS = bool(os.environ.get("VERIF_VERBOSE"))


def escapes(inner, outer):
    """is the nested function used for anything but being called?"""
    if not isinstance(inner, ast.FunctionDef) or inner.decorator_list:
        return True
    called = {id(n.func) for n in ast.walk(outer) if isinstance(n, ast.Call)}
    if any(isinstance(n, (ast.Lambda, ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and n is not inner for n in ast.walk(inner)):
        return True
    return any(isinstance(n, ast.Name) and n.id == inner.name and id(n) not in called for n in ast.walk(outer))


def join_members(strs):
    """the sources of several strings, operations on a joined value are those of its members"""
    top = set()
    for s in strs:
        top |= top_holes(s)
    hs = set()
    for h in top:
        if h.src[0] == "join" and len(h.src) == 3:
            n = len(h.ops)
            for m in h.src[2]:
                if n and m.ops[-n:] != h.ops and len(m.ops) + n <= 8:
                    m = Hole(m.src, m.ops + h.ops)
                hs.add(m)
        else:
            hs.add(h)
    return frozenset(hs)


ENV_REFS = {}
_id = id
LAZY = ("symof", "symlist", "symelem", "symdict", "symset")
TEMPORARY = {"listcomp", "genexp", "setcomp", "dictcomp", "groupdict"}


class AnalysisError(Exception):
    """the analysis itself cannot give an answer"""


class Restart(Exception):
    pass


class TooComplex(AnalysisError):
    pass


MAX_STATES = 600
MERGE_CALL = 40
MERGE_HEAP = 250
MAX_STEPS = 4_000_000


class HObj:
    __slots__ = ("kind", "cls", "fields", "items", "entries", "weak", "absent", "meta", "_rs")

    def __init__(self, kind, cls=None, fields=None, items=(), entries=None, weak=(), absent=frozenset(),
                 meta=None):
        self.kind = kind
        self.cls = cls
        self.fields = fields if fields is not None else {}
        self.items = items
        self.entries = entries if entries is not None else {}
        self.weak = weak
        self.absent = absent
        self.meta = meta if meta is not None else {}

    def clone(self):
        return HObj(self.kind, self.cls, dict(self.fields), self.items, dict(self.entries), self.weak,
                    self.absent, dict(self.meta))

    def refset(self):
        """ids referred to; cached as long as no slot was replaced"""
        try:
            c = self._rs
            if c[0] == len(self.fields) and c[1] == len(self.entries) and c[2] is self.items and c[3] is self.weak:
                return c[4]
        except AttributeError:
            pass
        r = set(refs(self.items)) | refs(self.weak)
        for v in self.fields.values():
            r |= refs(v)
        for k, v in self.entries.items():
            r |= refs(k) | refs(v)
        self._rs = (len(self.fields), len(self.entries), self.items, self.weak, r)
        return r

    def same(self, o):
        return (self.kind == o.kind and self.cls == o.cls and self.fields == o.fields
                and self.items == o.items and self.entries == o.entries
                and list(self.entries) == list(o.entries)
                and self.weak == o.weak and self.absent == o.absent
                and (self.meta == o.meta or {k: v for k, v in self.meta.items() if v is not None}
                     == {k: v for k, v in o.meta.items() if v is not None}))

    def __repr__(self):
        return f"HObj({self.kind},{self.cls},{self.fields or ''}{self.items or ''}{self.entries or ''}{self.weak or ''})"


class State:
    __slots__ = ("envs", "heap", "dom", "facts", "trace", "fr")

    def __init__(self):
        self.envs = {}
        self.heap = {}
        self.dom = {}       # Hole -> ('in'|'notin', frozenset of str) ; Num src -> (lo, hi)
        self.facts = {}     # atom -> bool
        self.trace = ()
        self.fr = None

    def copy(self):
        s = State()
        s.envs = {k: v for k, v in self.envs.items()}
        s.heap = dict(self.heap)
        s.dom = dict(self.dom)
        s.facts = dict(self.facts)
        s.trace = self.trace
        s.fr = self.fr
        return s

    # environments are copied on write
    def setvar(self, env, name, v):
        e = dict(self.envs[env])
        e[name] = v
        self.envs[env] = e

    def delvar(self, env, name):
        e = dict(self.envs[env])
        e.pop(name, None)
        self.envs[env] = e

    def mut(self, id):
        o = self.heap[id].clone()
        self.heap[id] = o
        return o

    def key(self):
        return (self.fr, tuple(sorted((repr(k), tuple(v.items())) for k, v in self.envs.items())))


class Frame:
    """static context of the running function"""

    def __init__(self, func, node, env, ctx, selfv, modname, clskey):
        self.func = func
        self.node = node
        self.env = env
        self.ctx = ctx
        self.selfv = selfv
        self.modname = modname
        self.clskey = clskey
        self.yield_hook = None
        self.exc = []           # active exception (for bare raise / sys.exc_info)


class FuncInfo:
    def __init__(self, fid, node, modname, qual, clskey):
        self.fid = fid
        self.node = node
        self.modname = modname
        self.qual = qual
        self.clskey = clskey
        self.locals = None
        self.globals = set()
        self.nonlocals = set()
        self.is_gen = False
        self.has_nested = False


class Summary:
    def __init__(self):
        self.entry = None       # joined entry State (heap, no frames but args env)
        self.args = None
        self.outs = {}          # shape -> value
        self.exit = None        # joined exit State
        self.excs = {}
        self.version = 0
        self.traces = set()


BUILTIN_EXC = {n: c for n, c in vars(builtins).items() if isinstance(c, type) and issubclass(c, BaseException)}


def mangle(name, clskey):
    if clskey and name.startswith("__") and not name.endswith("__"):
        return f"_{clskey[1].split('.')[-1].lstrip('_')}{name}"
    return name


class Interp:
    def __init__(self, root, package, sym_class=None, exclude=()):
        self.root = root
        self.package = package
        self.exclude = exclude
        self.sources = {}
        self.trees = {}
        self.functions = {}
        self._nonlocals = {}
        self.classes = {}       # key -> dict(bases, env, mro)
        self.sym_class = sym_class
        self.tab = set()
        self.summ = {}
        self.stack = []         # (key, fid, call node)
        self.frames = []
        self.records = []       # sym class records
        self.raws = {}          # (index of a record, field) -> {string: state}
        self.confirmed = set()  # indices of records which were observable
        self.record_keys = {}
        self.events = {}
        self.hooks = {}
        self.steps = 0
        self.changed = False
        self.loaded = {}
        self.loading = []
        self.widen_info = {}
        self.analysed = set()
        self.unmodelled = {}
        self.state0 = State()
        self.modloading = False
        self.ignore_exc = set()
        self.verbose = bool(os.environ.get("VERIF_VERBOSE"))
        from . import models
        self.models = models.Models(self)

    # ------------------------------------------------------------------ loading
    def modfile(self, name):
        p = os.path.join(self.root, *name.split("."))
        if os.path.isfile(p + ".py"):
            return p + ".py"
        if os.path.isfile(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py")
        return None

    def in_package(self, name):
        return (name == self.package or name.startswith(self.package + ".")) and self.modfile(name) is not None

    def load(self, name, st):
        """execute the module body abstractly (once); returns ModV"""
        if ("mod", name) in st.envs:
            return ModV(name)
        if "." in name:
            self.load(name.rsplit(".", 1)[0], st)
        path = self.modfile(name)
        if path is None:
            raise AnalysisError(f"module {name} not found")
        src = open(path, encoding="utf-8").read()
        self.sources[name] = (path, src)
        tree = ast.parse(src, path)
        self.trees[name] = tree
        st.envs[("mod", name)] = {"__name__": Const(name), "__file__": Const(path), "__doc__": NONE}
        self.index(tree, name)
        oldfr = st.fr
        st.fr = ("mod", name)
        frame = Frame(None, tree, ("mod", name), (("m", name),), None, name, None)
        self.frames.append(frame)
        outs = self.exec_block(tree.body, st)
        self.frames.pop()
        good = [s for s, sig in outs if sig is None]
        if not good:
            raise AnalysisError(f"module {name} does not load: {[sig for s, sig in outs][:3]}")
        s = good[0]
        # the init state continues as the given state object
        st.envs, st.heap, st.dom, st.facts, st.trace = s.envs, s.heap, s.dom, s.facts, s.trace
        st.fr = oldfr
        if "." in name:
            par, last = name.rsplit(".", 1)
            st.setvar(("mod", par), last, ModV(name))
        return ModV(name)

    def load_all(self):
        st = self.state0
        names = []
        base = os.path.join(self.root, self.package)
        for d, dirs, files in os.walk(base):
            dirs[:] = sorted(x for x in dirs if x != "__pycache__")
            rel = os.path.relpath(d, self.root).replace(os.sep, ".")
            for f in sorted(files):
                if f.endswith(".py"):
                    n = rel if f == "__init__.py" else f"{rel}.{f[:-3]}"
                    names.append(n)
        names = [n for n in names if not any(n == e or n.startswith(e + ".") for e in self.exclude)]
        self.modloading = True
        for n in sorted(names):
            self.load(n, st)
        self.modloading = False
        for o in st.heap.values():
            o.meta = dict(o.meta, static=True)
        self.modnames = names
        st.trace = ()
        self.events = {}
        return names

    def index(self, tree, modname):
        def visit(node, qual, clskey):
            for ch in ast.iter_child_nodes(node):
                if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                    nm = getattr(ch, "name", "<lambda>")
                    q = f"{qual}.{nm}" if qual else nm
                    fid = (modname, q, ch.lineno, ch.col_offset)
                    ch._fid = fid
                    fi = FuncInfo(fid, ch, modname, q, clskey)
                    self.functions[fid] = fi
                    self.scan(fi)
                    visit(ch, q, clskey)
                elif isinstance(ch, ast.ClassDef):
                    q = f"{qual}.{ch.name}" if qual else ch.name
                    ch._ckey = (modname, q)
                    visit(ch, q, (modname, q))
                else:
                    visit(ch, qual, clskey)
        visit(tree, "", None)

    def scan(self, fi):
        node = fi.node
        names = set()
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            names.add(x.arg)
        if a.vararg:
            names.add(a.vararg.arg)
        if a.kwarg:
            names.add(a.kwarg.arg)

        def walk_(n):
            for ch in ast.iter_child_nodes(n):
                if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    names.add(ch.name)
                    if escapes(ch, node):
                        fi.has_nested = True
                    for d in ch.decorator_list:
                        walk_(ast.Expression(d))
                    continue
                if isinstance(ch, ast.Lambda):
                    fi.has_nested = True
                    continue
                if isinstance(ch, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    # walrus targets leak, loop targets do not
                    for sub in ast.walk(ch):
                        if isinstance(sub, ast.NamedExpr):
                            names.add(sub.target.id)
                        if isinstance(sub, ast.Lambda):
                            fi.has_nested = True
                    continue
                if isinstance(ch, ast.Name) and isinstance(ch.ctx, (ast.Store, ast.Del)):
                    names.add(ch.id)
                if isinstance(ch, ast.Global):
                    fi.globals |= set(ch.names)
                if isinstance(ch, ast.Nonlocal):
                    fi.nonlocals |= set(ch.names)
                if isinstance(ch, (ast.Yield, ast.YieldFrom)):
                    fi.is_gen = True
                if isinstance(ch, (ast.Import, ast.ImportFrom)):
                    for al in ch.names:
                        names.add((al.asname or al.name).split(".")[0])
                if isinstance(ch, ast.ExceptHandler) and ch.name:
                    names.add(ch.name)
                if isinstance(ch, (ast.MatchAs, ast.MatchStar)) and ch.name:
                    names.add(ch.name)
                walk_(ch)
        body = node.body if isinstance(node.body, list) else [ast.Expr(node.body)]
        for b in body:
            walk_(ast.Module([b], []))
        fi.locals = names - fi.globals - fi.nonlocals

    # ------------------------------------------------------------------ helpers
    @property
    def frame(self):
        return self.frames[-1]

    def site(self, node):
        f = self.frame
        name = f.func.qual if f.func else "<module>"
        return (f.modname, name, getattr(node, "lineno", 0))

    def sid(self, node, tag):
        """stable identity for something created at `node` in the current context"""
        return (tag, self.frame.modname, getattr(node, "lineno", 0), getattr(node, "col_offset", 0),
                hash(self.frame.ctx))

    def event(self, kind, data, st, node):
        key = (kind, data, self.site(node))
        ev = self.events.get(key)
        if ev is None:
            self.events[key] = dict(kind=kind, data=data, site=self.site(node), st=st,
                                    stack=tuple(x[3] for x in self.stack))
        h = self.hooks.get(kind)
        if h:
            h(self, data, st, node)

    def exc(self, st, node, cls, why="", args=()):
        """a Raise outcome; site is where it happens"""
        return (st, Raise(ExcV(cls, tuple(args), self.site(node), why)))

    def bind(self, results, fn):
        out = []
        for st, v in results:
            if isinstance(v, Raise):
                out.append((st, v))
            else:
                out.extend(fn(st, v))
        if len(out) > MAX_STATES:
            out = self.reduce(out)
        return out

    def reduce(self, outs):
        """too many partitions: merge those with the same value"""
        groups = {}
        for st, v in outs:
            groups.setdefault((v, st.fr), []).append(st)
        res = []
        for (v, _), sts in groups.items():
            res.append((self.join_states(sts, ("reduce",)), v))
        if len(res) > MAX_STATES:
            raise TooComplex(f"{len(res)} partitions at {self.frame.modname}:{self.frame.func and self.frame.func.qual}")
        return res

    # ------------------------------------------------------------------ states
    def alloc(self, st, node, tag, obj):
        id = self.sid(node, tag)
        if id in st.heap:
            self.age(st, id)
        st.heap[id] = obj
        return Ref(id)

    def age(self, st, id):
        """recency abstraction: the object previously allocated here becomes a summary"""
        old = st.heap[id]
        if self.is_sym_cls(old):
            self.record(st, id)
            nid = ("symold",) + id[1:]
            if nid not in st.heap:
                st.heap[nid] = self.new_sym_obj(nid)
            new = Ref(nid)
        else:
            nid = ("old",) + id
            if nid in st.heap:
                o = self.join_obj(st, st.heap[nid], old, nid)
                if o is st.heap[nid]:
                    o = o.clone()
                o.meta["summary"] = True
                st.heap[nid] = o
            else:
                st.heap[nid] = old
            new = Ref(nid)
        del st.heap[id]
        self.replace_refs(st, {Ref(id): new})

    def replace_refs(self, st, m):
        def sub(v):
            if isinstance(v, Ref):
                return m.get(v, v)
            if isinstance(v, Const) or isinstance(v, str) or v is None:
                return v
            if isinstance(v, tuple):
                return tuple(sub(x) for x in v)
            if isinstance(v, frozenset):
                return frozenset(sub(x) for x in v)
            if isinstance(v, (TupV, Union, BoundV, LStar, Partial, Meth, FuncV, Wrap)):
                return v.__class__(*[sub(x) for x in v._k])
            return v
        ids = {r.id for r in m}
        one = next(iter(ids)) if len(ids) == 1 else None
        for ek, e in list(st.envs.items()):
            c = ENV_REFS.get(_id(e))
            if c is None or c[0] is not e or c[1] != len(e):
                if len(ENV_REFS) > 5000:
                    ENV_REFS.clear()
                c = ENV_REFS[_id(e)] = (e, len(e), frozenset(r for v in e.values() for r in refs(v)))
            if c[2] and not ids.isdisjoint(c[2]):
                st.envs[ek] = {k: sub(v) for k, v in e.items()}
        for id, o in list(st.heap.items()):
            if o.kind == "match":
                continue
            rs = o.refset()
            if not rs or not (one in rs if one is not None else ids & rs):
                continue
            n = o.clone()
            n.fields = {k: sub(v) for k, v in o.fields.items()}
            n.items = sub(o.items)
            n.entries = {sub(k): sub(v) for k, v in o.entries.items()}
            n.weak = sub(o.weak)
            st.heap[id] = n

    # -- symbolic objects of the tree class ------------------------------------
    def is_sym_cls(self, o):
        return o.kind == "inst" and self.sym_class is not None and o.cls == ClassV(self.sym_class)

    def new_sym_obj(self, nid):
        return HObj("inst", ClassV(self.sym_class), {"kind": hole(("kind", nid))},
                    meta={"sym": True, "cands": None})

    def new_sym(self, st, nid):
        if nid not in st.heap:
            st.heap[nid] = self.new_sym_obj(nid)
        return Ref(nid)

    def shape(self, st, v, depth=0):
        if isinstance(v, Const):
            if isinstance(v.v, str):
                return ("str",)
            if isinstance(v.v, bool):
                return ("bool",)
            if isinstance(v.v, int):
                return ("num", v.v, v.v)
            return ("const", v.v)
        if isinstance(v, Str):
            hs = holes_in(v)
            if hs and all(h.src[0] == "spec" for h in hs) and not any(isinstance(p, Star) for p in v.parts):
                return ("val", v)
            return ("str",)
        if isinstance(v, Num):
            lo, hi = self.num_range(st, v)
            return ("num", lo, hi)
        if isinstance(v, Ref):
            o = st.heap[v.id]
            if self.is_sym_cls(o):
                return ("node",)
            if o.kind == "list":
                return ("children",) if any(self.shape(st, x, 1) == ("node",) for x in flat_items(o.items)) or not o.items \
                    else ("list",)
            if o.kind == "dict":
                if depth:
                    return ("dict",)
                sh = set()
                for k, x in list(o.entries.items()) + list(o.weak):
                    for y in alts_of(x):
                        sh.add(self.shape(st, y, 1))
                return ("dict", frozenset(sh))
            if o.kind == "set":
                return ("set",)
            return ("obj", v)
        if isinstance(v, Union):
            return ("union", frozenset(self.shape(st, x, 1) for x in v.alts))
        if isinstance(v, Unk):
            return ("unk",)
        return ("val", v)

    def record(self, st, id, final=True):
        """remember what nodes of the tree class look like; final: the node is observable like this (not
        only between two assignments which complete it)"""
        self.record_(st, id)
        if final:
            o = st.heap[id]
            if o.meta.get("rec") or o.meta.get("sym"):
                new = set(o.meta.get("recs", ())) - self.confirmed
                if new:
                    self.confirmed |= new
                    self.changed = True

    def record_(self, st, id):
        o = st.heap[id]
        if o.meta.get("sym"):
            # a symbolic node: nothing new unless fields were overwritten
            if not o.meta.get("dirty"):
                return
        if not all(f in o.fields for f in self.init_fields(o.cls)):
            return      # still under construction
        if o.meta.get("rec"):
            return      # recorded when it was written
        o.meta["rec"] = True
        kind = o.fields.get("kind", NONE)
        fields = []
        for f, v in sorted(o.fields.items()):
            if f == "kind":
                continue
            shapes = set()
            for x in alts_of(v):
                sh = self.shape(st, x)
                if sh[0] == "union":
                    shapes |= set(sh[1])
                else:
                    shapes.add(sh)
            fields.append((f, frozenset(shapes)))
        kinds = []
        for k in alts_of(kind):
            if isinstance(k, Str):
                k = self.simplify(st, k)
            if not isinstance(k, Str):
                # anything else than a string: some tag nobody can handle
                kinds.append(k if isinstance(k, Const) else ("open", None, ()))
                continue
            h = k.parts[0] if len(k.parts) == 1 and isinstance(k.parts[0], Hole) else None
            if h is not None and h.src[0] == "kind" and o.meta.get("sym"):
                continue
            d = st.dom.get(h)
            if d and d[0] == "in":
                kinds += [Const(c) for c in sorted(d[1])]
                continue
            fin = self.finite_strings(st, k)
            if fin is not None:
                kinds += [Const(c) for c in sorted(fin)]
                continue
            atoms = tuple(sorted(((a, b) for a, b in st.facts.items()
                                  if a[0] in ("rematch", "startswith", "endswith", "contains") and a[1] == k),
                                 key=hash))
            kinds.append(("open", d, atoms))
        recs = set(o.meta.get("recs", ())) if o.meta.get("sym") or o.meta.get("summary") else set()
        for k in kinds:
            key = (k, tuple(fields))
            if key in self.record_keys:
                recs.add(self.record_keys[key])
            else:
                self.record_keys[key] = len(self.records)
                recs.add(len(self.records))
                self.records.append((k, dict(fields)))
                if len(self.records) > 400:
                    raise TooComplex("node records")
        o.meta["recs"] = tuple(sorted(recs))
        # the strings themselves (what they are made of)
        for f, v in o.fields.items():
            for x in alts_of(v):
                if is_str(x) and f != "kind":
                    for i in recs:
                        raw = self.raws.setdefault((i, f), {})
                        if len(raw) < 60:
                            raw.setdefault(x, st)
                        else:
                            raw[None] = st

    def finite_strings(self, st, v, limit=64):
        """the strings a template stands for, if they are known"""
        res = [""]
        for p in parts_of(v):
            if isinstance(p, str):
                alts = [p]
            elif isinstance(p, Hole) and st.dom.get(p, ("",))[0] == "in" and all(isinstance(c, str) for c in st.dom[p][1]):
                alts = sorted(st.dom[p][1])
            else:
                return None
            res = [a + b for a in res for b in alts]
            if len(res) > limit:
                return None
        return res

    def init_fields(self, cls):
        """attributes assigned unconditionally by __init__"""
        c = self.classes[cls.key]
        if "init_fields" not in c:
            r = set()
            for k in c["mro"]:
                if not isinstance(k, ClassV):
                    continue
                for b in self.classes[k.key]["node"].body:
                    if isinstance(b, ast.FunctionDef) and b.name == "__init__" and b.args.args:
                        me = b.args.args[0].arg
                        for x in b.body:
                            for t in (x.targets if isinstance(x, ast.Assign) else [x.target] if isinstance(x, ast.AnnAssign) else []):
                                for y in ast.walk(t):
                                    if isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and y.value.id == me \
                                            and isinstance(y.ctx, ast.Store):
                                        r.add(mangle(y.attr, k.key))
            c["init_fields"] = r
        return c["init_fields"]

    def record_all(self, st, final=True):
        if self.sym_class is None:
            return
        for id, o in list(st.heap.items()):
            if self.is_sym_cls(o):
                self.record(st, id, final)

    def kind_ok(self, st, rec, h):
        """may a node with kind hole h (under st.dom) come from record rec?"""
        k = rec[0]
        d = st.dom.get(h, ("notin", frozenset()))
        if isinstance(k, Const):
            return (k.v in d[1]) == (d[0] == "in")
        if d[0] == "in":
            return any(self.open_allows(k, c) for c in d[1])
        return True

    def open_allows(self, k, c):
        _, dom, atoms = k
        if not isinstance(c, str):
            return False
        if dom is not None and (c in dom[1]) != (dom[0] == "in"):
            return False
        for a, b in atoms:
            r = self.eval_atom(a, c)
            if r is not None and r != b:
                return False
        return self.models.tag_possible(c)

    def eval_atom(self, a, c):
        import re
        if a[0] == "rematch":
            rx, how = a[2], a[3]
            return bool(getattr(re.compile(rx.pattern, rx.flags), how)(c))
        if a[0] == "startswith":
            return c.startswith(a[2])
        if a[0] == "endswith":
            return c.endswith(a[2])
        if a[0] == "contains":
            return a[2] in c
        return None

    def sym_cands(self, st, o):
        kind = o.fields["kind"]
        cands = o.meta.get("cands")
        if cands is None:
            cands = sorted(self.confirmed)
        if isinstance(kind, Const):
            r = []
            for i in cands:
                k = self.records[i][0]
                if isinstance(k, Const) and k == kind or not isinstance(k, Const) and self.open_allows(k, kind.v):
                    r.append(i)
            return r
        h = kind.parts[0]
        return [i for i in cands if self.kind_ok(st, self.records[i], h)]

    def sym_field(self, st, ref, f, node):
        """lazily materialise a field of a symbolic node; results like ev()"""
        o = st.heap[ref.id]
        groups = {}
        for i in self.sym_cands(st, o):
            shapes = self.records[i][1].get(f)
            if shapes is None:
                groups.setdefault(("missing",), []).append(i)
            else:
                for sh in shapes:
                    if sh[0] == "num":
                        sh = ("num",)
                    groups.setdefault(sh, []).append(i)
        out = []
        for sh, idx in sorted(groups.items(), key=lambda x: repr(x[0])):
            s = st.copy()
            n = s.mut(ref.id)
            n.meta["cands"] = tuple(sorted(set(idx)))
            kind = n.fields["kind"]
            if isinstance(kind, Str) and all(isinstance(self.records[i][0], Const) for i in idx):
                h = kind.parts[0]
                ks = frozenset(self.records[i][0].v for i in idx)
                d = s.dom.get(h, ("notin", frozenset()))
                ks = ks & d[1] if d[0] == "in" else ks - d[1]
                s.dom[h] = ("in", ks)
            if sh == ("missing",):
                out.append(self.exc(s, node, "AttributeError", f"DocNode has no attribute {f!r}"))
                continue
            v = self.from_shape(s, ref, f, sh, [self.records[i][1][f] for i in idx])
            s.heap[ref.id].fields[f] = v
            out.append((s, v))
        return out

    def from_shape(self, s, ref, f, sh, allshapes):
        nid = ref.id
        if sh[0] == "str":
            return hole((f, nid))
        if sh[0] == "num":
            los, his = [], []
            for shs in allshapes:
                for x in shs:
                    if x[0] == "num":
                        los.append(x[1])
                        his.append(x[2])
            lo = None if None in los else min(los)
            hi = None if None in his else max(his)
            # growing ranges are widened: more than 12 different bounds
            if len(set(los)) > 4:
                lo = None
            if len(set(his)) > 12:
                hi = None
            return Num((f, nid), lo, hi)
        if sh[0] == "const":
            return Const(sh[1])
        if sh[0] == "bool":
            return Unk((f, nid))
        if sh[0] == "node":
            return self.new_sym(s, ("symof", f, nid) if len(repr(nid)) < 2000 else ("symof", f, hash(nid)))
        if sh[0] == "children":
            lid = ("symlist", f, nid)
            elem = self.new_sym(s, ("symelem", f, nid))
            s.heap[lid] = HObj("list", items=(LStar((f, nid), frozenset([(elem,)]), True),))
            return Ref(lid)
        if sh[0] == "dict":
            did = ("symdict", f, nid)
            weak = []
            for x in sorted(sh[1] if len(sh) > 1 else [("str",)], key=hash):
                kh = hole(("dkey", did))
                if x[0] == "union":
                    vals = x[1]
                else:
                    vals = [x]
                for y in vals:
                    weak.append((kh, NONE if y == ("const", None) else hole(("dval", did))))
            s.heap[did] = HObj("dict", weak=tuple(weak))
            return Ref(did)
        if sh[0] == "set":
            sid = ("symset", f, nid)
            s.heap[sid] = HObj("set", items=(LStar((f, nid), frozenset([(hole(("elem", sid)),)]), True),))
            return Ref(sid)
        if sh[0] == "obj":
            return sh[1] if sh[1].id in s.heap else Unk((f, nid))
        if sh[0] == "val":
            return sh[1]
        return Unk((f, nid))

    # ------------------------------------------------------------------ joins
    def join_value(self, a, b, slot, sa=None, sb=None, depth=0):
        if a == b:
            return a
        if a is None or b is None:
            # maybe unset
            xs = frozenset(x for y in (a, b) for x in ([UNSET] if y is None else alts_of(y)))
            return Union(xs)
        al = set()
        for x in (a, b):
            al |= set(alts_of(x))
        # tree nodes merge into one symbolic node
        if sa is not None:
            def heap_of(r):
                return sa.heap.get(r.id) or sb.heap.get(r.id)
            nodes = [x for x in al if isinstance(x, Ref) and heap_of(x) is not None and self.is_sym_cls(heap_of(x))]
            if len(nodes) > 1:
                al -= set(nodes)
                nid = ("symjoin", slot)
                al.add(Ref(nid))
                self.pend_sym(nid, nodes, sa, sb)
        strs = [x for x in al if is_str(x)]
        if len(strs) > 3 or len(strs) > 1 and any(
                h.src[0] == "join" and h.src[1] == slot for s in strs for h in top_holes(s)):
            al -= set(strs)
            al.add(hole(("join", slot, join_members(strs))))
            strs = []
        nums = [x for x in al if is_int(x) and not isinstance(getattr(x, "v", 0), bool)]
        if len(nums) > 1:
            los, his = [], []
            for x in nums:
                if isinstance(x, Const):
                    los.append(x.v)
                    his.append(x.v)
                else:
                    los.append(x.lo)
                    his.append(x.hi)
            al -= set(nums)
            old = [x for x in nums if isinstance(x, Num) and x.src == ("join", slot)]
            lo = None if None in los else min(los)
            hi = None if None in his else max(his)
            if old:     # widening
                if old[0].lo is not None and (lo is None or lo < old[0].lo):
                    lo = None
                if old[0].hi is not None and (hi is None or hi > old[0].hi):
                    hi = None
            al.add(Num(("join", slot), lo, hi))
        tups = [x for x in al if isinstance(x, TupV)]
        if len(tups) > 1 and len({len(t.items) for t in tups}) == 1:
            al -= set(tups)
            its = tups[0].items
            for t in tups[1:]:
                its = tuple(self.join_value(x, y, (slot, i), sa, sb) for i, (x, y) in enumerate(zip(its, t.items)))
            al.add(TupV(its))
        unks = [x for x in al if isinstance(x, Unk)]
        if len(unks) > 2:
            al -= set(unks)
            al.add(Unk(("join", slot)))
        if len(al) == 1:
            return next(iter(al))
        if len(al) > 24:
            return Unk(("join", slot))
        return Union(frozenset(al))

    def join_obj(self, st, a, b, id, sa=None, sb=None):
        if a is b or a.same(b):
            return a
        if sb is not None and self.is_sym_cls(a) and a.cls == b.cls and a.fields != b.fields \
                and not a.meta.get("sym") and not b.meta.get("sym") \
                and all(f in a.fields and f in b.fields for f in self.init_fields(a.cls)):
            # two different tree nodes: keep their records apart
            for s in (sa, sb):
                if id in s.heap:
                    self.record(s, id)
            self.pend_sym(id, [Ref(id)], sa, sb)
            return a
        if sb is not None and (a.meta.get("sym") or b.meta.get("sym")) and self.is_sym_cls(a) and a.cls == b.cls \
                and a.fields.get("kind") != b.fields.get("kind"):
            for s in (sa, sb):
                if id in s.heap:
                    self.record(s, id)
            self.pend_sym(id, [Ref(id)], sa, sb)
            return a
        if sb is not None and id in self._pending_sym and self.is_sym_cls(b):
            if id in sb.heap:
                self.record(sb, id)
            self.pend_sym(id, [Ref(id)], sb)
            return a
        r = a.clone()
        r.fields = {}
        lazy = (a.meta.get("sym") or b.meta.get("sym")) and self.is_sym_cls(a)
        for f in list(a.fields) + [x for x in b.fields if x not in a.fields]:
            if lazy and (f not in a.fields or f not in b.fields) and f != "kind":
                # not looked at on one side: whatever the records allow
                continue
            r.fields[f] = self.join_value(a.fields.get(f), b.fields.get(f), ("f", id, f), sa, sb)
        if a.items != b.items:
            r.items = self.join_items(a.items, b.items, ("i", id), sa, sb)
        if a.entries != b.entries or a.weak != b.weak:
            ent = {}
            weak = set(a.weak) | set(b.weak)
            for k in list(a.entries) + [x for x in b.entries if x not in a.entries]:
                if k in a.entries and k in b.entries:
                    ent[k] = self.join_value(a.entries[k], b.entries[k], ("d", id, k), sa, sb)
                else:
                    weak.add((k, a.entries.get(k, b.entries.get(k))))
            r.entries = ent
            r.weak = tuple(sorted(weak, key=hash))
            if len(r.weak) > 12:
                ks = [k for k, v in r.weak]
                v = r.weak[0][1]
                for _, w in r.weak[1:]:
                    v = self.join_value(v, w, ("dw", id), sa, sb)
                k = ks[0]
                for x in ks[1:]:
                    k = self.join_value(k, x, ("dk", id), sa, sb)
                r.weak = ((k, v),)
        r.absent = a.absent & b.absent
        r.meta = {k: v for k, v in a.meta.items() if b.meta.get(k) == v}
        for k in ("static", "caller", "sym", "summary"):
            if a.meta.get(k) or b.meta.get(k):
                r.meta[k] = a.meta.get(k) or b.meta.get(k)
        if r.meta.get("sym"):
            for cn in ("cands", "cands0"):
                ca, cb = a.meta.get(cn), b.meta.get(cn)
                r.meta.pop(cn, None)
                if ca is not None and cb is not None:
                    r.meta[cn] = tuple(sorted(set(ca) | set(cb)))
            ka, kb = a.meta.get("kinds"), b.meta.get("kinds")
            if ka and kb:
                r.meta["kinds"] = ka | kb
            else:
                r.meta.pop("kinds", None)
        return r

    def join_items(self, a, b, slot, sa=None, sb=None):
        if a == b:
            return a
        elems = set()
        for it in flat_items(a) + flat_items(b):
            elems.add(it)
        nodes = None
        if sa is not None:
            def heap_of(r):
                return sa.heap.get(r.id) or sb.heap.get(r.id)
            nodes = [x for x in elems if isinstance(x, Ref) and heap_of(x) is not None and self.is_sym_cls(heap_of(x))]
            if len(nodes) > 1:
                elems -= set(nodes)
                nid = ("symjoin", slot)
                elems.add(Ref(nid))
                self.pend_sym(nid, nodes, sa, sb)
        strs = [x for x in elems if is_str(x)]
        if len(elems) > 12 and len(strs) > 3 or len(strs) > 1 and any(h.src[:2] == ("join", slot) for s in strs for h in top_holes(s)):
            # (once joined always joined)
            elems -= set(strs)
            elems.add(hole(("join", slot, join_members(strs))))
        if len(elems) > 12:
            v = None
            for e in sorted(elems, key=hash):
                v = e if v is None else self.join_value(v, e, slot, sa, sb)
            elems = set(alts_of(v))
        if not elems:
            return ()
        return (LStar(("join", slot), frozenset((e,) for e in elems), False),)

    def join_states(self, sts, slot, base=None):
        r = sts[0]
        for s in sts[1:]:
            r = self.join2(r, s, slot)
        return r

    _pending_sym = {}

    def pend_sym(self, nid, nodes, *states):
        """a joined tree node: remember which kinds it may have"""
        ks, cs = self._pending_sym.setdefault(nid, (set(), set()))
        for n in nodes:
            for s in states:
                if n.id in s.heap:
                    self.record(s, n.id)
                    k = self.kinds_of(s, n.id)
                    ks.add(None) if k is None else ks.update(k)
                    o = s.heap[n.id]
                    c = o.meta.get("cands0" if o.meta.get("sym") else "recs")
                    cs.add(None) if not c else cs.update(c)

    def kinds_of(self, st, id):
        """finite set of kinds or None"""
        k = st.heap[id].fields.get("kind")
        if isinstance(k, Const):
            return {k.v}
        if isinstance(k, Str):
            h = self.single_hole(k)
            d = st.dom.get(h) if h is not None else None
            if d is not None and d[0] == "in":
                return set(d[1])
        if isinstance(k, Union) and all(isinstance(x, Const) for x in k.alts):
            return {x.v for x in k.alts}
        return None

    def restore_kinds(self, st):
        for id, o in st.heap.items():
            if o.meta.get("kinds") and o.meta.get("sym"):
                h = Hole(("kind", id), ())
                if h not in st.dom:
                    st.dom[h] = ("in", o.meta["kinds"])

    def place_sym(self, st, pend):
        for nid, (ks, cs) in pend.items():
            st.heap[nid] = self.new_sym_obj(nid)
            if None not in cs and cs:
                st.heap[nid].meta["cands"] = st.heap[nid].meta["cands0"] = tuple(sorted(cs))
            h = Hole(("kind", nid), ())
            st.dom.pop(h, None)
            self.forget(st, nid)
            if None not in ks and ks:
                st.dom[h] = ("in", frozenset(ks))
                st.heap[nid].meta["kinds"] = frozenset(ks)

    def join2(self, a, b, slot):
        if a is b:
            return a
        self._pending_sym = {}
        r = State()
        r.fr = a.fr
        for ek in list(a.envs) + [k for k in b.envs if k not in a.envs]:
            ea, eb = a.envs.get(ek), b.envs.get(ek)
            if ea is eb or ea == eb or eb is None:
                r.envs[ek] = ea
            elif ea is None:
                r.envs[ek] = eb
            else:
                e = {}
                for n in list(ea) + [x for x in eb if x not in ea]:
                    e[n] = self.join_value(ea.get(n), eb.get(n), ("v", ek, n), a, b)
                r.envs[ek] = e
        for id in list(a.heap) + [k for k in b.heap if k not in a.heap]:
            oa, ob = a.heap.get(id), b.heap.get(id)
            if oa is None or ob is None:
                r.heap[id] = oa or ob
            else:
                r.heap[id] = oa if oa is ob else self.join_obj(r, oa, ob, id, a, b)
        pend = self._pending_sym
        self._pending_sym = {}
        if pend:
            for s in (a, b):
                self.record_all(s, False)
        for h, d in a.dom.items():
            e = b.dom.get(h)
            if e == d:
                r.dom[h] = d
            elif e is not None:
                j = join_dom(d, e)
                if j is not None:
                    r.dom[h] = j
        for k, v in a.facts.items():
            if b.facts.get(k) == v:
                r.facts[k] = v
        self.place_sym(r, pend)
        r.trace = a.trace if a.trace == b.trace else join_trace(a.trace, b.trace)
        return r

    def forget(self, st, nid):
        """drop lazily created facts hanging off symbolic object nid"""
        def about(x):
            return nid in syms_in(x)
        for h in [h for h in st.dom if about(h)]:
            del st.dom[h]
        for f in [f for f in st.facts if about(f)]:
            del st.facts[f]
        for id in [i for i in st.heap if i != nid and isinstance(i, tuple) and i[0] in ("symof", "symlist", "symelem", "symdict", "symset") and nid in syms_in(i[1:])]:
            del st.heap[id]

    def diff_state(self, a, b, *info):
        print("DIFF", *info)
        for ek in b.envs:
            for n, v in b.envs[ek].items():
                w = a.envs.get(ek, {}).get(n)
                if v != w:
                    print("  env", ek, n, repr(w)[:600], "->", repr(v)[:600])
        for k in b.heap:
            if k not in a.heap:
                print("  new obj", repr(k)[:300])
            elif not a.heap[k].same(b.heap[k]):
                print("  obj", repr(k)[:300], repr(a.heap[k])[:500], "->", repr(b.heap[k])[:500], a.heap[k].meta, b.heap[k].meta)
        for k in a.heap:
            if k not in b.heap:
                print("  gone obj", repr(k)[:300])
        for k in set(a.dom) | set(b.dom):
            if a.dom.get(k) != b.dom.get(k):
                print("  dom", repr(k)[:300], a.dom.get(k), b.dom.get(k))
        for k in set(a.facts) | set(b.facts):
            if a.facts.get(k) != b.facts.get(k):
                print("  fact", repr(k)[:300], a.facts.get(k), b.facts.get(k))
        if a.trace != b.trace:
            print("  trace", repr(a.trace)[:300], repr(b.trace)[:300])

    def same_state(self, a, b):
        if a.envs != b.envs or a.dom != b.dom or a.facts != b.facts or a.trace != b.trace:
            return False
        if a.heap.keys() != b.heap.keys():
            return False
        return all(a.heap[k] is b.heap[k] or a.heap[k].same(b.heap[k]) for k in a.heap)

    # widening with accumulators: head' such that head' ⊒ base, backs
    def widen(self, info, base, head, backs, origin, each, loopid):
        """base: state at loop entry; head: current loop head; backs: states at the back edges.
        Returns the new head.  Slots which grow by appending become base+Star."""
        new = State()
        new.fr = base.fr
        alts = info.setdefault("alts", {})
        self._pending_sym = {}

        def slotval(slot, get):
            h = get(head)
            bs = [get(b) for b in backs]
            if all(x == h for x in bs):
                return h
            b0 = get(base)
            if b0 is not None and slot not in info.setdefault("nogrow", set()):
                g = grow(b0, h, bs, alts.setdefault(slot, set()), origin, each, backs)
                if g is not None:
                    return g
                info["nogrow"].add(slot)
            v = h
            for s, x in zip(backs, bs):
                v = self.join_value(v, x, (loopid, slot), head, s)
            return v
        ekeys = list(head.envs)
        for b in backs:
            ekeys += [k for k in b.envs if k not in ekeys]
        for ek in ekeys:
            if ek not in head.envs:
                for b in backs:
                    if ek in b.envs:
                        new.envs[ek] = b.envs[ek]
                continue
            if all(b.envs.get(ek) is head.envs[ek] for b in backs):
                new.envs[ek] = head.envs[ek]
                continue
            e = {}
            names = list(head.envs[ek])
            for b in backs:
                names += [n for n in b.envs.get(ek, {}) if n not in names]
            for n in names:
                e[n] = slotval(("v", ek, n), lambda s, n=n, ek=ek: s.envs.get(ek, {}).get(n))
            new.envs[ek] = e
        hkeys = list(head.heap)
        for b in backs:
            hkeys += [k for k in b.heap if k not in head.heap and k not in hkeys]
        for id in hkeys:
            objs = [b.heap[id] for b in backs if id in b.heap]
            if id not in head.heap:
                o = objs[0]
                if len(objs) > 1 and self.is_sym_cls(o) and any(not o.same(p) for p in objs[1:]):
                    for b in backs:
                        if id in b.heap:
                            self.record(b, id)
                            self.pend_sym(id, [Ref(id)], b)
                    new.heap[id] = o
                    continue
                for p in objs[1:]:
                    o = self.join_obj(new, o, p, id, head, backs[0])
                new.heap[id] = o
                continue
            ho = head.heap[id]
            if all(o is ho for o in objs):
                new.heap[id] = ho
                continue
            if not objs:
                new.heap[id] = ho
                continue
            o = ho
            for s, p in zip([b for b in backs if id in b.heap], objs):
                o = self.join_obj(new, o, p, id, head, s)
            o = o.clone() if o is ho else o
            if ho.kind in ("list", "set") and id in base.heap:
                b0 = base.heap[id].items
                slot = ("items", id)
                bs = [p.items for p in objs]
                if any(x != ho.items for x in bs) and slot not in info.setdefault("nogrow", set()):
                    g = grow_items(b0, ho.items, bs, alts.setdefault(slot, set()), origin, each, backs)
                    if g is not None:
                        o.items = g
                    else:
                        info["nogrow"].add(slot)
            for f in o.fields:
                hv = ho.fields.get(f)
                bs = [p.fields.get(f) for p in objs]
                if hv is not None and is_str(hv) and any(x != hv for x in bs) and id in base.heap \
                        and all(x is not None for x in bs):
                    slot = ("f", id, f)
                    b0 = base.heap[id].fields.get(f)
                    if b0 is not None and is_str(b0) and slot not in info.setdefault("nogrow", set()):
                        g = grow(b0, hv, bs, alts.setdefault(slot, set()), origin, each, backs)
                        if g is not None:
                            o.fields[f] = g
                        else:
                            info["nogrow"].add(slot)
            new.heap[id] = o
        pend = self._pending_sym
        self._pending_sym = {}
        new.dom = dict(head.dom)
        new.facts = dict(head.facts)
        for b in backs:
            for h in list(new.dom):
                e = b.dom.get(h)
                if e != new.dom[h]:
                    j = join_dom(new.dom[h], e) if e is not None else None
                    if j is None:
                        del new.dom[h]
                    else:
                        new.dom[h] = j
            for k in list(new.facts):
                if b.facts.get(k) != new.facts[k]:
                    del new.facts[k]
        if pend:
            for s in [head] + list(backs):
                self.record_all(s, False)
        self.place_sym(new, pend)
        # lazily materialised objects nobody refers to any more
        lazy = {id for id in new.heap if isinstance(id, tuple) and (id[0] in LAZY or id[0] in TEMPORARY) and id not in base.heap}
        if lazy:
            used = set()
            todo = [r for e in new.envs.values() for v in e.values() for r in refs(v)]
            todo += [r for id, o in new.heap.items() if id not in lazy for r in obj_refs(o)]
            while todo:
                r = todo.pop()
                if r in lazy and r not in used:
                    used.add(r)
                    todo.extend(obj_refs(new.heap[r]))
            for id in lazy - used:
                del new.heap[id]
        # traces
        if all(b.trace == head.trace for b in backs):
            new.trace = head.trace
        else:
            n = len(base.trace)
            seen = info.setdefault("traces", set())
            hl = head.trace
            for b in backs:
                if b.trace[:len(hl)] == hl:
                    seen.add(b.trace[len(hl):])
                else:
                    seen.add(b.trace[n:])
            new.trace = base.trace + (("loop", frozenset(seen)),)
        return new

    # ------------------------------------------------------------------ facts
    def simplify(self, st, v):
        """replace holes known to equal a constant"""
        if isinstance(v, Str):
            ps = []
            ch = False
            for p in v.parts:
                if isinstance(p, Hole):
                    d = st.dom.get(p)
                    if d and d[0] == "in" and len(d[1]) == 1:
                        ps.append(next(iter(d[1])))
                        ch = True
                        continue
                ps.append(p)
            if ch:
                return mk_str(ps)
        elif isinstance(v, Num):
            lo, hi = self.num_range(st, v)
            if lo is not None and lo == hi:
                return Const(lo)
        return v

    def num_range(self, st, n):
        if isinstance(n, Const):
            return (n.v, n.v)
        lo, hi = n.lo, n.hi
        if isinstance(n.src, tuple) and len(n.src) == 2 and isinstance(n.src[1], tuple):
            o = st.heap.get(n.src[1])
            if o is not None and o.meta.get("sym") and not o.meta.get("dirty") and o.fields.get(n.src[0]) == n:
                # the number of a tree node: what the possible kinds of the node allow
                b = self.record_range(st, o, n.src[0])
                if b is not None:
                    lo = b[0] if lo is None or b[0] is not None and b[0] > lo else lo
                    hi = b[1] if hi is None or b[1] is not None and b[1] < hi else hi
        d = st.dom.get(n.src)
        if d:
            if d[0] is not None and (lo is None or d[0] > lo):
                lo = d[0]
            if d[1] is not None and (hi is None or d[1] < hi):
                hi = d[1]
        return lo, hi

    def record_range(self, st, o, f):
        los, his = set(), set()
        for i in self.sym_cands(st, o):
            for x in self.records[i][1].get(f, ()):
                if x[0] == "num":
                    los.add(x[1])
                    his.add(x[2])
        if not los:
            return None
        return (None if None in los or len(los) > 4 else min(los),
                None if None in his or len(his) > 12 else max(his))

    def hole_nonempty(self, st, h):
        d = st.dom.get(h)
        if d and d[0] == "notin" and "" in d[1]:
            return True
        if d and d[0] == "in" and "" not in d[1]:
            return True
        s = h.src
        if not h.ops:
            if s[0] == "re":
                rx, g = s[1], s[2]
                if regex.info(rx.pattern, rx.flags).min_width(g) > 0:
                    return True
            if s[0] in ("nonempty", "num", "kind", "char", "spec", "tag", "chr"):
                return True
        else:
            if h.ops[-1][0] in ("repr", "json"):
                return True
            last = h.ops[-1]
            if last[0] == "escape" or last[0] == "call":
                return self.hole_nonempty(st, Hole(s, h.ops[:-1]))
        return False

    def assume_eq(self, st, h, c):
        """h == c ; None when impossible"""
        s = st.copy()
        d = s.dom.get(h, ("notin", frozenset()))
        if (c in d[1]) != (d[0] == "in"):
            return None
        for a, b in s.facts.items():
            if len(a) > 1 and a[1] == Str((h,)):
                r = self.eval_atom(a, c)
                if r is not None and r != b:
                    return None
        if not self.possible(st, h, c):
            return None
        s.dom[h] = ("in", frozenset([c]))
        return s

    def possible(self, st, h, c):
        """can hole h be the constant c at all (by where it comes from)?"""
        s = h.src
        if h.ops:
            return True
        if s[0] == "kind":
            o = st.heap.get(s[1])
            if o is not None and o.meta.get("sym") and isinstance(o.fields["kind"], Str):
                cands = o.meta.get("cands")
                for i in (range(len(self.records)) if cands is None else cands):
                    k = self.records[i][0]
                    if isinstance(k, Const):
                        if k.v == c:
                            return True
                    elif self.open_allows(k, c):
                        return True
                return False
        if s[0] == "re":
            rx, g = s[1], s[2]
            inf = regex.info(rx.pattern, rx.flags)
            if len(c) < inf.min_width(g) or len(c) > inf.max_width(g):
                return False
            cs = inf.charset(g)
            if cs is not None and not all(ch in cs or ("\\d" in cs and ch.isdigit()) for ch in c):
                return False
        if s[0] == "tag":
            return self.models.tag_possible(c)
        if s[0] == "num":
            return c.lstrip("-").isdigit()
        if s[0] == "nonempty" and c == "":
            return False
        return True

    def assume_ne(self, st, h, cs):
        d = st.dom.get(h, ("notin", frozenset()))
        if d[0] == "in":
            n = d[1] - cs
            if not n:
                return None
            s = st.copy()
            s.dom[h] = ("in", n)
            return s
        s = st.copy()
        s.dom[h] = ("notin", d[1] | cs)
        # a node whose kinds are all excluded
        if h.src[0] == "kind" and not h.ops:
            o = s.heap.get(h.src[1])
            if o is not None and o.meta.get("sym") and isinstance(o.fields["kind"], Str):
                if not self.sym_cands(s, o) and self.records:
                    return None
        return s

    def single_hole(self, v):
        if isinstance(v, Str) and len(v.parts) == 1 and isinstance(v.parts[0], Hole):
            return v.parts[0]
        return None

    def fork_atom(self, st, atom):
        """[(state, bool)] for an uninterpreted atom"""
        if atom in st.facts:
            return [(st, st.facts[atom])]
        a, b = st.copy(), st
        a.facts[atom] = True
        b = st.copy()
        b.facts[atom] = False
        h = self.hooks.get("assumed")
        if h:
            h(a, atom, True)
            h(b, atom, False)
        return [(a, True), (b, False)]

    def eq_const(self, st, v, c):
        """v == c for Str v, const str c -> [(state,bool)]"""
        v = self.simplify(st, v)
        if isinstance(v, Const):
            return [(st, v.v == c)]
        # literal prefix/suffix mismatch
        ps = v.parts
        if isinstance(ps[0], str) and not c.startswith(ps[0]):
            return [(st, False)]
        if isinstance(ps[-1], str) and not c.endswith(ps[-1]):
            return [(st, False)]
        if sum(len(p) for p in ps if isinstance(p, str)) > len(c):
            return [(st, False)]
        h = self.single_hole(v)
        if h is None and len([p for p in ps if not isinstance(p, str)]) == 1:
            # lit hole lit
            pre = ps[0] if isinstance(ps[0], str) else ""
            suf = ps[-1] if isinstance(ps[-1], str) else ""
            mid = [p for p in ps if not isinstance(p, str)][0]
            if isinstance(mid, Hole):
                return self.eq_const(st, Str((mid,)), c[len(pre):len(c) - len(suf)])
        if h is None:
            return self.fork_atom(st, ("eq", v, Const(c)))
        out = []
        if c == "" and self.hole_nonempty(st, h):
            return [(st, False)]
        t = self.assume_eq(st, h, c)
        if t is not None:
            out.append((t, True))
        f = self.assume_ne(st, h, frozenset([c]))
        if f is not None:
            out.append((f, False))
        return out

    def in_consts(self, st, v, cs):
        """v in {consts}"""
        v = self.simplify(st, v)
        if isinstance(v, Const):
            return [(st, v.v in cs)]
        h = self.single_hole(v)
        if h is None:
            out = []
            cur = [st]
            for c in sorted(x for x in cs if isinstance(x, str)):
                nxt = []
                for s in cur:
                    for s2, b in self.eq_const(s, v, c):
                        if b:
                            out.append((s2, True))
                        else:
                            nxt.append(s2)
                cur = nxt
            return out + [(s, False) for s in cur]
        cs = frozenset(x for x in cs if isinstance(x, str))
        d = st.dom.get(h, ("notin", frozenset()))
        yes = cs & d[1] if d[0] == "in" else cs - d[1]
        good = frozenset(c for c in yes if self.assume_eq(st, h, c) is not None
                         and not (c == "" and self.hole_nonempty(st, h)))
        out = []
        if good:
            s = st.copy()
            s.dom[h] = ("in", good)
            out.append((s, True))
        f = self.assume_ne(st, h, cs)
        if f is not None:
            out.append((f, False))
        return out

    # ------------------------------------------------------------------ truth
    def truth(self, st, v, node=None):
        """[(state, bool)]"""
        if isinstance(v, Const):
            return [(st, bool(v.v))]
        if isinstance(v, Str):
            v = self.simplify(st, v)
            if isinstance(v, Const):
                return [(st, bool(v.v))]
            if any(isinstance(p, str) for p in v.parts):
                return [(st, True)]
            h = self.single_hole(v)
            if h is not None:
                if self.hole_nonempty(st, h):
                    return [(st, True)]
                return [(s, not b) for s, b in self.eq_const(st, v, "")]
            if any(isinstance(p, Hole) and self.hole_nonempty(st, p) for p in v.parts):
                return [(st, True)]
            if all(isinstance(p, Empty) for p in v.parts):
                return [(st, False)]
            return self.fork_atom(st, ("truth", v))
        if isinstance(v, Num):
            lo, hi = self.num_range(st, v)
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return [(st, True)]
            if lo == 0 and hi == 0:
                return [(st, False)]
            a, b = st.copy(), st.copy()
            b.dom[v.src] = (0, 0)
            if lo == 0:
                a.dom[v.src] = (1, hi)
            elif hi == 0:
                a.dom[v.src] = (lo, -1)
            return [(a, True), (b, False)]
        if isinstance(v, TupV):
            r = self.len_known(v.items)
            if r is not None:
                return [(st, r > 0)]
            return self.fork_atom(st, ("truth", v))
        if isinstance(v, Ref):
            o = st.heap[v.id]
            if o.kind in ("list", "set"):
                if any(not isinstance(x, LStar) for x in o.items) or o.meta.get("nonempty"):
                    return [(st, True)]
                if not o.items:
                    return [(st, False)]
                a, b = st.copy(), st.copy()
                a.mut(v.id).meta["nonempty"] = True
                ob = b.mut(v.id)
                empties = []
                ob.items = ()
                return [(a, True), (b, False)]
            if o.kind == "dict":
                if o.entries or o.meta.get("nonempty"):
                    return [(st, True)]
                if not o.weak:
                    return [(st, False)]
                a, b = st.copy(), st.copy()
                a.mut(v.id).meta["nonempty"] = True
                b.mut(v.id).weak = ()
                return [(a, True), (b, False)]
            if o.kind == "inst":
                for m in ("__bool__", "__len__"):
                    f = self.class_lookup(st, o.cls, m)
                    if f is not None and isinstance(f, FuncV):
                        out = []
                        for s, r in self.call(st, BoundV(f, v), (), {}, node):
                            if isinstance(r, Raise):
                                out.append((s, r))
                            else:
                                out.extend(self.truth(s, r, node))
                        return out
                return [(st, True)]
            return [(st, True)]
        if isinstance(v, Unk):
            return self.fork_atom(st, ("truth", v))
        if isinstance(v, Union):
            out = []
            for x in v.alts:
                out.extend(self.truth(st.copy(), x, node))
            return out
        return [(st, True)]

    def len_known(self, items):
        if any(isinstance(x, LStar) for x in items):
            return None
        return len(items)

    def test(self, node, st):
        """evaluate a condition: [(state, True/False/Raise)]"""
        if isinstance(node, ast.BoolOp):
            isand = isinstance(node.op, ast.And)
            cur = [(st, isand)]
            done = []
            for i, x in enumerate(node.values):
                nxt = []
                for s, b in cur:
                    nxt.extend(self.test(x, s))
                cur = []
                for s, b in nxt:
                    if isinstance(b, Raise) or b is not isand:
                        done.append((s, b))
                    else:
                        cur.append((s, b))
            return self.dedupe_tests(done + cur)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return [(s, b if isinstance(b, Raise) else not b) for s, b in self.test(node.operand, st)]
        out = []
        for s, v in self.ev(node, st):
            if isinstance(v, Raise):
                out.append((s, v))
            else:
                out.extend(self.truth(s, v, node))
        return out

    def dedupe_tests(self, outs):
        return outs

    # ------------------------------------------------------------------ statements
    def exec_block(self, body, st):
        """[(state, signal)]; signal None: falls through; ('ret', v) ('brk',) ('cont',) ('exc', ExcV)"""
        cur = [st]
        done = []
        for stmt in body:
            nxt = []
            for s in cur:
                for s2, sig in self.exec(stmt, s):
                    if sig is None:
                        nxt.append(s2)
                    else:
                        done.append((s2, sig))
            if len(nxt) > 1:
                nxt = self.dedupe(nxt)
            cur = nxt
            if not cur:
                break
        return done + [(s, None) for s in cur]

    def dedupe(self, sts):
        out = []
        for s in sts:
            for t in out:
                if s.envs.get(s.fr) == t.envs.get(t.fr) and self.same_state(s, t):
                    break
            else:
                out.append(s)
        mk = self.hooks.get("merge-key") or (lambda s: None)
        if len(out) > MERGE_CALL:
            # merge states with equal variables and heap, forgetting facts
            groups = []
            for s in out:
                key = mk(s)
                for g, gk in groups:
                    if gk == key and g[0].envs == s.envs and g[0].heap.keys() == s.heap.keys() and all(
                            g[0].heap[k] is s.heap[k] or g[0].heap[k].same(s.heap[k]) for k in s.heap):
                        g.append(s)
                        break
                else:
                    groups.append(([s], key))
            out = [self.join_states(g, ("dedupe",)) for g, _ in groups]
        if len(out) > MERGE_HEAP:
            # merge states with equal local variables
            groups = []
            for s in out:
                key = mk(s)
                for g, gk in groups:
                    if gk == key and g[0].envs.get(g[0].fr) == s.envs.get(s.fr):
                        g.append(s)
                        break
                else:
                    groups.append(([s], key))
            out = [self.join_states(g, ("dedupe2",)) for g, _ in groups]
        if len(out) > MAX_STATES:
            raise TooComplex(f"{len(out)} states in {self.frame.modname}:{self.frame.func and self.frame.func.qual}")
        return out

    def exec(self, node, st):
        self.steps += 1
        if self.steps > MAX_STEPS:
            raise TooComplex("step limit")
        m = getattr(self, "x_" + node.__class__.__name__, None)
        if m is None:
            raise AnalysisError(f"statement {node.__class__.__name__} at {self.site(node)}")
        return m(node, st)

    def after(self, results, fn=None):
        out = []
        for st, v in results:
            if isinstance(v, Raise):
                out.append((st, ("exc", v.exc)))
            elif fn is None:
                out.append((st, None))
            else:
                out.extend(fn(st, v))
        return out

    def x_Expr(self, node, st):
        if isinstance(node.value, ast.Constant):
            return [(st, None)]
        if isinstance(node.value, (ast.Yield, ast.YieldFrom)):
            return self.after(self.ev(node.value, st))
        return self.after(self.ev(node.value, st))

    def x_Pass(self, node, st):
        return [(st, None)]

    def x_Global(self, node, st):
        return [(st, None)]

    x_Nonlocal = x_Global

    def x_Assign(self, node, st):
        def f(s, v):
            outs = [(s, None)]
            for t in node.targets:
                nxt = []
                for s2, sig in outs:
                    if sig is not None:
                        nxt.append((s2, sig))
                    else:
                        nxt.extend(self.assign(t, v, s2))
                outs = nxt
            return outs
        return self.after(self.ev(node.value, st), f)

    def x_AnnAssign(self, node, st):
        if node.value is None:
            return [(st, None)]
        return self.after(self.ev(node.value, st), lambda s, v: self.assign(node.target, v, s))

    def x_AugAssign(self, node, st):
        t = node.target
        if isinstance(t, ast.Name):
            load = ast.copy_location(ast.Name(t.id, ast.Load()), t)
            return self.after(self.ev_many([load, node.value], st), lambda s, vs: self.after(
                self.inplace(s, node.op, vs[0], vs[1], node), lambda s2, r: self.assign(t, r, s2)))
        if isinstance(t, ast.Attribute):
            def f(s, vs):
                obj, val = vs
                return self.after(self.getattr(s, obj, self.mangled(t.attr), t), lambda s2, old: self.after(
                    self.inplace(s2, node.op, old, val, node),
                    lambda s3, r: self.setattr(s3, obj, self.mangled(t.attr), r, node)))
            return self.after(self.ev_many([t.value, node.value], st), f)
        if isinstance(t, ast.Subscript):
            def g(s, vs):
                obj, idx, val = vs
                return self.after(self.getitem(s, obj, idx, t), lambda s2, old: self.after(
                    self.inplace(s2, node.op, old, val, node),
                    lambda s3, r: self.setitem(s3, obj, idx, r, node)))
            return self.after(self.ev_many([t.value, t.slice, node.value], st), g)
        raise AnalysisError("augassign target")

    def inplace(self, st, op, a, b, node):
        if isinstance(a, Ref) and isinstance(op, ast.Add) and st.heap[a.id].kind == "list":
            return self.bind(self.models.list_extend(st, a, b, node), lambda s, v: [(s, a)])
        if isinstance(a, Ref) and isinstance(op, ast.BitOr) and st.heap[a.id].kind == "dict":
            return self.bind(self.models.m_dict_update(st, a, (b,), {}, node), lambda s, v: [(s, a)])
        if isinstance(a, Ref) and isinstance(op, ast.BitOr) and st.heap[a.id].kind == "set":
            return self.bind(self.models.list_extend(st, a, b, node), lambda s, v: [(s, a)])
        return self.binop(st, op, a, b, node)

    def x_Delete(self, node, st):
        outs = [(st, None)]
        for t in node.targets:
            nxt = []
            for s, sig in outs:
                if sig is not None:
                    nxt.append((s, sig))
                    continue
                if isinstance(t, ast.Name):
                    s = s.copy()
                    s.delvar(self.scope_of(s, t.id), t.id)
                    nxt.append((s, None))
                elif isinstance(t, ast.Subscript):
                    nxt.extend(self.after(self.ev_many([t.value, t.slice], s),
                                          lambda s2, vs: self.after(self.models.delitem(s2, vs[0], vs[1], node))))
                elif isinstance(t, ast.Attribute):
                    def f(s2, o, t=t):
                        if isinstance(o, Ref):
                            s2 = s2.copy()
                            s2.mut(o.id).fields.pop(self.mangled(t.attr), None)
                            self.mutated(s2, o, "delattr " + t.attr, node)
                        return [(s2, None)]
                    nxt.extend(self.after(self.ev(t.value, s), f))
                else:
                    nxt.append((s, None))
            outs = nxt
        return outs

    def x_Return(self, node, st):
        if node.value is None:
            return [(st, ("ret", NONE))]
        return self.after(self.ev(node.value, st), lambda s, v: [(s, ("ret", v))])

    def x_Break(self, node, st):
        return [(st, ("brk",))]

    def x_Continue(self, node, st):
        return [(st, ("cont",))]

    def x_If(self, node, st):
        out = []
        for s, b in self.test(node.test, st):
            if isinstance(b, Raise):
                out.append((s, ("exc", b.exc)))
            elif b:
                out.extend(self.exec_block(node.body, s))
            else:
                out.extend(self.exec_block(node.orelse, s))
        return out

    def x_Assert(self, node, st):
        out = []
        for s, b in self.test(node.test, st):
            if isinstance(b, Raise):
                out.append((s, ("exc", b.exc)))
            elif b:
                out.append((s, None))
            else:
                if node.msg is not None:
                    for s2, m in self.ev(node.msg, s):
                        if isinstance(m, Raise):
                            out.append((s2, ("exc", m.exc)))
                        else:
                            out.append((s2, ("exc", ExcV("AssertionError", (m,), self.site(node), "assert"))))
                else:
                    out.append((s, ("exc", ExcV("AssertionError", (), self.site(node), "assert"))))
        return out

    def x_Raise(self, node, st):
        if node.exc is None:
            e = self.frame.exc[-1] if self.frame.exc else ExcV("RuntimeError", (), self.site(node), "no active exception")
            return [(st, ("exc", e))]

        def f(s, v):
            if isinstance(v, ClassV):
                return self.after(self.call(s, v, (), {}, node), f)
            if isinstance(v, ExtV):
                return [(s, ("exc", ExcV(short_exc(v.name), (), self.site(node), "raise")))]
            if isinstance(v, ExcV):
                if v.why == "new":
                    v = ExcV(v.cls, v.args, self.site(node), "raise")
                return [(s, ("exc", v))]
            if isinstance(v, Ref):
                o = s.heap[v.id]
                return [(s, ("exc", ExcV(o.cls, (), self.site(node), "raise")))]
            return [(s, ("exc", ExcV("Exception?", (v,), self.site(node), "raise of unknown value")))]
        outs = self.after(self.ev(node.exc, st), f)
        return outs

    def x_FunctionDef(self, node, st):
        def f(s, fv):
            for d in reversed(node.decorator_list):
                fv = self.decorate(s, d, fv)
            s = s.copy()
            s.setvar(self.scope_of(s, node.name), self.mangled(node.name) if self.in_class(s) else node.name, fv)
            return [(s, None)]
        return self.after(self.make_func(node, st), f)

    x_AsyncFunctionDef = x_FunctionDef

    def in_class(self, st):
        return isinstance(st.fr, tuple) and st.fr[0] == "cls"

    def decorate(self, st, d, fv):
        name = None
        e = d.func if isinstance(d, ast.Call) else d
        for s, v in self.ev(e, st):
            if isinstance(v, ExtV):
                name = v.name
            elif isinstance(v, FuncV):
                r = self.call(st, v, (fv,), {}, d) if not isinstance(d, ast.Call) else None
                if r and len(r) == 1 and not isinstance(r[0][1], Raise):
                    st.envs, st.heap = r[0][0].envs, r[0][0].heap
                    return r[0][1]
                return Unk(("decorated", self.site(d)))
        if name in ("builtins.property", "functools.cached_property"):
            return Wrap("property", fv)
        if name == "builtins.staticmethod":
            return Wrap("static", fv)
        if name == "builtins.classmethod":
            return Wrap("class", fv)
        if name in ("contextlib.contextmanager",):
            return Wrap("ctxmgr", fv)
        if name in ("functools.lru_cache", "functools.cache"):
            return Wrap("cache", fv)
        if name in ("functools.wraps", "typing.overload", "typing.no_type_check", "abc.abstractmethod"):
            return fv
        if isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter"):
            return fv
        return fv

    def make_func(self, node, st):
        a = node.args
        dnodes = list(a.defaults) + [d for d in a.kw_defaults if d is not None]
        pos = a.posonlyargs + a.args
        names = [x.arg for x in pos[len(pos) - len(a.defaults):]] + \
                [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        fi = self.functions[node._fid]
        closure = []
        if not (isinstance(st.fr, tuple) and st.fr[0] in ("mod", "cls")):
            closure = [st.fr] + list(self.frame.func_closure if hasattr(self.frame, "func_closure") else ())
        elif self.frame.func is not None or getattr(self.frame, "func_closure", ()):
            closure = list(getattr(self.frame, "func_closure", ()))

        def f(s, vs):
            return [(s, FuncV(node._fid, tuple(closure), tuple(zip(names, vs)), fi.clskey))]
        return self.bind(self.ev_many(dnodes, st), f)

    def x_ClassDef(self, node, st):
        key = node._ckey

        def f(s, bases):
            env = ("cls", key)
            s = s.copy()
            s.envs[env] = {"__name__": Const(node.name), "__qualname__": Const(key[1])}
            self.classes[key] = dict(bases=tuple(bases), env=env, name=node.name, node=node)
            self.classes[key]["mro"] = self.c3(key)
            old = s.fr
            s.fr = env
            fr = Frame(self.frame.func, node, env, self.frame.ctx + (("c", node.name),), None, self.frame.modname, key)
            fr.func_closure = ([old] if not (isinstance(old, tuple) and old[0] in ("mod", "cls")) else []) + list(getattr(self.frame, "func_closure", ()))
            self.frames.append(fr)
            outs = self.exec_block(node.body, s)
            self.frames.pop()
            res = []
            for s2, sig in outs:
                s2.fr = old
                if sig is None:
                    s2 = s2.copy()
                    decs = [self.decname(d) for d in node.decorator_list]
                    if any(d and d.endswith("dataclass") for d in decs):
                        self.classes[key]["dataclass"] = True
                    s2.setvar(self.scope_of(s2, node.name), node.name, ClassV(key))
                res.append((s2, sig))
            return res
        return self.after(self.ev_many(node.bases, st), f)

    def decname(self, d):
        d = d.func if isinstance(d, ast.Call) else d
        return ast.unparse(d)

    def c3(self, key):
        def lin(b):
            if isinstance(b, ClassV):
                return list(self.classes[b.key]["mro"])
            return [b]
        bases = [b for b in self.classes[key]["bases"]]
        seqs = [lin(b) for b in bases] + [list(bases)]
        res = [ClassV(key)]
        while any(seqs):
            seqs = [s for s in seqs if s]
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                raise AnalysisError("mro")
            res.append(c)
            seqs = [[x for x in s if x != c] for s in seqs]
        return res

    def x_Import(self, node, st):
        st = st.copy()
        for al in node.names:
            if self.in_package(al.name):
                self.load(al.name, st)
                v = ModV(al.name if al.asname else al.name.split(".")[0])
            else:
                v = ExtV(al.name if al.asname else al.name.split(".")[0])
            n = al.asname or al.name.split(".")[0]
            st.setvar(self.scope_of(st, n), n, v)
        return [(st, None)]

    def x_ImportFrom(self, node, st):
        st = st.copy()
        mod = node.module or ""
        if node.level:
            path = self.modfile(self.frame.modname)
            pk = self.frame.modname.split(".")
            if not path.endswith("__init__.py"):
                pk = pk[:-1]
            pk = pk[:len(pk) - node.level + 1]
            mod = ".".join(pk + ([mod] if mod else []))
        for al in node.names:
            n = al.asname or al.name
            if mod == "__future__":
                continue
            if self.in_package(mod):
                self.load(mod, st)
                env = st.envs[("mod", mod)]
                if al.name == "*":
                    for k, v in list(env.items()):
                        if not k.startswith("_"):
                            st.setvar(self.scope_of(st, k), k, v)
                    continue
                if al.name in env:
                    v = env[al.name]
                elif self.in_package(f"{mod}.{al.name}"):
                    v = self.load(f"{mod}.{al.name}", st)
                else:
                    return [(st, ("exc", ExcV("ImportError", (), self.site(node), f"cannot import {al.name} from {mod}")))]
            else:
                v = self.models.ext_const(f"{mod}.{al.name}")
            st.setvar(self.scope_of(st, n), n, v)
        return [(st, None)]

    # -- try / with -------------------------------------------------------------
    def exc_matches(self, exc, handler):
        """True / False / None (maybe)"""
        if isinstance(handler, TupV):
            rs = [self.exc_matches(exc, h) for h in handler.items]
            if True in rs:
                return True
            return None if None in rs else False
        ec = exc.cls
        if isinstance(handler, ClassV):
            if isinstance(ec, ClassV):
                return handler in self.classes[ec.key]["mro"]
            return None if ec == "Exception?" else False
        if isinstance(handler, ExtV):
            hn = short_exc(handler.name)
            if isinstance(ec, ClassV):
                for b in self.classes[ec.key]["mro"]:
                    if isinstance(b, ExtV) and sub_exc(short_exc(b.name), hn):
                        return True
                return hn in ("Exception", "BaseException")
            if ec == "Exception?":
                return True if hn in ("Exception", "BaseException") else None
            return sub_exc(ec, hn)
        return None

    def x_Try(self, node, st):
        outs = self.exec_block(node.body, st)
        res = []
        for s, sig in outs:
            if sig is None:
                res.extend(self.exec_block(node.orelse, s) if node.orelse else [(s, None)])
            elif sig[0] == "exc":
                pend = [(s, sig[1])]
                for h in node.handlers:
                    if not pend:
                        break
                    nxt = []
                    for s2, e in pend:
                        if h.type is None:
                            res.extend(self.handle(h, s2, e))
                            continue
                        for s3, t in self.ev(h.type, s2):
                            if isinstance(t, Raise):
                                res.append((s3, ("exc", t.exc)))
                                continue
                            m = self.exc_matches(e, t)
                            if m is True:
                                res.extend(self.handle(h, s3, e))
                            elif m is None:
                                res.extend(self.handle(h, s3.copy(), e))
                                nxt.append((s3, e))
                            else:
                                nxt.append((s3, e))
                    pend = nxt
                res.extend((s2, ("exc", e)) for s2, e in pend)
            else:
                res.append((s, sig))
        if node.finalbody:
            fin = []
            for s, sig in res:
                for s2, sig2 in self.exec_block(node.finalbody, s):
                    fin.append((s2, sig if sig2 is None else sig2))
            res = fin
        return res

    x_TryStar = x_Try

    def handle(self, h, st, e):
        st = st.copy()
        if h.name:
            st.setvar(self.scope_of(st, h.name), h.name, e)
        self.frame.exc.append(e)
        outs = self.exec_block(h.body, st)
        self.frame.exc.pop()
        return outs

    def x_With(self, node, st):
        def go(items, s):
            if not items:
                return self.exec_block(node.body, s)
            it = items[0]

            def f(s2, cm):
                return self.with_item(s2, cm, it, lambda s3: go(items[1:], s3), node)
            return self.after(self.ev(it.context_expr, s), f)
        return go(node.items, st)

    x_AsyncWith = x_With

    def with_item(self, st, cm, it, body, node):
        def enter(s, v):
            if it.optional_vars is not None:
                return self.assign(it.optional_vars, v, s)
            return [(s, None)]
        if isinstance(cm, Partial) and isinstance(cm.func, Wrap) and cm.func.kind == "ctxmgr":
            # @contextmanager: run the generator body; the with-body runs at the yield
            inner = cm.func.func
            fr = self.frame
            cur_fr = st.fr

            def hook(s, v):
                # executes the with body in the caller's frame
                gen_fr = s.fr
                gen_frame = self.frames.pop()
                s = s.copy()
                s.fr = cur_fr
                outs = []
                for s2, sig in enter(s, v):
                    if sig is not None:
                        outs.append((s2, sig))
                    else:
                        outs.extend(body(s2))
                self.frames.append(gen_frame)
                res = []
                for s2, sig in outs:
                    s2 = s2.copy()
                    s2.fr = gen_fr
                    if sig is None:
                        res.append((s2, NONE))
                    elif sig[0] == "exc":
                        res.append((s2, Raise(sig[1])))
                    else:
                        # return/break inside the with body: remember it, continue generator
                        s2.setvar(gen_fr, "<sig>", Const(("sig", id(sig))))
                        self._sigs[id(sig)] = sig
                        res.append((s2, NONE))
                return res
            outs = self.call_func(st, inner, cm.args, dict(cm.kwargs), node, yield_hook=hook, want_sig=True)
            res = []
            for s, v, sig in outs:
                if isinstance(v, Raise):
                    res.append((s, ("exc", v.exc)))
                else:
                    res.append((s, sig))
            return res
        if isinstance(cm, Ref) and st.heap[cm.id].kind == "inst" and self.class_lookup(st, st.heap[cm.id].cls, "__enter__") is not None:
            outs = []
            for s, v in self.bind(self.getattr(st, cm, "__enter__", node), lambda s, f: self.call(s, f, (), {}, node)):
                if isinstance(v, Raise):
                    outs.append((s, ("exc", v.exc)))
                    continue
                for s2, sig in enter(s, v):
                    if sig is not None:
                        outs.append((s2, sig))
                        continue
                    for s3, sig3 in body(s2):
                        isx = sig3 is not None and sig3[0] == "exc"
                        args = (Unk(("exctype",)), sig3[1], NONE) if isx else (NONE, NONE, NONE)
                        for s4, r in self.bind(self.getattr(s3, cm, "__exit__", node),
                                               lambda s, f: self.call(s, f, args, {}, node)):
                            if isinstance(r, Raise):
                                outs.append((s4, ("exc", r.exc)))
                            elif isx:
                                for s5, b in self.truth(s4, r, node):
                                    outs.append((s5, None if b else sig3))
                            else:
                                outs.append((s4, sig3))
            return outs
        # external context managers
        return self.models.with_ext(st, cm, enter, body, node)

    _sigs = {}

    # -- loops --------------------------------------------------------------------
    def x_For(self, node, st):
        def f(s, it):
            return self.after(self.models.iterate(s, it, node), lambda s2, items: self.for_items(node, s2, items))
        outs = self.after(self.ev(node.iter, st), f)
        return outs

    x_AsyncFor = x_For

    def for_items(self, node, st, items):
        """items: tuple of V | LStar"""
        return self.loop_items(st, items, lambda s, v: self.assign(node.target, v, s),
                               lambda s: self.exec_block(node.body, s),
                               lambda s: self.exec_block(node.orelse, s) if node.orelse else [(s, None)],
                               node)

    def loop_items(self, st, items, assign, body, orelse, node):
        out = []        # leaving signals
        brk = []
        cur = [st]

        iteration = self.hooks.get("iteration")

        def one(s, v):
            """one iteration: returns states continuing"""
            cont = []
            for s1, sig in assign(s, v):
                if sig is not None:
                    out.append((s1, sig))
                    continue
                for s2, sig2 in body(s1):
                    if iteration and (sig2 is None or sig2[0] != "exc"):
                        iteration(self, v, s2, node)
                    if sig2 is None or sig2[0] == "cont":
                        cont.append(s2)
                    elif sig2[0] == "brk":
                        brk.append(s2)
                    else:
                        out.append((s2, sig2))
            return cont
        for n_it, it in enumerate(items):
            if not isinstance(it, LStar):
                nxt = []
                for s in cur:
                    if isinstance(it, Union):
                        for alt in it.alts:
                            nxt.extend(one(s.copy(), alt))
                    else:
                        nxt.extend(one(s, it))
                cur = self.dedupe(nxt) if len(nxt) > 1 else nxt
            else:
                nxt = []
                for s in cur:
                    nb0 = len(brk)
                    nxt.append(self.loop_star(s, it, one, node, n_it, lambda: len(brk) == nb0))
                cur = self.dedupe(nxt) if len(nxt) > 1 else nxt
            if not cur:
                break
        res = out
        for s in cur:
            res.extend(orelse(s))
        res.extend((s, None) for s in brk)
        return res

    def loop_star(self, base, star, one, node, n_it, nobreak):
        loopid = self.sid(node, "loop") + (n_it,)
        info = {}
        head = base
        for rnd in range(60):
            backs = []
            for alt in sorted(star.alts, key=hash):
                states = [self.fresh_iter(head, star, alt)]
                for e in alt:
                    nxt = []
                    for s in states:
                        for x in (e.alts if isinstance(e, Union) else (e,)):
                            if isinstance(x, LStar):
                                nb = [self.loop_star(s.copy(), x, one, node, (n_it, rnd), nobreak)]
                                nxt.extend(nb)
                            else:
                                nxt.extend(one(s.copy(), x))
                    states = nxt
                backs.extend(states)
            if not backs:
                return head
            backs = self.dedupe(backs)
            new = self.widen(info, base, head, backs, star.origin, star.each and nobreak(), loopid)
            if self.same_state(new, head):
                return head
            if DEBUG_LOOPS and rnd in (15, 16, 30):
                self.diff_state(head, new, self.site(node), rnd)
            head = new
        raise TooComplex(f"loop at {self.site(node)} does not stabilise")

    def fresh_iter(self, st, star, alt):
        """forget what earlier iterations learnt about the element"""
        s = st.copy()
        srcs = srcs_in(alt)
        for id in sorted(refs(alt), key=hash):
            o = s.heap.get(id)
            if o is not None and o.meta.get("sym"):
                s.heap[id] = self.new_sym_obj(id)
                self.forget(s, id)
                s.dom.pop(Hole(("kind", id), ()), None)
                if o.meta.get("cands0"):
                    s.heap[id].meta["cands"] = s.heap[id].meta["cands0"] = o.meta["cands0"]
                if o.meta.get("kinds"):
                    s.heap[id].meta["kinds"] = o.meta["kinds"]
                    s.dom[Hole(("kind", id), ())] = ("in", o.meta["kinds"])
        if srcs:
            def about(k):
                return not srcs.isdisjoint(srcs_in(k))
            for h in [h for h in s.dom if about(h) or h in srcs]:
                del s.dom[h]
            for a in [a for a in s.facts if about(a)]:
                del s.facts[a]
        return s

    def x_While(self, node, st):
        # concrete unrolling as long as the condition is decided
        out = []
        cur = st
        for n in range(200):
            tests = self.test(node.test, cur)
            if len(tests) != 1 or isinstance(tests[0][1], Raise) or n == 199:
                break
            s, b = tests[0]
            if not b:
                out.extend(self.exec_block(node.orelse, s) if node.orelse else [(s, None)])
                return out
            outs = self.exec_block(node.body, s)
            cont = [x for x, sig in outs if sig is None or sig[0] == "cont"]
            if any(sig is not None and sig[0] == "brk" for x, sig in outs) and len(outs) > 1 or len(cont) > 1:
                break
            if n > 60 or (isinstance(node.test, ast.Constant) and n > 2):
                break
            for x, sig in outs:
                if sig is not None and sig[0] == "brk":
                    out.append((x, None))
                elif sig is not None and sig[0] not in ("cont",):
                    out.append((x, sig))
            if not cont:
                return out
            cur = cont[0]
        # abstract fixpoint from cur
        base = cur
        loopid = self.sid(node, "while")
        info = {}
        head = base
        for rnd in range(60):
            backs = []
            brks = []
            exits = []
            leave = []
            for s, b in self.test(node.test, head.copy()):
                if isinstance(b, Raise):
                    leave.append((s, ("exc", b.exc)))
                elif not b:
                    exits.append(s)
                else:
                    for s2, sig in self.exec_block(node.body, s):
                        if sig is None or sig[0] == "cont":
                            backs.append(s2)
                        elif sig[0] == "brk":
                            brks.append(s2)
                        else:
                            leave.append((s2, sig))
            stable = True
            if backs:
                backs = self.dedupe(backs)
                new = self.widen(info, base, head, backs, ("while", loopid), False, loopid)
                stable = self.same_state(new, head)
                head = new
            if stable:
                res = out + leave + [(s, None) for s in brks]
                for s in exits:
                    res.extend(self.exec_block(node.orelse, s) if node.orelse else [(s, None)])
                return res
        raise TooComplex(f"while at {self.site(node)} does not stabilise")

    def x_Match(self, node, st):
        def f(s, subj):
            out = []
            cur = [s]
            for case in node.cases:
                nxt = []
                for s2 in cur:
                    for s3, b in self.match_pat(case.pattern, subj, s2):
                        if b and case.guard is not None:
                            for s4, g in self.test(case.guard, s3):
                                if isinstance(g, Raise):
                                    out.append((s4, ("exc", g.exc)))
                                elif g:
                                    out.extend(self.exec_block(case.body, s4))
                                else:
                                    nxt.append(s4)
                        elif b:
                            out.extend(self.exec_block(case.body, s3))
                        else:
                            nxt.append(s3)
                cur = nxt
            return out + [(s2, None) for s2 in cur]
        return self.after(self.ev(node.subject, st), f)

    def match_pat(self, p, v, st):
        if isinstance(p, ast.MatchValue):
            out = []
            for s, c in self.ev(p.value, st):
                for s2, b in self.models.equal(s, v, c, p):
                    out.append((s2, b))
            return out
        if isinstance(p, ast.MatchSingleton):
            return [(s, b) for s, b in self.models.is_(st, v, Const(p.value), p)]
        if isinstance(p, ast.MatchOr):
            out = []
            cur = [st]
            for q in p.patterns:
                nxt = []
                for s in cur:
                    for s2, b in self.match_pat(q, v, s):
                        (out.append((s2, True)) if b else nxt.append(s2))
                cur = nxt
            return out + [(s, False) for s in cur]
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                s = st
                if p.name:
                    s = st.copy()
                    s.setvar(self.scope_of(s, p.name), p.name, v)
                return [(s, True)]
            out = []
            for s, b in self.match_pat(p.pattern, v, st):
                if b and p.name:
                    s = s.copy()
                    s.setvar(self.scope_of(s, p.name), p.name, v)
                out.append((s, b))
            return out
        raise AnalysisError(f"pattern {p.__class__.__name__}")

    # ------------------------------------------------------------------ assignment
    def mangled(self, name):
        return mangle(name, self.frame.clskey)

    def scope_of(self, st, name):
        fr = st.fr
        f = self.frame.func
        if f is not None and not (isinstance(fr, tuple) and fr[0] == "cls"):
            if name in f.globals:
                return ("mod", f.modname)
            if name in f.nonlocals:
                for e in getattr(self.frame, "func_closure", ()):
                    if name in st.envs.get(e, {}):
                        return e
        return fr

    def assign(self, t, v, st):
        """[(state, signal)]"""
        if isinstance(t, ast.Name):
            st = st.copy()
            env = self.scope_of(st, t.id)
            if env[0] == "mod" and self.frame.func is not None:
                self.event("static-write", ("global", env[1], t.id), st, t)
            st.setvar(env, self.mangled(t.id) if self.in_class(st) else t.id, v)
            return [(st, None)]
        if isinstance(t, (ast.Tuple, ast.List)):
            return self.unpack(t, v, st)
        if isinstance(t, ast.Attribute):
            return self.after(self.ev(t.value, st), lambda s, o: self.setattr(s, o, self.mangled(t.attr), v, t))
        if isinstance(t, ast.Subscript):
            return self.after(self.ev_many([t.value, t.slice], st),
                              lambda s, vs: self.setitem(s, vs[0], vs[1], v, t))
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st)
        raise AnalysisError(f"assign target {t}")

    def unpack(self, t, v, st):
        n = len(t.elts)
        star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]

        def with_items(s, items):
            k = self.len_known(items)
            if k is None:
                # unknown length
                elems = flat_items(items)
                out = [(s.copy(), ("exc", ExcV("ValueError", (), self.site(t), "wrong number of values to unpack")))]
                if s.facts.get(("unpackable", items, n)):
                    out = []
                e = elems[0] if len(elems) == 1 else Union(frozenset(elems)) if elems else None
                if e is None:
                    return out
                outs = [(s, None)]
                for x in t.elts:
                    nxt = []
                    for s2, sig in outs:
                        nxt.extend(self.assign(x, e, s2) if sig is None else [(s2, sig)])
                    outs = nxt
                return out + outs
            if star:
                i = star[0]
                if k < n - 1:
                    return [(s, ("exc", ExcV("ValueError", (), self.site(t), "not enough values to unpack")))]
                tail = n - i - 1
                mid = items[i:k - tail]
                ref = None
                s = s.copy()
                ref = self.alloc(s, t, "starlist", HObj("list", items=tuple(mid)))
                vals = list(items[:i]) + [ref] + list(items[k - tail:] if tail else [])
            else:
                if k != n:
                    return [(s, ("exc", ExcV("ValueError", (), self.site(t), f"unpack {k} values into {n}")))]
                vals = list(items)
            outs = [(s, None)]
            for x, val in zip(t.elts, vals):
                nxt = []
                for s2, sig in outs:
                    nxt.extend(self.assign(x, val, s2) if sig is None else [(s2, sig)])
                outs = nxt
            return outs
        if isinstance(v, Unk):
            outs = [(st, None)]
            for i, x in enumerate(t.elts):
                nxt = []
                for s2, sig in outs:
                    nxt.extend(self.assign(x, Unk(("item", v, i)), s2) if sig is None else [(s2, sig)])
                outs = nxt
            return outs
        if isinstance(v, ExcV):
            return [(st, ("exc", ExcV("TypeError", (), self.site(t), "unpack")))]
        return self.after(self.models.iterate(st, v, t), with_items)

    def setattr(self, st, obj, name, v, node):
        if isinstance(obj, Union):
            out = []
            for o in obj.alts:
                out.extend(self.setattr(st.copy(), o, name, v, node))
            return out
        if isinstance(obj, Ref):
            o = st.heap[obj.id]
            if o.kind == "inst":
                w = self.class_lookup(st, o.cls, name)
                if isinstance(w, Wrap) and w.kind == "property":
                    return [(st, None)]
            st = st.copy()
            self.mutated(st, obj, f"attribute {name}", node)
            self.stored(st, obj, v)
            n = st.mut(obj.id)
            if n.meta.get("summary"):
                n.fields[name] = self.join_value(n.fields.get(name), v, ("f", obj.id, name)) if name in n.fields else v
            else:
                n.fields[name] = v
            if n.meta.get("sym"):
                n.meta["dirty"] = True
                n.meta.pop("rec", None)
                if name == "kind":
                    n.meta.pop("cands", None)
            elif self.is_sym_cls(n):
                n.meta.pop("rec", None)
                self.record(st, obj.id, False)
            return [(st, None)]
        if isinstance(obj, ClassV):
            st = st.copy()
            if self.frame.func is not None:
                self.event("static-write", ("class", obj.key, name), st, node)
            st.setvar(("cls", obj.key), name, v)
            return [(st, None)]
        if isinstance(obj, ModV):
            st = st.copy()
            if self.frame.func is not None:
                self.event("static-write", ("module", obj.name, name), st, node)
            st.setvar(("mod", obj.name), name, v)
            return [(st, None)]
        if isinstance(obj, (ExtV, Meth)):
            self.event("static-write", ("external", obj.name, name), st, node)
            return [(st, None)]
        if isinstance(obj, Unk):
            self.event("caller-write", (obj.src, name), st, node)
            return [(st, None)]
        if isinstance(obj, (FuncV, BoundV, Wrap)):
            self.event("static-write", ("function attribute", repr(obj), name), st, node)
            return [(st, None)]
        return [(st, ("exc", ExcV("AttributeError", (), self.site(node), f"cannot set {name} on {tname(obj)}")))]

    def stored(self, st, ref, v):
        """remember in the facts of the state that v is now in the object (if a check asks for it)"""
        h = self.hooks.get("stored")
        if h and not self.modloading:
            for k in h(st, v, ref):
                st.facts[("stored",) + k] = True

    def mutated(self, st, ref, what, node):
        if self.modloading:
            return
        h = self.hooks.get("mutated")
        if h:
            h(self, st, ref, what, node)
        o = st.heap[ref.id]
        if isinstance(ref.id, tuple) and ref.id[0] in LAZY and not o.meta.get("dirty"):
            st.mut(ref.id).meta["dirty"] = True
        if o.meta.get("static"):
            self.event("static-write", ("object", ref, what), st, node)
        if o.meta.get("caller"):
            self.event("caller-write", (o.meta["caller"], what), st, node)

    def setitem(self, st, obj, idx, v, node):
        return self.after(self.models.setitem(st, obj, idx, v, node))

    # ------------------------------------------------------------------ expressions
    def ev(self, node, st):
        self.steps += 1
        if self.steps > MAX_STEPS:
            raise TooComplex("step limit")
        m = getattr(self, "e_" + node.__class__.__name__, None)
        if m is None:
            raise AnalysisError(f"expression {node.__class__.__name__} at {self.site(node)}")
        return m(node, st)

    def ev_many(self, nodes, st):
        """[(state, list of values)] or (state, Raise)"""
        cur = [(st, [])]
        out = []
        for n in nodes:
            nxt = []
            for s, vs in cur:
                if isinstance(n, ast.Starred):
                    for s2, v in self.ev(n.value, s):
                        if isinstance(v, Raise):
                            out.append((s2, v))
                        else:
                            nxt.append((s2, vs + [("*", v)]))
                    continue
                for s2, v in self.ev(n, s):
                    if isinstance(v, Raise):
                        out.append((s2, v))
                    else:
                        nxt.append((s2, vs + [v]))
            cur = nxt
        return out + cur

    def e_Constant(self, node, st):
        return [(st, Const(node.value))]

    def e_Name(self, node, st):
        return self.load_name(node.id, st, node)

    def load_name(self, name, st, node):
        fr = st.fr
        envs = [fr]
        f = self.frame.func
        clo = getattr(self.frame, "func_closure", ())
        incls = isinstance(fr, tuple) and fr[0] == "cls"
        if f is not None and not incls and name in f.locals and name not in st.envs[fr]:
            return [self.exc(st, node, "UnboundLocalError", f"local {name!r} used before assignment")]
        envs += list(clo)
        for e in envs:
            env = st.envs.get(e)
            if env is not None and name in env:
                return self.resolve(st, env[name], lambda s, v, e=e: s.setvar(e, name, v), node, name)
            if incls and e is fr:
                mn = self.mangled(name)
                if env is not None and mn in env:
                    return [(st, env[mn])]
        m = ("mod", self.frame.modname)
        if name in st.envs[m]:
            return self.resolve(st, st.envs[m][name], lambda s, v: s.setvar(m, name, v), node, name)
        v = self.models.builtin(name)
        if v is None:
            return [self.exc(st, node, "NameError", f"name {name!r} is not defined")]
        return [(st, v)]

    def resolve(self, st, v, store, node, name=""):
        """unions stored in a slot are partitioned when read"""
        if isinstance(v, Union):
            out = []
            for x in sorted(v.alts, key=hash):
                s = st.copy()
                if x == UNSET:
                    out.append(self.exc(s, node, "UnboundLocalError", f"{name!r} may be unset"))
                    continue
                store(s, x)
                out.append((s, x))
            return out
        return [(st, v)]

    def e_Attribute(self, node, st):
        return self.bind(self.ev(node.value, st), lambda s, o: self.getattr(s, o, self.mangled(node.attr), node))

    def e_Subscript(self, node, st):
        return self.bind(self.ev_many([node.value, node.slice], st),
                         lambda s, vs: self.getitem(s, vs[0], vs[1], node))

    def e_Slice(self, node, st):
        parts = [x if x is not None else ast.copy_location(ast.Constant(None), node)
                 for x in (node.lower, node.upper, node.step)]
        return self.bind(self.ev_many(parts, st), lambda s, vs: [(s, SliceV(*vs))])

    def e_Tuple(self, node, st):
        return self.bind(self.ev_many(node.elts, st), lambda s, vs: self.flatten_star(s, vs, node,
                         lambda s2, items: [(s2, TupV(tuple(items)))]))

    def e_List(self, node, st):
        def mk(s, items):
            s = s.copy()
            return [(s, self.alloc(s, node, "list", HObj("list", items=tuple(items))))]
        return self.bind(self.ev_many(node.elts, st), lambda s, vs: self.flatten_star(s, vs, node, mk))

    def e_Set(self, node, st):
        def mk(s, items):
            s = s.copy()
            return [(s, self.alloc(s, node, "set", HObj("set", items=tuple(dict.fromkeys(items)))))]
        return self.bind(self.ev_many(node.elts, st), lambda s, vs: self.flatten_star(s, vs, node, mk))

    def flatten_star(self, st, vs, node, k):
        cur = [(st, ())]
        out = []
        for v in vs:
            nxt = []
            for s, items in cur:
                if isinstance(v, tuple) and v[0] == "*":
                    for s2, its in self.models.iterate(s, v[1], node):
                        if isinstance(its, Raise):
                            out.append((s2, its))
                        else:
                            nxt.append((s2, items + tuple(its)))
                else:
                    nxt.append((s, items + (v,)))
            cur = nxt
        for s, items in cur:
            out.extend(k(s, items))
        return out

    def e_Dict(self, node, st):
        nodes = []
        for k, v in zip(node.keys, node.values):
            nodes.append(k if k is not None else ast.copy_location(ast.Constant("**"), node))
            nodes.append(v)

        def f(s, vs):
            s = s.copy()
            ref = self.alloc(s, node, "dict", HObj("dict"))
            outs = [(s, NONE)]
            for i, kn in enumerate(node.keys):
                k, v = vs[2 * i], vs[2 * i + 1]
                nxt = []
                for s2, r in outs:
                    if isinstance(r, Raise):
                        nxt.append((s2, r))
                    elif kn is None:
                        nxt.extend(self.models.m_dict_update(s2, ref, (v,), {}, node))
                    else:
                        nxt.extend(self.models.setitem(s2, ref, k, v, node, quiet=True))
                outs = nxt
            return [(s2, r if isinstance(r, Raise) else ref) for s2, r in outs]
        return self.bind(self.ev_many(nodes, st), f)

    def e_JoinedStr(self, node, st):
        def f(s, vs):
            ps = []
            for v in vs:
                ps.extend(parts_of(v))
            return [(s, mk_str(ps))]
        return self.bind(self.ev_many(node.values, st), f)

    def e_FormattedValue(self, node, st):
        def f(s, vs):
            v = vs[0]
            spec = vs[1] if len(vs) > 1 else EMPTY
            conv = {115: "s", 114: "r", 97: "a"}.get(node.conversion)
            if conv == "r" or conv == "a":
                return self.bind(self.models.repr_(s, v, node), lambda s2, r: self.models.format_(s2, r, spec, node))
            if conv == "s":
                return self.bind(self.models.str_(s, v, node), lambda s2, r: self.models.format_(s2, r, spec, node))
            return self.models.format_(s, v, spec, node)
        nodes = [node.value] + ([node.format_spec] if node.format_spec is not None else [])
        return self.bind(self.ev_many(nodes, st), f)

    def e_BinOp(self, node, st):
        return self.bind(self.ev_many([node.left, node.right], st),
                         lambda s, vs: self.binop(s, node.op, vs[0], vs[1], node))

    def binop(self, st, op, a, b, node):
        return self.models.binop(st, op, a, b, node)

    def e_UnaryOp(self, node, st):
        if isinstance(node.op, ast.Not):
            return [(s, b if isinstance(b, Raise) else Const(not b)) for s, b in self.test(node.operand, st)]

        def f(s, v):
            if isinstance(v, Const) and isinstance(v.v, (int, float)):
                return [(s, Const(-v.v if isinstance(node.op, ast.USub) else +v.v if isinstance(node.op, ast.UAdd) else ~v.v))]
            if isinstance(v, Num):
                lo, hi = self.num_range(s, v)
                return [(s, Num(("neg", v.src), None if hi is None else -hi, None if lo is None else -lo))]
            if isinstance(v, Unk):
                return [(s, Unk(("neg", v)))]
            return [self.exc(s, node, "TypeError", f"bad operand for unary operator: {tname(v)}")]
        return self.bind(self.ev(node.operand, st), f)

    def e_BoolOp(self, node, st):
        isand = isinstance(node.op, ast.And)
        cur = [st]
        out = []
        for i, x in enumerate(node.values):
            last = i == len(node.values) - 1
            nxt = []
            for s in cur:
                for s2, v in self.ev(x, s):
                    if isinstance(v, Raise) or last:
                        out.append((s2, v))
                        continue
                    for s3, b in self.truth(s2, v, node):
                        if isinstance(b, Raise):
                            out.append((s3, b))
                        elif b is isand:
                            nxt.append(s3)
                        else:
                            v3 = self.simplify(s3, v)
                            if not b and is_str(v3):
                                h = self.single_hole(v3)
                                v3 = EMPTY if h is None or True else v3
                            out.append((s3, v3))
            cur = nxt
        return out

    def e_Compare(self, node, st):
        cur = [(st, None)]
        out = []
        # evaluate left then chain
        results = self.ev(node.left, st)
        cur = []
        for s, v in results:
            if isinstance(v, Raise):
                out.append((s, v))
            else:
                cur.append((s, v))
        for i, (op, right) in enumerate(zip(node.ops, node.comparators)):
            last = i == len(node.ops) - 1
            nxt = []
            for s, l in cur:
                for s2, r in self.ev(right, s):
                    if isinstance(r, Raise):
                        out.append((s2, r))
                        continue
                    for s3, b in self.models.compare(s2, op, l, r, node):
                        if isinstance(b, Raise):
                            out.append((s3, b))
                        elif b is False:
                            out.append((s3, FALSE))
                        elif last:
                            out.append((s3, TRUE if b is True else b))
                        else:
                            nxt.append((s3, r))
            cur = nxt
        return out

    def e_IfExp(self, node, st):
        out = []
        for s, b in self.test(node.test, st):
            if isinstance(b, Raise):
                out.append((s, b))
            else:
                out.extend(self.ev(node.body if b else node.orelse, s))
        return out

    def e_Lambda(self, node, st):
        return self.make_func(node, st)

    def e_NamedExpr(self, node, st):
        def f(s, v):
            outs = self.assign(node.target, v, s)
            return [(s2, v) for s2, sig in outs]
        return self.bind(self.ev(node.value, st), f)

    def e_Starred(self, node, st):
        return self.ev(node.value, st)

    def e_Await(self, node, st):
        return self.ev(node.value, st)

    def e_Yield(self, node, st):
        def f(s, v):
            hook = self.frame.yield_hook
            if hook is None:
                raise AnalysisError(f"yield at {self.site(node)}")
            return hook(s, v)
        if node.value is None:
            return f(st, NONE)
        return self.bind(self.ev(node.value, st), f)

    def e_YieldFrom(self, node, st):
        def f(s, it):
            hook = self.frame.yield_hook

            def g(s2, items):
                acc = s2.envs[s2.fr]["<yield>"]
                s2 = s2.copy()
                s2.mut(acc.id).items += tuple(items)
                return [(s2, NONE)]
            return self.bind(self.models.iterate(s, it, node), g)
        return self.bind(self.ev(node.value, st), f)

    # comprehensions -------------------------------------------------------------
    def comp(self, node, st, tag, emit):
        """runs the generators; emit(state) -> [(state, sig)] adds one element to the accumulator"""
        accname = f"<acc{node.lineno}:{node.col_offset}>"
        st = st.copy()
        acc = self.alloc(st, node, tag, HObj("list" if tag != "dictcomp" else "dict"))
        st.setvar(st.fr, accname, acc)
        # comprehension variables are local: save shadowed names
        targets = set()
        for g in node.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    targets.add(n.id)
        f = self.frame.func
        fr = st.fr
        saved = {n: st.envs[fr].get(n) for n in targets}

        def gen(i, s):
            if i == len(node.generators):
                return self.comp_emit(s, fr, accname, emit)
            g = node.generators[i]

            def with_items(s2, items):
                def body(s3):
                    cur = [s3]
                    out = []
                    for c in g.ifs:
                        nxt = []
                        for s4 in cur:
                            for s5, b in self.test(c, s4):
                                if isinstance(b, Raise):
                                    out.append((s5, ("exc", b.exc)))
                                elif b:
                                    nxt.append(s5)
                                else:
                                    out.append((s5, None))
                        cur = nxt
                    for s4 in cur:
                        out.extend(gen(i + 1, s4))
                    return out
                return self.loop_items(s2, items, lambda s3, v: self.comp_assign(g.target, v, s3), body,
                                       lambda s3: [(s3, None)], g.iter)
            return self.after(self.ev(g.iter, s), lambda s2, it: self.after(
                self.models.iterate(s2, it, node), with_items))
        out = []
        for s, sig in gen(0, st):
            if sig is not None and sig[0] == "exc":
                out.append((s, Raise(sig[1])))
                continue
            s = s.copy()
            a = s.envs[fr][accname]
            s.delvar(fr, accname)
            for n, v in saved.items():
                if v is None:
                    s.delvar(fr, n)
                else:
                    s.setvar(fr, n, v)
            out.append((s, a))
        return out

    def comp_emit(self, s, fr, name, emit):
        """after a join the accumulator can be one of several lists"""
        acc = s.envs[fr][name]
        if not isinstance(acc, Union):
            return emit(s, acc)
        out = []
        for a in acc.alts:
            s2 = s.copy()
            s2.setvar(fr, name, a)
            out.extend(emit(s2, a))
        return out

    def comp_assign(self, t, v, st):
        # comprehension targets always bind in the current environment
        if isinstance(t, ast.Name):
            st = st.copy()
            st.setvar(st.fr, t.id, v)
            return [(st, None)]
        return self.assign(t, v, st)

    def e_ListComp(self, node, st, tag="listcomp"):
        def emit(s, acc):
            def f(s2, v):
                s2 = s2.copy()
                s2.mut(acc.id).items += (v,)
                return [(s2, None)]
            return self.after(self.ev(node.elt, s), f)
        return self.comp(node, st, tag, emit)

    def e_GeneratorExp(self, node, st):
        return self.e_ListComp(node, st, "genexp")

    def e_SetComp(self, node, st):
        return self.bind(self.e_ListComp(node, st, "setcomp"), self._toset)

    def _toset(self, s, v):
        s = s.copy()
        for a in v.alts if isinstance(v, Union) else (v,):
            s.mut(a.id).kind = "set"
        return [(s, v)]

    def e_DictComp(self, node, st):
        def emit(s, acc):
            return self.after(self.ev_many([node.key, node.value], s), lambda s2, vs: self.after(
                self.models.setitem(s2, acc, vs[0], vs[1], node, quiet=True)))
        return self.comp(node, st, "dictcomp", emit)

    # ------------------------------------------------------------------ attribute access
    def class_lookup(self, st, cls, name):
        """raw class attribute following the MRO; ExtV marker for external bases"""
        if not isinstance(cls, ClassV):
            return None
        for c in self.classes[cls.key]["mro"]:
            if isinstance(c, ClassV):
                env = st.envs[("cls", c.key)]
                if name in env:
                    return env[name]
        return None

    def ext_bases(self, cls):
        return [c for c in self.classes[cls.key]["mro"] if isinstance(c, ExtV) and c.name != "builtins.object"]

    def class_attrs(self, st, cls):
        names = {}
        for c in reversed(self.classes[cls.key]["mro"]):
            if isinstance(c, ClassV):
                names.update(st.envs[("cls", c.key)])
        return names

    def bind_attr(self, st, v, ref, cls, node):
        if isinstance(v, FuncV):
            return [(st, BoundV(v, ref))]
        if isinstance(v, Wrap):
            if v.kind == "property":
                return self.call(st, BoundV(v.func, ref), (), {}, node)
            if v.kind == "static":
                return [(st, v.func)]
            if v.kind == "class":
                return [(st, BoundV(v.func, cls))]
            if v.kind in ("ctxmgr", "cache"):
                return [(st, Partial(v, (ref,), ()))]
        if isinstance(v, Union):
            out = []
            for x in v.alts:
                out.extend(self.bind_attr(st.copy(), x, ref, cls, node))
            return out
        return [(st, v)]

    def getattr(self, st, o, name, node, default=None):
        if isinstance(o, Union):
            out = []
            for x in o.alts:
                out.extend(self.getattr(st.copy(), x, name, node, default))
            return out

        def missing(s, why=None):
            if default is not None:
                return [(s, default)]
            return [self.exc(s, node, "AttributeError", why or f"{tname(o)} has no attribute {name!r}")]
        if isinstance(o, Ref):
            h = st.heap.get(o.id)
            if h is None:
                raise AnalysisError(f"dangling {o} at {self.site(node)}")
            if h.kind == "inst":
                if name in h.fields and h.fields[name] != UNSET:
                    v = h.fields[name]
                    if isinstance(v, Union):
                        out = []
                        for x in sorted(v.alts, key=hash):
                            s = st.copy()
                            if x == UNSET:
                                if isinstance(h.cls, ClassV) and name in self.init_fields(h.cls):
                                    continue
                                s.mut(o.id).fields.pop(name, None)
                                cv = self.class_lookup(s, h.cls, name)
                                if cv is not None:
                                    out.extend(self.bind_attr(s, cv, o, h.cls, node))
                                else:
                                    out.extend(missing(s, f"{clsname(h.cls)} object may have no attribute {name!r}"))
                                continue
                            if not h.meta.get("summary"):
                                s.mut(o.id).fields[name] = x
                            out.append((s, x))
                        return out
                    return [(st, v)]
                if name == "__class__":
                    return [(st, h.cls)]
                if name == "__dict__":
                    s = st.copy()
                    d = self.alloc(s, node, "__dict__", HObj("dict", entries={Const(k): v for k, v in h.fields.items()}))
                    return [(s, d)]
                v = self.class_lookup(st, h.cls, name)
                if v is not None:
                    return self.bind_attr(st, v, o, h.cls, node)
                if h.meta.get("sym"):
                    return self.sym_field(st, o, name, node)
                if isinstance(h.cls, ClassV):
                    ga = self.class_lookup(st, h.cls, "__getattr__")
                    if ga is not None:
                        return self.call(st, BoundV(ga, o), (Const(name),), {}, node)
                    ext = self.ext_bases(h.cls)
                    if ext:
                        r = self.models.ext_instance_attr(st, o, ext, name, node)
                        if r is not None:
                            return r
                return missing(st, f"{clsname(h.cls)} object has no attribute {name!r}")
            return self.models.builtin_attr(st, o, h, name, node, missing)
        if isinstance(o, ModV):
            env = st.envs[("mod", o.name)]
            if name in env:
                return [(st, env[name])]
            if self.in_package(f"{o.name}.{name}") and ("mod", f"{o.name}.{name}") in st.envs:
                return [(st, ModV(f"{o.name}.{name}"))]
            if name in ("__dict__", "__path__"):
                return [(st, Unk(("modattr", o.name, name)))]
            return missing(st, f"module {o.name} has no attribute {name!r}")
        if isinstance(o, ClassV):
            v = self.class_lookup(st, o, name)
            if v is not None:
                if isinstance(v, Wrap):
                    if v.kind == "static":
                        return [(st, v.func)]
                    if v.kind == "class":
                        return [(st, BoundV(v.func, o))]
                return [(st, v)]
            if name == "__name__":
                return [(st, Const(o.key[1].split(".")[-1]))]
            if name == "__mro__":
                return [(st, TupV(tuple(self.classes[o.key]["mro"])))]
            ext = self.ext_bases(o)
            if ext:
                return [(st, ExtV(f"{ext[0].name}.{name}"))]
            if name in ("__init__", "__doc__", "__module__", "__dict__", "__subclasses__"):
                return [(st, Unk(("clsattr", o.key, name)))]
            return missing(st, f"class {o.key[1]} has no attribute {name!r}")
        if isinstance(o, ExtV):
            return self.models.ext_attr(st, o, name, node, missing)
        if isinstance(o, Unk):
            if default is not None:
                return [(st, Unk(("attr", o, name))), (st.copy(), default)]
            return self.models.unk_attr(st, o, name, node)
        if isinstance(o, (FuncV, BoundV, Partial, Wrap)):
            if name == "__name__":
                f = o
                while not isinstance(f, FuncV):
                    f = f.func
                return [(st, Const(self.functions[f.fid].qual.split(".")[-1]))]
            if name == "__self__" and isinstance(o, BoundV):
                return [(st, o.self)]
            if name in ("__doc__", "__module__", "__qualname__", "__wrapped__", "__func__", "cache_clear"):
                return [(st, Unk(("funcattr", repr(o), name)))]
            return missing(st, f"function has no attribute {name!r}")
        return self.models.builtin_attr(st, o, None, name, node, missing)

    def getitem(self, st, o, i, node):
        return self.models.getitem(st, o, i, node)

    # ------------------------------------------------------------------ calls
    def e_Call(self, node, st):
        # super()
        if isinstance(node.func, ast.Name) and node.func.id == "super" and not node.args:
            return [(st, SuperV(ClassV(self.frame.clskey), self.frame.selfv))]
        if isinstance(node.func, ast.Name) and node.func.id in ("locals", "vars") and not node.args:
            return [(st, Unk(("locals", self.site(node))))]
        # isinstance(Name, str) refines the variable
        if isinstance(node.func, ast.Name) and node.func.id in ("isinstance", "callable") and node.args \
                and isinstance(node.args[0], ast.Name):
            r = self.models.isinstance_name(node, st)
            if r is not None:
                return r

        def f(s, fv):
            def g(s2, vs):
                pos = []
                outs = [(s2, [])]
                npos = len(node.args)
                for i, v in enumerate(vs[:npos]):
                    nxt = []
                    for s3, acc in outs:
                        if isinstance(v, tuple) and v[0] == "*":
                            for s4, items in self.models.iterate(s3, v[1], node):
                                if isinstance(items, Raise):
                                    nxt.append((s4, items))
                                elif self.len_known(items) is None:
                                    nxt.append((s4, acc + [("**star", items)]))
                                else:
                                    nxt.append((s4, acc + list(items)))
                        else:
                            nxt.append((s3, acc + [v]))
                    res = [(s3, a) for s3, a in nxt if isinstance(a, Raise)]
                    outs = [(s3, a) for s3, a in nxt if not isinstance(a, Raise)]
                    if res:
                        raised.extend(res)
                results = []
                for s3, pos in outs:
                    kw = {}
                    starkw = []
                    for k, v in zip(node.keywords, vs[npos:]):
                        if k.arg is None:
                            starkw.append(v)
                        else:
                            kw[k.arg] = v
                    cur = [(s3, dict(kw))]
                    for v in starkw:
                        nxt = []
                        for s4, kws in cur:
                            if isinstance(v, Ref) and s4.heap[v.id].kind == "dict":
                                d = s4.heap[v.id]
                                k2 = dict(kws)
                                for k, x in d.entries.items():
                                    if isinstance(k, Const) and isinstance(k.v, str):
                                        k2[k.v] = x
                                if d.weak:
                                    k2["**"] = v
                                nxt.append((s4, k2))
                            else:
                                k2 = dict(kws)
                                k2["**"] = v
                                nxt.append((s4, k2))
                        cur = nxt
                    for s4, kws in cur:
                        results.extend(self.call(s4, fv, tuple(pos), kws, node))
                return results
            return self.bind(self.ev_many(list(node.args) + [k.value for k in node.keywords], s), g)
        raised = []
        res = self.bind(self.ev(node.func, st), f)
        res = raised + res
        if len(res) > MERGE_CALL:
            res = self.merge_results(res)
        return res

    def merge_results(self, res):
        mk = self.hooks.get("merge-key")
        groups = {}
        order = []
        for s, v in res:
            k = (v, s.fr, mk(s)) if mk else (v, s.fr)
            if k not in groups:
                groups[k] = []
                order.append(k)
            g = groups[k]
            for t in g:
                if self.same_state(t, s):
                    break
            else:
                g.append(s)
        out = []
        for k in order:
            g = groups[k]
            if len(g) > 4:
                out.append((self.join_states(g, ("merge", self.frame.ctx)), k[0]))
            else:
                out.extend((s, k[0]) for s in g)
        return out

    def call(self, st, fv, args, kwargs, node):
        """[(state, V | Raise)]"""
        if isinstance(fv, Union):
            out = []
            for x in fv.alts:
                out.extend(self.call(st.copy(), x, args, kwargs, node))
            return out
        if isinstance(fv, FuncV):
            return self.call_func(st, fv, args, kwargs, node)
        if isinstance(fv, BoundV):
            return self.call(st, fv.func, (fv.self,) + tuple(args), kwargs, node)
        if isinstance(fv, Partial):
            kw = dict(fv.kwargs)
            kw.update(kwargs)
            if isinstance(fv.func, Wrap) and fv.func.kind == "ctxmgr":
                return [(st, Partial(fv.func, fv.args + tuple(args), tuple(sorted(kw.items()))))]
            return self.call(st, fv.func, fv.args + tuple(args), kw, node)
        if isinstance(fv, Wrap):
            if fv.kind == "ctxmgr":
                return [(st, Partial(fv, tuple(args), tuple(sorted(kwargs.items()))))]
            if fv.kind == "cache":
                self.event("cache", (repr(fv.func), tuple(args)), st, node)
            return self.call(st, fv.func, args, kwargs, node)
        if isinstance(fv, ClassV):
            return self.instantiate(st, fv, args, kwargs, node)
        if isinstance(fv, (ExtV, Meth)):
            return self.models.call_ext(st, fv, args, kwargs, node)
        if isinstance(fv, Unk):
            return self.models.call_unk(st, fv, args, kwargs, node)
        if isinstance(fv, Ref):
            o = st.heap[fv.id]
            if o.kind == "inst":
                f = self.class_lookup(st, o.cls, "__call__")
                if f is not None:
                    return self.call(st, BoundV(f, fv), args, kwargs, node)
            return [self.exc(st, node, "TypeError", f"{clsname(o.cls) if o.cls else o.kind} object is not callable")]
        return [self.exc(st, node, "TypeError", f"{tname(fv)} object is not callable")]

    def instantiate(self, st, cls, args, kwargs, node):
        mro = self.classes[cls.key]["mro"]
        if any(isinstance(c, ExtV) and sub_exc(short_exc(c.name), "BaseException") for c in mro):
            init = self.class_lookup(st, cls, "__init__")
            return [(st, ExcV(cls, tuple(a for a in args if not isinstance(a, tuple)), self.site(node), "new"))]
        st = st.copy()
        kind = "inst"
        ref = self.alloc(st, node, f"obj:{cls.key[1]}", HObj(kind, cls))
        if any(isinstance(c, ExtV) and c.name == "builtins.list" for c in mro):
            st.mut(ref.id).meta["listlike"] = True
        self.event("new", (cls, args), st, node) if "new" in self.hooks else None
        if self.classes[cls.key].get("dataclass"):
            return self.dataclass_init(st, cls, ref, args, kwargs, node)
        init = self.class_lookup(st, cls, "__init__")
        if init is None:
            ext = self.ext_bases(cls)
            if not ext and (args or kwargs):
                return [self.exc(st, node, "TypeError", f"{cls.key[1]}() takes no arguments")]
            return [(st, ref)]
        outs = self.call(st, BoundV(init, ref), args, kwargs, node)
        res = [(s, v if isinstance(v, Raise) else ref) for s, v in outs]
        h = self.hooks.get("created")
        if h and self.sym_class and cls == ClassV(self.sym_class):
            for s, v in res:
                if not isinstance(v, Raise):
                    h(self, ref, s, node)
        return res

    def dataclass_init(self, st, cls, ref, args, kwargs, node):
        fields = []
        for c in reversed(self.classes[cls.key]["mro"]):
            if isinstance(c, ClassV):
                for b in self.classes[c.key]["node"].body:
                    if isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                        fields.append(b.target.id)
        o = st.mut(ref.id)
        vals = dict(zip(fields, args))
        vals.update(kwargs)
        for f in fields:
            if f in vals:
                o.fields[f] = vals[f]
            else:
                d = self.class_lookup(st, cls, f)
                if d is None:
                    return [self.exc(st, node, "TypeError", f"missing argument {f}")]
                o.fields[f] = d
        if self.class_lookup(st, cls, "__post_init__") is not None:
            return self.bind(self.bind(self.getattr(st, ref, "__post_init__", node), lambda s, f: self.call(s, f, (), {}, node)),
                             lambda s, v: [(s, ref)])
        return [(st, ref)]

    def argkey(self, st, v, general):
        if isinstance(v, Const):
            if isinstance(v.v, (str,)):
                return "str" if general or len(v.v) > 40 else ("c", v.v)
            if general and isinstance(v.v, int) and not isinstance(v.v, bool):
                return "int"
            return ("c", type(v.v).__name__, v.v if not isinstance(v.v, int) or isinstance(v.v, bool) else v.v)
        if isinstance(v, Str):
            return "str"
        if isinstance(v, Num):
            return "int"
        if isinstance(v, Ref):
            o = st.heap[v.id]
            if self.is_sym_cls(o):
                return ("node", "sym" if o.meta.get("sym") else "conc")
            if o.kind == "match":
                return ("match", o.meta["rx"])
            if o.kind == "inst":
                return ("inst", o.cls)
            return o.kind
        if isinstance(v, TupV):
            return ("tuple", len(v.items)) if general else ("tuple", tuple(self.argkey(st, x, general) for x in v.items))
        if isinstance(v, LStar):
            return "star"
        return repr(v) if not isinstance(v, Unk) else "unk"

    def bind_params(self, st, fv, args, kwargs, node):
        """[(state, env dict)] or Raise"""
        fi = self.functions[fv.fid]
        a = fi.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        defaults = dict(fv.defaults)
        name = fi.qual
        rest = []
        args = list(args)
        if any(isinstance(x, tuple) for x in args):
            # star-args of unknown length: give up precision
            for p in pos:
                env[p] = Unk(("stararg", fv.fid, p))
            fixed = []
            for x in args:
                if isinstance(x, tuple):
                    break
                fixed.append(x)
            for p, x in zip(pos, fixed):
                env[p] = x
            if a.vararg:
                env[a.vararg.arg] = TupV(tuple(y for x in args[len(pos):] for y in (x[1] if isinstance(x, tuple) else (x,))))
            args = []
            for p in pos[len(fixed):]:
                if p in defaults and False:
                    env[p] = defaults[p]
        for i, v in enumerate(args):
            if i < len(pos):
                env[pos[i]] = v
            else:
                rest.append(v)
        if rest and not a.vararg:
            return [self.exc(st, node, "TypeError", f"{name}() takes {len(pos)} positional arguments but {len(args)} were given")]
        if a.vararg and a.vararg.arg not in env:
            env[a.vararg.arg] = TupV(tuple(rest))
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = {}
        openkw = None
        for k, v in kwargs.items():
            if k == "**":
                openkw = v
                continue
            if k in [x.arg for x in a.args] + kwonly:
                if k in env:
                    return [self.exc(st, node, "TypeError", f"{name}() got multiple values for argument {k!r}")]
                env[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                return [self.exc(st, node, "TypeError", f"{name}() got an unexpected keyword argument {k!r}")]
        outs = []
        missing = [p for p in pos + kwonly if p not in env]
        for p in missing:
            if p in defaults:
                env[p] = defaults[p]
                if openkw is not None:
                    env[p] = Union(frozenset(alts_of(defaults[p])) | {Unk(("kw", fv.fid, p))})
            elif openkw is not None:
                env[p] = Unk(("kw", fv.fid, p))
                if not isinstance(openkw, Unk) or True:
                    outs.append(self.exc(st.copy(), node, "TypeError", f"{name}() missing argument {p!r}"))
            else:
                return [self.exc(st, node, "TypeError", f"{name}() missing required argument {p!r}")]
        if openkw is not None and not a.kwarg:
            outs.append(self.exc(st.copy(), node, "TypeError", f"{name}() may get an unexpected keyword argument"))
        if a.kwarg:
            st = st.copy()
            d = HObj("dict", entries={Const(k): v for k, v in extra.items()})
            if openkw is not None:
                if isinstance(openkw, Ref):
                    d.weak = st.heap[openkw.id].weak
                else:
                    d.weak = ((hole(("kwname", fv.fid)), Unk(("kw", fv.fid, "**"))),)
            env[a.kwarg.arg] = self.alloc(st, fi.node, "kwargs", d)
        outs.append((st, env))
        return outs

    def call_func(self, st, fv, args, kwargs, node, yield_hook=None, want_sig=False):
        out = []
        for s, env in self.bind_params(st, fv, args, kwargs, node):
            if isinstance(env, Raise):
                out.append((s, env, None) if want_sig else (s, env))
            else:
                out.extend(self.run_func(s, fv, env, node, yield_hook, want_sig))
        return out

    def run_func(self, st, fv, env, node, yield_hook=None, want_sig=False):
        fi = self.functions[fv.fid]
        self.analysed.add(fv.fid)
        h = self.hooks.get(("func", fi.qual)) or self.hooks.get(("func", fi.modname, fi.qual))
        if h is not None:
            r = h(self, st, env, node)
            if r is not None:
                return r
        argvals = tuple(env[k] for k in env)
        if yield_hook is None:
            depth = sum(1 for x in self.stack if x[1] == fv.fid)
            general = depth >= 3
            key = (fv.fid, tuple(self.argkey(st, v, False) for v in argvals))
            gkey = (fv.fid, tuple(self.argkey(st, v, True) for v in argvals), "g")
            for k in (key, gkey):
                if k in self.tab and not (self.stack and self.stack[-1][0] == k and self.stack[-1][2] == "body-start"):
                    return self.apply_summary(k, st, fv, env, node)
            if any(x[0] == key for x in self.stack):
                self.tab.add(key)
                raise Restart(key)
            if general:
                self.tab.add(gkey)
                raise Restart(gkey)
            if len(self.stack) > 80:
                raise TooComplex(f"call depth at {self.site(node)}")
        else:
            key = (fv.fid, "ctx")
        self.stack.append((key, fv.fid, None, self.site(node)))
        try:
            return self.run_body(st, fv, env, node, yield_hook, want_sig)
        finally:
            self.stack.pop()

    def run_body(self, st, fv, env, node, yield_hook=None, want_sig=False, ctx=None):
        fi = self.functions[fv.fid]
        st = st.copy()
        if ctx is None:
            ctx = self.frame.ctx + ((fv.fid[0], fv.fid[1], getattr(node, "lineno", 0), getattr(node, "col_offset", 0)),)
        envid = ("env", fv.fid[:2], hash(ctx))
        oldfr = st.fr
        st.envs[envid] = dict(env)
        st.fr = envid
        a = fi.node.args
        selfv = None
        first = (a.posonlyargs + a.args)
        if first and fi.clskey:
            selfv = env.get(first[0].arg)
        frame = Frame(fi, fi.node, envid, ctx, selfv, fi.modname, fi.clskey)
        frame.func_closure = fv.closure
        gen_acc = None
        if fi.is_gen and yield_hook is None:
            gen_acc = self.alloc_with(st, fi.node, "gen", HObj("list"), ctx)
            st.setvar(envid, "<yield>", gen_acc)

            def yield_hook(s, v):
                s = s.copy()
                s.mut(gen_acc.id).items += (v,)
                return [(s, NONE)]
        frame.yield_hook = yield_hook
        self.frames.append(frame)
        try:
            if isinstance(fi.node, ast.Lambda):
                outs = self.after(self.ev(fi.node.body, st), lambda s, v: [(s, ("ret", v))])
            else:
                outs = self.exec_block(fi.node.body, st)
        finally:
            self.frames.pop()
        res = []
        for s, sig in outs:
            s = s.copy()
            pend = s.envs[envid].get("<sig>") if want_sig else None
            s.fr = oldfr
            if not fi.has_nested:
                s.envs.pop(envid, None)
            else:
                s.envs[envid] = s.envs[envid]
            if sig is None:
                v = NONE
            elif sig[0] == "ret":
                v = sig[1]
            elif sig[0] == "exc":
                v = Raise(sig[1])
            else:
                raise AnalysisError("break outside loop")
            if gen_acc is not None and not isinstance(v, Raise):
                v = gen_acc
            if not isinstance(v, Raise):
                v = self.simplify(s, v)
            if want_sig:
                res.append((s, v, self._sigs[pend.v[1]] if pend is not None else None))
            else:
                res.append((s, v))
        h = self.hooks.get("body")
        if h:
            h(self, fi, ctx, env, res)
        if not want_sig and len(res) > 1:
            res = self.dedupe_results(res)
        return res

    def alloc_with(self, st, node, tag, obj, ctx):
        id = (tag, node.lineno, node.col_offset, hash(ctx))
        if id in st.heap:
            self.age(st, id)
        st.heap[id] = obj
        return Ref(id)

    def dedupe_results(self, res):
        out = []
        for s, v in res:
            for t, w in out:
                if v == w and self.same_state(s, t):
                    break
            else:
                out.append((s, v))
        if len(out) > MERGE_CALL:
            out = self.merge_results(out)
        return out

    # ------------------------------------------------------------------ summaries
    def apply_summary(self, key, st, fv, env, node):
        sm = self.summ.setdefault(key, Summary())
        # register entry
        ent = st.copy()
        ent.fr = None
        ent.trace = ()
        keep = [k for k in ent.envs if k[0] in ("mod", "cls") or k in fv.closure]
        allenvs = ent.envs
        ent.envs = {k: allenvs[k] for k in keep}
        ent.envs["<args>"] = dict(env)
        # symbolic arguments are renamed to a canonical identity
        ren = {}
        for p, v in env.items():
            if isinstance(v, Ref) and st.heap[v.id].meta.get("sym") and self.is_sym_cls(st.heap[v.id]):
                nid = ("symarg", fv.fid[:2], p)
                ent.heap[nid] = self.new_sym_obj(nid)
                ks = self.kinds_of(st, v.id)
                if ks:
                    ent.heap[nid].meta["kinds"] = frozenset(ks)
                m = ent.heap[nid].meta
                m["cands"] = m["cands0"] = tuple(sorted(self.sym_cands(st, st.heap[v.id])))
                ent.envs["<args>"][p] = Ref(nid)
                ren[p] = nid
            elif isinstance(v, Str):
                ent.envs["<args>"][p] = hole(("arg", fv.fid[:2], p))
        self.gc(ent)
        ent.facts = {}
        ent.dom = {h: d for h, d in ent.dom.items() if not isinstance(h, Hole)} if False else {}
        if sm.entry is None:
            sm.entry = ent
            sm.fv = fv
            self.changed = True
        else:
            j = self.join2(sm.entry, ent, ("entry", key))
            self.gc(j)
            if not self.same_state(j, sm.entry):
                sm.entry = j
                self.changed = True
        h = self.hooks.get("rec")
        if h:
            h(self, (key, env), st, node)
        # apply exit
        out = []
        if sm.exit is not None:
            for shp, v in sm.outs.items():
                s = st.copy()
                m = self.apply_exit(s, sm, node)
                r = self.import_value(s, v, key, env, node)
                for a in env.values():
                    if is_str(a):
                        self.stored(s, None, a)
                s.trace = s.trace + (("rec", key[0], tuple(env.values())),)
                out.append((s, r))
        for k, e in sm.excs.items():
            s = st.copy()
            if sm.exit is not None:
                self.apply_exit(s, sm, node)
            out.append((s, Raise(e)))
        return out

    def import_value(self, st, v, key, env, node):
        if is_str(v) and not isinstance(v, Const):
            argk = tuple(x for x in env.values() if isinstance(x, (Ref, Str, Num, Const)))[:4]
            return hole(("rec", key, argk))
        if isinstance(v, Ref) and v.id not in st.heap:
            return Unk(("recval", key))
        if isinstance(v, Num):
            return Num(("rec", key, tuple(env.values())[:3]), v.lo, v.hi)
        return v

    def apply_exit(self, st, sm, node):
        entry, ex = sm.entry, sm.exit
        # objects and slots modified by the callee
        for id, o in ex.heap.items():
            e = entry.heap.get(id)
            if e is not None and (o is e or o.same(e)):
                continue
            if id not in st.heap:
                st.heap[id] = o
                continue
            cur = st.heap[id]
            if e is None:
                # allocated by the callee (also by an earlier call): weak
                st.heap[id] = self.join_obj(st, cur, o, id) if not cur.same(o) else cur
                continue
            n = cur.clone()
            lazy = o.meta.get("sym") and self.is_sym_cls(o)
            for f in set(o.fields) | set(e.fields):
                if o.fields.get(f) == e.fields.get(f):
                    continue
                if lazy and (f not in o.fields or not o.meta.get("dirty")):
                    # a lazily materialised field: whatever the records allow
                    if f not in o.fields and o.meta.get("dirty"):
                        n.fields.pop(f, None)
                    continue
                n.fields[f] = self.exit_value(cur.fields.get(f), e.fields.get(f), o.fields.get(f), ("f", id, f), st, ex)
            if o.items != e.items:
                n.items = self.exit_items(cur.items, e.items, o.items, ("i", id), st, ex)
            if o.entries != e.entries or o.weak != e.weak:
                j = self.join_obj(st, cur, o, id)
                n.entries, n.weak, n.absent = j.entries, j.weak, frozenset()
            n.meta.pop("nonempty", None)
            if o.meta.get("dirty"):
                n.meta["dirty"] = True
            st.heap[id] = n
        for ek, e in ex.envs.items():
            if ek == "<args>":
                continue
            old = entry.envs.get(ek)
            if old is not None and e != old:
                cur = dict(st.envs[ek]) if ek in st.envs else {}
                outer = self.nonlocals(ek)
                for nme in e:
                    if outer is not None and nme not in outer and nme in cur:
                        continue    # an other activation of the function
                    if e[nme] != old.get(nme):
                        cur[nme] = self.exit_value(cur.get(nme), old.get(nme), e[nme], ("v", ek, nme), st, ex)
                st.envs[ek] = cur
        # dangling references into the callee
        self.import_refs(st, ex)
        self.restore_kinds(st)

    def nonlocals(self, ek):
        """the local variables of a function which functions in it can assign"""
        if not isinstance(ek, tuple) or ek[0] != "env":
            return None
        if ek[1] not in self._nonlocals:
            self._nonlocals[ek[1]] = {n for f, fi in self.functions.items() if f[:2] == ek[1] for x in ast.walk(fi.node) if isinstance(x, ast.Nonlocal) for n in x.names}
        return self._nonlocals[ek[1]]

    def import_refs(self, st, ex):
        todo = list(st.heap)
        while todo:
            id = todo.pop()
            o = st.heap[id]
            for r in obj_refs(o):
                if r not in st.heap:
                    if r in ex.heap:
                        st.heap[r] = ex.heap[r]
                        todo.append(r)
                    else:
                        st.heap[r] = self.new_sym_obj(r) if r[0].startswith("sym") else HObj("ext")
        # facts are dropped lazily

    def exit_value(self, cur, ent, ex, slot, sa, sb):
        """value after the call: alternatives equal to the entry value stand for 'unchanged'"""
        al = set()
        exa = set(alts_of(ex)) if ex is not None else {UNSET}
        ena = set(alts_of(ent)) if ent is not None else {UNSET}
        if ex == ent:
            return cur
        changed = exa - ena
        unchanged = exa & ena
        v = None
        if unchanged or not changed:
            v = cur if cur is not None else UNSET
        for x in sorted(changed, key=hash):
            v = x if v is None else self.join_value(v, x, slot, sa, sb)
        self.place_sym(sa, self._pending_sym)
        self._pending_sym = {}
        return v

    def exit_items(self, cur, ent, ex, slot, sa, sb):
        n = len(ent)
        if ex[:n] == ent:
            return cur + tuple(x if isinstance(x, LStar) else LStar(("rec", slot), frozenset([(x,)]), False) for x in ex[n:])
        return self.join_items(cur, ex, slot, sa, sb)

    def gc(self, st):
        """drop heap objects not reachable from the environments"""
        seen = set()
        todo = []
        for e in st.envs.values():
            for v in e.values():
                todo.extend(refs(v))
        while todo:
            i = todo.pop()
            if i in seen or i not in st.heap:
                continue
            seen.add(i)
            todo.extend(obj_refs(st.heap[i]))
        st.heap = {i: o for i, o in st.heap.items() if i in seen}

    def gc_lazy(self, st):
        """drop materialised objects nothing refers to any longer"""
        seen = set()
        todo = [i for i in st.heap if not (isinstance(i, tuple) and i[0] in LAZY)]
        for e in st.envs.values():
            for v in e.values():
                todo.extend(refs(v))
        while todo:
            i = todo.pop()
            if i in seen or i not in st.heap:
                continue
            seen.add(i)
            todo.extend(obj_refs(st.heap[i]))
        if len(seen) != len(st.heap):
            st.heap = {i: o for i, o in st.heap.items() if i in seen}

    def analyse_summary(self, key):
        sm = self.summ[key]
        ent = sm.entry
        st = ent.copy()
        env = dict(ent.envs["<args>"])
        st.envs = {k: v for k, v in ent.envs.items() if k != "<args>"}
        st.fr = ("mod", sm.fv.fid[0])
        self.restore_kinds(st)
        fi = self.functions[sm.fv.fid]
        self.frames.append(Frame(fi, fi.node, st.fr, (("tab", key[0][:2], hash(key[1])),), None, fi.modname, fi.clskey))
        self.stack.append((key, sm.fv.fid, "body", ("tab",) + tuple(sm.fv.fid[:2])))
        try:
            # partition on union-valued arguments
            envs = [{}]
            for p, v in env.items():
                envs = [dict(e, **{p: x}) for e in envs for x in alts_of(v)]
            outs = []
            for e in envs:
                outs.extend(self.run_body(st, sm.fv, e, fi.node, ctx=(("tab", key[0][:2], hash(key[1])),)))
        finally:
            self.stack.pop()
            self.frames.pop()
        sm.results = outs
        hook = self.hooks.get("summary")
        if hook:
            hook(self, key, sm, outs)
        exits = []
        for s, v in outs:
            if isinstance(v, Raise):
                e = v.exc
                k = (e.cls, e.site, e.why)
                if k not in sm.excs:
                    sm.excs[k] = e
                    self.changed = True
                continue
            sh = ("str",) if is_str(v) and not (isinstance(v, Const) and False) else v if not isinstance(v, Num) else ("num",)
            if sh == ("str",):
                if sh not in sm.outs:
                    sm.outs[sh] = hole(("recany", key))
                    self.changed = True
            elif sh not in sm.outs:
                if len(sm.outs) > 30:
                    raise TooComplex("summary values")
                sm.outs[sh] = v if not isinstance(v, Num) else Num(("recany", key), None, None)
                self.changed = True
            exits.append(s)
        if exits:
            j = None
            for s in exits:
                s = s.copy()
                s.fr = None
                s.trace = ()
                s.envs = {k: e for k, e in s.envs.items() if k in ent.envs}
                s.envs["<args>"] = ent.envs["<args>"]
                s.facts = {}
                s.dom = {}
                self.record_all(s)
                self.drop_lazy(s, ent)
                self.gc_keep(s, [v for _, v in outs])
                self.restore_ids(s, ent)
                j = s if j is None else self.join2(j, s, ("exit", key))
            if sm.exit is None:
                sm.exit = j
                self.changed = True
            else:
                k = self.join2(sm.exit, j, ("exit", key))
                self.gc_lazy(k)
                if not self.same_state(k, sm.exit):
                    if DEBUG_LOOPS and self.iters > 9:
                        self.diff_state(sm.exit, k, "exit of", key[0])
                    sm.exit = k
                    self.changed = True

    def drop_lazy(self, st, ent):
        """fields of symbolic objects which were only read are materialised again on demand"""
        dirty = {}

        def is_dirty(id):
            if id not in dirty:
                dirty[id] = False
                o = st.heap.get(id)
                dirty[id] = o is not None and (bool(o.meta.get("dirty")) or any(
                    is_dirty(r) for r in obj_refs(o) if isinstance(r, tuple) and r[0] in LAZY))
            return dirty[id]
        for id, o in list(st.heap.items()):
            if id[0] != "symarg" or not self.is_sym_cls(o) or is_dirty(id):
                continue
            e = ent.heap.get(id)
            n = o.clone()
            keep = e.fields if e is not None else {"kind": o.fields["kind"]} if "kind" in o.fields else {}
            n.fields = dict(keep)
            if e is not None:
                n.meta = dict(e.meta)
            else:
                n.meta.pop("cands", None)
                if n.meta.get("cands0") is not None:
                    n.meta["cands"] = n.meta["cands0"]
            st.heap[id] = n

    def restore_ids(self, st, ent):
        """objects of the caller which were renamed by age() get their name back"""
        m = {}
        for id in list(st.heap):
            if id[0] == "old" and id not in ent.heap and id[1:] in ent.heap and not st.heap[id].meta.get("summary"):
                m[id] = id[1:]
        if not m:
            return
        refs_ = {}
        objs = {}
        for old, id in m.items():
            objs[id] = old
            refs_[Ref(old)] = Ref(id)
            if id in st.heap:
                refs_[Ref(id)] = Ref(("esc",) + id)
                objs[("esc",) + id] = id
        self.replace_refs(st, refs_)
        moved = {new: st.heap[old] for new, old in objs.items()}
        for old in objs.values():
            st.heap.pop(old, None)
        for new, o in moved.items():
            if new[0] == "esc":
                o = o.clone()
                o.meta["summary"] = True
            st.heap[new] = o

    def gc_keep(self, st, vals):
        st.envs["<keep>"] = {str(i): v for i, v in enumerate(vals) if not isinstance(v, Raise)}
        self.gc(st)
        del st.envs["<keep>"]

    def run(self, entry):
        """entry(interp) -> result; iterated to a fixpoint of all summaries"""
        for attempt in range(60):
            try:
                for it in range(36):
                    self.changed = False
                    self.steps = 0
                    self.iters = getattr(self, "iters", 0) + 1
                    if self.verbose:
                        import time
                        print("iter", attempt, it, time.time(), len(self.records), {k[0][1]: len(v.excs) for k, v in self.summ.items()}, flush=True)
                    self.events = {}
                    self.raws = {}
                    self.stack = []
                    self.frames = []
                    start = self.hooks.get("start")
                    if start:
                        start(self)
                    result = entry(self)
                    for key in sorted(self.summ, key=hash):
                        self.analyse_summary(key)
                    if not self.changed:
                        return result
                raise TooComplex("no fixpoint")
            except Restart:
                self.summ = {}
                self.records = []
                self.confirmed = set()
                self.record_keys = {}
                continue
        raise TooComplex("too many restarts")

    def call_entry(self, st, fv, args, kwargs, label="entry"):
        self.frames.append(Frame(None, None, None, ((label,),), None, self.package, None))
        st = st.copy()
        st.fr = ("mod", self.package)
        node = ast.Pass()
        node.lineno = 0
        node.col_offset = 0
        try:
            return self.call(st, fv, tuple(args), dict(kwargs), node)
        finally:
            self.frames.pop()


class SuperV(_ := Unk.__mro__[1]):
    """super() proxy"""
    __slots__ = ()
    cls = property(lambda self: self._k[0])
    self_ = property(lambda self: self._k[1])


class SliceV(Unk.__mro__[1]):
    __slots__ = ()
    lo = property(lambda self: self._k[0])
    hi = property(lambda self: self._k[1])
    step = property(lambda self: self._k[2])


UNSET = ExtV("<unset>")


def alts_of(v):
    return v.alts if isinstance(v, Union) else (v,)


def flat_items(items):
    out = []
    for it in items:
        if isinstance(it, LStar):
            for a in sorted(it.alts, key=hash):
                for x in flat_items(a):
                    if x not in out:
                        out.append(x)
        elif isinstance(it, Union):
            for x in it.alts:
                if x not in out:
                    out.append(x)
        elif it not in out:
            out.append(it)
    return out


def obj_refs(o):
    r = o.refset()
    for v in o.meta.values():
        if isinstance(v, (Ref, TupV)):
            r |= refs(v)
    return r


def walk_src(x):
    """nested tuples including ids inside Ref/Hole"""
    stack = [x]
    while stack:
        y = stack.pop()
        yield y
        if isinstance(y, tuple):
            stack.extend(y)
        elif hasattr(y, "_k"):
            stack.extend(y._k)


def join_dom(a, b):
    if a == b:
        return a
    if a is None or b is None:
        return None
    if a[0] in ("in", "notin") and b[0] in ("in", "notin"):
        if a[0] == b[0] == "in":
            return ("in", a[1] | b[1])
        if a[0] == b[0] == "notin":
            r = a[1] & b[1]
            return ("notin", r) if r else None
        i, n = (a, b) if a[0] == "in" else (b, a)
        r = n[1] - i[1]
        return ("notin", r) if r else None
    if a[0] in ("in", "notin") or b[0] in ("in", "notin"):
        return None
    lo = None if a[0] is None or b[0] is None else min(a[0], b[0])
    hi = None if a[1] is None or b[1] is None else max(a[1], b[1])
    return None if lo is None and hi is None else (lo, hi)


def join_trace(a, b):
    n = 0
    while n < len(a) and n < len(b) and a[n] == b[n]:
        n += 1
    return a[:n] + (("alt", frozenset([a[n:], b[n:]])),)


def grow(base, head, backs, alts, origin, each, states):
    """accumulating strings / tuples: backs extend head"""
    if is_str(base) and is_str(head) and all(x is not None and is_str(x) for x in backs):
        hp = parts_of(head)
        bp = parts_of(base)
        new = set()
        for x, st in zip(backs, states):
            xp = parts_of(x)
            c = suffix_after(hp, xp)
            if c is None:
                return None
            if not c:
                e = benign_skip(st, origin)
                if e is not None:
                    c = (e,)
            new.add(c)
        if all(not c for c in new) and not alts:
            return head
        alts |= new
        if len(alts) > 400:
            return None
        return mk_str(bp + (Star(origin, frozenset(alts), each),))
    return None


def benign_skip(st, origin):
    """an iteration contributing nothing because the element is an empty string"""
    for h, d in st.dom.items():
        if isinstance(h, Hole) and d == ("in", frozenset([""])):
            if h.src and h.src[0] in ("piece", "elem", "line"):
                return Empty(h)
    return None


def suffix_after(hp, xp):
    """parts xp == hp + c -> c (literal tails may be merged)"""
    n = len(hp)
    if n == 0:
        return tuple(xp)
    if len(xp) < n or tuple(xp[:n - 1]) != tuple(hp[:n - 1]):
        return None
    last, x = hp[n - 1], xp[n - 1]
    if last == x:
        return tuple(xp[n:])
    if isinstance(last, str) and isinstance(x, str) and x.startswith(last):
        return (x[len(last):],) + tuple(xp[n:])
    return None


def grow_items(base, head, backs, alts, origin, each, states):
    new = set()
    for x, st in zip(backs, states):
        if x[:len(head)] != head:
            return None
        c = x[len(head):]
        if not c:
            e = benign_skip(st, origin)
            if e is not None:
                c = (Str((e,)),)
        new.add(c)
    if all(not c for c in new) and not alts:
        return head
    alts |= new
    if len(alts) > 400:
        return None
    return tuple(base) + (LStar(origin, frozenset(alts), each),)


def short_exc(name):
    n = name.rsplit(".", 1)[-1]
    return n if n in BUILTIN_EXC else name


EXT_EXC = {
    "json.JSONDecodeError": "ValueError", "re.error": "Exception",
    "docutils.transforms.TransformError": "Exception", "binascii.Error": "ValueError",
    "UnicodeError": "ValueError",
}


def sub_exc(a, b):
    if a == b:
        return True
    if a in BUILTIN_EXC and b in BUILTIN_EXC:
        return issubclass(BUILTIN_EXC[a], BUILTIN_EXC[b])
    if a in EXT_EXC:
        return sub_exc(EXT_EXC[a], b)
    if a not in BUILTIN_EXC:
        return b in ("Exception", "BaseException") and (a.endswith("Error") or a.endswith("Exception"))
    return False


def tname(v):
    if isinstance(v, Const):
        return "None" if v.v is None else type(v.v).__name__
    if isinstance(v, Str):
        return "str"
    if isinstance(v, Num):
        return "int"
    if isinstance(v, TupV):
        return "tuple"
    if isinstance(v, RxV):
        return "re.Pattern"
    if isinstance(v, ExcV):
        return "exception"
    return v.__class__.__name__


def clsname(c):
    return c.key[1] if isinstance(c, ClassV) else str(c)
