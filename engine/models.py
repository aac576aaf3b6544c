"""Library part of the abstract semantics: builtins, attribute access on builtin
values, and the standard library functions the analysed package uses."""

import ast
import builtins
import re

from .calls import Calls
from .extlib import ExtLib
from .interp import HObj, SuperV, alts_of, short_exc
from .ops import (
    BUILTIN_FUNCS, DICT_METHS, LIST_METHS, MATCH_ATTRS, MATCH_METHS, RE_FLAGS, RX_METHS, SET_METHS,
    STR_PURE, is_path, tname,
)
from .values import (
    NONE, BoundV, ClassV, Const, ExcV, ExtV, FuncV, Meth, ModV, Num, Partial, Raise, Ref, RxV, Str,
    TupV, Union, Unk, Wrap, hole, is_int, is_str,
)

STR_ALL = {m for m in dir(str)}
INT_ALL = {m for m in dir(int)}
TUP_ALL = {m for m in dir(tuple)}
LIST_ALL = {m for m in dir(list)}
DICT_ALL = {m for m in dir(dict)}
SET_ALL = {m for m in dir(set)}
BYTES_ALL = {m for m in dir(bytes)}
RX_ALL = {m for m in dir(re.compile(""))}
MATCH_ALL = {m for m in dir(re.match("", ""))}
EXC_ALL = {m for m in dir(Exception())}
EXC_MORE = {"msg", "filename", "code", "strerror", "errno", "object", "reason", "encoding", "start", "end"}


class Models(ExtLib, Calls):
    # ------------------------------------------------------------- names
    def builtin(self, name):
        if name in ("True", "False", "None"):
            return Const({"True": True, "False": False, "None": None}[name])
        if hasattr(builtins, name):
            return ExtV(f"builtins.{name}")
        if name in ("__doc__", "__package__", "__spec__", "__path__", "__annotations__"):
            return Unk(("modattr", name))
        return None

    def ext_const(self, dotted):
        if dotted.startswith("re.") and dotted[3:] in RE_FLAGS:
            return Const(RE_FLAGS[dotted[3:]])
        if dotted in ("sys.maxsize",):
            return Num(("ext", dotted), 2 ** 31 - 1, None)
        return ExtV(dotted)

    def ext_attr(self, st, o, name, node, missing):
        if o.name == "<unset>":
            return missing(st)
        if o.name.startswith("builtins."):
            t = getattr(builtins, o.name[9:], None)
            if t is not None and not hasattr(t, name):
                return missing(st, f"{o.name} has no attribute {name!r}")
            if name == "__name__" and t is not None:
                return [(st, Const(t.__name__))]
        if name == "__name__":
            return [(st, Const(o.name.rsplit(".", 1)[-1]))]
        ok = self.known_ext(o.name, name)
        if ok is False:
            return missing(st, f"{o.name} has no attribute {name!r}")
        return [(st, self.ext_const(f"{o.name}.{name}"))]

    STDLIB = {"re", "os", "sys", "json", "posixpath", "codecs", "html", "io", "shlex", "warnings", "difflib",
              "inspect", "pathlib", "urllib", "xml", "traceback", "argparse", "tempfile", "shutil", "subprocess",
              "datetime", "textwrap", "string", "itertools", "functools", "collections", "copy", "unicodedata",
              "html.entities", "html.parser", "os.path", "urllib.parse", "xml.sax", "xml.sax.saxutils", "types"}

    def known_ext(self, mod, name):
        """False when `mod` is a standard library module without attribute `name`.
        Only the interpreter's own standard library modules are consulted."""
        if mod not in self.STDLIB:
            return None
        import importlib
        try:
            m = importlib.import_module(mod)
        except ImportError:
            return None
        if hasattr(m, name):
            return True
        try:
            importlib.import_module(f"{mod}.{name}")
            return True
        except ImportError:
            return False

    def unk_attr(self, st, o, name, node):
        r = self.unk_hook("getattr", st, o, (name,), node)
        if r is not None:
            return r
        if is_path(o):
            v = self.path_attr(o, name)
            if v is not None:
                return [(st, v)]
        return [(st, Unk(("attr", o, name)))]

    def ext_instance_attr(self, st, o, ext, name, node):
        for b in ext:
            if b.name == "html.parser.HTMLParser":
                from html.parser import HTMLParser
                if callable(getattr(HTMLParser, name, None)):
                    return [(st, Partial(ExtV(f"html.parser.HTMLParser.{name}"), (o,), ()))]
                if name == "rawdata":
                    return [(st, hole(("parser", o, name)))]
                if name in ("lasttag", "cdata_elem", "convert_charrefs", "offset", "lineno", "interesting"):
                    return [(st, Unk(("parser", o, name)))]
                return None
            if b.name.startswith("builtins."):
                t = getattr(builtins, b.name[9:], None)
                if t is not None and hasattr(t, name):
                    return [(st, Meth(o, name))]
                return None
        return [(st, Unk(("extattr", o, name)))]

    def builtin_attr(self, st, o, h, name, node, missing):
        I = self.I
        if isinstance(o, SuperV):
            return self.super_attr(st, o, name, node, missing)
        if h is not None:
            k = h.kind
            if k in ("list", "gen"):
                return [(st, Meth(o, name))] if name in LIST_ALL or name in ("__next__", "send", "throw", "close") else missing(st)
            if k == "dict":
                return [(st, Meth(o, name))] if name in DICT_ALL else missing(st)
            if k == "set":
                return [(st, Meth(o, name))] if name in SET_ALL else missing(st)
            if k == "match":
                if name == "string":
                    return [(st, h.meta["subject"])]
                if name == "re":
                    return [(st, h.meta["rx"])]
                if name in ("lastgroup", "lastindex", "pos", "endpos", "regs"):
                    return [(st, Unk(("match", name, o)))]
                return [(st, Meth(o, name))] if name in MATCH_ALL else missing(st)
            return [(st, Unk(("attr", o, name)))]
        if is_str(o):
            return [(st, Meth(o, name))] if name in STR_ALL else missing(st, f"str has no attribute {name!r}")
        if isinstance(o, Const):
            if o.v is None:
                if name in ("__class__", "__doc__"):
                    return [(st, Unk(("noneattr", name)))]
                return missing(st, f"None has no attribute {name!r}")
            if hasattr(o.v, name):
                return [(st, Meth(o, name))]
            return missing(st)
        if isinstance(o, Num):
            return [(st, Meth(o, name))] if name in INT_ALL else missing(st)
        if isinstance(o, TupV):
            if name in TUP_ALL:
                return [(st, Meth(o, name))]
            if name in ("scheme", "netloc", "path", "params", "query", "fragment", "username", "password",
                        "hostname", "port", "geturl", "_replace"):
                # result of urllib.parse.urlparse
                i = ("scheme", "netloc", "path", "params", "query", "fragment") if len(o.items) > 5 else \
                    ("scheme", "netloc", "path", "query", "fragment")
                if name in i and len(o.items) > i.index(name):
                    return [(st, o.items[i.index(name)])]
                if name in ("geturl", "_replace"):
                    return [(st, Meth(o, name))]
                return [(st, Unk(("urlattr", o, name)))]
            return missing(st)
        if isinstance(o, RxV):
            if name == "pattern":
                return [(st, Const(o.pattern))]
            if name == "flags":
                return [(st, Const(o.flags))]
            return [(st, Meth(o, name))] if name in RX_ALL else missing(st)
        if isinstance(o, ExcV):
            if name == "args":
                return [(st, TupV(o.args))]
            if name == "__class__":
                return [(st, o.cls if isinstance(o.cls, ClassV) else ExtV(f"builtins.{o.cls}"))]
            if isinstance(o.cls, ClassV):
                v = I.class_lookup(st, o.cls, name)
                if v is not None:
                    return I.bind_attr(st, v, o, o.cls, node)
                return [(st, Unk(("excattr", o, name)))]
            if name in EXC_ALL or name in EXC_MORE:
                return [(st, Unk(("excattr", o, name)))]
            if o.cls == "Exception?":
                return [(st, Unk(("excattr", o, name)))]
            return missing(st)
        if isinstance(o, Meth):
            if name == "__name__":
                return [(st, Const(o.name))]
            return [(st, Unk(("methattr", o, name)))]
        return [(st, Unk(("attr", o, name)))]

    def super_attr(self, st, o, name, node, missing):
        I = self.I
        ref = o.self_
        start = o.cls
        cls = None
        if isinstance(ref, Ref):
            cls = st.heap[ref.id].cls
        elif isinstance(ref, ClassV):
            cls = ref
        elif isinstance(ref, ExcV):
            cls = ref.cls
        if not isinstance(cls, ClassV):
            cls = start
        mro = I.classes[cls.key]["mro"]
        after = mro[mro.index(start) + 1:] if start in mro else mro[1:]
        for c in after:
            if isinstance(c, ClassV):
                env = st.envs[("cls", c.key)]
                if name in env:
                    return I.bind_attr(st, env[name], ref, cls, node)
            elif c.name == "html.parser.HTMLParser":
                r = self.ext_instance_attr(st, ref, [c], name, node)
                if r is not None:
                    return r
            elif c.name != "builtins.object":
                return [(st, Unk(("super", c.name, name)))]
        if name == "__init__":
            return [(st, ExtV("builtins.object.__init__"))]
        if hasattr(object, name):
            return [(st, Unk(("super", "object", name)))]
        return missing(st, f"super object has no attribute {name!r}")

    # ------------------------------------------------------------- isinstance
    TYPES = {"str": lambda s, v, st: is_str(v),
             "int": lambda s, v, st: is_int(v),
             "bool": lambda s, v, st: isinstance(v, Const) and isinstance(v.v, bool),
             "float": lambda s, v, st: isinstance(v, Const) and isinstance(v.v, float),
             "bytes": lambda s, v, st: isinstance(v, Const) and isinstance(v.v, bytes),
             "tuple": lambda s, v, st: isinstance(v, TupV)}

    def isinst(self, st, v, t):
        """True / False / None"""
        I = self.I
        if isinstance(t, TupV):
            rs = [self.isinst(st, v, x) for x in t.items]
            return True if True in rs else None if None in rs else False
        if isinstance(v, (Unk, Union)) or isinstance(t, (Unk, Union)):
            return None
        if isinstance(t, ExtV):
            n = t.name
            if n == "builtins.object":
                return True
            if n.startswith("builtins."):
                n = n[9:]
                if isinstance(v, ExtV):
                    return None if n not in ("str", "int", "list", "dict", "tuple", "set", "bytes", "float", "bool") else False
                if isinstance(v, ExcV):
                    r = I.exc_matches(v, t)
                    return r
                if n in self.TYPES:
                    return bool(self.TYPES[n](self, v, st))
                if n in ("list", "dict", "set", "frozenset"):
                    if not isinstance(v, Ref):
                        return False
                    o = st.heap[v.id]
                    if o.kind == "inst":
                        return any(isinstance(c, ExtV) and c.name == t.name for c in I.classes[o.cls.key]["mro"])
                    return o.kind == n
                if n == "type":
                    return isinstance(v, ClassV)
                return False if isinstance(v, (Const, Str, Num, TupV)) else None
            if isinstance(v, ExcV):
                return I.exc_matches(v, t)
            if isinstance(v, Ref) and st.heap[v.id].kind == "inst":
                return any(c == t for c in I.classes[st.heap[v.id].cls.key]["mro"])
            if t.name.startswith("re.") and isinstance(v, RxV):
                return True
            return False if isinstance(v, (Const, Str, Num, TupV)) else None
        if isinstance(t, ClassV):
            if isinstance(v, Ref):
                o = st.heap[v.id]
                if o.kind == "inst" and isinstance(o.cls, ClassV):
                    return t in I.classes[o.cls.key]["mro"]
                return False
            if isinstance(v, ExcV):
                return I.exc_matches(v, t)
            return False
        return None

    def isinstance_name(self, call, st):
        """isinstance(name, T) on a variable of unknown type refines the variable"""
        I = self.I
        if call.func.id != "isinstance" or len(call.args) != 2 or st.envs.get(st.fr, {}).get("isinstance") is not None:
            return None
        out = []
        for s, vs in I.ev_many(call.args, st):
            if isinstance(vs, Raise):
                out.append((s, vs))
                continue
            v, t = vs
            r = self.isinst(s, v, t)
            if r is not None:
                out.append((s, Const(r)))
                continue
            for s2, b in I.fork_atom(s, ("isinstance", v, t)):
                if b and isinstance(v, Unk):
                    nv = self.refine(s2, v, t)
                    if nv is not None:
                        e = s2.envs.get(s2.fr, {})
                        if call.args[0].id in e:
                            s2 = s2.copy()
                            s2.setvar(s2.fr, call.args[0].id, nv)
                out.append((s2, Const(b)))
        return out

    def refine(self, st, v, t):
        if isinstance(t, ExtV):
            if t.name == "builtins.str":
                return hole(("str", v))
            if t.name == "builtins.int":
                return Num(("int", v), None, None)
        return None
