"""Standard library and third party functions used by the analysed package."""

import codecs
import inspect
import pathlib
import posixpath
import textwrap

from .calls import from_param
from .interp import HObj, flat_items
from .ops import RX_METHS, is_path, mk_path, tname
from .values import (
    EMPTY, FALSE, NONE, TRUE, BoundV, ClassV, Const, ExcV, ExtV, FuncV, Hole, LStar, Meth, Num,
    Partial, Raise, Ref, RxV, Str, TupV, Union, Unk, Wrap, hole, is_int, is_str,
)

ESC = (("&", "&amp;"), ("<", "&lt;"), (">", "&gt;"))

# functions which are pure and total for our purposes
PURE_STR = {"os.path.join", "posixpath.join", "os.path.dirname", "posixpath.dirname", "os.path.abspath",
            "os.path.basename", "posixpath.basename", "posixpath.splitext", "textwrap.dedent", "textwrap.indent",
            "textwrap.fill", "inspect.cleandoc", "html.unescape", "urllib.parse.unquote", "urllib.parse.urlunparse",
            "urllib.parse.urljoin", "unicodedata.normalize", "pprint.pformat", "reprlib.repr", "inspect.getfile",
            "traceback.format_exc", "os.linesep", "os.getcwd", "platform.platform"}

IO_CALLS = {"os.remove", "os.unlink", "os.rename", "os.replace", "os.truncate", "shutil.copy", "shutil.copyfile",
            "shutil.move", "shutil.copy2", "shutil.rmtree", "os.mkdir", "os.makedirs", "os.rmdir", "os.system"}


class ExtLib:
    def lib_call(self, st, name, args, kwargs, node):
        I = self.I
        m = getattr(self, "l_" + name.replace(".", "_"), None)
        if m is not None:
            return m(st, args, kwargs, node)
        if name.startswith("re.") and name[3:] in RX_METHS:
            return self.re_func(st, name[3:], args, kwargs, node)
        if name in ("codecs.open", "io.open", "os.fdopen"):
            return self.open_file(st, name, args, kwargs, node)
        if name in PURE_STR:
            if all(isinstance(a, Const) for a in args) and not kwargs and name in (
                    "inspect.cleandoc", "textwrap.dedent", "posixpath.basename"):
                fn = {"inspect.cleandoc": inspect.cleandoc, "textwrap.dedent": textwrap.dedent,
                      "posixpath.basename": posixpath.basename}[name]
                return [(st, Const(fn(args[0].v)))]
            if len(args) == 1 and is_str(args[0]):
                return [(st, self.opaque(args[0], "call", name))]
            return [(st, hole(("libcall", name, args)))]
        if name in IO_CALLS:
            st = st.copy()
            st.trace = st.trace + (("fs", name, args),)
            return [(st, NONE)]
        if name.startswith("datetime."):
            return [(st, Unk(("dt", name, I.site(node))))]
        if name in ("time.strftime", "time.ctime", "time.asctime"):
            return [(st, hole(("nonl", name, I.site(node))))]
        if name.startswith("subprocess.") or name.startswith("poetry_publish."):
            st = st.copy()
            st.trace = st.trace + (("call", name, args),)
            return [(st, Unk(("call", name, I.site(node))))]
        return self.unk(st, node, name)

    # ------------------------------------------------------------- re
    def re_func(self, st, meth, args, kwargs, node):
        pos = {"sub": 4, "subn": 4, "split": 3, "match": 2, "search": 2, "fullmatch": 2, "finditer": 2, "findall": 2}[meth]
        flags = kwargs.get("flags", args[pos] if len(args) > pos else Const(0))
        kw = {k: v for k, v in kwargs.items() if k not in ("flags", "pattern")}
        pat = kwargs.get("pattern", args[0] if args else None)
        rest = args[1:pos]
        return self.I.bind(self.mk_rx(st, pat, flags, node), lambda s, rx: self.rx_method(s, rx, meth, rest, kw, node))

    def l_re_compile(self, st, args, kwargs, node):
        flags = kwargs.get("flags", args[1] if len(args) > 1 else Const(0))
        return self.mk_rx(st, args[0] if args else kwargs.get("pattern"), flags, node)

    def l_re_escape(self, st, args, kwargs, node):
        import re
        if isinstance(args[0], Const):
            return [(st, Const(re.escape(args[0].v)))]
        return [(st, self.opaque(args[0], "re.escape") if is_str(args[0]) else hole(("re.escape", args[0])))]

    # ------------------------------------------------------------- escaping
    def to_str(self, st, v, node, what):
        """the argument must be a string"""
        if isinstance(v, Unk):
            return [(st, hole(("str", v)))]
        if not is_str(v):
            return [self.exc(st, node, "TypeError" if not (isinstance(v, Const) and v.v is None) else "AttributeError",
                             f"{what}: {tname(v, st)} is not a string")]
        return [(st, v)]

    def do_escape(self, st, v, pairs, node, what):
        def lit(t):
            for a, b in pairs:
                t = t.replace(a, b)
            return t
        return self.I.bind(self.to_str(st, v, node, what),
                           lambda s, x: [(s, self.map_str(x, lit, ("escape", tuple(pairs))))])

    def l_xml_sax_saxutils_escape(self, st, args, kwargs, node, quote=False):
        pairs = list(ESC)
        ent = kwargs.get("entities", args[1] if len(args) > 1 else None)
        if ent is not None:
            if isinstance(ent, Ref) and st.heap[ent.id].kind == "dict":
                for k, v in st.heap[ent.id].entries.items():
                    if isinstance(k, Const) and isinstance(v, Const):
                        pairs.append((k.v, v.v))
        return self.do_escape(st, args[0], pairs, node, "escape")

    def l_html_escape(self, st, args, kwargs, node):
        q = kwargs.get("quote", args[1] if len(args) > 1 else TRUE)
        pairs = list(ESC)
        if not (isinstance(q, Const) and not q.v):
            pairs += [('"', "&quot;"), ("'", "&#x27;")]
        return self.do_escape(st, args[0] if args else kwargs["s"], pairs, node, "html.escape")

    def l_xml_sax_saxutils_quoteattr(self, st, args, kwargs, node):
        pairs = list(ESC) + [("\n", "&#10;"), ("\r", "&#13;"), ("\t", "&#9;"), ('"', "&quot;")]
        from .values import mk_str, parts_of
        return self.I.bind(self.do_escape(st, args[0], pairs, node, "quoteattr"),
                           lambda s, v: [(s, mk_str(('"',) + tuple(parts_of(v)) + ('"',)))])

    def l_json_dumps(self, st, args, kwargs, node):
        import json
        v = args[0]
        if isinstance(v, Const):
            return [(st, Const(json.dumps(v.v)))]
        if isinstance(v, Str):
            return [(st, self.opaque(v, "json"))]
        return [(st, hole(("json", v)))]

    def l_json_loads(self, st, args, kwargs, node):
        bad = st.copy()
        return [(st, Unk(("json", args))), self.exc(bad, node, "ValueError", "json.loads")]

    def l_urllib_parse_quote(self, st, args, kwargs, node):
        from urllib.parse import quote
        safe = kwargs.get("safe", args[1] if len(args) > 1 else Const("/"))
        sf = safe.v if isinstance(safe, Const) else "/"
        return self.I.bind(self.to_str(st, args[0], node, "quote"),
                           lambda s, x: [(s, self.map_str(x, lambda t: quote(t, safe=sf), ("quote", sf)))])

    l_urllib_parse_quote_plus = l_urllib_parse_quote

    def l_urllib_parse_urlparse(self, st, args, kwargs, node):
        v = args[0]
        I = self.I
        if isinstance(v, Const) and isinstance(v.v, str):
            from urllib.parse import urlparse
            try:
                return [(st, TupV(tuple(Const(x) for x in urlparse(v.v))))]
            except ValueError as e:
                return [self.exc(st, node, "ValueError", str(e))]
        if isinstance(v, Const):
            return [(st, TupV(tuple(Const("") for _ in range(6))))]
        bad = st.copy()
        x = v if is_str(v) else hole(("str", v))
        t = TupV(tuple(hole(("url", p, x)) for p in ("scheme", "netloc", "path", "params", "query", "fragment")))
        return [(st, t), self.exc(bad, node, "ValueError", "urlparse() of an invalid IPv6 URL")]

    def l_urllib_parse_urlsplit(self, st, args, kwargs, node):
        return [(s, TupV(v.items[:3] + v.items[4:]) if isinstance(v, TupV) else v)
                for s, v in self.l_urllib_parse_urlparse(st, args, kwargs, node)]

    def l_shlex_split(self, st, args, kwargs, node):
        bad = st.copy()
        st = st.copy()
        x = args[0]
        p = hole(("shlex", x))
        return [(st, self.new_list(st, node, (LStar(("shlex", x), frozenset([(p,)]), True),), "shlex")),
                self.exc(bad, node, "ValueError", "shlex.split(): no closing quotation", (hole(("exc-text", "shlex")),))]

    # ------------------------------------------------------------- sys / misc
    def l_sys_exc_info(self, st, args, kwargs, node):
        e = self.I.frame.exc[-1] if self.I.frame.exc else None
        if e is None:
            for f in reversed(self.I.frames):
                if f.exc:
                    e = f.exc[-1]
                    break
        if e is None:
            return [(st, TupV((NONE, NONE, NONE)))]
        return [(st, TupV((Unk(("exctype", e)), e, Unk(("tb",)))))]

    def l_sys_exit(self, st, args, kwargs, node):
        return [(st, Raise(ExcV("SystemExit", args, self.I.site(node), "sys.exit")))]

    def l_traceback_format_exception(self, st, args, kwargs, node):
        st = st.copy()
        e = args[1] if len(args) > 1 else args[0] if args else NONE
        h = hole(("traceback", e))
        return [(st, self.new_list(st, node, (LStar(("traceback",), frozenset([(h,)]), False),), "tb"))]

    def l_traceback_print_exc(self, st, args, kwargs, node):
        self.I.event("print", ((Unk(("traceback",)),), kwargs.get("file", ExtV("sys.stderr"))), st, node)
        st = st.copy()
        st.trace = st.trace + (("print", kwargs.get("file", ExtV("sys.stderr")), ()),)
        return [(st, NONE)]

    def l_warnings_warn(self, st, args, kwargs, node):
        self.I.event("warn", args, st, node)
        return [(st, NONE)]

    def l_copy_copy(self, st, args, kwargs, node):
        v = args[0]
        if isinstance(v, Ref):
            st = st.copy()
            o = st.heap[v.id].clone()
            for k in ("static", "caller", "summary"):
                o.meta.pop(k, None)
            return [(st, self.I.alloc(st, node, "copy", o))]
        if isinstance(v, Unk):
            return [(st, Unk(("copy", v)))]
        return [(st, v)]

    l_copy_deepcopy = l_copy_copy

    def l_functools_partial(self, st, args, kwargs, node):
        return [(st, Partial(args[0], tuple(args[1:]), tuple(sorted(kwargs.items()))))]

    def l_functools_reduce(self, st, args, kwargs, node):
        I = self.I
        fr = st.fr
        var = "<reduce>"

        def go(s, items):
            s = s.copy()
            its = items
            if len(args) > 2:
                s.setvar(fr, var, args[2])
            elif its and not isinstance(its[0], LStar):
                s.setvar(fr, var, its[0])
                its = its[1:]
            else:
                return self.unk(s, node, "functools.reduce")

            def body(s2, v):
                out = []
                for a in (s2.envs[fr][var].alts if isinstance(s2.envs[fr][var], Union) else (s2.envs[fr][var],)):
                    for s3, r in I.call(s2.copy(), args[0], (a, v), {}, node):
                        if isinstance(r, Raise):
                            out.append((s3, ("exc", r.exc)))
                        else:
                            s3 = s3.copy()
                            s3.setvar(fr, var, r)
                            out.append((s3, None))
                return out
            res = []
            for s2, sig in self.loop(s, its, body, node, "red"):
                if sig is not None and sig[0] == "exc":
                    res.append((s2, Raise(sig[1])))
                else:
                    v = s2.envs[fr][var]
                    s2 = s2.copy()
                    s2.delvar(fr, var)
                    for a in (v.alts if isinstance(v, Union) else (v,)):
                        res.append((s2.copy(), a))
            return res
        return I.bind(self.iterate(st, args[1], node), go)

    def l_itertools_zip_longest(self, st, args, kwargs, node):
        return self.b_zip(st, args, kwargs, node, longest=True)

    def l_itertools_chain(self, st, args, kwargs, node):
        def f(s, seqs):
            s = s.copy()
            its = ()
            for q in seqs:
                its += tuple(flat_items(q[1]) if q and q[0] == "*" else q)
            return [(s, self.new_list(s, node, its, "chain"))]
        return self.I.bind(self.iter_all(st, args, node), f)

    def l_itertools_chain_from_iterable(self, st, args, kwargs, node):
        def f(s, items):
            s = s.copy()
            out = []
            for it in items:
                if isinstance(it, LStar):
                    alts = set()
                    for a in it.alts:
                        sub = ()
                        for x in a:
                            for s2, its in self.iterate(s, x, node):
                                if not isinstance(its, Raise):
                                    sub += tuple(its)
                        alts.add(sub)
                    out.append(LStar(it.origin, frozenset(alts), it.each))
                else:
                    for s2, its in self.iterate(s, it, node):
                        if not isinstance(its, Raise):
                            out.extend(its)
            return [(s, self.new_list(s, node, out, "chain"))]
        return self.I.bind(self.iterate(st, args[0], node), f)

    def l_itertools_count(self, st, args, kwargs, node):
        st = st.copy()
        lo = args[0].v if args and isinstance(args[0], Const) else 0
        return [(st, self.new_list(st, node, (LStar(("count",), frozenset([(Num(("enum", "count"), lo, None),)]), True),), "count"))]

    def l_collections_OrderedDict(self, st, args, kwargs, node):
        return self.b_dict(st, args, kwargs, node)

    def l_collections_deque(self, st, args, kwargs, node):
        return self.b_list(st, args[:1], {}, node)

    def l_collections_namedtuple(self, st, args, kwargs, node):
        return [(st, Unk(("namedtuple", args)))]

    def l_types_SimpleNamespace(self, st, args, kwargs, node):
        return [(st, Unk(("namespace", tuple(sorted(kwargs.items())))))]

    # ------------------------------------------------------------- files
    def open_file(self, st, fn, args, kwargs, node):
        I = self.I
        names = ("filename", "mode", "encoding", "errors", "buffering") if fn == "codecs.open" else \
            ("file", "mode", "buffering", "encoding", "errors", "newline")
        a = dict(zip(names, args))
        a.update(kwargs)
        path = a.get("file", a.get("filename", NONE))
        return self.mk_file(st, path, a.get("mode", Const("r")), a.get("encoding", NONE), node, fn, a.get("newline", NONE),
                            a.get("errors", NONE))

    def mk_file(self, st, path, mode, enc, node, fn, newline=NONE, errors=NONE):
        st = st.copy()
        h = self.I.hooks.get("file-exists")
        if h is not None and isinstance(mode, Const) and str(mode.v)[:1] == "r" and h(self.I, st, path, "open") is False:
            return [self.exc(st, node, "FileNotFoundError", "open()")]
        f = Unk(("file", path, mode, enc, self.I.site(node), fn, errors))
        self.I.event("open", (path, mode, enc, fn, newline), st, node)
        st.trace = st.trace + (("open", path, mode, enc, fn),)
        out = [(st, f)]
        if self.I.hooks.get("io-errors"):
            out.append(self.exc(st.copy(), node, "OSError", "open()"))
            if enc != NONE and not isinstance(enc, Const):
                out.append(self.exc(st.copy(), node, "LookupError", "unknown encoding"))
        return out

    def file_of(self, v):
        return isinstance(v, Unk) and v.src and v.src[0] == "file"

    def file_method(self, st, f, name, args, kwargs, node):
        st = st.copy()
        I = self.I
        if name in ("read", "readlines", "readline", "__iter__"):
            st.trace = st.trace + (("read", f),)
            I.event("read", f, st, node)
            out = []
            mode = f.src[2]
            binary = isinstance(mode, Const) and isinstance(mode.v, str) and "b" in mode.v
            if I.hooks.get("io-errors"):
                out.append(self.exc(st.copy(), node, "UnicodeDecodeError", "read()"))
            if name == "readlines":
                l = self.new_list(st, node, (LStar(("lines", f), frozenset([(hole(("line", f)),)]), True),), "readlines")
                return [(st, l)] + out
            h = I.hooks.get("file-content")
            v = h(I, st, f) if h is not None and name == "read" and not args else None
            return [(st, v if v is not None else Unk(("bytes", f)) if binary else hole(("content", f)))] + out
        if name in ("write", "writelines"):
            st.trace = st.trace + (("write", f, args[0] if args else NONE),)
            I.event("write", (f, args), st, node)
            out = [(st, Num(("written",), 0, None))]
            mode = f.src[2]
            if I.hooks.get("io-errors") and not (isinstance(mode, Const) and "b" in str(mode.v)) and not (
                    isinstance(f.src[3], Const) and str(f.src[3].v).lower().replace("_", "-") in ("utf-8", "utf8")):
                out.append(self.exc(st.copy(), node, "UnicodeEncodeError", "write()"))
            return out
        if name in ("close", "flush", "seek", "truncate"):
            st.trace = st.trace + ((name, f),)
            return [(st, NONE)]
        return [(st, Unk(("filecall", f, name)))]

    def with_ext(self, st, cm, enter, body, node):
        I = self.I
        v = cm
        if not self.file_of(cm):
            v = Unk(("enter", cm)) if not isinstance(cm, Unk) else cm
        outs = []
        for s, sig in enter(st, v):
            if sig is not None:
                outs.append((s, sig))
                continue
            for s2, sig2 in body(s):
                if self.file_of(cm):
                    s2 = s2.copy()
                    s2.trace = s2.trace + (("close", cm),)
                if isinstance(cm, Unk) and cm.src and cm.src[0] == "suppress" and sig2 is not None and sig2[0] == "exc":
                    rs = [I.exc_matches(sig2[1], t) for t in cm.src[1]]
                    if True in rs:
                        sig2 = None
                outs.append((s2, sig2))
        return outs

    def path_attr(self, p, name):
        """attribute of a pathlib.Path, or None"""
        last = p.src[-1]
        if isinstance(last, Const) and isinstance(last.v, str) and len(p.src) > 2:
            if name in ("name", "suffix", "stem"):
                return Const(getattr(pathlib.PurePosixPath(last.v), name))
            if name == "parent" and "/" not in last.v and last.v not in ("", ".", ".."):
                return Unk(p.src[:-1])
        if name in ("name", "suffix", "stem"):
            return hole(("pathattr", p, name))
        if name == "parent":
            return Unk(("path", ("pathop", p, name)))
        return None

    def l_contextlib_suppress(self, st, args, kwargs, node):
        return [(st, Unk(("suppress", tuple(args))))]

    def l_contextlib_nullcontext(self, st, args, kwargs, node):
        return [(st, args[0] if args and isinstance(args[0], Unk) else Unk(("nullcontext", args)))]

    def l_pathlib_Path(self, st, args, kwargs, node):
        return [(st, mk_path(args))]

    l_pathlib_PurePath = l_pathlib_Path
    l_pathlib_PurePosixPath = l_pathlib_Path

    def l_os_path_join(self, st, args, kwargs, node):
        return [(st, mk_path(args))]

    def exists(self, st, p, what):
        h = self.I.hooks.get("file-exists")
        b = h(self.I, st, p, what) if h is not None else None
        if b is not None:
            return [(st, Const(b))]
        return [(s, Const(b)) for s, b in self.I.fork_atom(st, ("isfile", p))]

    def l_os_path_isfile(self, st, args, kwargs, node):
        return self.exists(st, mk_path(args[:1]), "is_file")

    def l_os_path_exists(self, st, args, kwargs, node):
        return self.exists(st, mk_path(args[:1]), "exists")

    def l_os_path_isdir(self, st, args, kwargs, node):
        return self.exists(st, mk_path(args[:1]), "is_dir")

    def path_method(self, st, p, name, args, kwargs, node):
        I = self.I
        if name == "open":
            names = ("mode", "buffering", "encoding", "errors", "newline")
            a = dict(zip(names, args))
            a.update(kwargs)
            return self.mk_file(st, p, a.get("mode", Const("r")), a.get("encoding", NONE), node, "Path.open", a.get("newline", NONE),
                                a.get("errors", NONE))
        if name in ("read_text", "read_bytes"):
            enc = kwargs.get("encoding", args[0] if args else NONE) if name == "read_text" else NONE
            mode = Const("r" if name == "read_text" else "rb")
            err = kwargs.get("errors", args[1] if len(args) > 1 else NONE)
            return I.bind(self.mk_file(st, p, mode, enc, node, "Path." + name, errors=err),
                          lambda s, f: self.file_method(s, f, "read", (), {}, node))
        if name in ("write_text", "write_bytes"):
            enc = kwargs.get("encoding", args[1] if len(args) > 1 else NONE) if name == "write_text" else NONE
            mode = Const("w" if name == "write_text" else "wb")
            data = kwargs.get("data", args[0] if args else NONE)
            err = kwargs.get("errors", args[2] if len(args) > 2 else NONE)
            return I.bind(self.mk_file(st, p, mode, enc, node, "Path." + name, errors=err),
                          lambda s, f: self.file_method(s, f, "write", (data,), {}, node))
        if name in ("is_file", "exists", "is_dir"):
            return self.exists(st, p, name)
        if name in ("unlink", "rename", "replace", "touch", "mkdir", "rmdir"):
            st = st.copy()
            st.trace = st.trace + (("fs", "Path." + name, (p,) + tuple(args)),)
            return [(st, p)]
        if name == "joinpath":
            return [(st, mk_path((p,) + tuple(args)))]
        if name in ("with_suffix", "with_name", "with_stem"):
            last = p.src[-1]
            if isinstance(last, Const) and isinstance(last.v, str) and args and isinstance(args[0], Const) and len(p.src) > 2:
                try:
                    q = getattr(pathlib.PurePosixPath(last.v), name)(args[0].v)
                except (ValueError, TypeError) as e:
                    return [self.exc(st, node, "ValueError", str(e))]
                return [(st, Unk(p.src[:-1] + (Const(str(q)),)))]
            return [(st, Unk(("path", ("pathop", p, name) + tuple(args))))]
        if name in ("resolve", "absolute", "expanduser"):
            return [(st, p)]
        if name == "relative_to":
            return [(st, Unk(("path", ("pathop", p, name) + tuple(args))))]
        return [(st, Unk(("pathcall", p, name)))]

    def unk_method(self, st, o, name, args, kwargs, node):
        I = self.I
        if self.file_of(o):
            return self.file_method(st, o, name, args, kwargs, node)
        if is_path(o):
            return self.path_method(st, o, name, args, kwargs, node)
        if o.src and o.src[0] == "dt":
            if name in ("isoformat", "strftime", "ctime"):
                return [(st, hole(("nonl", name, self.I.site(node))))]
            return [(st, Unk(("dt", name, self.I.site(node))))]
        if o.src and o.src[0] == "attr" and o.src[2] in ("parent", "parents"):
            return self.path_method(st, o, name, args, kwargs, node)
        if o.src and o.src[0] == "bytes" and name == "decode":
            enc = args[0] if args else kwargs.get("encoding", Const("utf-8"))
            err = args[1] if len(args) > 1 else kwargs.get("errors", Const("strict"))
            out = [(st, hole(("decoded", o, enc, err)))]
            if I.hooks.get("io-errors"):
                out.append(self.exc(st.copy(), node, "UnicodeDecodeError", "decode()"))
            return out
        h = I.hooks.get("unk-method")
        if h is not None:
            r = h(I, st, o, name, args, kwargs, node)
            if r is not None:
                return r
        if name == "write":
            st = st.copy()
            st.trace = st.trace + (("uwrite", o, args),)
            I.event("uwrite", (o, args), st, node)
            return [(st, NONE)]
        I.event("unkmethod", (o, name, tuple(args), tuple(sorted(kwargs.items()))), st, node)
        if name in ("items", "keys", "values", "get", "copy") and from_param(o):
            return [(st, Unk(("call", o, name, args)))]
        return self.unk(st, node, f".{name}()") if not from_param(o) else [(st, Unk(("call", o, name, args)))]

    # ------------------------------------------------------------- io.StringIO
    def l_io_StringIO(self, st, args, kwargs, node):
        return [(st, Unk(("stringio", self.I.site(node))))]

    # ------------------------------------------------------------- HTMLParser
    def l_html_parser_HTMLParser___init__(self, st, args, kwargs, node):
        st = st.copy()
        ref = args[0] if args else None
        conv = kwargs.get("convert_charrefs", TRUE)
        if isinstance(ref, Ref):
            o = st.mut(ref.id)
            o.meta["convert_charrefs"] = conv
            o.fields["convert_charrefs"] = conv
        return [(st, NONE)]

    def l_html_parser_HTMLParser_reset(self, st, args, kwargs, node):
        return [(st, NONE)]

    def l_html_parser_HTMLParser_getpos(self, st, args, kwargs, node):
        return [(st, TupV((Num(("getpos", 0), 0, None), Num(("getpos", 1), 0, None))))]

    def l_html_parser_HTMLParser_get_starttag_text(self, st, args, kwargs, node):
        return [(st, hole(("starttag-text",)))]

    def l_html_parser_HTMLParser_unescape(self, st, args, kwargs, node):
        return [(st, hole(("unescape", args)))]

    def noop(self, st, args, kwargs, node):
        return [(st, NONE)]

    l_html_parser_HTMLParser_handle_comment = noop
    l_html_parser_HTMLParser_handle_decl = noop
    l_html_parser_HTMLParser_handle_pi = noop
    l_html_parser_HTMLParser_unknown_decl = noop
    l_html_parser_HTMLParser_handle_starttag = noop
    l_html_parser_HTMLParser_handle_endtag = noop
    l_html_parser_HTMLParser_handle_data = noop
    l_html_parser_HTMLParser_handle_charref = noop
    l_html_parser_HTMLParser_handle_entityref = noop
    l_html_parser_HTMLParser_clear_cdata_mode = noop
    l_html_parser_HTMLParser_set_cdata_mode = noop

    def l_html_parser_HTMLParser_handle_startendtag(self, st, args, kwargs, node):
        I = self.I
        ref, tag, attrs = args
        return I.bind(I.bind(I.getattr(st, ref, "handle_starttag", node), lambda s, f: I.call(s, f, (tag, attrs), {}, node)),
                      lambda s, _: I.bind(I.getattr(s, ref, "handle_endtag", node), lambda s2, f: I.call(s2, f, (tag,), {}, node)))

    CALLBACKS = ("handle_starttag", "handle_startendtag", "handle_endtag", "handle_data", "handle_charref",
                 "handle_entityref", "handle_comment", "handle_decl", "handle_pi", "unknown_decl")

    def l_urllib_parse_ParseResult(self, st, args, kw, node):
        names = ("scheme", "netloc", "path", "params", "query", "fragment")
        vals = list(args) + [kw[n] for n in names[len(args):] if n in kw]
        if len(vals) != 6:
            return [self.exc(st, node, "TypeError", "ParseResult takes six arguments")]
        return [(st, TupV(tuple(vals)))]

    def l_html_parser_HTMLParser_feed(self, st, args, kwargs, node):
        ref = args[0]
        st = st.copy()
        st.mut(ref.id).meta["pending"] = True
        self.I.event("feed", args, st, node)
        st.trace = st.trace + (("feed", args[1] if len(args) > 1 else NONE),)
        return self.parse_events(st, ref, node)

    def l_html_parser_HTMLParser_close(self, st, args, kwargs, node):
        ref = args[0]
        st = st.copy()
        st.mut(ref.id).meta["pending"] = False
        self.I.event("close", args, st, node)
        st.trace = st.trace + (("close-parser",),)
        return self.parse_events(st, ref, node)

    def parse_events(self, st, ref, node):
        """an arbitrary sequence of parser callbacks"""
        I = self.I
        pid = I.sid(node, "html")
        conv = st.heap[ref.id].meta.get("convert_charrefs", TRUE)
        cbs = [c for c in self.CALLBACKS
               if not (c in ("handle_charref", "handle_entityref") and conv == TRUE)]

        def call(s, name, args):
            out = []
            for s2, r in I.bind(I.getattr(s, ref, name, node), lambda s2, f: I.call(s2, f, args, {}, node)):
                h = I.hooks.get("html-callback")
                if h and not isinstance(r, Raise):
                    h(I, name, ref, args, s, s2)
                out.append((s2, ("exc", r.exc)) if isinstance(r, Raise) else (s2, None))
            return out

        def body(s, cb):
            cb = cb.v
            s = s.copy()
            I.events_html = cb
            tag = hole(("tag", pid))
            if cb in ("handle_starttag", "handle_startendtag"):
                n, v = hole(("attr-name", pid)), hole(("attr-value", pid))
                attrs = self.new_list(s, node, (LStar(("attrs", pid), frozenset([(TupV((n, v)),), (TupV((n, NONE)),)]), True),), "attrs")
                return call(s, cb, (tag, attrs))
            if cb == "handle_endtag":
                return call(s, cb, (hole(("tag", pid, "end")),))
            if cb == "handle_data":
                return call(s, cb, (hole(("nonempty", "data", pid)),))
            if cb == "handle_charref":
                out = []
                for v in (hole(("spec", "dec", pid)), Str(("x", Hole(("spec", "hex", pid), ()))),
                          Str(("X", Hole(("spec", "hex", pid), ())))):
                    out.extend(call(s.copy(), cb, (v,)))
                return out
            if cb == "handle_entityref":
                return call(s, cb, (hole(("spec", "entity", pid)),))
            return call(s, cb, (hole(("markup", cb, pid)),))
        res = []
        var = (LStar(("html", pid), frozenset((Const(c),) for c in cbs), False),)
        for s, sig in self.loop(st, var, body, node, "html"):
            res.append((s, Raise(sig[1]) if sig is not None and sig[0] == "exc" else NONE))
        return res
