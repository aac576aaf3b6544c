"""C14: README generation is strict and UTF-8, from the complete source."""
from .readme import *  # noqa

RULE = ("Abstract interpretation of update_*_readme, assert_*_readme and get_long_description with stubbed converters which return an unknown text or fail, "
        "failing file operations and both results of the ReSt validation. Rule, for every path: what is written to the README (compared with it, or returned) "
        "is html2rest / html2markdown of creole2html of the complete stripped text of the source file, decoded strictly as UTF-8; the second conversion "
        "gets raise_unknown_node; a path on which a conversion or the ReSt validation failed does not touch the README and does not end normally; "
        "get_long_description(raise_errors=False) returns a text on every path.")
MINIMUM = {"outcomes": 60, "failed conversions": 8, "failed validations": 2, "complete": 5}
RENDER = "readme_renderer.rst.render"


def ok_utf8(e):
    return utf8(e)


def strip_ops(v):
    """the text without blanks stripped from its ends"""
    if isinstance(v, Str) and len(v.parts) == 1 and isinstance(v.parts[0], Hole):
        ops = [o for o in v.parts[0].ops if not (o == ("strip",) or (isinstance(o, tuple) and o and str(o[0]).endswith("strip")))]
        if not ops:
            return mk_str((Hole(v.parts[0].src, ()),))
    return v


def always_raises(I, s, u):
    """does the handler of unknown nodes raise on every path?"""
    if u == NONE:
        return False
    return all(isinstance(v, Raise) for _, v in I.call_entry(s.copy(), u, (unk("emitter"), unk("node")), {}))


def chain(rep, I, s, conv, fn, filename, raising):
    """the converted text if the conversions of the path are the right ones"""
    cs = [e for e in s.trace if e[0] == "convert"]
    if [e[1] for e in cs][:1] != ["creole2html"] or len(cs) > 2 or len(cs) == 2 and cs[1][1] != conv:
        rep.find("conversions", fn, f"{fn}: conversions {[e[1] for e in cs]}")
        return None
    f = source_text(strip_ops(cs[0][2]), ok_utf8)
    if f is None or pathkey(f.src[1]) != path_of("README.creole"):
        rep.find("source", fn, f"{fn}: converts {short(cs[0][2])}, not the UTF-8 text of {filename}")
        return None
    for c in cs:
        for k, v in c[3]:
            if c[1] == "creole2html" and k not in ("markup_string", "verbose", "stderr", "debug") and v != NONE and v != {"blog_line_breaks": Const(True), "strict": Const(False)}.get(k):
                rep.find("options", f"{fn}:{k}", f"{fn}: creole2html with {k}={short(v)}")
    if len(cs) < 2:
        return None
    if strip_ops(cs[1][2]) != hole(("converted", "creole2html", cs[0][2])):
        rep.find("source", f"{fn}:{conv}", f"{fn}: {conv} of {short(cs[1][2])}, not of the result of creole2html")
        return None
    u = dict(cs[1][3]).get("unknown_emit", NONE)
    if raising and not always_raises(I, s, u):
        rep.find("strict", fn, f"{fn}: {conv} with unknown_emit={short(u)}: unknown nodes do not raise")
    return hole(("converted", conv, cs[1][2]))


def renders(I, valid):
    def h(I, st, args, kw, node):
        s = st.copy()
        s.trace = s.trace + (("render", args[0] if args else NONE),)
        return [(s, hole(("rendered",)) if valid else NONE)]
    I.hooks[("ext", RENDER)] = h


def machine_(repo, valid, exists):
    I = machine(repo)
    target = {path_of(k[2]) for k in KINDS.values()}

    def ex(I, st, p, what):
        p = pathkey(p)
        if p == SOURCE:
            return what != "is_dir"
        if p in target:
            return what != "is_dir" and exists
        if p == ROOT:
            return what != "is_file"
        return None
    I.hooks["file-exists"] = ex
    renders(I, valid)
    return I


def failed_conversion(v):
    return isinstance(v, Raise) and exc_name(v.exc) == "ConversionError"


def readme(kind, which):
    upd, asr, name, conv = KINDS[kind]
    fn = (upd, asr)[which]
    target = path_of(name)

    def t(rep, repo):
        for valid in (True, False):
            for exists in (True, False):
                I = machine_(repo, valid, exists)
                for s, v in run(I, "creole.setup_utils", fn, (ROOT,)):
                    rep.add("outcomes")
                    gen = chain(rep, I, s, conv, fn, "README.creole", True) if any(e[0] == "convert" for e in s.trace) else None
                    touched = [e for e in s.trace if e[0] in ("open", "write", "fs", "truncate") and destroys(e, target)]
                    rendered = [e for e in s.trace if e[0] == "render"]
                    if isinstance(v, Raise):
                        rep.add("failed conversions", failed_conversion(v))
                        if touched and exc_name(v.exc) not in ("OSError", "UnicodeEncodeError"):
                            rep.find("touched", f"{fn}:{exc_construct(v.exc)}", f"{fn}: {exc_text(v.exc)} after {name} was touched")
                        if not valid and rendered:
                            rep.add("failed validations")
                        continue
                    if gen is None:
                        rep.find("conversions", fn, f"{fn} ends normally without both conversions")
                        continue
                    if kind == "rst":
                        if not rendered or strip_ops(rendered[-1][1]) != gen:
                            rep.find("validation", fn, f"{fn} ends normally without a validation of the generated ReSt")
                        if not valid:
                            rep.find("validation", fn, f"{fn} ends normally with invalid ReSt")
                    if touched and which:
                        rep.find("touched", fn, f"{fn} writes {name}")
                    w = written(s.trace).get(target)
                    if not which and not exists and w is None:
                        rep.find("write", fn, f"{fn} does not write the missing {name}")
                    if w is not None:
                        whole = join(w[3])
                        if not parts_of(whole) or parts_of(whole)[0] != parts_of(gen)[0]:
                            rep.find("write", fn, f"{fn} writes {short(whole)}, not the generated text")
                        elif not utf8(w[1]) or not strict(w[2]):
                            rep.find("encoding", fn, f"{fn} writes with encoding {short(w[1])}, errors {short(w[2])}")
                    reads = [e for e in s.trace if e[0] == "open" and pathkey(e[1]) == target and not writable(e[2])]
                    for e in reads:
                        if not utf8(e[3]):
                            rep.find("encoding", fn, f"{fn} reads {name} with encoding {short(e[3])}")
                    rep.add("complete")
                coverage(I, rep)
    return t


def long_description(mode):
    fn = "get_long_description"
    root = mk_str((Hole(("param", "package root"), ()),))

    def t(rep, repo):
        I = machine(repo)
        lookup(I, "creole.rest_tools.pypi_rest2html", "pypi_rest2html")

        def pypi(I, st, env, node):
            s = st.copy()
            s.trace = s.trace + (("render", env.get("source", NONE)),)
            out = [(s, hole(("pypi html",)))]
            for e in ("SystemExit", "Exception", "ValueError"):
                s = st.copy()
                s.trace = s.trace + (("invalid",),)
                out.append((s, Raise(ExcV(e, (Const(1),), ("stub", "pypi_rest2html", 0), "invalid"))))
            return out
        I.hooks[("func", "creole.rest_tools.pypi_rest2html", "pypi_rest2html")] = pypi
        for s, v in run(I, "creole.setup_utils", fn, (root,), {"raise_errors": Const(mode)}):
            rep.add("outcomes")
            cs = [e for e in s.trace if e[0] == "convert"]
            if isinstance(v, Raise):
                if failed_conversion(v):
                    rep.add("failed conversions")
                if ("invalid",) in s.trace:
                    rep.add("failed validations")
                if not mode:
                    rep.find("raises", f"{fn}:{exc_construct(v.exc)}", f"{fn}(raise_errors=False): {exc_text(v.exc)}")
                continue
            if not is_str(v):
                rep.find("result", fn, f"{fn}(raise_errors={mode}) returns {short(v)}")
                continue
            if mode and ("invalid",) in s.trace:
                rep.find("validation", fn, f"{fn}(raise_errors=True) returns invalid ReSt")
            gen = None
            if cs:
                last = cs[-1]
                f = source_text(strip_ops(cs[0][2]), utf8)
                if cs[0][1] != "creole2html" or f is None:
                    rep.find("source", fn, f"{fn}: {cs[0][1]} of {short(cs[0][2])}")
                elif len(cs) == 2 and cs[1][1] == "html2rest" and strip_ops(cs[1][2]) == hole(("converted", "creole2html", cs[0][2])):
                    gen = hole(("converted", "html2rest", cs[1][2]))
                u = dict(last[3]).get("unknown_emit", NONE)
                if gen is not None and mode and not always_raises(I, s, u):
                    rep.find("strict", fn, f"{fn}(raise_errors=True): html2rest with unknown_emit={short(u)}")
            if mode and (gen is None or strip_ops(v) != gen):
                rep.find("result", fn, f"{fn}(raise_errors=True) returns {short(v)}, not the converted text")
            elif gen is not None and strip_ops(v) == gen:
                rep.add("complete")
                if mode and not [e for e in s.trace if e[0] == "render" and strip_ops(e[1]) == gen]:
                    rep.find("validation", fn, f"{fn}(raise_errors=True) does not validate the ReSt")
        coverage(I, rep)
    return t


tasks = [(f"{KINDS[k][w]}", readme(k, w)) for k in KINDS for w in (0, 1)]
tasks += [(f"get_long_description(raise_errors={m})", long_description(m)) for m in (True, False)]
