"""C09: rest2html with raw HTML and file insertion off, and everything escaped."""
from .docutils_model import settings
from .html import Walker
from .small import *  # noqa

MOD = "creole.rest_tools.clean_writer"
RULE = ("Abstract interpretation of rest2html and of the methods of its docutils translator class. Rules: publish_parts gets exactly the content, with raw_enabled and "
        "file_insertion_enabled off unless the caller passes them, and the other settings of the caller as they are; the result is the html body; start tags are well formed and contain attribute values "
        "only quoted and escaped (attval), except for ignored tags and attributes; no method of the translator writes text or attributes of "
        "a document node into the output without encode() / attval() (docutils has validated the align attribute).")
MINIMUM = {"publish calls": 6, "start tags": 4, "methods": 12}
NODE = Unk(("docnode", "any"))
ESC = (("&", "&amp;"), ("<", "&lt;"), (">", "&gt;"), ('"', "&quot;"))


def rest2html(rep, repo):
    cases = [({}, False, False),
             ({"report_level": Const(3)}, False, False),
             ({"enable_exit_status": Const(1), "traceback": FALSE, "exit_status_level": Const(2)}, False, False),
             ({"raw_enabled": TRUE}, True, False),
             ({"file_insertion_enabled": TRUE}, False, True),
             ({"input_encoding": Const("utf-8"), "doctitle_xform": TRUE}, False, False)]
    for kw, raw, files in cases:
        I = make(repo)
        calls = []

        def publish(I, st, args, k, node):
            names = ("source", "source_path", "source_class", "destination_path", "destination_class", "reader", "reader_name", "parser", "parser_name",
                     "writer", "writer_name", "settings", "settings_spec", "settings_overrides")
            a = dict(zip(names, args))
            a.update(k)
            calls.append((a, settings(I, st, a.get("settings_overrides", NONE)), st))
            return [(st, Unk(("parts",)))]
        I.hooks[("ext", "docutils.core.publish_parts")] = publish
        for s, v in run(I, MOD, "rest2html", (text(),), kw):
            if not isinstance(v, Raise) and v != Unk(("item", Unk(("parts",)), Const("html_body"))):
                rep.find("result", "rest2html", f"returns {short(v)}, not the html body")
        for a, st, s in calls:
            rep.add("publish calls")
            what = f"rest2html(content, {', '.join(kw)})"
            if a.get("source") != text():
                rep.find("source", "rest2html", f"{what} publishes {short(a.get('source'))}")
            if st is None:
                rep.find("settings", "rest2html", f"{what} publishes with settings_overrides={short(a.get('settings_overrides'))}")
                continue
            for k, on in (("raw_enabled", raw), ("file_insertion_enabled", files)):
                x = st.get(k)
                if not isinstance(x, Const) or bool(x.v) != on:
                    rep.find("settings", f"rest2html:{k}", f"{what} publishes with {k}={short(x)}")
            for k, x in kw.items():
                if k != "enable_exit_status" and st.get(k) != x:
                    rep.find("settings", f"rest2html:{k}", f"{what}: the setting {k} is {short(st.get(k))}")
            w = a.get("writer")
            cls = s.heap[w.id].cls if isinstance(w, Ref) else None
            tr = s.heap[w.id].fields.get("translator_class") if isinstance(w, Ref) else None
            if tr is None and isinstance(cls, ClassV):
                tr = I.class_lookup(s, cls, "translator_class")
            if not isinstance(tr, ClassV) or tr.key[1] != "CleanHTMLTranslator":
                rep.find("writer", "rest2html", f"{what}: the writer is {short(w)} with the translator {short(tr)}")
        if not calls:
            raise LookupError("no call of docutils.core.publish_parts found")
        coverage(I, rep)


def escaping(I, st, fv, args, kwargs, node):
    s = fv.src
    if s and s[0] in ("extattr", "super") and s[2] in ("attval", "encode", "cloak_mailto", "cloak_email") and args:
        v = args[0] if is_str(args[0]) else hole(("str", args[0]))
        return [(st, I.models.map_str(v, lambda x: x, ("escape", ESC)))]
    return None


def translator(I):
    cls = lookup(I, MOD, "CleanHTMLTranslator")
    return [(s, o) for s, o in I.call_entry(I.state0, cls, (unk("document"),), {}) if not isinstance(o, Raise)]


def starttag(rep, repo):
    for tag, empty in (("a", 0), ("img", 1), ("table", 0), ("td", 0)):
        I = make(repo)
        I.hooks["unkcall-model"] = escaping
        w = Walker(I, rep)
        kw = {"href": hole(("any text", "href")), "TITLE": Unk(("value", "title")), "alt": hole(("any text", "alt")), "class": hole(("any text", "class"))}

        def go(I):
            out = []
            for s, o in translator(I):
                for s2, m in I.getattr(s, o, "starttag", None):
                    out += I.call_entry(s2, m, (NODE, Const(tag), Const("\n"), Const(empty)), kw)
            return out
        for s, v in I.run(go):
            if isinstance(v, Raise):
                continue
            if not is_str(v):
                rep.find("starttag", tag, f"starttag returns {short(v)}")
                continue
            rep.add("start tags")
            close = () if empty else (f"</{tag}>",)
            w.template(mk_str(tuple(parts_of(v)) + close), f"starttag({tag})", s)
        coverage(I, rep)


def tainted(v, inside=False):
    """unescaped texts of document nodes in the value"""
    out = []
    if isinstance(v, Hole):
        if any(o[0] == "escape" and dict(o[1]).get("<") == "&lt;" for o in v.ops):
            return out
        return tainted(v.src)
    if isinstance(v, Unk) and v.src:
        r, path = v, []
        while isinstance(r, Unk) and r.src and r.src[0] in ("attr", "item"):
            path.append(r.src[2])
            r = r.src[1]
        if r == NODE:
            return [v] if path and path[0] not in (Const("align"), "tagname") else out
    if isinstance(v, (tuple, frozenset)):
        for x in v:
            out += tainted(x)
    elif hasattr(v, "_k"):
        out += tainted(v._k)
    return out


def texts(I, st, o, name, args, kwargs, node):
    r = o
    while isinstance(r, Unk) and r.src and r.src[0] in ("attr", "item"):
        r = r.src[1]
    if r == NODE and name in ("astext", "get"):
        return [(st, Unk(("item", o, args[0] if args else Const("text"))))]
    return None


def methods(rep, repo):
    I = make(repo)
    I.hooks["unkcall-model"] = escaping
    I.hooks["unk-method"] = texts
    cls = lookup(I, MOD, "CleanHTMLTranslator")
    names = [n for n in sorted(x for x in I.class_attrs(I.state0, cls) if isinstance(x, str))
             if n.startswith(("visit_", "depart_", "set_")) or n in ("starttag", "emptytag")]

    def go(I):
        out = []
        for s, o in translator(I):
            for n in names:
                if n == "starttag":
                    continue
                for s2, m in I.getattr(s, o, n, None):
                    rep.add("methods")
                    out += I.call_entry(s2.copy(), m, (NODE,), {})
        return out
    I.run(go)
    for e in I.events.values():
        if e["kind"] != "unkmethod":
            continue
        o, name, args, kw = e["data"]
        r, path = o, []
        while isinstance(r, Unk) and r.src and r.src[0] in ("attr", "item", "extattr"):
            path.append(r.src[2])
            if r.src[0] == "extattr":
                break
            r = r.src[1]
        if not (isinstance(r, Unk) and r.src[0] == "extattr") or path[-1] == "context" or name not in ("append", "extend", "insert", "replace", "join", "__iadd__"):
            continue
        bad = tainted(tuple(args))
        if bad:
            site = ":".join(map(str, e["site"]))
            rep.find("unescaped", e["site"][1], f"{site}: {short(bad[0])} is written into the output unescaped")
    coverage(I, rep)


tasks = [("rest2html", rest2html), ("starttag", starttag), ("translator methods", methods)]
