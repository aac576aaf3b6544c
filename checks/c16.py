"""C16: unknown tags go to unknown_emit, and the five handlers do what they are named after."""
from .common import *  # noqa
from .html import Walker, node_kinds

RULE = ("Abstract interpretation of the four converters from HTML with an opaque unknown_emit callable, to a fixpoint. Rule: in the function that calls the "
        "callable, every outcome for a node whose kind has no emit method of the emitter class is the text the callable returned for (emitter, node), unchanged, or its exception; "
        "the callable never gets nodes of known kinds. The five handlers of creole.shared.unknown_tags are analysed for opaque nodes: their templates "
        "are compared with the tag syntax, and the attributes are walked through the HTML syntax.")
MINIMUM = {"converters": 4, "outcomes for unknown tags": 4, "handlers": 5, "handler outcomes": 10, "attribute templates": 1}
HANDLER = ExtV("<caller>.unknown_emit")
TAGS = set("a abbr b big blockquote br code del div em hr i img ins li ol p pre s small span strike strong sub sup table td th tr tt u ul".split())
RESULT = hole(("result of unknown_emit",))
EMITTER, NODE = Unk(("emitter",)), Unk(("node",))
TAG, ATTRS, CHILDREN, CONTENT = (hole((n,)) for n in ("tag", "attrs", "children", "content"))


def kind_hole(v):
    return isinstance(v, Hole) and v.src and v.src[0] == "kind"


def class_of(I, st, e):
    return st.heap[e.id].cls if isinstance(e, Ref) and e.id in st.heap else None


def dispatch(conv):
    def t(rep, repo):
        I = make(repo)
        calls = []

        def called(I, st, args, kw, node):
            site = I.site(node)
            if (site, args) not in calls:
                calls.append((site, args))
            return [(st, RESULT), (st.copy(), Raise(ExcV("Exception?", (), site, "unknown_emit")))]
        I.hooks[("ext", HANDLER.name)] = called
        run(I, "creole", conv, (text(),), {"unknown_emit": HANDLER})
        rep.seen("converters", conv)
        if not calls:
            rep.find("not-called", conv, f"{conv} never calls unknown_emit")
        fns = {tuple(site[:2]) for site, args in calls}
        for key, sm in I.summ.items():
            if tuple(key[0][:2]) not in fns:
                continue
            for s, v in sm.results:
                if isinstance(v, Raise):
                    continue
                nodes = [o for nid, o in s.heap.items() if isinstance(nid, tuple) and nid and nid[0] == "symarg" and
                         o.meta.get("sym") and "kind" in o.fields and nid[1] == key[0][:2]]
                if len(nodes) != 1:
                    rep.note(f"{key[0][1]}: {len(nodes)} nodes")
                    continue
                emitters = [o.cls for nid, o in s.heap.items() if isinstance(o.cls, ClassV) and I.class_lookup(s, o.cls, key[0][1].split(".")[-1]) is not None]
                cls = emitters[0] if emitters else None
                known = names(I, s, nodes[0], cls)
                from_handler = is_result(v)
                if known is None and not from_handler:
                    rep.find("unknown-tag", f"{conv}:{key[0][1]}", f"{conv}: a node without an emit method becomes {short(v)} instead of the result of unknown_emit")
                elif known is None:
                    rep.add("outcomes for unknown tags")
                elif from_handler and known & TAGS:
                    rep.find("known-tag", f"{conv}:{','.join(sorted(known))[:60]}", f"{conv}: nodes of the kinds {sorted(known & TAGS)[:6]} go to unknown_emit")
        for site, args in calls:
            if len(args) != 2 or not isinstance(args[1], Ref) or not str(args[1].id[0]).startswith("sym") or not isinstance(args[0], Ref):
                rep.find("arguments", conv, f"{conv}: unknown_emit is called with {short(args)}")
        coverage(I, rep)
    return t


def is_result(v):
    return v == RESULT


def names(I, s, o, cls):
    """the kinds with emit methods the node can have, None if it has a kind without"""
    k = o.fields["kind"]
    if isinstance(k, Const):
        ks = [k]
    else:
        h = I.single_hole(k)
        d = s.dom.get(h) if h is not None else None
        if d is not None and d[0] == "in":
            ks = [Const(x) for x in d[1]]
        else:
            ks = None
            if cls is not None:
                # the states in which the name is one of the methods
                for hh, dd in s.dom.items():
                    if dd[0] == "in" and "kind" in repr(hh)[:40]:
                        ks = [Const(x[:-5]) if str(x).endswith("_emit") else Const(x) for x in dd[1]]
            if ks is None:
                return None
    if cls is None:
        return {k.v for k in ks}
    ms = {k.v for k in ks if I.class_lookup(s, cls, f"{k.v}_emit") is not None}
    return ms if len(ms) == len(ks) else None


# ------------------------------------------------------------------ the handlers
def model(I):
    def method(I, st, o, name, args, kw, node):
        if o == EMITTER and name in ("emit_children", "_emit_content") and (args == (NODE,) or kw.get("node") == NODE):
            return [(st, CHILDREN if name == "emit_children" else CONTENT)]
        if o == NODE and name == "get_attrs_as_string":
            return [(st, ATTRS)]
        return None

    def attr(I, what, st, o, args, node):
        if what == "getattr" and o == NODE and args[0] == "kind":
            return [(st, TAG)]
        return None
    I.hooks["unk-method"] = method
    I.hooks["unk"] = attr


def plain(h, ops):
    return tuple(Hole(p.src, p.ops + ops) if isinstance(p, Hole) else p for p in parts_of(h))


def simplify(I, s, parts):
    """without the holes which are empty in the state"""
    out = []
    for p in parts:
        if isinstance(p, Hole) and not p.ops:
            if {b for _, b in I.truth(s.copy(), mk_str((p,)), None)} == {False}:
                continue
        elif isinstance(p, Hole):
            if {b for _, b in I.truth(s.copy(), mk_str((Hole(p.src, ()),)), None)} == {False}:
                continue
        out.append(tuple(["hole", p.src, norm(p.ops)]) if isinstance(p, Hole) else p)
    r = []
    for p in out:
        if isinstance(p, str) and r and isinstance(r[-1], str):
            r[-1] += p
        else:
            r.append(p)
    return tuple(r)


def norm(ops):
    return tuple("escape" if o[0] == "escape" and {"&", "<", ">"} <= {a for a, b in o[1]} else o for o in ops)


def empty(I, s, v):
    return {b for _, b in I.truth(s.copy(), v, None)} == {False}


def expected(I, s, pre, post, esc):
    """the texts the handler may return in the state"""
    ops = (("escape", (("&", "&amp;"), ("<", "&lt;"), (">", "&gt;"))),) if esc else ()
    lt, gt = ("&lt;", "&gt;") if esc else ("<", ">")
    attrs = () if empty(I, s, ATTRS) else (" ",) + plain(ATTRS, ops)
    tag = plain(TAG, ops)
    full = (pre + lt,) + tag + attrs + (gt + post,) + plain(CHILDREN, ()) + (pre + lt + "/",) + tag + (gt + post,)
    single = (pre + lt,) + tag + attrs + (" /" + gt + post,)
    out = [simplify(I, s, full)]
    if empty(I, s, CHILDREN):
        out.append(simplify(I, s, single))
    return out


def handler(name, pre, post, esc):
    def t(rep, repo):
        I = make(repo)
        model(I)
        n = 0
        for s, v in run(I, "creole.shared.unknown_tags", name, (EMITTER, NODE)):
            rep.add("handler outcomes")
            if isinstance(v, Raise):
                rep.find("handler", name, f"{name}: {exc_text(v.exc)}")
            elif not is_str(v) or simplify(I, s, parts_of(v)) not in expected(I, s, pre, post, esc):
                rep.find("handler", name, f"{name} returns {short(v, 400)}")
            else:
                n += 1
        rep.seen("handlers", name)
        coverage(I, rep)
    return t


def raising(rep, repo):
    I = make(repo)
    model(I)
    for s, v in run(I, "creole.shared.unknown_tags", "raise_unknown_node", (EMITTER, NODE)):
        rep.add("handler outcomes")
        if not isinstance(v, Raise) or exc_name(v.exc) != "NotImplementedError":
            rep.find("handler", "raise_unknown_node", f"raise_unknown_node: {short(v)} instead of a NotImplementedError")
    rep.seen("handlers", "raise_unknown_node")
    coverage(I, rep)


def transparent(rep, repo):
    I = make(repo)
    model(I)
    for s, v in run(I, "creole.shared.unknown_tags", "transparent_unknown_nodes", (EMITTER, NODE)):
        rep.add("handler outcomes")
        got = [p.src for p in (parts_of(v) if is_str(v) else ()) if isinstance(p, Hole)]
        if got not in ([("content",)], [("children",)]) and not (is_str(v) and empty(I, s, CHILDREN)):
            rep.find("handler", "transparent_unknown_nodes", f"transparent_unknown_nodes returns {short(v)}")
    rep.seen("handlers", "transparent_unknown_nodes")
    coverage(I, rep)


def attributes(rep, repo):
    I = make(repo)
    cls = lookup(I, "creole.shared.document_tree", "DocNode")
    w = Walker(I, rep)
    vals = {"first": hole(("any text", "first")), "second": hole(("any text", "second"))}

    def go(I):
        out = []
        items = tuple(TupV((Const(k), v)) for k, v in vals.items())
        for s, o in I.call_entry(I.state0, cls, (Const("foo"),), {"attrs": TupV(items)}):
            if isinstance(o, Raise):
                continue
            for s2, m in I.getattr(s, o, "get_attrs_as_string", None):
                out += I.call_entry(s2, m, (), {})
        return out
    for s, v in I.run(go):
        if isinstance(v, Raise) or not is_str(v):
            rep.find("attributes", "get_attrs_as_string", f"get_attrs_as_string: {short(v)}")
            continue
        rep.add("attribute templates")
        w.template(mk_str(("<foo ",) + tuple(parts_of(v)) + ("></foo>",)), "get_attrs_as_string", s)
        got = {x.src[1] for x in walk(v) if isinstance(x, Hole) and x.src[0] == "any text"}
        if got != set(vals):
            rep.find("attributes", "get_attrs_as_string", f"get_attrs_as_string has the values {sorted(got)} of {sorted(vals)}: {short(v)}")
    coverage(I, rep)


tasks = [(c, dispatch(c)) for c in ("html2rest", "html2creole", "html2markdown", "html2textile")]
tasks += [("use_html_macro", handler("use_html_macro", "<<html>>", "<</html>>", False)),
          ("preformat_unknown_nodes", handler("preformat_unknown_nodes", "<<pre>>", "<</pre>>", False)),
          ("escape_unknown_nodes", handler("escape_unknown_nodes", "", "", True)),
          ("raise_unknown_node", raising), ("transparent_unknown_nodes", transparent), ("attributes", attributes)]
