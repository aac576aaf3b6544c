"""A model of docutils document trees: nodes with known kinds and concrete URIs."""
from .small import *  # noqa

CLASSES = {"#text": ("Text", "Node"),
           "document": ("document", "Root", "Structural", "Element", "Node"),
           "section": ("section", "Structural", "Element", "Node"),
           "paragraph": ("paragraph", "General", "TextElement", "Element", "Node", "Body"),
           "figure": ("figure", "General", "Element", "Node", "Body"),
           "footnote_reference": ("footnote_reference", "Inline", "Referential", "TextElement", "Element", "Node"),
           "reference": ("reference", "General", "Inline", "Referential", "TextElement", "Element", "Node", "Body"),
           "target": ("target", "Special", "Invisible", "Inline", "TextElement", "Targetable", "Element", "Node", "Body"),
           "image": ("image", "General", "Inline", "Element", "Node", "Body")}
DOC = Unk(("doctree",))


def docnode(i, kind, **attrs):
    return Unk(("docnode", i, kind, tuple(sorted(attrs.items()))))


def is_node(o):
    return isinstance(o, Unk) and o.src and o.src[0] == "docnode"


def is_attrs(o):
    return isinstance(o, Unk) and o.src and o.src[0] == "docattrs"


def attrs_of(o):
    a = {"ids": Unk(("list",)), "classes": Unk(("list",)), "names": Unk(("list",)), "dupnames": Unk(("list",)), "backrefs": Unk(("list",))}
    a.update({k: v if isinstance(v, Value) else Const(v) for k, v in o.src[3]})
    return a


Value = (Const, Unk, type(hole(("x",))))


def install(I, nodes):
    def key(k):
        return k.v if isinstance(k, Const) else k

    def unk_(I, what, st, o, args, node):
        if is_attrs(o) and what in ("getitem", "contains"):
            o2 = Unk(("docnode",) + o.src[1:])
            return unk_(I, what, st, o2, args, node)
        if o == DOC:
            if what == "isinstance":
                return class_of("document", args[0])
            return None
        if not is_node(o):
            return None
        kind = o.src[2]
        a = attrs_of(o) if kind != "#text" else {}
        if what == "getattr":
            n = key(args[0])
            if n == "tagname":
                return [(st, Const(kind))]
            if n == "attributes" and kind != "#text":
                return [(st, Unk(("docattrs",) + o.src[1:]))]
            if kind == "#text" and n in ("hasattr", "get", "attributes", "__getitem__", "has_key", "setdefault", "children"):
                return [I.exc(st, node, "AttributeError", "Text node")] if n != "children" else [(st, TupV(()))]
            return None
        if what == "getitem":
            k = key(args[0])
            if isinstance(k, str):
                if k in a:
                    return [(st, a[k])]
                return [I.exc(st, node, "KeyError", f"{kind}[{k!r}]")]
            return None
        if what == "contains":
            return [(st, key(args[0]) in a)]
        if what == "isinstance":
            return class_of(kind, args[0])
        return None

    def class_of(kind, c):
        if isinstance(c, TupV):
            rs = [class_of(kind, x) for x in c.items]
            return True if True in rs else None if None in rs else False
        if isinstance(c, ExtV) and c.name.startswith("docutils.nodes."):
            return c.name.rsplit(".", 1)[1] in CLASSES[kind]
        if isinstance(c, ExtV):
            return False
        return None

    def method(I, st, o, name, args, kwargs, node):
        if o == DOC and name in ("traverse", "findall"):
            a = dict(zip(("condition", "include_self", "descend", "siblings", "ascend"), args))
            a.update(kwargs)
            c = a.get("condition", NONE)
            out = [(st, ())]
            for n in (DOC,) + tuple(nodes):
                nxt = []
                for s, got in out:
                    if isinstance(got, Raise):
                        nxt.append((s, got))
                        continue
                    for s2, b in match(I, s, n, c, node):
                        nxt.append((s2, b if isinstance(b, Raise) else got + (n,) if b else got))
                out = nxt
            res = []
            for s, got in out:
                if isinstance(got, Raise):
                    res.append((s, got))
                else:
                    s = s.copy()
                    res.append((s, I.ops_list(s, node, got) if hasattr(I, "ops_list") else TupV(got)))
            return res
        if o == DOC and name in ("hasattr", "has_key"):
            return [(st, FALSE)]
        if o == DOC and name == "get":
            return [(st, args[1] if len(args) > 1 else NONE)]
        if is_node(o) or is_attrs(o):
            k = key(args[0]) if args else None
            a = attrs_of(o) if o.src[2] != "#text" else {}
            if name in ("hasattr", "has_key"):
                return [(st, Const(k in a))]
            if name == "get":
                return [(st, a.get(k, args[1] if len(args) > 1 else kwargs.get("failobj", kwargs.get("default", NONE))))]
            if name == "keys":
                return [(st, TupV(tuple(Const(x) for x in a)))]
            if name == "values":
                return [(st, TupV(tuple(a.values())))]
            if name in ("items", "attlist"):
                return [(st, TupV(tuple(TupV((Const(x), y)) for x, y in a.items())))]
            if name == "astext":
                return [(st, hole(("astext", o)))]
        return None

    def match(I, st, n, c, node):
        if c == NONE:
            return [(st, True)]
        if isinstance(c, ExtV):
            kind = "document" if n == DOC else n.src[2]
            return [(st, class_of(kind, c))]
        out = []
        for s, v in I.call(st.copy(), c, (n,), {}, node):
            if isinstance(v, Raise):
                out.append((s, v))
            else:
                out.extend(I.truth(s, v, node))
        return out

    def doc_unk(I, what, st, o, args, node):
        if o == DOC and what == "getattr":
            n = key(args[0])
            if n == "tagname":
                return [(st, Const("document"))]
        return unk_(I, what, st, o, args, node)
    I.hooks["unk"] = doc_unk
    I.hooks["unk-method"] = method


def settings(I, st, v):
    """the content of a settings_overrides dict, or None"""
    if isinstance(v, Ref) and st.heap[v.id].kind == "dict" and not st.heap[v.id].weak:
        return {k.v: x for k, x in st.heap[v.id].entries.items() if isinstance(k, Const)}
    return None
