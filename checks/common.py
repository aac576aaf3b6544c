"""Running entries of the analysed package in the abstract interpreter."""
from engine import interp
from engine.values import *  # noqa

CONVERTERS = ("creole2html", "html2creole", "html2rest", "html2textile", "html2markdown")
HTML_CONVERTERS = CONVERTERS[1:]


def make(repo):
    I = interp.Interp(repo, "creole", sym_class=("creole.shared.document_tree", "DocNode"), exclude=("creole.tests",))
    I.load_all()
    return I


def lookup(I, mod, name):
    f = I.state0.envs[("mod", mod)].get(name)
    if f is None:
        raise LookupError(f"{mod}.{name} does not exist")
    return f


def text():
    return hole(("param", "text"))


def unk(name):
    return Unk(("param", name))


def run(I, mod, name, args=(), kw=None):
    """outcomes [(state, value or Raise)] of the call mod.name(*args, **kw)"""
    f = lookup(I, mod, name)
    return I.run(lambda I: I.call_entry(I.state0, f, tuple(args), dict(kw or {})))


def exc_name(e):
    return e.cls.key[1] if isinstance(e.cls, ClassV) else str(e.cls)


def exc_construct(e):
    fn = e.site[1] if isinstance(e.site, tuple) and len(e.site) > 1 else e.site
    return f"{exc_name(e)}@{fn}"


def exc_text(e):
    site = ":".join(map(str, e.site)) if isinstance(e.site, tuple) else str(e.site)
    return f"{exc_name(e)} can be raised at {site}: {e.why} {short(e.args) if e.args else ''}"


def short(v, n=200):
    return repr(v)[:n]


def coverage(I, rep):
    for f in I.analysed:
        rep.seen("functions", ".".join(map(str, f[:2])))
    for i in I.confirmed:
        k = I.records[i][0]
        rep.seen("node kinds", k.v if isinstance(k, Const) else "<any other tag>")
    for k, v in I.unmodelled.items():
        rep.note(f"unmodelled: {k} at {v}")
    rep.add("steps", I.steps)


def toc_object(I, st, fv, args, kwargs, node):
    """methods of a TableOfContent subclass of the caller are taken to work"""
    if fv.src and fv.src[0] == "attr" and fv.src[2] in ("add_headline", "emit"):
        return [(st, Unk(("usercall", fv, I.site(node))))]
    return None
