"""C10: pypi_rest2html refuses links and images with other schemes, raw html and file insertion."""
from .docutils_model import *  # noqa

RULE = ("Abstract interpretation of pypi_rest2html over document trees with known nodes: a reference, image or external target with a URI of each forbidden "
        "and allowed scheme (spelled in several ways), at every place between other nodes, among them text nodes, nodes without URI and nodes with allowed URIs. "
        "Rule: no path ends normally if any node has a URI with a forbidden or without scheme; a document with allowed ones only is accepted; the source is parsed with raw_enabled "
        "and file_insertion_enabled off and halt_level of at most 2 (warning).")
MINIMUM = {"documents": 150, "refused": 100, "accepted": 30, "parses": 150}
ALLOWED = "file ftp gopher hdl http https imap mailto mms news nntp prospero rsync rtsp rtspu sftp shttp sip sips snews svn svn+ssh telnet wais irc".split()
BAD = ["javascript:alert(1)", "JavaScript:alert(1)", "vbscript:x", "data:text/html,x", "DATA:x", "about:blank", "blob:x", "x:y", "foo://bar/",
       "httpx://a", "xhttp://a", "javascript:http://a", "git+ssh://a/b", "", "page.html", "/page", "#anchor", "//host/path", "?query", "mailto", "javascript://http:/%0aalert(1)"]
TEXT = docnode(0, "#text")
PAR = docnode(1, "paragraph")
REFID = docnode(2, "reference", refid="x")
GOOD = docnode(3, "reference", refuri="http://a.example/")
IMG = docnode(4, "image", uri="https://a.example/b.png")
FOOT = docnode(5, "footnote_reference", refid="y")


def uri_nodes(uri):
    yield "reference", docnode(9, "reference", refuri=uri)
    yield "image", docnode(9, "image", uri=uri)
    yield "target", docnode(9, "target", refuri=uri)
    yield "named reference", docnode(9, "reference", refuri=uri, name="n", anonymous=1)


def documents(n):
    yield "alone", (PAR, n)
    yield "after text", (PAR, TEXT, n, TEXT)
    yield "after an allowed link", (PAR, GOOD, TEXT, n)
    yield "before an allowed link", (PAR, n, TEXT, GOOD, TEXT)
    yield "after an allowed image", (PAR, REFID, TEXT, IMG, n)
    yield "between", (GOOD, TEXT, FOOT, TEXT, IMG, PAR, n, TEXT, GOOD, IMG, PAR, REFID)


def analyse(rep, repo, nodes):
    """do some paths end normally?"""
    I = make(repo)
    install(I, nodes)
    parsed = []

    def publish_doctree(I, st, args, kw, node):
        a = dict(zip(("source", "source_path", "source_class", "reader", "reader_name", "parser", "parser_name", "settings", "settings_spec",
                      "settings_overrides"), args))
        a.update(kw)
        parsed.append((a.get("source", NONE), settings(I, st, a.get("settings_overrides", NONE))))
        return [(st, DOC)]
    I.hooks[("ext", "docutils.core.publish_doctree")] = publish_doctree
    res = run(I, "creole.rest_tools.pypi_rest2html", "pypi_rest2html", (text(),))
    if not parsed:
        raise LookupError("no call of docutils.core.publish_doctree found")
    for src, st in parsed:
        rep.add("parses")
        if src != text():
            rep.find("source", "pypi_rest2html", f"parses {short(src)}, not the source")
        st = st or {}
        for k in ("raw_enabled", "file_insertion_enabled"):
            v = st.get(k)
            if not isinstance(v, Const) or v.v:
                rep.find("settings", f"pypi_rest2html:{k}", f"parses with {k}={short(v)}")
        v = st.get("halt_level")
        if not isinstance(v, Const) or not isinstance(v.v, int) or v.v > 2:
            rep.find("settings", "pypi_rest2html:halt_level", f"parses with halt_level={short(v)}")
    coverage(I, rep)
    return any(not isinstance(v, Raise) for _, v in res)


def bad(uris):
    def t(rep, repo):
        for uri in uris:
            for kind, n in uri_nodes(uri):
                for where, nodes in documents(n) if uri in BAD[:2] + BAD[13:15] else list(documents(n))[3:4]:
                    rep.add("documents")
                    if analyse(rep, repo, nodes):
                        rep.find("accepted", f"{kind}", f"accepts a document with a {kind} to {uri!r} ({where})")
                    else:
                        rep.add("refused")
    return t


def good(rep, repo):
    for scheme in ALLOWED:
        for kind, n in list(uri_nodes(scheme + "://host/x"))[:1]:
            rep.add("documents")
            if analyse(rep, repo, (PAR, TEXT, n, TEXT)):
                rep.add("accepted")
            else:
                rep.find("refused", scheme, f"refuses a document with a {kind} to {scheme}:")
    for nodes in ((), (PAR,), (PAR, TEXT), (REFID,), (PAR, GOOD, TEXT, IMG, FOOT)):
        rep.add("documents")
        if analyse(rep, repo, nodes):
            rep.add("accepted")
        else:
            rep.find("refused", "no uri", "refuses a document without forbidden URIs")


tasks = [(f"forbidden {i}", bad(BAD[i::6])) for i in range(6)] + [("allowed", good)]
