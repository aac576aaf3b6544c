"""C11: the command line tools keep the destination until the converted text is complete."""
from .cli import *  # noqa

RULE = ("Abstract interpretation of the command line entry points named in pyproject.toml, with every converter replaced by a stub which returns "
        "an unknown text or fails, and with failing open, read, decode and encode operations. Rule: no path truncates, "
        "appends to, renames or removes the destination before an operation that can still fail (typestate of the destination: "
        "untouched until the encoded text exists); a path that touches it ends with the text written.")
MINIMUM = {"tools": 4, "outcomes": 16, "failing outcomes": 12}


def task(tool):
    def t(rep, repo):
        mod, fn = scripts(repo)[tool]
        I = machine(repo)
        res = run(I, mod, fn)
        pos, enc, default = arguments(I)
        if len(pos) < 2:
            raise LookupError(f"{fn}: no source and destination arguments found")
        rep.seen("tools", tool)
        for s, v in res:
            rep.add("outcomes")
            hit = None
            for i, e in enumerate(s.trace):
                if e[0] in ("open", "write", "fs", "truncate"):
                    p = pathkey(e[1]) if e[0] == "open" else pathkey(e[1].src[1]) if e[0] in ("write", "truncate") else None
                    ps = [p] if p is not None else [pathkey(a) for a in e[2]]
                    for q in ps:
                        if is_arg(q, pos[1]) and destroys(e, q):
                            hit = (i, e) if hit is None else hit
            if isinstance(v, Raise):
                rep.add("failing outcomes")
                name = exc_name(v.exc)
                if hit is None:
                    continue
                last = [e for e in s.trace if e[0] != "close"][-1]
                if name == "OSError" and last is hit[1]:
                    continue    # opening the destination itself failed
                rep.find("destination-destroyed", f"{v.exc.site[1]}:{name}",
                         f"{tool}: {exc_text(v.exc)} after the destination was touched: {hit[1][0]} {short(hit[1][1:], 160)}")
            elif hit is not None and not any(is_arg(p, pos[1]) and w[3] for p, w in written(s.trace).items()):
                rep.find("destination-destroyed", f"{fn}:nothing written", f"{tool}: ends without writing to the truncated destination")
        coverage(I, rep)
    return t


tasks = [(f"{c}", task(c)) for c in ("creole2html", "html2creole", "html2rest", "html2textile")]
