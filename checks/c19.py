"""C19: no regular expression of the package can backtrack exponentially."""
from .common import *  # noqa
from .rxtime import exponential

RULE = ("The regular expressions are found by abstract interpretation: every pattern (with its flags) that the conversions use on unknown input, "
        "and every compiled pattern in modules and classes. Rule: the position automaton of the parsed pattern has no state with two different ways over the same text back to "
        "itself from which the match can still fail (exponential degree of ambiguity); no pattern is built from unescaped input.")
MINIMUM = {"regular expressions": 9, "uses": 9}


def judge(rep, rx, method, where):
    rep.seen("regular expressions", f"{where}: {rx.pattern.strip()[:50]}")
    r, n = exponential(rx.pattern, rx.flags, method == "fullmatch")
    rep.seen("states", f"{where}: {n}")
    if r is not None:
        rep.find("exponential", where, f"{where}: the pattern {rx.pattern.strip()[:300]!r} can read a text with {''.join(r[1])!r} in exponentially many ways")


def use(rep, I):
    for e in I.events.values():
        k, d = e["kind"], e["data"]
        site = ":".join(map(str, e["site"][:2]))
        if k == "regex":
            judge(rep, d, "", site)
        elif k == "rxuse":
            rep.seen("uses", f"{site} {d[1]}")
            if isinstance(d[0], RxV):
                judge(rep, d[0], d[1], site)
            elif "'param', 'text'" in repr(d[0]) and "escape" not in repr(d[0]):
                rep.find("input-pattern", site, f"{site}: the input is used as pattern: {short(d[0])}")
            else:
                rep.note(f"{site}: unknown pattern {short(d[0])}")


def conversion(c):
    def t(rep, repo):
        I = make(repo)
        run(I, "creole", c, (text(),), {"blog_line_breaks": unk("blog_line_breaks")} if c == "creole2html" else {})
        use(rep, I)
        coverage(I, rep)
    return t


def static(rep, repo):
    """the patterns in modules and classes"""
    I = make(repo)
    for env, names in I.state0.envs.items():
        if isinstance(env, tuple) and env[0] in ("mod", "cls"):
            for n, v in names.items():
                for x in walk(v) if not isinstance(v, RxV) else (v,):
                    if isinstance(x, RxV):
                        judge(rep, x, "", f"{env[1] if isinstance(env[1], str) else '.'.join(env[1])}.{n}")
    for nid, o in I.state0.heap.items():
        for v in list(o.fields.values()) + list(o.entries.values()) + list(flat(o.items)):
            if isinstance(v, RxV):
                judge(rep, v, "", short(nid, 60))


def flat(items):
    for x in items:
        if isinstance(x, V):
            yield x


tasks = [(c, conversion(c)) for c in ("html2rest", "creole2html", "html2creole", "html2markdown", "html2textile")] + [("modules", static)]
