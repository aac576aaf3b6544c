"""C24: publishing only with an up-to-date README and clean code style."""
from .small import *  # noqa

RULE = ("Abstract interpretation of creole.publish.publish with a README check that succeeds or raises and commands that succeed or fail. "
        "Rule (typestate): on every path poetry_publish is called at most once and only after assert_rst_readme succeeded for the same package root and "
        "README.creole and after the code style command succeeded; it gets the version of the package and creole_readme=True; "
        "a failed check or command ends publish() with an exception; a path which ends normally has published.")
MINIMUM = {"outcomes": 3, "published": 1, "failed README checks": 5, "failed commands": 1}


FAILURES = ("AssertionError", "FileNotFoundError", "SystemExit", "NotImplementedError", "UnicodeDecodeError")


def version(I):
    return I.state0.envs[("mod", "creole")].get("__version__")


def task(rep, repo):
    I = make(repo)
    lookup(I, "creole.setup_utils", "assert_rst_readme")
    root = []

    def mark(st, *x):
        s = st.copy()
        s.trace = s.trace + (x,)
        return s

    def readme(I, st, env, node):
        r, f = env.get("package_root", NONE), env.get("filename", NONE)
        return [(mark(st, "readme", r, f), NONE)] + \
            [(mark(st, "readme failed"), Raise(ExcV(e, (), ("stub", "assert_rst_readme", 0), "not up-to-date"))) for e in FAILURES]

    def command(I, st, args, kw, node):
        return [(mark(st, "command", args), hole(("command output", args))),
                (mark(st, "command failed", args), Raise(ExcV("SystemExit", (), ("stub", "verbose_check_call", 0), "failed"))),
                (mark(st, "command failed", args), Raise(ExcV("CalledProcessError", (), ("stub", "verbose_check_call", 0), "failed")))]

    def publish(I, st, args, kw, node):
        return [(mark(st, "publish", args, tuple(sorted(kw.items(), key=lambda x: x[0]))), NONE)]

    I.hooks[("func", "creole.setup_utils", "assert_rst_readme")] = readme
    for n in ("verbose_check_call", "verbose_check_output"):
        I.hooks[("ext", "poetry_publish.utils.subprocess_utils." + n)] = command
    for n in ("subprocess.check_call", "subprocess.check_output"):
        I.hooks[("ext", n)] = command

    def unchecked(I, st, args, kw, node):
        if kw.get("check") == TRUE:
            return command(I, st, args, kw, node)
        return [(mark(st, "command", args), Unk(("result", args))), (mark(st, "command failed", args), Unk(("result", args)))]
    for n in ("subprocess.run", "subprocess.call", "os.system"):
        I.hooks[("ext", n)] = unchecked
    I.hooks[("ext", "poetry_publish.publish.poetry_publish")] = publish
    for s, v in run(I, "creole.publish", "publish"):
        rep.add("outcomes")
        t = [e for e in s.trace if e[0] in ("readme", "readme failed", "command", "command failed", "publish")]
        kinds = [e[0] for e in t]
        n = kinds.count("publish")
        rep.add("failed README checks", "readme failed" in kinds)
        rep.add("failed commands", "command failed" in kinds)
        if not isinstance(v, Raise) and not n:
            rep.find("nothing-published", "publish", f"publish() ends normally without publishing: {kinds}")
        if n > 1:
            rep.find("twice", "publish", "poetry_publish is called twice on a path")
        if not n:
            continue
        rep.add("published")
        i = kinds.index("publish")
        _, args, kw = t[i]
        a = dict(zip(("package_root", "version", "log_filename", "creole_readme"), args))
        a.update(kw)
        before = t[:i]
        ok = [e for e in before if e[0] == "readme"]
        if not ok:
            rep.find("readme", "publish", f"poetry_publish is reached without a successful README check: {kinds}")
        elif pathkey(ok[-1][1]) != pathkey(a.get("package_root", NONE)) or ok[-1][2] != Const("README.creole"):
            rep.find("readme", "publish", f"the README check is for {short(ok[-1][1:])}, published is {short(a.get('package_root'))}")
        if "readme failed" in kinds[:i]:
            rep.find("readme", "publish", "poetry_publish is reached after a failed README check")
        if "command failed" in kinds[:i]:
            rep.find("code-style", "publish", "poetry_publish is reached after a failed command")
        if not any(e[0] == "command" and "fix-code-style" in repr(e[1]) for e in before):
            rep.find("code-style", "publish", f"poetry_publish is reached without the code style command: {kinds}")
        if a.get("version", NONE) != version(I) or version(I) is None:
            rep.find("version", "publish", f"published version is {short(a.get('version'))}, not {short(version(I))}")
        if a.get("creole_readme", NONE) != TRUE:
            rep.find("creole_readme", "publish", f"creole_readme={short(a.get('creole_readme'))}")
    coverage(I, rep)


tasks = [("publish()", task)]
