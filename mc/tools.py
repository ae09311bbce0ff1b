"""Run a command-line tool of the code under test, in process or for real."""
import io
import itertools
import os
import re
import subprocess
import sys

from mc.core import REPO, HarnessError, Mismatch, fail

_code = {}
_known = set()          # modules that are not the tools' own


def path(tool):
    return os.path.join(REPO, "tools", tool + ".py")


def load(tool):
    if tool not in _code:
        p = path(tool)
        if not os.path.exists(p):
            fail("tool %s is missing", tool)
        try:
            _code[tool] = compile(open(p, "rb").read(), p, "exec")
        except SyntaxError as e:
            fail("tool %s does not compile: %s", tool, e)
    return _code[tool]


def run(tool, args, fail_on_crash=True):
    """(exit status, stdout, stderr) of `tool args` in the current
    directory, executed afresh in this process."""
    code = load(tool)
    out, err = io.StringIO(), io.StringIO()
    old = sys.argv, sys.stdout, sys.stderr
    status = 0
    # as for a script, its directory comes first in the search path
    home = os.path.join(REPO, "tools")
    sys.path.insert(0, home)
    sys.argv = [path(tool)] + list(args)
    sys.stdout, sys.stderr = out, err
    try:
        exec(code, {"__name__": "__main__", "__file__": path(tool),
                    "__builtins__": __builtins__})
    except SystemExit as e:
        if e.code is None:
            status = 0
        elif isinstance(e.code, int):
            status = e.code
        else:
            err.write(str(e.code) + "\n")
            status = 1
    except (Mismatch, HarnessError, KeyboardInterrupt):
        raise
    except BaseException as e:
        sys.argv, sys.stdout, sys.stderr = old
        if fail_on_crash:
            fail("%s %s crashed: %s(%s)", tool, " ".join(args),
                 type(e).__name__, e)
        return 70, out.getvalue(), err.getvalue()
    finally:
        sys.argv, sys.stdout, sys.stderr = old
        if home in sys.path:
            sys.path.remove(home)
        for name, m in list(sys.modules.items()):
            # modules of the tools' own are loaded afresh each time
            if name not in _known and name != "__main__":
                if os.path.dirname(getattr(m, "__file__", None) or "") == \
                        home:
                    del sys.modules[name]
                else:
                    _known.add(name)
    return status, out.getvalue(), err.getvalue()


def arrangements(opts, args):
    """Every way of writing a command: `opts` is [(short, long)...]; options
    in any order, in either form or bundled, before, between or after the
    arguments, which keep their order."""
    for perm in itertools.permutations(opts):
        forms = [list(f) for f in itertools.product(*perm)]
        if len(perm) > 1:
            forms.append(["-" + "".join(o[0][1] for o in perm)])
        for f in forms:
            for at in itertools.combinations_with_replacement(
                    range(len(args) + 1), len(f)):
                out, k = [], 0
                for i in range(len(args) + 1):
                    while k < len(f) and at[k] == i:
                        out.append(f[k])
                        k += 1
                    out += args[i:i + 1]
                yield out
            yield f + ["--"] + args


def same_everywhere(tool, opts, args, prepare):
    """The tool does the same however its command line is arranged; returns
    the number of arrangements."""
    base, n = None, 0
    for line in arrangements(opts, args):
        prepare()
        got = run(tool, line)
        # object addresses in messages differ from run to run
        got = (got[0],) + tuple(re.sub(r"\b0x[0-9a-f]+", "0x", x)
                                for x in got[1:]) + (snapshot(),)
        n += 1
        if base is None:
            base = (line, got)
        elif got != base[1]:
            fail("%s: %r and %r behave differently", tool, line, base[0])
    return n


def run_process(tool, args):
    """The same as a real process (conformance of run())."""
    env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1",
               PYTHONPYCACHEPREFIX=sys.pycache_prefix or "")
    p = subprocess.run([sys.executable, path(tool)] + list(args), env=env,
                       capture_output=True, text=True, timeout=120,
                       stdin=subprocess.DEVNULL)
    return p.returncode, p.stdout, p.stderr


def snapshot(root="."):
    out = {}
    for d, _, files in os.walk(root):
        for f in files:
            p = os.path.join(d, f)
            if not os.path.exists(p):           # a link that leads nowhere
                out[os.path.relpath(p, root)] = os.readlink(p).encode()
                continue
            with open(p, "rb") as fh:
                out[os.path.relpath(p, root)] = fh.read()
    return out
