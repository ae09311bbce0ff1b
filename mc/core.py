"""Shared machinery: exhaustive exploration of the real h800 code.

Every check enumerates *cases* (a case is a JSON-serialisable kind + argument
that names one bounded execution of the implementation), runs each on the
code in /repo and compares everything observable with a reference model.
"""
import contextlib
import io
import json
import os
import pickle
import resource
import shutil
import signal
import sys
import tempfile
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("H800_REPO", "/repo")
EVIDENCE = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")
PROFILE = os.environ.get("MC_PROFILE")
HANG_S = float(os.environ.get("MC_HANG_S", "120"))


class Mismatch(Exception):
    """The implementation disagreed with the model."""


class HarnessError(Exception):
    pass


def fail(fmt, *args):
    raise Mismatch(fmt % args if args else fmt)


def expect(label, got, want):
    if got != want or type(got) is not type(want) and not (
            isinstance(got, int) and isinstance(want, int)):
        raise Mismatch("%s: got %r, expected %r" % (label, got, want))


def outcome(fn, *args, **kw):
    """Run fn; ('ok', value) or ('exc', exception)."""
    try:
        return ("ok", fn(*args, **kw))
    except (KeyboardInterrupt, Mismatch, HarnessError):
        raise
    except BaseException as e:          # SystemExit included
        return ("exc", e)


def ok(label, fn, *args, **kw):
    k, v = outcome(fn, *args, **kw)
    if k != "ok":
        fail("%s: raised %s(%s)", label, type(v).__name__, v)
    return v


def rejects(label, exctypes, fn, *args, **kw):
    k, v = outcome(fn, *args, **kw)
    if k == "ok":
        fail("%s: accepted (returned %r), expected %s", label, v,
             "/".join(t.__name__ for t in exctypes))
    if not isinstance(v, exctypes):
        fail("%s: raised %s(%s), expected %s", label, type(v).__name__, v,
             "/".join(t.__name__ for t in exctypes))
    return v


@contextlib.contextmanager
def quiet():
    """Discard what the code under test prints."""
    o, e = sys.stdout, sys.stderr
    sys.stdout = io.StringIO()
    sys.stderr = io.StringIO()
    try:
        yield
    finally:
        sys.stdout, sys.stderr = o, e


class _Null:
    def write(self, s):
        return len(s)

    def flush(self):
        pass


def setup():
    """Point imports at /repo's working tree, never at stale bytecode."""
    sys.dont_write_bytecode = True
    sys.pycache_prefix = tempfile.mkdtemp(prefix="mc-pyc-")
    import atexit
    pid = os.getpid()
    prefix = sys.pycache_prefix
    atexit.register(lambda: os.getpid() == pid and
                    shutil.rmtree(prefix, ignore_errors=True))
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") != REPO]
    sys.path.insert(0, REPO)
    sys.path.insert(1, VERIF)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    except (ValueError, OSError):
        pass
    # Code under test may recurse or print; keep both bounded and silent.
    sys.setrecursionlimit(3000)


def import_repo(name):
    """Import a module of the code under test; failing to is a violation."""
    import importlib
    try:
        with quiet():
            mod = importlib.import_module(name)
    except BaseException as e:
        fail("cannot import %s: %s(%s)", name, type(e).__name__, e)
    path = os.path.abspath(getattr(mod, "__file__", "") or "")
    if not path.startswith(os.path.abspath(REPO) + os.sep):
        raise HarnessError("%s imported from %s, not %s" % (name, path, REPO))
    return mod


class Context:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.assumptions = []
        self.bounds = {}
        self.sections = {}
        self.known_hit = []
        self.exhaustive = True
        self.current = None
        self.cases = {}
        self._tick = 0
        self._unit = 0
        self.shard, self.nshards = 0, 1
        self.report = None          # worker: where to send the result
        self.own = [0, 0, 0]        # counted by this process alone
        self._scratch = None
        self.root = None            # worker: the parent's scratch directory
        self.known = load_known(prop)

    # Properties whose wide bounds take too long for every change.
    NARROW = ("C01", "C02", "C03", "C04", "C09", "C10")

    @property
    def wide(self):
        """Explore the wide bounds: in the thorough tier, and in the quick
        one too where they are affordable."""
        return self.deep or self.prop not in self.NARROW

    @property
    def deep(self):
        """Only in the thorough tier: bounds beyond the wide ones."""
        return self.tier == "thorough"

    # -- accounting -------------------------------------------------------
    def count(self, states=0, transitions=0, traces=0):
        self.states += states
        self.transitions += transitions
        self.traces += traces

    def count_own(self, states=0, transitions=0, traces=0):
        """Counters of work only this process does (state searches); count()
        is called alike in every worker process and is not summed."""
        for i, x in enumerate((states, transitions, traces)):
            self.own[i] += x

    def sample(self, x, cap=12):
        if len(self.samples) < cap:
            self.samples.append(x)

    def section(self, name, **kw):
        self.sections[name] = kw

    # -- cases ------------------------------------------------------------
    def kind(self, name, fn):
        self.cases[name] = fn

    def mine(self):
        """Does this process own the next unit of work?  Units are spread
        over the worker processes by a fixed scrambling of their number, so
        every worker sees a mixture of all kinds of unit."""
        self._unit += 1
        if self.nshards == 1:
            return True
        return (self._unit * 0x9E3779B1 >> 12 & 0xFFFF) % self.nshards == \
            self.shard

    def case(self, kind, arg):
        """Run one case of the implementation; a disagreement ends the run.
        Cases of other worker processes are skipped."""
        if not self.mine():
            return None
        return self.run_case(kind, arg)

    def run_case(self, kind, arg):
        self.current = (kind, arg)
        self._tick += 1
        if PROFILE:
            return self.profiled(kind, arg)
        try:
            r = self.cases[kind](arg)
        except Mismatch as e:
            self.violation(kind, arg, str(e))
        except HarnessError:
            raise
        except (KeyboardInterrupt,):
            raise
        except Exception as e:
            self.unexpected(kind, arg, e)
        return r

    def profiled(self, kind, arg):
        """Note the cases that take longest (MC_PROFILE=file)."""
        t = time.process_time()
        r = self.cases[kind](arg)
        t = time.process_time() - t
        if t > 1:
            with open(PROFILE, "a") as f:
                f.write("%6.2f %s %s %.100s\n" % (t, self.prop, kind, arg))
        return r

    def unexpected(self, kind, arg, e):
        """The unchanged code never makes a case raise: an exception here is
        the code's doing (it raised, or returned something of another shape)
        unless the sandbox itself is failing."""
        if isinstance(e, OSError) and not raised_in_repo(e):
            raise e
        self.violation(kind, arg, "unexpected %s: %s" %
                       (type(e).__name__, e))

    def known_finding(self, key):
        """True if `key` is a listed finding; remembers to print it."""
        for k, text in self.known:
            if k == key:
                if (k, text) not in self.known_hit:
                    self.known_hit.append((k, text))
                return True
        return False

    def violation(self, kind, arg, msg):
        if self.report is not None:
            self.send({"violation": [kind, jsonable(arg), msg]})
            self.cleanup()
            os._exit(1)
        os.makedirs(EVIDENCE, exist_ok=True)
        path = os.path.join(EVIDENCE, "%s.replay.json" % self.prop)
        with open(path, "w") as f:
            json.dump(jsonable({"property": self.prop, "kind": kind,
                                "arg": arg, "message": msg}), f, indent=1)
        self.write_evidence(violations=1)
        out = sys.__stdout__
        out.write("%s: %s\n  case %s %s\n" %
                  (self.prop, str(msg)[:1500], kind, json.dumps(jsonable(arg))[:2000]))
        out.write("VIOLATION property=%s replay=%s\n" % (self.prop, path))
        out.flush()
        self.cleanup()
        os._exit(1)

    def send(self, obj):
        data = json.dumps(jsonable(obj)).encode()
        with os.fdopen(self.report, "wb") as f:
            f.write(data)

    def scratch(self):
        if self._scratch is None:
            base = self.root or (
                "/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
            self._scratch = tempfile.mkdtemp(prefix="mc-%s-" % self.prop,
                                             dir=base)
        return self._scratch

    def cleanup(self, shared=True):
        if self._scratch:
            os.chdir("/")
            shutil.rmtree(self._scratch, ignore_errors=True)
            self._scratch = None
        if sys.pycache_prefix and shared and self.report is None:
            shutil.rmtree(sys.pycache_prefix, ignore_errors=True)

    def write_evidence(self, violations=0):
        os.makedirs(EVIDENCE, exist_ok=True)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed,
            "level": "model_checking",
            "coverage": {
                "states": self.states + self.own[0],
                "transitions": self.transitions + self.own[1],
                "traces_validated_against_impl": self.traces + self.own[2],
                "worker_processes": self.nshards,
                "samples": self.samples or [{"kind": "none"}],
                "exhaustive": bool(self.exhaustive and not violations),
                "bounds": self.bounds,
                "sections": self.sections,
                "known_findings_seen": [k for k, _ in self.known_hit],
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 3),
            "violations": violations,
        }
        path = os.path.join(EVIDENCE, "%s.json" % self.prop)
        tmp = path + ".tmp"
        with open(tmp, "w") as f:
            json.dump(jsonable(ev), f, indent=1)
        os.replace(tmp, path)

    def watchdog(self):
        def run():
            # processor time counts, so that a busy machine is no hang; a
            # case that waits for something without working gets longer
            last, wall, cpu = -1, time.time(), time.process_time()
            while True:
                time.sleep(1)
                t = (self._tick, self.transitions, self.own[1])
                if t != last:
                    last, wall, cpu = t, time.time(), time.process_time()
                elif self.current and (time.process_time() - cpu > HANG_S or
                                       time.time() - wall > 4 * HANG_S):
                    kind, arg = self.current
                    self.violation(kind, arg, "no answer within %d s (hang)"
                                   % HANG_S)
        threading.Thread(target=run, daemon=True).start()


def jsonable(x):
    if isinstance(x, dict):
        return {k if isinstance(k, str) else repr(k): jsonable(v)
                for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(i) for i in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def raised_in_repo(e):
    """Does the innermost frame chain of e pass through code under test?"""
    tb = e.__traceback__
    root = os.path.abspath(REPO) + os.sep
    while tb is not None:
        if os.path.abspath(tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        tb = tb.tb_next
    return False


def load_known(prop):
    """Lines 'finding: property=<id> key=<key> <text>' (fixed: lines suppress
    nothing and are ignored here)."""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("finding: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                assert rest.startswith("key="), line
                key, text = rest[4:].split(" ", 1)
                out.append((key, text))
    return out


# ---------------------------------------------------------------------------
# Explicit-state exploration of a real object together with its model.

def explore(ctx, kind, config, make, ops, step, model0, max_depth=None,
            max_states=200000):
    """Breadth-first search over *concrete implementation states*.

    A node is (pickle of the real object, model state).  Every op is applied
    to every node; step(obj, model, op) compares the observable outcome with
    the model and returns the next model state.  Nodes are merged only when
    the real object's complete concrete state (hidden fields included) and the
    model state coincide, so the search is exact; it closes when no new node
    appears.  Objects that cannot be pickled are re-created by replaying the
    op path instead (stateless search to max_depth).
    """
    if not ctx.mine():
        return 0, 0, True

    def build(path):
        obj, model = make(config), model0
        for op in path:
            model = step(obj, model, op)
        return obj, model

    obj = make(config)
    try:
        root = pickle.dumps(obj, 4)
        pickle.loads(root)
        stateful = True
    except Exception:
        root, stateful = None, False
    seen = {(root, model0)} if stateful else None
    frontier = [(root, model0, ())]
    ctx.count_own(states=1)
    depth = 0
    nstates = 1
    closed = False
    while frontier:
        if max_depth is not None and depth >= max_depth:
            break
        if not stateful and depth >= (max_depth or 2):
            break
        nxt = []
        for snap, model, path in frontier:
            for op in ops:
                ctx.current = (kind, [config, list(path) + [op]])
                ctx._tick += 1
                try:
                    if stateful:
                        o = pickle.loads(snap)
                    else:
                        o, _ = build(path)
                    m2 = step(o, model, op)
                except Mismatch as e:
                    ctx.violation(kind, [config, list(path) + [op]], str(e))
                except HarnessError:
                    raise
                except Exception as e:
                    ctx.unexpected(kind, [config, list(path) + [op]], e)
                ctx.count_own(transitions=1)
                if stateful:
                    try:
                        s2 = pickle.dumps(o, 4)
                    except Exception:
                        s2 = None
                    if s2 is None:
                        continue
                    key = (s2, m2)
                    if key in seen:
                        continue
                    seen.add(key)
                    nstates += 1
                    ctx.count_own(states=1)
                    if nstates < max_states:
                        nxt.append((s2, m2, path + (op,)))
                else:
                    nxt.append((None, m2, path + (op,)))
        frontier = nxt
        depth += 1
    else:
        closed = True
    ctx.count_own(traces=1)
    return nstates, depth, closed


def replay_trace(make, step, model0):
    """Case function for explore()'s counterexamples."""
    def run(arg):
        config, path = arg
        if isinstance(config, list):
            config = tuple(config)
        obj, model = make(config), model0(config)
        for op in path:
            model = step(obj, model, freeze(op))
    return run


def freeze(x):
    return tuple(freeze(i) for i in x) if isinstance(x, (list, tuple)) else x


# ---------------------------------------------------------------------------

def main(prop, build, shards=1, argv=None):
    """Entry point: build(ctx) registers case kinds and returns an explorer
    function taking no arguments."""
    argv = sys.argv[1:] if argv is None else argv
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    i = 0
    while i < len(argv):
        if argv[i] in ("quick", "thorough"):
            tier = argv[i]
        elif argv[i] == "--replay":
            replay = argv[i + 1]
            i += 1
        i += 1
    if replay:
        shards = 1
    shards = max(1, min(shards, int(os.environ.get("MC_WORKERS", "8"))))
    ctx = Context(prop, tier)
    status = 2
    real = sys.stdout
    try:
        if shards > 1:
            sys.stdout.flush()
            workers(ctx, build, shards)
        else:
            sys.stdout = sys.stderr = _Null()
            ctx.watchdog()
            if replay:
                spec = json.load(open(replay))
                if spec["kind"] == "import":
                    explore_all(ctx, build)
                else:
                    build(ctx)
                    ctx.run_case(spec["kind"], spec["arg"])
                sys.stdout, sys.stderr = real, sys.__stderr__
                print("replay: no disagreement")
            else:
                explore_all(ctx, build)
        if not replay:
            ctx.write_evidence()
            sys.stdout, sys.stderr = real, sys.__stderr__
            for key, text in ctx.known_hit:
                print("KNOWN-FINDING: property=%s %s" % (prop, text))
            print("%s %s: held; states=%d transitions=%d traces=%d in %.1fs" %
                  (prop, tier, ctx.states + ctx.own[0],
                   ctx.transitions + ctx.own[1], ctx.traces + ctx.own[2],
                   time.time() - ctx.t0))
        status = 0
    except BaseException:
        sys.stdout, sys.stderr = real, sys.__stderr__
        traceback.print_exc()
    finally:
        ctx.cleanup()
        sys.stdout, sys.stderr = real, sys.__stderr__
        sys.stdout.flush()
    os._exit(status)


def explore_all(ctx, build):
    """Build the check and explore; whatever the code under test does wrong
    ends in ctx.violation()."""
    try:
        explorer = build(ctx)
        explorer()
    except Mismatch as e:
        k, a = ctx.current or ("import", None)
        ctx.violation(k, a, str(e))
    except HarnessError:
        raise
    except Exception as e:
        k, a = ctx.current or ("import", None)
        if raised_in_repo(e):
            ctx.unexpected(k, a, e)
        raise


def workers(ctx, build, n):
    """Run the exploration in n processes, each taking its share of the
    units, and merge what they report."""
    pids, fds = [], []
    root = ctx.scratch()        # removed by this process, whatever happens
    for k in range(n):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 2
            try:
                os.close(r)
                for fd in fds:
                    os.close(fd)
                try:            # die with the parent, whatever ends it
                    import ctypes
                    ctypes.CDLL(None).prctl(1, signal.SIGKILL)
                except (OSError, AttributeError):
                    pass
                ctx.shard, ctx.nshards, ctx.report = k, n, w
                ctx.root, ctx._scratch = root, None
                sys.stdout = sys.stderr = _Null()
                ctx.watchdog()
                explore_all(ctx, build)
                ctx.send({"states": ctx.states, "units": ctx._unit,
                          "transitions": ctx.transitions,
                          "traces": ctx.traces, "own": ctx.own,
                          "samples": ctx.samples, "bounds": ctx.bounds,
                          "sections": ctx.sections,
                          "assumptions": ctx.assumptions,
                          "known": ctx.known_hit,
                          "exhaustive": ctx.exhaustive})
                code = 0
            except BaseException:
                traceback.print_exc(file=sys.__stderr__)
                sys.__stderr__.flush()
            finally:
                ctx.cleanup(shared=False)
                os._exit(code)
        os.close(w)
        pids.append(pid)
        fds.append(r)
    import selectors
    sel = selectors.DefaultSelector()
    got = {}
    for k, fd in enumerate(fds):
        got[k] = b""
        sel.register(fd, selectors.EVENT_READ, k)
    left, bad = n, None
    results = {}
    while left and bad is None:
        for key, _ in sel.select():
            data = os.read(key.fd, 1 << 16)
            if data:
                got[key.data] += data
                continue
            sel.unregister(key.fd)
            left -= 1
            k = key.data
            if not got[k]:
                raise HarnessError("worker %d gave no answer" % k)
            results[k] = json.loads(got[k])
            if "violation" in results[k]:
                bad = results[k]["violation"]
    for pid in pids:
        if bad is not None:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
        os.waitpid(pid, 0)
    if bad is not None:
        ctx.violation(*bad)
    base = results[0]
    if len({results[k]["units"] for k in results}) != 1:
        raise HarnessError("workers disagree on the work to be done")
    ctx.states, ctx.transitions = base["states"], base["transitions"]
    ctx.traces, ctx.bounds = base["traces"], base["bounds"]
    ctx.samples, ctx.assumptions = base["samples"], base["assumptions"]
    ctx.nshards = n
    for r in results.values():
        ctx.own = [x + y for x, y in zip(ctx.own, r["own"])]
        ctx.exhaustive = ctx.exhaustive and r["exhaustive"]
        for name, sec in r["sections"].items():
            ctx.sections.setdefault(name, {}).update(
                {k: v for k, v in sec.items() if v not in (None, [0, 0, True])})
        for kf in r["known"]:
            if tuple(kf) not in ctx.known_hit:
                ctx.known_hit.append(tuple(kf))
