"""Monitors attached to the real classes of the repository (no change to the
repository): public methods are wrapped at class level and report to the
monitors of the running case.  A wrapper only observes; an exception of the
monitor itself is turned into an inconclusive verdict, never a violation."""
import contextlib
import functools
import importlib
import io
import os
import sys
import traceback


class Inconclusive(BaseException):
    """The harness cannot decide (missing hook, monitor failure)."""


class StepBudget(BaseException):
    """The logical step budget of a run is exhausted."""


_installed = []


def target(path):
    """'src.Merger:Merger.merge_all' -> (owner, name) or None."""
    mod, _, attr = path.partition(':')
    try:
        owner = importlib.import_module(mod)
    except ImportError:
        return None
    parts = attr.split('.')
    for p in parts[:-1]:
        owner = getattr(owner, p, None)
        if owner is None:
            return None
    if not hasattr(owner, parts[-1]):
        return None
    return owner, parts[-1]


class Hooks:
    """Context manager: attach `before(self,args,kwargs)->token` and
    `after(self,args,kwargs,token,result)` to methods."""

    def __init__(self):
        self.saved = []
        self.missing = []
        self.error = None

    def attach(self, path, before=None, after=None, around=None,
               required=True):
        t = target(path)
        if t is None:
            if required:
                self.missing.append(path)
            return False
        owner, name = t
        raw = owner.__dict__.get(name, None)
        orig = getattr(owner, name)
        static = isinstance(raw, (staticmethod, classmethod))
        hooks = self

        def guard(f, *a):
            try:
                return f(*a)
            except (StepBudget, KeyboardInterrupt):
                raise
            except Inconclusive as e:
                hooks.error = hooks.error or str(e)
            except BaseException as e:
                tb = traceback.extract_tb(e.__traceback__)[-1]
                hooks.error = hooks.error or (
                    'monitor error in %s: %s %s at %s:%d'
                    % (path, type(e).__name__, e, tb.filename, tb.lineno))

        if static:
            @functools.wraps(orig)
            def inner(*args, **kw):
                tok = guard(before, None, args, kw) if before else None
                res = orig(*args, **kw)
                if after:
                    guard(after, None, args, kw, tok, res)
                return res
            new = staticmethod(inner)
        elif around:
            @functools.wraps(orig)
            def new(self, *args, **kw):
                return around(orig, self, args, kw)
        else:
            @functools.wraps(orig)
            def new(self, *args, **kw):
                tok = guard(before, self, args, kw) if before else None
                res = orig(self, *args, **kw)
                if after:
                    guard(after, self, args, kw, tok, res)
                return res
        self.saved.append((owner, name, raw))
        setattr(owner, name, new)
        return True

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        for owner, name, raw in reversed(self.saved):
            if raw is None:
                try:
                    delattr(owner, name)
                except AttributeError:
                    pass
            else:
                setattr(owner, name, raw)
        self.saved = []
        return False

    def check(self):
        if self.error:
            raise Inconclusive(self.error)


@contextlib.contextmanager
def quiet():
    """Silence print() and Gurobi's console output (fd level)."""
    sys.stdout.flush()
    sink = open(os.devnull, 'w')
    keep = os.dup(1)
    os.dup2(sink.fileno(), 1)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield
    finally:
        os.dup2(keep, 1)
        os.close(keep)
        sink.close()


class Steps:
    """Counts loop back-edges and function entries of the repository's own
    Python code (sys.monitoring); raises StepBudget past the limit: a logical
    clock to decide non-termination, independent of machine load."""
    TOOL = 4

    def __init__(self, limit, root):
        self.limit = limit
        self.root = root
        self.count = 0

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(self.TOOL, 'mon-steps')
        src = os.path.join(self.root, 'src') + os.sep
        off = m.DISABLE

        def tick(code, *a):
            if not code.co_filename.startswith(src):
                return off
            self.count += 1
            if self.count > self.limit:
                raise StepBudget('more than %d steps' % self.limit)
        m.register_callback(self.TOOL, m.events.JUMP, tick)
        m.register_callback(self.TOOL, m.events.PY_START, tick)
        m.set_events(self.TOOL, m.events.JUMP | m.events.PY_START)
        m.restart_events()
        return self

    def __exit__(self, *exc):
        m = sys.monitoring
        m.set_events(self.TOOL, 0)
        m.register_callback(self.TOOL, m.events.JUMP, None)
        m.register_callback(self.TOOL, m.events.PY_START, None)
        m.free_tool_id(self.TOOL)
        return False


def arg(args, kw, pos, name, default=None):
    if name in kw:
        return kw[name]
    if len(args) > pos:
        return args[pos]
    return default
