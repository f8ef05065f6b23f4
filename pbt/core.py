"Shared by the runner and the property modules: verdicts, case plumbing, scratch space."
import contextlib
import hashlib
import io
import json
import os
import shutil
import sys
import tempfile
import traceback

REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def bootstrap():
    "Puts gpkit (from the working tree) and hypothesis on the path."
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if VERIF not in sys.path:
        sys.path.insert(1, VERIF)
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        site = "/opt/veriftools/pyvenv/lib/python%i.%i/site-packages" % sys.version_info[:2]
        sys.path.append(site)  # at the END: numpy and the rest stay gpkit's own
        import hypothesis  # noqa: F401
    # gpkit's first import without this (git-ignored) file runs its whole test suite
    settings = os.path.join(REPO, "gpkit", "env", "settings")
    good = False
    with contextlib.suppress(OSError):
        with open(settings) as f:
            good = "installed_solvers : cvxopt" in f.read()
    if not good:
        os.makedirs(os.path.dirname(settings), exist_ok=True)
        with open(settings, "w") as f:
            f.write("installed_solvers : cvxopt\n")


class Violation(Exception):
    "The property does not hold for this case."


class HarnessError(Exception):
    "Something is wrong with the machinery itself, not with gpkit."


class Discard(Exception):
    "The case turned out not to be in the property's domain."


def require(cond, msg, *args):
    "Raise a Violation unless cond."
    if not cond:
        raise Violation(msg % args if args else msg)


class Info:
    "What a passing case was: is it non-trivial by the module's rule, and its labels."
    __slots__ = ("nontrivial", "labels", "sample")

    def __init__(self, nontrivial=True, labels=(), sample=None):
        self.nontrivial, self.labels, self.sample = bool(nontrivial), tuple(labels), sample


def canon(case):
    "Canonical JSON of a case."
    return json.dumps(case, sort_keys=True, separators=(",", ":"), allow_nan=True)


def digest(case):
    "Short hash of a case."
    return hashlib.sha1(canon(case).encode()).hexdigest()[:16]


def reset_state():
    "Known-good global state before every case (cases are self-contained)."
    from gpkit import SignomialsEnabled, NamedVariables
    from gpkit.globals import Vectorize
    SignomialsEnabled._true = False
    NamedVariables.lineage = ()
    NamedVariables.namedvars.clear()
    NamedVariables.reset_modelnumbers()
    Vectorize.vectorization = ()


def state_is_clean():
    "Global state after a case, as (name, value) of what leaked; [] if nothing."
    from gpkit import SignomialsEnabled, NamedVariables
    from gpkit.globals import Vectorize
    leaks = []
    if SignomialsEnabled:
        leaks.append("signomials left enabled")
    if NamedVariables.lineage:
        leaks.append("lineage left at %s" % (NamedVariables.lineage,))
    if Vectorize.vectorization:
        leaks.append("vectorization left at %s" % (Vectorize.vectorization,))
    return leaks


def guarded(run, case):
    """Runs one case.

    Returns Info; raises Violation if the property fails or gpkit raises something it
    should not, HarnessError if the fault lies in the harness, Discard if out of domain.
    """
    reset_state()
    out, err = sys.stdout, sys.stderr
    sink = io.StringIO()
    try:
        sys.stdout = sink
        info = run(case)
        if sys.stdout is not sink:
            raise Violation("standard output was not restored")
        leaks = state_is_clean()
        if leaks:
            raise Violation("global state not restored: " + "; ".join(leaks))
        return info or Info()
    except (Violation, HarnessError, Discard):
        raise
    except Exception as exc:
        if type(exc).__module__.startswith("hypothesis"):
            raise
        trace = "".join(traceback.format_exception(type(exc), exc, exc.__traceback__)[-6:])
        # also when raised outside gpkit's frames: e.g. an operator that returned
        # NotImplemented, or a result without the attribute it should have
        raise Violation("unexpected %s: %s\n%s" % (type(exc).__name__, exc, trace)) from exc
    finally:
        sys.stdout, sys.stderr = out, err
        reset_state()


@contextlib.contextmanager
def quiet():
    "Swallow whatever is printed inside (and keep it)."
    old, sink = sys.stdout, io.StringIO()
    sys.stdout = sink
    try:
        yield sink
    finally:
        sys.stdout = old


@contextlib.contextmanager
def scratch():
    "A directory of its own, as working directory, removed afterwards."
    here = os.getcwd()
    d = tempfile.mkdtemp(prefix="pbt-")
    try:
        os.chdir(d)
        yield d
    finally:
        os.chdir(here)
        shutil.rmtree(d, ignore_errors=True)
