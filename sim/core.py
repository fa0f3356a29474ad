"""Core of the simulator: contexts, violations, seeds.

A *plan* is JSON data drawn from one seed; executing a plan is a pure function of the
plan and of the code under test.  Everything random is decided when the plan is drawn
(or by random.Random instances whose seeds are part of the plan).
"""
import hashlib
import json
import random
import sys

class Violation(Exception):
    """The property under check does not hold on this execution."""
    def __init__(self, kind, detail=""):
        Exception.__init__(self, "{0}: {1}".format(kind, detail))
        self.kind = kind
        self.detail = str(detail)[:4000]

class InjectedFault(Exception):
    """Raised by the simulator inside the system under test (an ordinary exception)."""

class HarnessError(Exception):
    """The harness itself is wrong (never reported as a violation)."""

class Ctx(object):
    def __init__(self):
        self.faults = {}
        self.probes = {}
        self.steps = 0
        self.evals = 0
        self.trace = []
        self.nontrivial = False
        self.sigs = []

    def fault(self, kind, n=1):
        """A fault of this kind was actually delivered to the code under test."""
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        """A rare situation worth reaching was reached."""
        self.probes[name] = self.probes.get(name, 0) + n

    def step(self, n=1):
        self.steps += n

    def checked(self, n=1):
        self.evals += n

    def log(self, *what):
        if len(self.trace) < 400:
            self.trace.append(" ".join(str(x) for x in what)[:300])

def seeded(*parts):
    return random.Random(int(hashlib.sha256(":".join(str(x) for x in parts).encode()).hexdigest()[:16], 16))

def digest(obj):
    return hashlib.sha256(json.dumps(obj, sort_keys=True, default=repr).encode()).hexdigest()[:16]

def sut(what, fn, *args, **kwargs):
    """Call the code under test where the property promises success."""
    try:
        return fn(*args, **kwargs)
    except Violation:
        raise
    except HarnessError:
        raise
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as err:
        import traceback
        tb = traceback.extract_tb(sys.exc_info()[2])
        where = "; ".join("{0}:{1} {2}".format(f.filename.rsplit("/", 1)[-1], f.lineno, f.name) for f in tb[-4:])
        raise Violation("exception:{0}:{1}".format(what, type(err).__name__), "{0} [{1}]".format(err, where))

def require(cond, kind, detail=""):
    if not cond:
        raise Violation(kind, detail() if callable(detail) else detail)
