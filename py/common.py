"""Runs a Hypothesis check: generated cases, counting, shrinking, replay.

A check module calls main({id: Check}). A Check has
  strategy(tier)  -> a Hypothesis strategy of JSON-able cases
  run(case)       -> (nontrivial, labels); raises Violation when the property is broken
  cases           -> (quick, thorough) number of cases per worker
  rule            -> what makes a case non-trivial
"""
import argparse
import contextlib
import hashlib
import io
import json
import os
import random
import re
import shutil
import signal
import sys
import time
import traceback

import numpy as np
from hypothesis import HealthCheck, Phase, given, seed, settings
from hypothesis import strategies as st  # noqa: F401

REPO = os.environ.get("VF_REPO", "/repo")
SCRATCH = os.environ.get("VF_SCRATCH", "/tmp")
SRC = os.path.join(REPO, "src", "HybridSolver")
GCN = os.path.join(SRC, "main", "graph-convnet-tsp")
sys.dont_write_bytecode = True


class Violation(AssertionError):
    pass


class HarnessError(Exception):
    pass


SEEDS = [random.seed, np.random.seed]      # every source of randomness a case can reach; set anew for each case


def reseed(case):
    h = int(hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:7], 16)
    for f in SEEDS:
        f(h)


def need(cond, msg):
    if not cond:
        raise Violation(msg)


class Check:
    cases = (200, 2000)
    rule = ""

    def prepare(self):
        pass


@contextlib.contextmanager
def quiet():
    """Swallows what the code under test prints."""
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
        yield buf


@contextlib.contextmanager
def inside(d):
    old = os.getcwd()
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)


_n = [0]


@contextlib.contextmanager
def scratch():
    """An empty directory below VF_SCRATCH, current directory meanwhile, removed afterwards."""
    _n[0] += 1
    d = os.path.join(SCRATCH, "s%d_%d" % (os.getpid(), _n[0]))
    os.makedirs(d)
    try:
        with inside(d):
            yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


class _Hang(BaseException):
    pass


def _on_alarm(*_):
    raise _Hang()


@contextlib.contextmanager
def bounded(what, seconds=30):
    """Not ending counts as a violation; the calls guarded by this take milliseconds."""
    old = signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    except _Hang:
        raise Violation("%s did not end within %d s" % (what, seconds)) from None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def called(what, f, *a, **k):
    """Calls the code under test; an exception it raises is a violation."""
    try:
        with bounded(what), quiet():
            return f(*a, **k)
    except (Violation, HarnessError):
        raise
    except NotImplementedError:
        raise
    except AttributeError as e:
        if type(e).__name__ == "Unsupported" or re.search("module 'pandas'|'Frame' object has no", str(e)):
            raise HarnessError(str(e))
        raise Violation("%s raised %s: %s" % (what, type(e).__name__, e))
    except SystemExit as e:
        raise Violation("%s ended the program (exit status %r)" % (what, e.code))
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [t for t in tb if t.filename.startswith(REPO)] or list(tb)
        raise Violation("%s raised %s: %s (line %s of %s)" % (what, type(e).__name__, e, where[-1].lineno, os.path.basename(where[-1].filename)))


def run(check, cid, a):
    total = check.cases[a.tier == "thorough"]
    total = max(1, int(total * float(os.environ.get("VF_SCALE", "1"))))
    keys, labels, samples = set(), {}, []
    st_ = dict(evaluations=0)
    last = {}
    deadline = time.time() + (420 if a.tier == "quick" else 3000)

    @seed(a.seed * 1000 + a.worker)
    @settings(max_examples=total, deadline=None, database=None, phases=[Phase.generate, Phase.shrink], print_blob=False,
              suppress_health_check=list(HealthCheck), report_multiple_bugs=False)
    @given(check.strategy(a.tier))
    def body(case):
        if time.time() > deadline:
            return
        text = json.dumps(case, sort_keys=True)
        st_["evaluations"] += 1
        try:
            reseed(json.loads(text))
            nontrivial, ls = check.run(json.loads(text))
        except Violation as e:
            last["case"], last["msg"] = text, str(e)
            raise
        if nontrivial:
            h = hashlib.sha1(text.encode()).hexdigest()[:16]
            if h not in keys:
                keys.add(h)
                if len(samples) < 2 and len(text) < 4000:
                    samples.append(text)
        for l in ls:
            labels[l] = labels.get(l, 0) + 1

    failed = False
    try:
        body()
    except Exception:
        if "case" not in last:
            raise
        failed = True
    json.dump(dict(st_, keys=sorted(keys), labels=labels, samples=samples, rule=check.rule, failed=failed,
                   msg=last.get("msg", "") if failed else "", case=last.get("case", "") if failed else ""), open(a.out, "w"))


def main(checks):
    p = argparse.ArgumentParser()
    p.add_argument("--check", required=True)
    p.add_argument("--seed", type=int, default=1)
    p.add_argument("--worker", type=int, default=0)
    p.add_argument("--workers", type=int, default=1)
    p.add_argument("--tier", default="quick")
    p.add_argument("--out")
    p.add_argument("--replay")
    a = p.parse_args()
    check = checks[a.check]()
    check.worker = a.worker
    check.prepare()
    if a.replay:
        case = json.load(open(a.replay))["case"]
        try:
            reseed(case)
            check.run(case)
        except Violation as e:
            print("violated: %s" % e)
            sys.exit(1)
        print("held")
        sys.exit(0)
    run(check, a.check, a)
