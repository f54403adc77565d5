"""One shard of a check: drives the parts of a property with hypothesis, in a process with a fixed hash seed."""
import importlib
import json
import os
import random
import signal
import tempfile
import time
import traceback

from vf import boot

CASE_LIMIT = 60  # seconds of CPU time; a normal case takes milliseconds.  Exceeding it means that it does not end.
BUDGET = {"quick": float(os.environ.get("VF_BUDGET", 500.0)), "thorough": 5400.0}
SHRINK_SECONDS = 25


class Part:
    """One executable form of a property: gen(src) -> spec (plain data), check(spec, note)."""

    def __init__(self, name, gen, check, quick, thorough, rule, one_shot=False):
        self.name, self.gen, self.check = name, gen, check
        self.cases = {"quick": quick, "thorough": thorough}
        self.rule = rule
        self.one_shot = one_shot


def load(prop):
    boot.setup()
    return importlib.import_module("vf.checks." + prop.lower())


def _alarm(signum, frame):
    from vf.core import CaseTimeout

    raise CaseTimeout()


def reset_state():
    """nothing may leak from one case to the next"""
    import numpy as np

    random.seed(12345)
    np.random.seed(12345)


def execute(part, spec, note):
    """run one case; returns None or an error message"""
    from vf.core import CaseTimeout, HarnessError, Violation

    reset_state()
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, CASE_LIMIT)
    try:
        part.check(spec, note)
        return None
    except HarnessError:
        raise
    except Violation as e:
        return str(e)
    except CaseTimeout:
        return "the case did not end within %d s of CPU time" % CASE_LIMIT
    except (MemoryError, KeyboardInterrupt):
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ["%s:%d" % (os.path.relpath(f.filename, "/"), f.lineno) for f in tb[-4:]]
        return "unexpected %s: %s  [%s]" % (type(e).__name__, str(e)[:400], " <- ".join(reversed(where)))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def replay(prop, saved):
    mod = load(prop)
    from vf.core import Note

    part = {p.name: p for p in mod.PARTS}[saved["part"]]
    return execute(part, saved["spec"], Note())


class _Failed(Exception):
    pass


class _OutOfTime(KeyboardInterrupt):
    """hypothesis passes this one through, which ends the part without looking like a test that behaves differently"""


def run(prop, tier, seed, shard, shards, out, cases_override=None):
    os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = os.path.join(tempfile.mkdtemp(dir=os.environ.get("VERIF_WORK")), "hyp")
    mod = load(prop)
    import hypothesis
    import hypothesis.internal.conjecture.engine as engine
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis import strategies as st

    from vf.core import HarnessError, Note, digest
    from vf.gen import Src

    engine.MAX_SHRINKING_SECONDS = SHRINK_SECONDS
    known = __import__("vf.run", fromlist=["known_findings"]).known_findings(prop)
    match = getattr(mod, "known_finding", None)
    t0 = time.time()
    budget = BUDGET[tier]
    result = {
        "failures": [], "harness_errors": [], "known": {}, "classes": {}, "parts": {}, "digests": [],
        "evaluations": 0, "samples": [], "assumptions": getattr(mod, "ASSUMPTIONS", []),
    }
    digests = set()

    def heartbeat(case):
        """tell the parent which case is running, as a call that hangs in C code cannot be interrupted from here"""
        with open(out + ".case", "w") as f:
            f.write(repr(case))

    n_parts = len(mod.PARTS)
    for index, part in enumerate(mod.PARTS):
        if result["failures"] and time.time() - t0 > 150:
            break  # a violation has been found; do not spend the remaining time on shrinking others
        total = part.cases[tier]
        n = cases_override or -(-total // shards)
        stat = {"cases": 0, "nontrivial": 0, "rule": part.rule, "stopped": 0}
        state = {"best": None, "first": None}
        deadline = t0 + budget * (index + 1) / n_parts

        def body(data):
            now = time.time()
            if state["first"] is None and now > deadline:
                stat["stopped"] = 1
                raise _OutOfTime()
            spec = part.gen(Src(data))
            note = Note()
            heartbeat({"part": part.name, "spec": spec})
            message = execute(part, spec, note)
            heartbeat(None)
            if state["first"] is None:
                stat["cases"] += 1
                result["evaluations"] += 1
                for c in note.classes:
                    key = part.name + "/" + c
                    result["classes"][key] = result["classes"].get(key, 0) + 1
                if note.nontrivial:
                    h = digest((part.name, spec))
                    if h not in digests:
                        digests.add(h)
                        stat["nontrivial"] += 1
                        if stat["nontrivial"] in (1, 40) and shard < 2:
                            result["samples"].append({"part": part.name, "case": _short(spec)})
            if message is None:
                return
            if known and match:
                key = match(part.name, spec, message)
                if key in known:
                    result["known"][key] = result["known"].get(key, 0) + 1
                    return
            if state["first"] is None:
                state["first"] = time.time()
            size = len(repr(spec))
            if state["best"] is None or size <= state["best"]["size"]:
                state["best"] = {
                    "property": prop, "part": part.name, "message": message, "size": size, "shard": shard,
                    "hashseed": shard, "seed": seed, "spec": repr({"part": part.name, "spec": spec}),
                }
            raise _Failed()

        test = settings(
            max_examples=n, database=None, deadline=None, phases=[Phase.generate, Phase.shrink],
            suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
        )(hypothesis.seed(seed * 100003 + shard * 101 + index)(given(st.data())(body)))
        try:
            test()
        except (_Failed, _OutOfTime):
            pass
        except HarnessError as e:
            result["harness_errors"].append("%s: %s" % (part.name, e))
        except hypothesis.errors.Flaky:
            if state["best"] is None:
                result["harness_errors"].append("%s: %s" % (part.name, traceback.format_exc()[-1500:]))
        except Exception:
            if state["best"] is None:
                result["harness_errors"].append("%s: %s" % (part.name, traceback.format_exc()[-2500:]))
        if state["best"] is not None:
            result["failures"].append(state["best"])
        result["parts"][part.name] = stat
    result["digests"] = sorted(digests)
    with open(out, "w") as f:
        json.dump(result, f)


def _short(spec):
    text = repr(spec)
    return text if len(text) < 1800 else text[:1800] + "..."
