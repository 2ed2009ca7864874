"""Runs concrete cases of one property. Prints one JSON line per event.

  python -m vf.rt.worker PROP SEED START STOP STEP DEADLINE_S
  python -m vf.rt.worker --replay FILE
"""
import json
import os
import sys
import time
import traceback


def load(prop):
    from . import structure, numeric, solving

    name = prop.lower()
    for m in (structure, numeric, solving):
        f = getattr(m, name, None)
        if f is not None:
            return f
    raise KeyError(prop)


def repo_root():
    import jaxfg

    return os.path.dirname(os.path.dirname(os.path.abspath(jaxfg.__file__)))


def describe(e):
    try:
        return str(e)
    except Exception:  # the text may need values that exist only while JAX traces
        return ""


def run_case(fn, seed, k):
    """None if the case passes, else a message."""
    import numpy as np
    from .gen import Fail

    rng = np.random.default_rng([seed, k])
    try:
        fn(rng, k)
    except Fail as e:
        return str(e)
    except Exception as e:
        text = describe(e)
        tb = traceback.extract_tb(e.__traceback__)
        root = repo_root() + os.sep + "jaxfg"
        if any(os.path.abspath(f.filename).startswith(root) for f in tb):
            where = [f"{f.filename}:{f.lineno} {f.name}" for f in tb if "site-packages" not in f.filename]
            return f"the library raised {type(e).__name__}: {text[:600]}\n  at " + "\n     ".join(where[-6:])
        # the checks use the public interface only: what remains are results of another type, shape or dtype
        gone = isinstance(e, AttributeError) and text.startswith(("module ", "type object "))
        gone |= isinstance(e, TypeError) and any(x in text for x in ("positional argument", "keyword argument"))
        if not gone and not isinstance(e, (ImportError, NameError, MemoryError, OSError)):
            where = [f"{f.filename}:{f.lineno} {f.name}" for f in tb if "site-packages" not in f.filename]
            return f"the library returned a value that cannot be used: {type(e).__name__}: {text[:600]}\n  at " + "\n     ".join(where[-3:])
        raise
    return None


def main(argv):
    from . import env  # noqa: F401

    if argv[0] == "--replay":
        rec = json.load(open(argv[1]))
        if rec.get("kind") != "concrete":
            print("nothing to execute: this record names a failed proof obligation")
            print(json.dumps(rec, indent=1))
            return 1
        msg = run_case(load(rec["property"]), rec["seed"], rec["case"])
        print(msg or "the case passes")
        return 1 if msg else 0
    prop, seed, start, stop, step = argv[0], *map(int, argv[1:5])
    deadline = time.time() + float(argv[5])
    fn = load(prop)
    emit = lambda **kw: print(json.dumps(kw), flush=True)
    done = 0
    for k in range(start, stop, step):
        if time.time() > deadline:
            break
        emit(ev="start", k=k)
        msg = run_case(fn, seed, k)
        if msg:
            emit(ev="fail", k=k, msg=msg)
            return 0
        done += 1
    from .gen import KNOWN

    for name, text in sorted(KNOWN.items()):
        emit(ev="known", name=name, text=text)
    emit(ev="end", done=done)
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
