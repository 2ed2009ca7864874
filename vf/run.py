"""Entry point of every check:  python -m vf.run PROP

exit 0: held; exit 1: VIOLATION line printed; other: the check itself failed.
"""
import importlib.util
import json
import os
import subprocess
import sys
import tempfile
import time
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# concrete cases per tier
CASES = {
    "C01": (4000, 40000), "C02": (160, 2400), "C03": (240, 4000), "C04": (120, 1600), "C05": (48, 800),
    "C06": (32, 600), "C07": (80, 1200), "C08": (400, 8000), "C09": (240, 4000), "C10": (160, 2400),
    "C11": (1200, 20000), "C12": (800, 12000), "C13": (80, 1200), "C14": (48, 800), "C15": (240, 8000),
    "C16": (400, 20000), "C17": (160, 3000), "C18": (24, 240), "C19": (40, 600), "C20": (400, 8000),
}


def evidence_path(prop):
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, prop + ".json")


def start_conformance(seed):
    """The verifier's own differential test (thorough tier), next to the rest."""
    fd, path = tempfile.mkstemp(suffix=".json")
    os.close(fd)
    p = subprocess.Popen(
        [sys.executable, "-W", "ignore", "-m", "vf.conformance"], cwd=HERE, stdout=subprocess.DEVNULL,
        env=dict(os.environ, JSON=path, SAMPLES="12", VERIF_SEED=str(seed)),
    )
    return p, path


def end_conformance(p, path):
    try:
        p.wait(timeout=400)
        return json.load(open(path))
    except (subprocess.TimeoutExpired, ValueError):
        p.kill()
        return None
    finally:
        os.remove(path)


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "0")) % (2**31)
    except ValueError:
        seed = 0
    t0 = time.time()
    from .bounded import Bounded

    n_cases = CASES[prop][tier == "thorough"]
    conc = Bounded(prop, seed, n_cases, deadline_s=75.0 if tier == "quick" else 500.0)

    conformance = start_conformance(seed) if tier == "thorough" else None
    proof = None
    if importlib.util.find_spec("vf.tasks." + prop.lower()) is not None:
        from .proof import run_task

        proof = run_task(prop, tier, refuted=lambda: conc.fail)
    conc.join()
    if conc.error and not conc.fail:
        print(f"error: concrete check of {prop} could not run: {conc.error}", file=sys.stderr)
        return 3

    if conformance:
        conformance = end_conformance(*conformance)
        if conformance and conformance["mismatches"]:
            print("error: the verifier disagrees with Python on " + "; ".join(conformance["mismatches"]), file=sys.stderr)
            return 3

    failed = list(proof.failed) if proof else []
    # a failed obligation, or code outside the verifier's reach: look harder for a concrete input
    if proof and (failed or proof.outside()) and not conc.fail:
        more = Bounded(prop, seed + 1, n_cases * 4, workers=6, first=n_cases, deadline_s=150.0 if tier == "quick" else 300.0).join()
        conc.done += more.done
        conc.known.update(more.known)
        if more.fail:
            conc.fail, conc.seed = more.fail, more.seed

    violations = []
    replay = os.path.join(HERE, "evidence", f"replay-{prop}.json")
    line = None
    if conc.fail:
        rec = dict(
            property=prop, kind="concrete", seed=conc.seed, case=conc.fail["case"], message=conc.fail["message"],
            replay_cmd=f"cd {HERE} && PYTHONPATH={HERE} /opt/venv/bin/python -W ignore -m vf.rt.worker --replay {replay}",
            failed_obligations=failed,
        )
        json.dump(rec, open(replay, "w"), indent=1)
        violations.append(conc.fail["message"].splitlines()[0])
        line = f"VIOLATION property={prop} replay={replay}"
    elif failed:
        rec = dict(property=prop, kind="obligation", failed_obligations=failed)
        json.dump(rec, open(replay, "w"), indent=1)
        violations += [f["name"] for f in failed]
        line = f"VIOLATION property={prop} replay={replay} no-failing-input-found"
    elif os.path.exists(replay):
        os.remove(replay)

    ev = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level="other",
        coverage=dict(explanation="bounded: concrete cases executed on the real code", evaluations=conc.done),
        assumptions=[],
        wall_s=round(time.time() - t0, 2),
        violations=len(violations),
    )
    if conc.known:
        ev["known_findings"] = [f"{name}: {text}" for name, text in sorted(conc.known.items())]
    if proof:
        proof.fill(ev, conc)
        if conformance:
            ev["coverage"]["verifier_conformance"] = dict(
                functions=conformance["cases"], inputs=conformance["inputs"], outside_reach=len(conformance["outside"]),
                mismatches=0, seconds=conformance["seconds"],
            )
    json.dump(ev, open(evidence_path(prop), "w"), indent=1)
    print(f"{prop} tier={tier} seed={seed} concrete cases={conc.done} wall={time.time() - t0:.1f}s" + (" " + proof.summary() if proof else ""))
    for f in failed[:8]:
        print(f"  failed obligation: {f['name']}: {f['detail'][:300]}")
    if conc.fail:
        print("  concrete failure: " + conc.fail["message"][:1500])
    for name, text in sorted(conc.known.items()):
        print(f"KNOWN-FINDING: property={prop} {name}: {text}")
    if line:
        print(line)
        return 1
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main(sys.argv[1:]))
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(4)
