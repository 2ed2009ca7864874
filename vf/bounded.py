"""Drives the concrete (bounded) cases in worker processes."""
import json
import os
import signal
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
CASE_TIMEOUT = 150.0
CRASHES = (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGILL, signal.SIGBUS)


def env():
    e = dict(os.environ)
    e.update(
        JAX_PLATFORMS="cpu",
        PYTHONDONTWRITEBYTECODE="1",
        MPLBACKEND="Agg",
        PYTHONPATH=HERE,
        XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
    )
    return e


class Bounded:
    """Starts the workers at once; `join` waits for them."""

    def __init__(self, prop, seed, cases, workers=4, first=0, deadline_s=600.0):
        self.prop, self.seed = prop, seed
        self.t0 = time.time()
        self.done, self.fail, self.error = 0, None, None
        self.known = {}
        self.lock = threading.Lock()
        self.procs, self.threads = [], []
        for w in range(min(workers, max(1, cases))):
            p = subprocess.Popen(
                [PY, "-W", "ignore", "-m", "vf.rt.worker", prop, str(seed), str(first + w), str(first + cases), str(workers), str(deadline_s)],
                stdout=subprocess.PIPE,
                stderr=subprocess.PIPE,
                text=True,
                env=env(),
                cwd=HERE,
            )
            st = dict(k=None, t=time.time(), done=False, ended=False)
            self.procs.append((p, st))
            t = threading.Thread(target=self._read, args=(p, st), daemon=True)
            t.start()
            self.threads.append(t)

    def _read(self, p, st):
        errs = []
        te = threading.Thread(target=lambda: errs.append(p.stderr.read()), daemon=True)
        te.start()
        for line in p.stdout:
            try:
                ev = json.loads(line)
            except ValueError:
                continue
            with self.lock:
                if ev["ev"] == "start":
                    if st["k"] is not None:
                        self.done += 1
                    st["k"], st["t"] = ev["k"], time.time()
                elif ev["ev"] == "fail":
                    st["ended"] = True
                    if self.fail is None or ev["k"] < self.fail["case"]:
                        self.fail = dict(case=ev["k"], message=ev["msg"])
                elif ev["ev"] == "known":
                    self.known[ev["name"]] = ev["text"]
                elif ev["ev"] == "end":
                    st["ended"] = True
                    if st["k"] is not None:
                        self.done += 1
        te.join(timeout=5)
        rc = p.wait()
        if not st["ended"] and not st.get("killed"):
            with self.lock:
                if st["k"] is not None and -rc in CRASHES:
                    self.fail = self.fail or dict(case=st["k"], message=f"the process died of signal {-rc}")
                self.error = self.error or f"worker exit {rc}: {(errs or [''])[0][-3000:]}"

    def join(self):
        while any(t.is_alive() for t in self.threads):
            time.sleep(0.05)
            with self.lock:
                failed = self.fail is not None
            for p, st in self.procs:
                if p.poll() is None and st["k"] is not None and not st["ended"] and time.time() - st["t"] > CASE_TIMEOUT:
                    st["killed"] = True
                    p.kill()
                    with self.lock:
                        self.fail = self.fail or dict(case=st["k"], message=f"the case did not finish within {CASE_TIMEOUT:.0f} s")
                elif failed and p.poll() is None:
                    st["killed"] = True
                    p.kill()
        self.wall = time.time() - self.t0
        return self
