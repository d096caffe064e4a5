"""Bounded contract checking of the real code (runs under the repository's own interpreter).

A clause is a contract on public functions of /repo, evaluated on enumerated and seeded random
inputs.  It is the replay oracle for the proofs and the labelled bounded stand-in where a
function is outside the verifier's reach.  Every failure carries the concrete input.
"""
import contextlib, json, math, os, random, signal, sys, time, traceback
import numpy as np


class Violation(Exception):
    pass


class CaseTimeout(BaseException):
    pass


class Done(Exception):
    """enough failures / time used up"""


CLAUSES = []


def clause(name, budget=25, targets=()):
    def deco(fn):
        CLAUSES.append((name, budget, fn, list(targets)))
        return fn
    return deco


def _alarm(_s, _f):
    raise CaseTimeout()


class T:
    def __init__(self, prop, name, seed, tier, budget):
        self.prop, self.name, self.seed, self.tier = prop, name, seed, tier
        import zlib
        mix = zlib.crc32(f"{prop}/{name}".encode()) ^ (seed * 2654435761 & 0xFFFFFFFF)
        self.rng = random.Random(mix)
        self.np_rng = np.random.RandomState(mix % (2 ** 32))
        self.thorough = tier == "thorough"
        self.deadline = time.time() + budget * (8 if self.thorough else 1)
        self.evaluations = 0
        self.keys = set()
        self.nontrivial = set()
        self.samples = []
        self.failures = []
        self.truncated = False
        self.current = None

    def n(self, quick, thorough=None):
        return (thorough if thorough is not None else quick * 8) if self.thorough else quick

    def more(self):
        """time left?"""
        if time.time() > self.deadline:
            self.truncated = True
            return False
        return True

    @contextlib.contextmanager
    def case(self, key, trivial=False, limit=60):
        if time.time() > self.deadline:
            self.truncated = True
            raise Done()
        key = str(key)
        self.evaluations += 1
        self.keys.add(key)
        if not trivial:
            self.nontrivial.add(key)
        if len(self.samples) < 3 or (len(self.samples) < 6 and self.evaluations % 17 == 0):
            self.samples.append(f"{self.name}: {key}"[:400])
        self.current = key
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(limit)
        try:
            yield self
        except Done:
            raise
        except CaseTimeout:
            self._fail(key, f"no result within {limit} s")
        except Violation as v:
            self._fail(key, str(v))
        except (KeyboardInterrupt, SystemExit, MemoryError):
            raise
        except BaseException as e:
            self._fail(key, f"unexpected {type(e).__name__}: {e}", traceback.format_exc()[-3000:])
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
        if len({f['key'] for f in self.failures}) >= 4:
            raise Done()

    def _fail(self, key, msg, tb=None):
        self.failures.append(dict(property=self.prop, clause=self.name, key=key[:4000], message=msg[:4000], traceback=tb))

    # ---- assertions
    def ok(self, cond, msg):
        try:
            c = bool(cond)
        except Exception as e:
            raise Violation(f"{msg}: condition is not a truth value ({type(e).__name__})")
        if not c:
            raise Violation(msg)

    def eq(self, got, want, msg):
        r = got == want
        try:
            r = bool(r)
        except Exception:
            r = bool(np.all(r))
        if not r:
            raise Violation(f"{msg}: got {short(got)}, expected {short(want)}")

    def close(self, got, want, msg, tol=1e-8):
        g, w = np.asarray(got, dtype=complex), np.asarray(want, dtype=complex)
        if g.shape != w.shape:
            raise Violation(f"{msg}: shape {g.shape}, expected {w.shape}")
        d = np.abs(g - w)
        if d.size and not (np.nanmax(d) <= tol * (1 + np.max(np.abs(w))) and not np.isnan(d).any()):
            raise Violation(f"{msg}: got {short(got)}, expected {short(want)}")

    def raises(self, exc, f, msg):
        try:
            r = f()
        except exc:
            return
        except CaseTimeout:
            raise
        except Exception as e:
            names = getattr(exc, "__name__", str(exc))
            raise Violation(f"{msg}: raised {type(e).__name__}({e}) instead of {names}")
        raise Violation(f"{msg}: no exception, returned {short(r)}")


def short(x, n=700):
    try:
        s = repr(x)
    except Exception:
        s = f"<{type(x).__name__}>"
    return s if len(s) <= n else s[:n] + "..."


def run_property(prop, seed, tier, out, only=None, jobs=8):
    """fork one process per clause"""
    import importlib, tempfile, shutil, resource
    importlib.import_module(prop)
    scratch = tempfile.mkdtemp(prefix=f"vp_native_{prop}_")
    results = {}
    pend = [i for i, c in enumerate(CLAUSES) if only is None or only in c[0]]
    running = {}
    try:
        while pend or running:
            while pend and len(running) < jobs:
                i = pend.pop(0)
                path = os.path.join(scratch, f"{i}.json")
                d = os.path.join(scratch, f"d{i}")
                os.mkdir(d)
                pid = os.fork()
                if pid == 0:
                    try:
                        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
                        os.chdir(d)
                        r = run_clause(prop, i, seed, tier)
                        with open(path + ".tmp", "w") as f:
                            json.dump(r, f, default=str)
                        os.rename(path + ".tmp", path)
                        os._exit(0)
                    except BaseException:
                        traceback.print_exc()
                        os._exit(3)
                running[pid] = (i, path, time.time())
            pid, st = os.waitpid(-1, os.WNOHANG)
            if pid in running:
                i, path, _t = running.pop(pid)
                if os.path.exists(path):
                    with open(path) as f:
                        results[i] = json.load(f)
                else:
                    results[i] = dict(name=CLAUSES[i][0], error=f"worker ended with status {st}", evaluations=0,
                                      distinct=0, nontrivial=0, samples=[], failures=[], wall_s=0)
            else:
                time.sleep(0.02)
                for p, (i, path, t0) in list(running.items()):
                    if time.time() - t0 > (CLAUSES[i][1] + 70) * (8 if tier == "thorough" else 1) + 60:
                        os.kill(p, signal.SIGKILL)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    res = [results[i] for i in sorted(results)]
    with open(out, "w") as f:
        json.dump(res, f, default=str)
    return res


def run_clause(prop, i, seed, tier):
    name, budget, fn, targets = CLAUSES[i]
    t = T(prop, name, seed, tier, budget)
    t0 = time.time()
    err = None
    try:
        fn(t)
    except Done:
        pass
    except BaseException as e:
        err = f"harness error: {type(e).__name__}: {e}\n{traceback.format_exc()[-2500:]}"
    return dict(name=name, targets=targets, error=err, evaluations=t.evaluations, distinct=len(t.keys),
                nontrivial=len(t.nontrivial), samples=t.samples, failures=t.failures, truncated=t.truncated,
                wall_s=round(time.time() - t0, 2))
