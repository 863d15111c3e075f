"""
Runs the cases of a serial workload module in this process:  python -m vf.serialworker JOB.json

A module provides case(rng, tier, index, scratch, opts) which generates one
case, runs the code under test and judges it. It returns a Case.
"""
import sys, os, json, time, traceback, importlib, hashlib, shutil
import numpy as np


def subrng(seed, *key):
    h = hashlib.sha256(repr((seed,) + key).encode()).digest()
    return np.random.default_rng(np.frombuffer(h[:16], dtype=np.uint32))


class Bad(Exception):
    """The oracle's finding: the code broke the property."""

    def __init__(self, text, key=None):
        super().__init__(text)
        self.text, self.key = text, key


def expect(ok, text, key=None):
    if not ok:
        raise Bad(text() if callable(text) else text, key)


class Case:
    """Collects what a case was and saw, filled in by the module as it goes."""

    def __init__(self):
        self.features, self.describe, self.counts, self.softs = set(), {}, {}, {}
        self.started = False

    def go(self):
        """The case is made; from here on every error is the code's (or comes from what it returned)."""
        self.started = True

    def soft(self, key, text):
        """A violation after which the case goes on."""
        self.softs[key] = text

    def f(self, *names):
        self.features.update(names)

    def d(self, **kw):
        self.describe.update(kw)

    def n(self, name, k=1):
        self.counts[name] = self.counts.get(name, 0) + int(k)


def main():
    job = json.load(open(sys.argv[1]))
    import faulthandler
    faulthandler.enable()
    np.seterr(all="ignore")
    mod = importlib.import_module(job["module"])
    log = open(job["log"], "a", buffering=1)

    def emit(kind, **kw):
        kw["kind"] = kind
        log.write(json.dumps(kw, default=str) + "\n")
        log.flush()

    t0 = time.time()
    nviol = 0
    for n, index in enumerate(range(job["first"], job["end"], job["step"])):
        if time.time() - t0 > job["budget"] or nviol >= 4:
            break
        emit("start", index=index)
        rng = subrng(job["seed"], job["module"], job["opts"].get("variant", ""), index)
        sdir = os.path.join(job["scratch"], "case")
        os.makedirs(sdir)
        c = Case()
        verdict, key, trace = None, None, None
        cwd = os.getcwd()
        try:
            mod.case(c, rng, job["tier"], index, sdir, job["opts"])
        except Bad as e:
            verdict, key = e.text, e.key
        except MemoryError:
            emit("harness_error", error=traceback.format_exc()[-2000:])
            sys.exit(3)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            inside = any("/virgo/" in fr.filename for fr in tb)
            trace = traceback.format_exc()[-3000:]
            if (not inside and not c.started) or "No space left" in str(e):
                emit("harness_error", error=trace, index=index)
                sys.exit(3)
            where = [fr for fr in tb if "/virgo/" in fr.filename]
            verdict = "raised %s: %s (in %s)" % (type(e).__name__, str(e)[:300],
                                                 "%s:%s" % (os.path.basename(where[-1].filename), where[-1].name) if where else "?")
            key = "raised:" + type(e).__name__
        os.chdir(cwd)
        shutil.rmtree(sdir, ignore_errors=True)
        if verdict:
            nviol += 1
        emit("case", index=index, features=sorted(c.features), verdict=verdict, key=key, trace=trace, counts=c.counts, softs=c.softs,
             describe=c.describe if (n < 1 or verdict) else None)
    emit("done")


if __name__ == "__main__":
    from vf.serialworker import main      # so that Bad is the class which the workloads raise
    main()
