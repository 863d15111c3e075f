"""
Runs inside mpirun: drives one workload module through a sequence of cases.

    python -m vf.mpiworker JOB.json

A workload module provides

    gen(rng, nranks, tier, index) -> spec   (dict; identical on every rank of the communicator)
    run(comm, spec, rank)  -> result        (the code under test is called here)
    check(spec, results)   -> None or text  (the oracle, over the results of all ranks)
    features(spec)         -> iterable of short strings (for the evidence)

Each case runs the workload over one or more communicators at once: the whole
world, the world with its ranks in another order, or two or three disjoint
groups which run different data concurrently.
"""
import sys, os, json, time, traceback, importlib, ctypes, hashlib, pickle
import numpy as np


class Monitor:
    NAMES = ["max_msg", "p2p_send", "p2p_recv", "bytes_send", "bytes_recv", "comms_made", "comms_freed",
             "types_made", "types_freed", "collectives", "delays", "requests"]

    def __init__(self, path):
        self.lib = ctypes.CDLL(path)
        self.lib.vmon_start.argtypes = [ctypes.c_uint64, ctypes.c_uint, ctypes.c_uint]
        self.lib.vmon_event.argtypes = [ctypes.c_long] + [ctypes.c_void_p] * 4
        self.lib.vmon_nevents.restype = ctypes.c_long
        self.lib.vmon_live.restype = ctypes.c_long

    def tag(self, comm):
        self.lib.vmon_tag(ctypes.c_int(comm.py2f()))

    def id(self, comm):
        return self.lib.vmon_id(ctypes.c_int(comm.py2f()))

    def start(self, seed, us, prob):
        self.lib.vmon_start(seed, us, prob)

    def stop(self):
        self.lib.vmon_stop()
        c = (ctypes.c_longlong * 12)()
        self.lib.vmon_counters(c)
        out = dict(zip(self.NAMES, [int(x) for x in c]))
        a, b, r, l = ctypes.c_int(), ctypes.c_int(), ctypes.c_int(), ctypes.c_long()
        evs = []
        for i in range(self.lib.vmon_nevents()):
            self.lib.vmon_event(i, ctypes.byref(a), ctypes.byref(b), ctypes.byref(r), ctypes.byref(l))
            evs.append((a.value, b.value, r.value, l.value))
        return out, evs, bool(self.lib.vmon_overflow())


def subrng(seed, *key):
    h = hashlib.sha256(repr((seed,) + key).encode()).digest()
    return np.random.default_rng(np.frombuffer(h[:16], dtype=np.uint32))


LAYOUTS = ["none", "world", "reversed", "shuffled", "groups2", "groups3", "subset"]


def layout_for(rng, size, allowed):
    name = allowed[int(rng.integers(len(allowed)))]
    colours = [0] * size
    keys = list(range(size))
    if name == "reversed":
        keys = keys[::-1]
    elif name == "shuffled":
        keys = [int(x) for x in rng.permutation(size)]
    elif name in ("groups2", "groups3"):
        k = min(size, int(name[-1]))
        colours = [int(x) for x in rng.integers(k, size=size)]
        keys = [int(x) for x in rng.permutation(size)]
    elif name == "subset":
        nin = int(rng.integers(1, size + 1))
        members = set(int(x) for x in rng.permutation(size)[:nin])
        colours = [0 if r in members else -1 for r in range(size)]
    return name, colours, keys


def members_of(colours, keys, c):
    m = [r for r in range(len(colours)) if colours[r] == c]
    return sorted(m, key=lambda r: (keys[r], r))


def main():
    job = json.load(open(sys.argv[1]))
    import faulthandler
    faulthandler.enable(file=sys.__stderr__)
    from mpi4py import MPI
    world = MPI.COMM_WORLD
    rank, size = world.Get_rank(), world.Get_size()
    harness = world.Dup()
    mon = Monitor(job["shim"])
    log = open(os.path.join(job["logdir"], "rank%d.jsonl" % rank), "a", buffering=1)

    def emit(kind, **kw):
        kw["kind"] = kind
        kw["t"] = time.time()
        log.write(json.dumps(kw, default=str) + "\n")
        log.flush()

    mod = importlib.import_module(job["module"])
    tier, seed = job["tier"], job["seed"]
    opts = job.get("opts", {})
    scratch = job["scratch"]
    allowed = opts.get("layouts") or getattr(mod, "LAYOUTS", LAYOUTS)
    monitor_protocol = getattr(mod, "LEAKS", True)

    t_start = time.time()
    nviol = 0
    index = job["first"]
    while index < job["first"] + job["ncases"]:
        go = harness.bcast((time.time() - t_start < job["budget"] and nviol < job.get("max_viol", 3)) if rank == 0 else None)
        if not go:
            break
        rng = subrng(seed, job["module"], opts.get("variant", ""), size, index)
        lname, colours, keys = layout_for(rng, size, allowed)
        delay_on = rng.random() < opts.get("delay_fraction", 0.15)
        cols = sorted(set(c for c in colours if c >= 0))
        specs = {}
        for c in cols:
            if rank == 0 or colours[rank] == c:
                m = members_of(colours, keys, c)
                specs[c] = mod.gen(subrng(seed, job["module"], opts.get("variant", ""), size, index, c), len(m), tier, index)
                specs[c]["_drop"] = bool(subrng(seed, "drop", index, c).random() < .5)
                specs[c]["_scratch"] = os.path.join(scratch, "c%d_%d" % (index, c))
        live = mon.lib.vmon_live()
        if lname == "none":
            comm = None
        else:
            comm = world.Split(colours[rank] if colours[rank] >= 0 else MPI.UNDEFINED, keys[rank])
        mine = colours[rank] >= 0
        commid = 0 if comm is None else (mon.id(comm) if mine else None)
        emit("start", index=index, layout=lname)
        prep = getattr(mod, "prepare", None)
        if prep is not None:
            if mine and members_of(colours, keys, colours[rank])[0] == rank:
                try:
                    prep(specs[colours[rank]])
                except Exception:
                    emit("harness_error", index=index, error=traceback.format_exc()[-2000:])
                    log.flush()
                    MPI.COMM_WORLD.Abort(76)
            harness.Barrier()
        result = None
        if mine:
            spec = specs[colours[rank]]
            myrank = members_of(colours, keys, colours[rank]).index(rank)
            mon.start((seed * 1000003 + index * 131 + rank) & (2**63 - 1), 1500 if delay_on else 0, 20)
            try:
                result = ("ok", mod.run(comm, spec, myrank))
            except mod_expected(mod) as e:
                result = ("raised", type(e).__name__, str(e)[:300])
            except BaseException as e:
                mon.stop()
                emit("exception", index=index, error="%s: %s" % (type(e).__name__, str(e)[:500]),
                     where=innermost(e), trace=traceback.format_exc()[-3000:],
                     features=sorted(mod.features(spec)), layout=lname)
                log.flush()
                time.sleep(0.5)     # let the other ranks' records reach their files first
                MPI.COMM_WORLD.Abort(77)
            counters, events, overflow = mon.stop()
        else:
            counters, events, overflow = {}, [], False
        emit("ran", index=index)
        # release the communicator: mpi4py frees what it keeps on it (its private duplicate), so whatever is
        # still there afterwards was left behind by the code under test
        if comm is not None and mine:
            comm.Free()
        counters["comms_left"] = mon.lib.vmon_live() - live if comm is not None else 0
        # what happened on every rank, to the oracle on rank 0
        proto = None
        if mine:
            coll = {}
            order = []
            for cid, op, root, arg in events:
                if op < 21 and not (cid == -1):
                    coll.setdefault(cid, []).append((op, root, arg))
                order.append(cid)
            foreign = sum(1 for cid, op, root, arg in events if cid == 0 and commid != 0)
            proto = (counters, coll, foreign, overflow, myrank)
        gathered = harness.gather((colours[rank], result, proto), root=0)
        verdict = None
        if rank == 0:
            for c in cols:
                m = members_of(colours, keys, c)
                results = [gathered[r][1] for r in m]
                protos = [gathered[r][2] for r in m]
                try:
                    text = mod.check(specs[c], results)
                except Exception as e:
                    text = "what the call returned cannot be interpreted: %s: %s" % (type(e).__name__, str(e)[:300])
                    emit("oracle_error", index=index, error=traceback.format_exc()[-2000:])
                if opts.get("protocol"):
                    # this job judges the protocol only; results are the business of the other checks
                    text = check_protocol(protos, lname != "none", monitor_protocol)
                feats = sorted(mod.features(specs[c]))
                tot = {}
                for p in protos:
                    for k, v in p[0].items():
                        tot[k] = max(tot.get(k, 0), v) if k == "max_msg" else tot.get(k, 0) + v
                sig = hashlib.sha256(repr([(sorted(p[1].items())) for p in protos]).encode()).hexdigest()[:12]
                emit("case", index=index, colour=c, layout=lname, nranks=len(m), features=feats, verdict=text,
                     counters=tot, delayed=bool(delay_on), trace_sig=sig,
                     describe=mod.describe(specs[c]) if index < job["first"] + 2 or text else None)
                if text:
                    verdict = text
                    nviol += 1
        post = getattr(mod, "cleanup", None)
        harness.Barrier()
        if post is not None and mine and members_of(colours, keys, colours[rank])[0] == rank:
            post(specs[colours[rank]])
        index += 1
    emit("done", next=index)
    harness.Barrier()
    log.close()


def mod_expected(mod):
    return getattr(mod, "EXPECTED", ())


def innermost(e):
    tb = traceback.extract_tb(e.__traceback__)
    for fr in reversed(tb):
        if "/virgo/" in fr.filename:
            return "%s:%s" % (os.path.basename(fr.filename), fr.name)
    return "harness" if tb and "/vf/" in tb[-1].filename else "?"


def check_protocol(protos, commid_ok, leaks):
    """Every member of a communicator made the same collective calls in the same order."""
    if any(p[3] for p in protos):
        return None
    ids = set()
    for p in protos:
        ids |= set(p[1])
    if commid_ok:
        n = sum(p[2] for p in protos)
        if n:
            return "%d MPI calls used MPI_COMM_WORLD although another communicator was passed" % n
    for cid in ids:
        if cid == 1:
            continue
        seqs = [p[1].get(cid) for p in protos if cid in p[1]]
        for s in seqs[1:]:
            if s != seqs[0]:
                k = next((i for i, (a, b) in enumerate(zip(s, seqs[0])) if a != b), min(len(s), len(seqs[0])))
                return ("collective calls differ between ranks of communicator %d at call %d: %s / %s"
                        % (cid, k, seqs[0][k:k + 1], s[k:k + 1]))
    if leaks:
        for i, p in enumerate(protos):
            if p[0]["comms_left"] > 0:
                return "communicators made but not released: %d on rank %d" % (p[0]["comms_left"], i)
            if p[0]["types_made"] > p[0]["types_freed"]:
                return "MPI datatypes made but not released: %d of %d on rank %d" % (p[0]["types_made"] - p[0]["types_freed"], p[0]["types_made"], i)
    snd = sum(p[0]["p2p_send"] for p in protos)
    rcv = sum(p[0]["p2p_recv"] for p in protos)
    if snd != rcv:
        return "%d messages sent but %d received" % (snd, rcv)
    for p in protos:
        if p[0]["max_msg"] >= 2**31:
            return "message of %d bytes (2 GB or more)" % p[0]["max_msg"]
    return None


if __name__ == "__main__":
    main()
