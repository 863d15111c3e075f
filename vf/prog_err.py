"""A user's program for the error handling checks: python -m vf.prog_err SPEC.json"""
import sys, json, os, time
spec = json.load(open(sys.argv.pop(1)))
from mpi4py import MPI
comm = MPI.COMM_WORLD
rank = comm.Get_rank()


def mark(what):
    with open(os.path.join(spec["dir"], "%s.%d" % (what, rank)), "w") as f:
        f.write("x")


if spec["kind"] == "errchk":
    from virgo.mpi.errchk import mpi_errchk

    @mpi_errchk
    def main(a, b=2, *, c=3):
        for it in range(spec["iters"]):
            if rank in spec["ranks"] and it == spec["at"]:
                time.sleep(spec["delay"])
                exc = {"ValueError": ValueError, "KeyError": KeyError, "KeyboardInterrupt": KeyboardInterrupt, "RuntimeError": RuntimeError,
                       "OSError": OSError, "MemoryError": MemoryError, "ZeroDivisionError": ZeroDivisionError, "AssertionError": AssertionError}[spec["exc"]]
                raise exc("deliberate failure é %s {0}")
            if spec["wait"] == "barrier":
                comm.Barrier()
            elif spec["wait"] == "recv":
                comm.sendrecv(it, dest=(rank + 1) % comm.size, source=(rank - 1) % comm.size)
            elif spec["wait"] == "allreduce":
                comm.allreduce(it)
        return (a, b, c)
    out = main(1, c=5)
    mark("returned")
    if out != (1, 2, 5):
        mark("wrong")
elif spec["kind"] == "refused":
    import numpy as np
    import virgo.mpi.parallel_sort as psort
    bad = rank in spec["ranks"]
    what = spec["call"]
    one = np.arange(6) + 6 * rank
    two = one.reshape((3, 2))
    if what == "sort-2d":
        psort.parallel_sort(two if bad else one, comm=comm)
    elif what == "sort-endian":
        psort.parallel_sort(one.astype(">i8" if bad else "<i8"), comm=comm)
    elif what == "match-2d":
        psort.parallel_match(two if bad else one, one, comm=comm)
    elif what == "match-2d-second":
        psort.parallel_match(one, two if bad else one, comm=comm)
    elif what == "unique-2d":
        psort.parallel_unique(two if bad else one, comm=comm)
    elif what == "repart-total":
        want = np.full(comm.size, 6)
        want[spec["ranks"]] += 1
        psort.repartition(one, want, comm=comm)
        bad = bool(spec["ranks"])
    else:
        arr = np.zeros((6, 3))
        index = np.arange(4)
        new = np.ones((4, 3))
        if bad and what == "reduce-index-2d":
            index = index.reshape((2, 2))
        elif bad and what == "reduce-count":
            new = new[:3]
        elif bad and what == "reduce-shape":
            new = new[:, :2]
        psort.reduce_elements(arr, new, index, MPI.SUM, comm=comm)
    mark("returned")
else:
    from virgo.mpi.util import MPIArgumentParser
    p = MPIArgumentParser(comm, description="test")
    p.add_argument("infile")
    p.add_argument("nr", type=int)
    p.add_argument("--flag", action="store_true")
    p.add_argument("--x", type=float, default=1.5)
    p.add_argument("--list", nargs="*", type=int)
    p.add_argument("--choice", choices=("a", "b"))
    args = spec["argv"] if rank == 0 else spec["argv_others"]
    if spec["how"] == "sys":
        sys.argv = ["prog"] + args
        ns = p.parse_args()
    else:
        ns = p.parse_args(args)
    with open(os.path.join(spec["dir"], "args.%d" % rank), "w") as f:
        json.dump(vars(ns), f)
