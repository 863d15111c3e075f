"""Runs a program under MPI whose hashing is slow and which may be killed at the K-th file: python -m vf.prog_hash SPEC.json ARGS..."""
import sys, os, json, time, signal, runpy, hashlib
spec = json.load(open(sys.argv[1]))
from mpi4py import MPI
rank = MPI.COMM_WORLD.Get_rank()
real = hashlib.new
count = [0]


def new(*a, **kw):
    count[0] += 1
    if rank == spec["rank"] and count[0] == spec["at"]:
        if spec["how"] == "kill":
            os.kill(os.getpid(), signal.SIGKILL)
        raise RuntimeError("deliberate failure")
    if spec["delay"]:
        time.sleep(spec["delay"] * ((count[0] * 7 + rank * 3) % 5))
    return real(*a, **kw)


hashlib.new = new
sys.argv = [spec["script"]] + sys.argv[2:]
runpy.run_path(spec["script"], run_name="__main__")
