from vf.checks import check
from vf.core import run_many

NPS = [1, 2, 3, 5, 8]


def mpi(ctx, module, quick, thorough, nps=NPS, budget=(25, 240), opts=None, extra=()):
    n = ctx.pick(quick, thorough)
    jobs = [(module, p, n, ctx.pick(*budget), dict(opts or {})) for p in nps]
    if not ctx.quick():
        jobs += [(module, p, n, ctx.pick(*budget), dict(opts or {})) for p in (4, 6, 7)]
        # rendezvous protocol for every message: a blocking send completes only when it is received
        jobs += [(module, 4, n // 2, ctx.pick(*budget), dict(opts or {}, variant="rndv", env={"OMPI_MCA_btl_vader_eager_limit": "128"}))]
    jobs += list(extra)
    run_many(ctx, jobs)


@check("M01", "random distributed arrays (type, size per rank, value distribution, communicator layout) sorted by 1-8 ranks; "
       "non-trivial: at least two elements in total", **{"evaluations": 100, "empty-rank": 10})
def m01(ctx):
    mpi(ctx, "vf.w_sort", 90, 900)


@check("M02", "random distributed arrays and requests fetched by 1-8 ranks; non-trivial: at least one element asked for",
       evaluations=100)
def m02(ctx):
    mpi(ctx, "vf.w_fetch", 90, 900)


@check("M03", "random distributed arrays repartitioned by 1-8 ranks; non-trivial: at least one element", evaluations=100)
def m03(ctx):
    mpi(ctx, "vf.w_repart", 90, 900)


@check("M04", "random pairs of distributed arrays matched by 1-8 ranks; non-trivial: neither array is empty", evaluations=100)
def m04(ctx):
    mpi(ctx, "vf.w_match", 150, 1200)


@check("M05", "random distributed arrays reduced to their unique values by 1-8 ranks; non-trivial: at least two elements", evaluations=100)
def m05(ctx):
    mpi(ctx, "vf.w_unique", 150, 1200)


@check("M06", "random distributed updates and histograms by 1-8 ranks; non-trivial: at least one update", evaluations=100, reduce=30, bincount=30)
def m06(ctx):
    mpi(ctx, "vf.w_reduce", 150, 1200)


@check("M07", "random block exchanges (counts, offsets, gaps, types, both methods) and pairwise exchanges on 1-8 ranks, some over "
       "the 100 MB message limit; non-trivial: at least one element sent", **{"evaluations": 100, "over-100MB": 1, "sendrecv": 20, "method:async": 20})
def m07(ctx):
    mpi(ctx, "vf.w_exchange", 150, 1000)


@check("M08", "random arrays (1-3 dimensions, memory layouts, types) gathered on 1-8 ranks; non-trivial: at least one element", evaluations=100)
def m08(ctx):
    mpi(ctx, "vf.w_gather", 200, 1500)


@check("M09", "random group catalogues and particle distributions over 1-8 ranks; non-trivial: at least one group and particle", evaluations=100)
def m09(ctx):
    mpi(ctx, "vf.w_groupindex", 200, 1500)


@check("M10", "random particle-to-halo assignments matched on 1-8 ranks; non-trivial: particles in both snapshots", evaluations=100, match=30, consistent=20)
def m10(ctx):
    mpi(ctx, "vf.w_halos", 150, 1000)


@check("H01", "random datasets (type, shape, storage, size, buffer size) read collectively by 1-8 ranks; non-trivial: not empty",
       **{"evaluations": 100, "chunked-read": 30, "over-100MB": 1})
def h01(ctx):
    mpi(ctx, "vf.w_cread", 120, 800, nps=[1, 2, 3, 4, 7])


@check("H02", "random distributed arrays written collectively by 1-8 ranks and read back with serial h5py; non-trivial: not empty",
       **{"evaluations": 100, "over-100MB": 1})
def h02(ctx):
    mpi(ctx, "vf.w_cwrite", 100, 700, nps=[1, 2, 3, 4, 7])


@check("H03", "random sets of HDF5 files read by 1-8 ranks (fewer, as many and more files than ranks; missing datasets and groups); "
       "non-trivial: at least one element", **{"evaluations": 100, "files<ranks": 20, "files>ranks": 20, "missing-datasets": 20})
def h03(ctx):
    mpi(ctx, "vf.w_mfread", 60, 500, nps=[1, 2, 3, 4, 7])


@check("H04", "random sets of HDF5 files whose file numbers, attributes, counts and type disagreements are asked for by 1-8 ranks",
       **{"evaluations": 100, "type-clash": 5, "ask:nr": 10, "ask:attrs": 10, "ask:count": 10})
def h04(ctx):
    mpi(ctx, "vf.w_mfmeta", 60, 500, nps=[1, 2, 3, 4, 7])


@check("H05", "random sets of HDF5 files read and written back by 1-8 ranks; non-trivial: at least one element",
       **{"evaluations": 100, "files<ranks": 20, "files>ranks": 20, "mode:r+": 20})
def h05(ctx):
    mpi(ctx, "vf.w_mfwrite", 50, 400, nps=[1, 2, 3, 4, 7])


@check("M12", "programs on 1-6 ranks: an exception of random type on random ranks at a random point while the others wait in MPI calls, and "
       "random command lines, and calls of the array routines with invalid arguments on random ranks; all distinct programs count as non-trivial", evaluations=30, errchk=14, args=10, refused=4)
def m12(ctx):
    from vf import w_errors
    w_errors.run_all(ctx, ctx.pick(60, 300))


@check("M13", "random presence of an array over 1-8 ranks; every case counts", evaluations=100)
def m13(ctx):
    mpi(ctx, "vf.w_none", 150, 600)


ALL_MPI = ["vf.w_sort", "vf.w_fetch", "vf.w_repart", "vf.w_match", "vf.w_unique", "vf.w_reduce", "vf.w_exchange", "vf.w_gather",
           "vf.w_groupindex", "vf.w_halos", "vf.w_none", "vf.w_cread", "vf.w_cwrite", "vf.w_mfread", "vf.w_mfwrite", "vf.w_mfmeta"]


@check("M11", "every distributed routine under sub-communicators with other rank orders, disjoint groups working at once, injected delays before MPI "
       "calls and the rendezvous protocol; each case's event log (collective calls per communicator and rank, messages, resources) is "
       "checked; non-trivial as in the routine's own check", evaluations=200, delays=200, **{"layout:groups2": 20, "layout:reversed": 20})
def m11(ctx):
    jobs = []
    lay = ["reversed", "shuffled", "groups2", "groups3", "subset"]
    for m in ALL_MPI:
        k = ctx.pick(14, 150)
        for p, env in ((4, {}), (7, {}), (5, {"OMPI_MCA_btl_vader_eager_limit": "128"})):
            layouts = lay if not m[5:].startswith("mf") and not m.startswith("vf.w_c") else ["reversed", "groups2", "groups3", "subset"]
            jobs.append((m, p, k, ctx.pick(20, 200), dict(variant="protocol%d" % len(env), layouts=layouts, delay_fraction=.6, protocol=True, env=env)))
    run_many(ctx, jobs, 14)


@check("K01", "random directory trees (empty files, several blocks, links, odd names) hashed with random options on 1-6 ranks, with delays; the program is also killed at random "
       "points and resumed; every case counts", **{"evaluations": 100, "several-blocks": 1, "dirfile": 20, "attrs": 20, "include": 20, "exclude": 20, "db:resume": 20, "broken-links": 10, "job:kill": 3, "resumed": 2})
def k01(ctx):
    mpi(ctx, "vf.w_hash", 80, 700, nps=[1, 2, 3, 4, 6], opts=dict(delay_fraction=.4))
    from vf import w_hash
    w_hash.run_jobs(ctx, ctx.pick(24, 200))
