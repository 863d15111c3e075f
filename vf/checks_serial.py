from vf.checks import check
from vf.core import run_serial


def serial(ctx, module, quick, thorough, budget=(20, 400), nproc=8, **opts):
    run_serial(ctx, module, ctx.pick(quick, thorough), ctx.pick(*budget), opts, nproc=nproc)


@check("B01", "random binary files (blocks of random type, shape and byte order, gaps, records, groups, attributes) read through BinaryFile in "
       "random order with random indices; also truncated files, offsets beyond 4 GB and record markers which are wrong; "
       "non-trivial: some block has elements", **{"evaluations": 200, "mode:bounds": 20, "mode:far": 20, "records": 20})
def b01(ctx):
    serial(ctx, "vf.w_binary", 16000, 300000, variant="decode")


@check("B02", "random binary files written out with write_binary (each byte order) and write_hdf5 (with and without compression) and hashed; "
       "all distinct files count", **{"evaluations": 100, "records": 20})
def b02(ctx):
    serial(ctx, "vf.w_binary", 5000, 60000, variant="export")


@check("B03", "random sequences of 100-400 operations (open, read, close, drop, replace, change directory) on 1-120 files; "
       "every sequence counts", **{"evaluations": 50, "evicted": 5, "replaced": 20, "relative": 20})
def b03(ctx):
    serial(ctx, "vf.w_binary", 400, 5000, variant="cache")


@check("U01", "random pairs of arrays (all integer types alone and mixed, floats, strings, either byte order; sorted, with a given index or not) matched; "
       "non-trivial: neither is empty", **{"evaluations": 300, "kind:mixed": 50, "kind:swapped": 50, "how:index": 50})
def u01(ctx):
    serial(ctx, "vf.w_util", 8000, 100000, variant="match")


@check("U02", "random sets of ranges (none, one, many; empty ranges; filling the array or not; 1-3 dimensions) assigned and summed, and bad ranges; "
       "non-trivial: at least one range", **{"evaluations": 300, "zero-length-ranges": 50, "weighted": 50, "do:bad": 50})
def u02(ctx):
    serial(ctx, "vf.w_util", 15000, 200000, variant="ranges")


@check("U03", "Peano-Hilbert keys of random and of all cells, 1-21 bits per dimension, compared with Gadget's curve, with the C example (under UBSan) "
       "and with the geometry of the curve; every case counts", **{"evaluations": 200, "mode:whole": 10, "mode:cexample": 10, "mode:blocks": 10})
def u03(ctx):
    serial(ctx, "vf.w_util", 700, 6000, variant="peano")


@check("U04", "random format strings with fields given, None or absent, conversions, format specifications, attribute access, positional fields and "
       "escaped braces; every distinct string counts", **{"evaluations": 300, "left:conversion": 20, "left:access": 20, "left:spec": 20, "two-steps": 20})
def u04(ctx):
    serial(ctx, "vf.w_util", 12000, 150000, variant="formatter")


@check("U05", "random sets of HDF5 or binary files with datasets missing from some, read in random order along either axis; "
       "non-trivial: some dataset exists", **{"evaluations": 200, "binary": 50, "hdf5": 50, "missing-datasets": 50})
def u05(ctx):
    serial(ctx, "vf.w_util", 2500, 30000, variant="multi")


@check("G01", "random Gadget snapshots (particle numbers, mass table, 4 or 8 byte blocks, extra blocks, either byte order, blocks left out, HDF5), also with "
       "wrong record markers and cut short; non-trivial: some particles", **{"evaluations": 200, "bad-marker": 30, "extra": 50, "cut": 30, "hdf5": 10, "huge": 10})
def g01(ctx):
    serial(ctx, "vf.w_formats", 3000, 40000, variant="gadget")


@check("G02", "random L-Gadget2 group_tab, group_ids, sub_tab, sub_ids and snapshot files in either byte order; non-trivial: some rows",
       **{"evaluations": 200, "group_tab": 20, "group_ids": 20, "sub_tab": 20, "sub_ids": 20, "snapshot": 20, "endian:>": 50})
def g02(ctx):
    serial(ctx, "vf.w_formats", 3000, 40000, variant="lgadget2")


@check("G03", "random L-Gadget3 subhalo tables and ID lists of every combination of options, in either byte order; non-trivial: some rows",
       **{"evaluations": 200, "ids": 50, "tab": 50, "endian:>": 50})
def g03(ctx):
    serial(ctx, "vf.w_formats", 3000, 40000, variant="lgadget3")


@check("G04", "random P-Gadget3 files of every combination of options, in either byte order, and catalogues of 1-8 files; non-trivial: some rows",
       **{"evaluations": 200, "catalogue": 50, "sub_tab": 50, "several-files": 50, "endian:>": 50})
def g04(ctx):
    serial(ctx, "vf.w_formats", 3000, 40000, variant="pgadget3")


@check("G05", "random MPA tree, treeaux, sub_desc, Rockstar and Velociraptor files with every option; non-trivial: some rows",
       **{"evaluations": 200, "desc": 20, "aux": 20, "tree": 20, "rockstar": 20, "velociraptor": 20})
def g05(ctx):
    serial(ctx, "vf.w_formats", 2500, 30000, variant="trees")


@check("G06", "random Gadget-4 subhalo tables (either byte order, precision and ID size), also with wrong record markers, and catalogues of 1-8 files; "
       "non-trivial: some rows", **{"evaluations": 200, "catalogue": 50, "tab": 50, "bad-marker": 30, "several-files": 50})
def g06(ctx):
    serial(ctx, "vf.w_formats", 3000, 40000, variant="gadget4")


@check("G07", "random L-Gadget2 snapshots of 1-8 files with a hash table of 2-16 cells per dimension, from which random regions (periodic, aligned with "
       "cells or not) and sets of cells are read; non-trivial: some particles", **{"evaluations": 200, "cells": 50, "periodic": 50, "aligned": 50})
def g07(ctx):
    serial(ctx, "vf.w_formats", 2000, 20000, variant="regions")


@check("G08", "valid files of every format with a sanity check, and the same files with one thing wrong, or opened with one wrong parameter; every case counts",
       **{"evaluations": 300, "good": 100, "bad": 100, "l2snap": 20, "rockstar": 20})
def g08(ctx):
    serial(ctx, "vf.w_formats", 5000, 60000, variant="sanity")


@check("G09", "random group ordered snapshots (1-7 snapshot files, 1-5 catalogue files, 0-6 particle types, groups with and without subgroups), of which groups, "
       "subgroups and ranges are read; every case counts", **{"evaluations": 200, "gadget4": 50, "pgadget3": 50, "several-files": 50, "by-file": 20})
def g09(ctx):
    serial(ctx, "vf.w_formats", 1500, 20000, variant="ordered")


@check("S01", "files of every kind which the classes named after simulations read, opened with their defaults or with parameters given; non-trivial: some rows",
       **{"evaluations": 200, "parameters": 50, "mxxl.SubTab": 20, "mxxl.Field": 20, "mill.GroupIDs": 20})
def s01(ctx):
    serial(ctx, "vf.w_formats", 3000, 30000, variant="sims")


@check("D01", "random forests (chains, bushy trees, stars, single nodes; links which skip snapshots; ties; descendants outside the file) indexed; non-trivial: two nodes",
       **{"evaluations": 200, "shape:chain": 50, "shape:star": 50, "ties": 50})
def d01(ctx):
    serial(ctx, "vf.w_trees", 2500, 30000, variant="index")


@check("D02", "random tree files (1-5 files; numbers, vectors, strings) made into a table, which is decoded with the types of its own script; every case counts",
       **{"evaluations": 200, "several-files": 50, "bad-shape": 20})
def d02(ctx):
    serial(ctx, "vf.w_trees", 800, 10000, variant="table")


@check("E01", "random directories of Eagle outputs (several simulations, file types, snapshots and files) named in random order; every case counts",
       **{"evaluations": 100, "ambiguous": 20, "odd-name": 20})
def e01(ctx):
    serial(ctx, "vf.w_trees", 400, 4000, variant="eagle")


@check("W01", "random SWIFT and SOAP files (unit systems, exponents, factors which are no power of the base units, scale factors) read in SOAP units, with "
       "random indices; every case counts", **{"evaluations": 100, "datasets": 200})
def w01(ctx):
    serial(ctx, "vf.w_swift", 300, 4000, variant="soap")


@check("W02", "random SWIFT and SOAP files read in swiftsimio units, with random indices; every case counts", **{"evaluations": 100, "datasets": 100, "refused": 20})
def w02(ctx):
    serial(ctx, "vf.w_swift", 300, 4000, variant="swiftsimio")


def fortran(ctx, quick, thorough, variant):
    from vf import fdriver
    exe = fdriver.build(ctx)
    serial(ctx, "vf.w_fortran", quick, thorough, variant=variant, exe=exe)


@check("F01", "random histories of the Fortran wrapper (datasets of 5 types and 0-7 dimensions, array sections, compression, overwriting, files made by h5py in either "
       "byte order) under AddressSanitizer, UBSan and bounds checks; every history counts",
       **{"evaluations": 100, "reads": 200, "writes": 200, "overwrites": 30, "premade": 20, "rank:7": 20})
def f01(ctx):
    fortran(ctx, 600, 10000, "data")


@check("F02", "random histories of partial reads and writes and extensions through the Fortran wrapper, under sanitizers; every history counts",
       **{"evaluations": 100, "part_reads": 100, "part_writes": 100, "extensions": 30})
def f02(ctx):
    fortran(ctx, 600, 10000, "part")


@check("F03", "random histories of attributes through the Fortran wrapper, under sanitizers; every history counts",
       **{"evaluations": 100, "attribute_reads": 100, "attribute_writes": 100, "attribute_overwrites": 20})
def f03(ctx):
    fortran(ctx, 600, 10000, "attr")


@check("F04", "random histories of several open files, groups, listings, queries and calls which are errors through the Fortran wrapper, under sanitizers; "
       "every history counts", **{"evaluations": 100, "groups": 50, "listings": 50, "queries": 50, "error:type": 3, "error:missing-dataset": 3, "same_name_other_file": 20})
def f04(ctx):
    fortran(ctx, 1000, 12000, "files")


@check("X01", "random group catalogues and snapshots in either byte order (0-3000 rows, snapshots 0-999, files 0-511) read through the Millennium Fortran library, under "
       "AddressSanitizer, UBSan and bounds checks; every case counts",
       **{"evaluations": 100, "reads": 200, "empty": 30, "call:file": 30, "call:grouptab": 30, "call:subtab": 30, "call:subhalos": 30, "call:groupids": 20, "call:subids": 20, "paths": 50})
def x01(ctx):
    from vf import milldriver
    serial(ctx, "vf.w_mill", 3000, 40000, variant="files", mill=milldriver.build_mill(ctx, progs=False))


@check("X02", "random snapshots ordered by hash cell (8, 64 or 512 cells, 1-120 files, empty cells) of which random sets of cells are read with readregion, under sanitizers; "
       "every case counts", **{"evaluations": 100, "reads": 200, "particles": 1000, "empty_reads": 20, "cells:run": 10, "cells:boundary": 10, "cells:ends": 10, "files:10-99": 10})
def x02(ctx):
    from vf import milldriver
    serial(ctx, "vf.w_mill", 3000, 40000, variant="region", mill=milldriver.build_mill(ctx, progs=False))


@check("X03", "random snapshots and catalogues given to the Millennium example programs, whose output is compared, under sanitizers; every case counts",
       **{"evaluations": 100, "rows": 500, "program:region": 20, "program:fofgroups": 10, "program:groups": 10, "program:subhalos": 10, "program:file": 10, "grouped": 200})
def x03(ctx):
    from vf import milldriver
    serial(ctx, "vf.w_mill", 2000, 30000, variant="programs", mill=milldriver.build_mill(ctx))


@check("X04", "random arrays (reals, integers and strings of two sizes; ties, infinities, array sections, 0-3000 elements) sorted by the Fortran library, and Peano-Hilbert keys of "
       "1-10 bits from the C routine, under sanitizers; every case counts",
       **{"evaluations": 100, "sorts": 200, "keys": 100, "section": 30, "size:0": 10, "size:1": 10, "size:large": 30, "sort:ch:4": 10, "sort:r4:8": 10})
def x04(ctx):
    from vf import milldriver
    serial(ctx, "vf.w_mill", 3000, 40000, variant="sort", mill=milldriver.build_mill(ctx, progs=False))


@check("X05", "random snapshot files of Millennium-2 and MR7 (0-2000 particles, long paths, compressed and big endian datasets) read by the C and Fortran programs, under sanitizers; "
       "every case counts", **{"evaluations": 80, "files_read": 80, "reader:m2c": 20, "reader:m2f": 20, "reader:mr7c": 20, "reader:mr7f": 20, "empty": 10})
def x05(ctx):
    from vf import milldriver
    serial(ctx, "vf.w_mill", 1500, 20000, variant="readers", readers=milldriver.build_readers(ctx))


@check("X06", "random group catalogues (1-5 files) and snapshots ordered by hash cell (8 to 4096 cells, 1-120 files) read through the C library for IDL in random order of calls, under "
       "AddressSanitizer and UBSan; every case counts", **{"evaluations": 100, "groups": 100, "spheres": 100, "cubes": 50, "in_spheres": 100, "keys": 30, "grouped": 500})
def x06(ctx):
    from vf import milldriver
    serial(ctx, "vf.w_mill", 1500, 20000, variant="grouplib", grouplib=milldriver.build_grouplib(ctx))


@check("K02", "made up Eagle and P-Gadget3 runs (0-5 outputs of each kind, 1-300 files each) of which random files or directories are missing or damaged, in directories with odd names; every "
       "case counts", **{"evaluations": 150, "directories": 500, "incomplete": 100, "eagle": 50, "pgadget3": 50, "glob-characters": 10, "ambiguous": 2})
def k02(ctx):
    serial(ctx, "vf.w_presence", 800, 8000)


@check("X07", "random Millennium, Millennium-2 and WMAP7 simulations of 1-512 files in the places where the Python examples look, which are run whole with a recorder in place of the plotting "
       "library; every case counts", **{"evaluations": 100, "compared": 60, "subhaloes": 300, "particles": 500})
def x07(ctx):
    serial(ctx, "vf.w_examples", 1500, 15000)
