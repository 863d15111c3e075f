"""Writes properties.jsonl and MANIFEST.json from the descriptions below (run: python vf/meta.py)."""
import json, os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "python/virgo/"
F = "fortran/hdf5_wrapper/"
PROPS = []
NOT_APPLICABLE = []


def prop(id, title, statement, over, qtext, why, files, mech, technique, note, state=None, observe=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, title
    PROPS.append(dict(p=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a),
                      technique=technique, note=note))


MPIQ = ["inputs", "schedules", "configurations"]
PS = P + "mpi/parallel_sort.py"
PH = P + "mpi/parallel_hdf5.py"
UT = P + "mpi/util.py"
MPI_TECH = "runtime monitoring: result oracle over randomized MPI executions, with an interposed MPI event log (collective matching, message and resource accounting), injected delays and input-immutability monitor"
MPI_NOTE = ("Decides only the executions made: random inputs on 1-8 ranks (communicators reordered, split and duplicated), delays injected before MPI calls, and in the thorough tier also the "
            "rendezvous protocol for all messages. Trusts OpenMPI, NumPy and the oracle, which recomputes the answer serially from all ranks' inputs. ")
SER_TECH = "runtime monitoring: oracle over randomized executions of the real code (one process per worker, crash and hang watched)"
SER_NOTE = "Decides only the executions made. Trusts NumPy and the independent oracle in /verif. "
T_MPI = "The existing tests run a handful of sizes and types at one rank count; "
T_NONE = "No existing test touches this module; "

prop("M01", "Distributed sort returns the sorted permutation on every rank count",
     "For any distributed array, the parallel sort leaves the same multiset of values globally in ascending order, either keeping each process's number of elements or, when asked, any given number. "
     "If an index is asked for, it is a permutation which takes the original array to the sorted one. "
     "This holds for any split of the elements over processes, including empty processes, repeated values, structured types and arrays with units.",
     MPIQ, "all arrays (type, values, duplicates, sizes per rank), communicators and message timings",
     T_MPI + "pivot selection, duplicates and empty ranks depend on the split of the data over ranks, which they sample a few times.",
     [PS], [("sample-free splitting point search", "parallel_sort.py: find_splitting_points, weighted_median"), ("exchange and local sort", "parallel_sort.py: parallel_sort, my_argsort"), ("restoring the distribution", "parallel_sort.py: repartition")],
     MPI_TECH, MPI_NOTE + "Values which do not compare (NaN) are not covered.", observe=["sorted array and index on every rank"])
prop("M02", "Fetching elements by global index returns exactly those elements",
     "For any distributed array and any list of global indexes on each process (repeated, unordered, empty), every process gets the requested elements in the order requested, with type, trailing dimensions and units kept. "
     "The source array and the indexes are left as they were.",
     MPIQ, "all arrays, memory layouts, index lists, communicators and timings", T_MPI + "no test calls it with repeated indexes, empty ranks, multidimensional or strided arrays.",
     [PS], [("request and reply exchange", "parallel_sort.py: fetch_elements"), ("variable size exchange", "parallel_sort.py: my_alltoallv")], MPI_TECH, MPI_NOTE)
prop("M03", "Repartitioning conserves order and content for any target distribution",
     "Repartitioning any distributed array to any valid set of sizes per process yields exactly those sizes and the same global sequence of elements, with type, trailing dimensions and units kept and the input unchanged. "
     "A target which does not add up to the number of elements is refused rather than obeyed.",
     MPIQ, "all arrays, memory layouts, source and target distributions, communicators and timings", T_MPI + "targets with empty ranks, strided arrays and trailing dimensions are barely sampled.",
     [PS], [("overlap of source and target ranges", "parallel_sort.py: repartition")], MPI_TECH, MPI_NOTE)
prop("M04", "Distributed match finds each value's position or reports none",
     "For every element of the first distributed array the parallel match returns the global index of an equal element of the second one, or -1 exactly if there is none. "
     "This holds for any distribution, duplicates, empty arrays and mixed types, with or without the second array being sorted already.",
     MPIQ, "all pairs of arrays (types, values, duplicates), distributions, communicators and timings", T_MPI + "no test has duplicates, mixed types or values which are only just different.",
     [PS], [("search in the sorted distributed array", "parallel_sort.py: parallel_match")], MPI_TECH, MPI_NOTE)
prop("M05", "Distributed unique returns each distinct value once, with right counts",
     "The distributed set of unique values contains every distinct value of the input exactly once, in ascending order, and the counts returned with it (if asked for) are the numbers of occurrences. "
     "Saying that the input is sorted already, or redistributing the result over processes, changes only where the values are; units and type are kept on every process.",
     MPIQ, "all arrays, options, communicators and timings", T_MPI + "runs of one value which span several ranks, and ranks with nothing, depend on the distribution.",
     [PS], [("removal of duplicates across process boundaries", "parallel_sort.py: parallel_unique, gather_to_first_rank")], MPI_TECH, MPI_NOTE)
prop("M06", "Distributed reductions and histograms apply every update exactly once",
     "Reducing values into elements of a distributed array by global index (sum, minimum, maximum and the like) gives what a serial loop over all updates of all processes gives. "
     "A distributed histogram counts every input, or adds its weight, in the bin of that number exactly once, whether the result is made or supplied.",
     MPIQ, "all update lists, operations, weights, bins, communicators and timings", T_MPI + "reductions into elements have no test; histograms are tested with a few sizes.",
     [PS], [("exchange of updates and local reduction", "parallel_sort.py: reduce_elements"), ("histogram", "parallel_sort.py: parallel_bincount")], MPI_TECH, MPI_NOTE + "Floating point sums are compared within rounding.")
prop("M07", "Block and pairwise exchanges deliver every element once at the right place",
     "The variable-size all-to-all exchange delivers each process's blocks intact at the offsets asked for, writes nowhere else, and does so for zero counts, gaps, any element type, any trailing dimensions and messages above its internal size limit. "
     "The chunked pairwise exchange delivers the partner's whole message, for any chunk size and for unequal or zero sizes.",
     MPIQ, "all counts, offsets, types, methods, chunk sizes and timings", T_MPI + "the size limit is only reached with messages over 100 MB, and gaps between blocks are never tested.",
     [PS], [("chunked exchange", "parallel_sort.py: my_alltoallv, sendrecv"), ("types", "parallel_sort.py: mpi_datatype")], MPI_TECH, MPI_NOTE)
prop("M08", "Gathering an array concatenates all ranks' pieces in rank order",
     "Gathering a distributed array to one chosen process, or to all, returns the concatenation of the pieces in rank order along the first axis there and nothing elsewhere. "
     "Type, trailing dimensions and units survive, whatever the memory layout and whichever processes have no elements.",
     MPIQ, "all arrays, roots, communicators and timings", T_MPI + "layouts, roots and empty ranks are sampled a few times.",
     [P + "mpi/gather_array.py"], [("gather", "gather_array.py: gather_array, allgather_array")], MPI_TECH, MPI_NOTE)
prop("M09", "Every particle is assigned to the group whose range contains it",
     "Given group lengths and offsets, and the number of particles on each process, the group index of each particle is that of the group whose range contains it, and -1 if none does. "
     "The rank of a particle within its group, if asked for, counts from zero at the start of the group, for any distribution of groups and particles over processes.",
     MPIQ, "all catalogues with ascending offsets (empty groups, gaps), distributions, communicators and timings", T_MPI + "group ranges which span processes and gaps are sampled by one generator.",
     [UT], [("membership from ranges", "util.py: group_index_from_length_and_offset")], MPI_TECH, MPI_NOTE)
prop("M10", "Halo matching picks the destination with most shared particles",
     "Between two outputs, each halo is matched to the halo which holds the largest number of its (optionally: first N most bound, type selected) particles, and the count returned is that number. "
     "A match is flagged consistent exactly if matching in the other direction leads back to the same halo. "
     "Neither depends on how particles and halos are distributed over processes.",
     MPIQ, "all particle memberships, distributions, communicators and timings", T_NONE + "the answer depends on counts which are spread over processes.",
     [P + "mpi/merger_tree.py"], [("most frequent destination", "merger_tree.py: match_halos"), ("two-way test", "merger_tree.py: consistent_match")], MPI_TECH, MPI_NOTE)
prop("M11", "Collective routines obey MPI rules on any communicator and any timing",
     "Every distributed routine makes the same sequence of collective calls on all processes of the communicator it was given and on no other, receives every message it sends, and leaves no request or datatype behind. "
     "It therefore returns, with the same answer, on reordered, split and duplicated communicators, with other groups working at the same time, with any delay of any process, and if sends block until received.",
     ["schedules", "configurations", "inputs"], "all routines, communicators (order, subsets, concurrent groups), delays and MPI protocols", "Tests run on the world communicator at natural timing and with buffered sends, so a mismatch which is hidden there never shows.",
     [PS, PH, UT, P + "mpi/gather_array.py", P + "mpi/merger_tree.py"], [("communicator passed down", "all functions with a comm argument"), ("requests completed", "parallel_sort.py: my_alltoallv, sendrecv"), ("types freed", "parallel_sort.py: mpi_datatype users")],
     "runtime verification: interposed MPI library records every call; an online check matches collectives per communicator and rank, offline check of message and resource conservation; delay injection and rendezvous-only transport",
     MPI_NOTE + "Matching sees operations through the C interface (LD_PRELOAD), as mpi4py calls it.", observe=["MPI calls of every rank"])
prop("M12", "An error on any rank ends the whole MPI job; bad arguments end it cleanly",
     "If the guarded main function of a program raises on any process while others wait in MPI calls, the whole job ends promptly with a failure status and the error is reported. "
     "The same holds if a process passes the distributed array routines an argument which they refuse (wrong dimensions, byte order, totals or shapes): the call does not return there, and the job does not report success. "
     "Arguments are parsed once and every process gets the same values; arguments which are wrong, or a request for help, end all processes without a hang.",
     ["fault_sequences", "schedules", "inputs"], "all exception types, ranks and points of failure; all command lines", "Tests cannot fail on purpose inside a job which must go on; there is none for this.",
     [P + "mpi/errchk.py", UT, PS], [("abort on exception", "errchk.py: mpi_errchk"), ("parse and broadcast", "util.py: MPIArgumentParser")], "fault injection at random ranks and points with a watchdog as the monitor (exit status, time to end, output)",
     "Decides only the programs run (1-6 ranks).")
prop("M13", "Absent arrays become empty arrays of the common type and shape",
     "If only some processes have an array, the others get an empty one with the type and trailing dimensions of those which do, and those which do keep theirs unchanged. "
     "If no process has one, none is made up.",
     MPIQ, "all patterns of presence, types, dimensions and communicators", T_NONE + "which process has data is a matter of distribution.",
     [UT], [("agreement", "util.py: broadcast_dtype_and_dims, replace_none_with_zero_size")], MPI_TECH, MPI_NOTE)

prop("H01", "Collective read returns exactly the dataset, split in rank order",
     "Reading a dataset collectively gives each process one contiguous piece such that the pieces in rank order are the dataset, evenly divided, for any type, shape, storage (contiguous, chunked, compressed), buffer size and number of processes. "
     "It always returns, including for empty datasets and buffers smaller than a row.",
     MPIQ, "all datasets, buffer sizes, communicators and timings", T_MPI + "the loop over buffers is tested with two sizes of numeric data.",
     [PH], [("buffered loop with a common number of iterations", "parallel_hdf5.py: collective_read")], MPI_TECH, MPI_NOTE + "Also trusts HDF5 and serial h5py, which makes the files.")
prop("H02", "Collective write stores the concatenation of all ranks' data",
     "Writing a distributed array collectively creates a dataset of the given name which holds the pieces in rank order, with the type, trailing dimensions, compression and attributes asked for. "
     "This holds for empty processes, buffers smaller than a row and arrays above the transfer limit, and nothing else in the file changes.",
     MPIQ, "all arrays, layouts, buffer sizes, options, communicators and timings", T_MPI + "types, memory layouts, dataset options and multiple buffers are barely sampled.",
     [PH], [("buffered loop", "parallel_hdf5.py: collective_write"), ("dataset options", "parallel_hdf5.py: compress_dcpl")], MPI_TECH, MPI_NOTE + "The file is read back with serial h5py.")
prop("H03", "Multi-file read returns all files' elements once, in file order",
     "Reading datasets from a set of files (fewer, as many or more than processes) yields, over processes in rank order, each file's elements exactly once in file order, for every dataset asked for, alone or together, in any group. "
     "Files without the dataset or group count as having no elements, and the file number of each element, if asked for, is that of the file which held it.",
     MPIQ, "all sets of files, datasets, process counts and timings", T_MPI + "which rank reads what depends on the ratio of files to ranks, with two or three sampled.",
     [PH], [("assignment of files to ranks", "parallel_hdf5.py: assign_files"), ("two modes of reading", "parallel_hdf5.py: MultiFile._read_independent, _read_collective")], MPI_TECH, MPI_NOTE)
prop("H04", "Multi-file metadata: file list, attributes, counts, type agreement",
     "The set of files opened is the one given by the template (and by the range, list or the attribute or dataset in the first file), and the elements per file reported are those of each file, on every process. "
     "Attributes and units are returned as stored; files which disagree about a dataset's type or dimensions are refused on all processes, not mixed.",
     ["inputs", "configurations"], "all templates, file sets, attributes and disagreements", T_MPI + "no test has attributes, wrong files or disagreeing types.",
     [PH], [("finding the files", "parallel_hdf5.py: MultiFile.__init__, substitute_file_nr"), ("counts", "parallel_hdf5.py: MultiFile.get_elements_per_file"), ("attributes", "parallel_hdf5.py: AttributeArray")], MPI_TECH, MPI_NOTE)
prop("H05", "Multi-file write puts every element back in the file it belongs to",
     "Writing arrays with given numbers of elements per file stores in each file exactly its elements in order, under the given names, group, attributes and compression, whether files are fewer, as many or more than processes. "
     "Other content of existing files is kept unless the mode is to replace them, and reading back gives the same arrays.",
     MPIQ, "all arrays, element counts per file, modes, process counts and timings", T_MPI + "partition of elements over files and ranks is sampled for a few ratios.",
     [PH], [("repartition to files", "parallel_hdf5.py: MultiFile.write"), ("two modes of writing", "parallel_hdf5.py: MultiFile._write_independent, _write_collective")], MPI_TECH, MPI_NOTE)

RB = P + "util/read_binary.py"
prop("B01", "Binary file reader decodes exactly the bytes of each described block",
     "Any dataset or attribute of a file described to the binary reader (type, shape, offset, records, groups) reads as the values stored there, in the byte order detected or set, for any NumPy index, with files above 4 GB and any order of access. "
     "A block outside the file, or a Fortran record marker which does not match, raises an error instead of returning data; the report whether all bytes are described is right.",
     ["inputs"], "all layouts, types, byte orders, indexes and truncations", T_NONE + "byte order, offsets and indexes combine endlessly.",
     [RB], [("byte order", "read_binary.py: need_byteswap, BinaryFile.enable_byteswap"), ("mapping and swapping", "read_binary.py: BinaryDataset.__getitem__"), ("records", "read_binary.py: start_fortran_record, end_fortran_record")], SER_TECH, SER_NOTE + "Files are made with struct/NumPy bytes independently of the reader.")
prop("B02", "Exporting a binary file keeps every value; the digest tracks the content",
     "A file written from another by the binary reader holds the same blocks at the same places in the byte order of the output, records included, and an HDF5 export has the same groups, datasets, attributes and values. "
     "The digest of a file, given only if all its bytes are described, is equal for the same description and content whatever the byte order, and differs if a value differs.",
     ["inputs"], "all layouts, types, byte orders and export options", T_NONE + "a wrong byte shows only if the output is compared with the input independently.",
     [RB], [("binary output", "read_binary.py: BinaryFile.write_binary"), ("HDF5 output", "read_binary.py: BinaryGroup.write_hdf5"), ("digest", "read_binary.py: BinaryFile.hash")], SER_TECH, SER_NOTE)
prop("B03", "Reads never come from a wrong, stale or closed file, however many are open",
     "Whatever sequence of opening, reading, closing, dropping and replacing of binary files and changes of directory takes place, each read returns the content of the file which that object was opened on. "
     "The number of descriptors and mappings in use stays bounded by the limit however many files are open, and closing releases them.",
     ["histories"], "all sequences of operations on any number of files", T_NONE + "the shared cache of mappings only matters over long histories.",
     [RB], [("shared cache of mapped files", "read_binary.py: MemoryMappedFile"), ("limit of open files", "read_binary.py: MemoryMappedFile.__init__")], "runtime monitoring of operation histories: model of each file's content, plus /proc/self/fd and maps accounting", SER_NOTE,
     state=[("open file cache", "mappings shared between objects", "read_binary.py: MemoryMappedFile")])

prop("U01", "Match returns the position of an equal element, or -1, for any types",
     "For each element of the first array, the match returns the index of an equal element of the second array or -1 exactly if there is none, for integers of any (also mixed) types and byte orders, floats and strings. "
     "Saying that the second array is sorted, or giving a sorting index, does not change which elements match.",
     ["inputs"], "all pairs of arrays", T_NONE + "type promotion errors show only at extreme values.", [P + "util/match.py"], [("search in the sorted array", "match.py: match")], SER_TECH, SER_NOTE)
prop("U02", "Range assignment and range sums touch exactly the ranges given",
     "Assigning a value per range sets the elements of each range and no others, and summing over ranges gives the sum (weighted if asked) of exactly the elements in each, zero if it is empty. "
     "This holds for empty ranges, gaps, trailing dimensions and all types; sets of ranges which overlap or are out of order are refused.",
     ["inputs"], "all arrays and sets of ranges", T_NONE + "empty and adjacent ranges are the hard cases.", [P + "util/ranges.py"], [("assignment", "ranges.py: assign_ranges"), ("sums", "ranges.py: sum_ranges")], SER_TECH, SER_NOTE)
prop("U03", "Peano-Hilbert keys equal Gadget's curve and invert exactly",
     "The key of a cell is that of Gadget's Peano-Hilbert curve, for any number of bits up to 21 per dimension; the inverse returns the cell of a key; keys of positions are those of the cells they are in. "
     "Hence keys are a bijection whose neighbours are neighbouring cells, and the C example computes the same keys without undefined behaviour.",
     ["inputs"], "all cells, bits per dimension, array types and block sizes", T_NONE + "the tables have 24 x 8 entries, of which a spot check reaches few.",
     [P + "util/peano.py", "examples/millennium-wmap7/c", "examples/millennium2/c"], [("tables and loop over bits", "peano.py: peano_hilbert_keys_block"), ("inverse", "peano.py: peano_hilbert_key_inverses_block")],
     "runtime monitoring: reference curve and geometric invariants over random and exhaustive cells; C example under UBSan", SER_NOTE + "The reference is a recursive construction in /verif.")
prop("U04", "Partial formatting fills known fields and leaves the others intact",
     "Formatting a string with only some fields given replaces exactly those, as the standard formatter would, and leaves the others, with their conversion, access and format specification, as they were written. "
     "Formatting the result with the remaining fields therefore gives what formatting once with all fields gives; escaped braces count as text.",
     ["inputs"], "all format strings and sets of given fields", T_NONE + "conversions, access and specifications combine.", [P + "util/partial_formatter.py"], [("placeholders for missing fields", "partial_formatter.py: PartialFormatter, FormatKey")], SER_TECH, SER_NOTE + "Nested specifications with missing fields raise an error and are not covered.")
prop("U05", "Serial multi-file read concatenates each dataset over files in order",
     "Reading datasets from a list of files returns, for each, the concatenation along the axis asked for of the pieces in file order, skipping files which lack it, with type and other dimensions kept. "
     "It works alike for HDF5 files and for binary files, for single names and lists of names.",
     ["inputs"], "all sets of files, datasets, axes and missing datasets", T_NONE + "no sample of files is representative.", [P + "util/read_multi.py"], [("accumulation", "read_multi.py: read_multi")], SER_TECH, SER_NOTE)

GS = P + "formats/gadget_snapshot.py"
prop("G01", "Gadget snapshots of any precision and byte order read back exactly",
     "Opening a type 1 binary Gadget snapshot finds precision and byte order by itself and every header entry and particle block, extra blocks included, reads as stored, with absent blocks and types absent; HDF5 snapshots open as such. "
     "A file whose record lengths fit no valid interpretation, or which is cut short, is refused.",
     ["inputs"], "all particle numbers, mass tables, precisions, byte orders, optional blocks and corruptions", T_NONE + "layout depends on 6 counts, mass table, precision and blocks.", [GS], [("layout from header and record lengths", "gadget_snapshot.py: GadgetBinarySnapshotFile"), ("format choice", "gadget_snapshot.py: open")], SER_TECH, SER_NOTE + "Writers in /verif are independent of the readers.")
prop("G02", "L-Gadget2 group, subhalo and snapshot files read back exactly",
     "Every dataset of L-Gadget2 FoF and Subfind tables, ID lists and snapshots (including hash tables) reads as the values stored, for either byte order and every format option, and the sizes agree with the header.",
     ["inputs"], "all files of the format, byte orders and options", T_NONE + "offsets of later blocks depend on all counts before.", [P + "formats/subfind_lgadget2.py"], [("layouts", "subfind_lgadget2.py: GroupTabFile, GroupIDsFile, SubTabFile, SubIDsFile, SnapshotFile")], SER_TECH, SER_NOTE + "Layouts are those of the C/IDL/Fortran examples and the Gadget output code.")
prop("G03", "L-Gadget3 subhalo tables and ID lists read back exactly",
     "Every dataset of L-Gadget3 (MXXL) subhalo tables and ID lists reads as the values stored, for either byte order, precision and ID size and every combination of format options.",
     ["inputs"], "all files of the format, byte orders and options", T_NONE + "offsets of later blocks depend on all options.", [P + "formats/subfind_lgadget3.py"], [("layouts", "subfind_lgadget3.py: SubTabFile, SubIDsFile")], SER_TECH, SER_NOTE)
prop("G04", "P-Gadget3 group files and multi-file catalogues read back exactly",
     "Every dataset of P-Gadget3 FoF and Subfind tables and ID lists reads as stored, for either byte order, precision, ID size and every combination of options. "
     "A catalogue over several files presents each dataset as the concatenation over files, with the names and lengths of the files' datasets.",
     ["inputs"], "all files, options and splits of a catalogue over files", T_NONE + "offsets of later blocks depend on all options.", [P + "formats/subfind_pgadget3.py"], [("layouts", "subfind_pgadget3.py: GroupTabFile, GroupIDsFile, SubTabFile, SubIDsFile"), ("concatenation", "subfind_pgadget3.py: GroupCatalogue")], SER_TECH, SER_NOTE)
prop("G05", "MPA tree, Rockstar and Velociraptor files read back exactly",
     "Every dataset of MPA merger tree, tree auxiliary and subhalo descendant files, Rockstar halo files and Velociraptor property files reads as the values stored, with every option of the format.",
     ["inputs"], "all files of the formats and options", T_NONE + "record layouts and counts vary.", [P + "formats/mpa_trees.py", P + "formats/rockstar.py", P + "formats/velociraptor.py"], [("layouts", "mpa_trees.py, rockstar.py, velociraptor.py")], SER_TECH, SER_NOTE + "Formats without byte order detection are written natively.")
prop("G06", "Gadget-4 (COCO) subhalo tables and catalogues read back exactly",
     "Every record of Gadget-4 subhalo tables reads as stored, for either byte order, precision and ID size, and a wrong record marker is refused. "
     "A catalogue over several files presents each dataset as the concatenation over files.",
     ["inputs"], "all files, splits over files and corrupted markers", T_NONE + "files with no groups or no subhalos change the layout.", [P + "formats/subfind_gadget4.py"], [("records", "subfind_gadget4.py: SubTabFile"), ("concatenation", "subfind_gadget4.py: GroupCatalogue")], SER_TECH, SER_NOTE)
prop("G07", "Reading a region of an indexed snapshot returns all its particles once",
     "Reading a region of a hash-sorted snapshot returns every particle inside the (periodic) region at least via its cell, and each particle returned exactly once, with positions, velocities and IDs belonging together. "
     "Reading a list of cells returns exactly the particles of these cells, whichever files they are in.",
     ["inputs"], "all snapshots, splits over files, regions (wrapping, aligned with cells, as wide as the box) and cells", T_NONE + "cell edges, wrapping and file boundaries are the hard cases.", [P + "formats/subfind_lgadget2.py", P + "util/peano.py"], [("cells of a region", "subfind_lgadget2.py: Snapshot.read_region"), ("ranges per file", "subfind_lgadget2.py: Snapshot.read_cells")], SER_TECH, SER_NOTE)
prop("G08", "Sanity checks accept valid files and refuse wrong files or parameters",
     "The sanity check of each format which has one passes on every valid file opened with the right parameters. "
     "It raises the documented exception if a parameter is wrong, or a file is inconsistent (sizes, lengths against offsets, IDs against the hash, particle positions), in a way which it is meant to detect.",
     ["inputs", "fault_sequences"], "all valid files, wrong parameters and single corruptions", T_NONE + "a check which always passes, or never does, looks fine on a sample.",
     [P + "formats/subfind_lgadget2.py", P + "formats/subfind_lgadget3.py", P + "formats/subfind_pgadget3.py", P + "formats/rockstar.py"], [("checks", "sanity_check methods")], "runtime monitoring under injected corruption: each valid file and its corrupted twin", SER_NOTE)
prop("G09", "Group-ordered snapshots return exactly the particles of each group",
     "Reading a FoF group, a subhalo or a range of particles from a group-ordered snapshot returns exactly its particles of the types asked for, in order, whichever snapshot and catalogue files they are spread over. "
     "Empty groups, groups without subhalos, types with no particles and groups which cross file boundaries are no exception.",
     ["inputs"], "all catalogues, particle numbers by type, splits over files and requests", T_NONE + "file boundaries, empty types and empty groups combine.", [P + "formats/subfind_gadget4.py", P + "formats/subfind_pgadget3.py", P + "sims/coco.py", P + "sims/millennium2.py"], [("offsets per type and file", "GroupOrderedSnapshot.__init__, read_fof_group, read_subfind_group, read_particle_range")], SER_TECH, SER_NOTE)
prop("S01", "Simulation wrappers apply the right parameters of each simulation",
     "The classes named after simulations read files with the precision, ID size and options of that simulation without being told, and parameters given by the user are obeyed.",
     ["inputs", "configurations"], "all files of Millennium, Millennium-2, MXXL and COCO kinds and parameters", T_NONE + "a wrong default shows only on a file of that simulation.", [P + "sims/millennium.py", P + "sims/millennium2.py", P + "sims/mxxl.py", P + "sims/coco.py"], [("defaults", "sims/*.py")], SER_TECH, SER_NOTE)
prop("D01", "Depth-first tree indexes order each tree and bound each subtree",
     "The depth-first index of any forest is a permutation in which each node's progenitors form the contiguous range up to its last progenitor, more massive branches come first, and main progenitors follow their descendants. "
     "Branch masses and tree masses are the sums over the branch and over all progenitors, and the main progenitor is the one with the most massive branch.",
     ["inputs"], "all forests (chains, stars, ties, links which skip snapshots, unmatched descendants)", T_NONE + "tree shapes are endless and recursion is replaced by loops.", [P + "database/index_trees.py"], [("indexes and masses", "index_trees.py: depth_first_index, find_main_progenitor, find_progenitor_tree_mass, find_progenitor_branch_mass_delucia")], SER_TECH, SER_NOTE)
prop("D02", "Database tables hold every tree row with the declared types",
     "The native table file made from merger tree files decodes, with the column types that its own script declares, into the values of the input files in depth-first order, with the indexes added. "
     "Columns of vectors become one column per component and strings keep their length; datasets which fit no column are refused.",
     ["inputs"], "all sets of tree files, data types and shapes", T_NONE + "types and script must agree for every type.", [P + "database/make_dtrees_table.py"], [("types", "make_dtrees_table.py: sql_type, numpy_type"), ("rows", "make_dtrees_table.py: write_sql_server_native_file")], SER_TECH, SER_NOTE)
prop("E01", "Eagle file names are found uniquely or an error is raised",
     "For any directory of Eagle outputs, the file name returned for a snapshot, file type and file number is the one existing file of that description. "
     "If it is looked for and there is none, or more than one candidate, an error is raised instead of a guess.",
     ["inputs"], "all directories and requests", T_NONE + "needs directories which are ambiguous or incomplete.", [P + "sims/eagle.py"], [("search", "eagle.py: eagle_filename")], SER_TECH, SER_NOTE)
prop("W01", "SWIFT/SOAP arrays carry units equal to the file's physical conversion",
     "Reading any SWIFT or SOAP dataset, whole or by index, gives the stored values with units whose dimensions, powers of the scale factor and Hubble parameter, and conversion to physical CGS are those of the dataset's attributes, in the snapshot's unit system. "
     "Groups, names, shapes and attributes are those of the HDF5 file.",
     ["inputs"], "all unit systems, exponents, scale factors, conversion factors and indexes", T_NONE + "exponents and unit systems combine.", [P + "formats/swift.py", P + "formats/soap.py"], [("unit registry", "swift.py: soap_unit_registry_from_snapshot"), ("unit of a dataset", "swift.py: soap_units_from_attributes"), ("wrappers", "swift.py: SwiftGroup, SwiftDataset")], SER_TECH, SER_NOTE + "Trusts unyt. Units with powers of the current are refused by the code (TODO in the source) and not covered.")
prop("W02", "In swiftsimio mode arrays carry comoving state, units and cosmology",
     "In swiftsimio mode, a dataset reads as the stored values with units whose conversion is the file's (without cosmological corrections), marked comoving or physical as its exponents say, with the file's scale factor and power; datasets for which that cannot be said are refused. "
     "The cosmology attached is that of the file's parameters.",
     ["inputs"], "all unit systems, exponents, scale factors and cosmologies", T_NONE + "exponents and unit systems combine.", [P + "formats/swift.py"], [("units", "swift.py: swiftsimio_units_from_attributes"), ("cosmology", "swift.py: swiftsimio_cosmology")], SER_TECH, SER_NOTE + "Trusts unyt, swiftsimio and astropy.")


FW = F + "src/"
F_TECH = "runtime monitoring with AddressSanitizer, UBSan and Fortran bounds checks: random histories of calls by a generated driver against a model of the files, which are also read back with h5py"
F_NOTE = "Decides only the histories run. Trusts gfortran, HDF5 and h5py. Call sequences are generated by /verif and carried out by a generated Fortran program linked to the wrapper built from the tree. "
prop("F01", "Fortran wrapper: datasets of any type and rank round trip exactly",
     "A scalar, array or array section of any supported type (4 and 8 byte integers and reals, strings) and up to 7 dimensions, written with the Fortran wrapper, is stored with that type and shape and those values, with the compression asked for, and reads back identically. "
     "Overwriting replaces a dataset entirely; datasets made by others in either byte order read right; no memory but the arguments' is touched.",
     ["inputs", "histories"], "all types, ranks, shapes, strides, options and sequences of calls", "The existing tests write one file and extend one dataset; each type and rank is a separate instance of the code.",
     [FW + "write_dataset.inc", FW + "read_dataset.inc", FW + "write_dataset_preprocessor.inc", FW + "read_dataset_preprocessor.inc", FW + "hdf5_wrapper.F90"], [("generic write", "write_dataset.inc"), ("generic read", "read_dataset.inc"), ("instances per type and rank", "*_preprocessor.inc")], F_TECH, F_NOTE,
     state=[("open_dset", "dataset left open by the last read", "hdf5_wrapper.F90")])
prop("F02", "Fortran wrapper: partial reads, writes and extension hit exact elements",
     "Reading or writing with a start and count transfers exactly the elements of that part of the dataset, into or from the first elements of an array which is at least as large (or which lacks dimensions of size one). "
     "All other elements of the dataset and of the array stay as they were. An extensible dataset grows to hold what is written beyond its end, keeping its content.",
     ["inputs", "histories"], "all parts, array shapes, sections, initial sizes, chunk sizes and sequences of calls", "The existing tests extend one dataset in one way; offsets and shapes combine.",
     [FW + "write_dataset.inc", FW + "read_dataset.inc"], [("selections", "write_dataset.inc, read_dataset.inc: hs_start, hs_count"), ("extension", "write_dataset.inc: h5dextend_f")], F_TECH, F_NOTE + "Elements never written are not compared (HDF5 leaves them undefined).")
prop("F03", "Fortran wrapper: attributes of any type and rank round trip exactly",
     "An attribute of any supported type and up to 7 dimensions, written to a group or dataset, is stored with that type, shape and value and reads back identically, and its type and dimensions are reported right. "
     "Overwriting replaces it; other attributes and the parent are left alone.",
     ["inputs", "histories"], "all types, ranks, shapes, parents and sequences of calls", "The existing tests write a handful; each type and rank is a separate instance of the code.",
     [FW + "write_attribute.inc", FW + "read_attribute.inc", FW + "write_attribute_preprocessor.inc", FW + "read_attribute_preprocessor.inc"], [("generic write", "write_attribute.inc"), ("generic read", "read_attribute.inc")], F_TECH, F_NOTE + "Arrays for attributes of more than one dimension have the exact size, as documented.")
prop("F04", "Fortran wrapper: handles, groups, listings and errors behave as documented",
     "With any number of files created, opened, closed and reopened, each handle refers to its own file; groups are created at any depth; listings and queries report exactly what is there. "
     "Calls which are errors (missing file or dataset, wrong type or precision, array too small, read-only file, existing dataset without a part, closed handle) stop the program with a message instead of returning, and files closed before are intact.",
     ["inputs", "histories"], "all sequences of calls on several files, ending in an error or not", "The existing tests use one file and make no errors.",
     [FW + "hdf5_wrapper.F90"], [("file table", "hdf5_wrapper.F90: hdf5_open_file, hdf5_create_file, hdf5_close_file"), ("groups", "hdf5_wrapper.F90: hdf5_create_group"), ("listings", "hdf5_wrapper.F90: hdf5_list_*"), ("errors", "hdf5_wrapper.F90: hdf5_abort")], F_TECH, F_NOTE + "Names of attributes in listings are garbled by HDF5 1.10.10's Fortran interface and only counted; HDF5 errors in other ways of failing are not covered.")


X = "examples/"
XF = X + "millennium/fortran/"
X_TECH = "runtime monitoring with AddressSanitizer, UBSan and Fortran bounds checks: the example code, built from the tree, reads random files and what it returns or writes is compared with what was put in the files"
X_NOTE = "Decides only the files tried. Trusts gfortran and gcc. Routines are called by a generated driver; both byte orders are tried by building with byte swapping as the README says. "
T_X = "No existing test builds or runs the examples; "
prop("X01", "Millennium Fortran library: files read back exactly",
     "readheader, readfile, readgrouptab, readgroupids, readsubtab, readsubids and readsubhalos return exactly what the file for that snapshot and file number holds, for any directory and base name, any number of digits and any number of rows, zero included; no other memory is touched. "
     "filepath gives the place of each file of the Durham data store.",
     ["inputs", "histories"], "all file contents, numbers of files and sequences of calls", T_X + "file names, empty files and byte orders combine.",
     [XF + "readfile.f90", XF + "readgroups.f90", XF + "file_path.f90"], [("snapshots", "readfile.f90: readheader, readfile"), ("catalogues", "readgroups.f90"), ("paths", "file_path.f90: filepath")], X_TECH, X_NOTE)
prop("X02", "Millennium readregion returns exactly the chosen cells' particles",
     "For any set of hash cells, readregion returns every particle of those cells once and no others, with matching coordinates, velocities and IDs in the order of the files, however the cells and files divide: empty cells, cells at the ends of files, no cells, all cells. "
     "It leaves no file open and may be called again.",
     ["inputs", "histories"], "all snapshots, divisions into files, sets of cells and sequences of calls", T_X + "runs of cells, file boundaries and empty cells combine.",
     [XF + "readregion.f90", XF + "readparticles.c"], [("hash table and runs of cells", "readregion.f90: readregion"), ("partial reads", "readparticles.c")], X_TECH, X_NOTE)
prop("X03", "Millennium example programs write the right particles",
     "Given any snapshot and catalogue, readregionexample writes exactly the particles in the box asked for, readfofgroupsexample and readgroupsexample the position and group of every particle in a group, readsubhalosexample each halo and subhalo, and readfileexample every tenth particle.",
     ["inputs"], "all snapshots, catalogues and regions", T_X + "the programs join hash table, sorting and matching.",
     [XF + "readregionexample.f90", XF + "readfofgroupsexample.f90", XF + "readgroupsexample.f90", XF + "readsubhalosexample.f90", XF + "readfileexample.f90"],
     [("cells which a region touches", "readregionexample.f90"), ("matching of IDs", "readgroupsexample.f90, readfofgroupsexample.f90"), ("tables", "readsubhalosexample.f90")], X_TECH, X_NOTE + "Numbers are compared to the digits printed.")
prop("X04", "Fortran sort_index sorts every type; C keys are Peano-Hilbert keys",
     "sort_index returns a permutation which puts the array into ascending order, for each type of array (4 and 8 byte reals and integers, strings) and of index, any size and any order of the elements, without changing the array or memory beside the index. "
     "peano_hilbert_key and its inverse agree with the curve which Gadget uses.",
     ["inputs"], "all arrays, ties, sizes, array sections and cells", T_X + "ten instances of the sort, with special cases for small sizes.",
     [XF + "sort.f90", XF + "peano_keys.c"], [("heap sorts", "sort.f90: sort_index"), ("keys", "peano_keys.c")], X_TECH, X_NOTE)
prop("X05", "Example readers of Millennium-2 and MR7 files print the file's particles",
     "The C and Fortran programs for single snapshot files of Millennium-2 (binary) and MR7 (HDF5) print the numbers of the header and every particle's position, velocity and ID as stored, for any number of particles (also totals above 2^32), path, compression and byte order of HDF5 datasets.",
     ["inputs"], "all file contents", T_X + "they must agree on one format in two languages.",
     [X + "millennium2/c/read_mill2_snapshot_file.c", X + "millennium2/fortran/read_m2_snapshot_file.f90", X + "millennium-wmap7/c/read_mr7_snapshot_file.c", X + "millennium-wmap7/fortran/read_mr7_snapshot_file.f90"],
     [("binary files", "read_mill2_snapshot_file.c, read_m2_snapshot_file.f90"), ("HDF5 files", "read_mr7_snapshot_file.c, read_mr7_snapshot_file.f90")], X_TECH, X_NOTE + "Numbers are compared to the digits printed.")
prop("X06", "Library for IDL: catalogue, hash table, groups and spheres are right",
     "Called in any order, the routines return the catalogue's groups in order of length with file and place, its counts, the hash table of the whole snapshot, the coordinates of a group's particles relative to its centre with that centre inside the box, and all particles of a sphere once each (periodically). "
     "The tables passed in are unchanged afterwards and no other memory is touched.",
     ["inputs", "histories"], "all snapshots, catalogues, groups, spheres and sequences of calls", T_X + "hash cells, files and periodic boundaries combine.",
     [X + "millennium/idl/IdlGroupLib/groupstuff.c"], [("catalogue", "groupstuff.c: get_group_catalogue"), ("hash table", "groupstuff.c: get_hash_table"), ("groups", "groupstuff.c: get_group_coordinates"), ("spheres", "groupstuff.c: get_spherical_region_*")], X_TECH,
     X_NOTE + "Called from C as IDL's CALL_EXTERNAL does; IDL itself is not installed. Spheres whose cells do not fit in the box once, and cubes whose number does not divide that of the cells, are not tried.")

prop("X07", "Python examples read the right particles and catalogue entries",
     "The example scripts, run on any Millennium, Millennium-2 or WMAP7 output laid out as they expect, end without an error and give what is in the files: the particles of a region, exactly the particles of a FoF group, every subhalo of a catalogue, header values, and the centre, velocity, spin or maximum circular velocity computed from a subhalo's own particles (periodic boundary included).",
     ["inputs"], "all snapshots, catalogues and divisions into files", T_X + "they join reader, hash table, matching and range sums.",
     [X + "millennium/python/plot_fof_group.py", X + "millennium/python/read_region.py", X + "millennium/python/read_subhalo_catalogue.py", X + "millennium/python/check_units.py", X + "millennium2/python/compute_rvmax.py", X + "millennium2/python/check_units.py", X + "millennium-wmap7/python/read_mr7_snapshot_file.py"],
     [("hash table and matching", "plot_fof_group.py"), ("particles of subhaloes", "check_units.py, compute_rvmax.py"), ("catalogue", "read_subhalo_catalogue.py")],
     "runtime monitoring: the scripts run whole on random simulations, with their fixed directory replaced and a recorder in place of matplotlib; output, plots and results are compared with values computed from what was written",
     "Decides only the simulations tried. Values which a script only keeps in variables are compared if it has variables of those names.")
KH = "consistency_check/"
prop("K01", "Hashing a directory records each selected file exactly once, correctly",
     "hash_dirs_mpi.py, on any number of processes, computes the right checksum of every file under the directory which the include and exclude patterns select, and of no other, exactly once, and records it in each output asked for (list, per-directory files, attributes, database); files which cannot be read are recorded as such. "
     "Run again after being killed at any point, it completes the job without hashing what the database has; an error ends it with a failure.",
     ["inputs", "schedules", "fault_sequences", "histories"], "all directory trees, patterns, options, numbers of processes, timings and points of interruption", "No existing test runs it; work is handed out over MPI and files of 10 MB or more are read in blocks.",
     [KH + "hash/hash_dirs_mpi.py"], [("task queue", "hash_dirs_mpi.py: distribution of files over ranks"), ("outputs", "hash_dirs_mpi.py: output list, dirfile, attributes, database"), ("resume", "hash_dirs_mpi.py: database")],
     "runtime monitoring under interposed MPI with injected delays: the script runs whole on every rank; outputs are compared with hashlib over the tree; kill and failure injection, then resumption",
     "Decides only the runs made. Trusts hashlib and the file system. Names with newlines, link loops, FIFOs and a database inside the tree are not tried.")
prop("K02", "File presence checks report exactly the outputs which are incomplete",
     "Run on any simulation directory, the Eagle and P-Gadget3 checks report each expected output of each snapshot once, as complete if and only if every file which its first file announces is there, with the number found and the number expected, and the summary counts the incomplete ones of each kind; a first file which is missing or unreadable counts as none present.",
     ["inputs"], "all simulation directories, numbers of files and patterns of what is missing", "No existing test runs them; kinds of file, byte orders and ways of being incomplete combine.",
     [KH + "eagle/check_eagle_file_presence.py", KH + "p-gadget3/check_pgadget3_file_presence.py"], [("number expected", "check_dir: first file"), ("number found", "check_dir: directory listing"), ("summary", "check_eagle_run, check_pgadget3_run")],
     "runtime monitoring: the scripts run whole on made up directories with missing and damaged files; what they print is compared with what was left there",
     "Decides only the directories tried.")


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for x in PROPS:
            f.write(json.dumps(x["p"]) + "\n")
    na = {x["property"] for x in NOT_APPLICABLE}
    m = dict(version=1, setup_cmd="/opt/venv/bin/python check.py --setup",
             checks=[dict(property=x["p"]["id"], quick_cmd="VERIF_TIER=quick /opt/venv/bin/python check.py " + x["p"]["id"],
                          thorough_cmd="VERIF_TIER=thorough /opt/venv/bin/python check.py " + x["p"]["id"],
                          technique=x["technique"], level="exploration", level_note=x["note"].strip())
                     for x in PROPS if x["p"]["id"] not in na],
             not_applicable=NOT_APPLICABLE)
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
