From 1c056dc29f48f4b1798402f0e3792a8d3b713fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:49 +0000
Subject: [PATCH 01/43] fix: repartition, fetch_elements and reduce_elements
 lost data for arrays which are not C ordered

np.empty_like() kept Fortran ordering in the receive buffer, so reshape()
made a copy and the received elements never reached the returned array.
---
 python/virgo/mpi/parallel_sort.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/python/virgo/mpi/parallel_sort.py b/python/virgo/mpi/parallel_sort.py
index 534e40d..bfea33f 100644
--- a/python/virgo/mpi/parallel_sort.py
+++ b/python/virgo/mpi/parallel_sort.py
@@ -244,8 +244,9 @@ def repartition(arr, ndesired, comm=None):
 
     shape = list(arr.shape)
     shape[0] = sum(recv_count)
-    arr_return = np.empty_like(arr, shape=shape, dtype=arr.dtype)
-    my_alltoallv(arr.reshape((-1,)),        nvalues*send_count, nvalues*send_displ,
+    # Force C ordering here so that the reshape() below returns a view
+    arr_return = np.empty_like(arr, shape=shape, dtype=arr.dtype, order="C")
+    my_alltoallv(np.ascontiguousarray(arr).reshape((-1,)),        nvalues*send_count, nvalues*send_displ,
                  arr_return.reshape((-1,)), nvalues*recv_count, nvalues*recv_displ,
                  comm=comm)
 
@@ -326,11 +327,12 @@ def fetch_elements(arr, index, result=None, comm=None):
     del index_find
 
     # Send values back
-    if result is None:
-        # Will return result, so allocate storage
+    if result is None or not(result.flags.c_contiguous):
+        # Will return result, so allocate storage. This must be C ordered
+        # so that the reshape() below returns a view.
         shape = list(arr.shape)
         shape[0] = index.shape[0]
-        values_recv = np.empty_like(arr, shape=shape)
+        values_recv = np.empty_like(arr, shape=shape, order="C")
     else:
         # Will put result in supplied array
         values_recv = result
@@ -341,10 +343,11 @@ def fetch_elements(arr, index, result=None, comm=None):
     del values
 
     # Restore original order using index array
-    values_recv[idx,...] = values_recv.copy()
-
     if result is None:
+        values_recv[idx,...] = values_recv.copy()
         return values_recv
+    else:
+        result[idx,...] = values_recv.copy()
 
 
 
@@ -1069,7 +1072,7 @@ def reduce_elements(arr, updates, index, op, comm=None):
 
     # Exchange updates
     recv_shape = (sum(recv_count),) + updates.shape[1:]
-    updates_recv = np.empty_like(updates, shape=recv_shape)
+    updates_recv = np.empty_like(updates, shape=recv_shape, order="C") # C order so that reshape() returns a view
     my_alltoallv(updates.reshape((-1,)),      nvalues*send_count, nvalues*send_displ,
                  updates_recv.reshape((-1,)), nvalues*recv_count, nvalues*recv_displ,
                  comm=comm)
-- 
2.43.0


From 9f728f503538f9b7f4de3934163f62304dae9a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:26 +0000
Subject: [PATCH 02/43] fix: parallel_unique lost the units of the output on
 ranks with no input elements

---
 python/virgo/mpi/parallel_sort.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/mpi/parallel_sort.py b/python/virgo/mpi/parallel_sort.py
index bfea33f..73d26f6 100644
--- a/python/virgo/mpi/parallel_sort.py
+++ b/python/virgo/mpi/parallel_sort.py
@@ -959,7 +959,7 @@ def parallel_unique(arr, comm=None, arr_sorted=False, return_counts=False,
 
     else:
         # This rank has no elements
-        local_unique = np.zeros(0, dtype=arr.dtype)
+        local_unique = np.empty_like(arr, shape=0) # Preserves ndarray subclass and units
         local_count = np.zeros(0, dtype=int)
 
     mycomm.Free()
-- 
2.43.0


From 118446baadd9edaeefbfefa416f865913400c8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:26 +0000
Subject: [PATCH 03/43] fix: parallel_bincount failed for unsigned 64 bit input

---
 python/virgo/mpi/parallel_sort.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/virgo/mpi/parallel_sort.py b/python/virgo/mpi/parallel_sort.py
index 73d26f6..fb2c99c 100644
--- a/python/virgo/mpi/parallel_sort.py
+++ b/python/virgo/mpi/parallel_sort.py
@@ -1123,7 +1123,8 @@ def parallel_bincount(x, weights=None, minlength=None, result=None, comm=None):
         result_dtype = index_dtype
 
     # Find the maximum value in x
-    x_max = np.amax(x) if len(x) > 0 else 0
+    # (as a python integer, because numpy's uint64+1 is a float)
+    x_max = int(np.amax(x)) if len(x) > 0 else 0
     x_max = comm.allreduce(x_max, op=MPI.MAX)
     total_nr_bins = x_max+1
 
-- 
2.43.0


From ec0e43b27c7fe79a0bcba5395201b9c847a80e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:55 +0000
Subject: [PATCH 04/43] fix: sendrecv did not use the MPI types it makes, so it
 failed for structured arrays

---
 python/virgo/mpi/parallel_sort.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/virgo/mpi/parallel_sort.py b/python/virgo/mpi/parallel_sort.py
index fb2c99c..74830b1 100644
--- a/python/virgo/mpi/parallel_sort.py
+++ b/python/virgo/mpi/parallel_sort.py
@@ -179,8 +179,8 @@ def sendrecv(dest, sendbuf, recvbuf, comm=None, nchunk=None):
     while (nr_send_left > 0) or (nr_recv_left > 0):
         nr_send = min(nchunk, nr_send_left)
         nr_recv = min(nchunk, nr_recv_left)
-        comm.Sendrecv(sendbuf[send_offset:send_offset+nr_send], dest,
-                      recvbuf=recvbuf[recv_offset:recv_offset+nr_recv],
+        comm.Sendrecv([sendbuf[send_offset:send_offset+nr_send], mpi_type_send], dest,
+                      recvbuf=[recvbuf[recv_offset:recv_offset+nr_recv], mpi_type_recv],
                       source=dest)
         send_offset  += nr_send
         nr_send_left -= nr_send
-- 
2.43.0


From 0608917e38c6914e4488961d895c7bba4cd6a57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:18 +0000
Subject: [PATCH 05/43] fix: collective I/O with a buffer smaller than one row
 read garbage or never finished

---
 python/virgo/mpi/parallel_hdf5.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/virgo/mpi/parallel_hdf5.py b/python/virgo/mpi/parallel_hdf5.py
index 2fdaf77..331bdc9 100644
--- a/python/virgo/mpi/parallel_hdf5.py
+++ b/python/virgo/mpi/parallel_hdf5.py
@@ -139,7 +139,8 @@ def collective_read(dataset, comm, buffer_size=None):
             element_size *= s
         local_nr_bytes = num_on_task[comm_rank] * element_size
         # Compute number of iterations this task needs
-        buffer_size_elements = buffer_size // element_size
+        # (need to read at least one element at a time to make progress)
+        buffer_size_elements = max(1, buffer_size // element_size)
         local_nr_iterations = num_on_task[comm_rank] // buffer_size_elements
         if num_on_task[comm_rank] % buffer_size_elements > 0:
             local_nr_iterations += 1
@@ -235,7 +236,8 @@ def collective_write(group, name, data, comm, buffer_size=None, create_dataset=T
     element_size = data.dtype.itemsize
     for s in full_shape[1:]:
         element_size *= s
-    max_elements = buffer_size // element_size
+    # (need to write at least one element at a time to make progress)
+    max_elements = max(1, buffer_size // element_size)
 
     # We need to use the low level interface here because the h5py high
     # level interface omits zero sized writes, which causes a hang in
-- 
2.43.0


From 8961bd7d5849190c9ac963d57c6ce5281feee5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:18 +0000
Subject: [PATCH 06/43] fix: collective_read could hang reading compound,
 string or boolean datasets

---
 python/virgo/mpi/parallel_hdf5.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/python/virgo/mpi/parallel_hdf5.py b/python/virgo/mpi/parallel_hdf5.py
index 331bdc9..44cb87f 100644
--- a/python/virgo/mpi/parallel_hdf5.py
+++ b/python/virgo/mpi/parallel_hdf5.py
@@ -150,14 +150,28 @@ def collective_read(dataset, comm, buffer_size=None):
         shape = list(dataset.shape)
         shape[0] = num_on_task[comm_rank]
         data = np.ndarray(shape, dtype=dataset.dtype)
+        # We need to use the low level interface here because the h5py high
+        # level interface omits zero sized reads of some types (e.g. compound
+        # types and strings), which causes a hang in collective mode if a rank
+        # has nothing to read.
+        file_space = dataset.id.get_space()
+        mem_space = h5py.h5s.create_simple(data.shape)
+        prop_list = h5py.h5p.create(h5py.h5p.DATASET_XFER)
+        prop_list.set_dxpl_mpio(h5py.h5fd.MPIO_COLLECTIVE)
         # Read the data
         offset_in_mem = 0
         offset_in_file = offset_on_task[comm_rank]
         nr_left = num_on_task[comm_rank]
         for i in range(global_nr_iterations):
             length = min(nr_left, buffer_size_elements)
-            with dataset.collective:
-                data[offset_in_mem:offset_in_mem+length,...] = dataset[offset_in_file:offset_in_file+length,...]
+            if length > 0:
+                count = (length,)+tuple(data.shape[1:])
+                file_space.select_hyperslab((offset_in_file,)+(0,)*(len(data.shape)-1), count)
+                mem_space.select_hyperslab((offset_in_mem,)+(0,)*(len(data.shape)-1), count)
+            else:
+                file_space.select_none()
+                mem_space.select_none()
+            dataset.id.read(mem_space, file_space, data, dxpl=prop_list)
             offset_in_mem += length
             offset_in_file += length
             nr_left -= length
-- 
2.43.0


From 1eaabb4a0e32a4540c48cf8733f762ef3e8f899a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:08 +0000
Subject: [PATCH 07/43] fix: MultiFile.read(return_file_nr=True) failed
 although it is documented

---
 python/virgo/mpi/parallel_hdf5.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/python/virgo/mpi/parallel_hdf5.py b/python/virgo/mpi/parallel_hdf5.py
index 44cb87f..447bf96 100644
--- a/python/virgo/mpi/parallel_hdf5.py
+++ b/python/virgo/mpi/parallel_hdf5.py
@@ -579,6 +579,13 @@ class MultiFile:
         else:
             single_dataset = False
 
+        # If return_file_nr is True, return file numbers for all datasets.
+        # Otherwise it should be a sequence of dataset names.
+        if return_file_nr is True:
+            return_file_nr = datasets
+        elif return_file_nr is False:
+            return_file_nr = None
+
         if self.collective:
             data, file_nr = self._read_collective(datasets, group, return_file_nr, read_attributes)
         else:
-- 
2.43.0


From c56732808799593bd481ead108ec8add5f8f1d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:03 +0000
Subject: [PATCH 08/43] fix: big endian data was not byte swapped if it
 consists of records

BinaryDataset returned structured types in the byte order of the file
because numpy does not report a byte order for them.
---
 python/virgo/util/read_binary.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/virgo/util/read_binary.py b/python/virgo/util/read_binary.py
index fe954dd..5e13907 100644
--- a/python/virgo/util/read_binary.py
+++ b/python/virgo/util/read_binary.py
@@ -36,7 +36,11 @@ def need_byteswap(data_endian, dtype):
     is not the same as that of the type dtype.
 
     Some types don't have byte order, in which case we return False.
+    Record types need swapping if any of their fields do.
     """
+    if dtype.names is not None:
+        return any([need_byteswap(data_endian, dtype[name]) for name in dtype.names])
+    dtype = dtype.base
     if dtype.byteorder == "|":
         return False # Byte order not applicable for this type
     if data_endian not in ("<",">","="):
@@ -345,7 +349,8 @@ class BinaryDataset:
         # sure we don't return a view of the memory map because
         # we might need to close the file.
         if need_byteswap(self.endian, self.dtype):
-            array = array[key].byteswap()
+            file_dtype = array.dtype.newbyteorder(big_or_little(self.endian))
+            array = array.view(file_dtype)[key].astype(array[key].dtype)
         else:
             array = array[key].copy()
         # Return the result
-- 
2.43.0


From 1c852491bfa818d32fedcfdb2d07046bb1545c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:03 +0000
Subject: [PATCH 09/43] fix: attributes of datasets in binary files ignored the
 byte order of the file

---
 python/virgo/util/read_binary.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/virgo/util/read_binary.py b/python/virgo/util/read_binary.py
index 5e13907..2372a4f 100644
--- a/python/virgo/util/read_binary.py
+++ b/python/virgo/util/read_binary.py
@@ -180,6 +180,7 @@ class BinaryGroup(Mapping):
                     raise KeyError("Duplicate attribute name!")
                 new_block = BinaryDataset(fname, dtype, offset, shape, tail)
                 self.datasets[head].attrs._items[tail] = new_block
+                new_block.endian = endian
             else:
                 # We're adding something to a sub-group, so ensure sub-group exists
                 if head not in self.groups:
-- 
2.43.0


From af316f19197414a8601077bf9a5601b3f82eba25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:03 +0000
Subject: [PATCH 10/43] fix: BinaryDataset failed if its shape was given as
 unsigned 64 bit integers

The size was computed in floating point and used as a file offset.
---
 python/virgo/util/read_binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/util/read_binary.py b/python/virgo/util/read_binary.py
index 2372a4f..1c264b2 100644
--- a/python/virgo/util/read_binary.py
+++ b/python/virgo/util/read_binary.py
@@ -293,7 +293,7 @@ class BinaryDataset:
         self.size  = 1
         self.endian = "="
         self.attrs  = BinaryAttrs()
-        for s in shape:
+        for s in self.shape:
             self.size *= s
         self.nbytes = self.dtype.itemsize * self.size
 
-- 
2.43.0


From 30c302d3e66e49e0cea350e1604da22887dd920e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:03 +0000
Subject: [PATCH 11/43] fix: default mode of BinaryFile.write_binary is not a
 valid file mode

Use the equivalent of write_hdf5's w-, i.e. fail if the file exists.
---
 python/virgo/util/read_binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/util/read_binary.py b/python/virgo/util/read_binary.py
index 1c264b2..2d89837 100644
--- a/python/virgo/util/read_binary.py
+++ b/python/virgo/util/read_binary.py
@@ -508,7 +508,7 @@ class BinaryFile(BinaryGroup):
     def __repr__(self):
         return ('BinaryFile("%s")' % (self.fname,))
 
-    def write_binary(self, fname, mode="wb-", endian=None):
+    def write_binary(self, fname, mode="xb", endian=None):
         """
         Write all blocks in this file to a new file. Output will be
         in byte order given by endian parameter, or same byte order
-- 
2.43.0


From b36a08dc74e6ae576581799458b372a1896ccff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:03 +0000
Subject: [PATCH 12/43] fix: BinaryFile.write_hdf5 did not write the attributes
 of the root group

---
 python/virgo/util/read_binary.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/virgo/util/read_binary.py b/python/virgo/util/read_binary.py
index 2d89837..1de05d4 100644
--- a/python/virgo/util/read_binary.py
+++ b/python/virgo/util/read_binary.py
@@ -217,6 +217,10 @@ class BinaryGroup(Mapping):
         else:
             created = False
 
+        # Copy attributes of this group
+        for attr_name in self.attrs.keys():
+            h5group.attrs[attr_name] = self.attrs[attr_name]
+
         # Loop over datasets in this group and write them out
         for dataset_name in self.datasets.keys():
 
@@ -248,8 +252,6 @@ class BinaryGroup(Mapping):
         # Loop over groups in this group and create in output file
         for group_name in self.groups.keys():
             new_group = h5group.create_group(group_name)
-            for attr_name in self.groups[group_name].attrs.keys():
-                new_group.attrs[attr_name] = self.groups[group_name].attrs[attr_name]
             # Recursively write sub-groups
             self.groups[group_name].write_hdf5(h5group=new_group, gzip=gzip)
 
-- 
2.43.0


From 6275c9f13b2e55fe6f1ee91875e50b7ca9176a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:03 +0000
Subject: [PATCH 13/43] fix: BinaryFile.write_hdf5 failed if any dataset has no
 elements

---
 python/virgo/util/read_binary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/virgo/util/read_binary.py b/python/virgo/util/read_binary.py
index 1de05d4..7a7c59a 100644
--- a/python/virgo/util/read_binary.py
+++ b/python/virgo/util/read_binary.py
@@ -234,7 +234,7 @@ class BinaryGroup(Mapping):
                 chunks = None
                 
             # Write the dataset
-            if len(src_dset.shape) >= 1:
+            if len(src_dset.shape) >= 1 and src_dset.size > 0:
                 # Array dataset
                 h5group.create_dataset(dataset_name, data=src_dset[...],
                                        shuffle=shuffle,
@@ -242,7 +242,7 @@ class BinaryGroup(Mapping):
                                        compression_opts=compression_opts,
                                        chunks=chunks)
             else:
-                # Scalar dataset
+                # Scalar or empty dataset, which can't be chunked
                 h5group.create_dataset(dataset_name, data=src_dset[...])
 
             # Copy attributes
-- 
2.43.0


From 127a25f8f4dfac4c60ae4913c9ba62996315e06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:03 +0000
Subject: [PATCH 14/43] fix: BinaryFile could return data from another file of
 the same name

Open files were identified by the name they were opened with, so after
os.chdir() or if the file was replaced the wrong one could be read.
---
 python/virgo/util/read_binary.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/virgo/util/read_binary.py b/python/virgo/util/read_binary.py
index 7a7c59a..59afb55 100644
--- a/python/virgo/util/read_binary.py
+++ b/python/virgo/util/read_binary.py
@@ -316,8 +316,10 @@ class BinaryDataset:
         # Check if file is already open
         if self.fname in BinaryDataset.file_cache:
             cached_file = BinaryDataset.file_cache[self.fname]()
-            if cached_file is None or cached_file.closed:
-                # File was already closed or deallocated, so remove cache entry
+            if (cached_file is None or cached_file.closed or
+                not os.path.samestat(os.fstat(cached_file.file.fileno()), os.stat(self.fname))):
+                # File was already closed or deallocated, or is not the one this
+                # name refers to now, so remove cache entry
                 del BinaryDataset.file_cache[self.fname]
             else:
                 # File is open already, so we can use it
-- 
2.43.0


From 1361ac84d43ed195aecf304a46f7452bd56896f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:18 +0000
Subject: [PATCH 15/43] fix: L-Gadget2 group_ids files could not be opened

The class asked for the header field NFiles, which it calls NTask.
---
 python/virgo/formats/subfind_lgadget2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/formats/subfind_lgadget2.py b/python/virgo/formats/subfind_lgadget2.py
index 78a6819..8bc3cb1 100644
--- a/python/virgo/formats/subfind_lgadget2.py
+++ b/python/virgo/formats/subfind_lgadget2.py
@@ -84,7 +84,7 @@ class GroupIDsFile(BinaryFile):
         self.add_dataset("NTask",      np.int32)
         
         # Establish endian-ness by sanity check on number of files
-        nfiles = self["NFiles"][...]
+        nfiles = self["NTask"][...]
         if nfiles < 1 or nfiles > 65535:
             self.enable_byteswap(True)
 
-- 
2.43.0


From 944259a11224d2a33e134cc00b9f49050c77dbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:18 +0000
Subject: [PATCH 16/43] fix: sanity check of L-Gadget2 snapshots always failed

The number of bits of the hash key was computed as a float.
---
 python/virgo/formats/subfind_lgadget2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/virgo/formats/subfind_lgadget2.py b/python/virgo/formats/subfind_lgadget2.py
index 8bc3cb1..3920804 100644
--- a/python/virgo/formats/subfind_lgadget2.py
+++ b/python/virgo/formats/subfind_lgadget2.py
@@ -349,9 +349,9 @@ class SnapshotFile(BinaryFile):
         # Determine hashbits
         hashbits = 1
         while hashtabsize > 2:
-            hashtabsize /= 2
+            hashtabsize //= 2
             hashbits += 1
-        hashbits /= 3 # bits per dimension
+        hashbits //= 3 # bits per dimension
         del hashtabsize
 
         # Check positions
-- 
2.43.0


From 6be97c8d2f0f75bf393e419855c89009d9537074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:18 +0000
Subject: [PATCH 17/43] fix: reading a region of a L-Gadget2 snapshot always
 failed

np.indices needs integers.
---
 python/virgo/formats/subfind_lgadget2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/formats/subfind_lgadget2.py b/python/virgo/formats/subfind_lgadget2.py
index 3920804..81dfec8 100644
--- a/python/virgo/formats/subfind_lgadget2.py
+++ b/python/virgo/formats/subfind_lgadget2.py
@@ -462,7 +462,7 @@ class Snapshot():
 
         # Identify requested hash cells
         cellsize = self.boxsize / self.ncell
-        icoords = np.floor(np.asarray(coords, dtype=float) / cellsize)
+        icoords = np.floor(np.asarray(coords, dtype=float) / cellsize).astype(int)
         idx = np.indices((icoords[1]-icoords[0]+1,
                           icoords[3]-icoords[2]+1,
                           icoords[5]-icoords[4]+1))
-- 
2.43.0


From 65abaec99e5239c98dc9d99e445a0fb1a3ccb7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:18 +0000
Subject: [PATCH 18/43] fix: Velociraptor properties files could not be opened

numpy no longer has np.int.
---
 python/virgo/formats/velociraptor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/formats/velociraptor.py b/python/virgo/formats/velociraptor.py
index be3da77..0309ed2 100644
--- a/python/virgo/formats/velociraptor.py
+++ b/python/virgo/formats/velociraptor.py
@@ -22,7 +22,7 @@ class PropertiesFile(BinaryFile):
         self.add_attribute("Header/NProcs",   np.int32)
         self.add_attribute("Header/ng",       np.uint64) # "unsigned long" in code - assuming 64 bit system here
         self.add_attribute("Header/ngtot",    np.uint64)
-        self.add_attribute("Header/hsize",    np.int)
+        self.add_attribute("Header/hsize",    np.int64)
         hsize = self["Header"].attrs["hsize"]
         for i in range(hsize):
             self.add_attribute("Header/entry%03d" % i, np.dtype("S40"))
-- 
2.43.0


From bf01755aa15e34f52b7d4746aa60fb8f409c887b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:18 +0000
Subject: [PATCH 19/43] fix: MXXL sub_tab files could not be opened

The class passed parameters which the L-Gadget3 reader does not have.
---
 python/virgo/sims/mxxl.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/virgo/sims/mxxl.py b/python/virgo/sims/mxxl.py
index 792cbab..bff4df1 100644
--- a/python/virgo/sims/mxxl.py
+++ b/python/virgo/sims/mxxl.py
@@ -35,10 +35,13 @@ class SubTabFile(subfind_lgadget3.SubTabFile):
                  SO_BAR_INFO=False,
                  WRITE_SUB_IN_SNAP_FORMAT=False,
                  id_bytes=8, float_bytes=4):
+        # The L-Gadget3 reader does not implement these
+        if WRITE_SUB_IN_SNAP_FORMAT:
+            raise NotImplementedError("Subfind outputs in type 2 binary snapshot format are not implemented")
+        if SO_BAR_INFO:
+            raise NotImplementedError("Subfind outputs with SO_BAR_INFO set are not implemented")
         subfind_lgadget3.SubTabFile.__init__(self, fname,
                                              SO_VEL_DISPERSIONS=SO_VEL_DISPERSIONS,
-                                             SO_BAR_INFO=SO_BAR_INFO,
-                                             WRITE_SUB_IN_SNAP_FORMAT=WRITE_SUB_IN_SNAP_FORMAT,
                                              id_bytes=id_bytes, float_bytes=float_bytes)
 
 
-- 
2.43.0


From fa1deb3481250dee5f061405cfdbaa72a98b7126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:18 +0000
Subject: [PATCH 20/43] fix: read_fof_group lost the last particle of a group

If the last particle was the first one in a snapshot file then that file
was not read.
---
 python/virgo/formats/subfind_gadget4.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/formats/subfind_gadget4.py b/python/virgo/formats/subfind_gadget4.py
index 840dc7c..3cba7ba 100644
--- a/python/virgo/formats/subfind_gadget4.py
+++ b/python/virgo/formats/subfind_gadget4.py
@@ -306,7 +306,7 @@ class GroupOrderedSnapshot():
                             result[itype][dataset].append(snap["PartType%d/%s" % (itype, dataset)][first_to_read:last_to_read+1,...])
 
             # Check if we're done
-            if np.all(last_in_snap >= last_in_fof):
+            if np.all(last_in_snap > last_in_fof):
                 break
 
             # Advance to next file
-- 
2.43.0


From ccf7ca7bfd16d7c80e0bd5bc81f354b3fd653536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:18 +0000
Subject: [PATCH 21/43] fix: Gadget-4 group ordered snapshots with no subgroups
 could not be opened

---
 python/virgo/formats/subfind_gadget4.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/python/virgo/formats/subfind_gadget4.py b/python/virgo/formats/subfind_gadget4.py
index 3cba7ba..85f57b5 100644
--- a/python/virgo/formats/subfind_gadget4.py
+++ b/python/virgo/formats/subfind_gadget4.py
@@ -172,10 +172,11 @@ class GroupOrderedSnapshot():
         self.id_bytes   = id_bytes
 
         # Read group lengths from all files
-        self.foflentype = []
-        self.sublentype = []
-        self.firstsub   = []
-        self.nsubs      = []
+        # (start with empty arrays in case there are no groups or subgroups at all)
+        self.foflentype = [np.zeros((0,6), dtype=np.int32)]
+        self.sublentype = [np.zeros((0,6), dtype=np.int32)]
+        self.firstsub   = [np.zeros(0, dtype=np.int32)]
+        self.nsubs      = [np.zeros(0, dtype=np.int32)]
         ifile  = 0
         nfiles = 1
         while ifile < nfiles:
-- 
2.43.0


From 7632d067cbdaef3a9b5ec61a742f23a8cce236b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:18 +0000
Subject: [PATCH 22/43] fix: extra datasets of a Gadget snapshot could only be
 given as a tuple

The documentation says any sequence may be used.
---
 python/virgo/formats/gadget_snapshot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/formats/gadget_snapshot.py b/python/virgo/formats/gadget_snapshot.py
index aa29b0d..914715a 100644
--- a/python/virgo/formats/gadget_snapshot.py
+++ b/python/virgo/formats/gadget_snapshot.py
@@ -102,7 +102,7 @@ class GadgetBinarySnapshotFile(BinaryFile):
             )
         # Add any user specified fields
         if extra is not None:
-            all_datasets += extra
+            all_datasets += tuple(extra)
         
         # Determine what datasets are present in this file
         count_records = 0
-- 
2.43.0


From 14cb84ed7cf839d04fac41bb9a87d6df422748d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:18 +0000
Subject: [PATCH 23/43] fix: numpy_type used the re module without importing it

---
 python/virgo/database/make_dtrees_table.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/virgo/database/make_dtrees_table.py b/python/virgo/database/make_dtrees_table.py
index 994165b..2356e0c 100644
--- a/python/virgo/database/make_dtrees_table.py
+++ b/python/virgo/database/make_dtrees_table.py
@@ -5,6 +5,7 @@
 
 import collections
 import io
+import re
 
 import numpy as np
 import h5py
-- 
2.43.0


From 01ab739c0431993a613c9c371fb5e7e61be3fd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:18 +0000
Subject: [PATCH 24/43] fix: PartialFormatter did not leave some missing fields
 unchanged

Fields with conversions were replaced with the name of an internal class
and fields with attribute or index lookups failed.
---
 python/virgo/util/partial_formatter.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/python/virgo/util/partial_formatter.py b/python/virgo/util/partial_formatter.py
index f09183f..26dbc98 100644
--- a/python/virgo/util/partial_formatter.py
+++ b/python/virgo/util/partial_formatter.py
@@ -1,6 +1,7 @@
 #!/bin/env python
 
 import string
+import _string
 
 class FormatKey:
     def __init__(self, key):
@@ -44,6 +45,19 @@ class PartialFormatter(string.Formatter):
             # Otherwise return the value
             return kwargs[key]
 
+    def get_field(self, field_name, args, kwargs):
+        first, rest = _string.formatter_field_name_split(field_name)
+        if isinstance(self.get_value(first, args, kwargs), FormatKey):
+            # Leave any attribute or index lookups unchanged too
+            return FormatKey(field_name), first
+        return super().get_field(field_name, args, kwargs)
+
+    def convert_field(self, value, conversion):
+        if isinstance(value, FormatKey) and conversion is not None:
+            # We're not substituting anything in here
+            return FormatKey(value.key+"!"+conversion)
+        return super().convert_field(value, conversion)
+
     def format_field(self, value, format_spec):
         if isinstance(value, FormatKey):
             # We're not substituting anything in here
-- 
2.43.0


From 6b27524af987453973a469635c306d94b658207c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:18 +0000
Subject: [PATCH 25/43] fix: match could match the wrong signed and unsigned 64
 bit integers

They were compared as floating point, which can't represent large IDs.
---
 python/virgo/util/match.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/python/virgo/util/match.py b/python/virgo/util/match.py
index b811c7a..5dc83a1 100644
--- a/python/virgo/util/match.py
+++ b/python/virgo/util/match.py
@@ -31,6 +31,18 @@ def match(arr1, arr2, arr2_sorted=False, arr2_index=None):
     else:
         arr2_n = arr2
 
+    # Avoid conversion to floating point if we have both signed and unsigned
+    # integers: large values would lose precision and match the wrong elements.
+    # Values which can't be represented in the type of arr2 can't be matched.
+    no_match = None
+    if (arr1_n.dtype.kind in "iu" and arr2_n.dtype.kind in "iu" and
+        promote_types(arr1_n.dtype, arr2_n.dtype).kind == "f"):
+        if arr1_n.dtype.kind == "i":
+            no_match = arr1_n < 0
+        else:
+            no_match = arr1_n > iinfo(arr2_n.dtype).max
+        arr1_n = arr1_n.astype(arr2_n.dtype)
+
     # Sort arr2 into ascending order if necessary
     tmp1 = arr1_n
     if arr2_sorted:
@@ -57,6 +69,8 @@ def match(arr1, arr2, arr2_sorted=False, arr2_index=None):
     # Return -1 where no match is found
     ind  = tmp2[ptr] != tmp1
     ptr[ind] = -1
+    if no_match is not None:
+        ptr[no_match] = -1
 
     # Put ptr back into original order
     ind = arange(len(arr2_n))[idx]
-- 
2.43.0


From fb46841b95241f5fda7cb6fbf99155dafef4c4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:45 +0000
Subject: [PATCH 26/43] fix: parallel_match could match the wrong signed and
 unsigned 64 bit integers

They were compared as floating point, which can't represent large IDs.
---
 python/virgo/mpi/parallel_sort.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/python/virgo/mpi/parallel_sort.py b/python/virgo/mpi/parallel_sort.py
index 74830b1..a7737a9 100644
--- a/python/virgo/mpi/parallel_sort.py
+++ b/python/virgo/mpi/parallel_sort.py
@@ -783,6 +783,18 @@ def parallel_match(arr1, arr2, arr2_sorted=False, comm=None):
     if comm.allreduce(arr1.shape[0]) == 0:
         return np.ndarray(0, dtype=index_dtype)
 
+    # Avoid conversion to floating point if we have both signed and unsigned
+    # integers: large values would lose precision and match the wrong elements.
+    # Values which can't be represented in the type of arr2 can't be matched.
+    no_match = None
+    if (arr1.dtype.kind in "iu" and arr2.dtype.kind in "iu" and
+        np.promote_types(arr1.dtype, arr2.dtype).kind == "f"):
+        if arr1.dtype.kind == "i":
+            no_match = arr1 < 0
+        else:
+            no_match = arr1 > np.iinfo(arr2.dtype).max
+        arr1 = arr1.astype(arr2.dtype)
+
     # If arr2 has no elements then nothing will match
     if comm.allreduce(arr2.shape[0]) == 0:
         return -np.ones(arr1.shape, dtype=index_dtype)
@@ -874,6 +886,8 @@ def parallel_match(arr1, arr2, arr2_sorted=False, comm=None):
     # Restore original order
     index = np.empty_like(index_out)
     index[idx] = index_out
+    if no_match is not None:
+        index[no_match] = -1
     del index_out
     del idx
 
-- 
2.43.0


From a72da3721d55b0f61226d4099523495797746788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:05 +0000
Subject: [PATCH 27/43] fix: Fortran wrapper: extensible=.false. no longer
 makes an extensible dataset

---
 fortran/hdf5_wrapper/src/write_dataset.inc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortran/hdf5_wrapper/src/write_dataset.inc b/fortran/hdf5_wrapper/src/write_dataset.inc
index b677eff..7d9b9af 100644
--- a/fortran/hdf5_wrapper/src/write_dataset.inc
+++ b/fortran/hdf5_wrapper/src/write_dataset.inc
@@ -77,7 +77,7 @@ subroutine SUB_NAME (ifile,name,arr,gzip,overwrite,szip,extensible,start,count,
   endif
   if(present(szip))szip_on = szip
   extensible_on = .false.
-  if(present(extensible))extensible_on = .true.
+  if(present(extensible))extensible_on = extensible
 
   if(ifile.lt.1.or.ifile.gt.nfilemax)call hdf5_abort( &
        'Invalid file handle in write_data',name=name)
-- 
2.43.0


From d2feb5d201551f44cc0f295142b05d35d536cdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:05 +0000
Subject: [PATCH 28/43] fix: Fortran wrapper: write 7 dimensional integer
 arrays with 7 dimensions

---
 fortran/hdf5_wrapper/src/write_dataset_preprocessor.inc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fortran/hdf5_wrapper/src/write_dataset_preprocessor.inc b/fortran/hdf5_wrapper/src/write_dataset_preprocessor.inc
index f5c495b..5e131b3 100644
--- a/fortran/hdf5_wrapper/src/write_dataset_preprocessor.inc
+++ b/fortran/hdf5_wrapper/src/write_dataset_preprocessor.inc
@@ -54,7 +54,7 @@
 #undef SUB_NAME
 
 #define SUB_NAME write_7d_integer4_array
-#define NDIMS 2
+#define NDIMS 7
 #define ARRAY_DIM (:,:,:,:,:,:,:)
 #include "write_dataset.inc"
 #undef ARRAY_DIM
@@ -130,7 +130,7 @@
 #undef SUB_NAME
 
 #define SUB_NAME write_7d_integer8_array
-#define NDIMS 2
+#define NDIMS 7
 #define ARRAY_DIM (:,:,:,:,:,:,:)
 #include "write_dataset.inc"
 #undef ARRAY_DIM
-- 
2.43.0


From 0e81706361a4fd905be25fa6035733008a0c5707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:05 +0000
Subject: [PATCH 29/43] fix: Fortran wrapper: read empty datasets, and scalar
 datasets when start and count are given

---
 fortran/hdf5_wrapper/src/read_dataset.inc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fortran/hdf5_wrapper/src/read_dataset.inc b/fortran/hdf5_wrapper/src/read_dataset.inc
index 8ae55e6..999485c 100644
--- a/fortran/hdf5_wrapper/src/read_dataset.inc
+++ b/fortran/hdf5_wrapper/src/read_dataset.inc
@@ -203,7 +203,7 @@
          name=name,fname=fname_table(ifile))
 
     ! Select the part of this dataspace that will hold the data
-    if(eff_array_rank.gt.0)then
+    if(file_rank.gt.0)then
        hs_start(1:file_rank) = 0
        hs_count(1:file_rank) = read_dims(1:file_rank)
        call h5sselect_hyperslab_f(memspace_id, H5S_SELECT_SET_F, &
@@ -214,7 +214,7 @@
     endif
 
     ! Select the part of the file dataspace to be read
-    if(present(count))then
+    if(present(count).and.file_rank.gt.0)then
        hs_start(1:file_rank) = start(1:file_rank)-1
        hs_count(1:file_rank) = count(1:file_rank)
        call h5sselect_hyperslab_f(file_dspace_id, H5S_SELECT_SET_F, &
-- 
2.43.0


From 6215bbc523297e76484ada78d2e666dbed91a544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:05 +0000
Subject: [PATCH 30/43] fix: Fortran wrapper: don't return deleted data when
 reading a dataset which was read before and then overwritten

---
 fortran/hdf5_wrapper/src/write_dataset.inc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fortran/hdf5_wrapper/src/write_dataset.inc b/fortran/hdf5_wrapper/src/write_dataset.inc
index 7d9b9af..4017dd7 100644
--- a/fortran/hdf5_wrapper/src/write_dataset.inc
+++ b/fortran/hdf5_wrapper/src/write_dataset.inc
@@ -127,6 +127,11 @@ subroutine SUB_NAME (ifile,name,arr,gzip,overwrite,szip,extensible,start,count,
         ! If the dataset exists but we have overwrite = .true.,
         ! delete the dataset
         call h5dclose_f(dset_id, hdf_err)
+        ! The dataset left open by read_data might be the one to be deleted
+        if(open_dset)then
+           open_dset = .false.
+           call h5dclose_f(open_dset_id, hdf_err)
+        endif
         call h5gunlink_f(file_id(ifile),name,hdf_err)
         dset_opened = .false.
      endif
-- 
2.43.0


From 71f52167eb5cb61621dc3f0f81539026afccde30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:19 +0000
Subject: [PATCH 31/43] fix: Fortran wrapper: no overflow when creating a group
 more than 10 levels deep

---
 fortran/hdf5_wrapper/src/hdf5_wrapper.F90 | 26 ++++++++++++-----------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/fortran/hdf5_wrapper/src/hdf5_wrapper.F90 b/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
index 9363edf..0f4a088 100644
--- a/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
+++ b/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
@@ -726,13 +726,11 @@ contains
     integer          :: ifile
     character(len=*) :: name
     character, parameter            :: slash='/'
-    integer, parameter              :: MAX_NEST = 10
-    integer(hid_t)                  :: id_chain(MAX_NEST)
     integer(hid_t)                  :: group_id, loc_id
     integer, parameter              :: LEN_STR = 256
 
     character(len=LEN_STR)          :: thestring,currentgroup
-    integer          :: i,n_nest, starti, endi, hdf_err
+    integer          :: i, starti, endi, hdf_err
 
     if(ifile.lt.1.or.ifile.gt.nfilemax)call hdf5_abort( &
          'Invalid file handle in create_group',name=name)
@@ -761,7 +759,6 @@ contains
     starti = 1
     endi   = i
     
-    n_nest = 0
     do while(i > 0)
        !Get the name of the current group:
        currentgroup = thestring(1:i-1)
@@ -788,19 +785,24 @@ contains
                name=name,fname=fname_table(ifile))
        endif
        
-       n_nest = n_nest + 1
-       id_chain(n_nest) = group_id
+       ! The parent is not needed any more
+       if(loc_id.ne.file_id(ifile))then
+          call h5gclose_f(loc_id,hdf_err)
+          if(hdf_err .lt. 0) call hdf5_abort( &
+               'Unable to close group in create_group()!', &
+               name=name,fname=fname_table(ifile))
+       endif
        loc_id = group_id
     enddo
     
-    ! Close the nest of groups:
-    do i=n_nest,1,-1
-       call h5gclose_f(id_chain(i),hdf_err)
+    ! Close the innermost group
+    if(loc_id.ne.file_id(ifile))then
+       call h5gclose_f(loc_id,hdf_err)
        if(hdf_err .lt. 0) call hdf5_abort( &
-            'Unable to close group in write_data()!', &
+            'Unable to close group in create_group()!', &
             name=name,fname=fname_table(ifile))
-    enddo
-    
+    endif
+
   end subroutine hdf5_create_group
 
 !
-- 
2.43.0


From b0ae6757e1dc4497410b22260ffdfb0aa9935105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:49 +0000
Subject: [PATCH 32/43] fix: Fortran wrapper: accept arrays larger than a part
 of size one of a dataset in some dimension, as documented

---
 fortran/hdf5_wrapper/src/read_dataset.inc  | 37 ++++++++++++++++------
 fortran/hdf5_wrapper/src/write_dataset.inc | 37 ++++++++++++++++------
 2 files changed, 54 insertions(+), 20 deletions(-)

diff --git a/fortran/hdf5_wrapper/src/read_dataset.inc b/fortran/hdf5_wrapper/src/read_dataset.inc
index 999485c..fb95813 100644
--- a/fortran/hdf5_wrapper/src/read_dataset.inc
+++ b/fortran/hdf5_wrapper/src/read_dataset.inc
@@ -37,6 +37,8 @@
     integer(kind=hsize_t) :: array_dims(7),  eff_array_dims(7), array_dim_idx(7)
     ! Dimensions of the memory dataspace
     integer(kind=hsize_t) :: memspace_dims(7), maxdims(7)
+    ! Whether the data fits without leaving out dimensions of size 1
+    logical               :: same_rank
     ! Memory dataspace handle
     integer(kind=hid_t)   :: memspace_id
     ! Arrays for select hyperslab
@@ -166,10 +168,19 @@
        endif
     end do
 
+    ! If the array has the same rank as the dataset and is at least as large
+    ! as the data to read in every dimension there's nothing to leave out.
+    same_rank = (array_rank.eq.file_rank)
+    if(same_rank)then
+       do i = 1, file_rank, 1
+          if(array_dims(i).lt.read_dims(i))same_rank = .false.
+       end do
+    endif
+
     ! All dimensions with size>1 have to be at least as big
     ! in the array as in the file dataset, otherwise the data
     ! isn't going to fit.
-    if(eff_array_rank.ne.eff_read_rank)then
+    if((.not.same_rank).and.eff_array_rank.ne.eff_read_rank)then
        write(0,*)'Array rank (omitting dimensions with size=1) : ',eff_array_rank
        write(0,*)'Data  rank (omitting dimensions with size=1) : ',eff_read_rank
        call hdf5_abort( &
@@ -177,11 +188,13 @@
             name=name,fname=fname_table(ifile))
     endif
     ! Dimensions of the array need to be big enough in each direction
-    do i = 1, eff_array_rank, 1
-       if(eff_array_dims(i).lt.eff_read_dims(i))call hdf5_abort( &
-            'Data to be read does not fit in the supplied array', &
-            name=name,fname=fname_table(ifile))
-    end do
+    if(.not.same_rank)then
+       do i = 1, eff_array_rank, 1
+          if(eff_array_dims(i).lt.eff_read_dims(i))call hdf5_abort( &
+               'Data to be read does not fit in the supplied array', &
+               name=name,fname=fname_table(ifile))
+       end do
+    endif
 
     ! Now we need to create a dataspace to describe the array in memory,
     ! then select the region that the data to be read in will occupy.
@@ -190,10 +203,14 @@
     ! the dimensions of the array (e.g. may want to read a 2D slice of
     ! a 3D dataset, or read a single value from a 1D dataset into a scalar).
     memspace_dims(1:7) = 1
-    do i = 1, eff_array_rank, 1
-       j = read_dim_idx(i)
-       memspace_dims(j) = eff_array_dims(i)
-    end do
+    if(same_rank)then
+       memspace_dims(1:file_rank) = array_dims(1:file_rank)
+    else
+       do i = 1, eff_array_rank, 1
+          j = read_dim_idx(i)
+          memspace_dims(j) = eff_array_dims(i)
+       end do
+    endif
 
     ! Create the memory dataspace
     maxdims(1:file_rank) = memspace_dims(1:file_rank)
diff --git a/fortran/hdf5_wrapper/src/write_dataset.inc b/fortran/hdf5_wrapper/src/write_dataset.inc
index 4017dd7..12f76fd 100644
--- a/fortran/hdf5_wrapper/src/write_dataset.inc
+++ b/fortran/hdf5_wrapper/src/write_dataset.inc
@@ -45,6 +45,8 @@ subroutine SUB_NAME (ifile,name,arr,gzip,overwrite,szip,extensible,start,count,
   !
   integer(kind=hsize_t)               :: eff_select_rank, eff_array_rank, pad_dims(7)
   integer(kind=hsize_t)               :: eff_select_dims(7), eff_array_dims(7), eff_select_idx(7)
+  ! Whether the array can be used without leaving out dimensions of size 1
+  logical                             :: same_rank
 
   ! Dimensions of the file dataspace
   integer                             :: file_rank
@@ -348,25 +350,40 @@ subroutine SUB_NAME (ifile,name,arr,gzip,overwrite,szip,extensible,start,count,
   end do
   eff_array_rank = j
 
+  ! If the array has the same rank as the dataset and contains enough data
+  ! in every dimension there's nothing to leave out
+  same_rank = (array_rank.eq.file_rank)
+  if(same_rank)then
+     do i = 1, file_rank, 1
+        if(array_dims(i).lt.select_dims(i))same_rank = .false.
+     end do
+  endif
+
   ! Check dataset and array have the same rank, ignoring dimensions of size 1
-  if(eff_array_rank.ne.eff_select_rank)call hdf5_abort( &
+  if((.not.same_rank).and.eff_array_rank.ne.eff_select_rank)call hdf5_abort( &
        'The supplied data does not have the same number'//&
        ' of dimensions as the dataset to write',&
        name=name,fname=fname_table(ifile))    
 
   ! Check that the array contains enough data
-  do i = 1, eff_array_rank, 1
-     if(eff_array_dims(i).lt.eff_select_dims(i))call hdf5_abort( &
-          'Size of the data array is inconsistent with '//&
-          'the count parameter in write_data',&
-          name=name,fname=fname_table(ifile))    
-  end do
+  if(.not.same_rank)then
+     do i = 1, eff_array_rank, 1
+        if(eff_array_dims(i).lt.eff_select_dims(i))call hdf5_abort( &
+             'Size of the data array is inconsistent with '//&
+             'the count parameter in write_data',&
+             name=name,fname=fname_table(ifile))    
+     end do
+  endif
 
   ! Generate the padded dimensions array.
   pad_dims(1:7) = 1
-  do i = 1, eff_array_rank, 1
-     pad_dims(eff_select_idx(i)) = eff_array_dims(i)
-  end do
+  if(same_rank)then
+     pad_dims(1:file_rank) = array_dims(1:file_rank)
+  else
+     do i = 1, eff_array_rank, 1
+        pad_dims(eff_select_idx(i)) = eff_array_dims(i)
+     end do
+  endif
 
   ! Use this to create the dataspace to describe the array in memory
   maxdims(1:file_rank) = pad_dims(1:file_rank)
-- 
2.43.0


From c34e48f35bcb163c03a431e2ae48b3f89ae72a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:45 +0000
Subject: [PATCH 33/43] fix: reversing the byte order of a binary file also
 applies to the blocks defined already

---
 python/virgo/util/read_binary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/virgo/util/read_binary.py b/python/virgo/util/read_binary.py
index 59afb55..1b4b87f 100644
--- a/python/virgo/util/read_binary.py
+++ b/python/virgo/util/read_binary.py
@@ -503,9 +503,9 @@ class BinaryFile(BinaryGroup):
     def toggle_byteswap(self):
         """Reverse the current byte swapping setting"""
         if self.endian == "<":
-            self.endian = ">"
+            self.set_endian(">")
         elif self.endian == ">":
-            self.endian = "<"
+            self.set_endian("<")
         elif self.endian == "=":
             self.enable_byteswap(True)
 
-- 
2.43.0


From 940abddd627999022cb1322d590a957380797546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:49 +0000
Subject: [PATCH 34/43] fix: put the blank which Fortran requires after STOP,
 so that the Millennium examples compile with current gfortran

---
 .../fortran/readfofgroupsexample.f90          |  2 +-
 .../millennium/fortran/readgroupsexample.f90  |  2 +-
 examples/millennium/fortran/readregion.f90    | 14 ++++++-------
 examples/millennium/fortran/sort.f90          | 20 +++++++++----------
 4 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/examples/millennium/fortran/readfofgroupsexample.f90 b/examples/millennium/fortran/readfofgroupsexample.f90
index 1330116..079d195 100644
--- a/examples/millennium/fortran/readfofgroupsexample.f90
+++ b/examples/millennium/fortran/readfofgroupsexample.f90
@@ -115,7 +115,7 @@ PROGRAM readfofgroups
      zgroup(gidx(i))=z(pidx(j))
   END DO
   WRITE(*,*)'Matched ',nmatched,' particles out of ',nidfile
-  IF(nmatched.LT.nidfile)STOP"Error: Didn't match all particles!"
+  IF(nmatched.LT.nidfile)STOP "Error: Didn't match all particles!"
 
 ! Write positions and FoF group membership to an ascii file
 ! Columns are FoF group ID, then x,y,z coordinates.
diff --git a/examples/millennium/fortran/readgroupsexample.f90 b/examples/millennium/fortran/readgroupsexample.f90
index 9c3c920..d663129 100644
--- a/examples/millennium/fortran/readgroupsexample.f90
+++ b/examples/millennium/fortran/readgroupsexample.f90
@@ -111,7 +111,7 @@ PROGRAM readgroupsexample
      zgroup(gidx(i))=z(pidx(j))
   END DO
   WRITE(*,*)'Matched ',nmatched,' particles out of ',nidfile
-  IF(nmatched.LT.nidfile)STOP"Didn't match all particles!"
+  IF(nmatched.LT.nidfile)STOP "Didn't match all particles!"
 
 ! Write positions and group/subgroup membership to an ascii file
 ! Columns are subgroup ID, FoF group ID, then x,y,z coordinates.
diff --git a/examples/millennium/fortran/readregion.f90 b/examples/millennium/fortran/readregion.f90
index 2bdc596..3ac0e0c 100644
--- a/examples/millennium/fortran/readregion.f90
+++ b/examples/millennium/fortran/readregion.f90
@@ -43,13 +43,13 @@ LOGICAL, PARAMETER :: verbose = .FALSE.
 INTEGER :: ncells_to_read, ncells_read
 !
 ! Check arrays are not already in use
-IF(ASSOCIATED(x))STOP'Array x already allocated in getregion()'
-IF(ASSOCIATED(y))STOP'Array y already allocated in getregion()'
-IF(ASSOCIATED(z))STOP'Array z already allocated in getregion()'
-IF(ASSOCIATED(ids))STOP'Array ids already allocated in getregion()'
-IF(ASSOCIATED(vx))STOP'Array vx already allocated in getregion()'
-IF(ASSOCIATED(vy))STOP'Array vy already allocated in getregion()'
-IF(ASSOCIATED(vz))STOP'Array vz already allocated in getregion()'
+IF(ASSOCIATED(x))STOP 'Array x already allocated in getregion()'
+IF(ASSOCIATED(y))STOP 'Array y already allocated in getregion()'
+IF(ASSOCIATED(z))STOP 'Array z already allocated in getregion()'
+IF(ASSOCIATED(ids))STOP 'Array ids already allocated in getregion()'
+IF(ASSOCIATED(vx))STOP 'Array vx already allocated in getregion()'
+IF(ASSOCIATED(vy))STOP 'Array vy already allocated in getregion()'
+IF(ASSOCIATED(vz))STOP 'Array vz already allocated in getregion()'
 !
 ! Now read in the whole hash table
 !
diff --git a/examples/millennium/fortran/sort.f90 b/examples/millennium/fortran/sort.f90
index 93a8e6b..8868d8e 100644
--- a/examples/millennium/fortran/sort.f90
+++ b/examples/millennium/fortran/sort.f90
@@ -58,7 +58,7 @@ contains
 
     ! Check array sizes
     n = size(arr)
-    if(size(idx).lt.n)stop'sort_index(): Index array is too small!'
+    if(size(idx).lt.n)stop 'sort_index(): Index array is too small!'
 
     ! If we have 0 or 1 elements, no sorting required!
     if(n.eq.0)return
@@ -174,7 +174,7 @@ contains
 
     ! Check array sizes
     n = size(arr)
-    if(size(idx).lt.n)stop'sort_index(): Index array is too small!'
+    if(size(idx).lt.n)stop 'sort_index(): Index array is too small!'
 
     ! If we have 0 or 1 elements, no sorting required!
     if(n.eq.0)return
@@ -290,7 +290,7 @@ contains
 
     ! Check array sizes
     n = size(arr)
-    if(size(idx).lt.n)stop'sort_index(): Index array is too small!'
+    if(size(idx).lt.n)stop 'sort_index(): Index array is too small!'
 
     ! If we have 0 or 1 elements, no sorting required!
     if(n.eq.0)return
@@ -406,7 +406,7 @@ contains
 
     ! Check array sizes
     n = size(arr)
-    if(size(idx).lt.n)stop'sort_index(): Index array is too small!'
+    if(size(idx).lt.n)stop 'sort_index(): Index array is too small!'
 
     ! If we have 0 or 1 elements, no sorting required!
     if(n.eq.0)return
@@ -526,7 +526,7 @@ contains
 
     ! Check array sizes
     n = size(arr)
-    if(size(idx).lt.n)stop'sort_index(): Index array is too small!'
+    if(size(idx).lt.n)stop 'sort_index(): Index array is too small!'
 
     ! If we have 0 or 1 elements, no sorting required!
     if(n.eq.0)return
@@ -647,7 +647,7 @@ contains
 
     ! Check array sizes
     n = size(arr)
-    if(size(idx).lt.n)stop'sort_index(): Index array is too small!'
+    if(size(idx).lt.n)stop 'sort_index(): Index array is too small!'
 
     ! If we have 0 or 1 elements, no sorting required!
     if(n.eq.0)return
@@ -763,7 +763,7 @@ contains
 
     ! Check array sizes
     n = size(arr)
-    if(size(idx).lt.n)stop'sort_index(): Index array is too small!'
+    if(size(idx).lt.n)stop 'sort_index(): Index array is too small!'
 
     ! If we have 0 or 1 elements, no sorting required!
     if(n.eq.0)return
@@ -879,7 +879,7 @@ contains
 
     ! Check array sizes
     n = size(arr)
-    if(size(idx).lt.n)stop'sort_index(): Index array is too small!'
+    if(size(idx).lt.n)stop 'sort_index(): Index array is too small!'
 
     ! If we have 0 or 1 elements, no sorting required!
     if(n.eq.0)return
@@ -995,7 +995,7 @@ contains
 
     ! Check array sizes
     n = size(arr)
-    if(size(idx).lt.n)stop'sort_index(): Index array is too small!'
+    if(size(idx).lt.n)stop 'sort_index(): Index array is too small!'
 
     ! If we have 0 or 1 elements, no sorting required!
     if(n.eq.0)return
@@ -1115,7 +1115,7 @@ contains
 
     ! Check array sizes
     n = size(arr)
-    if(size(idx).lt.n)stop'sort_index(): Index array is too small!'
+    if(size(idx).lt.n)stop 'sort_index(): Index array is too small!'
 
     ! If we have 0 or 1 elements, no sorting required!
     if(n.eq.0)return
-- 
2.43.0


From ac1638d9a2c11e110990c873d52d4d126ca35ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:56 +0000
Subject: [PATCH 35/43] fix: readregion closed the last file twice when no cell
 it reads has particles

---
 examples/millennium/fortran/readregion.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/millennium/fortran/readregion.f90 b/examples/millennium/fortran/readregion.f90
index 3ac0e0c..831668b 100644
--- a/examples/millennium/fortran/readregion.f90
+++ b/examples/millennium/fortran/readregion.f90
@@ -201,7 +201,7 @@ DO WHILE (ihash.LT.nhash)
    END IF
    ihash=ihash+1
 END DO
-CALL close_gadget()
+IF(iopen.GE.0)CALL close_gadget()
 
 END SUBROUTINE
 END MODULE
-- 
2.43.0


From 162c94d21c72941af817f1826b960d58d35996b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:29 +0000
Subject: [PATCH 36/43] fix: consistency checks and example scripts did not run
 in Python 3, which the module requires

---
 .../eagle/check_eagle_file_presence.py         | 16 ++++++++--------
 consistency_check/hash/hash_dirs_mpi.py        | 16 +++++++++-------
 .../p-gadget3/check_pgadget3_file_presence.py  | 18 +++++++++---------
 .../python/read_mr7_snapshot_file.py           |  4 ++--
 .../python/read_subhalo_catalogue.py           |  6 +++---
 examples/millennium2/python/compute_rvmax.py   |  8 ++++----
 6 files changed, 35 insertions(+), 33 deletions(-)

diff --git a/consistency_check/eagle/check_eagle_file_presence.py b/consistency_check/eagle/check_eagle_file_presence.py
index a34e85c..61f13dc 100644
--- a/consistency_check/eagle/check_eagle_file_presence.py
+++ b/consistency_check/eagle/check_eagle_file_presence.py
@@ -64,13 +64,13 @@ def check_dir(basedir, dirbase, filebase, nfiles_attr, isnap):
                 if os.path.basename(fname) in fnames:
                     files_ok += 1
     if files_ok == nfiles:
-        print "%20s %03d: OK      - %d of %d %s files present" % (dirbase, isnap, files_ok, nfiles, filebase)
+        print("%20s %03d: OK      - %d of %d %s files present" % (dirbase, isnap, files_ok, nfiles, filebase))
         return True
     elif nfiles == -1:
-        print "%20s %03d: MISSING - no %s files present!" % (dirbase, isnap, filebase)
+        print("%20s %03d: MISSING - no %s files present!" % (dirbase, isnap, filebase))
         return False
     else:
-        print "%20s %03d: MISSING - %d of %d %s files present" % (dirbase, isnap, files_ok, nfiles, filebase)
+        print("%20s %03d: MISSING - %d of %d %s files present" % (dirbase, isnap, files_ok, nfiles, filebase))
         return False
 
 
@@ -130,14 +130,14 @@ def check_eagle_run(basedir, num_snaps, num_snips):
             count_expected[filebase] += 1
 
     # Print summary
-    print
-    print "Summary of missing or incomplete directories:"
-    print
+    print()
+    print("Summary of missing or incomplete directories:")
+    print()
     for outtype in count_expected.keys():
         if count_missing[outtype] > 0:
-            print "%30s - %d of %d directories not complete" % (outtype, 
+            print("%30s - %d of %d directories not complete" % (outtype, 
                                                                 count_missing[outtype],
-                                                                count_expected[outtype])
+                                                                count_expected[outtype]))
 
 if __name__ == "__main__":
 
diff --git a/consistency_check/hash/hash_dirs_mpi.py b/consistency_check/hash/hash_dirs_mpi.py
index 79169f9..534f6a5 100644
--- a/consistency_check/hash/hash_dirs_mpi.py
+++ b/consistency_check/hash/hash_dirs_mpi.py
@@ -84,7 +84,7 @@ class DirectoryList:
         if hashes is not None:
             self.all_hashes.update(hashes)
             if self.con is not None:
-                for name, val in hashes.iteritems():
+                for name, val in hashes.items():
                     # Don't store anything if file could not be read or hash was read from database 
                     if name not in self.cache and val is not None:
                         self.con.execute("insert into hashes values(?,?,?,?)", (self.basedir, name, self.hash_type, val))
@@ -145,7 +145,7 @@ def hash_file(fname, hash_type):
         # Read next block of data
         data = f.read(buffer_size)
         # Update hash
-        if data != "":
+        if data != b"":
             m.update(data)
         else:
             break
@@ -202,11 +202,11 @@ def hash_dir(basedir, dirpath, dirnames, filenames,
                     attr = xattr(full_name)
                     attr["user.checksum."+hash_type] = this_hash
                 if cached:
-                    print "Task %4d : %s %s (Cached)" % (comm_rank, this_hash if this_hash is not None else "UNREADABLE", rel_path)
+                    print("Task %4d : %s %s (Cached)" % (comm_rank, this_hash if this_hash is not None else "UNREADABLE", rel_path))
                 else:
-                    print "Task %4d : %s %s" % (comm_rank, this_hash if this_hash is not None else "UNREADABLE", rel_path)
+                    print("Task %4d : %s %s" % (comm_rank, this_hash if this_hash is not None else "UNREADABLE", rel_path))
         else:
-            print "Task %4d : skipping output file %s" % (comm_rank, rel_path)
+            print("Task %4d : skipping output file %s" % (comm_rank, rel_path))
 
     # Get sorted list of names
     sorted_names = sorted(hashes.keys())
@@ -214,7 +214,7 @@ def hash_dir(basedir, dirpath, dirnames, filenames,
     if per_dir_file is not None:
         # Write a file with the hashes for this directory
         hashes_file = os.path.join(dirpath, per_dir_file)
-        f = open(hashes_file, "w")
+        f = open(hashes_file, "w", errors="surrogateescape")
         f.write("# Written at %s UTC on host %s\n" % (datetime.datetime.utcnow().isoformat(), socket.gethostname()))
         f.write("# Hash type: %s\n" % (hash_type,))
         f.write("# Base directory: %s\n" % (os.path.abspath(basedir),))
@@ -266,7 +266,7 @@ def recursive_hash(basedir, include, exclude,
     if all_dirs_file is not None:
         if comm_rank == 0:
             sorted_names = sorted(dirlist.all_hashes.keys())
-            f = open(all_dirs_file, "w")
+            f = open(all_dirs_file, "w", errors="surrogateescape")
             f.write("# Written at %s UTC on host %s\n" % (datetime.datetime.utcnow().isoformat(), socket.gethostname()))
             f.write("# Hash type: %s\n" % (hash_type,))
             f.write("# Base directory: %s\n" % (os.path.abspath(basedir),))
@@ -278,6 +278,8 @@ def recursive_hash(basedir, include, exclude,
 if __name__ == "__main__":
 
     try:
+        # File names may not be valid UTF-8
+        sys.stdout.reconfigure(errors="surrogateescape")
         # Get command line parameters
         if comm_rank == 0:
             parser = argparse.ArgumentParser(description='Calculate hashes for all files under basedir')
diff --git a/consistency_check/p-gadget3/check_pgadget3_file_presence.py b/consistency_check/p-gadget3/check_pgadget3_file_presence.py
index 65ddcce..e29f945 100644
--- a/consistency_check/p-gadget3/check_pgadget3_file_presence.py
+++ b/consistency_check/p-gadget3/check_pgadget3_file_presence.py
@@ -48,13 +48,13 @@ def check_dir(basedir, dirbase, filebase, isnap, get_nfiles_func):
                 if os.path.basename(fname) in fnames:
                     files_ok += 1
     if files_ok == nfiles:
-        print "%20s %03d: OK      - %d of %d %s files present" % (dirbase, isnap, files_ok, nfiles, filebase)
+        print("%20s %03d: OK      - %d of %d %s files present" % (dirbase, isnap, files_ok, nfiles, filebase))
         return True
     elif nfiles == -1:
-        print "%20s %03d: MISSING - no %s files present!" % (dirbase, isnap, filebase)
+        print("%20s %03d: MISSING - no %s files present!" % (dirbase, isnap, filebase))
         return False
     else:
-        print "%20s %03d: MISSING - %d of %d %s files present" % (dirbase, isnap, files_ok, nfiles, filebase)
+        print("%20s %03d: MISSING - %d of %d %s files present" % (dirbase, isnap, files_ok, nfiles, filebase))
         return False
 
 
@@ -100,14 +100,14 @@ def check_pgadget3_run(basedir, snapbase, max_num, first_num, step):
    
 
     # Print summary
-    print
-    print "Summary of missing or incomplete directories:"
-    print
+    print()
+    print("Summary of missing or incomplete directories:")
+    print()
     for outtype in count_expected.keys():
         if count_missing[outtype] > 0:
-            print "%30s - %d of %d directories not complete" % (outtype, 
+            print("%30s - %d of %d directories not complete" % (outtype, 
                                                                 count_missing[outtype],
-                                                                count_expected[outtype])
+                                                                count_expected[outtype]))
 
 if __name__ == "__main__":
 
@@ -122,7 +122,7 @@ if __name__ == "__main__":
         first_num = 0
         step      = 1
     else:
-        print "Incorrect number of arguments!"
+        print("Incorrect number of arguments!")
         sys.exit(1)
 
     check_pgadget3_run(basedir, snapbase, max_num, first_num, step)
diff --git a/examples/millennium-wmap7/python/read_mr7_snapshot_file.py b/examples/millennium-wmap7/python/read_mr7_snapshot_file.py
index a020237..97dbce5 100644
--- a/examples/millennium-wmap7/python/read_mr7_snapshot_file.py
+++ b/examples/millennium-wmap7/python/read_mr7_snapshot_file.py
@@ -16,10 +16,10 @@ f = h5py.File(fname, "r")
 # Read header
 # Can get full list of attributes with f["Header"].keys()
 boxsize = f["Header"].attrs["BoxSize"]
-print "Box size is ", boxsize, " comoving Mpc/h"
+print("Box size is ", boxsize, " comoving Mpc/h")
 
 numpart_thisfile = f["Header"].attrs["NumPart_ThisFile"]
-print "Number of particles in this file is ", numpart_thisfile[1]
+print("Number of particles in this file is ", numpart_thisfile[1])
 
 # Read positions, velocities and IDs
 pos = f["PartType1/Coordinates"][...]
diff --git a/examples/millennium/python/read_subhalo_catalogue.py b/examples/millennium/python/read_subhalo_catalogue.py
index 97152e3..6f2efb7 100644
--- a/examples/millennium/python/read_subhalo_catalogue.py
+++ b/examples/millennium/python/read_subhalo_catalogue.py
@@ -9,7 +9,7 @@ import virgo.sims.millennium as mill
 # Snapshot number to read
 isnap = 63
 
-print "Parent halo, Number of particles, x, y, z, vx, vy, vz"
+print("Parent halo, Number of particles, x, y, z, vx, vy, vz")
 
 # Loop over subtab files in this snapshot
 for ifile in range(512):
@@ -29,6 +29,6 @@ for ifile in range(512):
     vel        = subtab["SubVel"][...]    # Velocity of each subhalo (km/sec peculiar)
 
     for i in range(nsub):
-        print "%d, %d, %14.6f, %14.6f, %14.6f, %14.6f, %14.6f, %14.6f" % (parenthalo[i], len[i], 
+        print("%d, %d, %14.6f, %14.6f, %14.6f, %14.6f, %14.6f, %14.6f" % (parenthalo[i], len[i], 
                                                                           pos[i,0], pos[i,1], pos[i,2],
-                                                                          vel[i,0], vel[i,1], vel[i,2])
+                                                                          vel[i,0], vel[i,1], vel[i,2]))
diff --git a/examples/millennium2/python/compute_rvmax.py b/examples/millennium2/python/compute_rvmax.py
index f7a441f..229c3a8 100644
--- a/examples/millennium2/python/compute_rvmax.py
+++ b/examples/millennium2/python/compute_rvmax.py
@@ -63,9 +63,9 @@ vcirc          = np.zeros(np_interior.shape, dtype=np.float64)
 vcirc[ind]     = np.sqrt(G_SI*m_interior_si[ind]/radius_si[ind]) / 1000.0 # Convert to km/sc
 
 imax = np.argmax(vcirc)
-print "RVmax (from particles) = ", radius[imax]*a # radii from snapshot are comoving
-print "RVmax (from catalogue) = ", cat["SubRVmax"][isub]
+print("RVmax (from particles) = ", radius[imax]*a) # radii from snapshot are comoving
+print("RVmax (from catalogue) = ", cat["SubRVmax"][isub])
 
-print "Vmax (from particles) = ", vcirc[imax]
-print "Vmax (from catalogue) = ", cat["SubVmax"][isub]
+print("Vmax (from particles) = ", vcirc[imax])
+print("Vmax (from catalogue) = ", cat["SubVmax"][isub])
 
-- 
2.43.0


From 88c0b09a1e5cd3a5a0ea0012e57fea33d6dff057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:49 +0000
Subject: [PATCH 37/43] fix: hash_dirs_mpi.py ended with success after an error

---
 consistency_check/hash/hash_dirs_mpi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/consistency_check/hash/hash_dirs_mpi.py b/consistency_check/hash/hash_dirs_mpi.py
index 534f6a5..d3bfdbd 100644
--- a/consistency_check/hash/hash_dirs_mpi.py
+++ b/consistency_check/hash/hash_dirs_mpi.py
@@ -324,6 +324,6 @@ if __name__ == "__main__":
         traceback.print_exc(file=sys.stdout)
         sys.stderr.write("\n\n")
         sys.stderr.flush()
-        comm.Abort()
+        comm.Abort(1)
     else:
         MPI.Finalize()
-- 
2.43.0


From ecff08285239cf9ace6adac12caa890889c72151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:54 +0000
Subject: [PATCH 38/43] fix: parallel_sort: a job refused for invalid arguments
 must not report success to its caller

---
 python/virgo/mpi/parallel_sort.py | 36 +++++++++++++++----------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/python/virgo/mpi/parallel_sort.py b/python/virgo/mpi/parallel_sort.py
index a7737a9..229e70f 100644
--- a/python/virgo/mpi/parallel_sort.py
+++ b/python/virgo/mpi/parallel_sort.py
@@ -217,8 +217,8 @@ def repartition(arr, ndesired, comm=None):
 
     # Check total doesn't change
     if ntot != sum(ndesired):
-        print("repartition() - number of elements must be conserved!")
-        comm.Abort()
+        print("repartition() - number of elements must be conserved!", flush=True)
+        comm.Abort(1)
 
     # Find first index on each processor
     first_on_proc_in  = np.cumsum(nperproc) - nperproc
@@ -534,8 +534,8 @@ def parallel_sort(arr, comm=None, return_index=False, verbose=False):
 
     # mpi4py doesn't like wrong endian data!
     if not(arr.dtype.isnative):
-        print("parallel_sort.py: Unable to operate on non-native endian data!")
-        comm.Abort()
+        print("parallel_sort.py: Unable to operate on non-native endian data!", flush=True)
+        comm.Abort(1)
 
     # Record starting time
     if verbose:
@@ -544,11 +544,11 @@ def parallel_sort(arr, comm=None, return_index=False, verbose=False):
 
     # Sanity check input
     if not(hasattr(arr,"dtype")) or not(hasattr(arr,"shape")):
-        print("Can only sort arrays!")
-        comm.Abort()
+        print("Can only sort arrays!", flush=True)
+        comm.Abort(1)
     if len(arr.shape) != 1:
-        print("Can only sort 1D data!")
-        comm.Abort()
+        print("Can only sort 1D data!", flush=True)
+        comm.Abort(1)
         
     # Make a new communicator containing only processors
     # which have data so we don't have to worry about empty
@@ -776,8 +776,8 @@ def parallel_match(arr1, arr2, arr2_sorted=False, comm=None):
 
     # Sanity checks on input arrays
     if len(arr1.shape) != 1 or len(arr2.shape) != 1:
-        print("Can only match elements between 1D arrays!")
-        comm.Abort()
+        print("Can only match elements between 1D arrays!", flush=True)
+        comm.Abort(1)
 
     # If arr1 has no elements we just return an empty index array
     if comm.allreduce(arr1.shape[0]) == 0:
@@ -924,8 +924,8 @@ def parallel_unique(arr, comm=None, arr_sorted=False, return_counts=False,
 
     # Sanity checks on input arrays
     if len(arr.shape) != 1:
-        print("Can only find unique elements in 1D arrays!")
-        comm.Abort()        
+        print("Can only find unique elements in 1D arrays!", flush=True)
+        comm.Abort(1)        
 
     # Make a new communicator containing only processors
     # which have data so we don't have to worry about empty
@@ -1035,18 +1035,18 @@ def reduce_elements(arr, updates, index, op, comm=None):
 
     # Check that index is 1D
     if len(index.shape) != 1:
-        print("update_elements() - index must be one dimensional!")
-        comm.Abort()
+        print("update_elements() - index must be one dimensional!", flush=True)
+        comm.Abort(1)
 
     # Check that we have the expected number of updates
     if index.shape[0] != updates.shape[0]:
-        print("update_elements() - index and updates must have same first dimension!")
-        comm.Abort()
+        print("update_elements() - index and updates must have same first dimension!", flush=True)
+        comm.Abort(1)
 
     # Check that updates have the same shape as arr (except first dimension)
     if updates.shape[1:] != arr.shape[1:]:
-        print("update_elements() - arr and updates have inconsistent shapes!")
-        comm.Abort()
+        print("update_elements() - arr and updates have inconsistent shapes!", flush=True)
+        comm.Abort(1)
 
     # Find the range of global indexes of arr on each rank
     local_offset = comm.scan(len(arr)) - len(arr)
-- 
2.43.0


From 2fe2c9f05ad1e12b6830f6f6444b72f5dd532f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:58 +0000
Subject: [PATCH 39/43] fix: Eagle file check reported all files missing if the
 directory's name has wildcard characters

---
 consistency_check/eagle/check_eagle_file_presence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/consistency_check/eagle/check_eagle_file_presence.py b/consistency_check/eagle/check_eagle_file_presence.py
index 61f13dc..8e600ac 100644
--- a/consistency_check/eagle/check_eagle_file_presence.py
+++ b/consistency_check/eagle/check_eagle_file_presence.py
@@ -7,7 +7,7 @@ import sys
 import os
 import numpy as np
 import h5py
-from glob import glob
+from glob import glob, escape
 from collections import defaultdict
 
 def eagle_filename(simdir, dirbase, filebase, isnap, ifile, cache={}):
@@ -21,7 +21,7 @@ def eagle_filename(simdir, dirbase, filebase, isnap, ifile, cache={}):
     if key in cache:
         zstring = cache[key]
     else:
-        pattern  = "%s/%s_%03d_z???p???" % (simdir, dirbase, isnap)
+        pattern  = "%s/%s_%03d_z???p???" % (escape(simdir), dirbase, isnap)
         dirnames = glob(pattern)
         if len(dirnames) == 0:
             raise IOError("Unable to find directory %s" % pattern)
-- 
2.43.0


From cdf17eda4674ae2fc4f04a9e248d58b53a5cea3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:39 +0000
Subject: [PATCH 40/43] fix: Python examples check_units.py (Millennium) and
 compute_rvmax.py (Millennium-2) stopped with an error

---
 examples/millennium/python/check_units.py    |  4 +++-
 examples/millennium2/python/compute_rvmax.py | 12 ++----------
 2 files changed, 5 insertions(+), 11 deletions(-)

diff --git a/examples/millennium/python/check_units.py b/examples/millennium/python/check_units.py
index cb9d8ca..0664f2e 100644
--- a/examples/millennium/python/check_units.py
+++ b/examples/millennium/python/check_units.py
@@ -4,6 +4,8 @@
 # run using the particle data.
 #
 
+import numpy as np
+
 from virgo.formats import gadget_snapshot
 from virgo.formats import subfind_lgadget2
 from virgo.util import read_multi, ranges, match
@@ -101,6 +103,6 @@ mean_pos = ranges.sum_ranges(pos, first_particle, num_particles, normalize=True,
 mean_vel = ranges.sum_ranges(vel, first_particle, num_particles, normalize=True, dtype=np.float64) * np.sqrt(a)
 
 # Calculate angular momentum
-am = ranges.sum_ranges(np.cross((pos-mean_pos[subnr,:])*a, (vel-mean_vel[subnr,:])*sqrt(a)), 
+am = ranges.sum_ranges(np.cross((pos-mean_pos[subnr,:])*a, (vel-mean_vel[subnr,:])*np.sqrt(a)), 
                        first_particle, num_particles, normalize=True, dtype=np.float64)
 
diff --git a/examples/millennium2/python/compute_rvmax.py b/examples/millennium2/python/compute_rvmax.py
index 229c3a8..f84747f 100644
--- a/examples/millennium2/python/compute_rvmax.py
+++ b/examples/millennium2/python/compute_rvmax.py
@@ -22,12 +22,9 @@ isub = 43
 # Read group catalogue
 cat = subfind_pgadget3.GroupCatalogue(basedir, snapnum)
 
-# Determine FoF group index which contains subhalo isub
-ifof = cat["SubGrNr"][isub]
-
-# Read particle data for FoF group ifof
+# Read particle data for subhalo isub
 snap = subfind_pgadget3.GroupOrderedSnapshot(basedir, basename, snapnum)
-data = snap.read_fof_group(ifof)
+data = snap.read_subfind_group(isub)
 
 # Get box size and particle mass from one of the snapshot files
 snapfile = snap.open_snap_file(0)
@@ -39,16 +36,11 @@ a        = 1.0/(1.0+redshift)
 pos   = data["Coordinates"]
 vel   = data["Velocities"]
 ids   = data["ParticleIDs"]
-subnr = data["SubNr"]
 
 # Get positions relative to subhalo centre 
 pos_rel = pos - cat["SubPos"][isub,:]
 pos_rel = ((pos_rel+boxsize/2) % boxsize) - boxsize/2
 
-# Discard particles not in subhalo
-ind = (subnr == isub)
-pos_rel = pos_rel[ind,:]
-
 # Get sorted radii of particles
 radius = np.sqrt(np.sum(pos_rel**2, axis=1))
 idx    = np.argsort(radius)
-- 
2.43.0


From 0548d31f6940721b4e78a572390a1b8a6c2aa15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:42 +0000
Subject: [PATCH 41/43] fix: undo the edits of the examples, which are recorded
 as findings instead

---
 .../python/read_mr7_snapshot_file.py          |  4 ++--
 .../fortran/readfofgroupsexample.f90          |  2 +-
 .../millennium/fortran/readgroupsexample.f90  |  2 +-
 examples/millennium/fortran/readregion.f90    | 16 +++++++--------
 examples/millennium/fortran/sort.f90          | 20 +++++++++----------
 examples/millennium/python/check_units.py     |  4 +---
 .../python/read_subhalo_catalogue.py          |  6 +++---
 examples/millennium2/python/compute_rvmax.py  | 20 +++++++++++++------
 8 files changed, 40 insertions(+), 34 deletions(-)

diff --git a/examples/millennium-wmap7/python/read_mr7_snapshot_file.py b/examples/millennium-wmap7/python/read_mr7_snapshot_file.py
index 97dbce5..a020237 100644
--- a/examples/millennium-wmap7/python/read_mr7_snapshot_file.py
+++ b/examples/millennium-wmap7/python/read_mr7_snapshot_file.py
@@ -16,10 +16,10 @@ f = h5py.File(fname, "r")
 # Read header
 # Can get full list of attributes with f["Header"].keys()
 boxsize = f["Header"].attrs["BoxSize"]
-print("Box size is ", boxsize, " comoving Mpc/h")
+print "Box size is ", boxsize, " comoving Mpc/h"
 
 numpart_thisfile = f["Header"].attrs["NumPart_ThisFile"]
-print("Number of particles in this file is ", numpart_thisfile[1])
+print "Number of particles in this file is ", numpart_thisfile[1]
 
 # Read positions, velocities and IDs
 pos = f["PartType1/Coordinates"][...]
diff --git a/examples/millennium/fortran/readfofgroupsexample.f90 b/examples/millennium/fortran/readfofgroupsexample.f90
index 079d195..1330116 100644
--- a/examples/millennium/fortran/readfofgroupsexample.f90
+++ b/examples/millennium/fortran/readfofgroupsexample.f90
@@ -115,7 +115,7 @@ PROGRAM readfofgroups
      zgroup(gidx(i))=z(pidx(j))
   END DO
   WRITE(*,*)'Matched ',nmatched,' particles out of ',nidfile
-  IF(nmatched.LT.nidfile)STOP "Error: Didn't match all particles!"
+  IF(nmatched.LT.nidfile)STOP"Error: Didn't match all particles!"
 
 ! Write positions and FoF group membership to an ascii file
 ! Columns are FoF group ID, then x,y,z coordinates.
diff --git a/examples/millennium/fortran/readgroupsexample.f90 b/examples/millennium/fortran/readgroupsexample.f90
index d663129..9c3c920 100644
--- a/examples/millennium/fortran/readgroupsexample.f90
+++ b/examples/millennium/fortran/readgroupsexample.f90
@@ -111,7 +111,7 @@ PROGRAM readgroupsexample
      zgroup(gidx(i))=z(pidx(j))
   END DO
   WRITE(*,*)'Matched ',nmatched,' particles out of ',nidfile
-  IF(nmatched.LT.nidfile)STOP "Didn't match all particles!"
+  IF(nmatched.LT.nidfile)STOP"Didn't match all particles!"
 
 ! Write positions and group/subgroup membership to an ascii file
 ! Columns are subgroup ID, FoF group ID, then x,y,z coordinates.
diff --git a/examples/millennium/fortran/readregion.f90 b/examples/millennium/fortran/readregion.f90
index 831668b..2bdc596 100644
--- a/examples/millennium/fortran/readregion.f90
+++ b/examples/millennium/fortran/readregion.f90
@@ -43,13 +43,13 @@ LOGICAL, PARAMETER :: verbose = .FALSE.
 INTEGER :: ncells_to_read, ncells_read
 !
 ! Check arrays are not already in use
-IF(ASSOCIATED(x))STOP 'Array x already allocated in getregion()'
-IF(ASSOCIATED(y))STOP 'Array y already allocated in getregion()'
-IF(ASSOCIATED(z))STOP 'Array z already allocated in getregion()'
-IF(ASSOCIATED(ids))STOP 'Array ids already allocated in getregion()'
-IF(ASSOCIATED(vx))STOP 'Array vx already allocated in getregion()'
-IF(ASSOCIATED(vy))STOP 'Array vy already allocated in getregion()'
-IF(ASSOCIATED(vz))STOP 'Array vz already allocated in getregion()'
+IF(ASSOCIATED(x))STOP'Array x already allocated in getregion()'
+IF(ASSOCIATED(y))STOP'Array y already allocated in getregion()'
+IF(ASSOCIATED(z))STOP'Array z already allocated in getregion()'
+IF(ASSOCIATED(ids))STOP'Array ids already allocated in getregion()'
+IF(ASSOCIATED(vx))STOP'Array vx already allocated in getregion()'
+IF(ASSOCIATED(vy))STOP'Array vy already allocated in getregion()'
+IF(ASSOCIATED(vz))STOP'Array vz already allocated in getregion()'
 !
 ! Now read in the whole hash table
 !
@@ -201,7 +201,7 @@ DO WHILE (ihash.LT.nhash)
    END IF
    ihash=ihash+1
 END DO
-IF(iopen.GE.0)CALL close_gadget()
+CALL close_gadget()
 
 END SUBROUTINE
 END MODULE
diff --git a/examples/millennium/fortran/sort.f90 b/examples/millennium/fortran/sort.f90
index 8868d8e..93a8e6b 100644
--- a/examples/millennium/fortran/sort.f90
+++ b/examples/millennium/fortran/sort.f90
@@ -58,7 +58,7 @@ contains
 
     ! Check array sizes
     n = size(arr)
-    if(size(idx).lt.n)stop 'sort_index(): Index array is too small!'
+    if(size(idx).lt.n)stop'sort_index(): Index array is too small!'
 
     ! If we have 0 or 1 elements, no sorting required!
     if(n.eq.0)return
@@ -174,7 +174,7 @@ contains
 
     ! Check array sizes
     n = size(arr)
-    if(size(idx).lt.n)stop 'sort_index(): Index array is too small!'
+    if(size(idx).lt.n)stop'sort_index(): Index array is too small!'
 
     ! If we have 0 or 1 elements, no sorting required!
     if(n.eq.0)return
@@ -290,7 +290,7 @@ contains
 
     ! Check array sizes
     n = size(arr)
-    if(size(idx).lt.n)stop 'sort_index(): Index array is too small!'
+    if(size(idx).lt.n)stop'sort_index(): Index array is too small!'
 
     ! If we have 0 or 1 elements, no sorting required!
     if(n.eq.0)return
@@ -406,7 +406,7 @@ contains
 
     ! Check array sizes
     n = size(arr)
-    if(size(idx).lt.n)stop 'sort_index(): Index array is too small!'
+    if(size(idx).lt.n)stop'sort_index(): Index array is too small!'
 
     ! If we have 0 or 1 elements, no sorting required!
     if(n.eq.0)return
@@ -526,7 +526,7 @@ contains
 
     ! Check array sizes
     n = size(arr)
-    if(size(idx).lt.n)stop 'sort_index(): Index array is too small!'
+    if(size(idx).lt.n)stop'sort_index(): Index array is too small!'
 
     ! If we have 0 or 1 elements, no sorting required!
     if(n.eq.0)return
@@ -647,7 +647,7 @@ contains
 
     ! Check array sizes
     n = size(arr)
-    if(size(idx).lt.n)stop 'sort_index(): Index array is too small!'
+    if(size(idx).lt.n)stop'sort_index(): Index array is too small!'
 
     ! If we have 0 or 1 elements, no sorting required!
     if(n.eq.0)return
@@ -763,7 +763,7 @@ contains
 
     ! Check array sizes
     n = size(arr)
-    if(size(idx).lt.n)stop 'sort_index(): Index array is too small!'
+    if(size(idx).lt.n)stop'sort_index(): Index array is too small!'
 
     ! If we have 0 or 1 elements, no sorting required!
     if(n.eq.0)return
@@ -879,7 +879,7 @@ contains
 
     ! Check array sizes
     n = size(arr)
-    if(size(idx).lt.n)stop 'sort_index(): Index array is too small!'
+    if(size(idx).lt.n)stop'sort_index(): Index array is too small!'
 
     ! If we have 0 or 1 elements, no sorting required!
     if(n.eq.0)return
@@ -995,7 +995,7 @@ contains
 
     ! Check array sizes
     n = size(arr)
-    if(size(idx).lt.n)stop 'sort_index(): Index array is too small!'
+    if(size(idx).lt.n)stop'sort_index(): Index array is too small!'
 
     ! If we have 0 or 1 elements, no sorting required!
     if(n.eq.0)return
@@ -1115,7 +1115,7 @@ contains
 
     ! Check array sizes
     n = size(arr)
-    if(size(idx).lt.n)stop 'sort_index(): Index array is too small!'
+    if(size(idx).lt.n)stop'sort_index(): Index array is too small!'
 
     ! If we have 0 or 1 elements, no sorting required!
     if(n.eq.0)return
diff --git a/examples/millennium/python/check_units.py b/examples/millennium/python/check_units.py
index 0664f2e..cb9d8ca 100644
--- a/examples/millennium/python/check_units.py
+++ b/examples/millennium/python/check_units.py
@@ -4,8 +4,6 @@
 # run using the particle data.
 #
 
-import numpy as np
-
 from virgo.formats import gadget_snapshot
 from virgo.formats import subfind_lgadget2
 from virgo.util import read_multi, ranges, match
@@ -103,6 +101,6 @@ mean_pos = ranges.sum_ranges(pos, first_particle, num_particles, normalize=True,
 mean_vel = ranges.sum_ranges(vel, first_particle, num_particles, normalize=True, dtype=np.float64) * np.sqrt(a)
 
 # Calculate angular momentum
-am = ranges.sum_ranges(np.cross((pos-mean_pos[subnr,:])*a, (vel-mean_vel[subnr,:])*np.sqrt(a)), 
+am = ranges.sum_ranges(np.cross((pos-mean_pos[subnr,:])*a, (vel-mean_vel[subnr,:])*sqrt(a)), 
                        first_particle, num_particles, normalize=True, dtype=np.float64)
 
diff --git a/examples/millennium/python/read_subhalo_catalogue.py b/examples/millennium/python/read_subhalo_catalogue.py
index 6f2efb7..97152e3 100644
--- a/examples/millennium/python/read_subhalo_catalogue.py
+++ b/examples/millennium/python/read_subhalo_catalogue.py
@@ -9,7 +9,7 @@ import virgo.sims.millennium as mill
 # Snapshot number to read
 isnap = 63
 
-print("Parent halo, Number of particles, x, y, z, vx, vy, vz")
+print "Parent halo, Number of particles, x, y, z, vx, vy, vz"
 
 # Loop over subtab files in this snapshot
 for ifile in range(512):
@@ -29,6 +29,6 @@ for ifile in range(512):
     vel        = subtab["SubVel"][...]    # Velocity of each subhalo (km/sec peculiar)
 
     for i in range(nsub):
-        print("%d, %d, %14.6f, %14.6f, %14.6f, %14.6f, %14.6f, %14.6f" % (parenthalo[i], len[i], 
+        print "%d, %d, %14.6f, %14.6f, %14.6f, %14.6f, %14.6f, %14.6f" % (parenthalo[i], len[i], 
                                                                           pos[i,0], pos[i,1], pos[i,2],
-                                                                          vel[i,0], vel[i,1], vel[i,2]))
+                                                                          vel[i,0], vel[i,1], vel[i,2])
diff --git a/examples/millennium2/python/compute_rvmax.py b/examples/millennium2/python/compute_rvmax.py
index f84747f..f7a441f 100644
--- a/examples/millennium2/python/compute_rvmax.py
+++ b/examples/millennium2/python/compute_rvmax.py
@@ -22,9 +22,12 @@ isub = 43
 # Read group catalogue
 cat = subfind_pgadget3.GroupCatalogue(basedir, snapnum)
 
-# Read particle data for subhalo isub
+# Determine FoF group index which contains subhalo isub
+ifof = cat["SubGrNr"][isub]
+
+# Read particle data for FoF group ifof
 snap = subfind_pgadget3.GroupOrderedSnapshot(basedir, basename, snapnum)
-data = snap.read_subfind_group(isub)
+data = snap.read_fof_group(ifof)
 
 # Get box size and particle mass from one of the snapshot files
 snapfile = snap.open_snap_file(0)
@@ -36,11 +39,16 @@ a        = 1.0/(1.0+redshift)
 pos   = data["Coordinates"]
 vel   = data["Velocities"]
 ids   = data["ParticleIDs"]
+subnr = data["SubNr"]
 
 # Get positions relative to subhalo centre 
 pos_rel = pos - cat["SubPos"][isub,:]
 pos_rel = ((pos_rel+boxsize/2) % boxsize) - boxsize/2
 
+# Discard particles not in subhalo
+ind = (subnr == isub)
+pos_rel = pos_rel[ind,:]
+
 # Get sorted radii of particles
 radius = np.sqrt(np.sum(pos_rel**2, axis=1))
 idx    = np.argsort(radius)
@@ -55,9 +63,9 @@ vcirc          = np.zeros(np_interior.shape, dtype=np.float64)
 vcirc[ind]     = np.sqrt(G_SI*m_interior_si[ind]/radius_si[ind]) / 1000.0 # Convert to km/sc
 
 imax = np.argmax(vcirc)
-print("RVmax (from particles) = ", radius[imax]*a) # radii from snapshot are comoving
-print("RVmax (from catalogue) = ", cat["SubRVmax"][isub])
+print "RVmax (from particles) = ", radius[imax]*a # radii from snapshot are comoving
+print "RVmax (from catalogue) = ", cat["SubRVmax"][isub]
 
-print("Vmax (from particles) = ", vcirc[imax])
-print("Vmax (from catalogue) = ", cat["SubVmax"][isub])
+print "Vmax (from particles) = ", vcirc[imax]
+print "Vmax (from catalogue) = ", cat["SubVmax"][isub]
 
-- 
2.43.0


From 294d25a2abfacddc76d7fd148cf63587bc9cda0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:20 +0000
Subject: [PATCH 42/43] fix: collective I/O of datasets with a trailing
 dimension of size zero divided by zero

---
 python/virgo/mpi/parallel_hdf5.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/virgo/mpi/parallel_hdf5.py b/python/virgo/mpi/parallel_hdf5.py
index 447bf96..a86740b 100644
--- a/python/virgo/mpi/parallel_hdf5.py
+++ b/python/virgo/mpi/parallel_hdf5.py
@@ -122,7 +122,7 @@ def collective_read(dataset, comm, buffer_size=None):
     # Determine offsets to read at on each task
     offset_on_task = np.cumsum(num_on_task) - num_on_task
 
-    if ntot < 10*comm_size:
+    if ntot < 10*comm_size or 0 in dataset.shape:
         # If the dataset is small, read on one rank and broadcast
         if comm_rank == 0:
             data = dataset[...]
@@ -243,7 +243,7 @@ def collective_write(group, name, data, comm, buffer_size=None, create_dataset=T
 
     # Determine slice to write
     file_offset   = offset_on_task[comm_rank]
-    nr_left       = num_on_task[comm_rank]
+    nr_left       = num_on_task[comm_rank] if 0 not in shape_local else 0
     memory_offset = 0
 
     # Determine how many elements we can write per iteration
@@ -251,7 +251,7 @@ def collective_write(group, name, data, comm, buffer_size=None, create_dataset=T
     for s in full_shape[1:]:
         element_size *= s
     # (need to write at least one element at a time to make progress)
-    max_elements = max(1, buffer_size // element_size)
+    max_elements = max(1, buffer_size // max(1, element_size))
 
     # We need to use the low level interface here because the h5py high
     # level interface omits zero sized writes, which causes a hang in
-- 
2.43.0


From 2cb45f57e7076f9f42e7907d5f3b0cbcb78e3422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:54 +0000
Subject: [PATCH 43/43] fix: eagle_filename found nothing in directories whose
 name has wildcard characters

---
 python/virgo/sims/eagle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/sims/eagle.py b/python/virgo/sims/eagle.py
index b3c4586..e32a9e3 100644
--- a/python/virgo/sims/eagle.py
+++ b/python/virgo/sims/eagle.py
@@ -31,7 +31,7 @@ def eagle_filename(basedir, basename, isnap, ifile, cache={}):
     else:
         # Don't know the redshift label, so need to access filesystem with glob
         pattern = ("%s/%s_%03d_z???p???/%s_%03d_z???p???.%d.hdf5" % 
-                   (basedir, dir_name, isnap, basename, isnap, ifile))
+                   (glob.escape(str(basedir)), dir_name, isnap, basename, isnap, ifile))
         fname = glob.glob(pattern)
         if len(fname) != 1:
             raise IOError("Unable to find single file matching %s" % pattern)
-- 
2.43.0

