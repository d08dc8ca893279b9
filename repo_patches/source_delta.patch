From 425b02be775579309b3b7653d577366affed6096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:20 +0000
Subject: [PATCH 01/44] fix: wait for the receive request in MPIArray.gather

On the gathering rank the send request overwrote the receive request, so the
receive of its own block was never completed before the buffer was read.
---
 caput/mpiarray.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index 69bba87..f94f3d2 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -1548,15 +1548,17 @@ class MPIArray(np.ndarray):
                 tbuf = np.empty(tshape, dtype=self.dtype)
 
                 # Set up the non-blocking receive request
-                request = self.comm.Irecv(self._prep_buf(tbuf), source=ri)
+                recv_request = self.comm.Irecv(self._prep_buf(tbuf), source=ri)
 
             # Send the data
             if self.comm.rank == ri:
-                request = self.comm.Isend(self._prep_buf(self.local_array), dest=rank)
+                send_request = self.comm.Isend(
+                    self._prep_buf(self.local_array), dest=rank
+                )
 
                 # Wait until the data has been sent
                 stat = mpitools.MPI.Status()
-                request.Wait(status=stat)
+                send_request.Wait(status=stat)
 
                 if stat.error != mpitools.MPI.SUCCESS:
                     raise RuntimeError(
@@ -1566,7 +1568,7 @@ class MPIArray(np.ndarray):
             if self.comm.rank == rank:
                 # Wait until the data has arrived
                 stat = mpitools.MPI.Status()
-                request.Wait(status=stat)
+                recv_request.Wait(status=stat)
 
                 if stat.error != mpitools.MPI.SUCCESS:
                     raise RuntimeError(
-- 
2.43.0


From 4591606072bdb4118639874803971086960157f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:20 +0000
Subject: [PATCH 02/44] fix: complete the close messages in mpitools.close

The non-blocking sends were dropped without being waited for.
---
 caput/util/mpitools.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/caput/util/mpitools.py b/caput/util/mpitools.py
index fc4521c..efc0045 100644
--- a/caput/util/mpitools.py
+++ b/caput/util/mpitools.py
@@ -452,8 +452,11 @@ def close(aprocs: list) -> None:
     Waiting process include all processes **NOT** listed in `aprocs`.
     """
     if rank0 and _comm is not None:
-        for i in list(set(range(size)) - set(aprocs)):
+        requests = [
             _comm.isend(_close_message(), dest=i)
+            for i in sorted(set(range(size)) - set(aprocs))
+        ]
+        MPI.Request.waitall(requests)
 
 
 # Distributed Partitioning
-- 
2.43.0


From b43caba63fb69482f513a280e2607dc537fcf141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:21 +0000
Subject: [PATCH 03/44] fix: complete the sends in CheckMPIEnvironment

The send requests were dropped, and the result flag was unbound when the
timeout expired before the first poll.
---
 caput/pipeline/tasklib/debug.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/caput/pipeline/tasklib/debug.py b/caput/pipeline/tasklib/debug.py
index 7f191de..5e7224e 100644
--- a/caput/pipeline/tasklib/debug.py
+++ b/caput/pipeline/tasklib/debug.py
@@ -42,9 +42,10 @@ class CheckMPIEnvironment(MPILoggedTask):
             recv = (comm.rank - i) % comm.size
 
             results.append(comm.Irecv(recvs[recv, :], recv))
-            comm.Isend(sends[comm.rank, :], send)
+            results.append(comm.Isend(sends[comm.rank, :], send))
 
         start_time = time.time()
+        success = False
 
         while time.time() - start_time < self.timeout:
             success = all(r.get_status() for r in results)
-- 
2.43.0


From a57c631f29c9ecf928fbd85a07d20797cb2ad9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:21 +0000
Subject: [PATCH 04/44] fix: open HDF5 output on the array's own communicator

The communicator was passed positionally as use_mpi.
---
 caput/mpiarray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index f94f3d2..84a4928 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -1132,7 +1132,7 @@ class MPIArray(np.ndarray):
         from .memdata._io import open_h5py_mpi
 
         mode = "a" if create else "r+"
-        fh = open_h5py_mpi(f, mode, self.comm)
+        fh = open_h5py_mpi(f, mode, comm=self.comm)
 
         sel = self._make_selections()
 
-- 
2.43.0


From e8605ce2297cbf05b30c6ab84744e082517d999d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:43 +0000
Subject: [PATCH 05/44] fix: always remove the lock file in lock_file.__exit__

If the temporary file did not exist yet (or was a zarr directory) the clean-up
raised, hiding the original error and leaving the lock file behind.
---
 caput/memdata/_io.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/caput/memdata/_io.py b/caput/memdata/_io.py
index 09bddec..a3bc762 100644
--- a/caput/memdata/_io.py
+++ b/caput/memdata/_io.py
@@ -8,6 +8,8 @@ from __future__ import annotations
 
 import os
 
+from .fileformats import remove_file_or_dir
+
 
 def open_h5py_mpi(f, mode, use_mpi=True, comm=None):
     """Ensure that we have an h5py File object.
@@ -108,16 +110,17 @@ class lock_file:
 
     def __exit__(self, exc_type, exc_val, exc_tb):
         if self.rank0:
-            # Check if exception was raised and delete the temp file if needed
-            if exc_type is not None:
-                if not self.preserve:
-                    os.remove(self.tmpfile)
-            # Otherwise things were successful and we should move the file over
-            else:
-                os.rename(self.tmpfile, self.filename)
-
-            # Finally remove the lock file
-            os.remove(self.lockfile)
+            try:
+                # Check if exception was raised and delete the temp file if needed
+                if exc_type is not None:
+                    if not self.preserve:
+                        remove_file_or_dir(self.tmpfile)
+                # Otherwise things were successful and we should move the file over
+                else:
+                    os.rename(self.tmpfile, self.filename)
+            finally:
+                # Finally remove the lock file
+                os.remove(self.lockfile)
 
         return False
 
-- 
2.43.0


From 54c456e9db5f0636fb63633bf9e6cfba0fcf466d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:40 +0000
Subject: [PATCH 06/44] fix: close the files opened in mpitools on every path

---
 caput/util/mpitools.py | 53 +++++++++++++++++++++---------------------
 1 file changed, 27 insertions(+), 26 deletions(-)

diff --git a/caput/util/mpitools.py b/caput/util/mpitools.py
index efc0045..882b39e 100644
--- a/caput/util/mpitools.py
+++ b/caput/util/mpitools.py
@@ -270,7 +270,8 @@ def available_memory_shared() -> int:
     """
     # These files aren't very big so we can just read the whole thing
     try:
-        cgrouptxt = open(f"/proc/{os.getpid()}/cgroup").read()
+        with open(f"/proc/{os.getpid()}/cgroup") as fh:
+            cgrouptxt = fh.read()
     except FileNotFoundError:
         # No cgroup file means no cgroup
         return psutil.virtual_memory().available
@@ -291,8 +292,10 @@ def available_memory_shared() -> int:
     # Look at memory.stat file for the current process.
     # This should only be reached if the process is in a v1 cgroup
     try:
-        memorystat = open(f"/sys/fs/cgroup/memory/{cgroup}/memory.stat").read()
-        mem_used = open(f"/sys/fs/cgroup/memory/{cgroup}/memory.usage_in_bytes").read()
+        with open(f"/sys/fs/cgroup/memory/{cgroup}/memory.stat") as fh:
+            memorystat = fh.read()
+        with open(f"/sys/fs/cgroup/memory/{cgroup}/memory.usage_in_bytes") as fh:
+            mem_used = fh.read()
     except OSError as e:
         # It doesn't really matter why this failed but it should inform
         # about failure. This probably shouldn't happen anyway
@@ -882,25 +885,22 @@ def allocate_hdf5_dataset(
 
     if comm is None or comm.rank == 0:
         # Create/open file
-        f = h5py.File(fname, "a")
+        with h5py.File(fname, "a") as f:
+            # Create dataspace and HDF5 datatype
+            sp = h5py.h5s.create_simple(shape, shape)
+            tp = h5py.h5t.py_create(dtype)
 
-        # Create dataspace and HDF5 datatype
-        sp = h5py.h5s.create_simple(shape, shape)
-        tp = h5py.h5t.py_create(dtype)
+            # Create a new plist and tell it to allocate the space for dataset
+            # immediately, but don't fill the file with zeros.
+            plist = h5py.h5p.create(h5py.h5p.DATASET_CREATE)
+            plist.set_alloc_time(h5py.h5d.ALLOC_TIME_EARLY)
+            plist.set_fill_time(h5py.h5d.FILL_TIME_NEVER)
 
-        # Create a new plist and tell it to allocate the space for dataset
-        # immediately, but don't fill the file with zeros.
-        plist = h5py.h5p.create(h5py.h5p.DATASET_CREATE)
-        plist.set_alloc_time(h5py.h5d.ALLOC_TIME_EARLY)
-        plist.set_fill_time(h5py.h5d.FILL_TIME_NEVER)
+            # Create the dataset
+            dset = h5py.h5d.create(f.id, dsetname, tp, sp, plist)
 
-        # Create the dataset
-        dset = h5py.h5d.create(f.id, dsetname, tp, sp, plist)
-
-        # Get the offset of the dataset into the file.
-        state = dset.get_offset(), dset.get_storage_size()
-
-        f.close()
+            # Get the offset of the dataset into the file.
+            state = dset.get_offset(), dset.get_storage_size()
 
     # state = comm.bcast(state, root=0)
     return bcast(state, root=0, comm=comm)
@@ -934,16 +934,17 @@ def lock_and_write_buffer(obj: object, fname: str, offset: int, size: int) -> No
 
     fd = os.open(fname, os.O_RDWR | os.O_CREAT)
 
-    fcntl.lockf(fd, fcntl.LOCK_EX, size, offset, os.SEEK_SET)
-
-    nb = os.write(fd, buf)
+    try:
+        fcntl.lockf(fd, fcntl.LOCK_EX, size, offset, os.SEEK_SET)
 
-    if nb != len(buf):
-        raise Exception("Something funny happened with the reading.")
+        nb = os.write(fd, buf)
 
-    fcntl.lockf(fd, fcntl.LOCK_UN)
+        if nb != len(buf):
+            raise Exception("Something funny happened with the reading.")
 
-    os.close(fd)
+        fcntl.lockf(fd, fcntl.LOCK_UN)
+    finally:
+        os.close(fd)
 
 
 def parallel_rows_write_hdf5(
-- 
2.43.0


From e417c90105b0ee7f5690de36b360b3df4348715b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:53 +0000
Subject: [PATCH 07/44] fix: close the HDF5 file on error in MPIArray.from_file
 and to_hdf5

---
 caput/mpiarray.py | 233 +++++++++++++++++++++++-----------------------
 1 file changed, 119 insertions(+), 114 deletions(-)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index 84a4928..09fa8a7 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -1014,75 +1014,76 @@ class MPIArray(np.ndarray):
                     f"Can't write to {f} (Expected a {file_format.module.__name__}.Group or str filename)."
                 )
 
-        dset = fh[dataset]
-        dshape = dset.shape  # Shape of the underlying dataset
-        naxis = len(dshape)
-        dtype = np.dtype(dset.dtype)
+        try:
+            dset = fh[dataset]
+            dshape = dset.shape  # Shape of the underlying dataset
+            naxis = len(dshape)
+            dtype = np.dtype(dset.dtype)
 
-        # Check that the axis is valid and wrap to an actual position
-        if axis < -naxis or axis >= naxis:
-            raise AxisException(
-                f"Distributed axis {axis} not in range ({-naxis}, {naxis - 1})"
-            )
-        axis = naxis + axis if axis < 0 else axis
+            # Check that the axis is valid and wrap to an actual position
+            if axis < -naxis or axis >= naxis:
+                raise AxisException(
+                    f"Distributed axis {axis} not in range ({-naxis}, {naxis - 1})"
+                )
+            axis = naxis + axis if axis < 0 else axis
 
-        # Ensure sel is defined to cover all axes
-        sel: list = _expand_sel(sel, naxis)
+            # Ensure sel is defined to cover all axes
+            sel: list = _expand_sel(sel, naxis)
 
-        # Figure out the final array size and create it
-        gshape = []
-        for l, sl in zip(dshape, sel):
-            gshape.append(_len_slice(sl, l))
-        dist_arr = cls(gshape, axis=axis, comm=comm, dtype=dtype)
+            # Figure out the final array size and create it
+            gshape = []
+            for l, sl in zip(dshape, sel):
+                gshape.append(_len_slice(sl, l))
+            dist_arr = cls(gshape, axis=axis, comm=comm, dtype=dtype)
 
-        # Get the local start and end indices
-        lstart = dist_arr.local_offset[axis]
-        lend = lstart + dist_arr.local_shape[axis]
+            # Get the local start and end indices
+            lstart = dist_arr.local_offset[axis]
+            lend = lstart + dist_arr.local_shape[axis]
 
-        # Create the slice object into the dataset by resolving the rank's slice on the
-        # sel
-        sel[axis] = _reslice(sel[axis], dshape[axis], slice(lstart, lend))
-        sel: tuple = tuple(sel)
+            # Create the slice object into the dataset by resolving the rank's slice on the
+            # sel
+            sel[axis] = _reslice(sel[axis], dshape[axis], slice(lstart, lend))
+            sel: tuple = tuple(sel)
 
-        if file_format == fileformats.HDF5:
-            # Split the axis to get the IO size under ~2GB (only if MPI-IO)
-            split_axis, partitions = dist_arr._partition_io(skip=(not fh.is_mpi))
+            if file_format == fileformats.HDF5:
+                # Split the axis to get the IO size under ~2GB (only if MPI-IO)
+                split_axis, partitions = dist_arr._partition_io(skip=(not fh.is_mpi))
 
-            # Check that there are no null slices, otherwise we need to turn off
-            # collective IO to work around an h5py issue (#965)
-            no_null_slices = dist_arr.global_shape[axis] >= dist_arr.comm.size
+                # Check that there are no null slices, otherwise we need to turn off
+                # collective IO to work around an h5py issue (#965)
+                no_null_slices = dist_arr.global_shape[axis] >= dist_arr.comm.size
 
-            if fh.is_mpi and no_null_slices:
-                iocontext = dset.collective
+                if fh.is_mpi and no_null_slices:
+                    iocontext = dset.collective
+                else:
+                    from contextlib import nullcontext
+
+                    iocontext = nullcontext()
+
+                # Read using collective MPI-IO if specified
+                with iocontext:
+                    # Loop over partitions of the IO and perform them
+                    for part in partitions:
+                        islice, fslice = _partition_sel(
+                            sel, split_axis, dshape[split_axis], part
+                        )
+                        if dtype.byteorder == "=":
+                            # Native dtype so use `read_direct` to limit copies. This won't
+                            # necessarily always be faster, but it should never be slower
+                            dset.read_direct(dist_arr, islice, fslice)
+                        else:
+                            # There's a bug in `h5py` which causes endianess conversions
+                            # to be very slow, so it's faster to just read and let numpy
+                            # do the conversion. I haven't quite nailed down the cases where
+                            # this happens, so for now just do it most of the time.
+                            # https://github.com/h5py/h5py/issues/1851
+                            dist_arr[fslice] = dset[islice]
             else:
-                from contextlib import nullcontext
-
-                iocontext = nullcontext()
-
-            # Read using collective MPI-IO if specified
-            with iocontext:
-                # Loop over partitions of the IO and perform them
-                for part in partitions:
-                    islice, fslice = _partition_sel(
-                        sel, split_axis, dshape[split_axis], part
-                    )
-                    if dtype.byteorder == "=":
-                        # Native dtype so use `read_direct` to limit copies. This won't
-                        # necessarily always be faster, but it should never be slower
-                        dset.read_direct(dist_arr, islice, fslice)
-                    else:
-                        # There's a bug in `h5py` which causes endianess conversions
-                        # to be very slow, so it's faster to just read and let numpy
-                        # do the conversion. I haven't quite nailed down the cases where
-                        # this happens, so for now just do it most of the time.
-                        # https://github.com/h5py/h5py/issues/1851
-                        dist_arr[fslice] = dset[islice]
-
-            if fh.opened:
+                # If using zarr we can directly read the full dataset into the final array
+                dset.get_basic_selection(sel, out=dist_arr.local_array)
+        finally:
+            if file_format == fileformats.HDF5 and fh.opened:
                 fh.close()
-        else:
-            # If using zarr we can directly read the full dataset into the final array
-            dset.get_basic_selection(sel, out=dist_arr.local_array)
 
         return dist_arr
 
@@ -1134,67 +1135,71 @@ class MPIArray(np.ndarray):
         mode = "a" if create else "r+"
         fh = open_h5py_mpi(f, mode, comm=self.comm)
 
-        sel = self._make_selections()
-
-        # Split the axis to get the IO size under ~2GB (only if MPI-IO)
-        split_axis, partitions = self._partition_io(skip=(not fh.is_mpi))
+        try:
+            sel = self._make_selections()
 
-        dset = _create_or_get_dset(
-            fh,
-            dataset,
-            shape=self.global_shape,
-            dtype=self.dtype,
-            chunks=chunks,
-            compression=compression,
-            compression_opts=compression_opts,
-        )
+            # Split the axis to get the IO size under ~2GB (only if MPI-IO)
+            split_axis, partitions = self._partition_io(skip=(not fh.is_mpi))
 
-        # Decide whether to use collective IO. There are a few relevant aspects to this
-        # one:
-        # - we must use collective IO if writing chunked/compressed data. If it's not
-        #   available we cannot compress the data
-        # - we cannot use collective IO if there are null slices present (h5py bug)
-        # TODO: change if h5py bug fixed https://github.com/h5py/h5py/issues/965
-        no_null_slices = self.global_shape[self.axis] >= self.comm.size
-
-        if fh.is_mpi and no_null_slices:
-            # We can use collective IO
-            iocontext = dset.collective
-        elif compression is not None:
-            # There's a logic case here where `fh.is_mpi` is False but compression
-            # is set. In theory, this should never be possible since we checked
-            # for MPI support at the start of this function
-            raise RuntimeError(
-                "Cannot use collective IO, must disable compression. "
-                f"MPI enabled: {fh.is_mpi}, null slice present: {not no_null_slices}."
+            dset = _create_or_get_dset(
+                fh,
+                dataset,
+                shape=self.global_shape,
+                dtype=self.dtype,
+                chunks=chunks,
+                compression=compression,
+                compression_opts=compression_opts,
             )
-        else:
-            # We cannot use collective IO, so use a dummy context manager
-            from contextlib import nullcontext
 
-            iocontext = nullcontext()
+            # Decide whether to use collective IO. There are a few relevant aspects to this
+            # one:
+            # - we must use collective IO if writing chunked/compressed data. If it's not
+            #   available we cannot compress the data
+            # - we cannot use collective IO if there are null slices present (h5py bug)
+            # TODO: change if h5py bug fixed https://github.com/h5py/h5py/issues/965
+            no_null_slices = self.global_shape[self.axis] >= self.comm.size
 
-        # Read using collective MPI-IO if specified
-        with iocontext:
-            # Loop over partitions of the IO and perform them
-            for part in partitions:
-                islice, fslice = _partition_sel(
-                    sel, split_axis, self.global_shape[split_axis], part
+            if fh.is_mpi and no_null_slices:
+                # We can use collective IO
+                iocontext = dset.collective
+            elif compression is not None:
+                # There's a logic case here where `fh.is_mpi` is False but compression
+                # is set. In theory, this should never be possible since we checked
+                # for MPI support at the start of this function
+                raise RuntimeError(
+                    "Cannot use collective IO, must disable compression. "
+                    f"MPI enabled: {fh.is_mpi}, null slice present: {not no_null_slices}."
                 )
-                if np.dtype(dset.dtype).byteorder == "=" and self.flags["C_CONTIGUOUS"]:
-                    # Native dtype and C contiguous so use `write_direct` to limit copies.
-                    # This won't necessarily always be faster, but it should never be slower
-                    dset.write_direct(self, fslice, islice)
-                else:
-                    # There's a bug in `h5py` which causes endianess conversions
-                    # to be very slow, so it's faster to just write and let numpy
-                    # do the conversion. I haven't quite nailed down the cases where
-                    # this happens, so for now just do it most of the time.
-                    # https://github.com/h5py/h5py/issues/1851
-                    dset[islice] = self[fslice]
-
-        if fh.opened:
-            fh.close()
+            else:
+                # We cannot use collective IO, so use a dummy context manager
+                from contextlib import nullcontext
+
+                iocontext = nullcontext()
+
+            # Read using collective MPI-IO if specified
+            with iocontext:
+                # Loop over partitions of the IO and perform them
+                for part in partitions:
+                    islice, fslice = _partition_sel(
+                        sel, split_axis, self.global_shape[split_axis], part
+                    )
+                    if (
+                        np.dtype(dset.dtype).byteorder == "="
+                        and self.flags["C_CONTIGUOUS"]
+                    ):
+                        # Native dtype and C contiguous so use `write_direct` to limit copies.
+                        # This won't necessarily always be faster, but it should never be slower
+                        dset.write_direct(self, fslice, islice)
+                    else:
+                        # There's a bug in `h5py` which causes endianess conversions
+                        # to be very slow, so it's faster to just write and let numpy
+                        # do the conversion. I haven't quite nailed down the cases where
+                        # this happens, so for now just do it most of the time.
+                        # https://github.com/h5py/h5py/issues/1851
+                        dset[islice] = self[fslice]
+        finally:
+            if fh.opened:
+                fh.close()
 
     def to_zarr(
         self,
-- 
2.43.0


From d40d8bb3695b8435f2b4fb006e12770c564828ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:39 +0000
Subject: [PATCH 08/44] fix: close files opened by name in TODReader, debug
 tasks and MemDiskGroup

---
 caput/containers/tod.py         | 18 ++++++++++--------
 caput/memdata/_memh5.py         |  2 +-
 caput/pipeline/tasklib/debug.py | 10 ++++------
 3 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/caput/containers/tod.py b/caput/containers/tod.py
index dd2df28..5719b2e 100644
--- a/caput/containers/tod.py
+++ b/caput/containers/tod.py
@@ -182,14 +182,16 @@ class TODReader:
         time = np.copy(data_empty.time)
         first_file, toclose = memdata._memh5.get_file(files[0], file_format=file_format)
 
-        # HACK: we need to aget the time_axes into _copy_non_time_data, this
-        # makes it work, although I'm not sure how it ever worked correctly
-        # previously
-        first_file.time_axes = data_empty.time_axes
-        datasets = _copy_non_time_data(first_file)
-        # Zarr arrays are flushed automatically flushed and closed
-        if toclose and (file_format == memdata.fileformats.HDF5):
-            first_file.close()
+        try:
+            # HACK: we need to aget the time_axes into _copy_non_time_data, this
+            # makes it work, although I'm not sure how it ever worked correctly
+            # previously
+            first_file.time_axes = data_empty.time_axes
+            datasets = _copy_non_time_data(first_file)
+        finally:
+            # Zarr arrays are flushed automatically flushed and closed
+            if toclose and isinstance(first_file, h5py.File):
+                first_file.close()
 
         # Set the metadata attributes.
         self._files: tuple = tuple(files)
diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index a782107..2937ff0 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -1671,7 +1671,7 @@ class MemDiskGroup(_BaseGroup):
                 data_group, mode="a", file_format=file_format
             )
             # Zarr arrays are automatically flushed and closed
-            toclose = False if file_format == fileformats.HDF5 else toclose
+            toclose = toclose and isinstance(data_group, h5py.File)
 
         # Check the distribution settings
         if distributed:
diff --git a/caput/pipeline/tasklib/debug.py b/caput/pipeline/tasklib/debug.py
index 5e7224e..f78bf63 100644
--- a/caput/pipeline/tasklib/debug.py
+++ b/caput/pipeline/tasklib/debug.py
@@ -155,9 +155,8 @@ class SaveModuleVersions(ContainerTask):
     def setup(self):
         """Save module versions."""
         fname = f"{self.root}_versions.yml"
-        f = open(fname, "w")
-        f.write(yaml.safe_dump(self.versions))
-        f.close()
+        with open(fname, "w") as f:
+            f.write(yaml.safe_dump(self.versions))
         self.done = True
 
     def process(self):
@@ -183,9 +182,8 @@ class SaveConfig(ContainerTask):
     def setup(self):
         """Save module versions."""
         fname = f"{self.root}_config.yml"
-        f = open(fname, "w")
-        f.write(yaml.safe_dump(self.pipeline_config))
-        f.close()
+        with open(fname, "w") as f:
+            f.write(yaml.safe_dump(self.pipeline_config))
         self.done = True
 
     def process(self):
-- 
2.43.0


From 60d604e24b81f888b36c863102636af73698deaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:34 +0000
Subject: [PATCH 09/44] fix: honour hints, conversion and file options when
 saving groups

---
 caput/memdata/_memh5.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 2937ff0..4d1f3a9 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -674,9 +674,11 @@ class MemGroup(_BaseGroup):
                 self,
                 filename,
                 mode,
+                hints=hints,
                 convert_attribute_strings=convert_attribute_strings,
                 convert_dataset_strings=convert_dataset_strings,
                 file_format=file_format,
+                **kwargs,
             )
 
     def create_group(self, name):
@@ -2245,8 +2247,15 @@ class MemDiskGroup(_BaseGroup):
         if (zarr_available and isinstance(self._data, zarr.Group)) or isinstance(
             self._data, h5py.File
         ):
+            kwargs.setdefault("mode", "w")
             with file_format.open(filename, **kwargs) as f:
-                deep_group_copy(self._data, f)
+                deep_group_copy(
+                    self._data,
+                    f,
+                    convert_attribute_strings=convert_attribute_strings,
+                    convert_dataset_strings=convert_dataset_strings,
+                    file_format=file_format,
+                )
         else:
             self._data.to_file(
                 filename,
@@ -2754,7 +2763,6 @@ def _distributed_group_to_file(
     convert_dataset_strings=False,
     convert_attribute_strings=True,
     file_format=None,
-    serial=False,
     **kwargs,
 ):
     """Copy full data tree from distributed memh5 object into the destination file.
@@ -2782,7 +2790,7 @@ def _distributed_group_to_file(
 
     # Walk the full structure and separate out what we need to write
     if comm.rank == 0:
-        with file_format.open(fname, mode) as fh:
+        with file_format.open(fname, mode, **kwargs) as fh:
             distributed_dataset_names = deep_group_copy(
                 group,
                 fh,
-- 
2.43.0


From 59f5a6de26c1a8e625e79b42444bafa2469613a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:34 +0000
Subject: [PATCH 10/44] fix: apply the selection when copying a group to file

---
 caput/memdata/_memh5.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index 4d1f3a9..f01aad1 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -2583,7 +2583,10 @@ def deep_group_copy(
         elif to_file:
             # If we shouldn't convert we at least need to ensure there aren't any
             # Unicode characters before writing
-            data = typeutils.check_unicode(entry)
+            if typeutils.has_unicode(data.dtype):
+                raise TypeError(
+                    f'Can not write dataset "{dset.name!s}" of unicode type into HDF5.'
+                )
 
         dset_args = {"dtype": data.dtype, "shape": data.shape, "data": data}
         # If we're copying memory to memory we can allow distributed datasets
-- 
2.43.0


From a57ea55e0c7431440581e8c0a6e9275f6da435fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:57 +0000
Subject: [PATCH 11/44] fix: reject unknown file formats in MPIArray.from_file

---
 caput/mpiarray.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index 09fa8a7..3662683 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -1013,6 +1013,8 @@ class MPIArray(np.ndarray):
                 raise ValueError(
                     f"Can't write to {f} (Expected a {file_format.module.__name__}.Group or str filename)."
                 )
+        else:
+            raise ValueError(f"Unknown file format: {file_format}")
 
         try:
             dset = fh[dataset]
-- 
2.43.0


From cc7d807a2b22ff802b7ff771c5916f7b34532874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:57 +0000
Subject: [PATCH 12/44] fix: only redistribute back datasets that were
 distributed in copy_datasets_filter

---
 caput/containers/_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/containers/_util.py b/caput/containers/_util.py
index 18560c8..27b820b 100644
--- a/caput/containers/_util.py
+++ b/caput/containers/_util.py
@@ -172,6 +172,6 @@ def copy_datasets_filter(
         # also copy attritutes
         _memh5.copyattrs(item.attrs, dest_dset.attrs)
 
-        if isinstance(dest_dset, _memh5.MemDatasetDistributed):
+        if isinstance(item, _memh5.MemDatasetDistributed):
             # Redistribute back to the original axis
             dest_dset.redistribute(original_ax_id)
-- 
2.43.0


From f044538ee902d414b7d7c3e79bc8bc80a4807462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:57 +0000
Subject: [PATCH 13/44] fix: fall back to the calling class when a stored
 subclass cannot be imported

---
 caput/memdata/_memh5.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index f01aad1..b08ce40 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -1719,6 +1719,7 @@ class MemDiskGroup(_BaseGroup):
             new_cls = importtools.import_class(clspath)
         except (ImportError, KeyError):
             warnings.warn(f"Could not import memh5 subclass {clspath}")
+            return cls
 
         # Check that it is a subclass of MemDiskGroup
         if not issubclass(new_cls, MemDiskGroup):
-- 
2.43.0


From c4a9b270bce47eb19651d3075be5bcbd86b3ed24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:57 +0000
Subject: [PATCH 14/44] fix: use only bound names in GroupIOMixin.write_output

---
 caput/pipeline/extensions/_extensions.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/caput/pipeline/extensions/_extensions.py b/caput/pipeline/extensions/_extensions.py
index 047b938..0135c2c 100644
--- a/caput/pipeline/extensions/_extensions.py
+++ b/caput/pipeline/extensions/_extensions.py
@@ -348,6 +348,8 @@ class GroupIOMixin:
         """
         import h5py
 
+        from ...memdata import MemGroup
+
         file_format = fileformats.check_file_format(filename, file_format, output)
 
         try:
@@ -355,10 +357,11 @@ class GroupIOMixin:
         except ImportError:
             if file_format == fileformats.Zarr:
                 raise RuntimeError("Can't write to zarr file. Please install zarr.")
+            zarr = None
 
         # Ensure parent directory is present.
         dirname = os.path.dirname(filename)
-        if not os.path.isdir(dirname):
+        if dirname and not os.path.isdir(dirname):
             try:
                 os.makedirs(dirname)
             except OSError as e:
@@ -391,7 +394,7 @@ class GroupIOMixin:
                 with lock_file(filename, comm=out_copy.comm) as fn:
                     out_copy.to_hdf5(fn, mode="w")
 
-        elif isinstance(output, zarr.Group):
+        elif zarr is not None and isinstance(output, zarr.Group):
             if os.path.isdir(filename) and os.path.samefile(
                 output.store.path, filename
             ):
@@ -406,9 +409,9 @@ class GroupIOMixin:
                         zarr.DirectoryStore(filename),
                         source_path=output.path,
                     )
-                logger.debug(
-                    f"Copied {n_copied} items ({n_bytes_copied} bytes), skipped {n_skipped} items."
-                )
+                    logger.debug(
+                        f"Copied {n_copied} items ({n_bytes_copied} bytes), skipped {n_skipped} items."
+                    )
 
 
 class ContainerIOMixin:
-- 
2.43.0


From f9486478d9d9470402695c31ed5aee8fc20ddd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:57 +0000
Subject: [PATCH 15/44] fix: report the unknown system name in the scheduler

---
 caput/pipeline/runner/_scheduler/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/pipeline/runner/_scheduler/__init__.py b/caput/pipeline/runner/_scheduler/__init__.py
index 083f55e..f73bf6d 100644
--- a/caput/pipeline/runner/_scheduler/__init__.py
+++ b/caput/pipeline/runner/_scheduler/__init__.py
@@ -305,7 +305,7 @@ def _resolve_system_config(conf: dict) -> dict:
             )
         else:
             raise ValueError(
-                f"Specified system `{system}`: is not known. "
+                f"Specified system `{sysname}`: is not known. "
                 f"Known systems are: {list(REGISTERED_SYSTEMS.keys())} "
                 f"and known clusters are: {list(REGISTERED_CLUSTERS.keys())}"
             )
-- 
2.43.0


From 6db1b2d01a5c0195cf7d4db3d5e946f785d3ae56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:57 +0000
Subject: [PATCH 16/44] fix: export lock_file instead of a missing name from
 memdata

---
 caput/memdata/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/memdata/__init__.py b/caput/memdata/__init__.py
index b16d008..09c4044 100644
--- a/caput/memdata/__init__.py
+++ b/caput/memdata/__init__.py
@@ -64,6 +64,6 @@ __all__ = [
     "fileformats",
     "get_file",
     "is_group",
-    "local_file",
+    "lock_file",
     "ro_dict",
 ]
-- 
2.43.0


From 564a13e8aff328311139490277299d2f9da55985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:46 +0000
Subject: [PATCH 17/44] fix: make the type stubs agree with the routines they
 describe

---
 caput/memdata/_memh5.pyi     | 1 -
 caput/pipeline/_pipeline.pyi | 4 ++--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/caput/memdata/_memh5.pyi b/caput/memdata/_memh5.pyi
index 7b140df..0763fd7 100644
--- a/caput/memdata/_memh5.pyi
+++ b/caput/memdata/_memh5.pyi
@@ -438,7 +438,6 @@ def _distributed_group_to_file(
     convert_dataset_strings: bool = False,
     convert_attribute_strings: bool = True,
     file_format: FileFormat | None = None,
-    serial: bool = False,
     **kwargs: Any,
 ) -> None: ...
 def _distributed_group_from_file(
diff --git a/caput/pipeline/_pipeline.pyi b/caput/pipeline/_pipeline.pyi
index 1373f61..b15d0fa 100644
--- a/caput/pipeline/_pipeline.pyi
+++ b/caput/pipeline/_pipeline.pyi
@@ -36,7 +36,7 @@ class Manager(config.Reader):
     def from_yaml_str(
         cls, yaml_doc: str, lint: bool = False, psutil_profiling: bool = False
     ) -> Manager: ...
-    def _setup_logging(self, lint: bool = False) -> None: ...
+    def _setup_logging(self, lint: bool = False, default: str = "INFO") -> None: ...
     def run(self) -> None: ...
     _task_head: int
     _task_idx: int
@@ -84,7 +84,7 @@ class Task(config.Reader):
     _num_iters: int
     def _setup_keys(
         self,
-        in_: Sequence[str] | str | None = None,
+        in_: Sequence[str] | str | None,
         out: Sequence[str] | str | None = None,
         requires: Sequence[str] | str | None = None,
     ) -> None: ...
-- 
2.43.0


From 28b722277b470b9973b5417d2ef9217705f89bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:15 +0000
Subject: [PATCH 18/44] fix: honour convert_attribute_strings for axis
 attributes in concatenate

---
 caput/containers/tod.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/caput/containers/tod.py b/caput/containers/tod.py
index 5719b2e..a963b18 100644
--- a/caput/containers/tod.py
+++ b/caput/containers/tod.py
@@ -431,7 +431,11 @@ def concatenate(
                     else index_map
                 ),
             )
-        memdata.copyattrs(first_data.index_attrs[axis], out.index_attrs[axis])
+        memdata.copyattrs(
+            first_data.index_attrs[axis],
+            out.index_attrs[axis],
+            convert_strings=convert_attribute_strings,
+        )
 
     # Copy over the reverse maps.
     for axis, reverse_map in first_data.reverse_map.items():
-- 
2.43.0


From cf19e9a3b06fa02b6e187342752dc207a9e3905e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:10 +0000
Subject: [PATCH 19/44] fix: report a failed job submission

---
 caput/pipeline/runner/_scheduler/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/caput/pipeline/runner/_scheduler/__init__.py b/caput/pipeline/runner/_scheduler/__init__.py
index f73bf6d..7847384 100644
--- a/caput/pipeline/runner/_scheduler/__init__.py
+++ b/caput/pipeline/runner/_scheduler/__init__.py
@@ -274,6 +274,7 @@ def queue(
             [system_config["command"], *extra_options, "jobscript.sh"],
             cwd=directories["jobdir"],
             env=os.environ,
+            check=True,
         )
 
 
-- 
2.43.0


From 96eae17847ab4327cbb94f0e8b990a6db496706b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:10 +0000
Subject: [PATCH 20/44] fix: report a failed pip listing in the debug task

---
 caput/pipeline/tasklib/debug.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/caput/pipeline/tasklib/debug.py b/caput/pipeline/tasklib/debug.py
index f78bf63..4987025 100644
--- a/caput/pipeline/tasklib/debug.py
+++ b/caput/pipeline/tasklib/debug.py
@@ -114,7 +114,9 @@ class DebugInfo(MPILoggedTask, SetMPILogging):
         import json
         import subprocess
 
-        p = subprocess.run(["pip", "list", "--format", "json"], stdout=subprocess.PIPE)
+        p = subprocess.run(
+            ["pip", "list", "--format", "json"], stdout=subprocess.PIPE, check=True
+        )
 
         package_info = json.loads(p.stdout)
 
-- 
2.43.0


From 0fea19d3057f0cefbec5d7dd5bb584a51761ca0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:08 +0000
Subject: [PATCH 21/44] fix: expand wildcards in file lists in sorted order

---
 caput/pipeline/tasklib/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/caput/pipeline/tasklib/io.py b/caput/pipeline/tasklib/io.py
index 16a6995..d18c10b 100644
--- a/caput/pipeline/tasklib/io.py
+++ b/caput/pipeline/tasklib/io.py
@@ -73,7 +73,7 @@ def list_of_filelists(files):
         if isinstance(filelist, str):
             if "*" not in filelist and not os.path.isfile(filelist):
                 raise config.CaputConfigError(f"File not found: {filelist!s}")
-            filelist = glob.glob(filelist)
+            filelist = sorted(glob.glob(filelist))
         elif isinstance(filelist, list):
             for i in range(len(filelist)):
                 filelist[i] = list_or_glob(filelist[i])
@@ -180,7 +180,7 @@ def list_of_filegroups(groups):
         for fname in files:
             if "*" not in fname and not os.path.isfile(fname):
                 raise config.CaputConfigError(f"File not found: {fname!s}")
-            flist += glob.glob(fname)
+            flist += sorted(glob.glob(fname))
 
         if not len(flist):
             raise config.CaputConfigError(f"No files in group exist ({files!s}).")
-- 
2.43.0


From bae392696710552a845ac0b0b7e4325e15e47aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:12 +0000
Subject: [PATCH 22/44] fix: refuse weights of another shape in
 moving_weighted_median

---
 caput/algorithms/median/weighted.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/caput/algorithms/median/weighted.pyx b/caput/algorithms/median/weighted.pyx
index 5ffdfbd..6d1f97f 100644
--- a/caput/algorithms/median/weighted.pyx
+++ b/caput/algorithms/median/weighted.pyx
@@ -312,10 +312,10 @@ def _check_arrays(
     if np.iscomplexobj(weights):
         raise ValueError(f"Weights must be real (got {weights.dtype})")
 
-    if data.ndim != weights.ndim:
+    if data.shape != weights.shape:
         raise ValueError(
             f"Expected data and weights to have same dimensions "
-            f"(is {data.ndim} and {weights.ndim})."
+            f"(is {data.shape} and {weights.shape})."
         )
 
     return data, weights
-- 
2.43.0


From a10b83f0a1bfaaefc50c7512f4c660cbed056dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:12 +0000
Subject: [PATCH 23/44] fix: do not write outside an empty array in
 moving_weighted_median

---
 caput/algorithms/median/weighted.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/caput/algorithms/median/weighted.pyx b/caput/algorithms/median/weighted.pyx
index 6d1f97f..990ca8b 100644
--- a/caput/algorithms/median/weighted.pyx
+++ b/caput/algorithms/median/weighted.pyx
@@ -339,6 +339,8 @@ def moving_weighted_median(data, weights, size, method = "split"):
         raise ValueError('Got size=0, what do you expect me to do with that?')
     if size == 1:
         return np.where(weights != 0, data, weights)
+    if data.size == 0:
+        return np.empty(data.shape, dtype=np.float64)
 
     if data.ndim == 1:
         if isinstance(size, (tuple, list)):
-- 
2.43.0


From bbcdac7079416bb3696366d9656a96025215e376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:12 +0000
Subject: [PATCH 24/44] fix: do not read past the end of a single element in
 the weighted quantile

---
 caput/algorithms/median/weighted.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/caput/algorithms/median/weighted.pyx b/caput/algorithms/median/weighted.pyx
index 990ca8b..677d2b4 100644
--- a/caput/algorithms/median/weighted.pyx
+++ b/caput/algorithms/median/weighted.pyx
@@ -49,6 +49,10 @@ cdef data_t _quickselect_weight(data_t[::1] A, weight_t[::1] W, double qs, char
     cdef data_t min_w, max_w
 
     while True:
+        # When the list is a single element long, we're done and can just return it
+        if i == j:
+            return A[i]
+
         ii = i
         jj = j
         pivot = A[(ii + jj) // 2]
@@ -118,10 +122,6 @@ cdef data_t _quickselect_weight(data_t[::1] A, weight_t[::1] W, double qs, char
             i = jj + 1
             qs -= weights_left
 
-        # When the list is a single element long, we're done and can just return it
-        if i == j:
-            return A[i]
-
 
 @cython.wraparound(False)
 @cython.boundscheck(False)
-- 
2.43.0


From ab94320ff79f055b8cfc4cace26d5554073a2535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:10 +0000
Subject: [PATCH 25/44] fix: do not modify the caller's selection in
 copy_datasets_filter

---
 caput/containers/_util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/caput/containers/_util.py b/caput/containers/_util.py
index 27b820b..4637e7b 100644
--- a/caput/containers/_util.py
+++ b/caput/containers/_util.py
@@ -81,6 +81,9 @@ def copy_datasets_filter(
     if not isinstance(selection, dict):
         # Assume we just want to apply this selection to all listed axes
         selection = dict.fromkeys(axis, selection)
+    else:
+        # The selections get cleaned up below, so don't modify the caller's
+        selection = dict(selection)
 
     if not axis:
         axis = set(selection.keys())
-- 
2.43.0


From 5fe8bfbb0ff10a9e3c0d0a961cf908302032e0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:10 +0000
Subject: [PATCH 26/44] fix: do not modify the caller's start and stop in
 tod.concatenate

---
 caput/containers/tod.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/caput/containers/tod.py b/caput/containers/tod.py
index a963b18..e3c3eb2 100644
--- a/caput/containers/tod.py
+++ b/caput/containers/tod.py
@@ -379,11 +379,16 @@ def concatenate(
     first_data = data_list[0]
     concatenation_axes = first_data.time_axes
 
-    # Ensure *start* and *stop* are mappings.
+    # Ensure *start* and *stop* are mappings. These are filled in below, so don't
+    # modify the ones supplied by the caller.
     if not hasattr(start, "__getitem__"):
         start = dict.fromkeys(concatenation_axes, start)
+    else:
+        start = dict(start)
     if not hasattr(stop, "__getitem__"):
         stop = dict.fromkeys(concatenation_axes, stop)
+    else:
+        stop = dict(stop)
 
     # Get the length of all axes for which we are concatenating.
     concat_index_lengths = dict.fromkeys(concatenation_axes, 0)
-- 
2.43.0


From c6444eac07e4936ac835f8b5396ab176dc547374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:10 +0000
Subject: [PATCH 27/44] fix: do not modify the caller's file lists and groups

---
 caput/pipeline/tasklib/io.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/caput/pipeline/tasklib/io.py b/caput/pipeline/tasklib/io.py
index d18c10b..25aa59f 100644
--- a/caput/pipeline/tasklib/io.py
+++ b/caput/pipeline/tasklib/io.py
@@ -75,8 +75,7 @@ def list_of_filelists(files):
                 raise config.CaputConfigError(f"File not found: {filelist!s}")
             filelist = sorted(glob.glob(filelist))
         elif isinstance(filelist, list):
-            for i in range(len(filelist)):
-                filelist[i] = list_or_glob(filelist[i])
+            filelist = [list_or_glob(f) for f in filelist]
         else:
             raise config.CaputConfigError("Must be list or glob pattern.")
         f2 = f2 + filelist
@@ -160,6 +159,8 @@ def list_of_filegroups(groups):
     if not isinstance(groups, list):
         groups = [groups]
 
+    processed_groups = []
+
     # Iterate over groups, set the tag if needed, and process the file list
     # through glob
     for gi, group in enumerate(groups):
@@ -172,8 +173,7 @@ def list_of_filegroups(groups):
                 f"Expected type dict in file groups (got {type(group)})."
             )
 
-        if "tag" not in group:
-            group["tag"] = f"group_{gi:d}"
+        tag = group.get("tag", f"group_{gi:d}")
 
         flist = []
 
@@ -185,9 +185,9 @@ def list_of_filegroups(groups):
         if not len(flist):
             raise config.CaputConfigError(f"No files in group exist ({files!s}).")
 
-        group["files"] = flist
+        processed_groups.append({**group, "tag": tag, "files": flist})
 
-    return groups
+    return processed_groups
 
 
 class FindFiles(MPILoggedTask):
-- 
2.43.0


From d809bba59f4f9850327fa15faae6b728c71e0815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:10 +0000
Subject: [PATCH 28/44] fix: do not add table datasets to the class-level
 dataset specification

---
 caput/containers/_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/containers/_core.py b/caput/containers/_core.py
index 07b8ed9..a9809c0 100644
--- a/caput/containers/_core.py
+++ b/caput/containers/_core.py
@@ -757,7 +757,7 @@ class TableSpec(ContainerPrototype):
     def __init__(self, *args: tuple, **kwargs: dict):
         # Get the dataset specifiction for this class (not any base classes), or
         # an empty dictionary if it does not exist. Do the same for the axes entry..
-        dspec = self.__class__.__dict__.get("_dataset_spec", {})
+        dspec = dict(self.__class__.__dict__.get("_dataset_spec", {}))
         axes = self.__class__.__dict__.get("_axes", ())
 
         # Iterate over all table_spec entries and construct dataset specifications for
-- 
2.43.0


From e18ce24cf09bfcdffd43f82619460b67d4d4cb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:15 +0000
Subject: [PATCH 29/44] fix: do not change the logging option in place when
 setting up logging

---
 caput/pipeline/_pipeline.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/caput/pipeline/_pipeline.py b/caput/pipeline/_pipeline.py
index 36d921f..92917a8 100644
--- a/caput/pipeline/_pipeline.py
+++ b/caput/pipeline/_pipeline.py
@@ -237,13 +237,17 @@ class Manager(config.Reader):
             be provided as a string matching a :py:mod:`logging`
             alias for an integer log level. Default is "INFO".
         """
-        if lint or ("root" not in self.logging):
+        # The default of the option is re-created on every access, so a change
+        # made to it in place would be lost
+        levels = dict(self.logging)
+
+        if lint or ("root" not in levels):
             # Default to INFO level logging
-            self.logging["root"] = "INFO"
+            levels["root"] = "INFO"
 
         lvldefault = getattr(logging, default)
 
-        for module, level in self.logging.items():
+        for module, level in levels.items():
             loglvl = getattr(logging, level, lvldefault)
             # Set the log level for each module
             logging.getLogger(module).setLevel(loglvl)
-- 
2.43.0


From 5f575be58b4d127138f0434ad933f6c0d0d52be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:01 +0000
Subject: [PATCH 30/44] fix: PFB channel profile ignored norm after its first
 evaluation

---
 caput/util/pfb.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/caput/util/pfb.py b/caput/util/pfb.py
index 49d4023..54d1180 100644
--- a/caput/util/pfb.py
+++ b/caput/util/pfb.py
@@ -112,7 +112,7 @@ class PFB:
         self.window = sinc_hamming if window is None else window
         self.oversample = oversample
 
-        self._profile_interp = None
+        self._profile_interp = {}
 
     def apply(self, timestream: npt.NDArray) -> np.ndarray[np.complex128]:
         """Apply the PFB to a timestream.
@@ -199,9 +199,10 @@ class PFB:
     ) -> np.ndarray[np.complex128]:
         """Evaluate the profile of a single frequency channel.
 
-        On the first call, this method computes the profile on a dense
-        set of frequencies and constructs and interpolating function.
-        This interpolating function is evaluated on subsequent calls.
+        On the first call with a given value of `norm`, this method computes
+        the profile on a dense set of frequencies and constructs and
+        interpolating function. This interpolating function is evaluated on
+        subsequent calls with the same value.
 
         Note that this is the voltage profile; the absolute value of the
         output should be squared to obtain the profile corresponding to a
@@ -223,11 +224,13 @@ class PFB:
         profile : array_like
             The channel profile.
         """
-        if self._profile_interp is None:
+        norm = bool(norm)
+
+        if norm not in self._profile_interp:
             rel_freq, w = self.compute_channel_profile(norm=norm)
-            self._profile_interp = CubicSpline(rel_freq, w, extrapolate=False)
+            self._profile_interp[norm] = CubicSpline(rel_freq, w, extrapolate=False)
 
-        return self._profile_interp(channel_width_frac)
+        return self._profile_interp[norm](channel_width_frac)
 
     _decorr_interp = None
 
-- 
2.43.0


From 04dc98c32dc575ef9b00b5a27f777b96a09099bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:01 +0000
Subject: [PATCH 31/44] fix: Observer kept the location of its first use after
 it was changed

---
 caput/astro/observer.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/caput/astro/observer.py b/caput/astro/observer.py
index 091ea6b..a880794 100644
--- a/caput/astro/observer.py
+++ b/caput/astro/observer.py
@@ -105,8 +105,6 @@ class Observer:
         if lsd_start is not None:
             self.lsd_start_day = lsd_start
 
-    _obs = None
-
     def get_current_lsd(self):
         """Get the current LSD."""
         return self.lsd(ctime.datetime_to_unix(datetime.now(timezone.utc))).astype(
@@ -125,14 +123,11 @@ class Observer:
 
         earth = self.skyfield.ephemeris["earth"]
 
-        if self._obs is None:
-            self._obs = earth + Topos(
-                latitude_degrees=self.latitude,
-                longitude_degrees=self.longitude,
-                elevation_m=self.altitude,
-            )
-
-        return self._obs
+        return earth + Topos(
+            latitude_degrees=self.latitude,
+            longitude_degrees=self.longitude,
+            elevation_m=self.altitude,
+        )
 
     @arraytools.listize()
     def unix_to_lsa(self, time):
-- 
2.43.0


From eb4f28b0e26ff5c4bb132d0dbfb05bf55c3e23bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:11 +0000
Subject: [PATCH 32/44] fix: file names with blanks or shell characters broke
 the background zip command

---
 caput/pipeline/tasklib/io.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/caput/pipeline/tasklib/io.py b/caput/pipeline/tasklib/io.py
index 25aa59f..8294d50 100644
--- a/caput/pipeline/tasklib/io.py
+++ b/caput/pipeline/tasklib/io.py
@@ -29,6 +29,7 @@ These are specified in the YAML file as a dictionary like below.
 from __future__ import annotations
 
 import os
+import shlex
 import shutil
 import subprocess
 from functools import partial
@@ -1009,12 +1010,14 @@ class SaveZarrZip(ZipZarrContainers):
             # Run 7z to zip up the file
             dest_file = outfile + ".zip"
             src_dir = outfile + "/."
-            command = f"{self._path_7z} a -tzip -mx=0 {dest_file} {src_dir}"
+            command = shlex.join(
+                [self._path_7z, "a", "-tzip", "-mx=0", dest_file, src_dir]
+            )
 
             # If we are to remove the file get the background job to do it immediately
             # after zipping succeeds
             if self.remove:
-                command += f" && rm -r {outfile}"
+                command += f" && rm -r {shlex.quote(outfile)}"
 
             bg_process = subprocess.Popen(
                 command, shell=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE
-- 
2.43.0


From 521b1887d937dbd43e08b599eea09e89a211fdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:11 +0000
Subject: [PATCH 33/44] fix: mail options of a queued job were split at blanks
 of their values

---
 caput/pipeline/runner/_scheduler/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/caput/pipeline/runner/_scheduler/__init__.py b/caput/pipeline/runner/_scheduler/__init__.py
index 7847384..674dfd3 100644
--- a/caput/pipeline/runner/_scheduler/__init__.py
+++ b/caput/pipeline/runner/_scheduler/__init__.py
@@ -262,9 +262,10 @@ def queue(
                     f"Valid types are: ({mail_config['types']})."
                 )
 
-            extra_options = (
-                mail_config["options"].format(email=email, mailtype=mailtype).split()
-            )
+            extra_options = [
+                option.format(email=email, mailtype=mailtype)
+                for option in mail_config["options"].split()
+            ]
 
     if submit:
         # NOTE: explicitly set the environment to what Python thinks it should
-- 
2.43.0


From 2e7386ef1ea52675bbc2a51b49754de16bbd26e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:11 +0000
Subject: [PATCH 34/44] fix: paths with blanks broke the job scripts

---
 .../runner/_scheduler/_default_systems.toml   | 26 +++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/caput/pipeline/runner/_scheduler/_default_systems.toml b/caput/pipeline/runner/_scheduler/_default_systems.toml
index 7c98664..5a7747d 100644
--- a/caput/pipeline/runner/_scheduler/_default_systems.toml
+++ b/caput/pipeline/runner/_scheduler/_default_systems.toml
@@ -17,18 +17,18 @@ set -e
 
 # set status to crashed upon non-zero status of command
 function setCrashed {{
-    echo CRASHED > {statuspath:s}
+    echo CRASHED > \"{statuspath:s}\"
 }}
 
 trap setCrashed ERR
 
-echo RUNNING > {statuspath:s}
+echo RUNNING > \"{statuspath:s}\"
 
 {modules:s}
 
-source {venv:s}
+source \"{venv:s}\"
 
-cd {workdir:s}
+cd \"{workdir:s}\"
 export OMP_NUM_THREADS=$SLURM_CPUS_PER_TASK
 
 # Try to keep threads together - this is usually more optimal
@@ -36,15 +36,15 @@ export OMP_NUM_THREADS=$SLURM_CPUS_PER_TASK
 export OMP_PROC_BIND=close
 export OMP_PLACES=cores
 
-{invoke:s} {invoke_args:s} caput-pipeline run {profile:s} {profiler:s} {psutil:s} {configpath:s} &> {logpath:s}
+{invoke:s} {invoke_args:s} caput-pipeline run {profile:s} {profiler:s} {psutil:s} \"{configpath:s}\" &> \"{logpath:s}\"
 
 # Set the status
-echo FINISHED > {statuspath:s}
+echo FINISHED > \"{statuspath:s}\"
 
 # If the job was successful, then move the output to its final location
 if [ {usetemp:d} -eq 1 ]
 then
-    mkdir -p $(dirname \"{finaldir:s}\")
+    mkdir -p \"$(dirname \"{finaldir:s}\")\"
     mv \"{workdir:s}\" \"{finaldir:s}\"
 fi
 """
@@ -73,27 +73,27 @@ set -e
 
 # set status to crashed upon non-zero status of command
 function setCrashed {{
-    echo CRASHED > {statuspath:s}
+    echo CRASHED > \"{statuspath:s}\"
 }}
 
 trap setCrashed ERR
 
 {module:s}
 
-source {venv:s}
+source \"{venv:s}\"
 
-cd {workdir:s}
+cd \"{workdir:s}\"
 export OMP_NUM_THREADS={ompnum:d}
 
-{invoke:s} {invoke_args:s} caput-pipeline run {configpath:s} &> {logpath:s}
+{invoke:s} {invoke_args:s} caput-pipeline run \"{configpath:s}\" &> \"{logpath:s}\"
 
 # Set the status
-echo FINISHED > {statuspath:s}
+echo FINISHED > \"{statuspath:s}\"
 
 # If the job was successful, then move the output to its final location
 if [ {usetemp:d} -eq 1 ]
 then
-    mkdir -p $(dirname \"{finaldir:s}\")
+    mkdir -p \"$(dirname \"{finaldir:s}\")\"
     mv \"{workdir:s}\" \"{finaldir:s}\"
 fi
 """
-- 
2.43.0


From d55311564289f0599ce62eee57bbe113c47a2fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:11 +0000
Subject: [PATCH 35/44] fix: PBS job script used keys which were never supplied

---
 caput/pipeline/runner/_scheduler/_default_systems.toml | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/caput/pipeline/runner/_scheduler/_default_systems.toml b/caput/pipeline/runner/_scheduler/_default_systems.toml
index 5a7747d..ae812f6 100644
--- a/caput/pipeline/runner/_scheduler/_default_systems.toml
+++ b/caput/pipeline/runner/_scheduler/_default_systems.toml
@@ -58,7 +58,7 @@ options = "--mail-user={email} --mail-type={mailtype}"
 command = "qsub"
 invoke = "mpirun"
 invoke_args = "-np {mpiproc:d} -npernode {pernode:d} -bind-to none"
-required = ["name", "nodes", "time", "directory", "ppn", "queue"]
+required = ["name", "nodes", "time", "directory", "ompnum", "pernode", "ppn", "queue"]
 script = """#!/bin/bash
 #PBS -l nodes={nodes:d}:ppn={ppn:d}
 #PBS -q {queue:s}
@@ -78,7 +78,7 @@ function setCrashed {{
 
 trap setCrashed ERR
 
-{module:s}
+{modules:s}
 
 source \"{venv:s}\"
 
-- 
2.43.0


From 41286da71c473f3bdef98af151a3fe8326003b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:11 +0000
Subject: [PATCH 36/44] fix: PBS job script did not report RUNNING and ignored
 the profiling options

---
 caput/pipeline/runner/_scheduler/_default_systems.toml | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/caput/pipeline/runner/_scheduler/_default_systems.toml b/caput/pipeline/runner/_scheduler/_default_systems.toml
index ae812f6..c205b8f 100644
--- a/caput/pipeline/runner/_scheduler/_default_systems.toml
+++ b/caput/pipeline/runner/_scheduler/_default_systems.toml
@@ -78,6 +78,8 @@ function setCrashed {{
 
 trap setCrashed ERR
 
+echo RUNNING > \"{statuspath:s}\"
+
 {modules:s}
 
 source \"{venv:s}\"
@@ -85,7 +87,7 @@ source \"{venv:s}\"
 cd \"{workdir:s}\"
 export OMP_NUM_THREADS={ompnum:d}
 
-{invoke:s} {invoke_args:s} caput-pipeline run \"{configpath:s}\" &> \"{logpath:s}\"
+{invoke:s} {invoke_args:s} caput-pipeline run {profile:s} {profiler:s} {psutil:s} \"{configpath:s}\" &> \"{logpath:s}\"
 
 # Set the status
 echo FINISHED > \"{statuspath:s}\"
-- 
2.43.0


From 2c664f508727aa89541ff0cabe6254c9674492c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:11 +0000
Subject: [PATCH 37/44] fix: default run arguments of a queue system were
 ignored

---
 caput/pipeline/runner/_scheduler/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/caput/pipeline/runner/_scheduler/__init__.py b/caput/pipeline/runner/_scheduler/__init__.py
index 674dfd3..2dfd5e9 100644
--- a/caput/pipeline/runner/_scheduler/__init__.py
+++ b/caput/pipeline/runner/_scheduler/__init__.py
@@ -436,9 +436,9 @@ def _resolve_job_script(conf: dict, directories: dict) -> str:
         conf["invoke"] = REGISTERED_SYSTEMS[system].get("invoke", "mpirun")
 
     if "invoke_args" not in conf:
-        # Nothing here, but still need an empty string to
-        # satisfy the script template
-        conf["invoke_args"] = ""
+        # There may be nothing here, but still need an empty
+        # string to satisfy the script template
+        conf["invoke_args"] = REGISTERED_SYSTEMS[system].get("invoke_args", "")
 
     # Path does not support type specifiers, so convert all `Path`
     # objects to strings
-- 
2.43.0


From 7cf19a4052c17bbc6b6bf7491a76621209c12fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:21 +0000
Subject: [PATCH 38/44] fix: the default profiler of a queued job is not one
 the pipeline accepts

---
 caput/pipeline/runner/_cli.py                | 2 +-
 caput/pipeline/runner/_scheduler/__init__.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/caput/pipeline/runner/_cli.py b/caput/pipeline/runner/_cli.py
index ecaeabe..30701a7 100644
--- a/caput/pipeline/runner/_cli.py
+++ b/caput/pipeline/runner/_cli.py
@@ -193,7 +193,7 @@ def queue(
     submit=False,
     lint=True,
     profile=False,
-    profiler="cProfiler",
+    profiler="cProfile",
     psutil=False,
     overwrite="never",
     email=None,
diff --git a/caput/pipeline/runner/_scheduler/__init__.py b/caput/pipeline/runner/_scheduler/__init__.py
index 2dfd5e9..ce86fcd 100644
--- a/caput/pipeline/runner/_scheduler/__init__.py
+++ b/caput/pipeline/runner/_scheduler/__init__.py
@@ -112,7 +112,7 @@ def queue(
     submit: bool = False,
     lint: bool = True,
     profile: bool = False,
-    profiler: str | None = "cProfiler",
+    profiler: str | None = "cProfile",
     psutil: bool = False,
     overwrite: Literal["never", "failed"] = "never",
     email: str | None = None,
-- 
2.43.0


From e6887d78648e94a6e0e8af2dcbc419439a3f22a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:57 +0000
Subject: [PATCH 39/44] fix: running a pipeline template without the queue
 failed for lack of arguments

---
 caput/pipeline/runner/_cli.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/caput/pipeline/runner/_cli.py b/caput/pipeline/runner/_cli.py
index 30701a7..6bdb5a4 100644
--- a/caput/pipeline/runner/_cli.py
+++ b/caput/pipeline/runner/_cli.py
@@ -126,7 +126,14 @@ def template_run(templatefile, submit, var, overwrite, email=None, mailtype=None
     if submit:
         _scheduler.template_queue(templatefile, var, overwrite, email, mailtype)
     else:
-        _core.template_run(templatefile, var)
+        _core.template_run(
+            templatefile,
+            var,
+            profile=False,
+            profiler="cProfile",
+            mpi_abort=True,
+            psutil=False,
+        )
 
 
 @cli.command()
-- 
2.43.0


From 5ba16ab60a57b378887905e71d41cacab48c4610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:03 +0000
Subject: [PATCH 40/44] fix: writing a distributed array without MPI-IO ignored
 chunking and compression

---
 caput/mpiarray.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/caput/mpiarray.py b/caput/mpiarray.py
index 3662683..eb9a3a4 100644
--- a/caput/mpiarray.py
+++ b/caput/mpiarray.py
@@ -1125,7 +1125,9 @@ class MPIArray(np.ndarray):
 
         if not h5py.get_config().mpi:
             if isinstance(f, str):
-                self._to_hdf5_serial(f, dataset, create)
+                self._to_hdf5_serial(
+                    f, dataset, create, chunks, compression, compression_opts
+                )
                 return
 
             raise ValueError(
@@ -1650,7 +1652,13 @@ class MPIArray(np.ndarray):
         )
 
     def _to_hdf5_serial(
-        self, filename: str, dataset: str, create: bool = False
+        self,
+        filename: str,
+        dataset: str,
+        create: bool = False,
+        chunks: tuple[int, ...] | None = None,
+        compression: str | int | None = None,
+        compression_opts: tuple | None = None,
     ) -> None:
         """Write into an HDF5 dataset.
 
@@ -1670,6 +1678,12 @@ class MPIArray(np.ndarray):
         create : bool, optional
             True if a new file should be created (if needed).
             Default is False.
+        chunks : tuple[int, ...] | None, optional
+            Chunk shape.
+        compression : str | int | None, optional
+            Name or identifier of HDF5 compression filter.
+        compression_opts : tuple | None, optional
+            Compression options for the dataset.
         """
         import os
         import time
@@ -1683,6 +1697,9 @@ class MPIArray(np.ndarray):
                     dataset,
                     self.global_shape,
                     dtype=self.dtype,
+                    chunks=chunks,
+                    compression=compression,
+                    compression_opts=compression_opts,
                 )
                 dset[:] = np.array(0.0).astype(self.dtype)
 
-- 
2.43.0


From edd8c6ec7ce7f1da48893cbb0dce9caeffbc236a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:11 +0000
Subject: [PATCH 41/44] fix: a process that cannot read its available memory
 left the others waiting

---
 caput/util/mpitools.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/caput/util/mpitools.py b/caput/util/mpitools.py
index 882b39e..016893f 100644
--- a/caput/util/mpitools.py
+++ b/caput/util/mpitools.py
@@ -224,7 +224,9 @@ def can_allocate(
         # We probably don't want this to fail if it can't get the available
         # memory, but it should definitey warn about it
         warnings.warn(f"Unable to check available memory: {e!r}", RuntimeWarning)
-        return True
+        # Assume there is enough, but still take part in the collective operations
+        # below, as the other processes may not have run into this
+        available_memory_node = np.inf
 
     if scope == "shared" or comm is None or scomm is None:
         can_alloc = nbytes < available_memory_node
@@ -238,7 +240,7 @@ def can_allocate(
         can_alloc = nbytes < available_memory_node
 
     elif scope == "global":
-        available = np.array(available_memory_node) // scomm.size
+        available = np.array(available_memory_node / scomm.size)
 
         can_alloc = nbytes < comm.allreduce(available, op=MPI.SUM)
 
-- 
2.43.0


From 2ce45b81aafdb92750e3ff0a1dfbb31e9ec8f931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:56 +0000
Subject: [PATCH 42/44] fix: copying a distributed group lost its communicator

MemGroup.from_group made an undistributed group, so that the copy of any
distributed dataset failed.
---
 caput/memdata/_memh5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/caput/memdata/_memh5.py b/caput/memdata/_memh5.py
index b08ce40..427fc83 100644
--- a/caput/memdata/_memh5.py
+++ b/caput/memdata/_memh5.py
@@ -432,7 +432,7 @@ class MemGroup(_BaseGroup):
             If the input group is not a supported type.
         """
         if isinstance(group, MemGroup):
-            self = cls()
+            self = cls(distributed=group.distributed, comm=group.comm)
             deep_group_copy(group, self)
             return self
 
-- 
2.43.0


From 771a681f2123f99ed26966ffecd512b0174d96ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:04 +0000
Subject: [PATCH 43/44] fix: print a datetime in another zone as UTC in
 datetime_to_timestr

---
 caput/astro/time.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/caput/astro/time.py b/caput/astro/time.py
index 1764c69..e98cc0d 100644
--- a/caput/astro/time.py
+++ b/caput/astro/time.py
@@ -228,6 +228,10 @@ def datetime_to_timestr(dt):
     --------
     :py:func:`timestr_to_datetime`
     """
+    # The string is in UTC, so the time must be too
+    if dt.tzinfo is not None:
+        dt = dt.astimezone(timezone.utc)
+
     return dt.strftime("%Y%m%dT%H%M%SZ")
 
 
-- 
2.43.0


From 8ca9aa9ea480fc7fa49ca85d447956ee4eb642c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:23 +0000
Subject: [PATCH 44/44] fix: cut the pieces of a random partition from one
 permutation

---
 caput/util/arraytools.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/caput/util/arraytools.py b/caput/util/arraytools.py
index e048953..3d05bb1 100644
--- a/caput/util/arraytools.py
+++ b/caput/util/arraytools.py
@@ -93,7 +93,9 @@ def partition_list(full_list: list, i: int, n: int, method: str = "con") -> list
         return full_list[i::n]
 
     if method == "rand":
-        choices = np.random.permutation(N)[start:stop]
+        # Cut every piece from the same permutation, so that the pieces
+        # together hold each item exactly once
+        choices = np.random.default_rng(0).permutation(N)[start:stop]
         return [full_list[i] for i in choices]
 
     raise ValueError(f"Unknown partition method {method}")
-- 
2.43.0

