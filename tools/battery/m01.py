import sys; sys.path.insert(0,'/verif/tools/battery')
from mut import mutq as mut, hd, done
R='p01_collectives'
M='caput/memdata/_memh5.py'; A='caput/mpiarray.py'; MP='caput/util/mpitools.py'; B='caput/pipeline/tasklib/base.py'; IO='caput/pipeline/tasklib/io.py'; RN='caput/pipeline/tasklib/random.py'; PL='caput/pipeline/_pipeline.py'; CU='caput/containers/_util.py'; CC='caput/containers/_core.py'; FF='caput/memdata/fileformats.py'; T='caput/containers/tod.py'
hd('-- bugs')
mut(R,[(A,"        layout_issue = mpitools.allreduce(\n            axlen != local_num, op=mpitools.MAX, comm=comm\n        )","        layout_issue = axlen != local_num and mpitools.allreduce(\n            True, op=mpitools.MAX, comm=comm\n        )")],'wrap shortcircuit')
mut(R,[(A,"        totallen = mpitools.allreduce(axlen, comm=comm)\n","        if array.size == 0:\n            return cls._view_from_data_and_params(array, axis, 0, 0, comm)\n        totallen = mpitools.allreduce(axlen, comm=comm)\n")],'wrap empty early')
mut(R,[(A,"        min_req_mem = int((1 + 4 / self.comm.size)","        if self.local_array.nbytes == 0:\n            return MPIArray(self.global_shape, axis=axis, dtype=self.dtype, comm=self.comm)\n        min_req_mem = int((1 + 4 / self.comm.size)")],'redistribute empty early')
mut(R,[(MP,"    if scope == \"shared\" or comm is None","    if nbytes > available_memory_node:\n        return False\n\n    if scope == \"shared\" or comm is None")],'can_allocate early false')
mut(R,[(MP,"    if scope == \"shared\" or comm is None","    if nbytes == 0:\n        return True\n\n    if scope == \"shared\" or comm is None")],'can_allocate early true (local nbytes from redistribute)')
mut(R,[(A,"        if not mpitools.can_allocate(min_req_mem,","        if min_req_mem > 2**30 and not mpitools.can_allocate(min_req_mem,")],'only check big local')
mut(R,[(A,"            dist_arr.comm.Barrier()\n\n    def _partition_io","                dist_arr.comm.Barrier()\n\n    def _partition_io")],'serial barrier in if')
mut(R,[(A,"        self.comm.Barrier()\n        if self.comm.rank == 0 and lockfile is not None:\n            fileformats","        if self.comm.rank == 0 and lockfile is not None:\n            self.comm.Barrier()\n            fileformats")],'zarr barrier on rank0')
mut(R,[(A,"            if self.comm.rank == ri:\n                tbuf[:] = self.local_array\n\n            self.comm.Bcast","            if self.local_array.size == 0:\n                continue\n            if self.comm.rank == ri:\n                tbuf[:] = self.local_array\n\n            self.comm.Bcast")],'allgather continue empty')
mut(R,[(MP,"        local_sizes = comm.gather(local_size, root=root)\n","        if np.prod(local_size) == 0 and comm.rank != root:\n            return\n        local_sizes = comm.gather(local_size, root=root)\n")],'gather_local early')
mut(R,[(MP,"    flist = [(ind, func(item)) for ind, item in llist]\n\n    barrier(comm=comm)","    if not llist:\n        return None\n    flist = [(ind, func(item)) for ind, item in llist]\n\n    barrier(comm=comm)")],'map early')
mut(R,[(MP,"    rlist = None\n    if root is None:","    rlist = None\n    if comm.rank == root:\n        barrier(comm=comm)\n    if root is None:")],'map root barrier')
mut(R,[(A,"        threshold_bytes = threshold * 2**30\n        largest_size","        threshold_bytes = threshold * 2**30\n        if skip or self.nbytes < threshold_bytes:\n            return 0, [slice(0, self.local_shape[0])]\n        largest_size")],'partition early')
mut(R,[(B,"        return self.comm.allreduce(found, op=MPI.MAX)","        if found:\n            return True\n        return self.comm.allreduce(found, op=MPI.MAX)")],'nan early')
mut(R,[(B,"                        found = True\n                        break","                        return self.comm.allreduce(True, op=MPI.MAX)")],'nan return in loop (equal count)') if False else None
mut(R,[(IO,"            clspath = self.comm.bcast(clspath, root=0)\n            new_cls","                clspath = self.comm.bcast(clspath, root=0)\n            new_cls")],'bcast in else only')
mut(R,[(IO,"        self.comm.Barrier()\n\n        raise PipelineStopIteration","            self.comm.Barrier()\n\n        raise PipelineStopIteration")],'zip barrier only hosts')
mut(R,[(IO,"            self.comm.Barrier()\n            self.log.info(f\"Processing job for","                self.comm.Barrier()\n            self.log.info(f\"Processing job for")],'wait barrier only handle')
mut(R,[(IO,"        bg_process = None\n\n        host_rank_to_use","        if self._host_rank is None:\n            return ZarrZipHandle(dest_file, None)\n        self.comm.Barrier()\n        bg_process = None\n\n        host_rank_to_use")],'extra barrier after return')
mut(R,[(RN,"            seed = np.random.SeedSequence().entropy\n            seed = self.comm.bcast(seed, root=0)","            seed = np.random.SeedSequence().entropy\n            if self.comm.rank > 0:\n                seed = self.comm.bcast(seed, root=0)")],'seed bcast not root')
mut(R,[(M,"    distributed_dataset_names = comm.bcast(distributed_dataset_names)\n","    if not distributed_dataset_names and comm.rank == 0:\n        return\n    distributed_dataset_names = comm.bcast(distributed_dataset_names)\n")],'rank0 returns when nothing distributed')
mut(R,[(M,"                    cdata = comm.bcast(cdata, root=0)\n","                        cdata = comm.bcast(cdata, root=0)\n")],'cdata bcast in rank0')
mut(R,[(M,"        attr_dict = comm.bcast(attr_dict, root=0)\n        copyattrs","        if attr_dict:\n            attr_dict = comm.bcast(attr_dict, root=0)\n        copyattrs")],'attrs bcast if nonempty')
mut(R,[(M,"        # If distributed, synchronise to ensure that we create group collectively\n        if self.distributed:\n            self.comm.Barrier()\n\n        if self.comm is None:","        # If distributed, synchronise to ensure that we create group collectively\n        if self.distributed and self.comm.rank == 0:\n            self.comm.Barrier()\n\n        if self.comm is None:")],'create barrier rank0')
mut(R,[(M,"        for rank in range(nproc):\n            mpitools.gather_local(","        for rank in range(nproc):\n            if dset.local_data.size == 0 and rank != self.comm.rank:\n                continue\n            mpitools.gather_local(")],'to_common skip')
mut(R,[(M,"            for name in distributed_dataset_names:\n            dset" if False else "            data = typeutils.check_unicode(dset)\n","            if dset.local_data.size == 0:\n                continue\n            data = typeutils.check_unicode(dset)\n")],'write skip empties')
mut(R,[(PL,"        if not available:\n            # Nothing is","        if available and mpitools.rank != 0:\n            self._task_idx = available[0]\n            return self.tasks[self._task_idx]\n        if not available:\n            # Nothing is")],'task pick before bcast')
mut(R,[(A,"        if self.axis == axis or self.comm is None:\n            return self\n","        if self.axis == axis or self.comm is None or not self.size:\n            return self\n")],'redistribute returns self when locally empty')
mut(R,[(A,"                no_null_slices = dist_arr.global_shape[axis] >= dist_arr.comm.size","                no_null_slices = dist_arr.local_shape[axis] > 0")],'collective IO on local test')
mut(R,[(A,"            no_null_slices = self.global_shape[self.axis] >= self.comm.size","            no_null_slices = self.local_shape[self.axis] > 0")],'collective write on local test')
mut(R,[(A,"        if self.axis == 0:\n            dist_arr = self\n        else:","        if self.axis == 0 or self.local_shape[self.axis] == 0:\n            dist_arr = self\n        else:")],'serial redistribute skip')
mut(R,[(MP,"    # Wait for all processes to have started their messages\n    comm.Barrier()\n","    # Wait for all processes to have started their messages\n    if requests_send:\n        comm.Barrier()\n")],'barrier if sent')
mut(R,[(MP,"    # For each node iterate over all sends and wait until completion\n    for ir, ic, request in requests_send:\n        stat = MPI.Status()\n","    # For each node iterate over all sends and wait until completion\n    for ir, ic, request in requests_send:\n        comm.Barrier()\n        stat = MPI.Status()\n")],'barrier per send (len equal, rank varied?)')
mut(R,[(FF,"self.comm.Barrier()","self.comm.rank == 0 and self.comm.Barrier()")],'synchronizer') if 0 else None
mut(R,[(MP,"    if comm is None or comm.rank == 0:\n        # Create/open file\n        with h5py.File(fname, \"a\") as f:","    if comm is None or comm.rank == 0:\n        # Create/open file\n        barrier(comm=comm)\n        with h5py.File(fname, \"a\") as f:")],'allocate barrier rank0')
hd('-- refactors')
mut(R,[(A,"        layout_issue = mpitools.allreduce(\n            axlen != local_num, op=mpitools.MAX, comm=comm\n        )\n\n        if layout_issue:\n","        bad = axlen != local_num\n        if mpitools.allreduce(bad, op=mpitools.MAX, comm=comm):\n")],'wrap inline')
mut(R,[(A,"            if self.comm.rank == ri:\n                tbuf[:] = self.local_array\n\n            self.comm.Bcast(self._prep_buf(tbuf), root=ri)","            if n == 0:\n                continue\n            if self.comm.rank == ri:\n                tbuf[:] = self.local_array\n\n            self.comm.Bcast(self._prep_buf(tbuf), root=ri)")],'allgather skip empty global n')
mut(R,[(MP,"    rlist = None\n    if root is None:\n        # Gather all results onto all ranks\n        rlist = comm.allgather(flist)\n    else:\n        # Gather all results onto the specified rank\n        rlist = comm.gather(flist, root=root)","    rlist = comm.allgather(flist) if root is None else comm.gather(flist, root=root)")],'map ifexp')
mut(R,[(MP,"    # If we're only on a single node, then just perform without MPI\n    if comm is None or comm.size == 1:\n        return [func(item) for item in glist]","    serial = comm is None or comm.size == 1\n    if serial:\n        return list(map(func, glist))")],'map serial var')
mut(R,[(A,"        largest_size = self.comm.allreduce(self.nbytes, op=mpitools.MAX)\n        min_axis_size = int(np.ceil(largest_size / threshold_bytes))\n","        min_axis_size = self._min_parts(threshold_bytes)\n"),(A,"    def _partition_io(","    def _min_parts(self, limit):\n        largest = self.comm.allreduce(self.nbytes, op=mpitools.MAX)\n        return int(np.ceil(largest / limit))\n\n    def _partition_io(")],'parts helper')
mut(R,[(B,"                        found = True\n                        break\n\n                    infs","                        return self._any(True)\n\n                    infs"),(B,"                        found = True\n                        break\n\n            elif","                        return self._any(True)\n\n            elif"),(B,"        return self.comm.allreduce(found, op=MPI.MAX)","        return self._any(found)\n\n    def _any(self, flag):\n        return self.comm.allreduce(flag, op=MPI.MAX)")],'nan returns helper')
mut(R,[(IO,"            if self.comm.rank == 0:\n                with fileformats.guess_file_format(filename).open(filename, \"r\") as fh:\n                    clspath = MemDiskGroup._detect_subclass_path(fh)\n            else:\n                clspath = None\n            clspath = self.comm.bcast(clspath, root=0)","            clspath = self._clspath(filename)"),(IO,"    def _load_file(","    def _clspath(self, filename):\n        clspath = None\n        if self.comm.rank == 0:\n            with fileformats.guess_file_format(filename).open(filename, \"r\") as fh:\n                clspath = MemDiskGroup._detect_subclass_path(fh)\n        return self.comm.bcast(clspath, root=0)\n\n    def _load_file(")],'clspath helper')
mut(R,[(IO,"        if self._host_rank is not None:\n            # Get the set of containers this rank is responsible for compressing\n            my_containers = self.containers[self._host_rank :: self._num_hosts]\n\n            for container in my_containers:","        my_containers = [] if self._host_rank is None else self.containers[self._host_rank :: self._num_hosts]\n        if my_containers:\n            for container in my_containers:")],'zip list')
mut(R,[(M,"    if comm.rank == 0:\n        with file_format.open(fname, mode, **kwargs) as fh:\n            distributed_dataset_names","    is_root = comm.rank == 0\n    if is_root:\n        with file_format.open(fname, mode, **kwargs) as fh:\n            distributed_dataset_names")],'is_root')
mut(R,[(M,"        attr_dict = None\n        if comm.rank == 0:\n            attr_dict = dict(h5item.attrs)\n        attr_dict = comm.bcast(attr_dict, root=0)\n","        attr_dict = comm.bcast(dict(h5item.attrs) if comm.rank == 0 else None, root=0)\n")],'attrs ifexp')
mut(R,[(M,"                    cdata = None\n                    if comm.rank == 0:\n                        if selection is None:\n                            cdata = item[:]\n                        else:\n                            cdata = item[selection]\n\n                        # Convert ascii string back to unicode if requested\n                        if convert_dataset_strings:\n                            cdata = typeutils.ensure_unicode(cdata)\n\n                        # only needed until fixed: https://github.com/mpi4py/mpi4py/issues/177\n                        cdata = typeutils.ensure_native_byteorder(cdata)\n\n                    cdata = comm.bcast(cdata, root=0)","                    cdata = _read_common(item, selection)"),(M,"    # Function to perform a recursive clone of the tree structure\n","    def _read_common(item, selection):\n        if comm.rank != 0:\n            return comm.bcast(None, root=0)\n        cdata = item[:] if selection is None else item[selection]\n        if convert_dataset_strings:\n            cdata = typeutils.ensure_unicode(cdata)\n        return comm.bcast(typeutils.ensure_native_byteorder(cdata), root=0)\n\n    # Function to perform a recursive clone of the tree structure\n")],'common two bcasts')
mut(R,[(A,"            if self.comm.rank == rank:\n                # Construct a temporary","            root = self.comm.rank == rank\n            if root:\n                # Construct a temporary")],'gather root')
mut(R,[(A,"        size = 1 if self.comm is None else self.comm.size\n        for ri in range(size):\n            rank = 0 if self.comm is None else self.comm.rank\n            if ri == rank:","        size = self.comm.size\n        rank = self.comm.rank\n        for ri in range(size):\n            if ri == rank:")],'serial vars')
mut(R,[(A,"                with open_h5py_mpi(filename, \"r+\", use_mpi=False) as fh:\n                    start = dist_arr.local_offset[0]\n                    end = start + dist_arr.local_shape[0]\n\n                    fh[dataset][start:end] = dist_arr\n","                dist_arr._write_rows(filename, dataset)\n"),(A,"    def _partition_io(","    def _write_rows(self, filename, dataset):\n        from .memdata._io import open_h5py_mpi\n\n        with open_h5py_mpi(filename, \"r+\", use_mpi=False) as fh:\n            start = self.local_offset[0]\n            fh[dataset][start:start + self.local_shape[0]] = self\n\n    def _partition_io(")],'rows helper')
mut(R,[(MP,"        if np.prod(local_size) > 0:\n            # send only when array is non-empty\n","        nonempty = np.prod(local_size) > 0\n        if nonempty:\n            # send only when array is non-empty\n"),(MP,"        if np.prod(local_size) > 0:\n            sreq.Wait()","        if nonempty:\n            sreq.Wait()")],'nonempty var')
mut(R,[(M,"            if distributed:\n                # Ensure we are creating from an MPIArray\n                if not isinstance(data","            if distributed:\n                if distributed_axis is None:\n                    distributed_axis = data.axis\n                # Ensure we are creating from an MPIArray\n                if not isinstance(data")],'axis default')
mut(R,[(M,"        if self._storage_root is not None:\n            # This is a view, and we should modify the base dataset\n            base_dset = self._storage_root[self.name]\n            base_dset.redistribute(axis=axis)\n            self._data = base_dset._data\n        else:\n            # This is the the base dataset, call the MPIArray redistribution\n            self._data = self._data.redistribute(axis=axis)","        if self._storage_root is None:\n            self._data = self._data.redistribute(axis=axis)\n            return\n        base_dset = self._storage_root[self.name]\n        base_dset.redistribute(axis=axis)\n        self._data = base_dset._data")],'redistribute early return')
done()
