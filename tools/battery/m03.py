import sys; sys.path.insert(0,'/verif/tools/battery')
from mut import mutq as mut, hd, done
R='p03_comm'
A='caput/mpiarray.py'; MP='caput/util/mpitools.py'; MH='caput/memdata/_memh5.py'; IO='caput/memdata/_io.py'
EX='caput/pipeline/extensions/_extensions.py'; TIO='caput/pipeline/tasklib/io.py'; TOD='caput/containers/tod.py'; CC='caput/containers/_core.py'; FF='caput/memdata/fileformats.py'; PR='caput/util/profiler.py'; RN='caput/pipeline/tasklib/random.py'; BA='caput/pipeline/tasklib/base.py'
def one(p,a,b,n): mut(R,[(p,a,b)],n)
hd('-- bugs')
one(A,'local_num, local_start, _ = mpitools.split_local(global_shape[axis], comm=comm)','local_num, local_start, _ = mpitools.split_local(global_shape[axis])','new split')
one(A,'        arr._comm = comm\n\n        return arr','        arr._comm = mpitools.world\n\n        return arr','new stores world')
one(A,'totallen = mpitools.allreduce(axlen, comm=comm)','totallen = mpitools.allreduce(axlen)','wrap allreduce')
one(A,'            axlen != local_num, op=mpitools.MAX, comm=comm\n','            axlen != local_num, op=mpitools.MAX\n','wrap check allreduce')
one(A,'return cls._view_from_data_and_params(array, axis, totallen, local_start, comm)','return cls._view_from_data_and_params(array, axis, totallen, local_start, mpitools.world)','wrap view world')
one(A,'        csize = self.comm.size\n        crank = self.comm.rank\n','        csize = mpitools.size\n        crank = mpitools.rank\n','redist world rank')
one(A,'        csize = self.comm.size\n','        csize = mpitools.size\n','redist world size')
one(A,'return MPIArray.wrap(self.local_array, axis, self.comm)','return MPIArray.wrap(self.local_array, axis)','redist wrap')
one(A,'can_allocate(min_req_mem, scope="process", comm=self.comm)','can_allocate(min_req_mem, scope="process")','can_allocate')
one(A,'            self.global_shape, axis=axis, dtype=self.dtype, comm=self.comm\n','            self.global_shape, axis=axis, dtype=self.dtype\n','redist MPIArray')
one(A,'mpitools.split_all(self.global_shape[axis], self.comm)','mpitools.split_all(self.global_shape[axis])','split_all')
one(A,'            self.comm.Sendrecv(','            mpitools.world.Sendrecv(','sendrecv world')
one(A,'        self.comm.Allreduce(self, result_arr,','        mpitools.world.Allreduce(self, result_arr,','allreduce world')
one(A,'return cls.from_file(f, dataset, comm, axis, sel, file_format=fileformats.HDF5)','return cls.from_file(f, dataset, axis=axis, sel=sel, file_format=fileformats.HDF5)','from_hdf5')
one(A,'fh = open_h5py_mpi(f, "r", use_mpi=use_mpi, comm=comm)','fh = open_h5py_mpi(f, "r", use_mpi=use_mpi)','open no comm')
one(A,'dist_arr = cls(gshape, axis=axis, comm=comm, dtype=dtype)','dist_arr = cls(gshape, axis=axis, dtype=dtype)','from_file cls')
one(A,'no_null_slices = dist_arr.global_shape[axis] >= dist_arr.comm.size','no_null_slices = dist_arr.global_shape[axis] >= mpitools.size','null slices world')
one(A,'fh = open_h5py_mpi(f, mode, comm=self.comm)','fh = open_h5py_mpi(f, mode)','to_hdf5 open')
one(A,'no_null_slices = self.global_shape[self.axis] >= self.comm.size','no_null_slices = self.global_shape[self.axis] >= mpitools.size','null slices 2')
one(A,'            if self.comm.rank == 0 and create:','            if mpitools.rank0 and create:','rank0 create')
one(A,'        if self.comm.rank == 0 and lockfile is not None:','        if mpitools.rank == 0 and lockfile is not None:','lockfile rank')
one(A,'        tdata._comm = self._comm\n','        tdata._comm = mpitools.world\n','transpose comm')
one(A,'            self._local_offset[self.axis],\n            self.comm,\n        )\n\n    def _prep_buf','            self._local_offset[self.axis],\n            mpitools.world,\n        )\n\n    def _prep_buf','reshape comm')
one(A,'        if self.comm.rank == rank:\n            arr =','        if mpitools.rank == rank:\n            arr =','gather rank')
one(A,'            self.comm.Bcast(self._prep_buf(tbuf), root=ri)','            mpitools.world.Bcast(self._prep_buf(tbuf), root=ri)','allgather world')
one(A,'copy(*args, **kwargs), axis=self.axis, comm=self.comm','copy(*args, **kwargs), axis=self.axis','copy')
one(A,'        size = 1 if self.comm is None else self.comm.size\n','        size = 1 if self.comm is None else mpitools.size\n','serial size')
one(A,'            rank = 0 if self.comm is None else self.comm.rank\n','            rank = 0 if self.comm is None else mpitools.rank\n','serial rank')
one(A,'largest_size = self.comm.allreduce(self.nbytes, op=mpitools.MAX)','largest_size = mpitools.allreduce(self.nbytes, op=mpitools.MAX)','partition allreduce')
one(A,'                    res, new_dist_axis, global_length, offset, comm\n','                    res, new_dist_axis, global_length, offset, mpitools.world\n','ufunc view')
one(A,'return (0, input_.comm.size, input_.comm.rank)','return (0, mpitools.size, mpitools.rank)','reduce world')
one(A,'        comm = getattr(obj, "comm", mpitools.world)\n','        comm = mpitools.world\n','finalize world')
one(A,'_, local_start, _ = mpitools.split_local(axlen, comm=comm)','_, local_start, _ = mpitools.split_local(axlen)','finalize split')
one(A,'        self._comm = comm\n\n\ndef zeros','        self._comm = mpitools.world\n\n\ndef zeros','finalize store')
one(IO,'fkwargs["comm"] = comm if comm is not None else MPI.COMM_WORLD','fkwargs["comm"] = MPI.COMM_WORLD','open world')
one(IO,'self.rank0 = True if comm is None else comm.rank == 0','self.rank0 = True if comm is None else MPI.COMM_WORLD.rank == 0','lock rank0') if 0 else None
one(MH,'        if distributed and comm is None:\n','        if distributed:\n','storage root world') 
one(MH,'        self._comm = comm\n\n','        self._comm = mpitools.world\n\n','storage root stores world')
one(MH,'return getattr(self._storage_root, "comm", None)','return mpitools.world','group comm world')
one(MH,'storage_root = _StorageRoot(distributed=distributed, comm=comm)','storage_root = _StorageRoot(distributed=distributed)','memgroup init')
one(MH,'self = cls(distributed=distributed, comm=comm)','self = cls(distributed=distributed)','from_file cls')
one(MH,'                    axis=distributed_axis,\n                    comm=self.comm,\n','                    axis=distributed_axis,\n','create_dataset')
one(MH,'_, sd, ed = mpitools.split_local(dist_len, comm=self.comm)','_, sd, ed = mpitools.split_local(dist_len)','common to dist split')
one(MH,'dset_shape, axis=distributed_axis, comm=self.comm, dtype=dset_type','dset_shape, axis=distributed_axis, dtype=dset_type','common to dist')
one(MH,'nproc = 1 if self.comm is None else self.comm.size','nproc = 1 if self.comm is None else mpitools.size','nproc')
one(MH,'dset.local_data, local_start, root=rank, comm=self.comm','dset.local_data, local_start, root=rank','gather_local')
one(MH,'self._data = mpiarray.MPIArray(shape, axis=axis, comm=comm, dtype=dtype)','self._data = mpiarray.MPIArray(shape, axis=axis, dtype=dtype)','dset init')
one(MH,'data_group = MemGroup(distributed=distributed, comm=comm)','data_group = MemGroup(distributed=distributed)','memdisk init')
one(MH,'                distributed=distributed,\n                comm=comm,\n                selections=sel,\n','                distributed=distributed,\n                selections=sel,\n','memdisk from_file')
one(MH,'MemDiskGroup.__init__(cls, distributed=self.distributed, comm=self.comm)','MemDiskGroup.__init__(cls, distributed=self.distributed)','empty_like')
one(MH,'                f".{fname}.sync", group.comm\n','                f".{fname}.sync"\n','zarr sync')
one(MH,'    group = MemGroup(distributed=True, comm=comm)\n','    group = MemGroup(distributed=True)\n','deep read group')
one(MH,'    comm = group.comm\n\n','    comm = mpitools.world\n\n','write group world')
one(MH,'with open_h5py_mpi(fname, "r", comm=comm) as f:','with open_h5py_mpi(fname, "r") as f:','deep read open')
one(MH,'    if comm.rank == 0:\n','    if mpitools.rank == 0:\n','write rank')
one(TOD,'distributed=distributed, comm=comm)','distributed=distributed)','tod concat')
one(TOD,'        comm = first_data.comm\n','        comm = mpitools.world\n','tod concat world') if 0 else None
one(CC,'super().__init__(data_group=data_group, distributed=dist, comm=comm)','super().__init__(data_group=data_group, distributed=dist)','container init')
one(EX,'with lock_file(filename, comm=output.comm) as fn:','with lock_file(filename) as fn:','lock')
one(EX,'with lock_file(filename, comm=out_copy.comm) as fn:','with lock_file(filename) as fn:','lock copy')
one(TIO,'            comm=self.comm,\n','','load files')
one(FF,'        self._comm = comm\n','        self._comm = None\n','sync comm dropped')
one(PR,'            rank = self.comm.rank\n            size = self.comm.size','            rank = mpitools.rank\n            size = mpitools.size','profiler') if 0 else None
one(MP,'    llist = partition_list_mpi(zlist, method=method, comm=comm)','    llist = partition_list_mpi(zlist, method=method)','pmap partition')
one(MP,'        rlist = comm.allgather(flist)','        rlist = _comm.allgather(flist)','pmap allgather')
one(MP,'    return bcast(state, root=0, comm=comm)','    return bcast(state, root=0)','bcast')
one(MP,'    if comm is None or comm.rank == 0:\n','    if comm is None or rank0:\n','alloc rank0')
one(MP,'    lr, sr, _ = split_local(shape[0], comm=comm)','    lr, sr, _ = split_local(shape[0])','rows write')
one(MP,'        fname, dsetname, shape, local_data.dtype, comm=comm\n','        fname, dsetname, shape, local_data.dtype\n','rows alloc')
one(MP,'    pse = split_all(n, comm=comm)\n','    pse = split_all(n)\n','split local')
one(MP,'    m = rank if comm is None else comm.rank\n','    m = rank\n','split local rank')
one(MP,'    comm = kargs.get("comm", _comm)\n','    comm = _comm\n','mpirange')
one(MP,'    barrier(comm=comm)\n\n    # If','    barrier()\n\n    # If','pmap barrier')
one(MP,'    if comm is not None:\n        r = comm.rank\n        c = comm.size','    if comm is not None:\n        r = rank\n        c = comm.size','partition rank')
one(MP,'    if comm is not None and comm.size > 1:\n        comm.Barrier()','    if comm is not None and size > 1:\n        comm.Barrier()','barrier size')
one(MP,'        return comm.bcast(data, root=root)','        return world.bcast(data, root=root)','bcast world')
one(MP,'            scomm = comm.Split_type(MPI.COMM_TYPE_SHARED)\n        else','            scomm = world_scomm\n        else','scomm world')
one(MP,'        can_alloc = nbytes < comm.allreduce(available, op=MPI.SUM)','        can_alloc = nbytes < world.allreduce(available, op=MPI.SUM)','can_alloc world')
one(RN,'            seed = self.comm.bcast(seed, root=0)','            seed = mpitools.bcast(seed, root=0)','seed bcast world') if 0 else None
hd('-- refactors')
one(A,'        if comm is None:\n            comm = mpitools.world\n\n        # Determine local','        comm = mpitools.world if comm is None else comm\n\n        # Determine local','ifexp default')
one(A,'        if comm is None:\n            comm = mpitools.world\n\n        # Determine local','        comm = comm or mpitools.world\n\n        # Determine local','or default')
one(A,'        if comm is None:\n            comm = mpitools.world\n\n        # Determine local','        comm = _default_comm(comm)\n\n        # Determine local','x') if 0 else None
mut(R,[(A,'        if comm is None:\n            comm = mpitools.world\n\n        # Determine local','        comm = _default_comm(comm)\n\n        # Determine local'),(A,'def zeros(','def _default_comm(comm):\n    """Fall back to the world."""\n    if comm is None:\n        return mpitools.world\n    return comm\n\n\ndef zeros(')],'default helper')
mut(R,[(A,'        if comm is None:\n            comm = mpitools.world\n\n        # Determine local','        comm = _default_comm(comm)\n\n        # Determine local'),(A,'def zeros(','def _default_comm(comm):\n    """Fall back to the world."""\n    return mpitools.world if comm is None else comm\n\n\ndef zeros(')],'default helper ifexp')
mut(R,[(A,'        csize = self.comm.size\n        crank = self.comm.rank\n','        comm = self.comm\n        csize = comm.size\n        crank = comm.rank\n'),(A,'return MPIArray.wrap(self.local_array, axis, self.comm)','return MPIArray.wrap(self.local_array, axis, comm)'),(A,'can_allocate(min_req_mem, scope="process", comm=self.comm)','can_allocate(min_req_mem, scope="process", comm=comm)'),(A,'mpitools.split_all(self.global_shape[axis], self.comm)','mpitools.split_all(self.global_shape[axis], comm)')],'local comm var')
one(A,'        size = 1 if self.comm is None else self.comm.size\n        for ri in range(size):\n            rank = 0 if self.comm is None else self.comm.rank\n','        if self.comm is None:\n            rank, size = 0, 1\n        else:\n            rank, size = self.comm.rank, self.comm.size\n        for ri in range(size):\n','rank size unpack')
mut(R,[(A,'        size = 1 if self.comm is None else self.comm.size\n        for ri in range(size):\n            rank = 0 if self.comm is None else self.comm.rank\n','        rank, size = _rank_size(self.comm)\n        for ri in range(size):\n'),(A,'def zeros(','def _rank_size(comm):\n    if comm is None:\n        return 0, 1\n    return comm.rank, comm.size\n\n\ndef zeros(')],'rank size helper')
one(MH,'        nproc = 1 if self.comm is None else self.comm.size\n','        comm = self.comm\n        nproc = 1 if comm is None else comm.size\n','nproc var')
one(MH,'                self = cls(distributed=distributed, comm=comm)','                opts = {"distributed": distributed, "comm": comm}\n                self = cls(**opts)','opts dict')
one(MH,'                self = cls(distributed=distributed, comm=comm)','                self = cls(distributed, comm)','positional')
one(MH,'        if distributed and comm is None:\n','        if comm is None and distributed:\n','swapped test')
mut(R,[(MP,'    llist = partition_list_mpi(zlist, method=method, comm=comm)','    part = functools.partial(partition_list_mpi, method=method, comm=comm)\n    llist = part(zlist)'),(MP,'import logging\n','import functools\nimport logging\n')],'partial')
one(MP,'    m = rank if comm is None else comm.rank\n','    if comm is None:\n        m = rank\n    else:\n        m = comm.rank\n','if else')
one(MP,'    m = size if comm is None else comm.size\n','    m = comm.size if comm is not None else size\n','ifexp swap')
one(MP,'    m = size if comm is None else comm.size\n','    m = getattr(comm, "size", size)\n','getattr')
one(IO,'fkwargs["comm"] = comm if comm is not None else MPI.COMM_WORLD','fkwargs["comm"] = MPI.COMM_WORLD if comm is None else comm','swap')
one(IO,'fkwargs["comm"] = comm if comm is not None else MPI.COMM_WORLD','if comm is None:\n                comm = MPI.COMM_WORLD\n            fkwargs["comm"] = comm','if')
one(TOD,'    if first_data.distributed and not isinstance(out_group, h5py.Group):\n        distributed = True\n        comm = first_data.comm\n    else:\n        distributed = False\n        comm = None\n','    distributed = first_data.distributed and not isinstance(out_group, h5py.Group)\n    comm = first_data.comm if distributed else None\n','tod ifexp')
one(A,'        comm = getattr(obj, "comm", mpitools.world)\n','        comm = obj.comm\n','obj.comm')
one(A,'        if self.comm.rank == rank:\n            arr =','        myrank = self.comm.Get_rank()\n        if myrank == rank:\n            arr =','Get_rank')
one(A,'largest_size = self.comm.allreduce(self.nbytes, op=mpitools.MAX)','largest_size = mpitools.allreduce(self.nbytes, op=mpitools.MAX, comm=self.comm)','mpitools allreduce')
mut(R,[(A,'        return MPIArray.wrap(\n            self.view(np.ndarray).copy(*args, **kwargs), axis=self.axis, comm=self.comm\n        )','        return self._rewrap(self.view(np.ndarray).copy(*args, **kwargs))\n\n    def _rewrap(self, data):\n        return MPIArray.wrap(data, axis=self.axis, comm=self.comm)')],'rewrap')
done()
