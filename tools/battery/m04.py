import sys; sys.path.insert(0,'/verif/tools/battery')
from mut import mut
R='p04_shared_files'
A='caput/mpiarray.py'; M='caput/memdata/_memh5.py'; I='caput/memdata/_io.py'; F='caput/memdata/fileformats.py'; IO='caput/pipeline/tasklib/io.py'; E='caput/pipeline/extensions/_extensions.py'
print('-- bugs')
mut(R,[(A,"            lockfile = f\".{f}.sync\"\n            self.comm.Barrier()\n","            lockfile = f\".{f}.sync\"\n")],'no barrier after zarr.open')
mut(R,[(A,"                **extra_args,\n            )\n        self.comm.Barrier()\n","                **extra_args,\n            )\n")],'no barrier after dset create')
mut(R,[(A,"self.local_array[fslice]\n        self.comm.Barrier()\n","self.local_array[fslice]\n")],'no barrier before sync removal')
mut(R,[(A,"self.local_array[fslice]\n        self.comm.Barrier()\n        if self.comm.rank == 0 and lockfile is not None:\n            fileformats.remove_file_or_dir(lockfile)\n","self.local_array[fslice]\n        if self.comm.rank == 0 and lockfile is not None:\n            fileformats.remove_file_or_dir(lockfile)\n        self.comm.Barrier()\n")],'removal before barrier')
mut(R,[(A,"self.local_array[fslice]\n        self.comm.Barrier()\n","self.local_array[fslice]\n        self.comm.bcast(None)\n")],'bcast before sync removal')
mut(R,[(A,"        if self.comm.rank == 0:\n            _create_or_get_dset(\n                group,\n                dataset,\n                shape=self.global_shape,\n                dtype=self.dtype,\n                chunks=chunks,\n                **extra_args,\n            )\n        self.comm.Barrier()","        _create_or_get_dset(\n            group,\n            dataset,\n            shape=self.global_shape,\n            dtype=self.dtype,\n            chunks=chunks,\n            **extra_args,\n        )\n        self.comm.Barrier()")],'all create dset')
mut(R,[(A,"        if self.comm.rank == 0 and lockfile is not None:\n","        if lockfile is not None:\n")],'all remove sync')
mut(R,[(A,"            if self.comm.rank == 0 and create:\n","            if create:\n")],'all create zarr')
mut(R,[(A,"                    fh[dataset][start:end] = dist_arr\n\n            dist_arr.comm.Barrier()\n","                    fh[dataset][start:end] = dist_arr\n\n        dist_arr.comm.Barrier()\n")],'serial: barrier out of the loop')
mut(R,[(A,"                    fh[dataset][start:end] = dist_arr\n\n            dist_arr.comm.Barrier()\n","                    fh[dataset][start:end] = dist_arr\n")],'serial: no barrier in the loop')
mut(R,[(A,"        if self.comm is None or self.comm.rank == 0:\n            with open_h5py","        if True:\n            with open_h5py")],'serial: all create')
mut(R,[(M,"    distributed_dataset_names = comm.bcast(distributed_dataset_names)\n","    distributed_dataset_names = [n for n, d in group.items()]\n")],'no bcast after tree write')
mut(R,[(M,"    if comm.rank == 0:\n        with file_format.open(fname, mode","    if True:\n        with file_format.open(fname, mode")],'all write tree')
mut(R,[(F,"        if self._comm is None or self._comm.rank == 0:\n            remove_file_or_dir(self.name)","        remove_file_or_dir(self.name)")],'all remove synchronizer')
mut(R,[(I,"self.rank0 = True if comm is None else comm.rank == 0","self.rank0 = True")],'lock: all rename')
mut(R,[(E,"                if mpitools.rank == 0:\n                    n_copied","                if mpitools.size:\n                    n_copied")],'all copy zarr')
mut(R,[(A,"        if self.comm.rank == 0:\n            _create_or_get_dset(","        if self.comm.rank != 0:\n            _create_or_get_dset(")],'others create')
mut(R,[(IO,"                my_containers = self.containers[self._host_rank :: self._num_hosts]".replace("                my","            my"),"            my_containers = self.containers")],'every host zips all')
mut(R,[(E,'with lock_file(filename, comm=output.comm) as fn','with lock_file(filename) as fn')],'lock without comm')
print('-- refactors')
mut(R,[(A,"            if self.comm.rank == 0 and create:\n                zarr.open(store=f, mode=mode)\n","            is_root = self.comm.rank == 0\n            if create and is_root:\n                zarr.open(store=f, mode=mode)\n")],'is_root var')
mut(R,[(A,"        self.comm.Barrier()\n        if self.comm.rank == 0 and lockfile is not None:\n            fileformats.remove_file_or_dir(lockfile)\n","        self.comm.Barrier()\n        self._drop_sync(lockfile)\n\n    def _drop_sync(self, lockfile):\n        if lockfile is None or self.comm.rank != 0:\n            return\n        fileformats.remove_file_or_dir(lockfile)\n")],'helper')
mut(R,[(M,"    distributed_dataset_names = comm.bcast(distributed_dataset_names)\n","    distributed_dataset_names = comm.bcast(distributed_dataset_names)\n    comm.Barrier()\n")],'extra barrier')
mut(R,[(M,"    if comm.rank == 0:\n        with file_format.open(fname, mode, **kwargs) as fh:\n            distributed_dataset_names = deep_group_copy(\n                group,\n                fh,\n                convert_dataset_strings=convert_dataset_strings,\n                convert_attribute_strings=convert_attribute_strings,\n                skip_distributed=True,\n                file_format=file_format,\n                postprocess=(apply_hints if hints else None),\n            )\n    else:\n        distributed_dataset_names = None\n","    def _tree():\n        with file_format.open(fname, mode, **kwargs) as fh:\n            return deep_group_copy(\n                group,\n                fh,\n                convert_dataset_strings=convert_dataset_strings,\n                convert_attribute_strings=convert_attribute_strings,\n                skip_distributed=True,\n                file_format=file_format,\n                postprocess=(apply_hints if hints else None),\n            )\n\n    distributed_dataset_names = _tree() if comm.rank == 0 else None\n")],'nested helper + ifexp')
mut(R,[(A,"        for ri in range(size):\n            rank = 0 if self.comm is None else self.comm.rank\n            if ri == rank:\n","        rank = 0 if self.comm is None else self.comm.rank\n        for turn in range(size):\n            mine = turn == rank\n            if mine:\n")],'turn var')
mut(R,[(F,"        if self._comm is None or self._comm.rank == 0:\n            remove_file_or_dir(self.name)","        if self._comm is not None and self._comm.rank != 0:\n            return\n        remove_file_or_dir(self.name)")],'negated guard')
mut(R,[(I,"self.rank0 = True if comm is None else comm.rank == 0","self.rank0 = comm is None or comm.rank == 0")],'rank0 or')
mut(R,[(I,"        self.rank0 = True if comm is None else comm.rank == 0","        if comm is None:\n            self.rank0 = True\n        else:\n            self.rank0 = comm.rank == 0")],'rank0 if')
mut(R,[(A,"            group[dataset][islice] = self.local_array[fslice]","            target = group[dataset]\n            target[islice] = self.local_array[fslice]")],'target var')
mut(R,[(A,"        lockfile = None\n\n        if isinstance(f, str):\n            if self.comm.rank == 0 and create:\n                zarr.open(store=f, mode=mode)\n            lockfile = f\".{f}.sync\"\n            self.comm.Barrier()\n            group = zarr.open_group(\n                store=f,\n                mode=\"r+\",\n                synchronizer=zarr.ProcessSynchronizer(lockfile),\n            )\n        elif","        lockfile = None\n\n        if isinstance(f, str):\n            lockfile = f\".{f}.sync\"\n            group = self._open_zarr(f, lockfile, create, mode)\n        elif"),(A,"    def to_zarr(","    def _open_zarr(self, f, lockfile, create, mode):\n        import zarr\n        if self.comm.rank == 0 and create:\n            zarr.open(store=f, mode=mode)\n        self.comm.Barrier()\n        return zarr.open_group(store=f, mode=\"r+\", synchronizer=zarr.ProcessSynchronizer(lockfile))\n\n    def to_zarr(")],'open helper')
mut(R,[(IO,"        outfile = self._save_output(container)\n        dest_file = outfile + \".zip\"\n        self.comm.Barrier()\n","        outfile = self._save_output(container)\n        self.comm.Barrier()\n        dest_file = f\"{outfile}.zip\"\n")],'zip order')
mut(R,[(IO,"        dest_file = outfile + \".zip\"\n        self.comm.Barrier()\n","        dest_file = outfile + \".zip\"\n")],'zip without barrier (saving ends with one)')
mut(R,[(A,"            time.sleep(1)\n\n        self.comm.Barrier()\n","            time.sleep(1)\n\n")],'serial: no barrier after create (rank 0 takes the first turn)')
mut(R,[(E,'with lock_file(filename, comm=output.comm) as fn','with lock_file(filename, False, output.comm) as fn')],'lock comm positional')
