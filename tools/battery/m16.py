import sys; sys.path.insert(0,'/verif/tools/battery')
from mut import mutq as mut, hd, done
R='p16_options'
M='caput/memdata/_memh5.py'; A='caput/mpiarray.py'; T='caput/containers/tod.py'; FF='caput/memdata/fileformats.py'; MP='caput/util/mpitools.py'; PF='caput/util/pfb.py'; EX='caput/pipeline/extensions/_extensions.py'; IO='caput/pipeline/tasklib/io.py'; FW='caput/algorithms/fft/fftw.py'; OB='caput/astro/observer.py'; CO='caput/containers/_core.py'
hd('-- bugs')
mut(R,[(M,"        self.save(filename, file_format=file_format)\n","        self.save(filename)\n")],'to_disk save format dropped')
mut(R,[(M,"            filename, ondisk=True, file_format=file_format, **kwargs\n","            filename, ondisk=True, **kwargs\n")],'to_disk from_file format dropped')
mut(R,[(M,"            self._data.to_file(\n                filename,\n                convert_attribute_strings=convert_attribute_strings,\n                convert_dataset_strings=convert_dataset_strings,\n","            self._data.to_file(\n                filename,\n                convert_dataset_strings=convert_dataset_strings,\n")],'save drops attr conv on to_file')
mut(R,[(M,"                convert_dataset_strings=convert_dataset_strings,\n                file_format=file_format,\n                **kwargs,\n            )\n\n\n# Utilities","                file_format=file_format,\n                **kwargs,\n            )\n\n\n# Utilities")],'save drops dset conv on to_file')
mut(R,[(M,"            self._data.to_file(\n                filename,\n                convert_attribute_strings=convert_attribute_strings,\n                convert_dataset_strings=convert_dataset_strings,\n","            self._data.to_file(\n                filename,\n                convert_attribute_strings=convert_dataset_strings,\n                convert_dataset_strings=convert_attribute_strings,\n")],'save crosses')
mut(R,[(M,"        self = cls.from_group(data_group=data, detect_subclass=detect_subclass)","        self = cls.from_group(data_group=data)")],'detect_subclass dropped')
mut(R,[(M,"_copy_attrs_bcast(item, dset, convert_strings=convert_attribute_strings)","_copy_attrs_bcast(item, dset)")],'bcast dset conv dropped')
mut(R,[(M,"_copy_attrs_bcast(item, dset, convert_strings=convert_attribute_strings)","_copy_attrs_bcast(item, dset, convert_strings=convert_dataset_strings)")],'bcast dset conv other option')
mut(R,[(M,"copyattrs(entry.attrs, target.attrs, convert_strings=convert_attribute_strings)","copyattrs(entry.attrs, target.attrs, convert_strings=convert_dataset_strings)")],'deep copy conv other option')
mut(R,[(M,"        deep_group_copy(self._data, cls._data, shallow=shallow, shared=shared)","        deep_group_copy(self._data, cls._data, shared=shared)")],'copy shallow dropped')
mut(R,[(M,"                postprocess=(apply_hints if hints else None),","                postprocess=apply_hints,")],'hints ignored')
mut(R,[(M,"                _copy_from_file(item, new_group, selections)","                _copy_from_file(item, new_group)")],'selections dropped in recursion')
mut(R,[(M,"                        sel=selection,\n","")],'sel dropped')
mut(R,[(A,"                compression_opts=compression_opts,\n            )\n\n            # Decide","            )\n\n            # Decide")],'opts dropped')
mut(R,[(A,"            compression_opts=compression_opts,\n        )\n\n        lockfile","        )\n\n        lockfile")],'zarr opts dropped')
mut(R,[(A,"            self.to_hdf5(f, dataset, create, chunks, compression, compression_opts)","            self.to_hdf5(f, dataset, create, compression, chunks, compression_opts)")],'positional crossed')
mut(R,[(A,"            self.to_hdf5(f, dataset, create, chunks, compression, compression_opts)","            self.to_hdf5(f, dataset, create, chunks, compression)")],'positional dropped')
hd('-- refactors')
mut(R,[(M,"        self.save(filename, file_format=file_format)\n\n        return self.__class__.from_file(\n            filename, ondisk=True, file_format=file_format, **kwargs\n        )","        fmt = file_format\n        self.save(filename, file_format=fmt)\n        cls = type(self)\n        return cls.from_file(filename, ondisk=True, file_format=fmt, **kwargs)")],'to_disk local')
mut(R,[(M,"            self._data.to_file(\n                filename,\n                convert_attribute_strings=convert_attribute_strings,\n                convert_dataset_strings=convert_dataset_strings,\n                file_format=file_format,\n                **kwargs,\n            )\n","            opts = {\n                'convert_attribute_strings': convert_attribute_strings,\n                'convert_dataset_strings': convert_dataset_strings,\n                'file_format': file_format,\n            }\n            self._data.to_file(filename, **opts, **kwargs)\n")],'save opts dict')
mut(R,[(M,"            self._data.to_file(\n                filename,\n                convert_attribute_strings=convert_attribute_strings,\n                convert_dataset_strings=convert_dataset_strings,\n                file_format=file_format,\n                **kwargs,\n            )\n","            kwargs['convert_attribute_strings'] = convert_attribute_strings\n            kwargs['convert_dataset_strings'] = convert_dataset_strings\n            kwargs['file_format'] = file_format\n            self._data.to_file(filename, **kwargs)\n")],'save own kwargs')
mut(R,[(M,"            kwargs.setdefault(\"mode\", \"w\")\n            with file_format.open(filename, **kwargs) as f:\n                deep_group_copy(\n                    self._data,\n                    f,\n                    convert_attribute_strings=convert_attribute_strings,\n                    convert_dataset_strings=convert_dataset_strings,\n                    file_format=file_format,\n                )\n        else:\n            self._data.to_file(\n                filename,\n                convert_attribute_strings=convert_attribute_strings,\n                convert_dataset_strings=convert_dataset_strings,\n                file_format=file_format,\n                **kwargs,\n            )\n","            kwargs.setdefault(\"mode\", \"w\")\n            opts = dict(convert_attribute_strings=convert_attribute_strings, convert_dataset_strings=convert_dataset_strings, file_format=file_format)\n            with file_format.open(filename, **kwargs) as f:\n                deep_group_copy(self._data, f, **opts)\n            return\n        opts = dict(convert_attribute_strings=convert_attribute_strings, convert_dataset_strings=convert_dataset_strings, file_format=file_format)\n        self._data.to_file(filename, **opts, **kwargs)\n")],'save early return dict()')
mut(R,[(M,"        if convert_attribute_strings is None:\n            convert_attribute_strings = getattr(self, \"convert_attribute_strings\", True)\n        if convert_dataset_strings is None:\n            convert_dataset_strings = getattr(self, \"convert_dataset_strings\", False)\n","        convert_attribute_strings = self._conv(\"convert_attribute_strings\", convert_attribute_strings, True)\n        convert_dataset_strings = self._conv(\"convert_dataset_strings\", convert_dataset_strings, False)\n"),(M,"    def to_disk(self, filename","    def _conv(self, name, value, default):\n        return getattr(self, name, default) if value is None else value\n\n    def to_disk(self, filename")],'conv helper')
mut(R,[(M,"        if convert_attribute_strings is None:\n            convert_attribute_strings = getattr(self, \"convert_attribute_strings\", True)\n        if convert_dataset_strings is None:\n            convert_dataset_strings = getattr(self, \"convert_dataset_strings\", False)\n","        attr_conv = convert_attribute_strings if convert_attribute_strings is not None else getattr(self, \"convert_attribute_strings\", True)\n        dset_conv = convert_dataset_strings if convert_dataset_strings is not None else getattr(self, \"convert_dataset_strings\", False)\n"),(M,"                    self._data,\n                    f,\n                    convert_attribute_strings=convert_attribute_strings,\n                    convert_dataset_strings=convert_dataset_strings,","                    self._data,\n                    f,\n                    convert_attribute_strings=attr_conv,\n                    convert_dataset_strings=dset_conv,"),(M,"            self._data.to_file(\n                filename,\n                convert_attribute_strings=convert_attribute_strings,\n                convert_dataset_strings=convert_dataset_strings,","            self._data.to_file(\n                filename,\n                convert_attribute_strings=attr_conv,\n                convert_dataset_strings=dset_conv,")],'conv renamed locals')
mut(R,[(M,"                _copy_attrs_bcast(item, dset, convert_strings=convert_attribute_strings)","                copy_opts = {\"convert_strings\": convert_attribute_strings}\n                _copy_attrs_bcast(item, dset, **copy_opts)")],'bcast dict')
mut(R,[(M,"    def _copy_attrs_bcast(h5item, memitem, **kwargs):","    def _copy_attrs_bcast(h5item, memitem, convert_strings=convert_attribute_strings):"),(M,"        copyattrs(attr_dict, memitem.attrs, **kwargs)","        copyattrs(attr_dict, memitem.attrs, convert_strings=convert_strings)"),(M,"        _copy_attrs_bcast(h5group, memgroup, convert_strings=convert_attribute_strings)","        _copy_attrs_bcast(h5group, memgroup)"),(M,"                _copy_attrs_bcast(item, dset, convert_strings=convert_attribute_strings)","                _copy_attrs_bcast(item, dset)")],'bcast closure default')
mut(R,[(M,"    def _copy_attrs_bcast(h5item, memitem, **kwargs):","    def _copy_attrs_bcast(h5item, memitem):"),(M,"        copyattrs(attr_dict, memitem.attrs, **kwargs)","        copyattrs(attr_dict, memitem.attrs, convert_strings=convert_attribute_strings)"),(M,"        _copy_attrs_bcast(h5group, memgroup, convert_strings=convert_attribute_strings)","        _copy_attrs_bcast(h5group, memgroup)"),(M,"                _copy_attrs_bcast(item, dset, convert_strings=convert_attribute_strings)","                _copy_attrs_bcast(item, dset)")],'bcast closure')
mut(R,[(M,"    def _copy_from_file(h5group, memgroup, selections=None):","    def _copy_from_file(h5group, memgroup):"),(M,"                _copy_from_file(item, new_group, selections)","                _copy_from_file(item, new_group)"),(M,"            _copy_from_file(f, group, selections)","            _copy_from_file(f, group)"),(M,"        _copy_from_file(f, group, selections)","        _copy_from_file(f, group)")],'selections closure')
mut(R,[(M,"                postprocess=(apply_hints if hints else None),","                postprocess=post,"),(M,"    # Walk the full structure and separate out","    post = apply_hints if hints else None\n    # Walk the full structure and separate out")],'post local')
mut(R,[(M,"                postprocess=(apply_hints if hints else None),","                postprocess=post,"),(M,"    # Walk the full structure and separate out","    post = None\n    if hints:\n        post = apply_hints\n    # Walk the full structure and separate out")],'post if')
mut(R,[(A,"            self.to_hdf5(f, dataset, create, chunks, compression, compression_opts)\n        elif file_format == fileformats.Zarr:\n            self.to_zarr(f, dataset, create, chunks, compression, compression_opts)","            writer = self.to_hdf5\n        elif file_format == fileformats.Zarr:\n            writer = self.to_zarr"),(A,"            raise ValueError(f\"Unknown file format: {file_format}\")\n\n    def _make_selections","            raise ValueError(f\"Unknown file format: {file_format}\")\n\n        writer(f, dataset, create, chunks, compression, compression_opts)\n\n    def _make_selections")],'writer var')
mut(R,[(A,"            self.to_hdf5(f, dataset, create, chunks, compression, compression_opts)\n        elif file_format == fileformats.Zarr:\n            self.to_zarr(f, dataset, create, chunks, compression, compression_opts)","            self.to_hdf5(f, dataset, create, *storage)\n        elif file_format == fileformats.Zarr:\n            self.to_zarr(f, dataset, create, *storage)"),(A,"        if file_format == fileformats.HDF5:\n            self.to_hdf5(","        storage = (chunks, compression, compression_opts)\n        if file_format == fileformats.HDF5:\n            self.to_hdf5(")],'star tuple')
mut(R,[(M,"            self = _distributed_group_from_file(\n                filename,\n                comm=comm,\n                hints=hints,\n                selections=selections,\n                convert_attribute_strings=convert_attribute_strings,\n                convert_dataset_strings=convert_dataset_strings,\n                file_format=file_format,\n            )","            self = functools.partial(_distributed_group_from_file, convert_attribute_strings=convert_attribute_strings, convert_dataset_strings=convert_dataset_strings)(\n                filename,\n                comm=comm,\n                hints=hints,\n                selections=selections,\n                file_format=file_format,\n            )")],'partial')
mut(R,[(M,"                self = cls(distributed=distributed, comm=comm)\n                deep_group_copy(\n                    f,\n                    self,\n                    selections=selections,\n                    convert_attribute_strings=convert_attribute_strings,\n                    convert_dataset_strings=convert_dataset_strings,\n                    file_format=file_format,\n                )\n","                self = cls._copied(f, distributed, comm, selections, convert_attribute_strings, convert_dataset_strings, file_format)\n"),(M,"    @classmethod\n    def from_hdf5(  # noqa","    @classmethod\n    def _copied(cls, f, distributed, comm, selections, attr_conv, dset_conv, file_format):\n        self = cls(distributed=distributed, comm=comm)\n        deep_group_copy(\n            f,\n            self,\n            selections=selections,\n            convert_attribute_strings=attr_conv,\n            convert_dataset_strings=dset_conv,\n            file_format=file_format,\n        )\n        return self\n\n    @classmethod\n    def from_hdf5(  # noqa")],'from_file helper')
done()
