import sys; sys.path.insert(0,'/verif/tools/battery')
from mut import mut
R='p08_attrs'; U='caput/containers/_util.py'; T='caput/containers/tod.py'; C='caput/containers/_core.py'; MM='caput/memdata/_memh5.py'
print('--- bugs')
mut(R,[(U,"        # also copy attritutes\n        _memh5.copyattrs(item.attrs, dest_dset.attrs)\n","")],'filter none')
mut(R,[(U,"        _memh5.copyattrs(item.attrs, dest_dset.attrs)\n","        if isinstance(item, _memh5.MemDatasetDistributed):\n            _memh5.copyattrs(item.attrs, dest_dset.attrs)\n")],'filter only dist')
mut(R,[(U,"_memh5.copyattrs(item.attrs, dest_dset.attrs)","_memh5.copyattrs(source.attrs, dest_dset.attrs)")],'filter src')
mut(R,[(U,"_memh5.copyattrs(item.attrs, dest_dset.attrs)","_memh5.copyattrs(item.attrs, dest.attrs)")],'filter dst')
mut(R,[(U,"_memh5.copyattrs(item.attrs, dest_dset.attrs)","_memh5.copyattrs(dest_dset.attrs, item.attrs)")],'filter swap')
mut(R,[(C,"            if copy_axis_attrs:\n","            if copy_axis_attrs and axis in self.index_attrs:\n")],'core axis cond')
mut(R,[(C,"                copy_axis_attrs = True\n","                copy_axis_attrs = False\n")],'core axis flag')
mut(R,[(C,"            memdata.copyattrs(attrs_from.attrs, self.attrs)\n","            pass\n")],'core root')
mut(R,[(C,"                    memdata.copyattrs(attrs_no_axis, self.datasets[name].attrs)\n","                    pass\n")],'core dsets')
mut(R,[(C,'if k != "axis"','if k not in ("axis", "units")')],'core filter')
mut(R,[(T,"""        memdata.copyattrs(
            first_data.index_attrs[axis],
            out.index_attrs[axis],
            convert_strings=convert_attribute_strings,
        )
""","")],'tod index')
mut(R,[(T,"""        memdata.copyattrs(
            first_data.index_attrs[axis],
            out.index_attrs[axis],
            convert_strings=convert_attribute_strings,
        )
""","""            memdata.copyattrs(
                first_data.index_attrs[axis],
                out.index_attrs[axis],
                convert_strings=convert_attribute_strings,
            )
""")],'tod index else only')
mut(R,[(T,"""                memdata.copyattrs(
                    attrs, new_dset.attrs, convert_strings=convert_attribute_strings
                )
""","""                    memdata.copyattrs(
                        attrs, new_dset.attrs, convert_strings=convert_attribute_strings
                    )
""")],'tod dset common only')
mut(R,[(T,"""            memdata.copyattrs(
                entry.attrs, target.attrs, convert_strings=convert_attribute_strings
            )
""","""                memdata.copyattrs(
                    entry.attrs, target.attrs, convert_strings=convert_attribute_strings
                )
""")],'tod groups')
mut(R,[(T,"                target = out if entry.name == \"/\" else out.require_group(entry.name)\n","                if entry.name == '/':\n                    continue\n                target = out.require_group(entry.name)\n")],'(?) tod root skip')
mut(R,[(MM,"        copyattrs(attr_dict, new_dset.attrs)\n\n        return new_dset\n\n    def dataset_distributed","        return new_dset\n\n    def dataset_distributed")],'c2d')
mut(R,[(MM,"        copyattrs(dset.attrs, attr_dict)\n","")],'c2d relay')
mut(R,[(MM,"            dset_args = _prepare_dataset(entry)\n","            dset_args = _prepare_dataset(entry)\n            if dset_args['data'] is None:\n                g2.create_dataset(key, **dset_args)\n                continue\n")],'deep skip')
mut(R,[(MM,"        target = g2[key]\n        copyattrs(entry.attrs, target.attrs, convert_strings=convert_attribute_strings)\n","        target = g2[key]\n        if not is_group(entry):\n            copyattrs(entry.attrs, target.attrs, convert_strings=convert_attribute_strings)\n")],'deep groups')
mut(R,[(MM,"copyattrs(entry.attrs, target.attrs,","copyattrs(g1.attrs, target.attrs,")],'deep src')
mut(R,[(MM,"                # Copy attributes over into dataset\n                _copy_attrs_bcast(","                # Copy attributes over into dataset\n                if not distributed:\n                  _copy_attrs_bcast(")],'ff dist')
mut(R,[(MM,"        _copy_attrs_bcast(h5group, memgroup, convert_strings=convert_attribute_strings)\n","        pass\n")],'ff group')
mut(R,[(MM,"        val = _map_json(val)\n","        val = _map_json(val)\n        if val is None:\n            continue\n")],'copyattrs skip')
mut(R,[(MM,"for key in sorted(a1):","for key in sorted(k for k in a1 if not k.startswith('_')):")],'copyattrs filter')
mut(R,[(MM,"return {k: deepcopy(v) for k, v in attrs.items()}","return {k: deepcopy(v) for k, v in attrs.items() if v is not None}")],'attrs2dict')
mut(R,[(MM,"        new._attrs = _copy(self._attrs)\n","")],'copy attrs')
mut(R,[(MM,"        new._compression_opts = _copy(self.compression_opts)\n","        new._compression_opts = None\n")],'copy opts')
mut(R,[(MM,"            compression=dset_compression,\n","")],'c2d compression')
mut(R,[(MM,'        compression_kwargs["chunks"] = getattr(dset, "chunks", None)\n','')],'deep chunks')
mut(R,[(MM,'compression_opts=compression_opts\n            )\n        compression_kwargs','compression_opts=None\n            )\n        compression_kwargs')],'deep opts mem')
print('--- refactors')
mut(R,[(U,"_memh5.copyattrs(item.attrs, dest_dset.attrs)","dest_dset.attrs.update(item.attrs)")],'update')
mut(R,[(U,"        dest_dset[:] = arr[:]\n\n        # also copy attritutes\n        _memh5.copyattrs(item.attrs, dest_dset.attrs)\n","        _memh5.copyattrs(item.attrs, dest_dset.attrs)\n        dest_dset[:] = arr[:]\n")],'order')
mut(R,[(U,"        dest_dset[:] = arr[:]\n\n        # also copy attritutes\n        _memh5.copyattrs(item.attrs, dest_dset.attrs)\n","        _transfer(item, arr, dest_dset)\n"),(U,"def copy_datasets_filter","def _transfer(item, arr, target):\n    target[:] = arr[:]\n    _memh5.copyattrs(item.attrs, target.attrs)\n\n\ndef copy_datasets_filter")],'helper')
mut(R,[(C,"""            if copy_axis_attrs:
                # Copy over axis attributes if we're copying the axis from another dataset
                memdata""","""            if not copy_axis_attrs:
                continue
            if True:
                memdata""")],'continue')
mut(R,[(MM,"        target = g2[key]\n        copyattrs(entry.attrs, target.attrs, convert_strings=convert_attribute_strings)\n","        target = g2[entry.name]\n        copyattrs(a1=entry.attrs, a2=target.attrs, convert_strings=convert_attribute_strings)\n")],'kw')
mut(R,[(MM,"""        attr_dict = {}  # temporarily save attrs of this dataset
        copyattrs(dset.attrs, attr_dict)
        del dset
        new_dset""","""        attr_dict = attrs2dict(dset.attrs)
        del dset
        new_dset""")],'attrs2dict relay')
mut(R,[(MM,"""        attr_dict = None
        if comm.rank == 0:
            attr_dict = dict(h5item.attrs)
        attr_dict = comm.bcast(attr_dict, root=0)
""","""        attr_dict = comm.bcast(dict(h5item.attrs) if comm.rank == 0 else None, root=0)
""")],'bcast')
mut(R,[(MM,"""    for key in sorted(a1):
        val = _map_unicode(a1[key])
        val = _map_json(val)
""","""    for key, raw in sorted(a1.items()):
        val = _map_json(_map_unicode(raw))
""")],'items')
mut(R,[(MM,"""            # If group, create the entry and the recurse into it
            if is_group(item):
                new_group = memgroup.create_group(key)
                _copy_from_file(item, new_group, selections)

            # If dataset, create dataset
            else:
""","""            # If group, create the entry and the recurse into it
            if is_group(item):
                _copy_from_file(item, memgroup.create_group(key), selections)
                continue

            if True:
""")],'continue grp')
mut(R,[(T,"""        for entry in to_copy:
            if memdata.is_group(entry):
                target = out if entry.name == "/" else out.require_group(entry.name)
""","""        for entry in to_copy:
            if memdata.is_group(entry) and entry.name == "/":
                target = out
            elif memdata.is_group(entry):
                target = out.require_group(entry.name)
""")],'elif')
print('--- bugs 2')
mut(R,[(MM,"            if key != g1.name:\n                # Only create group if we are above the starting level\n                g2.create_group(key)\n\n            stack += [entry[k] for k in sorted(entry, reverse=True)]\n","            stack += [entry[k] for k in sorted(entry, reverse=True)]\n            if key == g1.name:\n                continue\n            g2.create_group(key)\n")],'deep root skip')
mut(R,[(MM,"copyattrs(entry.attrs, target.attrs,","copyattrs(target.attrs, entry.attrs,")],'deep swap')
mut(R,[(MM,"copyattrs(entry.attrs, target.attrs,","copyattrs(entry.attrs, g2.attrs,")],'deep into root')
mut(R,[(C,"            memdata.copyattrs(attrs_from.attrs, self.attrs)\n","            memdata.copyattrs(self.attrs, attrs_from.attrs)\n")],'core root swap')
mut(R,[(C,"                    memdata.copyattrs(attrs_no_axis, self.datasets[name].attrs)\n","                    memdata.copyattrs(attrs_no_axis, self.attrs)\n")],'core dset into root')
print('--- refactors 2')
mut(R,[(C,"            memdata.copyattrs(attrs_from.attrs, self.attrs)\n","            self._take_root(attrs_from)\n"),(C,"    def add_dataset(self, name: str)","    def _take_root(self, other):\n        memdata.copyattrs(other.attrs, self.attrs)\n\n    def add_dataset(self, name: str)")],'root helper')
mut(R,[(C,"                    memdata.copyattrs(attrs_no_axis, self.datasets[name].attrs)\n","                    target = self.datasets[name]\n                    memdata.copyattrs(attrs_no_axis, target.attrs)\n")],'target var')
mut(R,[(C,"""                    attrs_no_axis = {
                        k: v
                        for k, v in attrs_from.datasets[name].attrs.items()
                        if k != "axis"
                    }
""","""                    attrs_no_axis = dict(attrs_from.datasets[name].attrs)
                    attrs_no_axis.pop("axis", None)
""")],'pop')
