import sys; sys.path.insert(0,'/verif/tools/battery')
from mut import mut
R='p11_order'
C='caput/containers/_core.py'; T='caput/containers/tod.py'; IO='caput/pipeline/tasklib/io.py'; M='caput/util/mpitools.py'; A='caput/util/arraytools.py'; P='caput/pipeline/_pipeline.py'
print('-- bugs')
mut(R,[(C,"        return tuple(sorted(axes))\n\n    @property","        return tuple(axes)\n\n    @property")],'class axes')
mut(R,[(T,"files: list = sorted(glob.glob(files))","files: list = glob.glob(files)")],'tod files')
mut(R,[(T,"        files = sorted(glob.glob(files))","        files = list(glob.iglob(files))")],'tod files2')
mut(R,[(IO,"return list_or_glob(sorted(glob.glob(files)))","return list_or_glob(glob.glob(files))")],'list_or_glob')
mut(R,[(M,"for i in sorted(set(range(size)) - set(aprocs))","for i in set(range(size)) - set(aprocs)")],'close order')
mut(R,[(P,"        for task_spec in self.task_specs:\n            in_ =","        for k in unique_out_values:\n            self.order.append(k)\n        for task_spec in self.task_specs:\n            in_ =")],'append loop')
mut(R,[(C,"            for name in self.dataset_spec.keys():\n                if name not in dsets_from:","            for name in set(self.dataset_spec) & set(dsets_from):\n                if name not in dsets_from:")],'dset copying loop')
mut(R,[(C,"for name in self.dataset_spec.keys():\n                if name in self.datasets","for name in set(self.dataset_spec) & set(attrs_from.datasets):\n                if name in self.datasets")],'attr loop set')
print('-- refactors')
mut(R,[(C,"        return tuple(sorted(axes))\n\n    @property","        axes = list(axes)\n        axes.sort()\n        return tuple(axes)\n\n    @property")],'sort in place')
mut(R,[(T,"files: list = sorted(glob.glob(files))","found = glob.glob(files)\n            files: list = sorted(found)")],'var')
mut(R,[(IO,"return list_or_glob(sorted(glob.glob(files)))","def expand(x):\n            return glob.glob(x)\n        return list_or_glob(sorted(expand(files)))")],'helper')
mut(R,[(C,"axes |= set(c._axes)","axes.update(c._axes)")],'update')
mut(R,[(P,"dup_keys = [k for k in unique_out_values if all_out_values.count(k) > 1]","dup_keys = sorted(k for k in unique_out_values if all_out_values.count(k) > 1)")],'sorted dup')
mut(R,[(C,"            changed_axes = {ax for ax in self.axes if ax in kwargs}\n","            changed_axes = set()\n            for ax in self.axes:\n                if ax in kwargs:\n                    changed_axes.add(ax)\n")],'set loop')
print('-- more')
mut(R,[(C,"        # get around the hash randomization\n        return tuple(sorted(axes))","        # get around the hash randomization\n        return tuple(axes)")],'BUG axes property')
mut(R,[(C,"        # get around the hash randomization\n        return tuple(sorted(axes))","        # get around the hash randomization\n        order = sorted(axes)\n        return tuple(order)")],'ok axes property')
