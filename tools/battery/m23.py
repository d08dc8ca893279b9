import sys; sys.path.insert(0,'/verif/tools/battery')
from mut import mut
R='p23_inputs'; P='caput/pipeline/_pipeline.py'; B='caput/pipeline/tasklib/base.py'; IO='caput/pipeline/tasklib/io.py'; U='caput/containers/_util.py'; T='caput/containers/tod.py'; C='caput/containers/_core.py'; M='caput/mpiarray.py'; MM='caput/memdata/_memh5.py'; Q='caput/algorithms/random.py'; RC='caput/pipeline/runner/_core.py'; MT='caput/util/mpitools.py'
print('--- bugs')
mut(R,[(P,"deepcopy(self.all_tasks_params)","self.all_tasks_params")],'tasks params')
mut(R,[(P,"params.update(task_spec[\"params\"])","params = task_spec[\"params\"]\n                params['x'] = 1")],'task spec')
mut(R,[(B,"self.attrs.copy()","self.attrs")],'attrs')
mut(R,[(IO,"self.default_params.copy()","self.default_params")],'default_params')
mut(R,[(U,"selection = dict(selection)","pass")],'selection')
mut(R,[(T,"start = dict(start)","pass")],'start')
mut(R,[(T,"files = list(files)","pass\n    files.sort()")],'files sort')
mut(R,[(T,"dataset.copy().flat[:]","dataset.flat[:]\n                dataset[0] = 0")],'ds')
mut(R,[(M,"tshape = list(self.global_shape)","tshape = self.global_shape")],'gshape')
mut(R,[(M,"lshape = list(global_shape)","lshape = global_shape")],'lshape')
mut(R,[(M,"new_shape: list = list(new_shape)","pass")],'newshape')
mut(R,[(M,"sel_initial = list(sel)","sel_initial = sel")],'sel')
mut(R,[(MM,"dset_copy = deepcopy(dset)","dset_copy = dset")],'dset_copy')
mut(R,[(MM,"_copy = deepcopy if not shallow else lambda x: x","_copy = lambda x: x")],'(P09) deepcopy')
mut(R,[(Q,"orig_args = list(args)","orig_args = args")],'args')
mut(R,[(IO,".copy().reshape(-1)",".reshape(-1)")],'weight')
mut(R,[(C,'dspec = dict(self.__class__.__dict__.get("_dataset_spec", {}))','dspec = self.__class__.__dict__.get("_dataset_spec", {})')],'dspec')
