from mut import *
P='caput/pipeline/_pipeline.py'; R='p13_delivery'
mut(R,[(P,'''            indices = (ii for ii, k in enumerate(self._in_keys) if k == key)
''','''            places = {}
            for ii, k in enumerate(self._in_keys):
                places.setdefault(k, []).append(ii)
            indices = places[key]
''')],"dict places (ok)")
mut(R,[(P,'''            indices = (ii for ii, k in enumerate(self._in_keys) if k == key)
''','''            indices = [{k: ii for ii, k in enumerate(self._in_keys)}[key]]
''')],"bug")
mut(R,[(P,'''            indices = (ii for ii, k in enumerate(self._in_keys) if k == key)
''','''            indices = filter(lambda ii: self._in_keys[ii] == key, range(len(self._in_keys)))
''')],"filter (ok)")
mut(R,[(P,'''            indices = (ii for ii, k in enumerate(self._in_keys) if k == key)
''','''            import numpy as np
            indices = np.flatnonzero(np.array(self._in_keys) == key)
''')],"numpy (ok)")
