import sys; sys.path.insert(0,'/verif/tools/battery')
from mut import mut
R='p25_kept'
P='caput/util/pfb.py'; O='caput/astro/observer.py'; AT='caput/util/arraytools.py'; RN='caput/pipeline/tasklib/random.py'; AR='caput/algorithms/random.py'; SF='caput/astro/skyfield.py'; C='caput/config.py'; PL='caput/pipeline/_pipeline.py'; PY='caput/pipeline/extensions/_pytools.py'; MP='caput/util/mpitools.py'; MH='caput/memdata/_memh5.py'
print('-- bugs')
mut(R,[(P,"        norm = bool(norm)\n\n        if norm not in self._profile_interp:","        if not self._profile_interp:"),(P,"self._profile_interp[norm]","self._profile_interp[0]")],'norm not in key')
mut(R,[(P,"            self._decorr_interp = interp1d(","            PFB._decorr_interp = interp1d(")],'decorr on class')
mut(R,[(P,"            self._decorr_interp = interp1d(","            type(self)._decorr_interp = interp1d(")],'decorr on type(self)')
mut(R,[(P,"            self._decorr_interp = interp1d(","            self._max_delay = np.abs(delay).max()\n            self._decorr_interp = interp1d("),(P,"            tau_r = tau[np.abs(tau) <= N]\n            dc_r = decorrelation_ratio[np.abs(tau) <= N]","            keep = np.abs(tau) <= np.abs(delay).max()\n            tau_r = tau[keep]\n            dc_r = decorrelation_ratio[keep]")],'decorr limited to delays of the first call')
OBS="        return earth + Topos(\n            latitude_degrees=self.latitude,\n            longitude_degrees=self.longitude,\n            elevation_m=self.altitude,\n        )\n"
mut(R,[(O,OBS,"        if getattr(self, '_obs', None) is None:\n            self._obs = earth + Topos(\n            latitude_degrees=self.latitude,\n            longitude_degrees=self.longitude,\n            elevation_m=self.altitude,\n        )\n        return self._obs\n")],'obs kept getattr')
mut(R,[(O,OBS,"        if not hasattr(self, '_obs'):\n            self._obs = earth + Topos(\n            latitude_degrees=self.latitude,\n            longitude_degrees=self.longitude,\n            elevation_m=self.altitude,\n        )\n        return self._obs\n")],'obs kept hasattr')
mut(R,[(O,"    def skyfield_obs(self):","    @functools.cached_property\n    def skyfield_obs(self):"),(O,"import warnings" if False else "from datetime import","import functools\nfrom datetime import")],'obs cached_property')
mut(R,[(O,OBS,"        key = (self.latitude, self.longitude)\n        if key not in self._obs:\n            self._obs[key] = earth + Topos(\n            latitude_degrees=self.latitude,\n            longitude_degrees=self.longitude,\n            elevation_m=self.altitude,\n        )\n        return self._obs[key]\n"),(O,"    def get_current_lsd","    _obs = {}\n\n    def get_current_lsd")],'obs keyed without altitude')
G="            new_func = self.func.__get__(obj, objtype)\n            return self.__class__(new_func)\n\n    return _vectorize_desc"
mut(R,[(AT,G,"            if getattr(self, '_bound', None) is None:\n                self._bound = self.__class__(self.func.__get__(obj, objtype))\n            return self._bound\n\n    return _vectorize_desc")],'bound wrapper kept')
mut(R,[(RN,"        if self._rng is None:\n            self._rng = random","        if RandomTask._rng is None:\n            RandomTask._rng = random"),(RN,"        return self._rng\n","        return RandomTask._rng\n"),(RN,"    seed = config","    _rng = None\n    seed = config")],'rng shared by tasks')
mut(R,[(AR,"    global _rng\n\n    if _rng is None:\n        _rng = np.random.Generator(_default_bitgen())","    global _rng\n\n    if _rng is None:\n        _rng = np.random.Generator(bitgen())"),(AR,"def default_rng() ->","def default_rng(bitgen=np.random.SFC64) ->")],'default rng keeps first arg')
mut(R,[(SF,"        if self._ephemeris:\n            return self._ephemeris\n","        global _eph\n        if _eph:\n            return _eph\n"),(SF,"            self._ephemeris = self.load(self._ephemeris_name)\n            return self._ephemeris\n        except OSError:","            _eph = self.load(self._ephemeris_name)\n            return _eph\n        except OSError:"),(SF,"class SkyfieldWrapper","_eph = None\n\n\nclass SkyfieldWrapper")],'ephemeris shared by wrappers')
mut(R,[(P,"    def compute_channel_profile(\n","    @functools.lru_cache(maxsize=None)\n    def compute_channel_profile(\n"),(P,"        self._profile_interp = {}\n","        self._profile_interp = {}\n\n    def set_oversample(self, n):\n        self.oversample = n\n")],'lru_cache with a setter')
mut(R,[(P,"def sinc_window(ntap: int, lblock: int) -> np.ndarray:","_windows = {}\n\n\ndef sinc_window(ntap: int, lblock: int) -> np.ndarray:\n    w = _windows.get(ntap)\n    if w is None:\n        w = _windows[ntap] = _sinc_window(ntap, lblock)\n    return w\n\n\ndef _sinc_window(ntap: int, lblock: int) -> np.ndarray:")],'window table keyed by ntap')
mut(R,[(P,"def sinc_window(ntap: int, lblock: int) -> np.ndarray:","_windows = {}\n\n\ndef sinc_window(ntap: int, lblock: int) -> np.ndarray:\n    try:\n        return _windows[ntap]\n    except KeyError:\n        pass\n    _windows[ntap] = _sinc_window(ntap, lblock)\n    return _windows[ntap]\n\n\ndef _sinc_window(ntap: int, lblock: int) -> np.ndarray:")],'window table try')
mut(R,[(P,"def sinc_window(ntap: int, lblock: int) -> np.ndarray:","def sinc_window(ntap: int, lblock: int, _memo={}) -> np.ndarray:\n    return _memo.setdefault(ntap * lblock, _sinc_window(ntap, lblock))\n\n\ndef _sinc_window(ntap: int, lblock: int) -> np.ndarray:")],'setdefault product key')
mut(R,[(PL,"        if self._task_idx is None" if False else "    def runner(","    def runner(")],'noop') if False else None
mut(R,[(O,"    def get_current_lsd","    @functools.cached_property\n    def lsd0(self):\n        return ctime.datetime_to_unix(self.lsd_start_day)\n\n    def get_current_lsd"),(O,"from datetime import","import functools\nfrom datetime import")],'lsd_start cached')
print('-- refactors')
mut(R,[(P,"            self._profile_interp[norm] = CubicSpline(rel_freq, w, extrapolate=False)\n\n        return self._profile_interp[norm](channel_width_frac)","            interp = CubicSpline(rel_freq, w, extrapolate=False)\n            self._profile_interp[norm] = interp\n\n        interp = self._profile_interp[norm]\n        return interp(channel_width_frac)")],'interp var')
mut(R,[(P,"        if norm not in self._profile_interp:\n            rel_freq, w = self.compute_channel_profile(norm=norm)\n            self._profile_interp[norm] = CubicSpline(rel_freq, w, extrapolate=False)\n\n        return self._profile_interp[norm](channel_width_frac)","        interp = self._profile_interp.get(norm)\n        if interp is None:\n            interp = self._make(norm)\n            self._profile_interp[norm] = interp\n        return interp(channel_width_frac)\n\n    def _make(self, norm):\n        rel_freq, w = self.compute_channel_profile(norm=norm)\n        return CubicSpline(rel_freq, w, extrapolate=False)")],'get + helper')
mut(R,[(P,"        if norm not in self._profile_interp:\n            rel_freq, w = self.compute_channel_profile(norm=norm)\n            self._profile_interp[norm] = CubicSpline(rel_freq, w, extrapolate=False)\n\n        return self._profile_interp[norm](channel_width_frac)","        try:\n            interp = self._profile_interp[norm]\n        except KeyError:\n            interp = CubicSpline(*self.compute_channel_profile(norm=norm), extrapolate=False)\n            self._profile_interp[norm] = interp\n        return interp(channel_width_frac)")],'try')
mut(R,[(P,"        if self._decorr_interp is None:\n","        interp = self._decorr_interp\n        if interp is None:\n"),(P,"            self._decorr_interp = interp1d(","            interp = self._decorr_interp = interp1d("),(P,"        return self._decorr_interp(delay)","        return interp(delay)")],'decorr local')
mut(R,[(P,"            self._decorr_interp = interp1d(\n                tau_r,\n                dc_r,\n                kind=\"linear\",\n                fill_value=0,\n                assume_sorted=False,\n                bounds_error=False,\n            )\n\n        return self._decorr_interp(delay)","            self._decorr_interp = interp1d(\n                tau_r,\n                dc_r,\n                kind=\"linear\",\n                fill_value=0,\n                assume_sorted=False,\n                bounds_error=False,\n            )\n\n        delay = np.asarray(delay)\n        return self._decorr_interp(delay)")],'delay asarray after')
mut(R,[(P,"        if self._decorr_interp is None:\n","        delay = np.asarray(delay)\n        if self._decorr_interp is None:\n")],'delay asarray before')
mut(R,[(RN,"        if self._rng is None:\n            self._rng = random.MultithreadedRNG(self.local_seed, threads=self.threads)\n\n        return self._rng","        if self._rng is not None:\n            return self._rng\n        self._rng = random.MultithreadedRNG(self.local_seed, threads=self.threads)\n        return self._rng")],'rng early return')
mut(R,[(RN,"        if self._rng is None:\n            self._rng = random.MultithreadedRNG(self.local_seed, threads=self.threads)\n\n        return self._rng","        if self._rng is None:\n            self._rng = self._new_rng()\n\n        return self._rng\n\n    def _new_rng(self):\n        return random.MultithreadedRNG(self.local_seed, threads=self.threads)")],'rng helper')
mut(R,[(O,OBS,"        here = (self.latitude, self.longitude, self.altitude)\n        if self._obs is None or self._obs_at != here:\n            self._obs = earth + Topos(\n            latitude_degrees=self.latitude,\n            longitude_degrees=self.longitude,\n            elevation_m=self.altitude,\n        )\n            self._obs_at = here\n        return self._obs\n"),(O,"    def get_current_lsd","    _obs = None\n    _obs_at = None\n\n    def get_current_lsd")],'obs compared')
mut(R,[(O,OBS,"        where = Topos(\n            latitude_degrees=self.latitude,\n            longitude_degrees=self.longitude,\n            elevation_m=self.altitude,\n        )\n        return earth + where\n")],'obs var')
mut(R,[(AR,"    if _rng is None:\n        _rng = np.random.Generator(_default_bitgen())\n\n    return _rng","    if _rng is not None:\n        return _rng\n    bitgen = _default_bitgen()\n    _rng = np.random.Generator(bitgen)\n    return _rng")],'rng early')
mut(R,[(P,"def sinc_window(ntap: int, lblock: int) -> np.ndarray:","@functools.lru_cache(maxsize=8)\ndef sinc_window(ntap: int, lblock: int) -> np.ndarray:"),(P,"import numpy as np","import functools\nimport numpy as np")],'lru_cache on pure function')
mut(R,[(SF,"        if self._timescale:\n            return self._timescale\n\n        try:\n            self._timescale = self.load.timescale(builtin=False)","        if self._timescale:\n            return self._timescale\n\n        load = self.load\n        try:\n            self._timescale = load.timescale(builtin=False)")],'load var')
