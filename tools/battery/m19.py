import sys; sys.path.insert(0,'/verif/tools/battery')
from mut import mut
T='caput/util/truncate.pyx'; W='caput/algorithms/median/weighted.pyx'; S='caput/astro/coordinates/_spherical.pyx'; I='caput/algorithms/_invert_no_zero/_invert_no_zero.pyx'; IP='caput/algorithms/_invert_no_zero/__init__.py'
R='p19_bounds'
print('--- bugs')
mut(R,[(T,"    if inv_var.shape[0] != n:\n","    if inv_var.shape[0] == 0:\n")],'no len check')
mut(R,[(T,"    if inv_var.shape[0] != n:\n","    if inv_var.shape[0] > n:\n")],'one-sided len check')
mut(R,[(T,"        for j in range(m):\n            vr","        for j in range(m + 1):\n            vr")],'m+1')
mut(R,[(W,"if A.shape != W.shape:","if A.size != W.size:")],'size not shape')
mut(R,[(W,"if A.shape != W.shape:","if A.shape[-1] != W.shape[-1]:")],'last axis only')
mut(R,[(W,"    Wt = np.ndarray(Wr.shape[-1]","    Wt = np.ndarray(Wr.shape[0]")],'Wt wrong axis')
mut(R,[(W,"    res = np.ndarray(Ar.shape[0]","    res = np.ndarray(A.shape[0]")],'res wrong size')
mut(R,[(W,"            if lower_limit > len_data_x:\n                lower_limit = len_data_x\n","            if lower_limit > len_data_x + 1:\n                lower_limit = len_data_x\n")],'clamp off by one')
mut(R,[(W,"            if lower_limit > len_data_x:\n                lower_limit = len_data_x\n","            if lower_limit > len_data_y:\n                lower_limit = len_data_y\n")],'clamp wrong axis')
mut(R,[(W,"                if edge_r < len_data_y:","                if edge_r <= len_data_y:")],'edge_r')
mut(R,[(W,"            if upper_limit < 0:\n                upper_limit = 0\n","            if upper_limit < -1:\n                upper_limit = 0\n")],'upper')
mut(R,[(W,"for y in range(min(size_y // 2 + 1, len_data_y)):","for y in range(size_y // 2 + 1):")],'no min')
mut(R,[(W,"data.T, weights.T, tuple(reversed(size))","data.T, weights, tuple(reversed(size))")],'one transposed')
mut(R,[(W,"for row in range(1, len_data_y):","for row in range(1, len_data_x):")],'row range')
mut(R,[(W,"data.shape != weights.shape","data.ndim != weights.ndim")],'ndim only')
mut(R,[(S,"tp_cart = np.empty((2,) + sph_coords.shape[:-1] + (3,)","tp_cart = np.empty((2,) + sph_coords.shape[:-1] + (2,)")],'tp 2')
mut(R,[(S,"        if nd == 2:\n","        if nd <= 2:\n")],'nd<=2')
mut(R,[(S,"    r = np.zeros((nm, n1, n2)","    r = np.zeros((nm, n2, n1)")],'cosine swap')
mut(R,[(S,"vec2.shape[-1] != 2:","vec2.shape[0] != 2:")],'norm_vec guard') 
mut(R,[(S,"&tp_view[1, i, 0])","&tp_view[1, i, 1])")],'tp pointer')
mut(R,[(IP,"        if x.shape != out.shape:","        if x.ndim != out.ndim:")],'inv ndim')
mut(R,[(IP,"out = np.empty_like(x, order=\"A\")","out = np.empty(x.shape[:-1], dtype=x.dtype)")],'inv out')
mut(R,[(I,"cdef Py_ssize_t n = array.shape[0]","cdef Py_ssize_t n = out.shape[0] + 1")],'n')
print('--- refactors')
mut(R,[(T,"""        if inv_var[i] != 0:
            val[i] = _bit_truncate_float(val[i], 1.0 / inv_var[i]**0.5)
        else:
            val[i] = _bit_truncate_float(val[i], fallback * val[i])
""","""        _one(val, inv_var, i, fallback)
"""),(T,"@cython.boundscheck(False)\n@cython.wraparound(False)\ndef _bit_truncate_weights_float","""@cython.boundscheck(False)
@cython.wraparound(False)
cdef inline void _one(float[:] val, float[:] inv_var, Py_ssize_t i, float fallback) noexcept nogil:
    if inv_var[i] != 0:
        val[i] = _bit_truncate_float(val[i], 1.0 / inv_var[i]**0.5)
    else:
        val[i] = _bit_truncate_float(val[i], fallback * val[i])

@cython.boundscheck(False)
@cython.wraparound(False)
def _bit_truncate_weights_float""")],'helper')
mut(R,[(W,"""            upper_limit = col - rad_x
            if upper_limit < 0:
                upper_limit = 0
            lower_limit = col + rad_x + 1
            if lower_limit > len_data_x:
                lower_limit = len_data_x
""","""            upper_limit = max(col - rad_x, 0)
            lower_limit = min(col + rad_x + 1, len_data_x)
""")],'min max')
mut(R,[(W,"""            upper_limit = col - rad_x
            if upper_limit < 0:
                upper_limit = 0
""","""            upper_limit = col - rad_x if col > rad_x else 0
""")],'ifexp')
mut(R,[(W,"    cdef int rad_y = size_y // 2\n    cdef int rad_x = size_x // 2\n","    cdef int rad_y = (size_y - 1) // 2\n    cdef int rad_x = (size_x - 1) // 2\n")],'radius')
mut(R,[(W,"""    if A.shape != W.shape:
        raise ValueError("Shapes of A and W much match.")
""","""    _same_shape(A, W)
"""),(W,"def weighted_median(","""def _same_shape(A, W):
    if A.shape == W.shape:
        return
    raise ValueError("Shapes of A and W much match.")


def weighted_median(""")],'shape helper')
mut(R,[(W,"    Ar = A.reshape(-1, A.shape[-1])\n    Wr = W.reshape(-1, W.shape[-1])\n","    n = A.shape[-1]\n    Ar = A.reshape((-1, n))\n    Wr = W.reshape((-1, n))\n")],'reshape tuple')
mut(R,[(W,"""    At = np.ndarray(Ar.shape[-1], dtype=A.dtype)
    Wt = np.ndarray(Wr.shape[-1], dtype=W.dtype)
    res = np.ndarray(Ar.shape[0], dtype=Ar.dtype)
""","""    nrow, ncol = Ar.shape
    At = np.empty(ncol, dtype=A.dtype)
    Wt = np.empty(ncol, dtype=W.dtype)
    res = np.empty((nrow,), dtype=Ar.dtype)
""")],'unpack shape')
mut(R,[(S,"""    cart_coords = np.empty(sph_coords.shape[:-1] + (3,), dtype=np.float64)
    cart_view = cart_coords.reshape(-1, 3)

    n = sph_view.shape[0]
""","""    n = sph_view.shape[0]
    cart_view = np.empty((n, 3), dtype=np.float64)
    cart_coords = np.asarray(cart_view).reshape(sph_coords.shape[:-1] + (3,))
""")],'alloc flat')
mut(R,[(S,"""        if nd == 2:
            for i in prange(n, nogil=True):
                _s2c(sph_view[i, 0], sph_view[i, 1], &cart_view[i, 0])

        elif nd == 3:
            for i in prange(n, nogil=True):
                _s2c(sph_view[i, 1], sph_view[i, 2], &cart_view[i, 0])
                r = sph_view[i, 0]
                cart_view[i, 0] *= r
                cart_view[i, 1] *= r
                cart_view[i, 2] *= r

        else:
            raise ValueError(
                f"Last axis of `sph_view` has unsupported length {nd}."
            )
""","""        if nd not in (2, 3):
            raise ValueError(
                f"Last axis of `sph_view` has unsupported length {nd}."
            )
        for i in prange(n, nogil=True):
            _s2c(sph_view[i, nd - 2], sph_view[i, nd - 1], &cart_view[i, 0])
            if nd == 3:
                r = sph_view[i, 0]
                for j in range(3):
                    cart_view[i, j] *= r
""")],'nd in')
mut(R,[(IP,"""    if out is not None:
        if x.shape != out.shape:
            raise ValueError(
                f"Input and output arrays don't have same shape: {x.shape} != {out.shape}."
            )
    else:
        # This works even for MPIArrays, producing a correctly shaped MPIArray
        out = np.empty_like(x, order="A")
""","""    if out is None:
        out = np.empty_like(x, order="A")
    elif out.shape != x.shape:
        raise ValueError("shape")
"""),(IP,"""    _invert_no_zero(
        x.view(np.ndarray).ravel(order="A"), out.view(np.ndarray).ravel(order="A")
    )
""","""    flat_in = x.view(np.ndarray).ravel(order="A")
    flat_out = out.view(np.ndarray).ravel(order="A")
    _invert_no_zero(flat_in, out=flat_out)
""")],'inv refactor')
mut(R,[(T,"    if inv_var.shape[0] != n:\n        raise","    if not (inv_var.shape[0] == n):\n        raise")],'not ==')
mut(R,[(T,"    if inv_var.shape[0] != n:\n        raise","    if len(inv_var) != len(val):\n        raise")],'len')
mut(R,[(T,"""def bit_truncate_weights(val, inv_var, fallback):
""","""def bit_truncate_weights(val, inv_var, fallback):
    if val.shape != inv_var.shape:
        raise ValueError("Weight and value arrays must have same shape")
"""),(T,"""    if inv_var.shape[0] != n:
        raise ValueError(
            f"Weight and value arrays must have same shape ({inv_var.shape[0]} != {n})"
        )
""",""),(T,"""    if inv_var.shape[0] != n:
        raise ValueError(
            f"Weight and value arrays must have same shape ({inv_var.shape[0]} != {n})"
        )
""","")],'check moved up')
