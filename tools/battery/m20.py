import sys; sys.path.insert(0,'/verif/tools/battery')
from mut import mut
T='caput/util/truncate.pyx'; W='caput/algorithms/median/weighted.pyx'; S='caput/astro/coordinates/_spherical.pyx'; I='caput/algorithms/_invert_no_zero/_invert_no_zero.pyx'; Q='caput/algorithms/random.py'
R='p20_threads'
print('--- bugs')
mut(R,[(T,"        max_abs = 0.0\n\n","\n"),(T,"    cdef double max_abs\n","    cdef double max_abs = 0.0\n")],'carried max')
mut(R,[(T,"            if abs2 > max_abs:\n                max_abs = abs2\n\n        max_abs = max_abs**0.5\n","            if abs2 > max_abs:\n                max_abs = abs2\n\n        if m > 1:\n            abs_prec = max_abs**0.5\n"),(T,"abs_prec = max(<float>cabs(val[i, j]) * prec, prec_max_row * max_abs)","abs_prec = max(<float>cabs(val[i, j]) * prec, prec_max_row * abs_prec)")],'abs_prec cond')
mut(R,[(W,"            fifo.clear()\n","")],'no clear')
mut(R,[(W,"            avl = Tree[double]()\n            fifo.clear()\n","            fifo.clear()\n")],'no tree reset')
mut(R,[(W,"        fifo = deque[shared_ptr[Data[double]]]()\n\n","\n")],'shared fifo')
mut(R,[(W,"                median_view[row, col] = avl","                median_view[row, 0] = avl")],'median 0')
mut(R,[(S,"&tp_view[1, i, 0]","&tp_view[1, 0, 0]")],'tp 0')
mut(R,[(S,"cart_view[i, 0] *= r","cart_view[i, 0] *= r\n                sph_view[0, 0] = r")],'shared write')
mut(R,[(S,"            norm = hypot(vec_view[i, 0], vec_view[i, 1])\n","            norm = hypot(vec_view[i, 0], vec_view[n - 1 - i, 1])\n")],'read other')
mut(R,[(I,"            out[i] = 0.0 if cond else 1.0 / array[i]\n    else:","            out[i] = 0.0 if cond else 1.0 / array[i]\n            out[0] = out[0]\n    else:")],'out 0')
mut(R,[(I,"            cond = fabs(array[i]) < thresh\n","            if fabs(array[i]) >= thresh:\n                cond = False\n")],'cond stale')
mut(R,[('caput/algorithms/median/MedianTree.hpp',"const static int MAX_IMBAL = 1;","static int MAX_IMBAL = 1;")],'hpp global')
mut(R,[('caput/util/truncate.hpp',"const int32_t LEN_EXPONENT_FLOAT = 8;","const int32_t LEN_EXPONENT_FLOAT = 8;\nint32_t last_exponent = 0;")],'hpp global2')
mut(R,[(Q,"((i + 1) * step)]","((i + 1) * step + 1)]")],'overlap')
mut(R,[(Q,"self._random_generators[i],","self._random_generators[i // 2],")],'gens half')
mut(R,[(Q,"self._random_generators[i],","self._random_generators[-1],")],'gens one')
mut(R,[(Q,"            concurrent.futures.wait(futures)\n","            concurrent.futures.wait(futures, timeout=60)\n"),(Q,"for ii, future in enumerate(futures):\n                if (e := future.exception()) is not None:","for ii, future in enumerate(futures):\n                if future.done() and (e := future.exception()) is not None:")],'timeout')
mut(R,[(Q,"method(gen, *args, **kwargs, out=local_array)","method(self, *args, **kwargs, out=local_array)")],'self gen')
mut(R,[(Q,"""            concurrent.futures.wait(futures)

            for ii, future in enumerate(futures):
                if (e := future.exception()) is not None:
                    raise RuntimeError(
                        f"An exception occurred in thread {ii} (and maybe others)."
                    ) from e
""","")],'no wait')
mut(R,[(Q,"for ii, future in enumerate(futures):","for ii, future in enumerate(futures[1:]):")],'skip first error')
print('--- refactors')
mut(R,[(Q,"""            futures = [
                self._executor.submit(
                    _fill,
                    self._random_generators[i],
                    out.ravel()[(i * step) : ((i + 1) * step)],
                )
                for i in range(self._threads)
            ]
""","""            flat = out.ravel()
            futures = []
            for i, gen in enumerate(self._random_generators):
                start = i * step
                stop = start + step
                futures.append(self._executor.submit(_fill, gen, flat[start:stop]))
""")],'loop')
mut(R,[(Q,"for ii, future in enumerate(futures):\n                if (e := future.exception()) is not None:","for ii in range(len(futures)):\n                e = futures[ii].exception()\n                if e is not None:")],'index loop')
mut(R,[(Q,"""            futures = [
                self._executor.submit(
                    _fill,
                    self._random_generators[i],
                    out.ravel()[(i * step) : ((i + 1) * step)],
                )
                for i in range(self._threads)
            ]
""","""            futures = [
                self._executor.submit(_fill, gen, part)
                for gen, part in zip(self._random_generators, np.split(out.ravel(), np.arange(1, self._threads) * step))
            ]
""")],'zip')
mut(R,[(T,"""        for j in range(m):
            vr = val[i, j].real
            vi = val[i, j].imag
            abs2 = vr * vr + vi * vi

            if abs2 > max_abs:
                max_abs = abs2

        max_abs = max_abs**0.5
""","""        max_abs = _row_max(val, i, m)
"""),(T,"@cython.boundscheck(False)\n@cython.wraparound(False)\ndef bit_truncate_max","""@cython.boundscheck(False)
@cython.wraparound(False)
cdef inline double _row_max(complex128[:, :] val, Py_ssize_t i, Py_ssize_t m) noexcept nogil:
    cdef Py_ssize_t j
    cdef double a, best = 0.0
    for j in range(m):
        a = val[i, j].real * val[i, j].real + val[i, j].imag * val[i, j].imag
        if a > best:
            best = a
    return best ** 0.5

@cython.boundscheck(False)
@cython.wraparound(False)
def bit_truncate_max""")],'row helper')
mut(R,[(I,"            cond = fabs(array[i]) < thresh\n            out[i] = 0.0 if cond else 1.0 / array[i]","            if fabs(array[i]) < thresh:\n                out[i] = 0.0\n            else:\n                out[i] = 1.0 / array[i]")],'if')
mut(R,[(W,"            avl = Tree[double]()\n            fifo.clear()\n","            fifo.clear()\n            avl = Tree[double]()\n")],'order')
mut(R,[(W,"            fifo.clear()\n","            fifo = deque[shared_ptr[Data[double]]]()\n")],'fresh fifo')
