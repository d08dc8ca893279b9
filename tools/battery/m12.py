from mut import *
P='caput/pipeline/_pipeline.py'; R='p12_lifecycle'
print("-- bugs")
mut(R,[(P,'''            out = self.setup(*tuple(self._requires))
            self._pipeline_advance_state()
''','''            out = self.setup(*tuple(self._requires))
            if out is not None:
                self._pipeline_advance_state()
''')],"setup advance only with out")
mut(R,[(P,'''                if req is None:
                    raise _PipelineMissingData
''','''                if req is not None:
                    break
                raise _PipelineMissingData
''')],"setup check only first")
mut(R,[(P,'''            for in_ in self._in:
                if in_.empty():
                    raise _PipelineMissingData
''','''            if self._in and self._in[0].empty():
                raise _PipelineMissingData
''')],"in check first")
mut(R,[(P,'''            for in_ in self._in:
                if in_.empty():
                    raise _PipelineMissingData
''','''            if all(in_.empty() for in_ in self._in):
                raise _PipelineMissingData
''')],"in check all (wrong)")
mut(R,[(P,'''            except exceptions.PipelineStopIteration:
                # Finished''','''            except Exception:
                # Finished''')],"swallow")
mut(R,[(P,'''                self._pipeline_advance_state()
                out = None
''','''                out = None
''')],"stop not advance")
mut(R,[(P,'''                    and self._num_iters >= self.limit_outputs
                ):''','''                    and self._num_iters >= self.limit_outputs
                ):
                    self._pipeline_advance_state()''')],"double advance at limit")
mut(R,[(P,'''            self._in = None
            self._pipeline_state = "finish"
''','''            self._in = None
            self._pipeline_state = "raise"
''')],"skip finish")
mut(R,[(P,'''                    self._pipeline_state = "finish"
            # Over''','''                    break
            # Over''')],"missing req to next")
mut(R,[(P,'''                    if self._task_idx == self._task_head:
''','''                    if self._task_idx >= self._task_head:
''')],"manager forced")
mut(R,[(P,'''                    self.tasks[self._task_idx] = None
''','''''')],"not removed")
mut(R,[(P,'''        if self._pipeline_state == "raise":
            raise _PipelineFinished
''','''        if self._pipeline_state == "raise":
            return None
''')],"no raise")
mut(R,[(P,'''            out = self.finish()
            self._pipeline_advance_state()
''','''            self._pipeline_advance_state()
            out = self.finish()
''')],"advance first (equiv mostly)")
mut(R,[(P,'''            out = self.finish()
            self._pipeline_advance_state()

            return out
''','''            self.finish()
            self._pipeline_advance_state()
            return None
''')],"lose finish")
print("-- refactors")
mut(R,[(P,'''            for in_ in self._in:
                if in_.empty():
                    raise _PipelineMissingData
''','''            if any(in_.empty() for in_ in self._in):
                raise _PipelineMissingData
''')],"any")
mut(R,[(P,'''            for req in self._requires:
                if req is None:
                    raise _PipelineMissingData
''','''            if not all(r is not None for r in self._requires):
                raise _PipelineMissingData
''')],"not all")
mut(R,[(P,'''            for req in self._requires:
                if req is None:
                    raise _PipelineMissingData
''','''            if None in self._requires:
                raise _PipelineMissingData
''')],"in")
mut(R,[(P,'''            for in_ in self._in:
                if in_.empty():
                    raise _PipelineMissingData
''','''            self._require_inputs()
'''),(P,'''    def _pipeline_queue_product(''','''    def _require_inputs(self):
        for q in self._in:
            if q.empty():
                raise _PipelineMissingData

    def _pipeline_queue_product(''')],"helper")
mut(R,[(P,'''        if self._pipeline_state == "setup":
            # Check if we have all the required input data.
            for req''','''        state = self._pipeline_state
        if state == "setup":
            # Check if we have all the required input data.
            for req'''),(P,'''        if self._pipeline_state == "finish":
            logger''','''        if state == "finish":
            logger'''),(P,'''        if self._pipeline_state == "raise":
            raise _Pip''','''        if state == "raise":
            raise _Pip''')],"local state")
mut(R,[(P,'''                    if self._task_idx == self._task_head:
                        logger.debug(''','''                    at_head = self._task_idx == self._task_head
                    if at_head:
                        logger.debug(''')],"named cond")
mut(R,[(P,'''        elif self._pipeline_state == "finish":
            self._pipeline_state = "raise"

        elif self._pipeline_state == "raise":
            pass
''','''        elif self._pipeline_state in ("finish", "raise"):
            self._pipeline_state = "raise"
''')],"tuple")
mut(R,[(P,'''            self._pipeline_state = "next"
            # Make sure''','''            target = "next"
            # Make sure'''),(P,'''                    self._pipeline_state = "finish"
            # Overwrite''','''                    target = "finish"
            self._pipeline_state = target
            # Overwrite''')],"local target")
mut(R,[(P,'''            # Make sure setup received all input. If not, go straight to
            # `finish`, because some input requirement was never generated.
            for req, req_key in zip(self._requires, self._requires_keys):
                if req is None:
                    logger''','''            missing = [k for r, k in zip(self._requires, self._requires_keys) if r is None]
            for req_key in missing:
                if True:
                    logger''')],"missing comp")
