from mut import *
P='caput/pipeline/_pipeline.py'; R='p13_delivery'
print("-- bugs")
B=[("any gen",'''                received = [
                    recv._pipeline_queue_product(key, product)
                    for recv in self.tasks
                    if recv is not None
                ]

                if not any(received):''','''                received = (
                    recv._pipeline_queue_product(key, product)
                    for recv in self.tasks
                    if recv is not None
                )

                if not any(received):'''),
("after idx only",'''                    for recv in self.tasks
                    if recv is not None
                ]''','''                    for recv in self.tasks[self._task_idx :]
                    if recv is not None
                ]'''),
("head",'''                    for recv in self.tasks
                    if recv is not None
                ]''','''                    for recv in self.tasks[self._task_head + 1 :]
                    if recv is not None
                ]'''),
("not self",'''                    if recv is not None
                ]''','''                    if recv is not None and recv is not task
                ]'''),
("break",'''                if not self.key_match.search(key):
                    continue''','''                if not self.key_match.search(key):
                    break'''),
("dedupe keys",'''            indices = (ii for ii, k in enumerate(self._in_keys) if k == key)
''','''            indices = [self._in_keys.index(key)]
'''),
("elif",'''        if key in self._in_keys:
            indices''','''        elif key in self._in_keys:
            indices'''),
("return early",'''                self._requires[ii] = product

                result = True
''','''                self._requires[ii] = product

                return True
'''),
("drop late",'''                if self._in is None:
                    raise exceptions.PipelineRuntimeError(
                        "Tried to queue 'in' data product, but `next()` already run."
                    )
''','''                if self._in is None:
                    continue
'''),
("overwrite",'''                if self._requires[ii] is not None:
                    raise exceptions.PipelineRuntimeError(
                        "'requires' data product set more than once."
                    )
''',''''''),
("lifo",'''self._in = [queue.Queue() for _ in range(n_in)]''','''self._in = [queue.LifoQueue() for _ in range(n_in)]'''),
("shared",'''self._in = [queue.Queue() for _ in range(n_in)]''','''self._in = [queue.Queue()] * n_in'''),
("reversed",'''for key, product in zip(task._out_keys, out):''','''for key, product in zip(task._out_keys, reversed(out)):'''),
("maxsize none",'''                if not isinstance(out, tuple):
                    out = (out,)
''','''                out = (out,)
'''),
("len mismatch",'''        elif len(task._out_keys) != len(out):''','''        elif len(task._out_keys) < len(out):'''),
("runner swallow",'''                # Raised if the task has finished
                except _PipelineFinished:''','''                # Raised if the task has finished
                except Exception:'''),
("run swallow",'''            except StopIteration:
                break

        # Pipeline''','''            except Exception:
                break

        # Pipeline'''),
("run once",'''            try:
                next(runner)
            except StopIteration:
                break

        # Pipeline''','''            next(runner, None)
            break

        # Pipeline'''),
("result wrong",'''                self._in[ii].put(product)

                result = True''','''                self._in[ii].put(product)'''),
]
for n,a,b in B: mut(R,[(P,a,b)],n)
print("-- refactors")
C=[("loop",'''                received = [
                    recv._pipeline_queue_product(key, product)
                    for recv in self.tasks
                    if recv is not None
                ]

                if not any(received):''','''                received = False
                for recv in self.tasks:
                    if recv is None:
                        continue
                    if recv._pipeline_queue_product(key, product):
                        received = True

                if not received:'''),
("loop or",'''                received = [
                    recv._pipeline_queue_product(key, product)
                    for recv in self.tasks
                    if recv is not None
                ]

                if not any(received):''','''                received = []
                for recv in [t for t in self.tasks if t is not None]:
                    received.append(recv._pipeline_queue_product(key, product))

                if not any(received):'''),
("helper",'''                received = [
                    recv._pipeline_queue_product(key, product)
                    for recv in self.tasks
                    if recv is not None
                ]

                if not any(received):''','''                if not self._deliver(key, product):'''),
("enumerate",'''            indices = (ii for ii, k in enumerate(self._in_keys) if k == key)

            for ii in indices:
                logger.debug(f"{self!s} stowing data product with key {key} for `in`.")
                if self._in is None:''','''            for ii, k in enumerate(self._in_keys):
                if k != key:
                    continue
                logger.debug(f"{self!s} stowing data product with key {key} for `in`.")
                if self._in is None:'''),
("dequeless",'''self._in = [queue.Queue() for _ in range(n_in)]''','''self._in = []
        for _ in in_:
            self._in.append(queue.Queue())'''),
("forrun",'''        runner = self.runner()

        while True:
            try:
                next(runner)
            except StopIteration:
                break
''','''        for _ in self.runner():
            pass
'''),
("nocheck",'''            if out is None:
                continue

            # Queue outputs''','''            if out is not None:
                self._dispatch(task, out)
            continue

            # Queue outputs'''),
]
for n,a,b in C:
    e=[(P,a,b)]
    if n=="helper": e.append((P,'''    def _next_task(self):''','''    def _deliver(self, key, product):
        taken = [t._pipeline_queue_product(key, product) for t in self.tasks if t is not None]
        return any(taken)

    def _next_task(self):'''))
    if n=="nocheck": e.append((P,'''    def _next_task(self):''','''    def _dispatch(self, task, out):
        for key, product in zip(task._out_keys, out):
            if not self.key_match.search(key):
                continue
            received = [t._pipeline_queue_product(key, product) for t in self.tasks if t is not None]
            if not any(received):
                logger.debug("x")

    def _next_task(self):'''))
    mut(R,e,n)
