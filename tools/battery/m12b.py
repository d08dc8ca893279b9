from mut import *
P='caput/pipeline/_pipeline.py'; R='p12_lifecycle'
print("-- bugs")
B=[("limit >",'''self._num_iters >= self.limit_outputs''','''self._num_iters > self.limit_outputs'''),
("count always",'''            if out is not None:
                self._num_iters += 1
''','''            self._num_iters += 1
            if out is not None:
'''),
("iter range",'''        for ii in range(len(self.tasks)):
            # Iterate starting''','''        for ii in range(len(self.tasks) - self._task_idx):
            # Iterate starting'''),
("iter range-1",'''        for ii in range(len(self.tasks)):
            # Iterate starting''','''        for ii in range(len(self.tasks) - 1):
            # Iterate starting'''),
("idx not set",'''                self._task_idx = jj
                return task''','''                return task'''),
("head +1",'''                            self._task_head += ii
                            break''','''                            self._task_head += 1
                            break'''),
("head enumerates all",'''enumerate(self.tasks[self._task_head :])''','''enumerate(self.tasks)'''),
("avail skip none",'''            if task is None:
                continue

            if task._pipe''','''            if task is None:
                break

            if task._pipe'''),
]
for n,a,b in B: mut(R,[(P,a,b)],n)
print("-- refactors")
C=[("next gen",'''        for ii in range(len(self.tasks)):
            # Iterate starting at the next task
            jj = (ii + self._task_idx) % len(self.tasks)
            task = self.tasks[jj]

            if task is not None:
                # Update the task pointer
                self._task_idx = jj
                return task
''','''        ntask = len(self.tasks)
        order = [(ii + self._task_idx) % ntask for ii in range(ntask)]
        for jj in order:
            if self.tasks[jj] is None:
                continue
            self._task_idx = jj
            return self.tasks[jj]
'''),
("max",'''        new_index = sorted(
            available,
            key=lambda i: (
                self.tasks[i]._pipeline_priority,
                self.tasks[i].base_priority,
            ),
            reverse=True,
        )[0]
''','''        new_index = max(
            available,
            key=lambda i: (
                self.tasks[i]._pipeline_priority,
                self.tasks[i].base_priority,
            ),
        )
'''),
("head while",'''                    for ii, t in enumerate(self.tasks[self._task_head :]):
                        if t is not None:
                            self._task_head += ii
                            break
''','''                    while (
                        self._task_head < len(self.tasks) - 1
                        and self.tasks[self._task_head] is None
                    ):
                        self._task_head += 1
'''),
("head next",'''                    for ii, t in enumerate(self.tasks[self._task_head :]):
                        if t is not None:
                            self._task_head += ii
                            break
''','''                    self._task_head = next(
                        (ii for ii, t in enumerate(self.tasks) if t is not None),
                        self._task_head,
                    )
'''),
("limit var",'''                if (
                    self.limit_outputs is not None
                    and self._num_iters >= self.limit_outputs
                ):''','''                limit = self.limit_outputs
                if not (limit is None or self._num_iters < limit):'''),
]
for n,a,b in C: mut(R,[(P,a,b)],n)
