from mut import *
P='caput/pipeline/tasklib/base.py'; R='p14_outputs'
print("-- bugs")
B=[("ii lost",'''            self._process_output(opt, ii) for ii, opt in enumerate(output))

        # Increment''','''            self._process_output(opt) for ii, opt in enumerate(output))

        # Increment'''),
("finish ii",'''            output = (output,)

        # Process each output individually
        output = tuple(self._process_output(opt, ii) for ii, opt in enumerate(output))

        self.log.info(f"Leaving finish''','''            output = (output,)

        # Process each output individually
        output = tuple(self._process_output(opt, 0) for ii, opt in enumerate(output))

        self.log.info(f"Leaving finish'''),
("finish only first",'''        self.log.info(f"Leaving finish for task {class_name}")

        # If''','''        output = output[:1]
        # If'''),
("count before",'''        # Return immediately if output is None to skip writing phase.
        if output is None:
            return None

        # Ensure''','''        # Return immediately if output is None to skip writing phase.
        if output is None:
            self._count += 1
            return None

        # Ensure'''),
("nan order",'''        # Check for NaN's etc
        output = self._nan_process_output(output)

        # Write the output if needed
        self._save_output(output, ii)

        return output''','''        # Write the output if needed
        self._save_output(output, ii)

        # Check for NaN's etc
        return self._nan_process_output(output)'''),
("nan drop result",'''        output = self._nan_process_output(output)
''','''        self._nan_process_output(output)
'''),
("attrs alias",'''attrs_to_set = {} if self.attrs is None else self.attrs.copy()''','''attrs_to_set = {} if self.attrs is None else self.attrs'''),
("skip only if dumped",'''            if nan_found and self.nan_skip:''','''            if nan_found and self.nan_dump and self.nan_skip:'''),
("save truthy list",'''        if isinstance(self.save, list):
            save = self.save[ii]
        else:
            save = self.save

''','''        save = self.save

'''),
("save any",'''            save = self.save[ii]''','''            save = any(self.save)'''),
("name 0",'''outfile = self.output_name[ii].format(**name_parts)''','''outfile = self.output_name[0].format(**name_parts)'''),
("format lost",'''                file_format=self.output_format,
            )
            return outfile''','''            )
            return outfile'''),
("history after",'''            for key, value in metadata.items():
                output.add_history(key, value)

''','''            if self._count == 0:
                for key, value in metadata.items():
                    output.add_history(key, value)

'''),
("none saved",'''        if output is None:
            return None

        # Parse''','''        # Parse'''),
("done",'''            if self.done:
                raise exceptions.PipelineStopIteration
''','''            if self.done and self._no_input:
                raise exceptions.PipelineStopIteration
'''),
("tag attr missing",'''        attrs_to_set["tag"] = self.tag
''','''        if self.attrs is None:
            attrs_to_set["tag"] = self.tag
'''),
("tags for first",'''        for opt in output:
            opt.attrs["input_tags"] = input_tags
''','''        output[0].attrs["input_tags"] = input_tags
'''),
("process twice",'''            output = self.process(*input)
''','''            output = self.process(*input[:1])
'''),
]
for n,a,b in B:
    try: mut(R,[(P,a,b)],n)
    except AssertionError as e: print("ASSERT",n)
print("-- refactors")
C=[("loop",'''        output = tuple(self._process_output(opt, ii) for ii, opt in enumerate(output))

        # Increment''','''        processed = []
        for ii, opt in enumerate(output):
            processed.append(self._process_output(opt, ii))
        output = tuple(processed)

        # Increment'''),
("merge",'''        if self._no_input:
            if len(input) > 0:
                # This should never happen.  Just here to catch bugs.
                raise RuntimeError("Somehow `input` was set.")
            output = self.process()
        else:
            output = self.process(*input)
''','''        if self._no_input and input:
            raise RuntimeError("Somehow `input` was set.")
        output = self.process(*input)
'''),
("ret",'''        return output if len(output) > 1 else output[0]

    def finish''','''        if len(output) == 1:
            return output[0]
        return output

    def finish'''),
("attrs dict",'''        attrs_to_set = {} if self.attrs is None else self.attrs.copy()
        attrs_to_set["tag"] = self.tag
''','''        attrs_to_set = dict(self.attrs or {})
        attrs_to_set["tag"] = self.tag
'''),
("attrs dict2",'''        attrs_to_set = {} if self.attrs is None else self.attrs.copy()
        attrs_to_set["tag"] = self.tag
''','''        attrs_to_set = {**(self.attrs or {}), "tag": self.tag}
'''),
("save ifexp",'''        if isinstance(self.save, list):
            save = self.save[ii]
        else:
            save = self.save

''','''        save = self.save[ii] if isinstance(self.save, list) else self.save

'''),
("early",'''        if self.nan_check:
            nan_found = self._nan_check_walk(output)
''','''        if not self.nan_check:
            return output

        if True:
            nan_found = self._nan_check_walk(output)
'''),
("hist",'''            metadata = {"versions": self.versions, "config": self.pipeline_config}
            for key, value in metadata.items():
                output.add_history(key, value)
''','''            output.add_history("versions", self.versions)
            output.add_history("config", self.pipeline_config)
'''),
("helper",'''        # Ensure output is a tuple
        if not isinstance(output, tuple):
            output = (output,)

        # Process each output individually
        output = tuple(self._process_output(opt, ii) for ii, opt in enumerate(output))

        self.log.info(f"Leaving finish for task {class_name}")

        # If there is only a single output, don't wrap as a tuple
        return output if len(output) > 1 else output[0]
''','''        output = self._handle_outputs(output)

        self.log.info(f"Leaving finish for task {class_name}")

        return output

    def _handle_outputs(self, output):
        if not isinstance(output, tuple):
            output = (output,)
        output = tuple([self._process_output(opt, ii) for ii, opt in enumerate(output)])
        return output if len(output) > 1 else output[0]
'''),
]
for n,a,b in C: mut(R,[(P,a,b)],n)
print("--- more")
for n,a,b in [("key0","self._out_keys[ii]","self._out_keys[0]"),("nobreak nan",'''                        found = True
                        break

                    infs''','''                        break

                    infs'''),
("typeerror break",'''                except TypeError:
                    continue''','''                except TypeError:
                    break'''),
("found overwritten",'''                if not all_finite:
                    nans''','''                found = False
                if not all_finite:
                    nans'''),
("reduce", "return self.comm.allreduce(found, op=MPI.MAX)","return found"),
("top only",'''            elif isinstance(n, MemGroup | MemDiskGroup):
                for item in n.values():
                    stack.append(item)''','''            elif isinstance(n, MemGroup | MemDiskGroup) and n is cont:
                for item in n.values():
                    stack.append(item)'''),
("replace stack",'''                for item in n.values():
                    stack.append(item)''','''                stack = list(n.values())'''),
("inf ignored","infs = np.isinf(arr).sum()","infs = np.isnan(arr).sum()"),
("OK extend",'''                for item in n.values():
                    stack.append(item)''','''                stack.extend(n.values())'''),
("OK any",'''                    all_finite = np.isfinite(arr).all()
                except TypeError:
                    continue

                if not all_finite:''','''                    bad = (~np.isfinite(arr)).any()
                except TypeError:
                    continue

                if bad:'''),
]: mut(R,[(P,a,b)],n)
