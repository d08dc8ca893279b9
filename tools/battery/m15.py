import sys; sys.path.insert(0,'/verif/tools/battery')
from mut import mut
R='p15_errors'
P='caput/pipeline/_pipeline.py'; B='caput/pipeline/tasklib/base.py'; M='caput/memdata/_memh5.py'; T='caput/util/mpitools.py'; E='caput/pipeline/extensions/_extensions.py'; I='caput/memdata/_io.py'; IO='caput/pipeline/tasklib/io.py'
print('-- bugs')
mut(R,[(B,"            self.write_output(\n                outfile,\n                output,\n                file_format=self.output_format,\n            )\n            return outfile","            try:\n                self.write_output(\n                    outfile,\n                    output,\n                    file_format=self.output_format,\n                )\n            except OSError as e:\n                self.log.warning(f'{e}')\n            return outfile")],'write error logged')
mut(R,[(E,"                if not os.path.isdir(dirname):\n                    raise e\n\n        # Cases","                self.log.debug(e)\n\n        # Cases")],'makedirs swallowed')
mut(R,[(I,"        return False\n","        return exc_type is not None and self.preserve\n")],'exit true')
mut(R,[(P,"            raise config.CaputConfigError(f\"Error adding task {task!s}\\n\") from exc","            logger.debug(exc)")],'config err')
mut(R,[(P,"            except exceptions.PipelineStopIteration:","            except (exceptions.PipelineStopIteration, AttributeError):")],'next widened')
mut(R,[(T,"        MPI.COMM_WORLD.Abort(1)","        if MPI.COMM_WORLD.size > 1:\n            MPI.COMM_WORLD.Abort(1)")],'abort cond')
mut(R,[(T,"        MPI.COMM_WORLD.Abort(1)","        MPI.COMM_WORLD.Abort(0)")],'abort 0')
mut(R,[(IO,"                    raise RuntimeError(f\"Error occurred while zipping {h.filename}.\")","                    self.log.error('x')")],'zip status not raised (logged error)')
mut(R,[(IO,"returncode = h.handle.wait()\n\n                if returncode != 0 or not os.path.exists(h.filename):","h.handle.wait()\n\n                if not os.path.exists(h.filename):")],'zip status dropped')
mut(R,[(M,"        except (ImportError, KeyError):\n            warnings.warn(f\"Could not import memh5 subclass {clspath}\")","        except Exception:\n            pass")],'subclass')
mut(R,[(T,"    except OSError as e:\n        # We probably","    except Exception:\n        return True\n    except OSError as e:\n        # We probably")],'mem swallow')
mut(R,[(P,"            raise config.CaputConfigError(\"'type' not specified for task.\") from e","            config.CaputConfigError(\"'type' not specified for task.\")")],'not raised')
mut(R,[(B,"        try:\n            if self.done:\n                raise exceptions.PipelineStopIteration\n        except AttributeError:\n            self.done = True\n\n        # Extract","        try:\n            if self.done:\n                raise exceptions.PipelineStopIteration\n            self.process()\n        except AttributeError:\n            self.done = True\n\n        # Extract")],'process under handler')
print('-- refactors')
mut(R,[(E,"            try:\n                os.makedirs(dirname)\n            except OSError as e:\n                # It's possible the directory was created by another MPI task\n                if not os.path.isdir(dirname):\n                    raise e\n\n        # Cases for `output` object type.\n        if isinstance(output, MemGroup)","            os.makedirs(dirname, exist_ok=True)\n\n        # Cases for `output` object type.\n        if isinstance(output, MemGroup)")],'exist_ok')
mut(R,[('caput/memdata/fileformats.py',"        try:\n            os.remove(name)\n        except FileNotFoundError:\n            pass","        import contextlib\n        with contextlib.suppress(FileNotFoundError):\n            os.remove(name)")],'suppress')
mut(R,[(T,"        sys.__excepthook__(exc_type, exc_obj, exc_tb)\n        sys.stdout.flush()\n        sys.stderr.flush()\n        time.sleep(5)\n","        def show():\n            sys.__excepthook__(exc_type, exc_obj, exc_tb)\n            for s in (sys.stdout, sys.stderr):\n                s.flush()\n        show()\n        time.sleep(5)\n")],'hook helper')
mut(R,[(IO,"                returncode = h.handle.wait()\n\n                if returncode != 0 or not os.path.exists(h.filename):","                failed = h.handle.wait() != 0 or not os.path.exists(h.filename)\n                if failed:")],'zip var')
mut(R,[(I,"        return False\n","")],'exit none')
