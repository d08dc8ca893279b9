"""The properties, in the order of properties.jsonl."""

MEM = "caput/memdata/_memh5.py"
MPA = "caput/mpiarray.py"
MPT = "caput/util/mpitools.py"

PROPS = [
    dict(
        id="P01",
        title="All processes issue the same collective operations in the same order",
        statement=(
            "Whenever an operation on distributed data, a parallel helper or a pipeline task communicates collectively, every process of the "
            "communicator reaches the same sequence of collective calls, whatever its rank, its share of the data or its role. "
            "No collective call is made, skipped, reordered or repeated depending on which process is running."
        ),
        over=["schedules", "inputs", "configurations"],
        all="all process counts, ranks, local data shares and call arguments that are equal on every process",
        why="the suite runs a few operations on one or four processes with even shares; divergence needs particular shares, ranks or sizes and shows as a hang",
        files=[MPT, MPA, MEM, "caput/memdata/fileformats.py", "caput/pipeline/tasklib/io.py", "caput/pipeline/tasklib/base.py"],
        mech=[
            ("collective wrappers and communicators", "caput/util/mpitools.py: barrier, bcast, parallel_map, MPILogFilter"),
            ("distributed reads and writes", "caput/memdata/_memh5.py: _distributed_group_to_file, _distributed_group_from_file"),
            ("distributed array operations", "caput/mpiarray.py: MPIArray.redistribute, gather, allgather, to_file"),
        ],
        note=(
            "Whole-package decision: rank-dependence is tracked through values and calls, and both outcomes of every rank-dependent branch must produce the "
            "same collective trace. Assumes arguments are equal on all processes unless derived from the rank; error paths are outside."
        ),
    ),
    dict(
        id="P02",
        title="Every non-blocking message is completed before its buffer or result is used",
        statement=(
            "Whenever the library starts a non-blocking send or receive it waits for that message to complete before the routine returns, and it does not read "
            "the data of a receive before it completed. No message started by the library is left pending on any path through it."
        ),
        over=["schedules", "inputs"],
        all="all process counts, message sizes and delivery orders",
        why="on one shared-memory node small messages complete immediately, so a missing wait is never observed",
        files=[MPA, MPT, "caput/pipeline/tasklib/debug.py"],
        mech=[
            ("pairwise exchange in redistribution", "caput/mpiarray.py: MPIArray.redistribute, gather, scatter"),
            ("non-blocking helpers", "caput/util/mpitools.py"),
            ("environment check", "caput/pipeline/tasklib/debug.py: CheckMPIEnvironment"),
        ],
        note="Typestate of every request handle on every normally ending path (helpers analysed in place). Paths that raise are outside; a poll counts as completion.",
    ),
    dict(
        id="P03",
        title="Operations stay on the communicator they were given",
        statement=(
            "An operation that is handed a communicator, or that belongs to a distributed array or group which has one, performs all of its communication, "
            "rank and size decisions and parallel file access on that communicator, and passes it on to everything it calls or creates. "
            "The global communicator is used only where no other was supplied."
        ),
        over=["configurations", "inputs"],
        all="all communicators, including sub-communicators whose ranks differ from the global ones",
        why="the tests use the world communicator almost everywhere, so a mix-up of communicators is invisible",
        files=[MPA, MPT, MEM, "caput/memdata/_io.py", "caput/memdata/fileformats.py", "caput/containers/_core.py"],
        mech=[
            ("communicator of a distributed array", "caput/mpiarray.py: MPIArray.comm and every routine using it"),
            ("communicator parameters", "caput/util/mpitools.py helpers with a comm argument"),
            ("parallel file opening", "caput/memdata/_io.py: open_h5py_mpi"),
        ],
        note="Value-origin analysis of every communication, rank/size read and comm argument (about 120 obligations). A fallback to the global communicator under an explicit 'none given' test is accepted.",
    ),
    dict(
        id="P06",
        title="A locked write publishes a complete file atomically and always releases the lock",
        statement=(
            "While a file is written under the write lock, data goes to a temporary name beside the target and the target name appears or changes only by one atomic rename after the write succeeded; "
            "if writing fails the target is untouched, the temporary file is removed unless preservation was asked for, and the error reaches the caller. "
            "The lock file is created before writing by the one designated process (each process when there is no communicator) and is removed after publishing on every path, including failures."
        ),
        over=["crash_points", "fault_sequences", "configurations"],
        all="all points at which the write or any file-system call of the protocol can fail, serial and parallel use, preservation on or off",
        why="tests exercise one success and one failure of the body, never a failing rename or remove, nor more than one process",
        files=["caput/memdata/_io.py", "caput/pipeline/tasklib/base.py"],
        mech=[("lock context manager", "caput/memdata/_io.py: lock_file"), ("use in output writing", "caput/pipeline/tasklib/base.py")],
        note="All paths of entry and exit are enumerated under all flag combinations and file-system failures; event sequences on symbolic names are compared with the protocol. Atomicity of rename itself is trusted.",
    ),
    dict(
        id="P07",
        title="Files opened by the library are closed on every path; caller's files stay open",
        statement=(
            "Every plain or HDF5 file that a library routine opens for its own use is closed when the routine ends, whether it returns or raises. "
            "A file opened on behalf of a returned object is closed when that object is closed, and an already open file passed in by the caller is left open."
        ),
        over=["inputs", "fault_sequences"],
        all="all inputs, early returns and exceptions raised at any call after the file is opened",
        why="leaks do not fail a test: the interpreter usually closes the file at garbage collection, and error paths after opening are not exercised",
        files=[MEM, MPA, MPT, "caput/memdata/_io.py", "caput/containers/tod.py", "caput/pipeline/tasklib/debug.py", "caput/util/profiler.py"],
        mech=[
            ("opening helpers and their 'opened here' flag", "caput/memdata/_io.py: open_h5py_mpi; caput/memdata/_memh5.py: get_file"),
            ("objects owning a file", "caput/memdata/_memh5.py: MemDiskGroup"),
            ("distributed reads and writes", "caput/mpiarray.py: MPIArray.from_file, to_hdf5"),
        ],
        note="Typestate of every handle on all normal and exceptional paths. Zarr groups hold no open file; any call may raise.",
    ),
    dict(
        id="P16",
        title="Every accepted option takes effect and reaches the operation it is meant for",
        statement=(
            "Every argument a routine accepts, every constructor option and every declared configuration option influences what the routine or object does; none is accepted and then silently ignored. "
            "When a routine hands work to another library routine that accepts the same option, the caller's value is passed on, under the right name, rather than dropped, replaced by a default or swapped with another."
        ),
        over=["inputs", "configurations"],
        all="all routines, constructors and tasks of the package and all values of their options",
        why="a dropped option is only visible in a test that sets that very option to a non-default value and inspects its effect",
        files=[MEM, MPA, "caput/pipeline/extensions/_extensions.py", "caput/pipeline/tasklib/base.py", "caput/containers/_core.py"],
        mech=[
            ("saving and loading options", "caput/memdata/_memh5.py: MemGroup.to_file, from_file, MemDiskGroup.save, from_file"),
            ("distributed input and output options", "caput/mpiarray.py: MPIArray.from_file, to_file, to_hdf5"),
            ("task configuration", "config.Property declarations in caput/pipeline"),
        ],
        note="Decides that every option is read on some path and is forwarded wherever callee and caller share it; what the option then does numerically is outside.",
    ),
    dict(
        id="P17",
        title="Nothing the library refers to is missing when that code is reached",
        statement=(
            "On no path through the library, including error handling, missing optional dependencies, empty inputs and non-root processes, is a variable read before it was assigned. "
            "Every global name, imported name, module or class attribute and attribute of an object's own class that the code refers to is defined, and every name a module lists as public exists."
        ),
        over=["inputs", "configurations", "fault_sequences"],
        all="all paths through every function of the package, with any call allowed to raise and any loop allowed to be empty",
        why="the tests exercise few error, fallback and empty-input paths, and Python reports such a reference only when it is executed",
        files=[MPA, MPT, MEM, "caput/containers/_util.py", "caput/pipeline/extensions/_extensions.py", "caput/memdata/__init__.py"],
        mech=[
            ("fallback and error paths", "caput/pipeline/extensions/_extensions.py: GroupIOMixin.write_output; caput/memdata/_memh5.py: MemDiskGroup._resolve_subclass"),
            ("format and scope dispatch", "caput/mpiarray.py: MPIArray.from_file; caput/util/mpitools.py: can_allocate"),
            ("public names", "__all__ of every package module"),
        ],
        note="Path-sensitive definite assignment plus full name resolution. Attributes of third-party objects and of dynamically typed receivers other than the object itself are outside.",
    ),
    dict(
        id="P12",
        title="Pipeline tasks run their stages in order, only when ready, never once finished",
        statement=(
            "A pipeline task runs its setup stage at most once and only when every required product has arrived, then its repeated stage once per complete set of queued inputs, then its finish stage once, and nothing after that; "
            "a task whose required products can no longer arrive goes straight to its finish stage. "
            "Each stage is given exactly the task's inputs in their declared order, its result is what the step hands on, and an error it raises is not swallowed; "
            "a run schedules only unfinished tasks and ends only when none is left."
        ),
        over=["histories", "inputs", "fault_sequences"],
        all="all task states, all combinations of present and missing inputs, and every stage returning, raising an error or reporting its end",
        why="tests run a few short pipelines to completion; missing inputs, errors and early ends at each stage form many more histories than are sampled",
        files=["caput/pipeline/_pipeline.py"],
        mech=[
            ("stage automaton of a task", "caput/pipeline/_pipeline.py: Task._pipeline_next, Task._pipeline_advance_state"),
            ("forced moves and removal of finished tasks", "caput/pipeline/_pipeline.py: Manager.runner, Manager.run"),
        ],
        note="The transition relation is computed by abstract interpretation from every state and every presence pattern of up to three inputs and compared with the automaton. Scheduling order between tasks is outside.",
    ),
    dict(
        id="P18",
        title="Calls inside the library fit the routine they call, and stubs fit the routines",
        statement=(
            "Every call from one part of the library to a routine of the library that can be identified supplies all its required arguments, none that it does not accept and none twice, "
            "also when the call reaches a version redefined in a subclass. "
            "Every routine described in a published type stub exists and accepts the same parameters in the same order, the same ones being optional."
        ),
        over=["inputs", "configurations"],
        all="all call sites and stub signatures of the package, on every path including error and option-specific ones",
        why="a mismatching call fails only when that very call is executed, and stubs are never executed",
        files=[MEM, MPA, MPT, "caput/memdata/_memh5.pyi", "caput/pipeline/_pipeline.py", "caput/containers/_core.py"],
        mech=[
            ("internal call sites", "every resolved call in caput"),
            ("type stubs", "caput/**/*.pyi against the matching *.py and *.pyx"),
        ],
        note="Calls whose target cannot be identified from the source (dynamic receivers, callbacks) are outside; about 570 calls and 310 stub signatures are decided.",
    ),
    dict(
        id="P13",
        title="Every product reaches each task that asked for it exactly once and in order",
        statement=(
            "Each product a pipeline task hands on is delivered to every unfinished task that lists its name, once for each place it is listed and nowhere else, outputs being matched to names in declared order; "
            "a task consumes the products of one name in the order they were produced. "
            "A product for a stage that has already run, a second product for a filled requirement or a wrong number of outputs is an error, and errors raised by tasks end the run and reach the caller."
        ),
        over=["histories", "inputs", "configurations"],
        all="all task lists, name assignments (also repeated names), arrival orders and outcomes of a step",
        why="tests use a few linear pipelines; repeated names, several consumers, finished tasks in the list and late products are not sampled",
        files=["caput/pipeline/_pipeline.py"],
        mech=[
            ("hand-over of one product", "caput/pipeline/_pipeline.py: Task._pipeline_queue_product"),
            ("slots and queues of a task", "caput/pipeline/_pipeline.py: Task._setup_keys"),
            ("main loop", "caput/pipeline/_pipeline.py: Manager.runner, Manager.run, Manager._check_task_output"),
        ],
        note="All matching/non-matching name patterns of up to two inputs (three in the thorough tier) and all patterns of up to two (three) scheduled and finished tasks; uniform in longer lists by inspection of the same code, not proved.",
    ),
    dict(
        id="P14",
        title="Container task outputs are labelled, checked, saved when asked, passed on once",
        statement=(
            "A container task runs its process stage once per step with its inputs in order. Every output that is produced receives the configured attributes and tag and the tags of the inputs, "
            "is checked for bad values in every dataset at any depth when checking is on, with the outcome agreed between all processes, and is dropped, neither saved nor passed on, exactly when it is bad and skipping is on. "
            "Each kept output is written exactly when saving is enabled for it, under the name and format configured for that output and with versions and configuration recorded beforehand, and is handed on exactly once, in order; errors reach the caller."
        ),
        over=["inputs", "configurations", "histories"],
        all="all numbers of inputs and outputs per step, all combinations of save, check, dump and skip settings, and good or bad data in any dataset of any group",
        why="tests run single-output tasks with one setting each; the combinations of several outputs, nested groups and per-output settings are not sampled",
        files=["caput/pipeline/tasklib/base.py"],
        mech=[
            ("one step and its output processing", "caput/pipeline/tasklib/base.py: ContainerTask.next, finish, _process_output"),
            ("saving", "caput/pipeline/tasklib/base.py: ContainerTask._save_output, _interpolation_dict"),
            ("bad-value check", "caput/pipeline/tasklib/base.py: ContainerTask._nan_process_output, _nan_check_walk"),
        ],
        note="Abstract evaluation of the step, output and check routines over enumerated scenarios (125), comparing the sequence of stage, label, check, write and hand-on events with the specification. What the isnan/isinf primitives compute is trusted.",
    ),
    dict(
        id="P15",
        title="Failures are raised or reported, never silently discarded",
        statement=(
            "An error raised by user-supplied code, file writing, communication or an external command always reaches the caller: no handler, suppression, clean-up block or context-manager exit turns it into normal completion, "
            "and a failing external command raises. "
            "General errors (any exception, operating-system, runtime or configuration errors) are never caught without raising or at least a visible warning; only an expected absence, such as a missing key, attribute, file or optional package, is handled quietly. "
            "Every error object that is created is raised. When abort-on-error is enabled, an uncaught error in one process is shown and then ends all processes with a failure status."
        ),
        over=["fault_sequences", "inputs", "configurations"],
        all="all points of the package at which an error can be raised and all handlers above them",
        why="the suite provokes few failures; a swallowed error makes a test pass, so only an exhaustive look at the handlers can exclude it",
        files=["caput/pipeline/_pipeline.py", "caput/pipeline/extensions/_extensions.py", "caput/pipeline/tasklib/base.py", "caput/pipeline/tasklib/io.py", "caput/pipeline/runner/_scheduler/__init__.py", "caput/memdata/_io.py", MPT],
        mech=[
            ("handlers, clean-up blocks and exit methods", "every try statement, suppress() and __exit__ of the package"),
            ("abort on error", "caput/util/mpitools.py: enable_mpi_exception_handler"),
            ("external commands", "caput/pipeline/runner/_scheduler/__init__.py: queue; caput/pipeline/tasklib/io.py: SaveZarrZip, WaitZarrZip, ZipZarrContainers"),
        ],
        note="Exhaustive over all 80 handlers with resolved-call reachability of risky operations. Whether a validation condition itself is right is outside.",
    ),
    dict(
        id="P11",
        title="Results never depend on the order of sets or directory listings",
        statement=(
            "Whenever the library turns a set or a directory or wildcard listing into a list of files, axes or names, a dictionary, a sequence of operations, messages or anything else whose order can be seen, it puts it into a sorted order first. "
            "Every run and every process therefore sees the same order, whatever the hash seed or the file system; only error messages and order-independent uses may follow the native order."
        ),
        over=["configurations", "inputs", "schedules"],
        all="all hash seeds, file systems, numbers of processes and inputs",
        why="one process with one hash seed and one directory layout always shows one order, which usually happens to be the expected one",
        files=["caput/containers/_core.py", "caput/containers/tod.py", "caput/pipeline/tasklib/io.py", MPT],
        mech=[
            ("axes and dataset specifications", "caput/containers/_core.py: ContainerPrototype._class_axes, axes, dataset_spec"),
            ("file lists", "caput/containers/tod.py: ensure_file_list, TODReader; caput/pipeline/tasklib/io.py: list_or_glob, list_of_filelists, list_of_filegroups"),
        ],
        note="Forward value-kind analysis of all functions. Member order of HDF5/Zarr groups is taken as deterministic; one loop over distinct axes is accepted as commuting.",
    ),
dict(
        id="P19",
        title="Compiled loops never touch memory outside their arrays",
        statement=(
            "No compiled routine that runs with bounds checking switched off reads or writes outside the arrays it is given or creates, whatever the shapes and "
            "sizes of its arguments, including empty, mismatched and odd-sized ones: every index computed from sizes and loop counters lies inside its axis, "
            "and inputs whose shapes do not fit together are refused before the loop starts."
        ),
        over=["inputs"],
        all="all array shapes, sizes and window sizes passed to the compiled routines through their public entry points",
        why="an access just outside an array usually goes unnoticed in a test; it needs particular combinations of shapes to crash or to return garbage",
        files=["caput/util/truncate.pyx", "caput/algorithms/median/weighted.pyx", "caput/astro/coordinates/_spherical.pyx", "caput/algorithms/_invert_no_zero/_invert_no_zero.pyx", "caput/algorithms/_invert_no_zero/__init__.py"],
        mech=[
            ("weighted median and quantile", "caput/algorithms/median/weighted.pyx: quantile, moving_weighted_median, _mwm_2D, _quickselect"),
            ("truncation", "caput/util/truncate.pyx: _bit_truncate_weights_float, bit_truncate_max_complex"),
            ("coordinates", "caput/astro/coordinates/_spherical.pyx: sph_to_cart, thetaphi_plane_cart, norm_vec2, cosine_rule"),
            ("reciprocal", "caput/algorithms/_invert_no_zero/__init__.py: invert_no_zero"),
        ],
        note=(
            "Polyhedral reasoning over symbolic shapes, calls followed in place from the public routines. The partition scan of the selection routine, whose "
            "counters stop on the data, and the C++ tree are outside."
        ),
    ),
dict(
        id="P20",
        title="Results of multi-threaded code do not depend on how threads are scheduled",
        statement=(
            "The multi-threaded loops of the compiled routines give the same result whatever the number of threads and their scheduling: an iteration writes only "
            "its own elements, reads nothing another iteration writes, carries no state over from another iteration, and shares no changing object or global "
            "state with another thread. Work handed to the random generator's thread pool fills disjoint parts of the output, each with its own generator, changes "
            "nothing shared, and is complete, with failures raised, before the result is returned."
        ),
        over=["schedules", "inputs"],
        all="all thread counts, schedules and array shapes",
        why="races need unlucky timing and enough rows per thread; the tests compare a few small arrays once",
        files=["caput/util/truncate.pyx", "caput/util/truncate.hpp", "caput/algorithms/median/weighted.pyx", "caput/algorithms/median/MedianTree.hpp", "caput/astro/coordinates/_spherical.pyx", "caput/algorithms/_invert_no_zero/_invert_no_zero.pyx", "caput/algorithms/random.py"],
        mech=[
            ("parallel loops", "prange loops in the four .pyx files"),
            ("thread-private containers", "caput/algorithms/median/weighted.pyx: _mwm_2D"),
            ("thread pool", "caput/algorithms/random.py: MultithreadedRNG._build_method"),
        ],
        note="Distinct array arguments are taken not to overlap in memory; plain reductions are accepted; which numbers a pool draws depends on its size by design.",
    ),
    dict(
        id="P23",
        title="Arguments, shared defaults and declared options are left unchanged",
        statement=(
            "A public routine does not change a list, dictionary, set or array that its caller passed in, nor anything held in it, unless filling or modifying that "
            "argument is its documented purpose. Objects shared between calls are not changed by use either: default argument objects, class-level dictionaries and lists such as "
            "container specifications, module-level tables other than the registries, declared configuration options, and the configuration a pipeline holds for all of its tasks. "
            "Where such an object is the starting point for something that is changed, it is copied first, as deep as the change reaches."
        ),
        over=["inputs", "histories"],
        all="all arguments, call sequences and configurations",
        why="a test looks at what a call returns, once, and rarely at what it left behind in its arguments or in shared objects; the effect shows in a later, unrelated call",
        files=["caput/containers/_util.py", "caput/containers/tod.py", "caput/containers/_core.py", "caput/pipeline/_pipeline.py", "caput/pipeline/tasklib/io.py", "caput/pipeline/tasklib/base.py", MPA, MEM],
        mech=[
            ("container specifications and selections", "caput/containers/_core.py: DataWithIndexMap, ContainerPrototype, TableSpec; caput/containers/_util.py: copy_datasets_filter, empty_like"),
            ("time stream concatenation", "caput/containers/tod.py: concatenate, Reader"),
            ("configuration of tasks", "caput/pipeline/_pipeline.py: Manager._get_task_from_spec, _setup_logging; caput/pipeline/tasklib/io.py: Truncate._get_params, list_of_filegroups"),
        ],
        note=(
            "Whole-package effect analysis: every in-place change is traced through assignments, views, containers and resolved calls to the objects it may reach. Methods of objects of unknown class "
            "count as changing them only when they are mutating methods of lists, dictionaries, sets or arrays. Whether a copy is equal to the original is outside."
        ),
    ),
    dict(
        id="P08",
        title="Attributes accompany the data in every copy, load, save and conversion",
        statement=(
            "Whenever the library makes a dataset, group or axis definition of a container, group or file from an existing one (copying a tree in memory, writing it to or reading it from a file, "
            "converting between common and distributed, selecting into another container, concatenating, or building a container from the axes or attributes of another), every attribute of the original "
            "is set on the new item, and the root attributes on the new root; none is dropped, skipped or taken from a different item. Only the axis names, which a new container defines itself, may differ. "
            "Copying or converting a dataset also keeps its chunking and compression settings."
        ),
        over=["inputs", "configurations"],
        all="all trees of groups, datasets and axes, common or distributed, and all attributes",
        why="tests compare a few attributes of a few items on the usual path; an item kind, option or branch that loses them is not looked at",
        files=[MEM, "caput/containers/_util.py", "caput/containers/_core.py", "caput/containers/tod.py"],
        mech=[
            ("attribute copier", "caput/memdata/_memh5.py: copyattrs, attrs2dict"),
            ("tree copies and files", "caput/memdata/_memh5.py: deep_group_copy, _distributed_group_from_file, MemDataset.copy, MemGroup.dataset_common_to_distributed, dataset_distributed_to_common"),
            ("containers", "caput/containers/_core.py: ContainerPrototype.__init__; caput/containers/_util.py: copy_datasets_filter, empty_like; caput/containers/tod.py: concatenate"),
        ],
        note=(
            "Every creation of an item from an existing one opens an obligation that only copying the attributes of that original to that new item discharges; no path, iteration or helper may leave one open. "
            "That a converted attribute value equals the original is outside (a property of values)."
        ),
    ),
    dict(
        id="P04",
        title="Processes never race on a shared file, directory or stored dataset",
        statement=(
            "When several processes take part in writing, a shared file, directory, lock or stored dataset is created, truncated, renamed or removed by exactly one of them, and the others "
            "wait for it: between that step and any use of the same name by another process, before or after, all of the processes concerned synchronise. Where parallel file access is not available "
            "the processes write to a shared file strictly one after another."
        ),
        over=["schedules", "configurations"],
        all="all process counts, relative speeds of processes and file formats",
        why="on one node with quick processes the first process has nearly always finished when the others come to the file; the race needs a slow file system or process",
        files=[MPA, MEM, "caput/memdata/_io.py", "caput/memdata/fileformats.py", "caput/pipeline/extensions/_extensions.py", "caput/pipeline/tasklib/io.py"],
        mech=[
            ("parallel dataset writes", "caput/mpiarray.py: MPIArray.to_zarr, _to_hdf5_serial, to_hdf5"),
            ("tree written by one process, data by all", "caput/memdata/_memh5.py: _distributed_group_to_file"),
            ("locks and synchronisers", "caput/memdata/_io.py: lock_file; caput/memdata/fileformats.py: ZarrProcessSynchronizer"),
        ],
        note=(
            "Every pair of actions on one name by different processes, one of them changing it, is compared over all paths with callees in place; a broadcast orders only what its root did before. "
            "Names are identified symbolically inside one entry point; separate calls made by the user are outside."
        ),
    ),
    dict(
        id="P25",
        title="A value kept from one call for later ones is right for those later calls",
        statement=(
            "Whatever the library keeps from one call to answer later ones (a lazily created object, an interpolation table, a generator, a memo table, the result of a caching decorator) is only "
            "used where it would have been computed the same: it does not depend on an argument of the call that filled it unless that argument is part of the look-up; a value kept for a class, a module "
            "or the process does not depend on the settings of one object; and a value kept by an object does not outlive a change of the settings it was computed from."
        ),
        over=["histories", "inputs"],
        all="all sequences of calls on all objects, with any arguments, and all changes of settings in between",
        why="a test makes one kind of call on a fresh object; a stale or foreign value needs a second call, with other arguments, another object or changed settings, in the same process",
        files=["caput/util/pfb.py", "caput/astro/observer.py", "caput/astro/skyfield.py", "caput/util/arraytools.py", "caput/algorithms/random.py", "caput/pipeline/tasklib/random.py", "caput/pipeline/_pipeline.py", "caput/config.py"],
        mech=[
            ("interpolation tables", "caput/util/pfb.py: PFB.evaluate_channel_profile, decorrelation_ratio"),
            ("observer and ephemeris", "caput/astro/observer.py: Observer.skyfield_obs; caput/astro/skyfield.py: SkyfieldWrapper"),
            ("generators", "caput/algorithms/random.py: default_rng; caput/pipeline/tasklib/random.py: RandomTask.rng"),
            ("bound wrappers", "caput/util/arraytools.py: vectorize, scalarize, listize"),
        ],
        note=(
            "Every conditional store outside the call (object, class, module, closure, default argument) and every caching decorator is sliced backwards, through helpers and properties, to arguments and "
            "attributes; each must be in the key, or not change while the value is kept. Options of tasks are fixed once configured. Assignments to attributes from outside the library are not considered."
        ),
    ),
    # -- not decided by this family ---------------------------------------------------------------
    dict(
        id="N01",
        title="Redistribution, gathering, slicing and concatenation keep every element",
        statement=(
            "For every global shape, distributed axis, process count and selection, redistributing, gathering, slicing, transposing or concatenating distributed arrays yields exactly the elements the "
            "same operation on the undistributed array yields, in the same places, and the local offsets and shapes tile the global shape."
        ),
        over=["inputs", "configurations"],
        all="all shapes, process counts, axes and selections",
        why="tests run a few shapes on one or a few processes",
        files=[MPA, "caput/util/mpitools.py", "caput/containers/tod.py"],
        mech=[("redistribution", "caput/mpiarray.py: MPIArray.redistribute, gather, __getitem__"), ("partitions", "caput/util/mpitools.py: split_all, split_local, transpose_blocks")],
        note="",
    ),
    dict(
        id="N02",
        title="Saving and loading a container restores every value, type and attribute value",
        statement=(
            "Writing any tree of groups, datasets and attributes to HDF5 or Zarr and reading it back gives the same values, data types, strings and attribute values, with or without chunking and "
            "compression, from any number of processes to any other."
        ),
        over=["inputs", "configurations"],
        all="all trees, data types, string encodings, chunkings and process counts",
        why="tests save a handful of small trees",
        files=[MEM, MPA, "caput/memdata/fileformats.py", "caput/util/typeutils.py"],
        mech=[("tree copies", "caput/memdata/_memh5.py: deep_group_copy, copyattrs"), ("string conversion", "caput/util/typeutils.py")],
        note="",
    ),
    dict(
        id="N03",
        title="Bit truncation stays within the requested precision of the data",
        statement=(
            "Truncating an array to a relative precision, or to a fraction of its noise, changes no element by more than that amount, leaves infinities and NaNs as they are and never increases the number of "
            "significant bits."
        ),
        over=["inputs"],
        all="all finite and non-finite values, weights and precisions",
        why="tests sample a few random arrays",
        files=["caput/util/truncate.pyx", "caput/util/truncate.hpp"],
        mech=[("bit rounding", "caput/util/truncate.hpp: bit_truncate; caput/util/truncate.pyx: bit_truncate_relative, bit_truncate_weights, bit_truncate_max_complex")],
        note="",
    ),
    dict(
        id="N04",
        title="Weighted medians and quantiles equal their definition",
        statement=(
            "The weighted median, quantile and moving weighted median return, for every data array, weights and window, the value defined by the cumulative weight with the documented treatment of ties, zero "
            "weights and edges."
        ),
        over=["inputs"],
        all="all arrays, weights, quantiles and windows",
        why="tests compare a few random arrays with a slow implementation",
        files=["caput/algorithms/median/weighted.pyx"],
        mech=[("weighted order statistics", "caput/algorithms/median/weighted.pyx: quantile, moving_weighted_median; MedianTree.hpp")],
        note="",
    ),
    dict(
        id="N05",
        title="Time, sidereal-day and coordinate conversions are inverse and accurate",
        statement=(
            "Conversions between UNIX time, date strings, Earth rotation angle, local sidereal day and coordinates invert one another to the documented accuracy at all epochs, including around leap seconds, "
            "and transit, rise and set searches return every event in the interval."
        ),
        over=["inputs"],
        all="all times, positions and bodies",
        why="tests compare a few epochs with reference values",
        files=["caput/astro/time.py", "caput/astro/observer.py", "caput/astro/coordinates/spherical.py"],
        mech=[("conversions", "caput/astro/time.py, caput/astro/observer.py, caput/astro/coordinates")],
        note="",
    ),
    dict(
        id="N06",
        title="Transforms, inversions, filters and Bessel functions equal their definitions",
        statement=(
            "The fast routines for inversion without zeros, Fourier transforms, polyphase filter responses and spherical Bessel functions agree with their mathematical definition to the "
            "documented tolerance for all inputs."
        ),
        over=["inputs"],
        all="all inputs in the documented domain",
        why="tests compare a few inputs with a direct evaluation",
        files=["caput/algorithms/fft/fftw.py", "caput/util/pfb.py", "caput/astro/coordinates/bessel.py"],
        mech=[("numerical routines", "caput/algorithms, caput/util/pfb.py")],
        note="",
    ),
    dict(
        id="N07",
        title="Random streams of different processes and threads are independent",
        statement="The numbers drawn by different processes, tasks and threads come from statistically independent streams, and have the requested distribution.",
        over=["histories"],
        all="all seeds, process and thread counts",
        why="independence is a statistical property of the streams",
        files=["caput/algorithms/random.py", "caput/pipeline/tasklib/random.py"],
        mech=[("stream seeding", "caput/algorithms/random.py: MultithreadedRNG; caput/pipeline/tasklib/random.py: RandomTask")],
        note="",
    ),
    dict(
        id="P28",
        title="Names and values are data: no shell, interpreter or unpickler runs them",
        statement="File names, paths, options and file contents handled by the library are data: a value never becomes part of a command line read by a shell unless it is quoted, never gets split at blanks into several arguments of a command, is never evaluated as code, and data files and configurations are read only with loaders that cannot run code (safe YAML loaders, no unpickling). In the scripts written for queued jobs every path stands inside quotes.",
        over=["inputs", "configurations"],
        all="all file names, directories, options and file contents",
        why="tests use short names without blanks, quotes or semicolons and files written by the library itself; the damage needs a name or file that a shell or loader reads as instructions",
        files=["caput/pipeline/tasklib/io.py", "caput/pipeline/runner/_scheduler/__init__.py", "caput/pipeline/runner/_scheduler/_default_systems.toml", "caput/pipeline/runner/_core.py", "caput/pipeline/_pipeline.py"],
        mech=[
            ("zip commands", "caput/pipeline/tasklib/io.py: SaveZarrZip.next, ZipZarrContainers.process"),
            ("submission and job scripts", "caput/pipeline/runner/_scheduler/__init__.py: queue; _default_systems.toml"),
            ("YAML loaders", "caput/pipeline/_pipeline.py: Manager.from_yaml_str; caput/pipeline/runner/_core.py: _load_config"),
        ],
        note=(
            "Every call is resolved, aliases and partial included. Text for a shell is decomposed through string building, local definitions, attributes and helpers; a piece that is neither constant, numeric nor "
            "quoted is reported. Code that a configuration names by its import path is meant to be run and is not part of this."
        ),
    ),
    dict(
        id="P26",
        title="Queued jobs: complete scripts, honest status, existing jobs left alone",
        statement=(
            "Queueing a pipeline leaves an existing job's directory untouched and does not submit it again unless overwriting was asked for (never: any existing job is kept; failed: one whose status says FINISHED is kept; "
            "always: none is), creates it otherwise, and submits exactly once and only when submission was asked for, after the configuration (checked first unless that is switched off) and the filled-in script have been "
            "written, from the directory they were written to; a failing submission is an error. The script of every registered system can be filled in from the required keys of the configuration and those the library "
            "supplies, runs the copied configuration with the process count and profiling options asked for, and reports honestly in the file that queueing looks at: RUNNING before the pipeline starts, FINISHED only after it "
            "succeeded, CRASHED when it failed; output is moved to its final directory only after success and only when a temporary one was used."
        ),
        over=["configurations", "histories"],
        all="all combinations of options, queue systems, configurations and states of the job directory",
        why="the tests have no scheduler to submit to; a wrong script or status shows only on a cluster, after a job has waited, run or crashed",
        files=["caput/pipeline/runner/_scheduler/__init__.py", "caput/pipeline/runner/_scheduler/_default_systems.toml", "caput/pipeline/runner/_cli.py"],
        mech=[
            ("queueing", "caput/pipeline/runner/_scheduler/__init__.py: queue, template_queue"),
            ("job directory", "caput/pipeline/runner/_scheduler/__init__.py: _create_job_directories"),
            ("script", "caput/pipeline/runner/_scheduler/__init__.py: _resolve_job_script; _default_systems.toml"),
        ],
        note=(
            "The routine is walked on every path with its helpers in place for 15 combinations of submit, lint, overwrite, email and profiling; the order of directory, file and command actions is judged against what was found "
            "to exist. Shell scripts are analysed line by line. Types of user-supplied values are not checked."
        ),
    ),
    dict(
        id="P24",
        title="A moment means the same whatever time zone the machine or datetime is in",
        statement="Every conversion between datetimes, UNIX times, time strings and times of day gives the same result on every machine: a datetime without a zone means UTC, never the machine's local time; a datetime that carries a zone is converted by that zone, which is never overwritten or dropped; strings and calendar fields presented as UTC are those of UTC; and datetimes with and without a zone are never subtracted or compared with each other.",
        over=["inputs", "configurations"],
        all="all datetimes, with or without any zone, on machines in any time zone",
        why="tests run on machines whose zone is UTC and use datetimes without a zone or in UTC, for which every wrong treatment of zones gives the right result",
        files=["caput/astro/time.py", "caput/astro/observer.py", "caput/astro/skyfield.py", "caput/config.py"],
        mech=[
            ("zone attached to zone-less datetimes", "caput/astro/time.py: naive_datetime_to_utc"),
            ("conversions", "caput/astro/time.py: datetime_to_unix, unix_to_datetime, datetime_to_timestr, time_of_day, ensure_unix"),
            ("current time", "caput/astro/observer.py: Observer.get_current_lsd"),
        ],
        note="Each datetime is tracked along every path, through helpers, as zone-less, UTC or in another zone, with the tests made of its zone; operations that take the machine's zone, overwrite or drop a zone, read another zone's clock as UTC or mix zoned and zone-less values are reported.",
    ),
    dict(
        id="P27",
        title="Using the library leaves the settings of the whole process as they were",
        statement="A routine of the library never leaves something changed that belongs to the whole process: the working directory, environment variables, signal and exception handlers, warning filters, numpy's error handling and print options, garbage collection, the module search path, the root logger, or attributes of other libraries. A change that is needed for a while is undone however the routine ends. The random generators shared by the process are neither seeded nor drawn from. Importing the library changes none of these either. Only routines documented to change such a setting do so, and only when the user asks for it.",
        over=["inputs", "histories", "configurations"],
        all="all calls of all routines, whether they return or raise",
        why="tests run each routine alone and look at its result; the damage shows in unrelated code of the same process that runs afterwards",
        files=["caput/algorithms/_invert_no_zero/__init__.py", "caput/util/mpitools.py", "caput/util/arraytools.py", "caput/pipeline/runner/_core.py", "caput/pipeline/runner/_scheduler/__init__.py", "caput/pipeline/tasklib/random.py", "caput/pipeline/_pipeline.py"],
        mech=[
            ("temporary error handling", "caput/algorithms/_invert_no_zero/__init__.py: invert_no_zero"),
            ("exception handler on request", "caput/util/mpitools.py: enable_mpi_exception_handler"),
            ("own random generators", "caput/algorithms/random.py: MultithreadedRNG, caput/pipeline/tasklib/random.py: RandomTask"),
            ("job submission in another directory", "caput/pipeline/runner/_scheduler/__init__.py: queue"),
        ],
        note="All operations of the package that change process-wide state are found by name resolution; each must be undone by a context manager or finally on every path, or stand in a routine documented for it.",
    ),
]

NOT_APPLICABLE = [
    ("N01", "equality of element values and tilings of ranges for all shapes: needs a relational proof over run-time shapes, offsets and array contents, not a property of control or data flow"),
    ("N02", "equality of stored and restored values goes through h5py, zarr and numpy conversions, whose behaviour is not in the analysed source"),
    ("N03", "floating-point error bound of bit arithmetic; needs numerical reasoning about values (a solver or proof), which is another family"),
    ("N04", "functional correctness of a numerical algorithm over array contents (memory safety and threading of the same loops are P19 and P20)"),
    ("N05", "numerical accuracy of formulas and of an external ephemeris library; no static rule bounds it"),
    ("N06", "numerical agreement with a mathematical definition over real-valued inputs"),
    ("N07", "statistical property of generated numbers (that streams are not shared between threads is P20, that they are not kept for others is P25)"),
]
