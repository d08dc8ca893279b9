"""Property id -> (rule module, verification level, technique)."""

RULES = {
    "P01": ("p01_collectives", "other", "rank-taint information flow + collective-trace comparison over the call graph"),
    "P02": ("p02_requests", "other", "typestate dataflow over every path: MPI request post/complete/buffer-use"),
    "P03": ("p03_comm", "other", "value-origin dataflow of communicator arguments"),
    "P07": ("p07_handles", "other", "typestate dataflow of file handles over normal and exceptional paths"),
    "P06": ("p06_lockfile", "other", "path-sensitive effect/typestate analysis of the lock-file protocol"),
    "P16": ("p16_options", "other", "liveness of every accepted option and forwarding analysis over the call graph"),
    "P17": ("p17_names", "other", "definite-assignment dataflow on all paths plus name, import and attribute resolution"),
    "P12": ("p12_lifecycle", "other", "abstract interpretation of the stage automaton from every state and input-presence pattern"),
    "P18": ("p18_calls", "other", "signature matching of every resolved call, override and stub"),
    "P13": ("p13_delivery", "other", "abstract interpretation of product hand-over and of the manager's main loop over all name and task patterns"),
    "P14": ("p14_outputs", "other", "abstract evaluation of task output handling against an event specification"),
    "P15": ("p15_errors", "other", "exception-flow analysis of every handler, clean-up block, exit method and external command"),
    "P11": ("p11_order", "other", "interprocedural value-kind analysis of unordered collections and listings"),
    "P19": ("p19_bounds", "other", "abstract interpretation of compiled loops and their callers over linear inequalities between array sizes and indices"),
    "P20": ("p20_threads", "other", "race analysis of parallel loops, header state and thread-pool submissions"),
    "P23": ("p23_inputs", "other", "interprocedural alias and mutation effect analysis (function summaries over the syntax tree)"),
    "P08": ("p08_attrs", "other", "path-sensitive obligation analysis with value provenance over the syntax tree"),
    "P04": ("p04_shared_files", "other", "event-order analysis of file actions against rank guards and synchronising collectives, callees and context managers read in place"),
    "P25": ("p25_kept", "other", "backward dependence slices of every lazily filled or cached value, compared with its look-up key and lifetime"),
    "P28": ("p28_code", "other", "taint-style classification of every command, evaluation and deserialisation; text given to a shell is taken apart through definitions, attributes and helpers, each piece constant, numeric or quoted"),
    "P26": ("p26_jobs", "other", "path-wise abstract interpretation of the queueing routine, helpers inlined, for every combination of its switches; action sequences compared with what they allow; templates checked against supplied keys and the status protocol"),
    "P24": ("p24_utc", "other", "typestate of datetimes (zone-less, UTC, other zone) by path-sensitive forward dataflow with inlining"),
    "P27": ("p27_process", "other", "effect analysis: resolved process-wide changes must be undone on every path (context manager or finally)"),
}
