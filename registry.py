"""Which sources, variants and budgets each check uses."""

ADAPTERS = {
    "m": ["main_adapter.c"],                 # the whole program, main() included
    "b": ["clock_adapter.c", "bb_adapter.c"],   # the branch-and-bound API, step by step
    "h": ["main_adapter.c", "heap_adapter.c"],  # the data structures and readers on their own
    "l": ["main_adapter.c", "list_adapter.c"],
    "u": ["main_adapter.c", "mfset_adapter.c"],
    "g": ["main_adapter.c", "graph_adapter.c"],
    "r": ["main_adapter.c", "reader_adapter.c"],
}
FLAVOURS = {
    "": [],
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-Dmalloc=vf_malloc", "-Dcalloc=vf_calloc",
             "-Drealloc=vf_realloc", "-Dfree=vf_free", "-Dgetline=vf_getline"],
    "zero": ["-ftrivial-auto-var-init=zero"],
    "pattern": ["-ftrivial-auto-var-init=pattern"],
}


def variants(kind, ns, hs=(0, 1), ps=(1,), fl=""):
    return ["%s_n%d_h%d_p%d%s" % (kind, n, h, p, "_" + fl if fl else "") for n in ns for h in hs for p in ps]


DSC = ["solver.cpp", "check_ds.cpp"]
BBC = ["solver.cpp", "check_bb.cpp"]
SOLVER = ["solver.cpp", "check_solver.cpp"]
ASAN = {"asan": True, "env": {"VF_ASAN": "1", "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=1:quarantine_size_mb=4:thread_local_quarantine_size_kb=64:malloc_context_size=8"}}

CHECKS = {
    "C01": {"cpp": SOLVER, "libs": lambda t: variants("m", [3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 16, 20, 30, 50, 75, 100, 150], ps=(0, 1))},
    "C02": {"cpp": SOLVER, "libs": lambda t: variants("m", [3, 4, 5, 6, 7, 8, 10, 12, 15, 20, 30, 40, 60, 100] + [150] * (t == "thorough"), ps=(0, 1))},
    "C03": {"cpp": SOLVER, "libs": lambda t: variants("m", [4, 5, 6, 7, 8, 9, 10, 12, 14, 16], ps=(0, 1))},
    "C04": {"cpp": SOLVER, "libs": lambda t: variants("m", [4, 5, 6, 7, 8, 9, 10, 12, 15, 20, 30, 50], ps=(0, 1))},
    "C05": {"cpp": SOLVER, "libs": lambda t: variants("m", [5, 6, 7, 8, 9])},
    "C06": {"cpp": SOLVER, "libs": lambda t: variants("m", [3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 16], fl="zero")
            + variants("m", [3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 16], fl="pattern")},
    "C07": dict(ASAN, cpp=SOLVER, libs=lambda t: variants("m", [3, 4, 5, 6, 7, 8, 9, 12, 16, 20], ps=(0, 1), fl="asan")),
    "C08": {"cpp": SOLVER + ["check_bb.cpp"], "libs": lambda t: variants("m", [3, 4, 5, 6, 7, 8, 9, 10, 12], ps=(0, 1)) + variants("b", [4, 5, 6, 7, 8, 10, 12, 16], ps=(0, 1))},
    "C09": {"cpp": SOLVER, "libs": lambda t: variants("m", [8, 10, 12, 15, 20, 25, 40] + [60] * (t == "thorough"), ps=(0, 1))},
    "C10": {"cpp": BBC, "libs": lambda t: variants("b", [4, 5, 6, 7, 8, 10, 12, 16], ps=(0, 1))},
    "C11": {"cpp": BBC, "libs": lambda t: variants("b", [4, 5, 6, 7, 8, 10, 12, 16], ps=(0, 1))},
    "C12": {"cpp": BBC, "libs": lambda t: variants("b", [4, 5, 6, 7, 8, 10, 12, 16], ps=(0, 1))},
    "C13": {"cpp": BBC, "libs": lambda t: variants("b", [6])},
    "C16": {"cpp": BBC, "libs": lambda t: variants("b", [8, 16, 60, 300])},
    "C17": {"cpp": BBC, "libs": lambda t: variants("b", [4, 5, 6, 7, 8, 10, 12, 16], ps=(0, 1))},
    "C14": {"cpp": SOLVER, "libs": lambda t: variants("m", [3, 4, 5, 6, 7, 8, 10, 12, 20, 30], ps=(0, 1))},
    "C15": {"cpp": SOLVER, "libs": lambda t: variants("m", [3, 4, 5, 6, 7, 8, 9, 10, 12, 20, 30, 40])},
    "C18": dict(ASAN, cpp=DSC, libs=lambda t: variants("g", [4, 8, 16, 24, 130, 280], fl="asan")),
    "C19": dict(ASAN, cpp=DSC, libs=lambda t: variants("h", [8], hs=(0,), fl="asan")),
    "C20": dict(ASAN, cpp=DSC, libs=lambda t: variants("u", [3, 8, 24, 320], hs=(0,), fl="asan")),
    "C21": dict(ASAN, cpp=DSC, libs=lambda t: variants("g", [4, 8, 16, 24, 130, 280], fl="asan")),
    "C22": dict(ASAN, cpp=DSC, libs=lambda t: variants("l", [6], hs=(0,), fl="asan")),
    "C23": dict(ASAN, cpp=DSC, libs=lambda t: variants("g", [4, 8, 16, 24, 130, 280], fl="asan")),
    "C24": dict(ASAN, cpp=DSC, libs=lambda t: variants("r", [3, 6, 12, 60, 280], fl="asan")),
    "C25": dict(ASAN, cpp=DSC, libs=lambda t: variants("r", [3, 6, 12, 60, 280], hs=(0,), fl="asan")),
    "C26": {"py": "driver.py"},
    "C27": {"py": "neural.py"},
    "C28": {"py": "neural.py"},
    "C29": {"py": "neural.py"},
    "C30": {"py": "neural.py"},
    "C31": {"py": "neural.py"},
    "C32": {"py": "neural.py"},
    "C33": {"py": "results.py"},
    "C34": {"py": "results.py"},
    "C35": {"py": "results.py"},
    "C36": {"py": "results.py"},
    "C37": {"py": "pipeline.py"},
    "C38": {"py": "datatools.py"},
    "C39": {"py": "results.py"},
    "C40": {"py": "cplex.py"},
    "C41": {"py": "plots.py"},
}
