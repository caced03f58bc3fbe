"""Which simulated worlds decide which property, and which violation classes
each property owns.  A job is (world, profile, flavour, weight).  The classes
crash and hang are owned by every property."""
WORLDS = ["cluster", "capi", "conc", "alloc", "clock", "mem", "props", "cache"]

NODES = ("std::streambuf endpoints, gettimeofday/clock_gettime, operator new/delete, storage "
         "nodes and their network")
FILES = "operator new/delete, the process' working directory (scratch), the disk faults"

PROPS = {
    "C01": dict(
        jobs=[("cluster", "restore", "sse", 3), ("cluster", "restore", "avx", 3),
              ("cluster", "restore", "off", 2), ("capi", "life", "sse", 1),
              ("cluster", "long", "off", 1)],
        classes=["restore", "construct", "cdecode"]),
    "C02": dict(
        jobs=[("capi", "contain", "sse", 2), ("capi", "contain", "avx", 2),
              ("capi", "contain", "off", 2), ("capi", "contain", "asan", 2),
              ("cluster", "restore", "asan", 2), ("cluster", "fault", "asan", 1),
              ("alloc", "x", "asan", 1), ("cluster", "reuse", "sse", 1)],
        classes=["bounds"]),
    "C03": dict(
        jobs=[("capi", "life", "sse", 3), ("capi", "life", "avx", 2), ("capi", "life", "off", 2)],
        classes=["life", "cencode", "cdecode", "crebuild", "abi", "construct", "leak"]),
    "C04": dict(
        jobs=[("capi", "corrupt", "sse", 3), ("capi", "corrupt", "off", 2),
              ("capi", "corrupt", "asan", 2)],
        classes=["corrupt", "bounds", "abi"]),
    "C05": dict(
        jobs=[("cluster", "toofew", "sse", 2), ("cluster", "toofew", "avx", 2),
              ("cluster", "toofew", "off", 2), ("capi", "life", "sse", 1),
              ("capi", "contain", "off", 1)],
        classes=["toofew"]),
    "C06": dict(
        jobs=[("cluster", "fault", "sse", 2), ("cluster", "fault", "off", 2)],
        classes=["fault", "liveness"]),
    "C07": dict(
        jobs=[("cluster", "reuse", "sse", 2), ("cluster", "reuse", "off", 2),
              ("cluster", "reuse", "avx", 1), ("cluster", "long", "off", 1)],
        classes=["history"]),
    "C08": dict(
        jobs=[("conc", "x", "cov", 2), ("conc", "init", "cov", 1), ("conc", "x", "covavx", 1),
              ("conc", "share", "acc", 2), ("conc", "share", "accoff", 1),
              ("conc", "fresh", "acc", 3), ("conc", "fresh", "accoff", 1),
              ("conc", "fresh", "cov", 1), ("conc", "init", "acc", 1), ("conc", "x", "acc", 1)],
        classes=["conc", "leak"]),
    "C09": dict(
        jobs=[("cluster", "encode", "sse", 3), ("cluster", "encode", "avx", 3),
              ("cluster", "encode", "off", 2), ("capi", "life", "sse", 1),
              ("cluster", "long", "sse", 1)],
        classes=["encode", "cencode"], nondet_is_violation=True),
    "C10": dict(
        jobs=[("alloc", "x", "sse", 3), ("alloc", "x", "off", 2), ("capi", "oom", "sse", 3),
              ("capi", "oom", "off", 1), ("alloc", "x", "asan", 1)],
        classes=["alloc", "leak", "abi", "bounds", "life", "cencode", "cdecode", "crebuild"]),
    "C11": dict(
        jobs=[("clock", "x", "sse", 2), ("clock", "x", "off", 2), ("cluster", "count", "sse", 1)],
        classes=["clock", "stats", "count"]),
    "C12": dict(
        jobs=[("props", "x", "sse", 2), ("props", "x", "off", 1), ("props", "x", "asan", 1)],
        classes=["props", "bounds"], stubs=FILES),
    "C13": dict(
        jobs=[("cache", "x", "sse", 2), ("cache", "x", "off", 1), ("cache", "x", "asan", 1)],
        classes=["cache", "bounds"], stubs=FILES),
    "C14": dict(
        jobs=[("cluster", "repair", "sse", 2), ("cluster", "repair", "off", 2),
              ("cluster", "repair", "avx", 1), ("capi", "life", "sse", 1),
              ("capi", "life", "off", 1)],
        classes=["repair", "crebuild"]),
    "C15": dict(
        jobs=[("mem", "x", "sse", 2), ("mem", "x", "off", 2), ("capi", "life", "off", 1)],
        classes=["memory", "leak"]),
}
# the thorough tier also runs larger shapes, longer objects and longer histories
for _p in PROPS.values():
    _p["thorough_jobs"] = [(w, p + "+", f, n) for w, p, f, n in _p["jobs"]
                           if w in ("cluster", "capi", "props", "mem", "alloc") and p != "oom"]
for _p in PROPS.values():
    _p.setdefault("stubs", NODES)
