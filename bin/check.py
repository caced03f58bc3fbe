#!/usr/bin/env python3
"""Deterministic-simulation checks for quadiron.

check.py <property>            run the check (VERIF_SEED, VERIF_TIER)
check.py --replay FILE         re-execute a replay file
check.py --build [flavour...]  only build
"""
import hashlib, json, os, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SIM = os.path.join(VERIF, "sim")
BUILD = os.path.join(VERIF, "build")
OUT = os.path.join(VERIF, "out")
EVID = os.path.join(VERIF, "evidence")
CXX = os.environ.get("VERIF_CXX") or shutil.which("g++-9") or "g++"
NCPU = min(8, os.cpu_count() or 1)

SSE = ["-msse4.1", "-DQUADIRON_USE_SIMD"]
AVX = ["-mavx2", "-DQUADIRON_USE_SIMD"]
FLAVOURS = {
    "off": dict(flags=["-O2"]),
    "sse": dict(flags=["-O2"] + SSE),
    "avx": dict(flags=["-O2"] + AVX),
    "asan": dict(flags=["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"] + SSE,
                 link=["-fsanitize=address"]),
    "cov": dict(flags=["-O1"], lib=["-fsanitize-coverage=trace-pc"],
                core=["-DSIM_TRACE_PC"]),
    "covavx": dict(flags=["-O1"] + AVX, lib=["-fsanitize-coverage=trace-pc"],
                   core=["-DSIM_TRACE_PC"]),
    "acc": dict(flags=["-O1"] + SSE, lib=["-fsanitize=thread"], core=["-DSIM_TRACE_MEM"]),
    "accoff": dict(flags=["-O1"], lib=["-fsanitize=thread"], core=["-DSIM_TRACE_MEM"]),
}
sys.path.insert(0, os.path.join(VERIF, "bin"))
from properties_table import PROPS, WORLDS  # noqa: E402


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class CheckError(Exception):
    pass


# ------------------------------------------------------------------ build
def have_avx2():
    try:
        return "avx2" in open("/proc/cpuinfo").read()
    except OSError:
        return False


def lib_sources():
    r = []
    for root, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(".cpp") or f.endswith(".cc"):
                r.append(os.path.join(root, f))
    return r


def content_hash(flavour):
    h = hashlib.sha256()
    h.update(json.dumps(FLAVOURS[flavour], sort_keys=True).encode())
    h.update(CXX.encode())
    for top in (os.path.join(REPO, "src"), SIM):
        for root, dirs, files in os.walk(top):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, top).encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()[:20]


def build(flavours):
    """Build every flavour from the current tree; returns {flavour: binary}."""
    os.makedirs(BUILD, exist_ok=True)
    gen = os.path.join(BUILD, "gen")
    os.makedirs(gen, exist_ok=True)
    bi = os.path.join(gen, "build_info.h")
    text = '#define PACKAGE "quadiron"\n#define VERSION "sim"\n'
    if not os.path.exists(bi) or open(bi).read() != text:
        open(bi, "w").write(text)
    res, mk, targets = {}, [], []
    for fl in flavours:
        h = content_hash(fl)
        d = os.path.join(BUILD, fl)
        binary = os.path.join(d, "sim-" + h)
        res[fl] = binary
        if os.path.exists(binary):
            continue
        os.makedirs(d, exist_ok=True)
        for f in os.listdir(d):
            if f.startswith("sim-"):
                os.unlink(os.path.join(d, f))
        cfg = FLAVOURS[fl]
        common = ["-std=c++14", "-g1", "-DNDEBUG", "-I" + os.path.join(REPO, "src"),
                  "-I" + gen, "-I" + SIM] + cfg["flags"]
        objs = []
        srcs = [(s, "lib") for s in lib_sources()]
        srcs += [(os.path.join(SIM, f), "sim") for f in sorted(os.listdir(SIM))
                 if f.endswith(".cpp")]
        for s, where in srcs:
            name = os.path.basename(s)
            o = os.path.join(d, where + "_" + name[:-4] + ".o")
            fl_extra = []
            if where == "lib" or name.startswith("codes_"):
                fl_extra = cfg.get("lib", [])
            if name == "core.cpp":
                fl_extra = cfg.get("core", [])
            if name == "main.cpp":
                fl_extra = ["'-DSIM_WORLDS=%s'" % ",".join("world_%s()" % w for w in WORLDS),
                            "'-DSIM_FLAVOUR=\"%s\"'" % fl]
            # objects depend on the full content hash: any change rebuilds them
            stamp = o + "." + h
            objs.append(stamp)
            mk.append("%s: %s\n\t@%s %s -c %s -o %s\n" % (
                stamp, s, CXX, " ".join(common + fl_extra), s, stamp))
        for f in os.listdir(d):
            if ".o." in f and not f.endswith(h):
                os.unlink(os.path.join(d, f))
        mk.append("%s: %s\n\t@%s %s -o $@.tmp %s -lpthread -ldl && mv $@.tmp $@ && rm -f %s\n" % (
            binary, " ".join(objs), CXX, " ".join(cfg.get("link", [])), " ".join(objs),
            " ".join(objs)))
        targets.append(binary)
    if targets:
        mf = os.path.join(BUILD, "Makefile.%d" % os.getpid())
        with open(mf, "w") as f:
            f.write("all: %s\n" % " ".join(targets) + "\n".join(mk))
        p = subprocess.run(["make", "-s", "-j%d" % NCPU, "-f", mf, "all"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        os.unlink(mf)
        if p.returncode != 0:
            log(p.stdout[-6000:])
            raise CheckError("the harness does not build against the current tree")
    return res


# ------------------------------------------------------------------ running
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1"
           ":detect_stack_use_after_return=0:handle_segv=1",
           MALLOC_ARENA_MAX="1")


def scratch(tag):
    d = os.path.join(BUILD, "scratch", "%d-%s" % (os.getpid(), tag))
    os.makedirs(d, exist_ok=True)
    return d


class Result:
    """Outcome of one scenario executed in a fresh process."""
    __slots__ = ("classes", "hash", "out", "code")


def classify_exit(rc, out):
    if rc < 0 or rc in (134, 139):
        sig = -rc if rc < 0 else rc - 128
        what = "signal %d" % sig
        m = re.search(r"ERROR: AddressSanitizer: (\S+)", out)
        if m:
            return "bounds" if "overflow" in m.group(1) or "underflow" in m.group(1) \
                or "use-after" in m.group(1) else "crash", "AddressSanitizer " + m.group(1)
        m = re.search(r"terminate called.*\n.*", out)
        if m:
            what += ": " + m.group(0).replace("\n", " ")[:200]
        return "crash", what
    if rc == 75:
        return "hang", "operation keeps calling its streams (step budget exceeded)"
    if rc == 76:
        return "hang", "no progress within the wall-clock watchdog"
    return None, None


def run_scenario(binary, text, verbose=False, limit=60):
    d = scratch("run-%d" % threading.get_ident())
    f = os.path.join(d, "scenario.txt")
    open(f, "w").write(text)
    cmd = [binary, "run", "--scenario", f, "--limit", str(limit)] + (["-v"] if verbose else [])
    r = Result()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=d, env=ENV,
                           timeout=limit + 30)
        out = p.stdout.decode("utf-8", "replace")
        err = p.stderr.decode("utf-8", "replace")
        rc = p.returncode
    except subprocess.TimeoutExpired:
        out, err, rc = "", "", 76
    r.code = rc
    r.out = out + err
    r.classes = {}
    r.hash = None
    cur = None
    for l in out.split("\n"):
        if l.startswith("CLASS "):
            cur = l[6:].strip()
        elif l.startswith("MSG ") and cur:
            r.classes[cur] = l[4:]
        elif l.startswith("HASH "):
            r.hash = l.split()[1]
    c, msg = classify_exit(rc, r.out)
    if c:
        r.classes[c] = msg
        r.hash = "exit%d" % rc
    return r


# ------------------------------------------------------------------ minimise
def parse_lines(text):
    return [l for l in text.split("\n") if l.strip() and not l.startswith("#")]


def segments(text):
    """The runs of a file: most hold one, a sequence executed in one process several."""
    segs = []
    for l in parse_lines(text):
        if l.split()[0] == "world" or not segs:
            segs.append([])
        segs[-1].append(l)
    return ["\n".join(x) + "\n" for x in segs]


def shrink(binary, text, cls, budget):
    """Drop runs of a sequence, then minimise each remaining run."""
    segs = segments(text)
    if len(segs) < 2:
        return minimise(binary, text, cls, budget)
    t0, tried = time.time(), 0
    step = max(1, (len(segs) - 1) // 2)
    while step:
        i = 0
        while i < len(segs) - 1 and time.time() - t0 < budget:
            cand = segs[:i] + segs[min(i + step, len(segs) - 1):]
            tried += 1
            if cls in run_scenario(binary, "".join(cand), limit=60).classes:
                segs = cand
            else:
                i += step
        step //= 2
    for i in range(len(segs) - 1, -1, -1):
        left = budget - (time.time() - t0)
        if left < 1 or len(segs) > 12:
            break
        segs[i], n = minimise(binary, segs[i], cls, left / (i + 1), "".join(segs[:i]),
                              "".join(segs[i + 1:]))
        tried += n
    return "".join(segs), tried


def minimise(binary, text, cls, budget, before="", behind=""):
    """ddmin over lines, then over arguments; same violation class kept."""
    t0 = time.time()
    tried = [0]

    def fails(lines):
        if time.time() - t0 > budget:
            return False
        tried[0] += 1
        return cls in run_scenario(binary, before + "\n".join(lines) + "\n" + behind,
                                   limit=20).classes

    lines = parse_lines(text)
    keep = lambda l: l.split()[0] in ("world", "code")  # noqa: E731
    n = 2
    body = [l for l in lines if not keep(l)]
    head = [l for l in lines if keep(l)]
    while len(body) >= 1:
        step = max(1, len(body) // n)
        done = False
        i = 0
        while i < len(body):
            cand = body[:i] + body[i + step:]
            if fails(head + cand):
                body = cand
                done = True
            else:
                i += step
        if not done:
            if step == 1:
                break
            n = min(len(body), n * 2)
        else:
            n = max(2, n - 1) if step > 1 else n
        if time.time() - t0 > budget:
            break
    lines = head + body
    # arguments
    changed = True
    while changed and time.time() - t0 < budget:
        changed = False
        for li in range(len(lines)):
            toks = lines[li].split()
            if toks[0] == "world":
                continue
            j = 1
            while j < len(toks):
                key, _, val = toks[j].partition("=")
                cands = []
                if toks[0] != "code":
                    cands.append(None)  # drop the argument
                if re.fullmatch(r"-?\d+", val):
                    v = int(val)
                    for x in (0, 1, 2, v // 2, v - 1):
                        if 0 <= x < v and str(x) != val:
                            cands.append(str(x))
                elif re.fullmatch(r"\d+(,\d+)+", val):
                    parts = val.split(",")
                    for q in range(len(parts)):
                        cands.append(",".join(parts[:q] + parts[q + 1:]))
                ok = False
                for c in cands:
                    nt = toks[:j] + ([] if c is None else [key + "=" + c]) + toks[j + 1:]
                    cand = lines[:li] + [" ".join(nt)] + lines[li + 1:]
                    if fails(cand):
                        lines = cand
                        toks = nt
                        ok = True
                        changed = True
                        break
                if not ok or c is not None:
                    j += 1
                if time.time() - t0 > budget:
                    break
    return "\n".join(lines) + "\n", tried[0]


# ------------------------------------------------------------------ search
class Job:
    def __init__(self, spec, binary, idx):
        self.world, self.profile, self.flavour, self.weight = spec
        self.binary = binary
        self.idx = idx

    def base_seed(self, seed):
        key = "%s/%s/%s" % (self.world, self.profile, self.flavour)
        h = int(hashlib.sha256(key.encode()).hexdigest()[:6], 16)
        return seed * 1000003 + (h % 1000) * 100000007


class Search:
    def __init__(self, prop, jobs, secs, seed, owned):
        self.prop, self.jobs, self.secs, self.seed, self.owned = prop, jobs, secs, seed, owned
        self.lock = threading.Lock()
        self.stop = threading.Event()
        self.cands = []      # (job, seed, class, msg)
        self.other = {}
        self.nondet = []
        self.sum = {}
        self.faults = {}
        self.probes = {}
        self.perjob = {}
        self.errors = []
        self.hashes = set()

    def plan(self):
        total = float(sum(j.weight for j in self.jobs))
        slots = NCPU * self.secs
        tasks = []
        for j in self.jobs:
            t = slots * j.weight / total
            n = max(1, int(round(t / max(2.0, self.secs / 3.0))))
            for c in range(n):
                tasks.append((j, c, n, t / n))
        # interleave so that every job starts early
        tasks.sort(key=lambda x: (x[1], x[0].idx))
        return tasks

    def one(self, task, wid):
        job, chunk, nchunks, secs = task
        seed0 = job.base_seed(self.seed) + chunk
        d = scratch("w%d" % wid)
        status = os.path.join(d, "status")
        hashes = os.path.join(d, "hashes")
        deadline = time.time() + secs
        first = seed0
        while time.time() < deadline and not self.stop.is_set():
            for f in (status, hashes):
                if os.path.exists(f):
                    os.unlink(f)
            left = max(0.5, deadline - time.time())
            cmd = [job.binary, "batch", "--world", job.world, "--profile", job.profile,
                   "--seed0", str(first), "--stride", str(nchunks), "--count", "100000000",
                   "--secs", "%.2f" % left, "--twice", "40", "--status", status,
                   "--hashes", hashes]
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=d,
                                 env=ENV)
            errbuf = []
            th = threading.Thread(target=lambda: errbuf.append(p.stderr.read()))
            th.start()
            out = []
            timer = threading.Timer(left + 120, p.kill)
            timer.start()
            for raw in p.stdout:
                l = raw.decode("utf-8", "replace").rstrip("\n")
                out.append(l)
                if l.startswith("VIOL "):
                    self.viol(job, l, first, nchunks)
                elif l.startswith("NONDET "):
                    with self.lock:
                        self.nondet.append((job, int(l.split()[1])))
                if self.stop.is_set():
                    p.kill()
                    break
            rc = p.wait()
            timer.cancel()
            th.join()
            err = b"".join(errbuf).decode("utf-8", "replace")
            st = (0, 0, 0)
            try:
                raw = open(status, "rb").read()
                st = tuple(int.from_bytes(raw[i * 8:i * 8 + 8], "little") for i in range(3))
            except OSError:
                pass
            if rc == 0:
                self.account(job, out, hashes)
                return
            if self.stop.is_set():
                return
            c, msg = classify_exit(rc, "\n".join(out) + err)
            if c is None:
                with self.lock:
                    self.errors.append("batch exit %d: %s" % (rc, err[-500:]))
                return
            self.found(job, st[0], c, msg, first, nchunks)
            with self.lock:
                self.sum["runs"] = self.sum.get("runs", 0) + st[1]
            first = st[0] + nchunks

    def viol(self, job, l, first, stride):
        parts = l.split(" ", 3)
        self.found(job, int(parts[1]), parts[2], parts[3] if len(parts) > 3 else "", first, stride)

    def found(self, job, seed, cls, msg, first, stride):
        with self.lock:
            if cls in self.owned:
                self.cands.append((job, seed, cls, msg, first, stride))
                if len(self.cands) >= 12:
                    self.stop.set()
                elif len(self.cands) == 1:
                    # give the others a moment to offer a simpler run
                    t = threading.Timer(4.0, self.stop.set)
                    t.daemon = True
                    t.start()
            else:
                o = self.other.setdefault(cls, [0, "", 0, None])
                o[0] += 1
                if not o[1]:
                    o[1], o[2], o[3] = msg, seed, job

    def account(self, job, out, hashes):
        with self.lock:
            pj = self.perjob.setdefault("%s/%s/%s" % (job.world, job.profile, job.flavour), [0, 0.0])
            for l in out:
                t = l.split()
                if not t:
                    continue
                if t[0] == "SUMMARY":
                    kv = dict(zip(t[1::2], t[2::2]))
                    for k in ("runs", "nontrivial", "events", "sim_us", "steps", "switches"):
                        self.sum[k] = self.sum.get(k, 0) + int(kv[k])
                    pj[0] += int(kv["runs"])
                    pj[1] += float(kv["secs"])
                elif t[0] == "FAULT":
                    a = self.faults.setdefault(t[1], [0, 0])
                    a[0] += int(t[2])
                    a[1] += int(t[3])
                elif t[0] == "PROBE":
                    self.probes[t[1]] = self.probes.get(t[1], 0) + int(t[2])
            try:
                raw = open(hashes, "rb").read()
                tag = hash(job.flavour) & 0xffff
                for i in range(0, len(raw) - 7, 8):
                    self.hashes.add(int.from_bytes(raw[i:i + 8], "little"))
                del tag
            except OSError:
                pass

    def run(self):
        tasks = self.plan()
        it = iter(tasks)
        lk = threading.Lock()

        def worker(wid):
            while not self.stop.is_set():
                with lk:
                    t = next(it, None)
                if t is None:
                    return
                try:
                    self.one(t, wid)
                except Exception as e:  # noqa: BLE001
                    with self.lock:
                        self.errors.append(repr(e))
                    return
        th = [threading.Thread(target=worker, args=(i,)) for i in range(NCPU)]
        for t in th:
            t.start()
        for t in th:
            t.join()


def gen_scenario(binary, world, profile, seed):
    p = subprocess.run([binary, "gen", "--world", world, "--profile", profile, "--seed", str(seed)],
                       stdout=subprocess.PIPE, env=ENV)
    return p.stdout.decode()


# ------------------------------------------------------------------ findings
def known_findings(prop):
    r = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) class=(\S+) match=/(.*)/ scenario=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                r.append(dict(cls=m.group(2), rx=re.compile(m.group(3)), scenario=m.group(4),
                              what=m.group(5)))
    return r


def write_replay(prop, job, seed, cls, msg, text, tried):
    d = os.path.join(OUT, prop)
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "replay-%s-%s.txt" % (cls, seed))
    with open(f, "w") as fh:
        fh.write("# property %s violated: class %s\n# %s\n" % (prop, cls, msg))
        fh.write("# world %s profile %s flavour %s seed %s, minimised in %d runs\n" % (
            job.world, job.profile, job.flavour, seed, tried))
        fh.write("# replay: python3 bin/check.py --replay %s\n" % os.path.relpath(f, VERIF))
        fh.write("#flavour %s\n#class %s\n" % (job.flavour, cls))
        fh.write(text)
    return f


def confirm(job, text, cls):
    """(reproduces, identical hash) over three fresh processes."""
    rs = [run_scenario(job.binary, text) for _ in range(3)]
    ok = all(cls in r.classes for r in rs)
    return ok, ok and len({r.hash for r in rs}) == 1, rs[0]


def sequence(job, seed, cls, first, stride, budget):
    """The shortest tail of the batch that fails when executed in one process."""
    t0, n, total = time.time(), 2, (seed - first) // stride + 1
    text, have = gen_scenario(job.binary, job.world, job.profile, seed), 1
    while have < total and time.time() - t0 < budget:
        n = min(n, total)
        while have < n:
            text = gen_scenario(job.binary, job.world, job.profile, seed - have * stride) + text
            have += 1
        left = max(5, int(budget - (time.time() - t0)))
        if cls in run_scenario(job.binary, text, limit=left).classes:
            rs = [run_scenario(job.binary, text, limit=left) for _ in range(2)]
            if all(cls in r.classes for r in rs) and len({r.hash for r in rs}) == 1:
                log("seed %s class %s fails after %d earlier runs" % (seed, cls, have - 1))
                return text
        n *= 4
    return None


def decide(prop, s, known):
    """Pick, confirm, minimise and report.  Returns a replay path or None."""
    cands = [c for c in s.cands if not any(k["cls"] == c[2] and k["rx"].search(c[3]) for k in known)]
    scored = []
    for job, seed, cls, msg, first, stride in cands[:12]:
        text = gen_scenario(job.binary, job.world, job.profile, seed)
        scored.append((len(text), job.idx, seed, job, cls, msg, text, first, stride))
    scored.sort(key=lambda x: x[:3])
    fallback = None
    later = []
    for _, _, seed, job, cls, msg, text, first, stride in scored:
        ok, same, _ = confirm(job, text, cls)
        if not ok:
            log("seed %s class %s did not reproduce in fresh processes" % (seed, cls))
            later.append((seed - first, seed, job, cls, msg, first, stride))
            continue
        if not same:
            fallback = fallback or (seed, job, cls, msg, text)
            continue
        small, tried = shrink(job.binary, text, cls, 45 if TIER == "quick" else 120)
        ok, same, r = confirm(job, small, cls)
        if not (ok and same):
            small, tried = text, 0
            r = run_scenario(job.binary, text)
        f = write_replay(prop, job, seed, cls, r.classes.get(cls, msg), small, tried)
        return f, cls, r.classes.get(cls, msg)
    # state of the process that outlives an instance: the run fails only after
    # the runs that preceded it in its process
    later.sort(key=lambda x: x[0])
    t0 = time.time()
    for _, seed, job, cls, msg, first, stride in later:
        got = sequence(job, seed, cls, first, stride, 60 - (time.time() - t0))
        if not got:
            continue
        small, tried = shrink(job.binary, got, cls, 60 if TIER == "quick" else 200)
        ok, same, r = confirm(job, small, cls)
        if not (ok and same):
            small, tried = got, 0
            r = run_scenario(job.binary, got)
        f = write_replay(prop, job, seed, cls, r.classes.get(cls, msg), small, tried)
        return f, cls, r.classes.get(cls, msg)
    if fallback:
        seed, job, cls, msg, text = fallback
        f = write_replay(prop, job, seed, cls, msg + " (the wrong bytes vary between executions)",
                         text, 0)
        return f, cls, msg
    return None


TIER = os.environ.get("VERIF_TIER", "quick")


def check(prop):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = PROPS[prop]
    thorough = TIER == "thorough"
    secs = float(os.environ.get("VERIF_SECS") or (spec.get("thorough_secs", 600) if thorough
                                                  else spec.get("quick_secs", 40)))
    specs = list(spec["jobs"]) + (list(spec.get("thorough_jobs", [])) if thorough else [])
    specs = [j for j in specs if have_avx2() or "avx" not in j[2]]
    flavours = sorted({j[2] for j in specs})
    known = known_findings(prop)
    bins = build(flavours)
    log("built %s in %.1fs" % (",".join(flavours), time.time() - t0))
    jobs = [Job(j, bins[j[2]], i) for i, j in enumerate(specs)]
    owned = set(spec["classes"]) | {"crash", "hang"}
    s = Search(prop, jobs, secs, seed, owned)
    found = None
    corpus_runs = 0
    # committed regression scenarios first (minimised runs that once failed)
    rd = os.path.join(VERIF, "regress", prop)
    reg = []
    if os.path.isdir(rd):
        reg = [os.path.join(rd, f) for f in sorted(os.listdir(rd)) if f.endswith(".txt")]
    for f in reg:
        text = open(f).read()
        wl = re.search(r"^world name=(\S+)", text, re.M)
        m = re.search(r"^#flavour (\S+)", text, re.M)
        for fl in ([m.group(1)] if m and m.group(1) in bins else flavours):
            corpus_runs += 1
            r = run_scenario(bins[fl], text)
            hit = [c for c in r.classes if c in owned]
            if hit and not any(k["cls"] in hit for k in known):
                j = Job((wl.group(1) if wl else "?", "regress", fl, 1), bins[fl], 0)
                ok, same, r = confirm(j, text, hit[0])
                if ok:
                    small, tried = shrink(bins[fl], text, hit[0], 30)
                    ok2, same2, r2 = confirm(j, small, hit[0])
                    if not (ok2 and same2):
                        small, r2 = text, r
                    p = write_replay(prop, j, os.path.basename(f)[:-4], hit[0],
                                     r2.classes.get(hit[0], ""), small, tried)
                    found = (p, hit[0], r2.classes.get(hit[0], ""))
                    break
        if found:
            break
    if not found:
        s.run()
        if s.nondet and spec.get("nondet_is_violation"):
            for job, sd in s.nondet[:5]:
                s.cands.append((job, sd, "nondet", "the same inputs gave different results", sd, 1))
        r = decide(prop, s, known) if s.cands else None
        if r:
            found = r
        elif s.nondet and spec.get("nondet_is_violation"):
            job, sd = s.nondet[0]
            text = gen_scenario(job.binary, job.world, job.profile, sd)
            p = write_replay(prop, job, sd, "nondet",
                             "executing the same run twice in one process gives different results",
                             text, 0)
            found = (p, "nondet", "not a function of its inputs")
    kept = 0
    for k in known:
        f = os.path.join(VERIF, k["scenario"])
        text = open(f).read()
        m = re.search(r"^#flavour (\S+)", text, re.M)
        fl = m.group(1) if m and m.group(1) in bins else flavours[0]
        r = run_scenario(bins[fl], text)
        if k["cls"] in r.classes:
            kept += 1
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    runs = s.sum.get("runs", 0)
    wall = time.time() - t0
    search_s = max(0.001, sum(v[1] for v in s.perjob.values()) / NCPU)
    samples = []
    for j in jobs[:3]:
        sd = j.base_seed(seed)
        samples.append(dict(world=j.world, profile=j.profile, flavour=j.flavour, seed=sd,
                            scenario=gen_scenario(j.binary, j.world, j.profile, sd)[:3000].split("\n")))
    ev = dict(
        property=prop, tier="thorough" if thorough else "quick", seed=seed, level="exploration",
        coverage=dict(
            evaluations=runs + corpus_runs,
            distinct_nontrivial=min(len(s.hashes), s.sum.get("nontrivial", 0)),
            rule="One evaluation is one simulated run generated from one seed. Distinct: the hash of "
                 "its complete event log (operations, stream deliveries, faults, switches, produced "
                 "bytes) differs from every other run's; non-trivial: at least one fault fired or one "
                 "rare-condition probe was hit. " + spec.get("rule", ""),
            samples=samples,
            runs_per_hour=int(runs / search_s * 3600) if runs else 0,
            seeds_per_hour=int(runs / search_s * 3600) if runs else 0,
            simulated_seconds=s.sum.get("sim_us", 0) / 1e6,
            events=s.sum.get("events", 0),
            scheduler_steps=s.sum.get("steps", 0),
            task_switches=s.sum.get("switches", 0),
            faults_fired={k: dict(times=v[0], runs=v[1]) for k, v in sorted(s.faults.items())},
            probes=dict(sorted(s.probes.items())),
            runs_by_job={k: v[0] for k, v in sorted(s.perjob.items())},
            regression_scenarios=corpus_runs,
            determinism="every 40th run executed twice in the process: %d divergences" % len(s.nondet),
            violations_of_other_properties={k: v[0] for k, v in s.other.items()},
            real_components=spec.get("real", "all of /repo/src (templates instantiated by the harness, "
                                     "translation units compiled from the working tree)"),
            stubs=spec.get("stubs", "std::streambuf endpoints, gettimeofday, operator new/delete, "
                           "storage nodes"),
        ),
        assumptions=spec.get("assumptions", []),
        wall_s=round(wall, 2), violations=1 if found else 0)
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, prop + ".json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(EVID, prop + ".json"))
    if found:
        print("class %s: %s" % (found[1], found[2]))
        print("VIOLATION property=%s replay=%s" % (prop, found[0]))
        return 1
    if s.cands and not all(any(k["cls"] == c[2] and k["rx"].search(c[3]) for k in known)
                           for c in s.cands):
        raise CheckError("violations seen but none reproduced: %s" % (s.cands[0][1:],))
    if s.nondet:
        log("note: runs that differ when repeated: %s" %
            [(j.world, j.profile, j.flavour, sd) for j, sd in s.nondet[:5]])
    if s.errors:
        raise CheckError("; ".join(s.errors[:3]))
    if runs == 0:
        raise CheckError("no run completed")
    print("OK property=%s runs=%d distinct=%d wall=%.1fs" % (prop, runs, len(s.hashes), wall))
    for k, v in s.other.items():
        log("note: %d violations of class %s belong to other properties, e.g. seed %s %s/%s/%s: %s" % (
            v[0], k, v[2], v[3].world, v[3].profile, v[3].flavour, v[1]))
    return 0


def replay(path):
    text = open(path).read()
    m = re.search(r"^#flavour (\S+)", text, re.M)
    c = re.search(r"^#class (\S+)", text, re.M)
    fl = m.group(1) if m else "off"
    bins = build([fl])
    r = run_scenario(bins[fl], text, verbose="-v" in sys.argv)
    print(r.out)
    if c and c.group(1) in r.classes:
        print("REPRODUCED class=%s hash=%s" % (c.group(1), r.hash))
        return 1
    return 0


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    try:
        if a[0] == "--build":
            build([f for f in (a[1:] or sorted(FLAVOURS)) if have_avx2() or "avx" not in f])
            return 0
        if a[0] == "--replay":
            return replay(a[1])
        return check(a[0])
    except CheckError as e:
        log("CHECK ERROR:", e)
        return 2
    finally:
        shutil.rmtree(os.path.join(BUILD, "scratch"), ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
