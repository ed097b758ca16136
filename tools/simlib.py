"""Runs simulations: one process per run, several at a time."""
import concurrent.futures, hashlib, json, os, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
WORKERS = max(2, (os.cpu_count() or 4))


class Machinery(Exception):
    pass


def build(out, repo=None):
    p = subprocess.run(["bash", os.path.join(VERIF, "tools", "build.sh"), out, repo or REPO], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise Machinery("the simulator does not build:\n" + p.stdout[-4000:])


class Runner:
    def __init__(self, out, repo=None):
        self.out, self.repo = out, repo or REPO
        self.tmp = tempfile.mkdtemp(prefix="simrun-")
        self.n = 0
        self.lock = threading.Lock()

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def run(self, scenario, seed, replay=None, log=None, timeout=60):
        with self.lock:
            self.n += 1
            n = self.n
        outf = os.path.join(self.tmp, "o%d" % n)
        env = {k: v for k, v in os.environ.items() if not k.startswith(("BLNK_", "OTEL_", "SIM_", "GO"))}
        env.update(LD_PRELOAD=os.path.join(self.out, "preload.so"), GOMAXPROCS="1", GODEBUG="asyncpreemptoff=1", GOGC="off", TZ="UTC", HOME=self.tmp,
                   SIM_SCENARIO=scenario, SIM_SEED=str(seed), SIM_OUT=outf, SIM_MIGRATIONS=os.path.join(self.repo, "sql"))
        rf = None
        if replay is not None:
            rf = outf + ".replay"
            with open(rf, "w") as f:
                json.dump(replay, f)
            env["SIM_REPLAY"] = rf
        if log:
            env["SIM_LOG"] = log
        t0 = time.time()
        err = ""
        p = subprocess.Popen([os.path.join(self.out, "sim.test"), "-test.run", "^TestZZSim$"], cwd=os.path.join(self.repo, "cmd"), env=env,
                             stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, start_new_session=True)
        try:
            _, e = p.communicate(timeout=timeout)
            err = e.decode("utf8", "replace")[-3000:]
        except subprocess.TimeoutExpired:
            err = "no end after %d s" % timeout
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.communicate()
        r = None
        try:
            with open(outf) as f:
                r = json.load(f)
        except (OSError, ValueError):
            r = {"seed": seed, "scenario": scenario, "violations": [], "error": "run ended without a result: rc=%s %s" % (p.returncode, err), "crashed": True}
        for f in (outf, rf):
            if f:
                try:
                    os.unlink(f)
                except OSError:
                    pass
        r["violations"] = r.get("violations") or []
        r["wall"] = time.time() - t0
        return r


def seeds(base, scenario):
    """The endless sequence of (seed) for a base seed."""
    i = 0
    while True:
        h = hashlib.sha256(("%s/%s/%d" % (base, scenario, i)).encode()).digest()
        yield int.from_bytes(h[:6], "big")
        i += 1


def sweep(runner, jobs, seconds, workers=WORKERS, stop=None, on=None, timeout=60):
    """Runs jobs (an iterator of (scenario, seed)) until it ends, the time is up or stop(result)."""
    end = time.time() + seconds
    it = iter(jobs)
    res = []
    halt = threading.Event()
    lock = threading.Lock()

    def work():
        while not halt.is_set() and time.time() < end:
            with lock:
                j = next(it, None)
            if j is None:
                return
            r = runner.run(j[0], j[1], timeout=timeout)
            with lock:
                res.append(r)
                if on:
                    on(r)
                if stop and stop(r):
                    halt.set()

    ts = [threading.Thread(target=work) for _ in range(workers)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return res


def minimise(runner, rep, prop, key, seconds=40):
    """Drops choices of the trace while the same violation stays; returns (trace, result, tries)."""
    end = time.time() + seconds
    pool = concurrent.futures.ThreadPoolExecutor(WORKERS)

    def holds(tr):
        r = runner.run(rep["scenario"], rep["seed"], replay={"seed": rep["seed"], "scenario": rep["scenario"], "trace": tr})
        if r.get("error"):
            return None
        for v in r["violations"]:
            if v["property"] == prop and v["key"] == key:
                return r
        return None

    best = rep["trace"]
    tries = 0

    def flat(tr):
        return [(k, i, v) for k in sorted(tr) for i, v in tr[k]]

    def unflat(l):
        d = {}
        for k, i, v in l:
            d.setdefault(k, []).append([i, v])
        return d

    last = holds(best)
    if last is None:
        return best, None, 1
    best = last.get("trace") or best
    cur = flat(best)
    # whole streams first
    chunk = max(1, len(cur) // 2)
    while chunk >= 1 and time.time() < end:
        progressed = False
        parts = [(a, min(a + chunk, len(cur))) for a in range(0, len(cur), chunk)]
        pos = 0
        while pos < len(parts) and time.time() < end:
            batch = parts[pos:pos + WORKERS]
            cands = [cur[:a] + cur[b:] for a, b in batch]
            rs = list(pool.map(lambda c: holds(unflat(c)), cands))
            tries += len(cands)
            hit = next((i for i, r in enumerate(rs) if r is not None), None)
            if hit is None:
                pos += len(batch)
                continue
            last = rs[hit]
            cur = cands[hit]
            used = set(flat(last.get("trace") or {}))
            new = [x for x in cur if x in used]  # choices the run never came to
            if new and len(new) < len(cur):
                r = holds(unflat(new))
                tries += 1
                if r is not None:
                    cur, last = new, r
            progressed = True
            parts = [(a, min(a + chunk, len(cur))) for a in range(0, len(cur), chunk)]
            pos = min(pos + hit, len(parts))
        if chunk == 1 and not progressed:
            break
        if chunk > 1 or not progressed:
            chunk //= 2
        if chunk == 0:
            break
    pool.shutdown()
    return unflat(cur), last, tries
