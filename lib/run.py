"""Runs scripts through the drivers and has the recorded traces judged by the specification."""
import concurrent.futures as cf
import json, os, re, shutil, struct, subprocess, time
import build
from build import BUILD, OPS, TYPES, PY

OPNAME = {v: k for k, v in OPS.items() if k.startswith("OP_")}
NCPU = max(2, min(8, os.cpu_count() or 8))


def bits(x):
    return struct.unpack("<Q", struct.pack("<d", x))[0]


def dbl(w):
    return struct.unpack("<d", struct.pack("<Q", w))[0]


class Scenario:
    """One history: starts from nothing, performs operations on registers of one C++ type (or any Python types)."""

    def __init__(self, driver, ty, lanes=0, tag=""):
        self.driver, self.ty, self.tag, self.cmds = driver, ty, tag, []
        self.op("OP_RESET", [lanes])

    def op(self, name, I, D=()):
        self.cmds.append((OPS[name] if isinstance(name, str) else name, [int(i) for i in I], [float(d) for d in D]))
        return self

    def text(self):
        s = ["S " + self.ty]
        for op, I, D in self.cmds:
            s.append(" ".join(map(str, [op, len(I)] + I + [len(D)] + ["%x" % bits(d) for d in D])))
        return "\n".join(s) + "\n"

    def dump(self):
        return {"driver": self.driver, "type": self.ty, "tag": self.tag, "cmds": [[o, I, ["%016x" % bits(d) for d in D]] for o, I, D in self.cmds]}

    @staticmethod
    def load(d):
        s = Scenario(d["driver"], d["type"], 0, d["tag"])
        s.cmds = [(o, I, [dbl(int(x, 16)) for x in D]) for o, I, D in d["cmds"]]
        return s


class Broken(Exception):
    """The machinery itself failed: no verdict."""


EXE = {}                                      # driver -> (types it knows, executable)


def prepare(scens):
    """Builds the drivers that these histories need."""
    need = {}
    for s in scens:
        need.setdefault(s.driver, set()).add(s.ty)

    def one(d):
        if d == "py":
            EXE[d] = (set("-"), build.python())
        elif d not in EXE or not need[d] <= EXE[d][0]:
            ts = need[d] | (EXE[d][0] if d in EXE else set())
            EXE[d] = (ts, build.cpp(d, ts))
            if d == "threads" and "done" not in subprocess.run(command(d)[0] + [os.devnull] * 2, stdout=subprocess.PIPE, text=True, timeout=60).stdout:
                EXE[d] = (ts, build.cpp("base", ts))      # the sanitizer does not run here
    with cf.ThreadPoolExecutor(len(need) or 1) as ex:
        for f in [ex.submit(one, d) for d in need]:
            f.result()


def command(driver):
    if driver == "py":
        return [PY, os.path.join(build.VERIF, "drivers/pydriver.py")], dict(os.environ, PYTHONPATH=EXE["py"][1], PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    # other threads use the library meanwhile; a number one of them can see and another one changes is a race
    company = {"COMPANY": "3"} if driver == "threads" else {}
    return [EXE[driver][1]], dict(os.environ, **company, TSAN_OPTIONS="halt_on_error=1:exitcode=66", ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=1")


def split_events(data):
    ev, at = [], 0
    while at + 8 <= len(data):
        n = struct.unpack_from("<Q", data, at)[0]
        if n == 0 or at + 8 * n > len(data):
            break
        ev.append(data[at:at + 8 * n])
        at += 8 * n
    return ev


def is_reset(e):
    return struct.unpack_from("<Q", e, 8)[0] == OPS["OP_RESET"]


def record(driver, scens, work, name, timeout=240):
    """Runs scenarios; returns the list of event lists. A call that ends the process becomes a crash event."""
    cmd, env = command(driver)
    script = os.path.join(work, name + ".txt")
    with open(script, "w") as f:
        f.write("".join(s.text() for s in scens))
    result, first, notes, hangs = [], 0, {}, 0
    while first < len(scens):
        out = os.path.join(work, name + ".bin")
        if os.path.exists(out):
            os.remove(out)
        try:
            r = subprocess.run(cmd + [script, out, str(first)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=timeout, cwd=work, text=True, errors="replace")
            rc, err, so = r.returncode, r.stderr, r.stdout
        except subprocess.TimeoutExpired as e:
            hangs += 1
            rc, err, so = -999, "no end within %d s" % timeout, (e.stdout or b"").decode(errors="replace")
        data = open(out, "rb").read() if os.path.exists(out) else b""
        groups = []
        for e in split_events(data):
            if is_reset(e):
                groups.append([])
            groups[-1].append(e)
        if os.path.exists(out):
            os.remove(out)
        if rc == 0 and "done" in so:
            result += groups
            break
        if rc in (77, 78):
            raise Broken("driver %s: %s" % (driver, err[-500:]))
        if not groups:
            raise Broken("driver %s did not start: rc %d %s" % (driver, rc, err[-1500:]))
        # the last scenario ended the process
        k = first + len(groups) - 1
        m = len(groups[-1])
        if m >= len(scens[k].cmds):      # ended between scenarios: blame the last call
            m = len(scens[k].cmds) - 1
            groups[-1] = groups[-1][:m]
        op, I, D = scens[k].cmds[m]
        w = [4 + len(I) + len(D), op, 2, len(I) | len(D) << 16] + [(1 << 32) + i for i in I] + [bits(d) for d in D]
        groups[-1].append(struct.pack("<%dQ" % len(w), *w))
        told = re.search(r"SUMMARY: .*", err)
        notes[k] = "exit status %d: %s" % (rc, told[0] if told else err[-1500:])
        result += groups
        first = k + 1
        if len(notes) > 40 or hangs:              # enough evidence; do not grind through everything
            scens[first:] = []
            break
    os.remove(script)
    if len(result) != len(scens):
        raise Broken("driver %s recorded %d of %d scenarios" % (driver, len(result), len(scens)))
    for s, g in zip(scens, result):
        if len(g) != len(s.cmds) and struct.unpack_from("<Q", g[-1], 16)[0] != 2:
            raise Broken("driver %s recorded %d of %d events" % (driver, len(g), len(s.cmds)))
    return result, notes


BLOCK = 6000
GROUP = 25


def write_shard(path, groups):
    blocks, cur = [], b""
    for g in groups:
        for e in g:
            if cur and len(cur) + len(e) > BLOCK:
                blocks.append(cur)
                cur = b""
            cur += e
    blocks.append(cur)
    # literals of their own and short lists: the front end of Quint takes quadratic time in long lists
    lits = ["0x%x" % (1 + len(b) // 8 | int.from_bytes(b, "little") << 64) for b in blocks]
    parts = [range(i, min(i + GROUP, len(lits))) for i in range(0, len(lits), GROUP)]
    n = sum(len(g) for g in groups)
    rel = os.path.relpath(os.path.join(build.VERIF, "spec/trace"), os.path.dirname(path))
    with open(path, "w") as f:
        f.write('module shard {\n  import trace.* from "%s"\n' % rel)
        f.write("".join("  pure val B%d = %s\n" % x for x in enumerate(lits)))
        f.write("".join("  pure val L%d = List(%s)\n" % (k, ", ".join("B%d" % i for i in p)) for k, p in enumerate(parts)))
        f.write("  pure val BLOCKS: List[int] = L0%s\n" % "".join(".concat(L%d)" % k for k in range(1, len(parts))))
        f.write("  action init = start\n  action replay = consume(BLOCKS)\n  val done = pos == %d\n}\n" % n)
    return n


def cv(v):
    if isinstance(v, dict):
        if "#bigint" in v:
            return int(v["#bigint"])
        return {k: cv(x) for k, x in v.items() if not k.startswith("#")}
    if isinstance(v, list):
        return [cv(x) for x in v]
    return v


def judge(path, groups, timeout=780):
    """Validates one shard. Returns None or (index of scenario, index of event, reason, details)."""
    n = write_shard(path, groups)
    # --seed is needed for the simulator only: the behaviour is the recorded one
    cmd = ["quint", "run", path, "--main=shard", "--init=init", "--step=replay", "--max-steps=%d" % n, "--max-samples=1",
           "--verbosity=1", "--seed=1", "--invariant=ok", "--witnesses", "done"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    if r.returncode == 0 and "done was witnessed in 1 trace" in r.stdout:
        return None
    if "[violation]" not in r.stdout and "Invariant violated" not in r.stdout and "iolation" not in r.stdout:
        raise Broken("quint: " + r.stdout[-1500:])
    itf = path + ".itf.json"
    r = subprocess.run(cmd[:-2] + ["--out-itf=" + itf], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    s = json.load(open(itf))["states"]
    os.remove(itf)
    last = s[-1]
    pos, bad, info = cv(last["pos"]), last["bad"], cv(last["info"])
    k = pos - 1
    for i, g in enumerate(groups):
        if k < len(g):
            return i, k, bad, info
        k -= len(g)
    raise Broken("violation outside of the trace")


def readable(info):
    """Large integers in a report are fixed point numbers (scale 2^256) or bit patterns."""
    out = []
    for x in info:
        if isinstance(x, int) and abs(x) > 1 << 64:
            out.append(repr(x / (1 << 256)) if abs(x) < 1 << 1200 else "huge")
        elif isinstance(x, int) and x > 1 << 40:
            out.append("%r (0x%016x)" % (dbl(x), x) if x < 1 << 64 else str(x))
        else:
            out.append(str(x))
    return out


class Session:
    """Collects scenarios, runs them and reports violations."""

    def __init__(self, work):
        self.work = work
        os.makedirs(work, exist_ok=True)
        self.per_shard_findings = 1
        self.events = self.scenarios = 0
        self.ops = {}
        self.rejected = 0
        self.per_driver = {}
        self.states, self.samples, self.types = set(), [], set()

    def cost(self, g):
        return sum(len(e) // 8 + 30 for e in g)

    def run(self, scens, shards=None, per_shard=4000):
        """Returns a list of violations: (scenario, event index, reason, info, note)."""
        by = {}
        for s in scens:
            by.setdefault(s.driver, []).append(s)
        jobs = []
        prepare([s for ss in by.values() for s in ss])
        for d, ss in sorted(by.items()):
            k = max(1, min(NCPU, len(ss) // 20))
            for i in range(k):
                part = ss[i::k]
                if part:
                    jobs.append((d, part, "%s-%d" % (d, i)))
        recorded = []
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for (d, part, name), f in [(j, ex.submit(record, j[0], j[1], self.work, j[2])) for j in jobs]:
                groups, notes = f.result()
                for i, (s, g) in enumerate(zip(part, groups)):
                    recorded.append((s, g, notes.get(i)))
        for s, g, _ in recorded:
            self.scenarios += 1
            self.events += len(g)
            self.per_driver[s.driver] = self.per_driver.get(s.driver, 0) + len(g)
            for e in g:
                op, out = struct.unpack_from("<QQ", e, 8)
                self.ops[op] = self.ops.get(op, 0) + 1
                self.rejected += out == 1
                c = struct.unpack_from("<Q", e, 24)[0]
                at = 4 + (c & 0xffff) + (c >> 16 & 0xffff) + (c >> 32 & 0xffff)
                self.states.add(hash(e[8 * at:]))
            self.types.add("%s:%s" % (s.driver, s.ty if s.ty != "-" else s.tag.split(" n=")[0][3:]))
        self.samples = [s for s, _, _ in sorted(recorded, key=lambda r: len(r[1]))[:2]]
        # shards of equal cost; starting Quint takes as long as judging some thousand calls
        total = sum(len(g) for _, g, _ in recorded)
        n = shards or max(min(NCPU, (total + 399) // 400), NCPU * ((total + NCPU * per_shard - 1) // (NCPU * per_shard)) if total > NCPU * per_shard else 1)
        order = sorted(recorded, key=lambda r: -self.cost(r[1]))
        bins = [[0, []] for _ in range(n)]
        import heapq
        heap = [(0, i) for i in range(n)]
        heapq.heapify(heap)
        for r in order:
            c, i = heapq.heappop(heap)
            bins[i][1].append(r)
            heapq.heappush(heap, (c + self.cost(r[1]), i))
        violations = []

        def work(i):
            recs, found = bins[i][1], []
            path = os.path.join(self.work, "shard%d.qnt" % i)
            while recs:
                v = judge(path, [g for _, g, _ in recs])
                if v is None:
                    break
                k, e, bad, info = v
                found.append((recs[k][0], e, bad, info, recs[k][2]))
                recs = recs[k + 1:]
                if len(found) >= self.per_shard_findings:
                    break
            if os.path.exists(path):
                os.remove(path)
            return found
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for f in [ex.submit(work, i) for i in range(n)]:
                violations += f.result()
        return violations


def describe(v):
    s, e, bad, info, note = v
    op, I, D = s.cmds[e]
    return {"driver": s.driver, "type": s.ty, "tag": s.tag, "event": e, "operation": OPNAME.get(op, op), "I": I, "D": D,
            "reason": bad, "details": readable(info), "note": note or ""}
