"""Sample collectors: exactly-once forwarding and complete dumps."""

import os
import shutil
import tempfile

import numpy as np

from quantum_systems.sampler import SampleCollector, Sampler
from qsmon.checks.common import seeds


def cases(rng, tier):
    yield from seeds(rng, 800 if tier == "quick" else 10000)


class Recorder(Sampler):
    """Records each step it is shown; dumps in one of the ways a sampler may:
    into the dictionary it is given, or into a new one."""

    def __init__(self, solver, num_samples, np, name, style, log):
        super().__init__(solver, num_samples, np)
        self.name, self.style, self.log = name, style, log
        self.steps = []
        self.dumps = 0

    def sample(self, step):
        self.steps.append(step)
        self.log.append((self.name, len(self.steps) - 1))

    def dump(self, samples):
        self.dumps += 1
        mine = {self.name: np.array([float(s) for s in self.steps]), self.name + "-n": len(self.steps)}
        if self.style == "update":
            samples.update(mine)
            return samples
        if self.style == "setitem":
            for k, v in mine.items():
                samples[k] = v
            return samples
        if self.style == "seen":
            # depends on what was collected before
            samples[self.name + "-saw"] = sorted(k for k in samples if not k.startswith(self.name))
            samples.update(mine)
            return samples
        return {**samples, **mine}


class Derived(SampleCollector):
    pass


class Solver:
    system = "the system"


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and a.dtype == b.dtype and bool(np.all(a == b))
    return type(a) is type(b) and a == b


def same_dict(mon, oracle, got, want):
    mon.true(oracle, isinstance(got, dict), f"a dictionary, got {type(got)}")
    mon.equal(oracle, sorted(map(str, got)), sorted(map(str, want)), "keys")
    for k in want:
        mon.true(oracle, same(got[k], want[k]), f"{k}: {got[k]!r}, expected {want[k]!r}")


def load(mon, path, name):
    """The stored file, under the given name or with the suffix of np.save."""
    for f in (os.path.join(path, name), os.path.join(path, name) + ".npy"):
        if os.path.isfile(f):
            return np.load(f, allow_pickle=True).item()
    where = os.listdir(path) if os.path.isdir(path) else "no directory"
    mon.true("file-exists", False, f"no file {name} in {path}: {where}")


def container(rs, samplers):
    k = rs.randint(8)
    if k == 0:
        return "list", list(samplers)
    if k == 1:
        return "tuple", tuple(samplers)
    if k == 2:
        return "set", set(samplers)
    if k == 3:
        return "generator", (s for s in samplers)
    if k == 4:
        return "iterator", iter(samplers)
    if k == 5:
        return "dict-values", {i: s for i, s in enumerate(samplers)}.values()
    if k == 6:
        return "map", map(lambda s: s, samplers)
    return "dict", {s: i for i, s in enumerate(samplers)}


def run_case(case, mon, rs):
    root = tempfile.mkdtemp(prefix="dump-", dir=os.environ["QSMON_SCRATCH"])
    cwd = os.getcwd()
    os.chdir(root)
    try:
        history(case, mon, rs, root)
    finally:
        os.chdir(cwd)
        shutil.rmtree(root, ignore_errors=True)


def history(case, mon, rs, root):
    log = []
    n = int(rs.randint(0, 6))
    solver = Solver()
    counts = [(10, 0, 1, 3)[rs.randint(4)] for _ in range(n)]
    samplers = [
        Recorder(solver, counts[i], np, f"s{i}", ("update", "setitem", "new", "seen")[rs.randint(4)], log)
        for i in range(n)
    ]
    for s, k in zip(samplers, counts):
        mon.equal("sampler-attributes", (s.solver, s.system, s.num_samples, s.np), (solver, "the system", k, np), "sampler")
    kind, cont = container(rs, samplers)
    cls = (SampleCollector, Derived)[rs.randint(2)]
    col = mon.call("collector", cls, cont, np)
    mon.feature("container:" + kind, f"samplers:{n}")
    steps, extra, files = [], {}, {}

    def expected(prev):
        # what dumping has to collect now
        want = dict(prev)
        want.update(extra)
        for s in samplers:
            want[s.name] = np.array([float(x) for x in s.steps])
            want[s.name + "-n"] = len(s.steps)
        return want

    def judge(got, oracle):
        want = expected({})
        keys = {k for k in got if str(k).endswith("-saw")}
        for s in samplers:
            if s.style == "seen":
                mon.true(oracle, s.name + "-saw" in keys, f"missing {s.name}-saw")
                others = set(got[s.name + "-saw"])
                # everything directly added must have been visible to it
                mon.true("visible", set(map(str, extra)) <= set(map(str, others)), f"{s.name} saw {others}")
        same_dict(mon, oracle, {k: v for k, v in got.items() if k not in keys}, want)

    for _ in range(int(rs.randint(4, 25))):
        op = rs.randint(10)
        if op < 5:
            for _ in range(int(rs.randint(1, 6))):
                step = (len(steps), float(rs.uniform(-1, 1)), np.float64(rs.uniform()), 0, np.int64(rs.randint(9)))[rs.randint(5)]
                before = len(log)
                mon.call("sample", col.sample, step)
                steps.append(step)
                mon.equal("forwarded-once", sorted(x[0] for x in log[before:]), sorted(s.name for s in samplers), "samplers called")
                for s in samplers:
                    mon.true("same-step", s.steps[-1] is step or s.steps[-1] == step, "step")
        elif op < 7:
            key = f"extra{rs.randint(4)}"
            val = (float(rs.uniform()), rs.standard_normal(3), "text", None, rs.standard_normal((2, 2)) + 1j)[rs.randint(5)]
            mon.call("add-sample", col.add_sample, key, val)
            extra[key] = val
            got = mon.call("get-samples", col.get_samples)
            mon.true("added", same(got[key], val), key)
        elif op == 7:
            before = sorted(os.listdir(root))
            got = mon.call("dump-unsaved", col.dump, save_samples=False)
            judge(got, "collected")
            mon.equal("nothing-written", sorted(os.listdir(root)), before, "files")
        else:
            kw = {}
            path, name = "dump", f"tmp_{cls.__name__}.samples"
            k = rs.randint(4)
            if k:
                path = ("out", os.path.join("a", "b", "c"), os.path.join(root, "abs", "x"), f"p{rs.randint(3)}")[rs.randint(4)]
                kw["path"] = path
            if rs.randint(2):
                name = ("samples", "run.npy", "x.samples", f"f{rs.randint(3)}")[rs.randint(4)]
                kw["filename"] = name
            full = os.path.join(root, path)
            if rs.randint(6) == 0:
                os.makedirs(full, exist_ok=True)
            exists = os.path.isdir(full)
            j = rs.randint(3)
            if j == 0:
                kw["exist_ok"] = True
            elif j == 1:
                kw["exist_ok"] = False
            if kw.get("exist_ok", True) is False and exists:
                held = {f: content(f) for f in walk(full)}
                mon.refuses("existing-refused", "dump", col.dump, **kw)
                mon.equal("untouched", {f: content(f) for f in walk(full)}, held, "files of a refused dump")
                mon.feature("refused-existing" if held else "refused-empty")
            else:
                got = mon.call("dump", col.dump, **kw)
                judge(got, "returned")
                stored = load(mon, full, name)
                judge(stored, "stored")
                mon.equal("stored", sorted(stored), sorted(got), "keys")
                files[(full, name)] = stored
                mon.feature("exists" if exists else "created")
            judge_all(mon, files)
    for s in samplers:
        mon.equal("exactly-once", [float(x) for x in s.steps], [float(x) for x in steps], f"steps of {s.name}")
    got = mon.call("get-samples", col.get_samples)
    for k, v in extra.items():
        mon.true("kept", same(got[k], v), k)
    abstract(mon)


def judge_all(mon, files):
    """Earlier dumps to other places stay as they were."""
    for (full, name), want in files.items():
        same_dict(mon, "earlier-dump", load(mon, full, name), want)


def walk(d):
    return sorted(os.path.join(a, f) for a, _, fs in os.walk(d) for f in fs)


def content(f):
    with open(f, "rb") as g:
        return g.read()


def abstract(mon):
    class NoDump(Sampler):
        def sample(self, step):
            pass

    class NoSample(Sampler):
        def dump(self, samples):
            return samples

    for c in (Sampler, NoDump, NoSample):
        mon.refuses("abstract", "incomplete-sampler", c, Solver(), 1, np)
