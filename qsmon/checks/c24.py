"""The Coulomb element cache: transparency, crashes, full disks, races.

Workers run interpreted (NUMBA_DISABLE_JIT), so that children can be forked at
no cost and every source line of the storing path is a possible crash point.
The files of each case live in a scratch directory of its own, which is both
the working directory and the first entry of sys.path, the two places the code
may mean by the directory of the caller."""

import contextlib
import io
import json
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback

import numpy as np

import quantum_systems as qs
from quantum_systems.quantum_dots.two_dim import two_dim_helper as h2
from qsmon import ref2d
from qsmon.mon import HarnessError, Violation
from qsmon.checks.common import seeds

KERNELS = ("_get_coulomb_elements", "get_indices_nm", "get_index_p", "get_shell_energy")
SIZES = (1, 2, 3)
FRESH = {}


def cases(rng, tier):
    k = 1 if tier == "quick" else 12
    yield from seeds(rng, 24 * k, kind="history")
    yield from seeds(rng, 16 * k, kind="kill-at-line")
    yield from seeds(rng, 8 * k, kind="raise-at-line")
    yield from seeds(rng, 16 * k, kind="kill-at-byte")
    yield from seeds(rng, 16 * k, kind="full-disk")
    yield from seeds(rng, 16 * k, kind="processes")
    yield from seeds(rng, 16 * k, kind="threads")
    yield from seeds(rng, 8 * k, kind="processes-crash")
    yield from seeds(rng, 6 * k, kind="dots")
    yield from seeds(rng, 4 * k, kind="no-cache")
    yield from seeds(rng, 3 * k, kind="compiled")
    yield from seeds(rng, 6 * k, kind="sizes")


class Place:
    """A scratch directory made the caller's directory."""

    def __init__(self, cached=True, value="1"):
        self.cached = cached
        self.value = value

    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="cache-", dir=os.environ["QSMON_SCRATCH"])
        self.cwd, self.path = os.getcwd(), list(sys.path)
        os.chdir(self.dir)
        # decoys, in case the code under test picks another entry
        self.decoy = tempfile.mkdtemp(prefix="decoy-", dir=os.environ["QSMON_SCRATCH"])
        sys.path[:] = [self.dir, self.decoy] + self.path[1:] + [self.decoy]
        if self.cached:
            os.environ["QS_CACHE_TDHO"] = self.value
        return self

    def __exit__(self, *a):
        os.environ.pop("QS_CACHE_TDHO", None)
        sys.path[:] = self.path
        os.chdir(self.cwd)
        shutil.rmtree(self.dir, ignore_errors=True)
        shutil.rmtree(self.decoy, ignore_errors=True)

    def files(self):
        return sorted(os.listdir(self.dir))


def fresh(l):
    """The elements computed without caching."""
    if l not in FRESH:
        keep = os.environ.pop("QS_CACHE_TDHO", None)
        FRESH[l] = np.array(h2.get_coulomb_elements(l), copy=True)
        if keep is not None:
            os.environ["QS_CACHE_TDHO"] = keep
    return FRESH[l]


def stored_names(l):
    """Names and contents of the files an undisturbed request leaves."""
    with Place() as p:
        h2.get_coulomb_elements(l)
        out = {}
        for f in p.files():
            with open(os.path.join(p.dir, f), "rb") as g:
                out[f] = g.read()
        return out


def judge(mon, got, l, oracle="same-elements"):
    got_ = np.asarray(got)
    mon.equal("dtype", got_.dtype, fresh(l).dtype, "dtype")
    mon.close(oracle, got_, fresh(l), 1e-13, f"elements of {l} orbitals")
    mon.true("writeable", got_.flags.writeable == fresh(l).flags.writeable, "writeable as without cache")


def judge_files(mon, place, names):
    """Whatever lies under a cache name is complete."""
    for f in place.files():
        if f in names:
            with open(os.path.join(place.dir, f), "rb") as g:
                data = g.read()
            mon.true("complete-file", whole(data, names[f]),
                     f"{f}: {len(data)} bytes, complete are {len(names[f])}")


def whole(data, want):
    if data == want:
        return True
    import io

    try:
        return np.array_equal(np.load(io.BytesIO(data)), np.load(io.BytesIO(want)))
    except Exception:
        return False


class Lines:
    """Counts the source lines executed on the storing path and acts at one."""

    def __init__(self, at=None, action=None):
        self.n = 0
        self.at = at
        self.action = action

    def eligible(self, frame):
        f = frame.f_code.co_filename
        if "quantum_systems" in f:
            return "coulomb_elements.py" not in f and frame.f_code.co_name not in KERNELS
        return "numpy" in f and ("npyio" in f or "format" in f)

    def __call__(self, frame, event, arg):
        if event == "call":
            return self.local if self.eligible(frame) else None
        return None

    def local(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.at is not None and (self.n == self.at or callable(self.at) and self.at()):
                self.action()
        return self.local

    def run(self, fn, *a):
        sys.settrace(self)
        try:
            return fn(*a)
        finally:
            sys.settrace(None)


def fork(fn):
    """Run fn in a forked child; returns its pid."""
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 9
        try:
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            code = fn() or 0
        except BaseException:
            with open(f"{os.environ['QSMON_SCRATCH']}/err{os.getpid()}", "w") as f:
                f.write(traceback.format_exc())
        finally:
            os._exit(code)
    return pid


def reap(pid, timeout=60):
    end = time.time() + timeout
    while time.time() < end:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            return ("signal", os.WTERMSIG(st)) if os.WIFSIGNALED(st) else ("exit", os.WEXITSTATUS(st))
        time.sleep(0.001)
    os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    return ("hang", 0)


def error_of(pid):
    path = f"{os.environ['QSMON_SCRATCH']}/err{pid}"
    if os.path.exists(path):
        with open(path) as f:
            return f.read()[-1500:]
    return "(no traceback)"


def request_ok(l):
    u = np.asarray(h2.get_coulomb_elements(l))
    return u.dtype == fresh(l).dtype and u.shape == fresh(l).shape and np.allclose(u, fresh(l), rtol=0, atol=1e-13)


def count_lines(l):
    """Lines of an undisturbed storing request (in a child, elsewhere)."""
    with Place():
        c = Lines()
        c.run(h2.get_coulomb_elements, l)
        return c.n


def recover(mon, place, l, names):
    """After an interruption: complete files only, and later requests work, in
    this process and in another one, from the cache and without."""
    judge_files(mon, place, names)
    for _ in range(2):
        judge(mon, mon.call("request-after-interruption", h2.get_coulomb_elements, l), l, "after-interruption")
    judge_files(mon, place, names)
    st = reap(fork(lambda: 0 if request_ok(l) else 3))
    mon.equal("other-process-after", st, ("exit", 0), "request by another process")


def points(rs, n, k):
    if n <= k:
        return list(range(1, n + 1))
    return sorted(set(int(x) for x in rs.randint(1, n + 1, size=k)))


def run_case(case, mon, rs):
    kind = case["kind"]
    mon.feature("kind:" + kind)
    for l in SIZES:
        fresh(l)
    globals()["case_" + kind.replace("-", "_")](case, mon, rs)
    mon.trace = mon.trace[:25]


def case_sizes(case, mon, rs):
    """Sizes far beyond what can be computed here: the computation is replaced
    by a stand-in returning a mark of the size, and every size must keep its
    own elements.  Does nothing where the computation has another name."""
    name = "_get_coulomb_elements"
    real = getattr(h2, name, None)
    if real is None:
        return
    calls = []

    def stand_in(n):
        calls.append(int(n))
        shape = (n,) * 4 if n <= 20 else (1,) * 4
        return np.full(shape, 1000.0 + n)

    sizes = sorted({int(x) for x in rs.randint(1, 30, size=8)} | {int(x) for x in rs.randint(30, 1200, size=16)}
                   | {10, 100, 1000, 1001, 101, 110, 11})
    with Place() as place:
        setattr(h2, name, stand_in)
        try:
            h2.get_coulomb_elements(1)
            if calls != [1]:
                return
            order = [sizes[i] for i in rs.permutation(len(sizes))]
            for n in order + [order[i] for i in rs.permutation(len(order))]:
                if n > 20:
                    try:
                        h2.get_coulomb_elements(n)
                    except Exception:
                        continue  # looks at the shape of what it stores
                u = np.asarray(mon.call("request-size", h2.get_coulomb_elements, n))
                mon.equal("own-elements", (float(u.min()), float(u.max())), (1000.0 + n, 1000.0 + n),
                          f"elements of {n} orbitals")
            mon.feature("large-sizes")
        finally:
            setattr(h2, name, real)


def case_history(case, mon, rs):
    with Place(value=("1", "yes", "true")[rs.randint(3)]) as place:
        names = {}
        for l in SIZES:
            names.update(stored_names(l))
            os.environ["QS_CACHE_TDHO"] = "1"
        for _ in range(int(rs.randint(4, 14))):
            l = int(SIZES[rs.randint(len(SIZES))])
            op = rs.randint(6)
            if op <= 3:
                k = rs.randint(3)
                kw = {"verbose": k == 0} if k < 2 else {}
                with contextlib.redirect_stdout(io.StringIO()):
                    u = mon.call("request", h2.get_coulomb_elements, l, **kw)
                judge(mon, u, l)
                if op <= 1:
                    # what the caller does with the elements is his business
                    u[...] = np.nan
                    mon.feature("modified-result")
            elif op == 4:
                st = reap(fork(lambda: 0 if request_ok(l) else 3))
                mon.equal("other-process", st, ("exit", 0), "request by another process")
                mon.events["request"] += 1
            else:
                keep = os.environ.pop("QS_CACHE_TDHO")
                before = place.files()
                with contextlib.redirect_stdout(io.StringIO()):
                    u = mon.call("request-uncached", h2.get_coulomb_elements, l, verbose=bool(rs.randint(2)))
                judge(mon, u, l)
                mon.equal("no-file", place.files(), before, "files without caching")
                os.environ["QS_CACHE_TDHO"] = keep
            judge_files(mon, place, names)
        if place.files():
            mon.feature("file-written")


def case_kill_at_line(case, mon, rs):
    l = int(rs.randint(1, 3))
    names = stored_names(l)
    n = count_lines(l)
    for at in points(rs, n, 12):
        with Place() as place:
            def act():
                os.kill(os.getpid(), signal.SIGKILL)

            pid = fork(lambda: Lines(at, act).run(request_ok, l) and 0)
            st = reap(pid)
            mon.events["crash-at-line"] += 1
            if st == ("signal", signal.SIGKILL):
                mon.feature("crashed")
            elif st[0] == "hang":
                raise Violation("no-hang", f"request did not return (line {at})")
            recover(mon, place, l, names)


def case_raise_at_line(case, mon, rs):
    """Interrupted from the keyboard or out of memory, process lives on."""
    l = int(rs.randint(1, 3))
    names = stored_names(l)
    n = count_lines(l)
    for at in points(rs, n, 12):
        exc = (KeyboardInterrupt, MemoryError, OSError)[rs.randint(3)]
        with Place() as place:
            def act():
                raise exc("injected")

            def child():
                try:
                    Lines(at, act).run(h2.get_coulomb_elements, l)
                except BaseException:
                    pass
                return 0 if request_ok(l) and request_ok(l) else 3

            pid = fork(child)
            st = reap(pid)
            mon.events["interrupted-at-line"] += 1
            mon.true("same-process-after", st == ("exit", 0),
                     f"request after {exc.__name__} at line {at}: {st} {error_of(pid) if st == ('exit', 9) else ''}")
            recover(mon, place, l, names)


def limited(place, mon, rs, l, limit, killed):
    def child():
        resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
        signal.signal(signal.SIGXFSZ, signal.SIG_DFL if killed else signal.SIG_IGN)
        try:
            u = h2.get_coulomb_elements(l)
        except OSError:
            return 4
        except Exception:
            return 5
        return 0 if np.allclose(u, fresh(l), rtol=0, atol=1e-13) else 3

    st = reap(fork(child))
    mon.true("interrupted-request", st[0] != "hang" and st[1] not in (3, 9) or st[0] == "signal",
             f"request with {limit} bytes left: {st}")
    mon.feature("killed" if st[0] == "signal" else {0: "completed", 4: "os-error", 5: "other-error"}.get(st[1], "?"))


def case_kill_at_byte(case, mon, rs):
    l = int(rs.randint(1, 4))
    names = stored_names(l)
    size = max([len(v) for v in names.values()] or [1000])
    for _ in range(6):
        limit = int((rs.randint(size), 0, 1, 128, size - 1, size)[rs.randint(6)])
        with Place() as place:
            mon.events["crash-at-byte"] += 1
            limited(place, mon, rs, l, limit, True)
            recover(mon, place, l, names)


def case_full_disk(case, mon, rs):
    l = int(rs.randint(1, 4))
    names = stored_names(l)
    size = max([len(v) for v in names.values()] or [1000])
    for _ in range(6):
        limit = int((rs.randint(size), 0, 1, 128, size - 1, size)[rs.randint(6)])
        with Place() as place:
            mon.events["full-disk"] += 1
            limited(place, mon, rs, l, limit, False)
            recover(mon, place, l, names)


def delays(seed, rate, scale):
    r = np.random.RandomState(seed)

    def at():
        return r.uniform() < rate

    def act():
        time.sleep(float(r.exponential(scale)))

    t = Lines(None, act)
    t.at = at
    return t


def race(mon, rs, crash):
    sizes = [int(SIZES[i]) for i in rs.randint(len(SIZES), size=int(rs.randint(1, 4)))]
    names = {}
    for l in set(sizes):
        names.update(stored_names(l))
    k = int(rs.randint(3, 9))
    seeds_ = rs.randint(2**31 - 1, size=k)
    with Place() as place:
        r, w = os.pipe()

        def child(i):
            def fn():
                os.read(r, 1)
                t = delays(int(seeds_[i]), 0.15, 0.002)
                if crash and i == 0:
                    n = int(rs.randint(5, 120))
                    t = Lines(n, lambda: os.kill(os.getpid(), signal.SIGKILL))
                ok = t.run(lambda: all([request_ok(l) for l in sizes]))
                return 0 if ok else 3

            return fn

        pids = [fork(child(i)) for i in range(k)]
        os.write(w, b"x" * k)
        pending = set(pids)
        status = {}
        end = time.time() + 120
        looked = 0
        while pending and time.time() < end:
            judge_files(mon, place, names)
            looked += 1
            for p in list(pending):
                q, st = os.waitpid(p, os.WNOHANG)
                if q:
                    pending.discard(p)
                    status[p] = ("signal", os.WTERMSIG(st)) if os.WIFSIGNALED(st) else ("exit", os.WEXITSTATUS(st))
            time.sleep(0.0005)
        for p in pending:
            os.kill(p, signal.SIGKILL)
            os.waitpid(p, 0)
            status[p] = ("hang", 0)
        os.close(r)
        os.close(w)
        mon.events["concurrent-requests"] += k * len(sizes)
        mon.features["looks-at-the-files"] += looked
        for i, p in enumerate(pids):
            if crash and i == 0:
                continue
            mon.true("concurrent-process", status[p] == ("exit", 0),
                     f"process {i} of {k} requesting {sizes}: {status[p]} {error_of(p) if status[p] == ('exit', 9) else ''}")
        for l in set(sizes):
            recover(mon, place, l, names)


def case_processes(case, mon, rs):
    race(mon, rs, False)


def case_processes_crash(case, mon, rs):
    race(mon, rs, True)


def case_threads(case, mon, rs):
    sizes = [int(SIZES[i]) for i in rs.randint(len(SIZES), size=int(rs.randint(1, 4)))]
    names = {}
    for l in set(sizes):
        names.update(stored_names(l))
    k = int(rs.randint(3, 9))
    seeds_ = rs.randint(2**31 - 1, size=k)
    with Place() as place:
        bad = []
        go = threading.Barrier(k)

        def work(i):
            t = delays(int(seeds_[i]), 0.15, 0.001)
            go.wait()
            try:
                for l in sizes:
                    u = t.run(h2.get_coulomb_elements, l)
                    if not np.allclose(u, fresh(l), rtol=0, atol=1e-13):
                        bad.append(f"thread {i}: other values for {l}")
                    u[...] = -1
            except BaseException as e:
                bad.append(f"thread {i}: {type(e).__name__}: {e}")

        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        try:
            ts = [threading.Thread(target=work, args=(i,)) for i in range(k)]
            for t in ts:
                t.start()
            while any(t.is_alive() for t in ts):
                judge_files(mon, place, names)
                time.sleep(0.0005)
            for t in ts:
                t.join()
        finally:
            sys.setswitchinterval(old)
        mon.events["concurrent-requests"] += k * len(sizes)
        mon.true("concurrent-thread", not bad, f"{k} threads requesting {sizes}: {bad[:3]}")
        for l in set(sizes):
            recover(mon, place, l, names)


def case_dots(case, mon, rs):
    with Place() as place:
        for _ in range(5):
            l = int(SIZES[rs.randint(len(SIZES))])
            omega, mass = float(rs.uniform(0.2, 3)), float(rs.uniform(0.3, 2))
            cls = (qs.TwoDimensionalHarmonicOscillator, qs.TwoDimensionalDoubleWell, qs.TwoDimHarmonicOscB)[rs.randint(3)]
            b = mon.call(cls.__name__, cls, l, 3, 4, omega=omega, mass=mass)
            mon.close("dot", b.u, np.sqrt(omega * mass) * ref2d.coulomb(ref2d.labels(l)), 1e-10, "scaled elements")
            k = rs.randint(3)
            if k == 0:
                mon.call("add-spin", b.change_to_general_orbital_basis)
            elif k == 1:
                mon.call("change-basis", b.change_basis, rs.standard_normal((l, l)))
            else:
                b.u[...] = 0
        for l in SIZES:
            judge(mon, mon.call("request", h2.get_coulomb_elements, l), l)


def case_no_cache(case, mon, rs):
    with Place(cached=False) as place:
        for l in SIZES:
            judge(mon, mon.call("request-uncached", h2.get_coulomb_elements, l), l)
        b = mon.call("tdho", qs.TwoDimensionalHarmonicOscillator, 2, 3, 4)
        mon.equal("no-file", place.files(), [], "files without caching")
        # nothing of an abandoned cache is read either
        os.environ["QS_CACHE_TDHO"] = "1"
        h2.get_coulomb_elements(2)
        del os.environ["QS_CACHE_TDHO"]
        for f in place.files():
            np.save(os.path.join(place.dir, f), np.full((2,) * 4, 7.0))
        judge(mon, mon.call("request-uncached", h2.get_coulomb_elements, 2), 2)


SCRIPT = """
import sys, time, json, numpy as np
from quantum_systems.quantum_dots.two_dim import two_dim_helper as h2
sizes, start = json.loads(sys.argv[1]), float(sys.argv[2])
h2._get_coulomb_elements(1) if hasattr(h2, "_get_coulomb_elements") else None
while time.time() < start:
    time.sleep(0.001)
for l in sizes:
    np.save(sys.argv[3] + f"-{l}.npy", h2.get_coulomb_elements(l))
"""


def case_compiled(case, mon, rs):
    """The real thing: separate compiled processes, larger tensors, some of
    them killed, then all again from the cache."""
    env = dict(os.environ)
    env.pop("NUMBA_DISABLE_JIT", None)
    env["QS_CACHE_TDHO"] = "1"
    with Place() as place:
        out = tempfile.mkdtemp(dir=os.environ["QSMON_SCRATCH"])
        with open("request.py", "w") as f:
            f.write(SCRIPT)
        sizes = [int(x) for x in rs.permutation([6, 10, 12])]
        for rnd in range(2):
            start = time.time() + (14 if rnd == 0 else 10)
            k = 3
            ps = [
                subprocess.Popen(
                    ["/opt/venv/bin/python", "request.py", json.dumps(sizes), str(start), f"{out}/{rnd}-{i}"],
                    env=env, cwd=place.dir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                )
                for i in range(k)
            ]
            if rnd == 0:
                time.sleep(max(0, start - time.time()) + float(rs.uniform(0, 0.3)))
                ps[0].kill()
            outs = [p.communicate()[0].decode()[-800:] for p in ps]
            for i in range(k):
                if rnd == 0 and i == 0:
                    continue
                mon.events["compiled-process"] += 1
                mon.true("compiled-process", ps[i].returncode == 0, f"process {i}: {outs[i]}")
                for l in sizes:
                    nm = ref2d.labels(l)
                    mon.close("compiled-elements", np.load(f"{out}/{rnd}-{i}-{l}.npy"), ref2d.coulomb(nm),
                              ref2d.coulomb_tol(nm), f"{l} orbitals")
        shutil.rmtree(out)
