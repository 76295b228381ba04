"""The simulated machine room: a seeded scheduler that runs every pctsp process as a task, one at a time, a clock per node,
and a file system (the real files of a scratch directory behind patched calls) that can fail, tear writes and lose power."""
import builtins, errno, hashlib, io, os, random, stat as statmod, sys, threading, time as _time

_real = {n: getattr(os, n) for n in ("open", "close", "write", "read", "replace", "rename", "unlink", "remove", "mkdir", "rmdir", "stat", "fsync",
         "fdatasync", "listdir", "scandir", "link", "symlink", "truncate", "ftruncate", "lseek", "fstat", "getpid", "urandom", "utime", "chmod")}
_real_io_open = io.open
_real_time = {n: getattr(_time, n) for n in ("time", "time_ns", "monotonic", "monotonic_ns", "perf_counter", "sleep")}


class SimKilled(BaseException):
    """The process this task stands for has been killed."""


class Stuck(BaseException):
    """More steps than any legal run needs."""


class Dec:
    """Every choice of a run; 0 is always the benign answer."""
    def __init__(self, seed=0, replay=None):
        self.s = (seed * 0x9E3779B97F4A7C15 + 0x51A81A8) & (2**64 - 1); self.replay = replay; self.pos = 0; self.out = []; self.sites = {}

    def _next(self):
        self.s = (self.s + 0x9E3779B97F4A7C15) & (2**64 - 1); z = self.s
        z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & (2**64 - 1); z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & (2**64 - 1)
        return z ^ (z >> 31)

    def _log(self, v, site):
        self.out.append(v)
        if v:
            self.sites[site] = self.sites.get(site, 0) + 1
        return v

    def choose(self, n, site):
        if n <= 1:
            return 0
        if self.replay is not None:
            v = self.replay[self.pos] % n if self.pos < len(self.replay) else 0; self.pos += 1
        else:
            v = self._next() % n
        return self._log(v, site)

    def chance(self, permille, site):
        if permille <= 0:
            return False
        if self.replay is not None:
            v = 1 if self.pos < len(self.replay) and self.replay[self.pos] else 0; self.pos += 1
        else:
            v = 1 if self._next() % 1000 < permille else 0
        return bool(self._log(v, site))


class Task:
    def __init__(self, w, name, fn, node):
        self.w, self.name, self.fn, self.node = w, name, fn, node
        self.pid = 1000 + len(w.all_tasks); self.sem = threading.Semaphore(0); self.done = False; self.dead = False
        self.exc = None; self.value = None; self.out = io.StringIO(); self.err = io.StringIO(); self.fds = set(); self.glob = None
        r = random.Random(w.case_seed * 1000 + self.pid); self.rng = r.getstate()
        import numpy as np
        self.nprng = np.random.RandomState(self.pid + w.case_seed % 10**6).get_state(); self.killable = True; self.wall_ns = None; self.start_ns = w.now_ns
        self.thread = threading.Thread(target=self._main, daemon=True)

    def _main(self):
        self.sem.acquire()
        try:
            if self.dead:
                raise SimKilled()
            self.value = self.fn()
        except SimKilled:
            self.dead = True
        except BaseException as e:      # the process ends with this exception
            self.exc = e
        if self.dead:
            for fd in list(self.fds):
                try:
                    _real["close"](fd)
                except OSError:
                    pass
            self.fds.clear()
        self.done = True
        if os.environ.get("SIM_DUMP"):
            self.w.ev("stderr", self.err.getvalue()[-1500:])
        self.w.ev("exit", self.name, "killed" if self.dead else type(self.exc).__name__ if self.exc else "ok")
        self.w.main_sem.release()

    @property
    def ok(self):
        return self.done and not self.dead and self.exc is None


class Globals:
    """The Python globals of the code under test. Every simulated process has its own: they are swapped when another task runs."""
    def __init__(self, prefix="pctsp"):
        import collections, types
        self.mods = [m for n, m in sorted(sys.modules.items()) if m is not None and (n == prefix or n.startswith(prefix + ".")) and isinstance(getattr(m, "__dict__", None), dict) and (getattr(m, "__file__", "") or "").endswith(".py")]
        self.boxes, self.caches, seen = [], [], set(); kinds = (dict, list, set, collections.deque); self.modtype = types.ModuleType; self.classes = []

        def look(o, deep):
            if id(o) in seen: return
            seen.add(id(o))
            if isinstance(o, kinds) and type(o).__module__ in ("builtins", "collections"): self.boxes.append(o); return
            if callable(getattr(o, "cache_clear", None)): self.caches.append(o)
            if isinstance(o, types.FunctionType) and (o.__module__ or "").startswith(prefix):
                for x in (o.__defaults__ or ()) + tuple((o.__kwdefaults__ or {}).values()): look(x, False) if isinstance(x, kinds) else None
                self.boxes.append(o.__dict__)
            elif isinstance(o, (staticmethod, classmethod)): look(o.__func__, False)
            elif isinstance(o, type) and (o.__module__ or "").startswith(prefix) and deep:
                self.classes.append(o)
                for k, x in list(vars(o).items()):
                    if not (k.startswith("__") or k.startswith("model_") or k.startswith("_member") or k in ("_abc_impl", "_value2member_map_", "_unhashable_values_", "_hashable_values_")): look(x, False)
        for m in self.mods:
            for k, x in list(vars(m).items()):
                if not k.startswith("__"): look(x, True)
        self.first = self.save()

    def names(self, m): return {k: x for k, x in vars(m).items() if not k.startswith("__")}
    def save(self): return [self.names(m) for m in self.mods], [self.dup(b) for b in self.boxes]
    def dup(self, x, d=0):
        if d > 3 or type(x) not in (dict, list, set): return x.copy() if d == 0 else x
        if type(x) is dict: return {k: self.dup(y, d + 1) for k, y in x.items()}
        return [self.dup(y, d + 1) for y in x] if type(x) is list else set(x)
    def alike(self, a, b, d=0):
        if a is b: return True
        if d > 3 or type(a) is not type(b) or type(a) not in (dict, list, set): return False
        if len(a) != len(b): return False
        if type(a) is set: return a == b
        if type(a) is dict: return all(i is k and self.alike(x, y, d + 1) for (i, x), (k, y) in zip(a.items(), b.items()))
        return all(self.alike(x, y, d + 1) for x, y in zip(a, b))

    def load(self, st):
        for m, names in zip(self.mods, st[0]):
            d = vars(m)
            for k in [k for k, x in d.items() if not k.startswith("__") and k not in names and not isinstance(x, self.modtype)]: del d[k]
            for k, x in names.items():
                if d.get(k, self) is not x: d[k] = x
        for b, x in zip(self.boxes, st[1]):
            if not self.alike(b, x):
                x = self.dup(x); b.clear(); b.extend(x) if hasattr(b, "extend") else b.update(x)
        for c in self.caches: c.cache_clear()


class World:
    def __init__(self, root, dec, case_seed, now_ns):
        self.globals = self.loaded = None
        self.root = os.path.realpath(root); self.dec = dec; self.case_seed = case_seed; self.now_ns = now_ns; self.t0 = now_ns
        self.all_tasks = []; self.current = None; self.main_sem = threading.Semaphore(0); self.steps = 0; self.max_steps = 60000
        self.h = hashlib.blake2b(digest_size=8); self.trace = []; self.stats = {}; self.reach = set(); self.viol = []
        self.durable = {}; self.fdinfo = {}; self.hits = []; self.skew = [0] * 64; self.f = {}; self.kills_left = 0; self.io_left = 0; self.native_left = 0; self.power_left = 0; self.urand = random.Random(case_seed ^ 0xABCDEF)
        self.off = 0; self.disk_free = None; self.on_mutate = None; self.on_quiet = None; self.lost_power = 0; self.nmut = 0; self.tmpn = 0

    # ---- bookkeeping
    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def ev(self, *a):
        s = "|".join(str(x) for x in a); self.h.update(s.encode()); self.h.update(b"\n")
        if len(self.trace) < 4000:
            self.trace.append(s)

    def violation(self, tag, msg):
        if len(self.viol) < 40:
            msg = msg.replace(self.root, ""); self.viol.append((tag, msg)); self.ev("VIOLATION", tag, msg)

    # ---- scheduling
    def spawn(self, name, fn, node=0):
        t = Task(self, name, fn, node); self.all_tasks.append(t); t.thread.start(); return t

    def _switch_to(self, t):
        import numpy as np
        if self.loaded is not t:
            if self.globals is None: self.globals = Globals()
            if self.loaded is not None: self.loaded.glob = None if self.loaded.done else self.globals.save()
            self.globals.load(t.glob or self.globals.first); self.loaded = t
        self.current = t; random.setstate(t.rng); np.random.set_state(t.nprng); t.sem.release(); self.main_sem.acquire(); t.rng = random.getstate(); t.nprng = np.random.get_state(); self.current = None

    def run(self, tasks):
        """Run the tasks to the end under seeded interleaving."""
        last = None; self.forget_gone()
        while True:
            live = [t for t in tasks if not t.done]
            if not live:
                return
            dead = [t for t in live if t.dead]
            if dead:
                t = dead[0]
            elif last is not None and not last.done and last in live and not last.yielded:
                t = last
            else:
                t = live[self.dec.choose(len(live), "schedule")]
                if last is not None and t is not last and not last.done:
                    self.count("switches")
            t.yielded = False; last = t; self._switch_to(t)

    def point(self, kind, path="", faultable=True):
        """Every system call, clock read and native call of a task passes here before it takes effect."""
        t = self.current
        if t is None:
            return
        if t.dead:
            raise SimKilled()
        if not isinstance(path, str):
            path = str(self.fdinfo.get(path, path))
        self.steps += 1; self.now_ns += 200000
        if self.steps > self.max_steps:
            raise Stuck()
        self.ev(t.name, kind, os.path.relpath(path, self.root) if path.startswith(self.root) else path)
        if t.wall_ns is not None and self.now_ns - t.start_ns > t.wall_ns:
            self.kill(t, "walltime")
        if faultable and t.killable and self.kills_left > 0 and self.dec.chance(self.f.get("kill", 0), "kill"):
            self.kills_left -= 1; self.kill(t, "kill")
        if faultable and t.killable and self.power_left > 0 and self.dec.chance(self.f.get("power", 0), "power"):
            self.power_left -= 1; self.power_loss(); raise SimKilled()
        if self.f.get("jump") and self.dec.chance(self.f["jump"], "clock_jump"):
            j = [3600, -3600, 86400, -5][self.dec.choose(4, "jump_size")]; self.skew[t.node] += j * 10**9; self.count("fault_clock_jump")
        if self.dec.chance(self.f.get("switch", 300), "switch"):
            t.yielded = True; self.main_sem.release(); t.sem.acquire()
            if t.dead:
                raise SimKilled()

    def kill(self, t, why):
        self.count("fault_" + why); self.ev(why, t.name); t.dead = True; raise SimKilled()

    def power_loss(self):
        """All processes end; file content that was not synced may be lost, torn or zeroed."""
        self.count("fault_power_loss"); self.lost_power += 1; self.ev("power loss")
        for t in self.all_tasks:
            if not t.done and t.killable:
                t.dead = True
        paths = {}; self.off += 1
        for d, dirs, files in os.walk(self.root):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f); paths.setdefault(_real["stat"](p).st_ino, p)
        for ino, old in sorted(self.durable.items(), key=lambda x: paths.get(x[0], "")):
            p = paths.get(ino)
            if p is None:
                continue
            cur = self.raw_read(p); how = self.dec.choose(5, "power_content"); new = cur
            if how == 1: new = b""
            elif how == 2: new = cur[: self.dec.choose(len(cur) + 1, "power_cut")]
            elif how == 3: new = old
            elif how == 4: new = b"\0" * len(cur)
            if new != cur:
                self.raw_write(p, new); self.count("fault_lost_write"); self.ev("lost", os.path.relpath(p, self.root), how)
        self.off -= 1; self.durable.clear(); self.mutated(None)

    def mutated(self, path):
        self.nmut += 1
        if self.on_mutate:
            self.off += 1
            try:
                self.on_mutate(path)
            finally:
                self.off -= 1

    def clock(self):
        t = self.current
        return self.now_ns + (self.skew[t.node] if t else 0)

    # ---- unsimulated access for the checks
    def raw_read(self, p):
        fd = _real["open"](p, os.O_RDONLY)
        try:
            out = b""
            while True:
                b = _real["read"](fd, 1 << 20)
                if not b:
                    return out
                out += b
        finally:
            _real["close"](fd)

    def raw_write(self, p, data):
        fd = _real["open"](p, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644); self.durable.pop(_real["fstat"](fd).st_ino, None)
        try:
            while data:
                data = data[_real["write"](fd, data):]
        finally:
            _real["close"](fd)

    def inside(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if not os.path.isabs(p):
            p = os.path.join(os.getcwd(), p)
        p = os.path.normpath(p)
        return p if p == self.root or p.startswith(self.root + os.sep) else False

    # ---- file system
    def fail(self, kind, path, errs):
        """Maybe fail this call; returns nothing or raises OSError."""
        t = self.current
        if t is None or self.io_left <= 0 or not errs:
            return
        if self.dec.chance(self.f.get("io", 0), "io_fault"):
            e = errs[self.dec.choose(len(errs), "io_errno")]; self.io_left -= 1
            self.count("fault_" + errno.errorcode[e].lower()); self.ev("errno", e, kind); self.hits.append((t.name, kind, path if isinstance(path, str) else "")); raise OSError(e, os.strerror(e), path)

    def dirty_before(self, ino, content):
        self.durable.setdefault(ino, content)

    def forget_gone(self):
        """Drop what is known about files that were deleted between tasks: their inode numbers are used again."""
        if self.durable:
            here = {_real["stat"](os.path.join(d, f)).st_ino for d, _, fs in os.walk(self.root) for f in fs}
            self.durable = {i: x for i, x in self.durable.items() if i in here}

    def ino_to_go(self, p):
        """The inode that goes away when the directory entry p does."""
        try: st = _real["stat"](p, follow_symlinks=False)
        except OSError: return None
        return st.st_ino if st.st_nlink == 1 else None


W = None


def _ex(p):
    try:
        _real["stat"](p); return True
    except OSError:
        return False


def _isdir(p):
    try:
        return statmod.S_ISDIR(_real["stat"](p).st_mode)
    except OSError:
        return False


def _sim(path):
    """(world, absolute path) when a task makes the call on a path under the simulated root."""
    w = W
    if w is None or w.off or w.current is None or threading.current_thread() is not w.current.thread:
        return None, None
    if isinstance(path, int):
        return (w, path) if path in w.fdinfo else (None, None)
    p = w.inside(path)
    return (w, p) if p else (None, None)


def s_open(path, flags, mode=0o777, *, dir_fd=None):
    w, p = _sim(path)
    if not w:
        return _real["open"](path, flags, mode, dir_fd=dir_fd)
    wr = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC); w.point("open-w" if wr else "open-r", p)
    w.fail("open", p, [errno.ENOSPC, errno.EIO, errno.EMFILE] if wr else [errno.EIO, errno.EMFILE])
    existed = _ex(p); old = None
    if existed and flags & os.O_TRUNC and wr:
        old = w.raw_read(p)
    fd = _real["open"](p, flags, mode); st = _real["fstat"](fd)
    if not existed:
        w.durable[st.st_ino] = b""
    elif old is not None and old != b"":
        w.dirty_before(st.st_ino, old)
    w.fdinfo[fd] = p; w.current.fds.add(fd)
    if not existed or old is not None:
        w.mutated(p)
    return fd


def s_close(fd):
    w, p = _sim(fd) if isinstance(fd, int) else (None, None)
    if not w:
        return _real["close"](fd)
    p = w.fdinfo[fd]; w.point("close", p); w.fdinfo.pop(fd, None); w.current.fds.discard(fd); return _real["close"](fd)


def s_write(fd, data):
    w, _ = _sim(fd)
    if not w:
        return _real["write"](fd, data)
    p = w.fdinfo[fd]; data = bytes(data); t = w.current
    try:
        w.point("write", p)
    except SimKilled:
        if not w.lost_power and data and not getattr(t, "torn", False):   # the dying process may have got part of this write out
            t.torn = True; k = w.dec.choose(len(data) + 1, "torn_write")
            if k:
                st = _real["fstat"](fd); w.dirty_before(st.st_ino, w.raw_read(p) if _ex(p) else b""); _real["write"](fd, data[:k]); w.count("fault_torn_write"); w.mutated(p)
        raise
    st = _real["fstat"](fd); w.dirty_before(st.st_ino, w.raw_read(p) if _ex(p) else b"")
    if w.io_left > 0 and w.dec.chance(w.f.get("short", 0), "short_write") and len(data) > 1:
        w.count("fault_short_write"); data = data[: 1 + w.dec.choose(len(data) - 1, "short_len")]
    if w.disk_free is not None:
        if w.disk_free <= 0:
            w.count("fault_disk_full"); raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), p)
        data = data[: w.disk_free]; w.disk_free -= len(data)
    w.fail("write", p, [errno.ENOSPC, errno.EIO])
    n = _real["write"](fd, data); w.mutated(p); return n


def s_read(fd, n):
    w, _ = _sim(fd)
    if w:
        w.point("read", w.fdinfo[fd]); w.fail("read", w.fdinfo[fd], [errno.EIO])
    return _real["read"](fd, n)


def s_fsync(fd):
    f = fd if isinstance(fd, int) else fd.fileno(); w, _ = _sim(f)
    if not w:
        return _real["fsync"](fd)
    p = w.fdinfo[f]; w.point("fsync", p); w.fail("fsync", p, [errno.EIO, errno.ENOSPC]); w.durable.pop(_real["fstat"](f).st_ino, None); w.reach.add("fsync")


def _two(name):
    def f(a, b, *r, **k):
        w, p = _sim(b)
        if not w:
            return _real[name](a, b, *r, **k)
        w.point(name, p); w.fail(name, p, [errno.ENOSPC, errno.EIO] if name != "replace" else [errno.EIO])
        gone = w.ino_to_go(p) if name in ("replace", "rename") else None
        x = _real[name](a, b, *r, **k); w.durable.pop(gone, None); w.mutated(p); return x
    return f


def _one(name, errs=()):
    def f(a, *r, **k):
        w, p = _sim(a)
        if not w:
            return _real[name](a, *r, **k)
        mut = name not in ("stat", "listdir", "scandir")
        w.point(name, p, mut); w.fail(name, p, list(errs))
        if name in ("truncate", "ftruncate"):
            q = w.fdinfo.get(p, p) if isinstance(p, int) else p
            w.dirty_before(_real["stat"](q).st_ino, w.raw_read(q)); x = _real[name](a, *r, **k); w.mutated(q); return x
        gone = w.ino_to_go(p) if name in ("unlink", "remove") else None
        x = _real[name](a, *r, **k); w.durable.pop(gone, None)
        if mut and name != "fsync":
            w.mutated(p if isinstance(p, str) else None)
        return x
    return f


class _Scan:
    def __init__(self, it):
        self.l = sorted(it, key=lambda e: e.name); it.close(); self.i = iter(self.l)
    def __iter__(self): return self
    def __next__(self): return next(self.i)
    def __enter__(self): return self
    def __exit__(self, *a): pass
    def close(self): pass


def s_listdir(path="."):
    w, p = _sim(path)
    if w:
        w.point("listdir", p, False)
    return sorted(_real["listdir"](path))


def s_scandir(path="."):
    w, p = _sim(path)
    if w:
        w.point("listdir", p, False)
    return _Scan(_real["scandir"](path))


class SimRaw(io.RawIOBase):
    """A file of the simulated disk, below Python's own buffering."""
    def __init__(self, fd, name, mode, closefd=True):
        self._fd = fd; self.name = name; self._m = mode; self._closefd = closefd; self.task = W.current
    @property
    def mode(self): return self._m
    def fileno(self): self._chk(); return self._fd
    def _chk(self):
        if self.closed: raise ValueError("I/O operation on closed file.")
    def readable(self): return "r" in self._m or "+" in self._m
    def writable(self): return any(c in self._m for c in "wax+")
    def seekable(self): return True
    def isatty(self): return False
    def _gone(self):
        return self.task is not None and self.task.dead
    def readinto(self, b):
        self._chk(); d = os.read(self._fd, len(b)); b[: len(d)] = d; return len(d)
    def write(self, b):
        if self._gone():
            return len(b)          # a dead process flushes nothing
        self._chk(); return os.write(self._fd, bytes(b))
    def seek(self, o, whence=0): self._chk(); return _real["lseek"](self._fd, o, whence)
    def tell(self): self._chk(); return _real["lseek"](self._fd, 0, 1)
    def truncate(self, n=None):
        if n is None: n = self.tell()
        os.ftruncate(self._fd, n); return n
    def close(self):
        if not self.closed:
            super().close()
            if self._closefd and not self._gone() and self._fd in W.fdinfo:
                os.close(self._fd)


def s_io_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    w, p = _sim(file) if not isinstance(file, bool) else (None, None)
    if not w:
        return _real_io_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    m = set(mode); plain = "".join(c for c in mode if c in "rwax+"); acc = os.O_RDWR if "+" in m else os.O_RDONLY if "r" in m else os.O_WRONLY
    fl = acc | os.O_CLOEXEC | (os.O_CREAT | os.O_TRUNC if "w" in m else os.O_CREAT | os.O_APPEND if "a" in m else os.O_CREAT | os.O_EXCL if "x" in m else 0)
    if isinstance(file, int):
        fd = file
    elif opener:
        fd = opener(file, fl)
        if fd not in w.fdinfo:
            w.fdinfo[fd] = p; w.current.fds.add(fd)
    else:
        if _isdir(p):
            raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), file)
        fd = os.open(p, fl, 0o666)
    raw = SimRaw(fd, file, plain, closefd)
    if "a" in m:
        _real["lseek"](fd, 0, 2)
    if buffering == 0:
        return raw
    size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
    buf = io.BufferedRandom(raw, size) if "+" in m else io.BufferedReader(raw, size) if "r" in m else io.BufferedWriter(raw, size)
    if "b" in m:
        return buf
    t = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, buffering == 1); t.mode = mode; return t


class _Out:
    """stdout/stderr of the task that writes."""
    def __init__(self, real, attr): self._r = real; self._a = attr; self.encoding = "utf-8"; self.errors = "strict"
    def _t(self):
        w = W
        return getattr(w.current, self._a) if w and w.current and threading.current_thread() is w.current.thread else self._r
    def write(self, s): return self._t().write(s)
    def flush(self): pass
    def isatty(self): return False
    def fileno(self): raise io.UnsupportedOperation("fileno")
    def writable(self): return True


class _Names:
    def __iter__(self): return self
    def __next__(self):
        W.tmpn += 1; return f"sim{W.tmpn:05d}"


def install(w):
    """Patch the process-wide seams for world w (called once, in the forked child of a run)."""
    global W
    W = w
    os.open, os.close, os.write, os.read, os.fsync, os.fdatasync = s_open, s_close, s_write, s_read, s_fsync, s_fsync
    for n in ("replace", "rename", "link", "symlink"):
        setattr(os, n, _two(n))
    os.unlink = os.remove = _one("unlink", [errno.EIO]); os.rmdir = _one("rmdir"); os.mkdir = _one("mkdir", [errno.ENOSPC]); os.stat = _one("stat")
    os.truncate = _one("truncate"); os.ftruncate = _one("ftruncate"); os.listdir = s_listdir; os.scandir = s_scandir; os.utime = _one("utime"); os.chmod = _one("chmod")
    io.open = builtins.open = s_io_open
    os.getpid = lambda: w.current.pid if w.current else _real["getpid"]()
    os.urandom = lambda n: w.urand.randbytes(n)
    _time.time = lambda: w.clock() / 1e9; _time.time_ns = lambda: w.clock()
    _time.monotonic = _time.perf_counter = lambda: (w.now_ns - w.t0) / 1e9; _time.monotonic_ns = lambda: w.now_ns - w.t0

    def sleep(s):
        w.now_ns += int(s * 1e9); w.point("sleep")
    _time.sleep = sleep
    import shutil, tempfile
    for n in ("_USE_CP_SENDFILE", "_USE_CP_COPY_FILE_RANGE"):
        if hasattr(shutil, n):
            setattr(shutil, n, False)
    tempfile._get_candidate_names = lambda: _Names()
    sys.stdout = _Out(_real_io_open(os.devnull, "w"), "out"); sys.stderr = _Out(_real_io_open(os.devnull, "w"), "err")
