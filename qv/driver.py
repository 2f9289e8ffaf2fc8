"""Client for the C++ driver: unit commands and whole-program runs."""
import os, shutil, signal, struct, subprocess, tempfile, zlib

class DriverDied(Exception):
    """The driver process ended while it ran a unit command (crash, sanitiser
    report, failed assertion) or did not answer in time."""
    def __init__(self, msg):
        Exception.__init__(self, msg)
        self.msg = msg

class UnitUnavailable(Exception):
    """The adapter for this unit command could not be built for this tree."""

def b(x):
    if isinstance(x, bytes):
        return x
    if isinstance(x, (int,)):
        return str(int(x)).encode()
    return x.encode("utf-8", "surrogateescape")

def pack(*fields):
    """One argument that carries several."""
    return b"".join(struct.pack("<I", len(b(f))) + b(f) for f in fields)

def unpack(body):
    out, pos = [], 0
    while pos < len(body):
        (k,) = struct.unpack_from("<I", body, pos)
        pos += 4
        out.append(body[pos:pos + k])
        pos += k
    return out

class RunResult:
    __slots__ = ("missing", "kind", "code", "out", "err", "files", "cwd", "fields")
    def __init__(self, kind, code, out, err):
        self.kind, self.code, self.out, self.err = kind, code, out, err
        self.files = {}
    @property
    def crashed(self):
        return not (self.kind == "exit" and self.code in (0, 1))
    def describe(self):
        return "%s %s\nstdout: %s\nstderr: %s" % (
            self.kind, self.code, self.out[-1500:].decode("utf-8", "replace"),
            self.err[-3000:].decode("utf-8", "replace"))

SCRATCH_BASES = ["/dev/shm", "/tmp"]

def scratch_root():
    for d in SCRATCH_BASES:
        if os.path.isdir(d) and os.access(d, os.W_OK):
            try:
                st = os.statvfs(d)
                if st.f_bavail * st.f_frsize > 200 << 20:
                    return d
            except OSError:
                pass
    return tempfile.gettempdir()

class Driver:
    UID = 65534
    def __init__(self, path, unit_timeout=20, asan=""):
        self.path = path
        self.asan = asan
        self.proc = None
        self.unit_timeout = unit_timeout
        self.scratch = tempfile.mkdtemp(prefix="qv-", dir=scratch_root())
        os.chmod(self.scratch, 0o711)
        self.seq = 0
        self.errfile = os.path.join(self.scratch, "driver.err")
        self.known = None
        self.dead_count = 0

    def start(self):
        env = {k: v for k, v in os.environ.items()
               if k in ("PATH", "HOME", "LD_LIBRARY_PATH")}
        env.update({
            "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:"
                            "allocator_may_return_null=1:detect_stack_use_after_return=0:symbolize=0" + self.asan,
            "UBSAN_OPTIONS": "print_stacktrace=0:halt_on_error=1:exitcode=98:symbolize=0",
            "LC_ALL": "C", "TZ": "UTC"})
        self.errf = open(self.errfile, "wb")
        self.proc = subprocess.Popen([self.path], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                     stderr=self.errf, env=env, cwd=self.scratch)
        self.fin = self.proc.stdin.fileno()
        self.fout = self.proc.stdout.fileno()

    def stop(self):
        if self.proc:
            try:
                self.proc.kill()
            except OSError:
                pass
            self.proc.wait()
            self.proc.stdin.close()
            self.proc.stdout.close()
            self.errf.close()
            self.proc = None

    def close(self):
        self.stop()
        shutil.rmtree(self.scratch, ignore_errors=True)

    def _read(self, n, timeout):
        import select, time
        end = time.monotonic() + timeout
        parts = []
        while n:
            left = end - time.monotonic()
            if left <= 0:
                raise TimeoutError()
            r, _, _ = select.select([self.fout], [], [], left)
            if not r:
                raise TimeoutError()
            c = os.read(self.fout, min(n, 1 << 20))
            if not c:
                raise EOFError()
            parts.append(c)
            n -= len(c)
        return b"".join(parts)

    def request(self, fields, timeout):
        if self.proc is None:
            self.start()
        body = b"".join(struct.pack("<I", len(f)) + f for f in fields)
        data = struct.pack("<I", len(body)) + body
        try:
            view = memoryview(data)
            while view:
                k = os.write(self.fin, view)
                view = view[k:]
            (n,) = struct.unpack("<I", self._read(4, timeout))
            body = self._read(n, timeout)
        except TimeoutError:
            self.stop()
            self.dead_count += 1
            raise DriverDied("no answer within %ss" % timeout)
        except (EOFError, BrokenPipeError):
            self.proc.wait()
            rc = self.proc.returncode
            self.stop()
            self.dead_count += 1
            with open(self.errfile, "rb") as f:
                err = f.read()[:3000].decode("utf-8", "replace")
            raise DriverDied("driver ended with %s: %s" % (rc, err))
        return unpack(body)

    def commands(self):
        if self.known is None:
            self.known = set(x.decode() for x in self.request([b"commands"], 60)[1:])
        return self.known

    def unit(self, cmd, *args, timeout=None):
        """Runs a unit command; returns the list of result fields.  A C++
        exception is returned as the tuple ('exception', what)."""
        r = self.request([b(cmd)] + [b(a) for a in args], timeout or self.unit_timeout)
        if r[0] == b"ok":
            return r[1:]
        if r[0] == b"unknown":
            raise UnitUnavailable(cmd)
        return ("exception", r[1].decode("utf-8", "replace"))

    # -- whole program -------------------------------------------------
    def fresh_dir(self):
        self.seq += 1
        d = os.path.join(self.scratch, "r%d" % self.seq)
        os.mkdir(d)
        os.chmod(d, 0o777)
        return d

    def write_tree(self, d, files):
        for name, data in files.items():
            p = os.path.join(d, name)
            pd = os.path.dirname(p)
            if pd != d and not os.path.isdir(pd):
                q = d
                for part in os.path.relpath(pd, d).split("/"):
                    q = os.path.join(q, part)
                    if not os.path.isdir(q):
                        os.mkdir(q)
                        os.chmod(q, 0o777)
            if data is None:
                if not os.path.isdir(p):
                    os.mkdir(p)
                    os.chmod(p, 0o777)
                continue
            if isinstance(data, tuple):     # ("link", target)
                os.symlink(data[1], p)
                continue
            with open(p, "wb") as f:
                f.write(b(data))
            os.chmod(p, 0o666)

    def run_in(self, d, args, timeout=20, stir=None):
        r = self.request([b"run" if stir is None else b"run:%d" % stir, b(d), b(int(timeout * 1000)), b(self.UID)] + [b(a) for a in args],
                         timeout + 30)
        res = RunResult(r[0].decode(), int(r[1]), r[2], r[3])
        res.cwd = d
        return res

    def collect_files(self, d, files, res):
        res.missing = [k for k, v in files.items() if v is not None and not os.path.exists(os.path.join(d, k))]
        for root, _, names in os.walk(d):
            for n in names:
                p = os.path.join(root, n)
                rel = os.path.relpath(p, d)
                try:
                    with open(p, "rb") as f:
                        data = f.read()
                except OSError:
                    continue
                if rel in files and files[rel] is not None and (isinstance(files[rel], tuple) or b(files[rel]) == data):
                    continue
                res.files[rel] = data

    def forked(self, files, cmd, *args, timeout=20):
        """A unit command in an unprivileged child that works in a fresh
        directory; RunResult whose `fields` is the list of results."""
        if cmd not in self.commands():
            raise UnitUnavailable(cmd)
        d = self.fresh_dir()
        try:
            self.write_tree(d, files)
            r = self.request([b"forked", b(d), b(int(timeout * 1000)), b(self.UID), b(cmd)]
                             + [b(a) for a in args], timeout + 30)
            res = RunResult(r[0].decode(), int(r[1]), r[2], r[3])
            res.cwd = d
            if res.kind == "exit" and res.code == 0:
                res.fields = unpack(res.out)
            elif res.kind == "exit" and res.code == 77:
                res.fields = ("exception", res.out.decode("utf-8", "replace"))
            else:
                res.fields = None
            self.collect_files(d, files, res)
            return res
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def run(self, files, args, timeout=20, collect=True, subdir=None, stir=None, subst=False):
        """Writes `files` into a fresh directory, runs quickbook there with
        `args` (argv without argv[0]) and returns the result with every file
        that exists afterwards and was not there, or changed.  @CWD@ is the
        directory in the arguments, and with `subst` also in the files."""
        if stir is None:
            # a memory state that depends on the case only
            stir = zlib.crc32(repr((sorted(files.items()), args)).encode("utf-8", "replace")) % 997 + 1
        d = self.fresh_dir()
        try:
            if subst:
                files = {k: b(v).replace(b"@CWD@", b(d)) if isinstance(v, (str, bytes)) else v for k, v in files.items()}
            self.write_tree(d, files)
            cwd = os.path.join(d, subdir) if subdir else d
            res = self.run_in(cwd, ["quickbook"] + [b(a).replace(b"@CWD@", b(cwd)) for a in args], timeout, stir)
            if collect:
                self.collect_files(d, files, res)
            return res
        finally:
            shutil.rmtree(d, ignore_errors=True)
