"""Simulated storage.

A scratch directory holds what a surviving kernel would show (every completed system call applied);
every mutating call below it is intercepted, counted, logged with its data, and may be failed, cut short
or made the last thing the process ever does. The log is enough to rebuild what could be on the medium
after a power loss: data not yet fsynced may be lost, torn or punched with holes; directory changes are
journaled in order and committed by any later fsync. Python's own buffered I/O runs for real on top.
"""
import builtins, errno, io, os, shutil, stat
from . import proc

REAL = dict(open=io.open, os_open=os.open, close=os.close, write=os.write, fsync=os.fsync, fdatasync=os.fdatasync,
            rename=os.rename, replace=os.replace, unlink=os.unlink, remove=os.remove, mkdir=os.mkdir, link=os.link,
            ftruncate=os.ftruncate, truncate=os.truncate, read=os.read, rmdir=os.rmdir)


def snapshot(root):
    img = {}
    for d, _, fs in os.walk(root):
        img[os.path.relpath(d, root) + "/"] = None
        for f in fs:
            p = os.path.join(d, f)
            with REAL["open"](p, "rb") as h:
                img[os.path.relpath(p, root)] = h.read()
    return img


def restore(root, img):
    """Make root (a scratch directory created by the simulator) contain exactly img."""
    assert "/verif_sim_" in root
    for n in os.listdir(root):
        p = os.path.join(root, n)
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p)
        else:
            REAL["unlink"](p)
    for n, c in sorted(img.items()):
        if c is None:
            os.makedirs(os.path.join(root, n), exist_ok=True)
    for n, c in sorted(img.items()):
        if c is not None:
            p = os.path.join(root, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with REAL["open"](p, "wb") as h:
                h.write(c)


class _Raw(io.FileIO):
    """Unbuffered file whose every system call goes through the simulated disk."""
    def __init__(self, disk, file, mode, closefd=True, opener=None):
        self._d = disk
        self._ino = None
        path = file if not isinstance(file, int) else None
        writing = any(c in mode for c in "wax+")
        existed = size = None
        if path is not None:
            ap = disk.abs(path)
            existed = os.path.exists(ap)
            if writing and opener is None:
                disk.op("open", ap, write=True)
            elif not writing:
                disk.rop("open", ap)
        self._fromfd = path is None or opener is not None
        io.FileIO.__init__(self, file, mode, closefd, opener)
        if path is not None and opener is None:
            self._path = ap
            self._ino = disk.ino_of(ap, self.fileno(), fresh=not existed)
            if writing:
                if not existed:
                    disk.log.append(("create", disk.rel(ap), self._ino))
                    disk.published("create", ap)
                elif "w" in mode:
                    disk.log.append(("trunc", self._ino, 0))
                    disk.published("trunc", ap)
        else:
            self._ino = disk.fds.get(self.fileno(), (None, None))[1]
            self._path = disk.fds.get(self.fileno(), ("?", None))[0]
        self._append = "a" in mode
        disk.fds[self.fileno()] = (self._path, self._ino)

    def write(self, b):
        b = bytes(b)
        off = os.fstat(self.fileno()).st_size if self._append else self.tell()

        def apply(part):
            n = io.FileIO.write(self, part)
            self._d.log.append(("write", self._ino, off, part[:n]))
            return n
        return self._d.wop(self._path, b, apply)

    def readinto(self, buf):
        lim = self._d.rop("read", self._path, len(buf))
        if lim is not None and lim < len(buf):
            data = io.FileIO.read(self, lim)
            buf[:len(data)] = data
            return len(data)
        return io.FileIO.readinto(self, buf)

    def readall(self):
        out = []
        while True:
            d = self.read(65536)
            if not d:
                return b"".join(out)
            out.append(d)

    def read(self, n=-1):
        if n is None or n < 0:
            return self.readall()
        lim = self._d.rop("read", self._path, n)
        return io.FileIO.read(self, n if lim is None else min(n, lim))

    def truncate(self, size=None):
        size = self.tell() if size is None else size
        self._d.op("truncate", self._path)
        r = io.FileIO.truncate(self, size)
        self._d.log.append(("trunc", self._ino, size))
        return r

    def close(self):
        if not self.closed:
            try:
                self._d.fds.pop(self.fileno(), None)
            except ValueError:
                pass
        io.FileIO.close(self)


class Disk:
    def __init__(self, root, stats=None):
        self.root = os.path.realpath(root)
        self.base = snapshot(self.root)
        self.log = []                 # applied mutations, in order
        self.n = 0                    # mutating operations attempted
        self.rn = 0                   # reading operations attempted
        self.kinds = []               # kind of each mutating operation
        self.faults = {}              # operation index -> fault
        self.rfaults = {}
        self.sticky = None            # errno of every further write-side operation
        self.fds = {}
        self.inos = {}
        self.next = 0
        self.stats = stats
        self.on_op = None             # callback(kind, path) before a mutating operation (scheduling point)
        self.on_publish = None        # callback(path) when a directory entry starts to show new content
        self.armed = True
        self.crash_payload = None     # callable giving what the simulator keeps at a crash
        self.op_calls = 0
        for n, c in self.base.items():
            if c is not None:
                self._reg(os.path.join(self.root, n))

    def _reg(self, path):
        st = os.stat(path)
        self.inos[(st.st_dev, st.st_ino)] = self.next
        self.next += 1
        return self.next - 1

    # -- paths
    def abs(self, p):
        p = os.fspath(p)
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.abspath(p)
        return os.path.join(os.path.realpath(os.path.dirname(p)), os.path.basename(p))

    def rel(self, p):
        return os.path.relpath(p, self.root)

    def inside(self, p):
        if isinstance(p, int):
            return p in self.fds
        try:
            return (self.abs(p) + "/").startswith(self.root + "/")
        except TypeError:
            return False

    def ino_of(self, path, fd=None, fresh=False):
        """Simulated inode number (real ones are reused after a file is replaced)."""
        st = os.fstat(fd) if fd is not None else os.stat(path)
        k = (st.st_dev, st.st_ino)
        if k in self.inos and not fresh:
            return self.inos[k]
        self.inos[k] = self.next
        self.next += 1
        return self.inos[k]

    def published(self, kind, path):
        if self.on_publish:
            self.on_publish(kind, path)

    # -- fault machinery
    def _fire(self, kind, path, f):
        if self.stats is not None:
            self.stats.faults["%s:%s" % (f["kind"] if f["kind"] != "err" else f["errno"], kind)] += 1
        if f["kind"] == "kill":
            proc.die(self.crash_payload() if self.crash_payload else None)
        if f["kind"] == "err":
            if f.get("sticky"):
                self.sticky = f["errno"]
            raise OSError(getattr(errno, f["errno"]), os.strerror(getattr(errno, f["errno"])), path)

    def _count(self, kind, path):
        if self.on_op and self.armed:
            self.on_op(kind, path)
        i = self.n
        self.n += 1
        self.kinds.append(kind)
        if self.stats is not None:
            self.stats.events += 1
        return self.faults.get(i) if self.armed else None

    def op(self, kind, path, write=False):
        f = self._count(kind, path)
        if self.sticky and self.armed:
            raise OSError(getattr(errno, self.sticky), os.strerror(getattr(errno, self.sticky)), path)
        if f and f["kind"] in ("kill", "err"):
            self._fire(kind, path, f)

    def wop(self, path, data, apply):
        f = self._count("write", path)
        if self.sticky and self.armed:
            raise OSError(getattr(errno, self.sticky), os.strerror(getattr(errno, self.sticky)), path)
        if f:
            k = f["kind"]
            if k == "kill":
                n = int(len(data) * f.get("frac", 0.0))
                if n:
                    apply(data[:n])
                self._fire("write", path, f)
            elif k == "err":
                self._fire("write", path, f)
            elif k == "short" and len(data) > 1:
                if self.stats is not None:
                    self.stats.faults["short:write"] += 1
                return apply(data[:max(1, int(len(data) * f.get("frac", 0.5)))])
            elif k == "eintr":
                if self.stats is not None:
                    self.stats.faults["EINTR:write"] += 1
                raise InterruptedError(errno.EINTR, "interrupted")
        return apply(data)

    def rop(self, kind, path, n=None):
        i = self.rn
        self.rn += 1
        if self.stats is not None:
            self.stats.events += 1
        f = self.rfaults.get(i) if self.armed else None
        if f:
            if f["kind"] == "err":
                self._fire(kind, path, f)
            if f["kind"] == "short" and n and n > 1:
                if self.stats is not None:
                    self.stats.faults["short:read"] += 1
                return max(1, int(n * f.get("frac", 0.5)))
        return None

    # -- patched entry points
    def install(self):
        d = self

        def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
            if not d.inside(file):
                return REAL["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
            m = set(mode)
            text = "b" not in m
            rawmode = "".join(c for c in mode if c in "rwax+")
            raw = _Raw(d, file, rawmode, closefd, opener)
            try:
                if buffering == 0 and not text:
                    return raw
                size = io.DEFAULT_BUFFER_SIZE if buffering in (-1, 1) else buffering
                if "+" in m:
                    buf = io.BufferedRandom(raw, size)
                elif m & set("wax"):
                    buf = io.BufferedWriter(raw, size)
                else:
                    buf = io.BufferedReader(raw, size)
                if not text:
                    return buf
                t = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
                t.mode = mode
                return t
            except BaseException:
                raw.close()
                raise

        def sim_os_open(path, flags, mode=0o777, *, dir_fd=None):
            if dir_fd is not None or not d.inside(path):
                return REAL["os_open"](path, flags, mode, dir_fd=dir_fd)
            ap = d.abs(path)
            existed = os.path.exists(ap)
            if existed and os.path.isdir(ap):
                fd = REAL["os_open"](path, flags, mode)
                d.fds[fd] = (ap, "dir")
                return fd
            if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
                d.op("open", ap)
            else:
                d.rop("open", ap)
            fd = REAL["os_open"](path, flags, mode)
            ino = d.ino_of(ap, fd, fresh=not existed)
            if not existed:
                d.log.append(("create", d.rel(ap), ino))
                d.published("create", ap)
            elif flags & os.O_TRUNC:
                d.log.append(("trunc", ino, 0))
                d.published("trunc", ap)
            d.fds[fd] = (ap, ino)
            return fd

        def sim_close(fd):
            d.fds.pop(fd, None)
            return REAL["close"](fd)

        def sim_write(fd, data):
            if fd not in d.fds:
                return REAL["write"](fd, data)
            path, ino = d.fds[fd]
            off = os.lseek(fd, 0, os.SEEK_CUR)

            def apply(part):
                n = REAL["write"](fd, part)
                d.log.append(("write", ino, off, bytes(part[:n])))
                return n
            while True:
                try:
                    return d.wop(path, bytes(data), apply)
                except InterruptedError:     # the interpreter retries interrupted calls by itself
                    continue

        def sim_read(fd, n):
            if fd in d.fds:
                lim = d.rop("read", d.fds[fd][0], n)
                n = n if lim is None else min(n, lim)
            return REAL["read"](fd, n)

        def mk_sync(name):
            def sim_sync(fd):
                f = fd if isinstance(fd, int) else fd.fileno()
                if f not in d.fds:
                    return REAL[name](fd)
                path, ino = d.fds[f]
                d.op("fsync", path)
                d.log.append(("fsync", ino))
            return sim_sync

        def mk_rename(name):
            def sim_rename(src, dst, *, src_dir_fd=None, dst_dir_fd=None):
                if not (d.inside(src) or d.inside(dst)):
                    return REAL[name](src, dst, src_dir_fd=src_dir_fd, dst_dir_fd=dst_dir_fd)
                d.op("rename", d.abs(dst))
                REAL[name](src, dst)
                d.log.append(("rename", d.rel(d.abs(src)), d.rel(d.abs(dst))))
                d.published("rename", d.abs(dst))
            return sim_rename

        def mk_unlink(name):
            def sim_unlink(path, *, dir_fd=None):
                if dir_fd is not None or not d.inside(path):
                    return REAL[name](path, dir_fd=dir_fd)
                d.op("unlink", d.abs(path))
                REAL[name](path)
                d.log.append(("unlink", d.rel(d.abs(path))))
            return sim_unlink

        def sim_mkdir(path, mode=0o777, *, dir_fd=None):
            if dir_fd is not None or not d.inside(path):
                return REAL["mkdir"](path, mode, dir_fd=dir_fd)
            if not os.path.exists(path):
                d.op("mkdir", d.abs(path))
            REAL["mkdir"](path, mode)
            d.log.append(("mkdir", d.rel(d.abs(path))))

        def sim_link(src, dst, **k):
            if not d.inside(dst):
                return REAL["link"](src, dst, **k)
            d.op("link", d.abs(dst))
            REAL["link"](src, dst, **k)
            d.log.append(("link", d.rel(d.abs(src)), d.rel(d.abs(dst))))
            d.published("link", d.abs(dst))

        def sim_ftruncate(fd, n):
            if fd not in d.fds:
                return REAL["ftruncate"](fd, n)
            d.op("truncate", d.fds[fd][0])
            REAL["ftruncate"](fd, n)
            d.log.append(("trunc", d.fds[fd][1], n))

        def sim_truncate(path, n):
            if not d.inside(path) or isinstance(path, int):
                return sim_ftruncate(path, n) if isinstance(path, int) else REAL["truncate"](path, n)
            d.op("truncate", d.abs(path))
            REAL["truncate"](path, n)
            d.log.append(("trunc", d.ino_of(path), n))

        builtins.open = io.open = sim_open
        os.open, os.close, os.write, os.read = sim_os_open, sim_close, sim_write, sim_read
        os.fsync, os.fdatasync = mk_sync("fsync"), mk_sync("fdatasync")
        os.rename, os.replace = mk_rename("rename"), mk_rename("replace")
        os.unlink, os.remove = mk_unlink("unlink"), mk_unlink("remove")
        os.mkdir, os.link, os.ftruncate, os.truncate = sim_mkdir, sim_link, sim_ftruncate, sim_truncate
        for n in ("_USE_CP_SENDFILE", "_USE_CP_COPY_FILE_RANGE"):
            if hasattr(shutil, n):
                setattr(shutil, n, False)
        return self

    def uninstall(self):
        builtins.open = io.open = REAL["open"]
        for n in ("close", "write", "read", "fsync", "fdatasync", "rename", "replace", "unlink", "remove", "mkdir", "link", "ftruncate", "truncate"):
            setattr(os, n, REAL[n])
        os.open = REAL["os_open"]
        return self


def power_loss(base, log, r, weak=False):
    """An image that may be on the medium if power fails after `log` was applied on top of `base`."""
    names, content, nxt = {}, {}, 0
    dirs = {n for n, c in base.items() if c is None}
    for n in [k for k, c in base.items() if c is not None]:     # same numbering as Disk.__init__
        names[n] = nxt
        content[nxt] = bytearray(base[n])
        nxt += 1
    meta = ("create", "rename", "unlink", "mkdir", "link")
    commit = -1
    for i, op in enumerate(log):
        if op[0] == "fsync":
            commit = i
    pend = [i for i, op in enumerate(log) if op[0] in meta and i > commit]
    keep_meta = set(pend[:r.randint(0, len(pend))])
    # data
    last_sync = {}
    for i, op in enumerate(log):
        if op[0] == "fsync":
            last_sync[op[1]] = i
    unsynced = {}
    for i, op in enumerate(log):
        if op[0] in ("write", "trunc"):
            ino = op[1]
            if i < last_sync.get(ino, -1):
                _apply(content, op)
            else:
                unsynced.setdefault(ino, []).append(op)
    lost = False
    for ino, ops in sorted(unsynced.items(), key=lambda kv: str(kv[0])):
        mode = r.choice(["none", "prefix", "holes", "all"])
        if mode == "none":
            sel = []
        elif mode == "all":
            sel = ops
        elif mode == "prefix":
            sel = ops[:r.randint(0, len(ops))]
            if sel and sel[-1][0] == "write":
                o = sel[-1]
                cut = (r.randint(0, len(o[3])) // 512) * 512
                sel = sel[:-1] + [("write", o[1], o[2], o[3][:cut])]
        else:
            sel = [o for o in ops if r.random() < 0.5]
        lost = lost or sel != ops
        for o in sel:
            _apply(content, o)
    for i, op in enumerate(log):
        if op[0] in meta and (i <= commit or i in keep_meta):
            if op[0] == "create":
                names[op[1]] = op[2]
            elif op[0] == "rename":
                if op[1] in names:
                    names[op[2]] = names.pop(op[1])
            elif op[0] == "link":
                if op[1] in names:
                    names[op[2]] = names[op[1]]
            elif op[0] == "unlink":
                names.pop(op[1], None)
            elif op[0] == "mkdir":
                dirs.add(op[1] + "/")
        elif op[0] in meta:
            lost = True
    img = {n: None for n in dirs}
    for n, ino in names.items():
        img[n] = bytes(content.get(ino, b""))
    return img, lost


def _apply(content, op):
    c = content.setdefault(op[1], bytearray())
    if op[0] == "trunc":
        if len(c) > op[2]:
            del c[op[2]:]
        else:
            c.extend(b"\0" * (op[2] - len(c)))
    else:
        _, _, off, data = op
        if len(c) < off:
            c.extend(b"\0" * (off - len(c)))
        c[off:off + len(data)] = data
