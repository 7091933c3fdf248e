"""Simulated file system and console.

Paths below ``/sim`` live in memory; everything that creates, writes, renames or removes files there goes through
``SimFS`` operations, which are counted so that a fault can be placed on any one of them.  Python's own buffering
layers (io.BufferedWriter, io.TextIOWrapper) are the real ones on top of a simulated raw file, so short and interrupted
raw writes meet the real retry logic.  Paths elsewhere may only be read.
"""
import builtins, errno, io, os, posixpath, stat as _stat
from .core import HarnessError, SimCrash, SimInterrupt, SIM

ROOT = "/sim"
FD0 = 1 << 20

KINDS = ("enospc", "eio", "eacces", "short", "short_enospc", "eintr", "interrupt", "crash", "full")


class Node:
    __slots__ = ("dir", "data", "children", "mtime")

    def __init__(self, d=False):
        self.dir = d
        self.data = None if d else bytearray()
        self.children = {} if d else None
        self.mtime = 0.0


class Raw(io.RawIOBase):
    """One open file description."""

    def __init__(self, fs, node, path, mode):
        super().__init__()
        self.fs, self.node, self.path = fs, node, path
        self._r, self._w, self._a = mode
        self.pos = 0
        self._closed_ok = False
        self.name = path
        self.mode = "rb+" if self._r and self._w else "wb" if self._w else "rb"
        fs.handles.append(self)

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def isatty(self):
        return False

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def readinto(self, b):
        self.fs.op("read", self.path)
        if not self._r:
            raise io.UnsupportedOperation("not readable")
        chunk = bytes(self.node.data[self.pos:self.pos + len(b)])
        b[:len(chunk)] = chunk
        self.pos += len(chunk)
        return len(chunk)

    def write(self, b):
        if not self._w:
            raise io.UnsupportedOperation("not writable")
        data = bytes(b)
        try:
            n = self.fs.op("write", self.path, len(data))
        except SimCrash:
            n = self.fs.torn          # a torn write: a prefix reached the disk
            self.fs.torn = 0
            if n:
                p = len(self.node.data) if self._a else self.pos
                self.node.data[p:p + n] = data[:n]
            raise
        if self._a:
            self.pos = len(self.node.data)
        n = len(data) if n is None else n
        n, err = self.fs.room(self.node, self.pos, n)
        if n or not err:
            d = self.node.data
            if self.pos > len(d):
                d.extend(b"\0" * (self.pos - len(d)))
            d[self.pos:self.pos + n] = data[:n]
            self.pos += n
            self.node.mtime = SIM.clock.now
            return n
        raise err

    def seek(self, off, whence=0):
        self.pos = max(0, {0: 0, 1: self.pos, 2: len(self.node.data)}[whence] + off)
        return self.pos

    def tell(self):
        return self.pos

    def truncate(self, size=None):
        self.fs.op("truncate", self.path)
        size = self.pos if size is None else size
        d = self.node.data
        if size < len(d):
            del d[size:]
        else:
            d.extend(b"\0" * (size - len(d)))
        return size

    def close(self):
        if not self._closed_ok:
            self._closed_ok = True
            try:
                if self._w and not self.fs.dead:
                    self.fs.op("close", self.path)
            finally:
                super().close()
        else:
            super().close()


class SimFS:
    def __init__(self, cwd="/sim/work"):
        self.root = Node(True)
        self.cwd = cwd
        self.handles = []
        self.fds = {}
        self.count = 0
        self.trace = []
        self.fault = None          # {"kind", "at", ("persist")}
        self.fired = None
        self.dead = False
        self.capacity = None
        self.torn = 0
        self.queue = []            # follow-up error of a short write
        self.outside = []
        p = ""
        for part in cwd.strip("/").split("/")[1:]:
            p += "/" + part
            self.mk(ROOT + p)

    # -- fault control
    def arm(self, fault):
        self.fault, self.fired, self.count, self.trace, self.queue = fault, None, 0, [], []
        if fault and fault["kind"] == "full":
            self.capacity = self.used() + fault["room"]

    def disarm(self):
        self.fault, self.queue, self.dead, self.capacity = None, [], False, None

    def reboot(self):
        """A new process starts: open files are gone, what reached the simulated disk stays."""
        self.disarm()
        self.handles, self.fds = [], {}
        self.cwd = "/sim/work"

    def used(self):
        def size(n):
            return sum(size(c) for c in n.children.values()) if n.dir else len(n.data)
        return size(self.root)

    def room(self, node, pos, n):
        if self.capacity is None:
            return n, None
        grow = max(0, pos + n - len(node.data))
        free = max(0, self.capacity - self.used())
        if grow <= free:
            return n, None
        self.note("full")
        n = max(0, n - (grow - free))
        return n, OSError(errno.ENOSPC, "No space left on device (simulated)")

    def note(self, kind, what=None):
        if self.fired is None or self.fired[0] != kind:
            SIM.fault("fs:" + kind)
        self.fired = (kind, what)

    def op(self, name, path, size=0):
        """Counted operation; returns how many bytes a write may take (None: all)."""
        if self.dead:
            raise SimCrash("process is gone")
        if self.queue and name == "write":
            raise self.queue.pop(0)
        self.count += 1
        self.trace.append(name)
        f = self.fault
        if not f or f["kind"] == "full":
            return None
        if name not in f.get("on", ("open", "mkdir", "write", "close", "replace", "remove", "truncate")):
            return None
        f["seen"] = f.get("seen", 0) + 1
        if f["seen"] != f["at"]:
            return None
        k = f["kind"]
        self.note(k, (name, path))
        SIM.log("fs-fault", k, name, self.count)
        if k in ("short", "short_enospc"):
            if name != "write":
                if k == "short":
                    return None
                k = "enospc"
            elif size > 1:
                if k == "short_enospc":
                    self.queue.append(OSError(errno.ENOSPC, "No space left on device (simulated)"))
                return max(1, int(size * f.get("part", 0.5)))
            elif k == "short":
                return None
            else:
                k = "enospc"
        if k == "eintr":
            if name == "write":
                raise InterruptedError(errno.EINTR, "Interrupted system call (simulated)")
            return None
        if k == "interrupt":
            raise SimInterrupt()
        if k == "crash":
            self.dead = True
            if name == "write" and size:
                self.torn = int(size * f.get("part", 0.5))
            raise SimCrash(f"crash at {name}")
        e = {"enospc": errno.ENOSPC, "eio": errno.EIO, "eacces": errno.EACCES}[k]
        raise OSError(e, os.strerror(e) + " (simulated)", path)

    # -- tree
    def abspath(self, p):
        p = os.fspath(p)
        if isinstance(p, bytes):
            p = p.decode()
        return posixpath.normpath(p if p.startswith("/") else posixpath.join(self.cwd, p))

    def inside(self, p):
        a = self.abspath(p)
        return a == ROOT or a.startswith(ROOT + "/")

    def lookup(self, a):
        n = self.root
        for part in a[len(ROOT):].strip("/").split("/"):
            if not part:
                continue
            if not n.dir:
                raise NotADirectoryError(errno.ENOTDIR, "Not a directory", a)
            if part not in n.children:
                raise FileNotFoundError(errno.ENOENT, "No such file or directory", a)
            n = n.children[part]
        return n

    def parent(self, a):
        d, b = posixpath.split(a)
        n = self.lookup(d)
        if not n.dir:
            raise NotADirectoryError(errno.ENOTDIR, "Not a directory", a)
        return n, b

    def mk(self, a):
        n, b = self.parent(a)
        if b in n.children:
            raise FileExistsError(errno.EEXIST, "File exists", a)
        n.children[b] = Node(True)

    def read(self, p):
        """Content for the oracle (no fault, no counting); None if it does not exist."""
        try:
            n = self.lookup(self.abspath(p))
        except OSError:
            return None
        return None if n.dir else bytes(n.data)

    def put(self, p, data):
        n, b = self.parent(self.abspath(p))
        f = n.children[b] = Node()
        f.data[:] = data

    def files(self):
        out = {}

        def walk(n, p):
            for k, c in n.children.items():
                if c.dir:
                    walk(c, p + "/" + k)
                else:
                    out[p + "/" + k] = bytes(c.data)
        walk(self.root, ROOT)
        return out

    def open_handles(self):
        return [h.path for h in self.handles if not h.closed and h._w]

    # -- calls
    def open_raw(self, p, mode):
        a = self.abspath(p)
        self.op("open" if mode[0] != "r" or "+" in mode else "openr", a)
        x, up = mode.replace("b", "").replace("t", "")[0], "+" in mode
        par, b = self.parent(a)
        node = par.children.get(b)
        if node is not None and node.dir:
            raise IsADirectoryError(errno.EISDIR, "Is a directory", a)
        if x == "r":
            if node is None:
                raise FileNotFoundError(errno.ENOENT, "No such file or directory", a)
        elif x == "x" and node is not None:
            raise FileExistsError(errno.EEXIST, "File exists", a)
        elif node is None:
            node = par.children[b] = Node()
        elif x == "w":
            del node.data[:]
        raw = Raw(self, node, a, (x == "r" or up, x != "r" or up, x == "a"))
        if x == "a":
            raw.pos = len(node.data)
        return raw

    def wrap(self, raw, mode, buffering, encoding, errors, newline):
        up = "+" in mode
        if buffering == 0:
            if "b" not in mode:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        size = 8192 if buffering in (-1, 1) else buffering
        buf = io.BufferedRandom(raw, size) if up else io.BufferedReader(raw, size) if raw._r else io.BufferedWriter(raw, size)
        if "b" in mode:
            return buf
        t = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, line_buffering=buffering == 1)
        t.mode = mode
        return t

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if isinstance(file, int):
            if file >= FD0:
                raw = self.fds.pop(file)
                return self.wrap(raw, mode, buffering, encoding, errors, newline)
            return REAL["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
        if not self.inside(file):
            if set(mode) & set("wax+"):
                self.outside.append(str(file))
                raise PermissionError(errno.EACCES, "outside the simulated disk", str(file))
            return REAL["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
        return self.wrap(self.open_raw(file, mode), mode, buffering, encoding, errors, newline)

    def os_open(self, path, flags, mode=0o777, *, dir_fd=None):
        if not self.inside(path):
            if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
                self.outside.append(str(path))
                raise PermissionError(errno.EACCES, "outside the simulated disk", str(path))
            return REAL["os_open"](path, flags, mode, dir_fd=dir_fd)
        acc = flags & (os.O_WRONLY | os.O_RDWR)
        if flags & os.O_CREAT and flags & os.O_EXCL:
            m = "x"
        elif flags & os.O_APPEND:
            m = "a"
        elif flags & os.O_TRUNC:
            m = "w"
        elif acc:
            if flags & os.O_CREAT and self.read(path) is None:
                m = "x"
            else:
                m = "r+"
        else:
            m = "r"
        raw = self.open_raw(path, m + ("+" if acc == os.O_RDWR and "+" not in m else ""))
        fd = FD0 + len(self.handles)
        self.fds[fd] = raw
        return fd

    def mkdir(self, path, mode=0o777, *, dir_fd=None):
        if not self.inside(path):
            self.outside.append(str(path))
            raise PermissionError(errno.EACCES, "outside the simulated disk", str(path))
        self.op("mkdir", str(path))
        self.mk(self.abspath(path))

    def stat(self, path, *, dir_fd=None, follow_symlinks=True):
        if isinstance(path, int) and path >= FD0:
            n = self.fds[path].node
        elif isinstance(path, int) or not self.inside(path):
            return REAL["stat"](path, dir_fd=dir_fd, follow_symlinks=follow_symlinks)
        else:
            n = self.lookup(self.abspath(path))
        m = (_stat.S_IFDIR | 0o755) if n.dir else (_stat.S_IFREG | 0o644)
        return os.stat_result((m, id(n) & 0xffffff, 1, 1, 0, 0, 0 if n.dir else len(n.data), int(n.mtime), int(n.mtime), int(n.mtime)))

    def listdir(self, path="."):
        if not self.inside(path):
            return REAL["listdir"](path)
        n = self.lookup(self.abspath(path))
        if not n.dir:
            raise NotADirectoryError(errno.ENOTDIR, "Not a directory", path)
        return list(n.children)

    def unlink(self, path, *, dir_fd=None):
        if not self.inside(path):
            self.outside.append(str(path))
            raise PermissionError(errno.EACCES, "outside the simulated disk", str(path))
        self.op("remove", str(path))
        n, b = self.parent(self.abspath(path))
        if b not in n.children:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", path)
        del n.children[b]

    def rename(self, src, dst, *, src_dir_fd=None, dst_dir_fd=None):
        if not (self.inside(src) and self.inside(dst)):
            self.outside.append(f"{src}->{dst}")
            raise PermissionError(errno.EACCES, "outside the simulated disk", str(src))
        self.op("replace", str(dst))
        n, b = self.parent(self.abspath(src))
        m, c = self.parent(self.abspath(dst))
        if b not in n.children:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", src)
        x = n.children.pop(b)
        m.children[c] = x

    def chdir(self, path):
        if not self.inside(path):
            self.outside.append("chdir " + str(path))
            raise PermissionError(errno.EACCES, "outside the simulated disk", str(path))
        self.op("chdir", str(path))
        a = self.abspath(path)
        if not self.lookup(a).dir:
            raise NotADirectoryError(errno.ENOTDIR, "Not a directory", path)
        self.cwd = a

    def getcwd(self):
        return self.cwd

    def access(self, path, mode, **k):
        if not self.inside(path):
            return REAL["access"](path, mode, **k)
        try:
            self.lookup(self.abspath(path))
            return True
        except OSError:
            return False

    def os_write(self, fd, data):
        return self.fds[fd].write(data) if fd >= FD0 else REAL["os_write"](fd, data)

    def os_close(self, fd):
        return self.fds.pop(fd).close() if fd >= FD0 else REAL["os_close"](fd)

    def fsync(self, fd):
        if fd >= FD0:
            self.op("fsync", "")
            return None
        return REAL["fsync"](fd)

    def truncate(self, path, length):
        if isinstance(path, int):
            return self.fds[path].truncate(length)
        if not self.inside(path):
            raise PermissionError(errno.EACCES, "outside the simulated disk", str(path))
        self.op("truncate", str(path))
        d = self.lookup(self.abspath(path)).data
        if length < len(d):
            del d[length:]
        else:
            d.extend(b"\0" * (length - len(d)))

    # -- installation for one block
    def __enter__(self):
        if SIM.fs is not None:
            raise HarnessError("nested SimFS")
        SIM.fs = self
        if not REAL:
            REAL.update(open=builtins.open, os_open=os.open, stat=os.stat, listdir=os.listdir, access=os.access, os_write=os.write,
                        os_close=os.close, fsync=os.fsync, mkdir=os.mkdir, unlink=os.unlink, remove=os.remove, rename=os.rename,
                        replace=os.replace, chdir=os.chdir, getcwd=os.getcwd, lstat=os.lstat, truncate=os.truncate, rmdir=os.rmdir)
        builtins.open = io.open = self.open
        os.open, os.stat, os.lstat, os.listdir, os.access = self.os_open, self.stat, self.stat, self.listdir, self.access
        os.mkdir, os.unlink, os.remove, os.rename, os.replace, os.chdir, os.getcwd = (
            self.mkdir, self.unlink, self.unlink, self.rename, self.rename, self.chdir, self.getcwd)
        os.write, os.close, os.fsync, os.truncate, os.rmdir = self.os_write, self.os_close, self.fsync, self.truncate, self.unlink
        return self

    def __exit__(self, *a):
        builtins.open = io.open = REAL["open"]
        os.open, os.write, os.close = REAL["os_open"], REAL["os_write"], REAL["os_close"]
        for k in ("stat", "lstat", "listdir", "access", "fsync", "mkdir", "unlink", "remove", "rename", "replace", "chdir", "getcwd", "truncate", "rmdir"):
            setattr(os, k, REAL[k])
        SIM.fs = None


REAL = {}
