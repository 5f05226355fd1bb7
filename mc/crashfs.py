"""Records every change the code makes below a folder, makes operations fail, and enumerates what a crash can leave.

The operations are really made, in a scratch folder. What is recorded is the sequence of changes to names (create, rename,
unlink, mkdir) and to the content of files (write, truncate) and which content was forced to the disk (fsync). It is
recorded where Python enters the operating system, so it does not matter by which way the code gets there.
"""
import builtins
import io
import os

SAVED = {name: getattr(os, name) for name in (
    "open", "close", "write", "pwrite", "writev", "ftruncate", "truncate", "fsync", "fdatasync", "rename", "replace", "unlink", "remove", "mkdir",
    "rmdir", "link", "sendfile", "copy_file_range", "sync") if hasattr(os, name)}
OPEN = io.open


class Fault(OSError):
    """The operation failed"""


class _Raw(io.FileIO):
    """A file being written"""

    recorder = None

    def write(self, data):
        return self.recorder.written(self.fileno(), bytes(data), super().write)

    def truncate(self, size=None):
        size = self.tell() if size is None else size
        self.recorder.enter("truncate")
        self.recorder.log("truncate", self.recorder.fds[self.fileno()], size)
        return super().truncate(size)

    def close(self):
        if self.closed:
            return
        fd = self.fileno()
        try:
            super().close()
        finally:
            self.recorder.fds.pop(fd, None)
        self.recorder.enter("close")


class Recorder:
    """Everything below root is recorded. fault: (number of the operation, exception class, number of bytes written before)"""

    def __init__(self, root, fault=None):
        self.root = os.path.realpath(root)
        self.ops, self.names, self.fds, self.count, self.fault, self.fired = [], {}, {}, 0, fault, None
        self.entered = []
        self.next = 0
        for base, _dirs, files in os.walk(self.root):
            for name in files:
                self.names[os.path.join(base, name)] = self.new()

    def new(self):
        """A new file"""
        self.next += 1
        return self.next

    def inside(self, path):
        """Is this ours?"""
        if isinstance(path, int):
            return None
        path = os.path.join(os.path.realpath(os.path.dirname(os.path.abspath(os.fsdecode(path)))), os.path.basename(os.fsdecode(path)))
        return path if path.startswith(self.root + os.sep) or path == self.root else None

    def log(self, *operation):
        """It was done"""
        self.ops.append(operation)

    def enter(self, kind, size=0):
        """An operation that may fail. Returns how many bytes are to be written before that"""
        number = self.count
        self.count += 1
        self.entered.append((kind, size))
        if self.fault and self.fault[0] == number and (not self.fault[2] or kind == "write"):
            self.fired = kind
            if not self.fault[2]:
                raise self.fault[1]("operation failed: " + kind)
            return self.fault[2]
        return None

    def written(self, fd, data, write, offset=None):
        """Content is written to a file"""
        partial = self.enter("write", len(data))
        if offset is None:
            # O_APPEND moves to the end first
            import fcntl  # pylint: disable=import-outside-toplevel
            append = fcntl.fcntl(fd, fcntl.F_GETFL) & os.O_APPEND
            offset = os.fstat(fd).st_size if append else os.lseek(fd, 0, os.SEEK_CUR)
        if partial:
            data = data[:partial]
        done = write(data)
        self.log("write", self.fds[fd], offset, data[:done])
        if partial:
            raise self.fault[1]("operation failed: partial write")
        return done

    # pylint: disable=missing-function-docstring
    def os_open(self, path, flags, mode=0o777, *, dir_fd=None):
        mine = self.inside(path) if dir_fd is None else None
        if mine is None or not flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
            fd = SAVED["open"](path, flags, mode, dir_fd=dir_fd)
            if mine is not None:
                self.fds[fd] = self.names.get(mine)
            return fd
        self.enter("open")
        fd = SAVED["open"](path, flags, mode)
        if mine not in self.names:
            self.names[mine] = self.new()
            self.log("create", mine, self.names[mine])
        elif flags & os.O_TRUNC:
            self.log("truncate", self.names[mine], 0)
        self.fds[fd] = self.names[mine]
        return fd

    def io_open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        writing = any(c in mode for c in "wxa+")
        mine = self.fds.get(file) if isinstance(file, int) else self.inside(file)
        if mine is None or not writing:
            return OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
        binary = "b" in mode
        rawmode = "".join(c for c in mode if c in "rwxa+")
        raw = type("Raw", (_Raw,), {"recorder": self})(
            file, rawmode, closefd=closefd if isinstance(file, int) else True,
            opener=None if isinstance(file, int) else lambda path, flags: (opener or self.os_open)(path, flags, 0o666))
        if opener and raw.fileno() not in self.fds:
            self.fds[raw.fileno()] = self.names.setdefault(self.inside(file), self.new())
        if buffering == 0 and binary:
            return raw
        cls = io.BufferedRandom if "+" in rawmode else io.BufferedWriter
        buffered = cls(raw, buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE)
        if binary:
            return buffered
        text = io.TextIOWrapper(buffered, encoding, errors, newline, line_buffering=buffering == 1)
        text.mode = mode
        return text

    def os_close(self, fd):
        mine = fd in self.fds
        SAVED["close"](fd)
        if mine:
            del self.fds[fd]
            self.enter("close")

    def os_write(self, fd, data):
        if self.fds.get(fd) is None:
            return SAVED["write"](fd, data)
        return self.written(fd, bytes(data), lambda part: SAVED["write"](fd, part))

    def os_pwrite(self, fd, data, offset):
        if self.fds.get(fd) is None:
            return SAVED["pwrite"](fd, data, offset)
        return self.written(fd, bytes(data), lambda part: SAVED["pwrite"](fd, part, offset), offset)

    def os_writev(self, fd, buffers):
        return self.os_write(fd, b"".join(bytes(b) for b in buffers))

    def os_sendfile(self, out_fd, in_fd, offset, count, *_args, **_kwargs):
        if self.fds.get(out_fd) is None:
            return SAVED["sendfile"](out_fd, in_fd, offset, count)
        data = os.read(in_fd, count) if offset is None else os.pread(in_fd, count, offset)
        return self.os_write(out_fd, data) if data else 0

    def os_copy_file_range(self, src, dst, count, offset_src=None, offset_dst=None):
        if self.fds.get(dst) is None:
            return SAVED["copy_file_range"](src, dst, count, offset_src, offset_dst)
        data = os.read(src, count) if offset_src is None else os.pread(src, count, offset_src)
        return self.os_write(dst, data) if data else 0

    def os_ftruncate(self, fd, size):
        if self.fds.get(fd) is not None:
            self.enter("truncate")
            self.log("truncate", self.fds[fd], size)
        return SAVED["ftruncate"](fd, size)

    def os_truncate(self, path, size):
        mine = self.fds.get(path) if isinstance(path, int) else self.names.get(self.inside(path))
        if mine is not None:
            self.enter("truncate")
            self.log("truncate", mine, size)
        return SAVED["truncate"](path, size)

    def os_fsync(self, fd):
        fd = fd if isinstance(fd, int) else fd.fileno()
        if fd in self.fds:
            self.enter("fsync")
            self.log("fsync", self.fds[fd])
        return SAVED["fsync"](fd)

    def os_sync(self):
        self.enter("fsync")
        for ident in set(self.names.values()):
            self.log("fsync", ident)

    def os_rename(self, src, dst, **kwargs):
        source, target = self.inside(src), self.inside(dst)
        if source is not None or target is not None:
            self.enter("rename")
        SAVED["rename"](src, dst, **kwargs)
        if source is not None or target is not None:
            for name in [n for n in self.names if n == source or n.startswith(source + os.sep)]:
                self.names[target + name[len(source):]] = self.names.pop(name)
            self.log("rename", source, target)

    def os_unlink(self, path, *, dir_fd=None):
        mine = self.inside(path) if dir_fd is None else None
        if mine is not None:
            self.enter("unlink")
        SAVED["unlink"](path, dir_fd=dir_fd)
        if mine is not None:
            self.names.pop(mine, None)
            self.log("unlink", mine)

    def os_mkdir(self, path, mode=0o777, *, dir_fd=None):
        mine = self.inside(path) if dir_fd is None else None
        if mine is not None and os.path.isdir(os.path.dirname(mine)) and not os.path.exists(mine):
            self.enter("mkdir")
        SAVED["mkdir"](path, mode, dir_fd=dir_fd)
        if mine is not None:
            self.log("mkdir", mine)

    def os_rmdir(self, path, *, dir_fd=None):
        mine = self.inside(path) if dir_fd is None else None
        if mine is not None:
            self.enter("rmdir")
        SAVED["rmdir"](path, dir_fd=dir_fd)
        if mine is not None:
            self.log("rmdir", mine)

    def os_link(self, src, dst, **kwargs):
        source, target = self.inside(src), self.inside(dst)
        if target is not None:
            self.enter("link")
        SAVED["link"](src, dst, **kwargs)
        if target is not None:
            self.names[target] = self.names.get(source) or self.new()
            self.log("create", target, self.names[target])
    # pylint: enable=missing-function-docstring

    def __enter__(self):
        for name, function in SAVED.items():
            mine = {"replace": "rename", "remove": "unlink", "fdatasync": "fsync"}.get(name, name)
            setattr(os, name, getattr(self, "os_" + mine))
        io.open = builtins.open = self.io_open
        return self

    def __exit__(self, *_args):
        for name, function in SAVED.items():
            setattr(os, name, function)
        io.open = builtins.open = OPEN


NAMES = ("create", "rename", "unlink", "mkdir", "rmdir")


class Disk:
    """The content of the folder"""

    def __init__(self, names, content, folders):
        self.names, self.content, self.folders = dict(names), dict(content), set(folders)

    @classmethod
    def read(cls, recorder):
        """What is there when the recording starts"""
        content = {}
        for name, ident in recorder.names.items():
            with OPEN(name, "rb") as fd:
                content[ident] = fd.read()
        return cls(recorder.names, content, [base for base, _dirs, _files in os.walk(recorder.root)])

    def apply(self, operation):
        """One of the operations"""
        kind, *args = operation
        if kind == "create":
            self.names[args[0]] = args[1]
            self.content.setdefault(args[1], b"")
        elif kind == "rename":
            source, target = args
            for table in (self.names,):
                for name in [n for n in table if n == source or n.startswith(source + os.sep)]:
                    table[target + name[len(source):]] = table.pop(name)
            for name in [f for f in self.folders if f == source or f.startswith(source + os.sep)]:
                self.folders.discard(name)
                self.folders.add(target + name[len(source):])
        elif kind == "unlink":
            self.names.pop(args[0], None)
        elif kind == "mkdir":
            self.folders.add(args[0])
        elif kind == "rmdir":
            self.folders.discard(args[0])
        elif kind == "write":
            ident, offset, data = args
            old = self.content.get(ident, b"")
            old += bytes(max(0, offset - len(old)))
            self.content[ident] = old[:offset] + data + old[offset + len(data):]
        elif kind == "truncate":
            ident, size = args
            old = self.content.get(ident, b"")
            self.content[ident] = old[:size] + bytes(max(0, size - len(old)))

    def copy(self):
        """Another one"""
        return Disk(self.names, self.content, self.folders)

    def files(self):
        """{name: content}"""
        return {name: self.content.get(ident, b"") for name, ident in self.names.items()}


def stopped(disk, ops, number, step=1):
    """What is there when the process stops during operation number: every part of what it writes (in steps of step bytes)"""
    disk = disk.copy()
    for operation in ops[:number]:
        disk.apply(operation)
    yield disk.copy()
    if number < len(ops) and ops[number][0] == "write":
        kind, ident, offset, data = ops[number]
        for size in range(1, len(data), step):
            part = disk.copy()
            part.apply((kind, ident, offset, data[:size]))
            yield part


def powerless(disk, ops, number, step=1):
    """
    What can be there when the machine stops before operation number: any number of the changes to names, in order, and of the
    content of every file what was forced to the disk and any part of what came after that, in order, or as many zeros
    """
    ops = ops[:number]
    changes = [op for op in ops if op[0] in NAMES]
    streams, forced = {}, {}
    for op in ops:
        if op[0] in ("write", "truncate"):
            streams.setdefault(op[1], []).append(op)
        elif op[0] == "fsync":
            forced[op[1]] = len(streams.get(op[1], []))
    loose = [ident for ident, stream in streams.items() if forced.get(ident, 0) < len(stream)]
    for persisted in range(len(changes) + 1):
        base = disk.copy()
        for op in changes[:persisted]:
            base.apply(op)
        visible = [ident for ident in loose if ident in base.names.values()]
        for fate in ("nothing", "everything") if len(visible) > 1 else ("nothing",):
            for chosen in visible or [None]:
                state = base.copy()
                for ident, stream in streams.items():
                    for op in stream if fate == "everything" and ident != chosen else stream[: forced.get(ident, 0)]:
                        state.apply(op)
                yield state.copy()
                if chosen is None:
                    continue
                for op in streams[chosen][forced.get(chosen, 0):]:
                    if op[0] == "write":
                        kind, ident, offset, data = op
                        for size in range(1, len(data), step):
                            part = state.copy()
                            part.apply((kind, ident, offset, data[:size]))
                            yield part
                        zeros = state.copy()
                        zeros.apply((kind, ident, offset, bytes(len(data))))
                        yield zeros
                    state.apply(op)
                    yield state.copy()


def write(disk, root, folder):
    """Put the content into another folder"""
    for name in sorted(disk.folders):
        os.makedirs(os.path.join(folder, os.path.relpath(name, root)), exist_ok=True)
    for name, content in disk.files().items():
        path = os.path.join(folder, os.path.relpath(name, root))
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with OPEN(path, "wb") as fd:
            fd.write(content)
