"""The reference filesystem: a dictionary of files and a set of directories.

It is the model of property C20 (both wrappers are replayed against it for every
operation sequence) and the substrate of the crash exploration of C12, where its
whole state can be saved and restored.
"""
import fnmatch
import io
import posixpath

from wfa_planning_evaluation_framework.filesystem_wrappers.filesystem_wrapper_base import FilesystemWrapperBase


class MemFs(FilesystemWrapperBase):
    def __init__(self, files=None, dirs=None):
        self.files = dict(files or {})
        self.dirs = set(dirs or ()) | {"/"}

    # -- state ---------------------------------------------------------------
    def save(self):
        return dict(self.files), set(self.dirs)

    @classmethod
    def load(cls, state):
        return cls(*state)

    @staticmethod
    def norm(path):
        return posixpath.normpath(str(path))

    def _parents(self, p):
        out = []
        while p not in ("/", "."):
            p = posixpath.dirname(p) or "."
            out.append(p)
        return out

    # -- interface -----------------------------------------------------------
    def set_default_client_to_gs_client(self):
        pass

    def name(self, path):
        return posixpath.basename(self.norm(path))

    def parent(self, path):
        return posixpath.dirname(self.norm(path)) or "."

    def glob(self, path, pattern):
        base = self.norm(path)
        for p in sorted(list(self.files) + list(self.dirs)):
            if posixpath.dirname(p) == base and p != base and fnmatch.fnmatchcase(posixpath.basename(p), pattern):
                yield p

    def open(self, path, mode="r", buffering=-1, encoding=None, errors=None, newline=None):
        p = self.norm(path)
        if "r" in mode and "+" not in mode:
            if p in self.dirs:
                raise IsADirectoryError(p)
            if p not in self.files:
                raise FileNotFoundError(p)
            return io.StringIO(self.files[p]) if "b" not in mode else io.BytesIO(self.files[p].encode())
        fs = self
        self._check_writable(p)
        start = self.files.get(p, "") if "a" in mode else ""
        self.files[p] = start

        class Out(io.StringIO):
            def write(self, data):
                n = super().write(data)
                fs.files[p] = start + self.getvalue()
                return n

        return Out()

    def _check_writable(self, p):
        if p in self.dirs:
            raise IsADirectoryError(p)
        if self.parent(p) not in self.dirs:
            if self.parent(p) in self.files:
                raise NotADirectoryError(p)
            raise FileNotFoundError(p)

    def write_text(self, path, data, encoding=None, errors=None, newline=None):
        p = self.norm(path)
        self._check_writable(p)
        self.files[p] = data

    def mkdir(self, path, mode=0o777, parents=False, exist_ok=False):
        p = self.norm(path)
        if p in self.files:
            raise FileExistsError(p)
        if p in self.dirs:
            if exist_ok:
                return
            raise FileExistsError(p)
        for q in self._parents(p):
            if q in self.files:
                raise NotADirectoryError(p)
        if self.parent(p) not in self.dirs and not parents:
            raise FileNotFoundError(p)
        self.dirs.update(self._parents(p))
        self.dirs.add(p)

    def unlink(self, path, missing_ok=False):
        p = self.norm(path)
        if p in self.dirs:
            raise IsADirectoryError(p)
        if p not in self.files:
            if missing_ok:
                return
            raise FileNotFoundError(p)
        del self.files[p]

    def exists(self, path):
        return self.norm(path) in self.files or self.norm(path) in self.dirs

    def is_dir(self, path):
        return self.norm(path) in self.dirs

    def is_file(self, path):
        return self.norm(path) in self.files

    def joinpath(self, *args):
        return posixpath.normpath(posixpath.join(*args))


class Crash(BaseException):
    """The process dies here (not catchable as an Exception)."""


class FaultFs(FilesystemWrapperBase):
    """Delegates to another filesystem and dies at one chosen point.

    plan: None, or (operation index, torn) where torn is None (die before the
    operation), an int (die after writing that many characters), or "after".
    """

    def __init__(self, inner, plan=None, on_write=None):
        self.inner, self.plan, self.ops, self.on_write = inner, plan, [], on_write

    def _op(self, name, path, fn, data=None):
        k = len(self.ops)
        self.ops.append((name, str(path), data))
        if data is not None and self.on_write:
            self.on_write(k, str(path), data)
        if self.plan and self.plan[0] == k:
            torn = self.plan[1]
            if torn is None:
                raise Crash()
            if torn == "after" or data is None:
                fn()
                raise Crash()
            self.inner.write_text(path, data[:torn])
            raise Crash()
        return fn()

    def set_default_client_to_gs_client(self):
        pass

    def name(self, path):
        return self.inner.name(path)

    def parent(self, path):
        return self.inner.parent(path)

    def joinpath(self, *args):
        return self.inner.joinpath(*args)

    def glob(self, path, pattern):
        return self._op("glob", path, lambda: list(self.inner.glob(path, pattern)))

    def open(self, path, mode="r", *a, **k):
        if "r" in mode and "+" not in mode:
            return self._op("open", path, lambda: self.inner.open(path, mode, *a, **k))
        f = self._op("open-w", path, lambda: self.inner.open(path, mode, *a, **k))
        return _FaultFile(self, path, f)

    def write_text(self, path, data, *a, **k):
        return self._op("write", path, lambda: self.inner.write_text(path, data, *a, **k), data)

    def mkdir(self, path, *a, **k):
        return self._op("mkdir", path, lambda: self.inner.mkdir(path, *a, **k))

    def unlink(self, path, *a, **k):
        return self._op("unlink", path, lambda: self.inner.unlink(path, *a, **k))

    def exists(self, path):
        return self._op("exists", path, lambda: self.inner.exists(path))

    def is_dir(self, path):
        return self._op("is_dir", path, lambda: self.inner.is_dir(path))

    def is_file(self, path):
        return self._op("is_file", path, lambda: self.inner.is_file(path))


class _FaultFile:
    """A file opened for writing: every write is an operation that may be torn."""

    def __init__(self, fs, path, f):
        self.fs, self.path, self.f = fs, path, f

    def write(self, data):
        k = len(self.fs.ops)
        self.fs.ops.append(("fwrite", str(self.path), None))
        if self.fs.plan and self.fs.plan[0] == k:
            torn = self.fs.plan[1]
            if isinstance(torn, int):
                self.f.write(data[:torn])
            elif torn == "after":
                self.f.write(data)
            self.f.flush()
            raise Crash()
        return self.f.write(data)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.f.close()
        return False

    def __getattr__(self, n):
        return getattr(self.f, n)
