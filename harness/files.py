"""Failing and dying while writing files."""

import builtins
import errno
import io
import os
import shutil
import tempfile

import h5py


class Crash(BaseException):
    """The process has died: nothing is executed any more that has an effect on files."""


class Writer:
    """A file opened for writing, where each write is an operation (and reaches the disk)."""

    def __init__(self, files, path, fobj):
        self._files = files
        self._path = path
        self._fobj = fobj

    def write(self, data):
        self._files.event('write', self._path)
        res = self._fobj.write(data)
        self._fobj.flush()
        return res

    def __getattr__(self, key):
        return getattr(self._fobj, key)

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self._fobj.close()

    def __iter__(self):
        return iter(self._fobj)


class Files:
    """
    Within the block, operations on files in the directory are events. `hook(index, name, path)` is called before each
    of them, and may return None, 'crash', 'fail' or 'fail otherwise'.
    """
    PATHS = ['rename', 'replace', 'remove', 'unlink', 'link', 'symlink', 'open', 'mkdir', 'rmdir', 'truncate', 'mknod']
    FDS = ['sendfile', 'fsync', 'fdatasync', 'ftruncate', 'copy_file_range', 'write', 'pwrite']
    ERROR = 'simulated failure'

    def __init__(self, path, hook):
        self.path = os.path.realpath(path)
        self.hook = hook
        self.index = 0
        self.dead = False
        self.active = False
        self.busy = False
        self.log = []
        self._saved = []

    def inside(self, path):
        try:
            path = os.fspath(path)
        except TypeError:
            return False
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        return os.path.realpath(os.path.abspath(path)).startswith(self.path + os.sep)

    def event(self, name, path):
        if not self.active or self.busy:
            return
        if self.dead:
            raise Crash()
        k = self.index
        self.index += 1
        self.log.append((name, path))
        self.busy = True
        try:
            what = self.hook(k, name, path)
        finally:
            self.busy = False
        if what == 'crash':
            self.dead = True
            raise Crash()
        if what == 'fail':
            raise OSError(errno.ENOSPC, self.ERROR)
        if what == 'fail otherwise':
            # h5py raises other errors than OSError, too
            if name.startswith('h5'):
                raise RuntimeError(self.ERROR)
            raise OSError(errno.ENOSPC, self.ERROR)

    def _patch(self, obj, name, make):
        if not hasattr(obj, name):
            return
        own = name in vars(obj) if isinstance(obj, type) else True
        old = getattr(obj, name)
        self._saved.append((obj, name, old, own))
        setattr(obj, name, make(old))

    def __enter__(self):
        files = self
        real_open = builtins.open

        def by_path(name):
            def make(old):
                def fct(*args, **kwargs):
                    write = name != 'open' or (len(args) > 1 and args[1] & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))
                    if write and any(files.inside(a) for a in args[:2] if isinstance(a, (str, bytes, os.PathLike))):
                        files.event(name, args[0])
                    return old(*args, **kwargs)
                return fct
            return make

        def by_fd(name):
            def make(old):
                def fct(*args, **kwargs):
                    if args and isinstance(args[0], int) and args[0] > 2:
                        files.event(name, args[0])
                    return old(*args, **kwargs)
                return fct
            return make

        def make_open(old):
            def fct(file, mode='r', *args, **kwargs):
                if files.active and not files.busy and not isinstance(file, int) and any(c in mode for c in 'wax+') \
                        and files.inside(file):
                    if kwargs.get('opener') is None:
                        files.event('open', file)
                    return Writer(files, file, old(file, mode, *args, **kwargs))
                return old(file, mode, *args, **kwargs)
            return fct

        def make_h5(name):
            def make(old):
                def fct(this, *args, **kwargs):
                    if this.file is None or files.inside(this.file.filename):
                        files.event('h5 ' + name, args[0] if args else None)
                    return files.quietly(old, this, *args, **kwargs)
                return fct
            return make

        def make_init(old):
            def fct(this, name, mode='r', *args, **kwargs):
                if mode != 'r' and files.inside(name):
                    files.event('h5 open', name)
                return files.quietly(old, this, name, mode, *args, **kwargs)
            return fct

        def make_close(old):
            def fct(this, *args, **kwargs):
                try:
                    write = bool(this) and this.mode != 'r' and files.inside(this.filename)
                except Exception:  # pylint: disable=broad-except
                    write = False
                if write:
                    files.event('h5 close', this.filename)
                return files.quietly(old, this, *args, **kwargs)
            return fct

        for name in self.PATHS:
            self._patch(os, name, by_path(name))
        for name in self.FDS:
            self._patch(os, name, by_fd(name))
        self._patch(builtins, 'open', make_open)
        self._patch(io, 'open', make_open)
        self._patch(h5py.File, '__init__', make_init)
        self._patch(h5py.File, 'close', make_close)
        for name in ('__setitem__', 'create_group', 'create_dataset'):
            self._patch(h5py.Group, name, make_h5(name))
        self.active = True
        return self

    def quietly(self, fct, *args, **kwargs):
        """What a single operation of h5py does is not interrupted."""
        if self.busy:
            return fct(*args, **kwargs)
        self.busy = True
        try:
            return fct(*args, **kwargs)
        finally:
            self.busy = False

    def __exit__(self, *_):
        self.active = False
        for obj, name, old, own in reversed(self._saved):
            if own:
                setattr(obj, name, old)
            else:
                delattr(obj, name)
        self._saved = []


def peek(path, load):
    """
    What another process would find at the path: None (absent), the loaded object, or the exception.
    """
    if not os.path.exists(path):
        return None
    fd, copy = tempfile.mkstemp(prefix='nodefinder-verif-', suffix='.copy')
    os.close(fd)
    try:
        shutil.copyfile(path, copy)
        return load(copy)
    except Exception as e:  # pylint: disable=broad-except
        return e
    finally:
        os.remove(copy)
