"""
Environment stubs of the symbolic execution: h5py files which can hold symbolic numbers.

The stub follows the contract of h5py for the operations used by fsc.hdf5_io and nodefinder (names, conversion errors,
what is read back). The content of an open file is kept in memory; a closed file on disk holds a token for its content,
so that it can be renamed, copied or removed; a file which is not closed is not readable.
Replays use h5py itself.
"""

import itertools
import os

import numpy as np

TOKENS = {}
_counter = itertools.count()
REAL = {}
USE_REAL = False
STUBBED = 0  # number of files written by the stub
MAGIC = 'symx-h5 {}\n'


def use_real(flag):
    """Use h5py itself (for harnesses where files hold concrete values only)."""
    global USE_REAL
    USE_REAL = flag


def _to_array(data):
    """What h5py would store: a numpy array, an object array of symbolic numbers, or str / bytes."""
    from .core import Sym, SymBool
    from .npshim import SArray
    if isinstance(data, (str, bytes)):
        return data
    if isinstance(data, Dataset):
        return data.value
    if data is None:
        raise TypeError('One of data, shape or dtype must be specified')
    if isinstance(data, SymBool):
        return bool(data)
    if isinstance(data, Sym):
        return data
    arr = np.asarray(data)
    if arr.dtype.kind == 'U':
        if isinstance(data, (np.ndarray, np.generic)):
            raise TypeError('No conversion path for dtype: {!r}'.format(arr.dtype))
        return np.vectorize(lambda x: x.encode(), otypes=[object])(arr)
    if arr.dtype.kind == 'O':
        flat = arr.ravel().tolist()
        numbers = (int, float, Sym, np.number, np.bool_)
        if flat and all(isinstance(x, numbers) for x in flat):
            if all(isinstance(x, (int, np.integer)) for x in flat):
                if any(abs(int(x)) >= 2**63 for x in flat):
                    raise TypeError("Object dtype dtype('O') has no native HDF5 equivalent")
                return np.array(flat, dtype=int).reshape(arr.shape)
            if not any(isinstance(x, Sym) for x in flat):
                return np.array([float(x) for x in flat]).reshape(arr.shape)
            res = np.empty(len(flat), dtype=object)
            for i, x in enumerate(flat):
                res[i] = x if isinstance(x, Sym) else float(x)
            return res.reshape(arr.shape).view(SArray)
        if not flat and isinstance(data, SArray):
            return np.zeros(arr.shape)
        raise TypeError("Object dtype dtype('O') has no native HDF5 equivalent")
    return np.array(arr)


class Dataset:
    def __init__(self, name, value):
        self.name = name
        self.value = value

    def __getitem__(self, key):
        v = self.value
        if isinstance(v, str):
            v = v.encode()
        if isinstance(v, np.ndarray):
            if isinstance(key, tuple) and not key:
                return np.array(v, subok=True) if v.ndim else v[()]
            return v[key]
        if not (isinstance(key, tuple) and not key) and key is not Ellipsis:
            raise ValueError('Illegal slicing argument for scalar dataspace')
        return v

    @property
    def shape(self):
        return np.shape(self.value)

    @property
    def size(self):
        return int(np.prod(self.shape))

    def __len__(self):
        if not self.shape:
            raise TypeError('Attempt to take len() of scalar dataset')
        return self.shape[0]

    def __iter__(self):
        if not self.shape:
            raise TypeError("Can't iterate over a scalar dataset")
        return iter([np.array(x, subok=True) if isinstance(x, np.ndarray) else x for x in self.value])

    def __array__(self, dtype=None, copy=True):
        res = np.array(self.value if not isinstance(self.value, str) else self.value.encode(), subok=True)
        return res if dtype is None else res.astype(dtype)


class Group:
    def __init__(self, name, file=None):
        self.name = name
        self._file = file
        self._items = {}

    @property
    def file(self):
        return self._file

    def _parent(self, name, create):
        self._check_open()
        if not isinstance(name, (str, bytes)):
            raise TypeError('A name should be string or bytes, not {}'.format(type(name)))
        if isinstance(name, bytes):
            name = name.decode()
        group = self
        if name.startswith('/'):
            group = self._file
            name = name[1:]
        parts = [p for p in name.split('/') if p]
        if not parts:
            raise ValueError('No name specified (no name specified)')
        for p in parts[:-1]:
            if p not in group._items:
                if not create:
                    raise KeyError("Unable to open object (component not found)")
                group._items[p] = Group(group.name.rstrip('/') + '/' + p, self._file)
            group = group._items[p]
        return group, parts[-1]

    def _check_open(self):
        if self._file is not None and self._file.closed:
            raise KeyError('Unable to open object (invalid identifier type to function)')

    def _check_writable(self):
        self._check_open()
        if self._file is not None and self._file.mode == 'r':
            raise ValueError('Unable to create (no write intent on file)')

    def __setitem__(self, name, obj):
        if not isinstance(name, (str, bytes)):
            raise TypeError('A name should be string or bytes, not {}'.format(type(name)))
        self._check_writable()
        if isinstance(obj, (Group, Dataset)):
            value = obj
        else:
            value = Dataset(None, _to_array(obj))
        group, key = self._parent(name, True)
        if key in group._items:
            raise OSError('Unable to create link (name already exists)')
        if isinstance(value, Dataset) and value.name is None:
            value.name = group.name.rstrip('/') + '/' + key
        group._items[key] = value

    def create_dataset(self, name, shape=None, dtype=None, data=None, **_):
        if data is None:
            raise NotImplementedError('datasets without data')
        self._check_writable()
        arr = _to_array(data if dtype is None else np.asarray(data, dtype=dtype))
        group, key = self._parent(name, True)
        if key in group._items:
            raise ValueError('Unable to create dataset (name already exists)')
        group._items[key] = Dataset(group.name.rstrip('/') + '/' + key, arr)
        return group._items[key]

    def create_group(self, name):
        self._check_writable()
        group, key = self._parent(name, True)
        if key in group._items:
            raise ValueError('Unable to synchronously create group (name already exists)')
        group._items[key] = Group(group.name.rstrip('/') + '/' + key, self._file)
        return group._items[key]

    def require_group(self, name):
        group, key = self._parent(name, True)
        return group._items[key] if key in group._items else self.create_group(name)

    def __getitem__(self, name):
        if not isinstance(name, (str, bytes)):
            raise TypeError('Accessing a group is done with bytes or str, not {}'.format(type(name)))
        group, key = self._parent(name, False)
        if key not in group._items:
            raise KeyError("Unable to synchronously open object (object '{}' doesn't exist)".format(key))
        return group._items[key]

    def get(self, name, default=None):
        return self[name] if name in self else default

    def __delitem__(self, name):
        self._check_writable()
        group, key = self._parent(name, False)
        if key not in group._items:
            raise KeyError("Couldn't delete link (name doesn't exist)")
        del group._items[key]

    def __contains__(self, name):
        try:
            group, key = self._parent(name, False)
        except (KeyError, ValueError):
            return False
        return key in group._items

    def __iter__(self):
        return iter(sorted(self._items))

    def __len__(self):
        return len(self._items)

    def __bool__(self):
        return self._file is None or not self._file.closed

    def keys(self):
        return sorted(self._items)

    def values(self):
        return [self._items[k] for k in sorted(self._items)]

    def items(self):
        return [(k, self._items[k]) for k in sorted(self._items)]


def _copy(items, file):
    res = {}
    for k, v in items.items():
        if isinstance(v, Group):
            res[k] = Group(v.name, file)
            res[k]._items = _copy(v._items, file)
        else:
            res[k] = v
    return res


class File(Group):
    def __new__(cls, *args, **kwargs):
        if USE_REAL:
            return REAL['File'](*args, **kwargs)
        return super().__new__(cls)

    def __init__(self, name, mode='r', **_):
        super().__init__('/', self)
        self.filename = os.fspath(name)
        self.mode = mode
        self.closed = False
        if mode == 'w' or (mode in ('a', ) and not os.path.exists(self.filename)) or mode in ('x', 'w-'):
            if mode in ('x', 'w-') and os.path.exists(self.filename):
                raise FileExistsError('Unable to create file')
            with open(self.filename, 'w') as f:  # truncates the file, which is not readable until it is closed
                f.write('open')
        else:
            with open(self.filename, 'rb') as f:
                text = f.read().decode('latin1')
            if text not in TOKENS:
                raise OSError('Unable to synchronously open file (file signature not found)')
            self._items = _copy(TOKENS[text], self)

    def flush(self):
        pass

    def close(self):
        global STUBBED
        if self.closed:
            return
        self.closed = True
        if self.mode != 'r':
            token = MAGIC.format(next(_counter))
            TOKENS[token] = self._items
            STUBBED += 1
            with open(self.filename, 'w') as f:
                f.write(token)

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.close()


def install():
    import h5py
    for name, cls in (('File', File), ('Group', Group), ('Dataset', Dataset)):
        REAL[name] = getattr(h5py, name)
        setattr(h5py, name, cls)


