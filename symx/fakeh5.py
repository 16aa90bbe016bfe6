"""HDF5 cache files for the scenarios: an in-memory stand-in accepting symbolic values
(symbolic runs) or the genuine PyTables class (runs on the real code), both counting the
operations on the file and able to stop the process before any of them."""
import contextlib
import io
import os
import shutil
import tempfile

import numpy as np

from .lib import ac


class Crash(BaseException):
    """the process ends here"""


class Store:
    """what is on disk, plus the fault injection"""

    def __init__(self):
        self.files = {}
        self.atomic = False       # entries are created in one step
        self.reset()

    def reset(self, crash_at=None):
        self.ops = self.writes = 0
        self.crash_at = crash_at

    def op(self, write=True, create=False):
        if create and self.atomic:
            self.writes += 1
            return
        if self.crash_at is not None and self.ops >= self.crash_at:
            raise Crash
        self.ops += 1
        if write:
            self.writes += 1


class _Attrs(dict):
    pass


class _Node:
    def __init__(self, store, data, readonly):
        self.store, self.d, self.attrs, self.ro = store, data, _Attrs(), readonly
        self._v_attrs = self.attrs
        self.dead = False

    @property
    def shape(self):
        return self.d.shape

    def __len__(self):
        return len(self.d)

    def _ok(self, write=False):
        if self.dead:
            raise RuntimeError('access to a removed node')
        if write and self.ro:
            raise RuntimeError('the file is open for reading only')

    def __getitem__(self, k):
        self._ok()
        r = self.d[k]
        return r.copy() if isinstance(r, np.ndarray) else r

    def __setitem__(self, k, v):
        self._ok(True)
        self.store.op()
        self.d[k] = v

    def append(self, v):
        self._ok(True)
        self.store.op()
        v = np.asarray(v, dtype=object)
        if v.shape[1:] != self.d.shape[1:]:
            raise ValueError('shape mismatch in append')
        self.d = np.concatenate([np.asarray(self.d), v]).view(type(self.d))

    def set_attr(self, k, v):
        self._ok(True)
        self.store.op()
        self.attrs[k] = v


def fake_class(store):
    from .arrays import SymArray
    base = ac().h5files.H5CacheFileBase

    class FakeFile(base):
        def __init__(self, filename, mode='a'):
            self.filename = str(filename)
            if not os.path.exists(self.filename):
                if mode == 'r':
                    raise OSError('no such file')
                open(self.filename, 'w').close()
            self.nodes = store.files.setdefault(self.filename, {})
            self.isopen = True
            self.mode = mode
            for n in self.nodes.values():
                n.ro = mode == 'r'

        def _name(self, nodename, group):
            return (group + '/' if group else '') + nodename

        def is_cached(self, nodename, group=None):
            n = self._name(nodename, group)
            return n in self.nodes or any(k.startswith('/' + n + '/') for k in self.nodes)

        def _arr(self, shape):
            store.op(create=True)
            a = np.empty(shape, dtype=object)
            a[...] = 0
            return _Node(store, a.view(SymArray), False)

        def create_extendable_array(self, nodename, shape, precision, group=None):
            n = self._name(nodename, group)
            if n in self.nodes:
                raise RuntimeError('node exists')
            self.nodes[n] = self._arr(shape)

        create_compressible_array = create_extendable_array

        def create_new_group(self, name, group=None):
            store.op(create=True)
            return (group or '') + '/' + name

        def get_data_by_reference(self, nodename, group=None):
            return self.nodes[self._name(nodename, group)]

        def set_node_attribute(self, node, attrname, value):
            node.set_attr(attrname, value)

        def get_node_attribute(self, node, attrname):
            return node.attrs[attrname]

        def append_data(self, node, data):
            node.append(data)

        def remove_data(self, nodename):
            store.op()
            hit = False
            for k in list(self.nodes):
                if k == nodename or k.startswith('/' + nodename + '/'):
                    self.nodes.pop(k).dead = True
                    hit = True
            if not hit:
                raise KeyError(nodename)

        def flush(self):
            pass

        def close(self):
            self.isopen = False
    return FakeFile


class _Proxy:
    """a node of a real file"""

    def __init__(self, node, store):
        self.node, self.store = node, store

    def __getitem__(self, k):
        return self.node[k]

    def __setitem__(self, k, v):
        self.store.op()
        self.node[k] = v

    def __len__(self):
        return len(self.node)

    def __iter__(self):
        return iter(self.node)

    def __getattr__(self, n):
        return getattr(self.node, n)


def real_class(store):
    base = ac().h5files.H5CacheFileTables
    import tables

    class RealFile(base):
        def create_extendable_array(self, *a, **k):
            store.op(create=True)
            return base.create_extendable_array(self, *a, **k)

        def create_compressible_array(self, *a, **k):
            store.op(create=True)
            return base.create_compressible_array(self, *a, **k)

        def get_data_by_reference(self, *a, **k):
            return _Proxy(base.get_data_by_reference(self, *a, **k), store)

        def create_new_group(self, *a, **k):
            store.op(create=True)
            return base.create_new_group(self, *a, **k)

        def set_node_attribute(self, node, *a, **k):
            store.op()
            return base.set_node_attribute(self, getattr(node, 'node', node), *a, **k)

        def get_node_attribute(self, node, *a, **k):
            return base.get_node_attribute(self, getattr(node, 'node', node), *a, **k)

        def append_data(self, node, *a, **k):
            store.op()
            return base.append_data(self, getattr(node, 'node', node), *a, **k)

        def remove_data(self, *a, **k):
            store.op()
            return base.remove_data(self, *a, **k)
    return RealFile


class _Gc:
    """keeps files open while the scenario runs"""
    @staticmethod
    def collect():
        return 0

    @staticmethod
    def get_referrers(f):
        return [{'h5f': f}]


class CacheEnv:
    """a scratch cache directory; restart() forgets every open file like a new process"""

    def __init__(self, c):
        self.c = c

    def __enter__(self):
        a = ac()
        self.a = a
        self.dir = tempfile.mkdtemp(prefix='verif_h5_')
        self.store = Store()
        self.saved = [(m, n, getattr(m, n)) for m, n in
                      ((a.h5cache, '_get_cachefile_class'), (a.h5cache, 'gc')) if hasattr(m, n)]
        self.mode = a.config.global_caching
        self.olddir = a.config._cache_dir
        a.config._cache_dir = self.dir
        cls = fake_class(self.store) if self.c.symbolic else real_class(self.store)
        a.h5cache._get_cachefile_class = lambda: cls
        a.h5cache.gc = _Gc
        self.restart()
        self.out = contextlib.redirect_stdout(io.StringIO())
        self.out.__enter__()
        return self

    def restart(self):
        h = self.a.h5cache.H5cache
        for f in list(h.open_files.values()):
            with contextlib.suppress(Exception):
                f.close()
        h.open_files.clear()
        h.open_file_reference = {}
        h.busy = False

    def __exit__(self, *e):
        self.out.__exit__(*e)
        self.restart()
        for m, n, v in self.saved:
            setattr(m, n, v)
        self.a.config.global_caching = self.mode
        self.a.config._cache_dir = self.olddir
        shutil.rmtree(self.dir, ignore_errors=True)
