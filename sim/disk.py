"""What a disk may hold after a crash, from the log of the file operations made until then."""
import os


class Files(object):
    """Replays a log: names, and for every inode the content and the changes that are not yet safe."""
    def __init__(self, initial):
        self.names, self.safe, self.loose, self.cur = {}, {}, {}, {}
        self.n = 0
        self.meta = []          # name changes that are not yet safe
        for path, data in initial.items():
            self.names[path] = self._new(data)
        self.base = dict(self.names)

    def _new(self, data=b''):
        self.n += 1
        self.safe[self.n] = bytes(data)
        self.loose[self.n] = []
        return self.n

    def apply(self, r):
        op = r['op']
        if r['fault']:
            return
        if op == 'creat':
            i = self._new()
            self.cur[r['ino']] = i
            self._name(('put', r['path'], i))
        elif op == 'open':
            if r['path'] in self.names:
                self.cur[r['ino']] = self.names[r['path']]
        elif op == 'trunc':
            self.loose[self.cur[r['ino']]].append(('trunc', r['off'], b''))
        elif op == 'write':
            self.loose[self.cur[r['ino']]].append(('write', r['off'], r['data']))
        elif op == 'fsync':
            i = self.cur.get(r['ino'])
            if i is not None:
                self.safe[i] = self.content(i)
                self.loose[i] = []
        elif op == 'rename':
            a, b = r['path'].split('\n')
            self._name(('mv', os.path.normpath(a), os.path.normpath(b)))
        elif op == 'link':
            a, b = r['path'].split('\n')
            if a in self.names:
                self._name(('put', b, self.names[a]))
        elif op == 'unlink':
            self._name(('rm', r['path'], None))
        elif op == 'fsyncdir':
            self.settle_names()

    def _name(self, m):
        self.meta.append(m)
        do(self.names, m)

    def settle_names(self):
        self.base = dict(self.names)
        self.meta = []

    def content(self, i, keep=None):
        b = bytearray(self.safe[i])
        for q, (k, off, data) in enumerate(self.loose[i]):
            if keep is not None:
                n = keep[q]
                if n is None:
                    continue
                data = data[:n] if k == 'write' else data
            if k == 'trunc':
                del b[off:]
                b.extend(b'\0' * (off - len(b)))
            else:
                b.extend(b'\0' * (off - len(b)))
                b[off:off + len(data)] = data
        return bytes(b)

    def killed(self):
        """The process is gone, the system is not: all that was done is there."""
        return {p: self.content(i) for p, i in self.names.items()}

    def power_lost(self, rng):
        """Names as of some earlier moment; of what was written but not synced, anything."""
        names = dict(self.base)
        for m in self.meta[:rng.randint(0, len(self.meta))]:
            do(names, m)
        out = {}
        for p, i in sorted(names.items()):
            keep = []
            how = rng.choice(['all', 'none', 'some', 'prefix'])
            cut = rng.randint(0, len(self.loose[i]))
            for q, (k, off, data) in enumerate(self.loose[i]):
                full = len(data)
                if how == 'all' or how == 'prefix' and q < cut:
                    keep.append(full)
                elif how == 'none':
                    keep.append(None)
                elif how == 'prefix':
                    keep.append(rng.randint(0, full) if q == cut and k == 'write' else None)
                else:
                    keep.append(rng.choice([None, full, rng.randint(0, full)]))
            out[p] = self.content(i, keep)
        return out


def do(names, m):
    k, a, b = m
    if k == 'put':
        names[a] = b
    elif k == 'mv':
        if a in names:
            names[b] = names.pop(a)
    else:
        names.pop(a, None)


def snapshot(root):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, 'rb') as h:
                out[p] = h.read()
    return out


def materialise(files, old, new):
    """Writes the files, whose names start with old, below new."""
    for p, data in files.items():
        q = new + p[len(old):]
        os.makedirs(os.path.dirname(q), exist_ok=True)
        with open(q, 'wb') as f:
            f.write(data)
