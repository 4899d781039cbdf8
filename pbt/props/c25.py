import functools, hashlib, io, os, pathlib
from hypothesis import strategies as st
from .. import gen, ops, sut, model as M, kdbxref as ref
from ..core import check, Violation, scratch
ID = 'C25'
QUICK, THOROUGH = 420, 6000
TIMEOUT = 200
RULE = ('case = 1-4 databases created one after another at paths, Path objects or streams with generated credentials (password, key file as path or stream, both, none, transformed key), some edited and saved '
        'between; each file read by the independent reader and opened by its own and by other credentials, each object compared with its own model after all steps; non-trivial: at least two databases or '
        'an edit')
W = {'add_entry': 4, 'add_group': 2, 'set': 2, 'prop_set': 1, 'bin_add': 1, 'att_add': 1, 'trash': 1, 'meta': 1, 'hist_add': 1, 'setg': 1}
# few distinct credentials: deriving a key takes half a second, and repeated derivations are remembered
PW = [None, '', 'pw', 'p\u00e4ss "w\' ', 'password']
KF = [None, None, b'key', bytes(range(32)), b'ab' * 32]
TK = [b'k' * 32, bytes(32)]
one = st.fixed_dictionaries({'pw': st.integers(0, 4), 'kf': st.integers(0, 4), 'tk': st.sampled_from([None, None, None, 0, 1]), 'to': st.integers(0, 2), 'exists': st.sampled_from([False, False, True]),
                             'ops': ops.oplist(W, gen.small, max_size=4), 'save': st.booleans(), 'kfp': st.booleans(), 'wrong': st.integers(0, 24), 'both': st.booleans()})


def strategy(tier):
    return st.fixed_dictionaries({'dbs': st.lists(one, min_size=1, max_size=4 if tier == 'quick' else 8)})


def memo():
    """remember results of the key derivation function (nothing else changes)"""
    import argon2.low_level as a2
    if not hasattr(a2.hash_secret_raw, 'memo'):
        f = a2.hash_secret_raw
        cache = {}

        def g(*a, **k):
            key = repr((a, sorted(k.items())))
            if key not in cache:
                cache[key] = f(*a, **k)
            return cache[key]
        g.memo = True
        a2.hash_secret_raw = g


class World(ops.World):
    def __init__(self, i, c, d):
        from pykeepass import create_database
        memo()
        self.c, self.dir = c, d
        self.pw, self.kf = PW[c['pw']], KF[c['kf']]
        self.tk = TK[c['tk']] if c['tk'] is not None else None
        if self.tk is not None and not c.get('both'):
            self.pw = self.kf = None
        self.handles, self.i, self.done, self.rejected, self.verify_each = {}, 0, [], 0, False
        self.v = (4, 0)
        self.path = os.path.join(d, 'db%d.kdbx' % i)
        kfarg = None
        if self.kf is not None:
            self.kfpath = os.path.join(d, 'key%d' % i)
            with open(self.kfpath, 'wb') as f:
                f.write(self.kf)
            kfarg = self.kfpath if c['kfp'] else io.BytesIO(self.kf)
        if c['exists'] and c['to']:
            with open(self.path, 'wb') as f:
                f.write(b'an older file')
        self.target = [io.BytesIO(), self.path, pathlib.Path(self.path)][c['to']]
        kw = {}
        if self.pw is not None:
            kw['password'] = self.pw
        if kfarg is not None:
            kw['keyfile'] = kfarg
        if self.tk is not None:
            kw['transformed_key'] = self.tk
        t0 = ops.now_us()
        self.kp = create_database(self.target, **kw)
        t1 = ops.now_us()
        data = self.bytes()
        v = self.read(data)
        root = v['root']
        check(root['ch'] == [], 'new database is not empty: %r', root['ch'])
        check(v['bins'] == [], 'new database has attachments')
        ch = v['meta']['changed']
        check(ch is not None and t0 - M.US <= ch <= t1 + M.US, 'credential change date of the new database is not now')
        check(len(self.kp.groups) == 1 and self.kp.entries == [] and self.kp.root_group is not None and self.kp.attachments == [] and list(self.kp.binaries) == [],
              'new database is not empty')
        f = self.kp.filename
        check(f is self.target or f == self.target, 'filename of the new database is %r', f)
        check(self.kp.password == self.pw, 'password of the new database is %r, given was %r', self.kp.password, self.pw)
        check(self.kp.keyfile is kfarg, 'key file of the new database is %r, given was %r', self.kp.keyfile, kfarg)
        self.db = M.freeze(v)
        self.first = data

    def bytes(self):
        if self.c['to'] == 0:
            return self.target.getvalue()
        with open(self.path, 'rb') as f:
            return f.read()

    def read(self, data):
        v = sut.read_ref(data, self.pw, self.kf, transformed=self.tk)
        for k in ('res', 'flags'):
            v.pop(k, None)
        return v

    def save(self):
        if self.c['to'] == 0:
            self.target.seek(0)
            self.target.truncate()
        self.kp.save(**({'transformed_key': self.tk} if self.tk is not None else {}))
        M.expect_db(self.db, self.read(self.bytes()), 'file of an edited new database')
        if self.tk is not None and self.c.get('both'):
            # without the key it is saved under the credentials given along with it
            b = io.BytesIO()
            self.kp.save(b)
            M.expect_db(self.db, sut.read_ref(b.getvalue(), self.pw, self.kf), 'file saved under the credentials of a new database')

    def openit(self):
        from pykeepass import PyKeePass
        if self.tk is not None:
            return PyKeePass(io.BytesIO(self.bytes()), transformed_key=self.tk)
        return sut.open_bytes(self.bytes(), self.pw, self.kfarg())

    def wrong(self):
        from pykeepass import PyKeePass
        from pykeepass.exceptions import CredentialsError
        n = self.c['wrong']
        pw, kf = PW[n % 5], KF[n // 5]
        tk = None
        if self.tk is not None and n % 2:
            tk = b'w' * 32
        elif self.tk is None and ref.composite(pw, kf) == ref.composite(self.pw, self.kf):
            return
        try:
            if tk is not None:
                PyKeePass(io.BytesIO(self.bytes()), transformed_key=tk)
            else:
                sut.open_bytes(self.bytes(), pw, io.BytesIO(kf) if kf is not None else None)
        except CredentialsError:
            return
        raise Violation('new database opens with other credentials: password %r, key file %r, transformed key %r' % (pw, kf, tk))


def blank():
    import pykeepass
    d = os.path.dirname(pykeepass.__file__)
    out = {}
    for root, _, files in os.walk(d):
        for f in files:
            if f.endswith('.kdbx'):
                with open(os.path.join(root, f), 'rb') as fh:
                    out[f] = hashlib.sha256(fh.read()).hexdigest()
    return out


def run(case, stt):
    d = scratch()
    b0 = blank()
    ws = []
    saved = {}
    edits = 0
    shape = None
    for i, c in enumerate(case['dbs']):
        w = World(i, c, d)
        ws.append(w)
        saved[i] = M.clone(w.db)
        s = M.clone(w.db)
        s['meta']['changed'] = 0
        if shape is None:
            shape = s
        M.expect_db(shape, M.clone({**s, 'bins': [b['data'] for b in s['bins']]}), 'new database number %d differs from the first one' % (i + 1))
        for op in c['ops']:
            if w.step(op) is not False:
                edits += 1
        if c['save']:
            w.save()
            saved[i] = M.clone(w.db)
        w.wrong()
        # all of them
        for j, x in enumerate(ws):
            x.verify('creating and editing another database')
    for j, x in enumerate(ws):
        v = x.read(x.bytes())
        M.expect_db(saved[j], v, 'file of new database %d' % j)
        kp = x.openit()
        M.expect_db(saved[j], sut.view(kp), 'new database opened again')
        if not x.kf and x.tk is None and x.c['to']:
            x.kp.reload()
            M.expect_db(saved[j], sut.view(x.kp), 'new database reloaded')
        stt.cls('tk' if x.tk is not None else ('pw' if x.pw is not None else '') + ('kf' if x.kf is not None else '') or 'none', ['stream', 'path', 'Path'][x.c['to']])
    names = sorted(os.listdir(d))
    want = sorted([os.path.basename(x.path) for x in ws if x.c['to']] + [os.path.basename(x.kfpath) for x in ws if x.kf is not None])
    check(names == want, 'files after creating databases: %r, expected %r', names, want)
    for x in ws:
        if x.kf is not None:
            with open(x.kfpath, 'rb') as f:
                check(f.read() == x.kf, 'key file changed')
    check(blank() == b0, 'creating databases changed the template file')
    stt.nt(len(ws) > 1 or edits > 0)
