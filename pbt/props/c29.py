import hashlib, io, os, pathlib, uuid as uuidlib
from hypothesis import strategies as st
from .. import gen, ops, sut, model as M, kdbxref as ref
from ..core import check, Violation, scratch
ID = 'C29'
QUICK, THOROUGH = 4000, 80000
RULE = ('case = file opened from a path string, path object or stream (with a key file given as path, path object or stream) x up to 12 of: edit, read everything, search, export, save, save to another path or stream, '
        'reload, change of the file by another program (in place, replaced, link pointing elsewhere), open again, failed opening by a new or the same object (wrong password / key file / damaged copy), with block; after each step every file of the directory is compared byte for byte with what it should be; '
        'non-trivial: at least one save or reload after an edit')
W = {'add_group': 2, 'add_entry': 4, 'set': 4, 'setg': 1, 'prop_set': 2, 'bin_add': 1, 'att_add': 1, 'hist_add': 1, 'mv_e': 1, 'trash': 1, 'del_e': 1, 'meta': 1, 'pw': 2,
     'save': 5, 'saveas': 3, 'reload': 4, 'readall': 3, 'second': 2, 'bad': 3, 'export': 1, 'reread': 1, 'with': 1, 'ext': 2}
EX = {'save': st.just(['save']), 'saveas': st.tuples(st.just('saveas'), st.integers(0, 4)).map(list), 'reload': st.just(['reload']), 'readall': st.just(['readall']),
      'second': st.tuples(st.just('second'), st.integers(0, 2)).map(list), 'bad': st.tuples(st.just('bad'), st.integers(0, 5)).map(list), 'export': st.just(['export']), 'with': st.just(['with']),
      'ext': st.tuples(st.just('ext'), st.integers(0, 2)).map(list), 'reread': st.tuples(st.just('reread'), st.booleans()).map(list)}
FAILS = Exception


def strategy(tier):
    return st.fixed_dictionaries({'ops': ops.oplist(W, max_size=12 if tier == 'quick' else 30, min_size=3, extra=EX), 'cfg': gen.cheap_cfg(), 'db': gen.database(maxnodes=4, omit=True),
                                  'how': st.integers(0, 2), 'pw': st.sampled_from(['pw', 'pw', 'pw', '', None, ' x ', '\u00e9"']), 'kf': st.one_of(st.none(), st.sampled_from([hashlib.sha256(b'k').hexdigest(), '00', '61' * 64, '3c613e'])), 'kfhow': st.integers(0, 1), 'link': st.sampled_from([False, False, True]),
                                  'names': st.sampled_from([['my db.kdbx', 'my key']] * 3 + [[' x.kdbx ', ' k '], ['~', '~k'], ['\u00e9 $HOME%s', 'k\nk'], ['.kdbx', '.key'], ['-', '*'], ['x.tmp', 'x.kdbx.tmp'], ['file:x?y#z', 'http:k']])})


class World(ops.World):
    def open(self, data=None):
        self.d = self.tmpdir()
        self.path = os.path.join(self.d, self.names[0])
        if self.link:
            self.n_ext = 0
            os.symlink('real 0', self.path)
            with open(os.path.join(self.d, 'real 0'), 'wb') as f:
                f.write(data)
        else:
            with open(self.path, 'wb') as f:
                f.write(data)
        self.kpath = os.path.join(self.d, self.names[1])
        self.keys = {}
        if self.kf is not None:
            with open(self.kpath, 'wb') as f:
                f.write(self.kf)
        self.files = self.listing()
        self.saved = M.clone(self.db)
        self.savedpw = self.pw
        self.kp = self.fresh(self.how)
        self.fname = self.kp.filename
        if self.how != 2:
            check(os.fspath(self.fname) == self.path, 'remembered path is %r, expected %r', self.fname, self.path)
        self.handles = {}

    def prepare(self, case):
        self.how, self.kfhow, self.link = case['how'], case['kfhow'], case.get('link')
        self.names = case.get('names') or ['my db.kdbx', 'my key']

    def keyfile(self, how=None):
        if self.kf is None:
            return None
        return pathlib.Path(self.kpath) if (self.kfhow if how is None else how) else self.kpath

    def fresh(self, how):
        if how == 2:
            with open(self.path, 'rb') as f:
                return sut.open_db(f, self.pw, self.keyfile())
        return sut.open_db(self.path if how == 0 else pathlib.Path(self.path), self.pw, self.keyfile())

    def listing(self):
        out = {}
        for n in sorted(os.listdir(self.d)):
            with open(os.path.join(self.d, n), 'rb') as f:
                out[n] = f.read()
        return out

    def expect_files(self, what, but=()):
        now = self.listing()
        for n in set(now) | set(self.files):
            if n in but:
                check(n in now, '%s: %s is missing', what, n)
                continue
            check(n in now, '%s removed the file %r', what, n)
            check(n in self.files, '%s left the file %r', what, n)
            check(now[n] == self.files[n], '%s changed the file %r', what, n)
        self.files = now
        return now

    def expect_name(self):
        check(self.kp.filename == self.fname and type(self.kp.filename) is type(self.fname), 'remembered path is %r, expected %r', self.kp.filename, self.fname)

    def op_save(self):
        if self.how == 2:
            return False
        self.kp.save()
        now = self.expect_files('save()', (self.names[0],))
        self.check_file(now[self.names[0]])
        self.saved = M.clone(self.db)
        self.savedpw = self.pw
        self.expect_name()
        self.nsave += 1

    def op_ext(self, how):
        """another program saves the database"""
        m = M.clone(self.saved)
        kp = sut.open_bytes(self.files[self.names[0]], self.savedpw, self.keyfile())
        kp.database_name = m['meta']['DatabaseName'] = 'x%d' % self.i
        data = sut.save_bytes(kp)
        p = self.path
        if self.link and how and os.path.islink(self.path):
            self.n_ext += 1
            n = 'real %d' % self.n_ext
            with open(os.path.join(self.d, n), 'wb') as f:
                f.write(data)
            os.remove(p)
            os.symlink(n, p)
        elif how == 1:
            with open(p + '.new', 'wb') as f:
                f.write(data)
            os.replace(p + '.new', p)
        else:
            # in place; with the previous times, which may be all of the same second anyway
            s = os.stat(p)
            with open(p, 'wb') as f:
                f.write(data)
            if how == 2:
                os.utime(p, ns=(s.st_atime_ns, s.st_mtime_ns))
        self.saved = m
        self.files = self.listing()
        self.unchanged('a change of the file')

    def op_saveas(self, how):
        p = os.path.join(self.d, 'copy%d' % how)
        if how == 0:
            b = io.BytesIO()
            self.kp.save(b)
            data = b.getvalue()
            self.expect_files('save(stream)')
        elif how == 1:
            with open(p, 'wb') as f:
                self.kp.save(f)
            data = self.expect_files('save(open file)', ('copy1',))['copy1']
        else:
            self.kp.save(pathlib.Path(p) if how == 2 else p)
            data = self.expect_files('save(path)', ('copy%d' % how,))['copy%d' % how]
        self.check_file(data)
        self.expect_name()
        self.nsave += 1

    def unchanged(self, what):
        """the open database is as it was, and so are its path and credentials"""
        M.expect_db(self.db, sut.view(self.kp), 'after ' + what)
        self.expect_name()
        check(self.kp.password == self.pw, '%s changed the remembered password to %r', what, self.kp.password)
        check(self.kp.keyfile == self.keyfile(), '%s changed the remembered key file to %r', what, self.kp.keyfile)

    def op_with(self):
        with self.kp as kp:
            check(kp is self.kp, 'the context manager gives %r', kp)
        self.expect_files('leaving a with block')
        self.unchanged('leaving a with block')

    def op_reload(self):
        if self.how == 2:
            return False
        if self.pw != self.savedpw:
            # the remembered credentials no longer match the file
            before = self.files
            try:
                self.kp.reload()
            except FAILS:
                pass
            else:
                raise Violation('reload with credentials that do not match the file succeeded')
            self.expect_files('failed reload')
            self.unchanged('a failed reload')
            return True
        self.kp.reload()
        self.expect_files('reload')
        self.db = M.clone(self.saved)
        self.handles = {}
        M.expect_db(self.db, sut.view(self.kp), 'after reload')
        self.api()
        self.expect_name()
        self.nreload += 1

    def op_reread(self, keep):
        """read() opens a file with an existing object"""
        if self.how == 2 or self.pw != self.savedpw:
            return False
        if keep:
            self.kp.read(password=self.pw, keyfile=self.keyfile())
        else:
            self.kp.read(self.fname, password=self.pw, keyfile=self.keyfile())
        self.expect_files('read()')
        self.db = M.clone(self.saved)
        self.handles = {}
        self.expect_name()
        self.unchanged('reading the file again')

    def op_readall(self):
        self.api()
        kp = self.kp
        kp.find_entries(title='a', regex=True, flags='i')
        kp.find_entries(history=True)
        kp.find_groups(name='x', first=True)
        kp.find_attachments(filename='a')
        repr(kp.entries), repr(kp.groups), str(kp.attachments)
        for e in kp.entries:
            e.path, e.parentgroup, e.index, e.expired, e.ref('title'), e.deref('title')
        kp.version, kp.encryption_algorithm, kp.kdf_algorithm, kp.transformed_key, kp.database_salt, kp.tree, kp.recyclebin_group if self.db['meta']['bin'] else None
        kp.credchange_required, kp.credchange_recommended
        self.expect_files('reading')

    def op_export(self):
        self.kp.xml()
        self.kp.dump_xml(os.path.join(self.d, 'out.xml'))
        self.expect_files('export', ('out.xml',))
        self.expect_name()

    def op_second(self, how):
        if self.pw != self.savedpw:
            pw, self.pw = self.pw, self.savedpw
        else:
            pw = self.pw
        kp = self.fresh(how)
        self.pw = pw
        M.expect_db(self.saved, sut.view(kp), 'opened from a %s' % ('path', 'path object', 'stream')[how])
        self.expect_files('opening')

    def op_bad(self, how):
        from pykeepass import PyKeePass
        data = self.files[self.names[0]]
        bad = os.path.join(self.d, 'bad.kdbx')
        kw = {'password': self.savedpw, 'keyfile': self.keyfile()}
        src = self.path
        if how == 0:
            kw['password'] = (self.savedpw or '') + 'x'
        elif how == 1:
            kw['keyfile'] = self.path            # a key file, but a wrong one
        elif how == 2:
            kw['keyfile'] = os.path.join(self.d, 'nothere')
        elif how == 3:
            src = os.path.join(self.d, 'nothere.kdbx')
        else:
            with open(bad, 'wb') as f:
                f.write(data[:len(data) // 2] if how == 4 else data[:-40] + bytes([data[-40] ^ 1]) + data[-39:])
            self.files = self.listing()
            src = bad
        same = self.i % 2 == 1 and not (how == 5 and self.v[0] == 3)                   # with the existing object or a new one
        try:
            self.kp.read(src, **kw) if same else PyKeePass(src, **kw)
        except FAILS:
            if same:
                self.unchanged('a failed read()')
        else:
            if how == 5 and self.v[0] == 3:
                pass            # padding of the cipher is not authenticated in KDBX3
            else:
                raise Violation('opening was expected to fail (%d)' % how)
        self.expect_files('failed opening')

    def op_kf(self, h):
        return False


def run(case, stt):
    w = World.__new__(World)
    w.nsave = w.nreload = 0
    w.__init__(case)
    M.expect_db(w.db, sut.view(w.kp), 'opened database')
    w.expect_files('opening')
    edits = 0
    for op in case['ops']:
        if w.step(op) is False:
            continue
        stt.cls(op[0])
        if op[0] not in EX:
            edits += 1
            w.expect_files('editing (%s)' % op[0])
    w.api()
    w.expect_files('reading')
    stt.nt(edits and (w.nsave or w.nreload))
