import hashlib, io, os, pathlib, resource, shutil, signal, struct, sys, tempfile
from hypothesis import strategies as st
from .. import gen, ops, sut, model as M, kdbxref as ref
from ..core import check, scratch, Violation, HarnessError
ID = 'C09'
LEVEL = 'fault_enumeration'
FAULTS = True
QUICK, THOROUGH = 2800, 30000
RULE = ('case = file configuration x database (up to 1.2 MB) x target name x other files in the directory x one fault while saving: process killed at a chosen call/return '
        'boundary of the save, process killed or write refused at a chosen byte (RLIMIT_FSIZE), missing or failing key file, unencodable credentials, missing directory, '
        'interrupt; the database on the file system of the temporary directory or on another one; directory contents compared afterwards; plus an enumeration of the last call boundaries of one save; non-trivial: the fault took effect')
ASSUMPTIONS = ['a crash is a process death: what the kernel was given survives (no power failure model)', 'rename within a directory is atomic']
NAMES = ['db.kdbx', 'db.kdbx', 'db.kdbx', 'db', '.db', 'db.tmp', 'db.kdbx.tmp', 'a b"c\'.kdbx', '\u00fcn\u00ef.kdbx', 'x' * 250, 'db.tar.kdbx', 'tmp', '.tmp', 'db.', '-rf', '$PBTX', '${PBTX}.kdbx', '~', '~.kdbx', '%PBTX%', 'db*', 'd?', 'db[1].kdbx', 'a\\b.kdbx', 'db.kdbx ', 'file:db', 'DB.KDBX']
SIB = ['{n}.tmp', '{s}.tmp', '{n}~', '{n}.bak', '{s}.bak', '{s}', '.{n}.tmp', '.{n}.swp', '{n}.new', '{n}.old', '{n}.lock', 'tmp', '.tmp', 'other.kdbx', 'temp', '{s}.kdbx.tmp',
       '{s}.tmp.kdbx', '~{n}', 'tmp{n}', '{n}.1', '{n}.save', '{s}_tmp', '{s}.part', '{n}.part', '{n}.temp', '{s}.temp', 'other', 'b.kdbx', 'db1.kdbx', 'dx', 'db']
fault = st.one_of(
    st.tuples(st.just('kill'), st.integers(0, 150)), st.tuples(st.just('kill'), st.integers(0, 150)), st.tuples(st.just('killat'), st.integers(0, 10 ** 6)),
    st.tuples(st.just('fskill'), st.integers(0, 10 ** 6)), st.tuples(st.just('full'), st.integers(0, 10 ** 6)), st.tuples(st.just('full'), st.integers(0, 10 ** 6)),
    st.tuples(st.just('bad'), st.sampled_from(['nokf', 'kfdir', 'pwtype', 'pwsurr', 'kfraise', 'kfint', 'tktype', 'kfhash'])),
    st.tuples(st.just('bad'), st.sampled_from(['nokf', 'kfdir', 'pwtype', 'pwsurr', 'kfraise', 'kfint', 'tktype', 'kfhash'])),
    st.tuples(st.just('nodir'), st.just(0)), st.tuples(st.just('ok'), st.just(0))).map(list)


def strategy(tier):
    return st.fixed_dictionaries({'fault': fault, 'name': st.integers(0, len(NAMES) - 1), 'sib': st.lists(st.integers(0, len(SIB) - 1), max_size=6, unique=True),
                                  'sibdir': st.booleans(), 'how': st.integers(0, 3), 'big': st.sampled_from([0, 0, 5000, 70000, 1200000]), 'cfg': gen.cheap_cfg(),
                                  'db': gen.database(maxnodes=2), 'new': st.sampled_from([False, False, True]), 'as': st.booleans(), 'fs': st.booleans(), 'alias': st.sampled_from([0, 0, 1, 2])})


def fixed(tier):
    base = {'name': 0, 'sib': [0, 1], 'sibdir': False, 'how': 0, 'cfg': gen.CHEAP, 'new': False, 'as': False,
            'db': {'meta': {'name': '', 'desc': '', 'user': '', 'rec': '-1', 'force': '-1', 'changed': gen._T2020}, 'nodes': [], 'bins': [], 'bin': None, 'mx': [], 'rx': [],
                   'root': {'name': 'r', 'notes': '', 'icon': '', 'exp': False, 't': [gen._T2020], 'x': [], 'tx': []}}}
    out = []
    for big in (0, 70000) if tier == 'quick' else (0, 5000, 70000, 1200000):
        out += [dict(base, fault=['kill', k], big=big) for k in range(0, 90 if tier == 'quick' else 1500)]
    out += [dict(base, fault=['kill', k], big=5000, fs=True) for k in range(0, 60 if tier == 'quick' else 400)]
    out += [dict(base, fault=['full', k * 15625], big=20000) for k in range(64)]
    out += [dict(base, fault=['fskill', k * 31250], big=20000) for k in range(32)]
    return out


class Killer:
    def __init__(self, at=None):
        self.n, self.at = 0, at

    def __call__(self, frame, event, arg):
        self.n += 1
        if self.n == self.at:
            os._exit(77)


def child(fn):
    """run fn in a forked process; -> ('exit', code) or ('signal', n), and what it wrote to the pipe"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 99
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.alarm(100)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            res = fn()
            os.write(w, struct.pack('<q', res or 0))
            code = 0
        except BaseException:
            code = 98
        finally:
            os._exit(code)
    os.close(w)
    data = b''
    while True:
        d = os.read(r, 100)
        if not d:
            break
        data += d
    os.close(r)
    _, s = os.waitpid(pid, 0)
    kind = ('signal', os.WTERMSIG(s)) if os.WIFSIGNALED(s) else ('exit', os.WEXITSTATUS(s))
    return kind, struct.unpack('<q', data)[0] if len(data) == 8 else None


class BadFile(io.RawIOBase):
    def __init__(self, exc):
        self.exc = exc

    def read(self, n=-1):
        raise self.exc('read failed')

    def seekable(self):
        return False


def listing(d):
    out = {}
    for base, dirs, files in os.walk(d):
        for n in files:
            p = os.path.join(base, n)
            if os.path.islink(p):
                out[os.path.relpath(p, d)] = b'-> ' + os.readlink(p).encode()
                continue
            with open(p, 'rb') as f:
                out[os.path.relpath(p, d)] = f.read()
        for n in dirs:
            out[os.path.relpath(os.path.join(base, n), d) + '/'] = b''
    return out


def other_fs():
    """a directory on another file system than the temporary directory, or None"""
    try:
        if os.stat('/dev/shm').st_dev != os.stat(tempfile.gettempdir()).st_dev:
            return tempfile.mkdtemp(prefix='pbt-C09-', dir='/dev/shm')
    except OSError:
        pass


def run(case, stt):
    env, old, shm = dict(os.environ), tempfile.tempdir, other_fs() if case.get('fs') else None
    stt.cls('other_fs' if shm else 'same_fs')
    try:
        tmp = scratch()
        os.environ['TMPDIR'] = tempfile.tempdir = tmp
        # an expanded name must not lead out of the scratch directory
        os.environ['HOME'], os.environ['PBTX'] = tmp, 'other'
        _run(case, stt, tmp, shm)
    finally:
        tempfile.tempdir = old
        os.environ.clear()
        os.environ.update(env)
        os.chdir('/')
        if shm:
            shutil.rmtree(shm, ignore_errors=True)


def _run(case, stt, tmp, shm):
    d, other = (os.path.join(shm, 'd'), os.path.join(shm, 'o')) if shm else (scratch(), scratch())
    if shm:
        os.mkdir(d)
        os.mkdir(other)
    cfg, db = gen.real_cfg(case['cfg']), gen.build(case['db'])
    name = NAMES[case['name']]
    old = sut.make_file(cfg, db, 'pw')
    kw = {'pw': 'pw', 'kf': None}
    src = name if not case['as'] else 'source.kdbx'
    with open(os.path.join(d, src), 'wb') as f:
        f.write(old)
    for i in case['sib']:
        stem = os.path.splitext(name)[0]
        n = SIB[i].format(n=name, s=stem)
        if n in (name, src) or len(n.encode()) > 250 or os.path.exists(os.path.join(d, n)):
            continue
        if case['sibdir'] and i % 3 == 0:
            os.mkdir(os.path.join(d, n))
            n = os.path.join(n, 'inner')
        with open(os.path.join(d, n), 'wb') as f:
            f.write(b'other file ' + n.encode())
    os.chdir(d)
    full = os.path.join(d, name)
    arg = [full, pathlib.Path(full), name, pathlib.Path(name)][case['how']]
    kp = sut.open_db(os.path.join(d, src) if case['as'] else arg, 'pw')
    if case['as'] and not case['new']:
        with open(full, 'wb') as f:
            f.write(b'previous content of another file' * 10)
    kp.add_entry(kp.root_group, 'new entry', 'u', 'p')
    if case['big']:
        data = hashlib.shake_128(b'%d' % case['big']).digest(case['big'])
        kp.entries[0].add_attachment(kp.add_binary(data, compressed=False), 'big')
    target = {} if not case['as'] else {'filename': arg}
    # other names of the same file
    if case.get('alias') and os.path.exists(full):
        other_name = os.path.join(d, 'alias')
        os.link(full, other_name) if case['alias'] == 1 else os.symlink(name, other_name)
    before = listing(d)
    what, how = case['fault']
    restore = None
    if what == 'bad':
        tkw = {}
        if how == 'nokf':
            kp.keyfile = os.path.join(d, 'missing.key')
        elif how == 'kfdir':
            kp.keyfile = d
        elif how == 'pwtype':
            kp.password = 12345
        elif how == 'pwsurr':
            kp.password = '\ud800'
        elif how == 'kfraise':
            kp.keyfile = BadFile(OSError)
        elif how == 'kfint':
            kp.keyfile = BadFile(KeyboardInterrupt)
        elif how == 'kfhash':
            kp.keyfile = io.BytesIO(b'<KeyFile><Meta><Version>2.0</Version></Meta><Key><Data Hash="00000000">' + b'11' * 32 + b'</Data></Key></KeyFile>')
        elif how == 'tktype':
            tkw = {'transformed_key': 'not bytes'}
    new = M.freeze(sut.view(kp))

    def save(**k):
        return kp.save(**dict(target, **k))

    def complete(data, label):
        v = sut.read_ref(data, **{'password': kw['pw'], 'keyfile': kw['kf']})
        M.expect_db(new, v, label)

    def check_dir(label, must=None, leftovers=False):
        """must: 'old' / 'new' / None for either"""
        after = listing(d)
        for n, b in before.items():
            if n == name:
                continue
            check(n in after, '%s: file %r vanished', label, n)
            check(after[n] == b, '%s: file %r was changed', label, n)
        extra = sorted(set(after) - set(before) - {name})
        if not leftovers:
            check(not os.listdir(tmp), '%s: files %r were left in the temporary directory', label, sorted(os.listdir(tmp)))
            check(not extra, '%s: files %r were left behind', label, extra)
        got = after.get(name)
        if got is not None and got == before.get(name) or got is None and name not in before:
            check(must != 'new', '%s: the target was not written', label)
            return 'old'
        check(must != 'old', '%s: the target was changed', label)
        check(got is not None, '%s: the target vanished', label)
        try:
            complete(got, 'saved file')
        except Violation as e:
            raise Violation('%s: target holds neither the previous file nor the new database (%d bytes; previously %d): %s' % (
                label, len(got), len(before.get(name, b'')), e))
        return 'new'
    label = 'fault %s %s' % (what, how)
    if what in ('kill', 'killat'):
        def count():
            k = Killer()
            sys.setprofile(k)
            kp.save(os.path.join(other, 'copy'))
            sys.setprofile(None)
            return k.n
        kind, total = child(count)
        if total is None:
            raise HarnessError('could not save in a child process: %r' % (kind,))
        at = max(1, total - how) if what == 'kill' else 1 + total * how // 10 ** 6

        def die():
            k = Killer(at)
            sys.setprofile(k)
            save()
            sys.setprofile(None)
        kind, _ = child(die)
        check(kind in (('exit', 77), ('exit', 0)), '%s: save failed in the child: %r', label, kind)
        res = check_dir('killed at call boundary %d of %d' % (at, total), leftovers=True, must='new' if kind == ('exit', 0) else None)
        stt.cls('killed' if kind[1] else 'not reached', 'after kill: ' + res)
        stt.nt(kind[1] == 77)
    elif what in ('fskill', 'full'):
        size = len(sut.save_bytes(kp))
        limit = size * how // 10 ** 6
        if what == 'fskill':
            def die():
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, resource.RLIM_INFINITY))
                save()
            kind, _ = child(die)
            check(kind in (('signal', signal.SIGXFSZ), ('exit', 0)), '%s: unexpected end %r', label, kind)
            res = check_dir('killed at byte %d of %d' % (limit, size), leftovers=True, must='new' if kind == ('exit', 0) else None)
            stt.nt(kind[0] == 'signal')
            stt.cls('after kill: ' + res)
        else:
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            oldlim = resource.getrlimit(resource.RLIMIT_FSIZE)
            failed = None
            try:
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, oldlim[1]))
                try:
                    save()
                except Exception as e:
                    failed = e
            finally:
                resource.setrlimit(resource.RLIMIT_FSIZE, oldlim)
            if failed is None:
                check_dir('%s (limit %d of %d) without error' % (label, limit, size), must='new')
                stt.cls('no error')
            else:
                check_dir('write refused at byte %d of %d' % (limit, size), must='old')
                stt.nt()
                stt.cls('write refused')
                M.expect_db(new, sut.view(kp), 'open database after a failed save')
    elif what == 'bad':
        try:
            save(**tkw)
        except (Exception, KeyboardInterrupt):
            pass
        else:
            raise Violation('%s: saving succeeded' % label)
        stt.nt()
        stt.cls('bad_' + how)
        check_dir(label, must='old')
        M.expect_db(new, sut.view(kp), 'open database after a failed save')
        if how.startswith('kf') or how == 'nokf':
            kp.keyfile = None
        kp.password = 'pw'
        new['meta']['changed'] = M.ANY
    elif what == 'nodir':
        try:
            kp.save(os.path.join(d, 'missing', 'x.kdbx'))
        except Exception:
            pass
        else:
            raise Violation('saving into a missing directory succeeded')
        check_dir(label, must='old')
        M.expect_db(new, sut.view(kp), 'open database after a failed save')
        stt.nt()
    # the database is still usable: a later save succeeds
    if what not in ('kill', 'killat', 'fskill'):
        save()
        check_dir('save after %s' % label, must='new')
        before = listing(d)
        save()
        check_dir('second save')
        stt.nt(what == 'ok')
    M.expect_db(new, sut.view(kp), 'open database')
    stt.cls(what)
