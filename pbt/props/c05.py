import io, os
from hypothesis import strategies as st
from .. import gen, sut, model as M, kdbxref as ref
from ..core import check, scratch, Violation
ID = 'C05'
QUICK, THOROUGH = 3000, 60000
RULE = ('case = full file configuration x small database x initial credentials x up to 3 credential changes (key files under new paths or replaced under the same path) with saves x up to 6 probe credentials; a probe opens '
        'the file iff its composite key (computed independently) is the current one, otherwise CredentialsError; non-trivial: at least one wrong probe')
_XML2 = ('<KeyFile><Meta><Version>2.0</Version></Meta><Key><Data Hash="%s">%s</Data></Key></KeyFile>')


def _kfs():
    k = bytes(range(32))
    return [b'a', b'b', b'', k, bytes(31) + b'\1', b'0' * 64, b'1' * 64, (b'ab' * 32), (b'AB' * 32), b'x' * 31, b'x' * 33,
            (_XML2 % (ref.sha256(k)[:4].hex(), k.hex())).encode(), b'pw']


pwd = st.one_of(st.none(), st.sampled_from(['', 'pw', 'pw ', ' pw', 'PW', 'p', 'pw\0', 'pw\n', '\0', '\0\0', ' ', '\n', '\t', '\x7f', '\ufeff', '\ufeffpw', '\u200b', '0', 'None', 'False', '\x1b[A', '\U0001f600', 'e\u0301', '\u00e9', 'a', 'x' * 64, 'x' * 65, 'x' * 200]), gen.text)
kfs = st.one_of(st.none(), st.none(), st.integers(0, 12), st.binary(max_size=40).map(bytes.hex))
cred = st.tuples(pwd, kfs).map(list)
near = st.tuples(st.sampled_from(['drop', 'add', 'case', 'swap', 'nokf', 'nopw', 'nopw', 'empty', 'strip', 'same']), st.integers(0, 20)).map(list)


def strategy(tier):
    return st.fixed_dictionaries({'init': cred, 'changes': st.lists(st.tuples(st.sampled_from(['pw', 'kf', 'both']), cred).map(list), max_size=3),
                                  'probes': st.lists(st.one_of(near, cred), min_size=1, max_size=6), 'cfg': gen.cfg(twofish=True),
                                  'db': gen.database(maxnodes=2, omit=True), 'path': st.booleans(), 'reuse': st.booleans()})


def kfb(k):
    if k is None:
        return None
    return bytes.fromhex(k) if isinstance(k, str) else _kfs()[k]


def variant(p, cur):
    """turn a probe into (password, key file bytes)"""
    if p[0] in ('drop', 'add', 'case', 'swap', 'nokf', 'nopw', 'empty', 'strip', 'same') and isinstance(p[1], int) and len(p) == 2 and p[0] is not None:
        pw, kf = cur
        k, i = p
        if k == 'drop' and pw:
            pw = pw[:i % len(pw)] + pw[i % len(pw) + 1:]
        elif k == 'add':
            pw = (pw or '') + 'x'
        elif k == 'case' and pw:
            pw = pw.swapcase()
        elif k == 'swap' and kf:
            j = i % len(kf)
            kf = kf[:j] + bytes([kf[j] ^ 1]) + kf[j + 1:]
        elif k == 'nokf':
            kf = None if kf is not None else b'extra'
        elif k == 'nopw':
            pw = None
        elif k == 'strip' and pw:
            pw = [pw.strip(), pw.strip('\0'), pw.encode('ascii', 'ignore').decode(), pw[:i + 1]][i % 4]
        elif k == 'empty':
            pw = '' if pw is None else pw
        return pw, kf
    return p[0], kfb(p[1])


def arg(kf, path, d, n):
    if kf is None:
        return None
    if not path:
        return io.BytesIO(kf)
    p = os.path.join(d, 'k%d.key' % n)
    with open(p, 'wb') as f:
        f.write(kf)
    return p


def probe_all(data, probes, cur, db, case, d, stt):
    from pykeepass.exceptions import CredentialsError
    good = ref.composite(*cur)
    for n, p in enumerate([['same', 0]] + probes):
        pw, kf = variant(p, cur)
        same = ref.composite(pw, kf) == good
        try:
            kp = sut.open_bytes(data, pw, arg(kf, case['path'], d, n))
        except CredentialsError:
            check(not same, 'correct credentials %r are refused', (pw, kf))
            stt.cls('refused')
            stt.nt()
            continue
        check(same, 'database with credentials %r opens with %r', cur, (pw, kf))
        stt.cls('opened')
        if n == 0:
            M.expect_db(db, sut.view(kp), 'opened database')


def same_object(kp, cfg, db, cur, probes, case, d):
    """an object that reads another file has that file's credentials and no others"""
    pw, kf = variant(probes[0], cur)
    other = sut.make_file(cfg, db, pw, kf)
    a = arg(kf, case['path'], d, 400)
    kp.read(io.BytesIO(other), password=pw, keyfile=a)
    check(kp.password == pw and kp.keyfile is a, 'after reading another file the credentials are %r, expected %r', (kp.password, kp.keyfile), (pw, a))
    out = sut.save_bytes(kp)
    sut.read_ref(out, pw, kf)


def run(case, stt):
    d = scratch()
    cfg, db = gen.real_cfg(case['cfg']), gen.build(case['db'])
    cur = (case['init'][0], kfb(case['init'][1]))
    data = sut.make_file(cfg, db, *cur)
    probe_all(data, case['probes'], cur, db, case, d, stt)
    kp = sut.open_bytes(data, cur[0], arg(cur[1], case['path'], d, 100))
    reuse = case.get('reuse')
    old = []
    for i, (what, c) in enumerate(case['changes']):
        old.append(cur)
        pw, kf = c[0], kfb(c[1])
        if what == 'pw':
            kf = cur[1]
        if what == 'kf':
            pw = cur[0]
        if what != 'kf':
            kp.password = pw
        if what != 'pw':
            kp.keyfile = arg(kf, case['path'], d, 100 if reuse else 200 + i)
        cur = (pw, kf)
        check(kp.password == pw, 'password reads %r', kp.password)
        db['meta']['changed'] = M.ANY
        data = sut.save_bytes(kp)
        sut.read_ref(data, *cur)
        probe_all(data, case['probes'] + [[o[0], o[1].hex() if o[1] is not None else None] for o in old], cur, db, case, d, stt)
    if case['changes'] and case['path']:
        p = os.path.join(d, 'r.kdbx')
        kp.save(p)
        k2 = sut.open_db(p, cur[0], kp.keyfile)
        k2.password = 'zz'
        k2.save()
        from pykeepass.exceptions import CredentialsError
        k2.reload()
        M.expect_db(db, sut.view(k2), 'after changing the password, saving and reloading')
    same_object(kp, cfg, gen.build(case['db']), cur, case['probes'], case, d)
