import hashlib, random, base64, contextlib, sys
from hypothesis import strategies as st
from .. import gen, ops, sut, model as M, kdbxref as ref
from ..core import check, Violation
ID = 'C28'
QUICK, THOROUGH = 330, 9000
RULE = ('case = format x cipher x compression x kind x size: payload length steered to k*2^20 + delta (delta -40..40) by the length of a text or attachment, written by the implementation or by the reference writer '
        '(blocks of 2^20, of 2^16 or a single one); alignment of small payloads; up to 900 entries, history items, attachments, binaries, fields, siblings or nested groups; texts and attachments up to 36 MB; '
        'non-trivial: payload of at least 2^20 - 100 bytes, or at least 64 elements of a kind, or an alignment case')
B = 2 ** 20
TIMEOUT = 200
SHRINK_S = 40
ASSUMPTIONS = ['sizes up to 36 MB per value and 900 elements per kind; Twofish up to 1 MB (pure Python cipher)']


def _cfg(c):
    return dict(gen.CHEAP, v=c['v'], cipher=c['cipher'], comp=c['comp'], stream='salsa20' if c['v'][0] == 3 else 'chacha20', blocks=c.get('blocks') or [])


def strategy(tier):
    base = {'v': st.sampled_from([[4, 0], [3, 1]]), 'cipher': st.sampled_from(['aes256', 'chacha20']), 'comp': st.booleans()}
    edge = st.fixed_dictionaries(dict(base, kind=st.just('edge'), where=st.sampled_from(['notes', 'password', 'prop', 'att', 'history', 'attprot']), k=st.sampled_from([1, 1, 1, 2, 3]),
                                      delta=st.one_of(st.integers(-18, 18), st.integers(-40, 40))))
    read = st.fixed_dictionaries(dict(base, kind=st.just('read'), where=st.sampled_from(['notes', 'password', 'att']), k=st.sampled_from([1, 1, 2, 3]), delta=st.integers(-18, 18),
                                      blocks=st.sampled_from([[B], [B], [65536], [2 ** 24], [B - 1], [B, 1, 100000]])))
    pad = st.fixed_dictionaries(dict(base, cipher=st.sampled_from(['aes256', 'chacha20', 'twofish']), kind=st.just('pad'), n=st.integers(0, 48), where=st.sampled_from(['notes', 'password', 'att'])))
    many = st.fixed_dictionaries(dict(base, kind=st.just('many'), what=st.sampled_from(['entries', 'groups', 'history', 'attachments', 'binaries', 'props', 'deep']),
                                      n=st.one_of(st.integers(1, 300), st.integers(250, 520 if tier == 'quick' else 900))))
    big = st.fixed_dictionaries(dict(base, kind=st.just('big'), rep=st.booleans(), where=st.sampled_from(['notes', 'password', 'prop', 'att']),
                                     n=st.one_of(*[st.integers(3 * B, 7 * B)] * 4, *[st.integers(9_900_000, 12_000_000)] * 2, st.integers(16_500_000, 18_000_000))))
    two = st.fixed_dictionaries(dict(base, cipher=st.just('twofish'), kind=st.just('big'), rep=st.just(False), where=st.sampled_from(['notes', 'password', 'prop', 'att']), n=st.integers(10_000, 100_000)))
    return st.one_of(two, edge, edge, edge, edge, read, read, pad, pad, many, many, many, big)


def fixed(tier):
    out = []
    for v in ([4, 0], [3, 1]):
        for cipher in ('aes256', 'chacha20'):
            for d in (-32, -17, -16, -15, -1, 0, 1, 15, 16, 17):
                out.append({'v': v, 'cipher': cipher, 'comp': False, 'kind': 'edge', 'where': 'notes', 'k': 1, 'delta': d})
            for d in (-1, 0, 1):
                out.append({'v': v, 'cipher': cipher, 'comp': True, 'kind': 'edge', 'where': 'att', 'k': 1, 'delta': d})
                out.append({'v': v, 'cipher': cipher, 'comp': False, 'kind': 'edge', 'where': 'password', 'k': 2, 'delta': d})
        out.append({'v': v, 'cipher': 'aes256', 'comp': True, 'kind': 'big', 'where': 'notes', 'n': 10_100_000})
        out.append({'v': v, 'cipher': 'chacha20', 'comp': False, 'kind': 'big', 'where': 'att', 'n': 10_100_000})
        out.append({'v': v, 'cipher': 'aes256', 'comp': True, 'kind': 'big', 'rep': True, 'where': 'notes', 'n': 17_000_000})
        out.append({'v': v, 'cipher': 'chacha20', 'comp': True, 'kind': 'big', 'where': 'att', 'n': 34_000_000})
        for n in (65_000, 132_000, 1_060_000):
            out.append({'v': v, 'cipher': 'twofish', 'comp': False, 'kind': 'big', 'where': 'att' if v[0] == 4 else 'notes', 'n': n})
        for n in (255, 256, 257, 300, 600):
            out.append({'v': v, 'cipher': 'aes256', 'comp': True, 'kind': 'many', 'what': 'deep', 'n': n})
            out.append({'v': v, 'cipher': 'aes256', 'comp': True, 'kind': 'many', 'what': 'binaries', 'n': n})
    return out


_rnd = {}


def blob(n, seed=0):
    """n incompressible (or with REP very compressible) bytes, prefix-stable"""
    if REP[0]:
        return bytes(n)
    b = _rnd.get(seed, b'')
    if len(b) < n:
        b = _rnd[seed] = random.Random(seed).randbytes(n + B)
    return b[:n]


REP = [False]


def text(n):
    if REP[0]:
        return 'Aa' * (n // 2) + 'z' * (n % 2)
    b = blob(n * 3 // 4 + 6, 1)
    return base64.b64encode(b).decode()[:n]


def base_db():
    root = M.new_group(gen._uu(0), 'Root')
    e = M.new_entry(gen._uu(1))
    e['s'] = {'Title': ['t', False, {}], 'UserName': ['u', False, {}], 'Password': ['p', True, {}], 'Notes': ['', False, {}]}
    root['ch'].append(e)
    return M.new_db(root), e


def put(db, e, where, n):
    """the model with a value of size n"""
    if where == 'notes':
        e['s']['Notes'] = [text(n), False, {}]
    elif where == 'password':
        e['s']['Password'] = [text(n), True, {}]
    elif where == 'prop':
        e['s']['k'] = [text(n), True, {}]
    elif where == 'history':
        h = M.clone(e)
        h['h'] = []
        h['s']['Notes'] = [text(n), False, {}]
        e['h'] = [h]
    else:
        db['bins'] = [{'data': blob(n), 'prot': where == 'attprot', 'comp': False}]
        e['att'] = [['f', 0]]


def apply(kp, e, where, n):
    """the same edit through the public interface"""
    h = kp.entries[0]
    if where == 'notes':
        h.notes = text(n)
    elif where == 'password':
        h.password = text(n)
    elif where == 'prop':
        h.set_custom_property('k', text(n), protect=True)
    elif where == 'history':
        h.notes = text(n)
        h.save_history()
        h.notes = ''
    else:
        h.add_attachment(kp.add_binary(blob(n), compressed=False, protected=where == 'attprot'), 'f')


def same(m, e, v, what):
    a = M.entries(v)
    check(len(a) == 1, '%s: %d entries', what, len(a))
    a = a[0]
    for k in set(e['s']) | set(a['s']):
        x, y = e['s'].get(k, [''])[0], a['s'].get(k, [''])[0]
        if x != y:
            check(False, '%s: field %r has %d characters, expected %d; first difference at %d', what, k, len(y), len(x), next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), -1))
    check([b['data'] for b in m['bins']] == [bytes(b) for b in v['bins']], '%s: binaries of lengths %r, expected %r', what, [len(b) for b in v['bins']], [len(b['data']) for b in m['bins']])
    check([h['s'].get('Notes', [''])[0] for h in a['h']] == [h['s'].get('Notes', [''])[0] for h in e['h']], '%s: history differs', what)
    check(a['att'] == [list(x) for x in e['att']], '%s: attachments %r', what, a['att'])


def payload(case, data):
    """length of what is split into blocks"""
    return sum(ref.read_kdbx(data, comp=ref.composite('pw'), strict=False)['blocks'])


def produce(case, n):
    cfg = _cfg(case)
    db, e = base_db()
    if case['kind'] == 'read':
        put(db, e, case['where'], n)
        return db, e, sut.make_file(cfg, db)
    kp = sut.open_bytes(sut.make_file(cfg, db))
    apply(kp, e, case['where'], n)
    put(db, e, case['where'], n)
    return db, e, sut.save_bytes(kp)


def readable(case, db, e, data):
    same(db, e, sut.read_ref(data), 'file')
    kp = sut.open_bytes(data)
    same(db, e, sut.view(kp), 'opened database')
    h = kp.entries[0]
    for k in ('notes', 'password'):
        check((getattr(h, k) or '') == e['s'][M.BUILTIN[k]][0], 'accessor %s differs', k)
    if e['att']:
        check(bytes(h.attachments[0].data) == db['bins'][0]['data'], 'attachment differs')
    d2 = sut.save_bytes(kp)
    same(db, e, sut.read_ref(d2), 'file saved again')
    same(db, e, sut.view(sut.open_bytes(d2)), 'database opened again')


def run(case, stt):
    kind = case['kind']
    REP[0] = bool(case.get('rep'))
    stt.cls(kind, 'v%d' % case['v'][0])
    if kind in ('edge', 'read'):
        target = case['k'] * B + case['delta']
        n = target - 4096 if not case['comp'] and case['where'] not in ('att', 'attprot') else target // 2
        best = None
        for _ in range(9):
            db, e, data = produce(case, n)
            try:
                got = payload(case, data)
            except ref.RefError as ex:
                raise Violation('file of %d bytes is rejected by the independent reader: %s' % (len(data), ex))
            if best is None or abs(got - target) < abs(best[0] - target):
                best = (got, db, e, data)
            if got == target:
                break
            # bytes of payload per unit of content
            r = 1.0
            if case['v'][0] == 3 and case['where'] in ('att', 'attprot'):
                r = 4 / 3
            if case['where'] in ('password', 'prop'):
                r = 4 / 3
            if case['comp'] and not (case['v'][0] == 4 and case['where'] in ('att', 'attprot')):
                r *= 0.76
            step = int((target - got) / r)
            n = max(0, n + (step or (1 if target > got else -1)))
        got, db, e, data = best
        readable(case, db, e, data)
        off = abs(got - target)
        stt.cls('hit_exactly' if off == 0 else 'hit_within_16' if off <= 16 else 'hit_within_%d' % (1 << off.bit_length()))
        if got % B == 0:
            stt.cls('exact_multiple')
        stt.nt(got >= B - 100)
    elif kind == 'pad':
        db, e, data = produce(case, case['n'])
        readable(case, db, e, data)
        stt.nt()
    elif kind == 'big':
        db, e, data = produce(dict(case, kind='edge'), case['n'])
        readable(case, db, e, data)
        db, e, data = produce(dict(case, kind='read'), case['n'])
        readable(case, db, e, data)
        stt.nt()
    else:
        many(case, stt)


@contextlib.contextmanager
def plain_stack():
    """the stack an ordinary caller has (Hypothesis allows more)"""
    old, f, n = sys.getrecursionlimit(), sys._getframe(), 0
    while f:
        f, n = f.f_back, n + 1
    sys.setrecursionlimit(n + 960)
    try:
        yield
    finally:
        sys.setrecursionlimit(old)


def many(case, stt):
    n, what = case['n'], case['what']
    db, e = base_db()
    root = db['root']
    if what == 'entries':
        for i in range(n):
            x = M.new_entry(gen._uu(10 + i))
            x['s'] = {'Title': ['t%d' % i, False, {}], 'Password': ['p%d' % i, True, {}]}
            root['ch'].append(x)
    elif what == 'groups':
        root['ch'] += [M.new_group(gen._uu(10 + i), 'g%d' % i) for i in range(n)]
    elif what == 'history':
        for i in range(n):
            h = M.clone(e)
            h['h'] = []
            h['s']['Title'][0] = 'h%d' % i
            e['h'].append(h)
    elif what == 'attachments':
        db['bins'] = [{'data': b'%d' % i, 'prot': False, 'comp': False} for i in range(3)]
        e['att'] = [['a%d' % i, i % 3] for i in range(n)]
    elif what == 'binaries':
        db['bins'] = [{'data': b'%d' % i, 'prot': bool(i % 2), 'comp': False} for i in range(n)]
        e['att'] = [['a', n - 1], ['b', n // 2]]
    elif what == 'props':
        for i in range(n):
            e['s']['k%d' % i] = ['v%d' % i, bool(i % 3), {}]
    else:
        g = root
        for i in range(n):
            x = M.new_group(gen._uu(10 + i), 'g%d' % i)
            g['ch'].append(x)
            g = x
        x = M.new_entry(gen._uu(5))
        x['s'] = {'Title': ['deepest', False, {}], 'Password': ['p', True, {}]}
        g['ch'].append(x)
    data = sut.make_file(_cfg(case), db)
    kp = sut.open_bytes(data)
    M.expect_db(db, sut.view(kp), 'opened database')
    if what == 'deep':
        t = [g['name'] for g in M.groups(db)[1:]]
        with plain_stack():
            h = kp.find_entries(path=t + ['deepest'])
            [h.path, str(h)]
            gs = kp.groups
            for i in sorted({1, n // 2, n - 1, n}):
                check(gs[i].path == t[:i], 'path of a group at depth %d is wrong', i)
                check(kp.find_groups(path=t[:i]) == gs[i], 'group at depth %d is not found by its path', i)
        check(h is not None and h.uuid.hex == gen._uu(5), 'deepest entry is not found by its path')
        check(h.path == t + ['deepest'], 'path of the deepest entry has %d items', len(h.path))
        h = kp.find_entries(title='deepest', first=True)
        check(h is not None and h.group.name == t[-1], 'deepest entry is not found by its title')
        h.username = 'x'
        x['s']['UserName'] = ['x', False, {}]
        s = kp.add_group(h.group, 'more')
        m = M.new_group(s.uuid.hex, 'more')
        m['t'], m['icon'], m['exp'] = M.ANY, M.ANY, False
        g['ch'].append(m)
        check(len(kp.groups) == n + 2, '%d groups', len(kp.groups))
    else:
        h = kp.find_entries(title='t', first=True, group=kp.root_group, recursive=False)
        check(h is not None, 'first entry not found')
        check(len(kp.entries) == len(M.entries(db)) and len(kp.groups) == len(M.groups(db)), '%d entries, %d groups', len(kp.entries), len(kp.groups))
        h.username = 'x'
        e['s']['UserName'] = ['x', False, {}]
        if what == 'history':
            h.save_history()
            c = M.clone(e)
            c['h'] = []
            e['h'].append(c)
        elif what == 'binaries':
            i = kp.add_binary(b'new', compressed=False, protected=False)
            check(i == n, 'add_binary returned %r', i)
            h.add_attachment(i, 'c')
            db['bins'].append({'data': b'new', 'prot': False, 'comp': False})
            e['att'].append(['c', n])
            check(len(h.attachments) == 3 and [bytes(a.data) for a in h.attachments] == [db['bins'][r]['data'] for _, r in e['att']], 'attachments differ')
        elif what == 'attachments':
            check([(a.filename, a.id) for a in h.attachments] == [tuple(x) for x in e['att']], 'attachments differ')
            check(len(kp.find_attachments(id=1)) == len([1 for a in e['att'] if a[1] == 1]), 'find_attachments')
        elif what == 'props':
            check(h.custom_properties == {k: v[0] for k, v in e['s'].items() if k not in M.RESERVED}, 'custom properties differ')
        elif what == 'entries':
            x = kp.find_entries(title='t%d' % (n - 1), first=True)
            check(x is not None and x.password == 'p%d' % (n - 1), 'last entry')
        elif what == 'groups':
            x = kp.find_groups(name='g%d' % (n - 1), first=True)
            check(x is not None and x.uuid.hex == gen._uu(10 + n - 1), 'last group')
    for i in range(2):
        data = sut.save_bytes(kp)
        v = sut.read_ref(data)
        if what == 'deep':
            mm = [y for y in M.walk(v['root']) if y['k'] == 'g' and y['name'] == 'more']
            check(len(mm) == 1, 'added group is missing')
            m['t'], m['icon'], m['x'], m['tx'], m['notes'] = mm[0]['t'], mm[0]['icon'], mm[0]['x'], mm[0]['tx'], mm[0]['notes']
        M.expect_db(db, v, 'saved file')
        kp = sut.open_bytes(data)
        M.expect_db(db, sut.view(kp), 'reopened database')
    stt.cls('many_' + what)
    stt.nt(n >= 64)
