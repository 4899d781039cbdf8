import os, resource, signal, struct
from hypothesis import strategies as st
from .. import gen, sut, model as M, kdbxref as ref
from ..core import check, Violation, HarnessError
ID = 'C07'
QUICK, THOROUGH = 8000, 100000
TIMEOUT = 40
RULE = ('case = file configuration x database x up to 10 modifications of the file (bit flips, overwritten / inserted / removed / repeated ranges, truncation, blocks '
        'swapped / dropped / repeated / moved between files of the same credentials, KDBX4 header fields changed with the unkeyed hash recomputed), plus a complete sweep '
        'over every byte of small files; opening must raise or show the original content; non-trivial: the modified file differs from the original one')
ASSUMPTIONS = ['the modifier does not know the credentials, and KDBX3 headers (which that format does not authenticate) are left alone',
               'key derivation settings without a valid header hash must be refused before use: CPU limit of 4 s in a child process for 2^50 rounds']
n16 = st.integers(0, 65535)
mut = st.one_of(
    st.tuples(st.just('flip'), n16, st.integers(0, 7)),
    st.tuples(st.just('flip'), n16, st.integers(0, 7)),
    st.tuples(st.just('set'), n16, st.integers(0, 255)),
    st.tuples(st.just('over'), n16, st.integers(1, 40), st.integers(0, 255)),
    st.tuples(st.just('del'), n16, st.sampled_from([1, 2, 4, 16, 32, 36, 100])),
    st.tuples(st.just('ins'), n16, st.binary(min_size=1, max_size=20).map(bytes.hex)),
    st.tuples(st.just('dup'), n16, st.sampled_from([1, 4, 16, 32, 64])),
    st.tuples(st.just('trunc'), n16),
    st.tuples(st.just('tail'), st.binary(min_size=1, max_size=60).map(bytes.hex)),
    st.tuples(st.just('swap16'), n16, n16),
    st.tuples(st.just('blk'), st.sampled_from(['swap', 'drop', 'dup', 'end', 'graft', 'last']), n16, n16),
    st.tuples(st.just('blk'), st.sampled_from(['swap', 'drop', 'dup', 'end', 'graft', 'last']), n16, n16),
    st.tuples(st.just('head'), st.sampled_from(['flip', 'seed', 'iv', 'comp', 'comment', 'public', 'drop', 'dupfield', 'salt', 'minor', 'kdfitem', 'order', 'cipher']), n16, st.integers(0, 7)),
    st.tuples(st.just('head'), st.sampled_from(['flip', 'seed', 'iv', 'comp', 'comment', 'public', 'drop', 'dupfield', 'salt', 'minor', 'kdfitem', 'order', 'cipher']), n16, st.integers(0, 7)),
    st.tuples(st.just('kdf'), st.integers(0, 3))).map(list)
region = st.sampled_from(['all', 'all', 'head', 'hash', 'hmac', 'blocks', 'last'])


def strategy(tier):
    return st.fixed_dictionaries({'cfg': gen.cfg(), 'db': gen.database(maxnodes=3), 'muts': st.lists(st.tuples(region, mut).map(list), min_size=1, max_size=10),
                                  'saved': st.booleans(), 'tk': st.booleans()})


CF = [dict(gen.CHEAP), dict(gen.CHEAP, v=[4, 1], cipher='aes256', comp=True, blocks=[100, 64]), dict(gen.CHEAP, v=[3, 1], cipher='aes256', stream='salsa20'),
      dict(gen.CHEAP, v=[3, 1], cipher='chacha20', comp=True, stream='salsa20', blocks=[64, 100]),
      dict(gen.CHEAP, kdf={'name': 'argon2', 'n': 1, 'm': 1, 'p': 1, 'saltlen': 32, 'ver': 0x13}, blocks=[256])]


def _small():
    root = M.new_group(gen._uu(0), 'r', M.US * 10 ** 10)
    e = M.new_entry(gen._uu(1), M.US * 10 ** 10)
    e['s'] = {'Title': ['t', False, {}], 'Password': ['secret', True, {}]}
    e['att'] = [['f', 0]]
    root['ch'].append(e)
    db = M.new_db(root)
    db['bins'] = [{'data': b'binary', 'prot': False, 'comp': False}]
    return db


def fixed(tier):
    """every byte of small files"""
    out = []
    for c in range(len(CF)):
        n = len(sut.make_file(CF[c], _small(), 'pw'))
        bits = range(8) if tier == 'thorough' else [c % 8]
        for bit in bits:
            out += [{'sweep': c, 'bit': bit, 'from': i, 'to': min(i + 120, n)} for i in range(0, n, 120)]
    return out


def parts(data, tk):
    r = ref.read_kdbx(data, transformed=tk, strict=False)
    return r['header'], r


def apply(data, m, h, r, reg, other):
    """modified bytes, or None when not applicable"""
    v4 = h['version'][0] == 4
    end = h['end']
    lo, hi = 0, len(data)
    if not v4:
        lo = end
    elif reg == 'head':
        hi = end
    elif reg == 'hash':
        lo, hi = end, end + 32
    elif reg == 'hmac':
        lo, hi = end + 32, end + 64
    elif reg == 'blocks':
        lo = end + 64
    if reg == 'last':
        lo = max(lo, hi - 60)
    k = m[0]
    at = lambda n: lo + n % max(1, hi - lo)
    if k == 'flip':
        i = at(m[1])
        return data[:i] + bytes([data[i] ^ (1 << m[2])]) + data[i + 1:]
    if k == 'set':
        i = at(m[1])
        return data[:i] + bytes([m[2]]) + data[i + 1:]
    if k == 'over':
        i = at(m[1])
        n = min(m[2], hi - i)
        return data[:i] + bytes([m[3]]) * n + data[i + n:]
    if k == 'del':
        i = at(m[1])
        return data[:i] + data[i + m[2]:]
    if k == 'ins':
        i = at(m[1])
        return data[:i] + bytes.fromhex(m[2]) + data[i:]
    if k == 'dup':
        i = at(m[1])
        return data[:i] + data[i:i + m[2]] + data[i:]
    if k == 'trunc':
        return data[:at(m[1])]
    if k == 'tail':
        return data + bytes.fromhex(m[1])
    if k == 'swap16':
        a, b = sorted([(at(m[1]) - end) // 16, (at(m[2]) - end) // 16])
        a, b = end + 16 * a, end + 16 * b
        if a < lo or a == b or b + 16 > len(data):
            return None
        return data[:a] + data[b:b + 16] + data[a + 16:b] + data[a:a + 16] + data[b + 16:]
    if k == 'blk':
        if not v4:
            return None
        blocks = [data[a:b] for a, b in r['block_pos']]
        pre, post = data[:r['block_pos'][0][0]], data[r['end']:]
        i, j = m[2] % len(blocks), m[3] % len(blocks)
        if m[1] == 'swap':
            blocks[i], blocks[j] = blocks[j], blocks[i]
        elif m[1] == 'drop':
            del blocks[i]
        elif m[1] == 'dup':
            blocks.insert(j, blocks[i])
        elif m[1] == 'end':
            blocks = blocks[:i] + blocks[-1:]
        elif m[1] == 'last':
            blocks[-1] = bytes(32) + struct.pack('<I', 0)
        elif m[1] == 'graft' and other:
            blocks[i] = other[j % len(other)]
        return pre + b''.join(blocks) + post
    if k == 'head':
        if not v4:
            return None
        f = list(h['fields'][:-1])
        idx = {i: n for n, (i, _) in enumerate(f)}
        minor = h['version'][1]

        def flipv(i):
            v = bytearray(f[idx[i]][1])
            v[m[2] % len(v)] ^= 1 << m[3]
            f[idx[i]] = (i, bytes(v))
        w = m[1]
        if w == 'flip':
            i = [1, 4, 7, 12][m[2] % 4]
            if i not in idx or not f[idx[i]][1]:
                return None
            flipv(i)
        elif w == 'seed':
            f[idx[4]] = (4, f[idx[4]][1][::-1])
        elif w == 'iv':
            flipv(7)
        elif w == 'comp':
            f[idx[3]] = (3, struct.pack('<I', 1 - struct.unpack('<I', f[idx[3]][1])[0]))
        elif w == 'comment':
            if 1 in idx:
                f[idx[1]] = (1, f[idx[1]][1] + b'x')
            else:
                f.insert(m[2] % (len(f) + 1), (1, b'note'))
        elif w == 'public':
            pub = ref._variant_dict([(0x42, 'Pub', b'evil')])
            if 12 in idx:
                f[idx[12]] = (12, pub)
            else:
                f.insert(m[2] % (len(f) + 1), (12, pub))
        elif w == 'drop':
            c = [i for i in (1, 12) if i in idx]
            if not c:
                return None
            del f[idx[c[m[2] % len(c)]]]
        elif w == 'dupfield':
            f.insert(m[2] % (len(f) + 1), f[m[2] % len(f)])
        elif w in ('salt', 'kdfitem'):
            vd = ref._read_variant(f[idx[11]][1])
            if w == 'salt':
                s = bytearray(vd['S'][1])
                s[m[2] % len(s)] ^= 1 << m[3]
                vd['S'] = (vd['S'][0], bytes(s))
            else:
                vd['zz%d' % (m[2] % 9)] = (0x42, b'evil')
            f[idx[11]] = (11, ref._variant_dict([(t, k2, v) for k2, (t, v) in vd.items()]))
        elif w == 'minor':
            minor = (minor + 1 + m[3]) % 5
        elif w == 'order':
            f = f[1:] + f[:1]
        elif w == 'cipher':
            f[idx[2]] = (2, ref.CIPHERS[['aes256', 'chacha20', 'twofish'][m[2] % 3]])
        raw = ref.SIG + struct.pack('<HH', minor, 4) + b''.join(struct.pack('<BI', i, len(d)) + d for i, d in f + [h['fields'][-1]])
        return raw + ref.sha256(raw) + data[end + 32:]
    if k == 'kdf':
        if not v4 or h['kdf']['name'] != 'aeskdf':
            return None
        f = list(h['fields'])
        i = [n for n, (a, _) in enumerate(f) if a == 11][0]
        vd = ref._read_variant(f[i][1])
        vd['R'] = (vd['R'][0], struct.pack('<Q', 1 << 50))
        f[i] = (11, ref._variant_dict([(t, k2, v) for k2, (t, v) in vd.items()]))
        raw = data[:12] + b''.join(struct.pack('<BI', a, len(d)) + d for a, d in f)
        return raw + data[end:]
    raise HarnessError(k)


def limited(data, kw):
    """open in a child process with a CPU limit"""
    pid = os.fork()
    if pid == 0:
        try:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGXCPU, signal.SIG_DFL)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            used = int(sum(os.times()[:2]))
            resource.setrlimit(resource.RLIMIT_CPU, (used + 4, used + 6))
            try:
                sut.open_bytes(data, **kw)
            except Exception:
                os._exit(0)
            os._exit(3)
        finally:
            os._exit(4)
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        check(os.WTERMSIG(status) not in (signal.SIGXCPU, signal.SIGKILL), 'unverified key derivation settings of a damaged header were used')
        raise HarnessError('child ended by signal %d' % os.WTERMSIG(status))
    check(os.WEXITSTATUS(status) != 3, 'a file with damaged key derivation settings opened')
    if os.WEXITSTATUS(status) != 0:
        raise HarnessError('child exit status %d' % os.WEXITSTATUS(status))


def attempt(data, kw, db, what, stt):
    try:
        kp = sut.open_bytes(data, **kw)
    except Exception as e:
        stt.cls('raised ' + type(e).__name__)
        return
    M.expect_db(db, sut.view(kp), 'file with modification %s opened with different content' % (what,))
    stt.cls('opened unchanged')


def run(case, stt):
    if 'sweep' in case:
        cfg, db = CF[case['sweep']], _small()
        data = sut.make_file(cfg, db, 'pw')
        start = ref.read_header(data)['end'] if cfg['v'][0] == 3 else 0
        for i in range(max(start, case['from']), case['to']):
            attempt(data[:i] + bytes([data[i] ^ (1 << case['bit'])]) + data[i + 1:], {'password': 'pw'}, db, 'flip at %d' % i, stt)
            if i % 3 == 0:
                attempt(data[:i], {'password': 'pw'}, db, 'truncated to %d' % i, stt)
        stt.nt(case['to'] > start)
        stt.cls('sweep')
        return
    cfg, db = gen.real_cfg(case['cfg']), gen.build(case['db'])
    data = sut.make_file(cfg, db)
    kp = sut.open_bytes(data)
    tk = ref.read_kdbx(data, comp=ref.composite('pw'), strict=False)['transformed']
    if case['saved']:
        data = sut.save_bytes(kp)
    h, r = parts(data, tk)
    # blocks of another file with the same credentials and content, but other random seeds
    other = None
    if cfg['v'][0] == 4:
        d2 = sut.make_file(dict(cfg, seed=cfg['seed'] + 1), db)
        other = [d2[a:b] for a, b in ref.read_kdbx(d2, comp=ref.composite('pw'), strict=False)['block_pos']]
    kw = {'password': None, 'transformed_key': tk} if case['tk'] else {'password': 'pw'}
    for reg, m in case['muts']:
        d = apply(data, m, h, r, reg, other)
        if d is None or d == data:
            continue
        stt.nt()
        stt.cls(m[0] + ('_' + m[1] if m[0] in ('blk', 'head') else ''))
        if m[0] == 'kdf':
            limited(d, {'password': 'pw'})
            continue
        attempt(d, kw, db, (reg, m), stt)
