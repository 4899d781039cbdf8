import os, struct
from hypothesis import strategies as st
from .. import gen, sut, model as M, kdbxref as ref
from ..core import check, scratch, Violation
ID = 'C08'
QUICK, THOROUGH = 5000, 100000
RULE = ('case = file configuration x database x up to 8 probes: file without the signature, KDBX4 header value or stored header hash altered, wrong password / key file / '
        'transformed key, data or checksum of any payload block altered (KDBX3: re-encrypted), sound file; the class of the raised error must be the documented one; '
        'non-trivial: at least one probe that must raise')
n16 = st.integers(0, 65535)
probe = st.one_of(
    st.tuples(st.just('sig'), st.integers(0, 63)), st.tuples(st.just('junk'), st.binary(min_size=8, max_size=200).map(bytes.hex)),
    st.tuples(st.just('junk'), st.sampled_from(['00' * 8, '03d9a29a00000000', '03d9a29a65fb4bb5' + '00' * 20, '03d9a29a66fb4bb500000100', '67fb4bb503d9a29a', 'ff' * 500])),
    st.tuples(st.just('head'), st.sampled_from([1, 4, 7, 12, 'salt', 'minor', 'num', 'compbit']), n16, st.integers(0, 7)),
    st.tuples(st.just('head'), st.sampled_from([4, 7, 'salt', 'minor', 'num', 'compbit']), n16, st.integers(0, 7)),
    st.tuples(st.just('hash'), st.integers(0, 255)),
    st.tuples(st.just('cred'), st.sampled_from(['pw', 'kf', 'none', 'tk', 'tkshort', 'both']), n16),
    st.tuples(st.just('blk'), st.sampled_from(['data', 'sum']), n16, n16, st.integers(0, 7)),
    st.tuples(st.just('blk'), st.sampled_from(['data', 'sum']), n16, n16, st.integers(0, 7)),
    st.tuples(st.just('sound'), st.just(0))).map(list)


def strategy(tier):
    return st.fixed_dictionaries({'cfg': gen.cfg(twofish=True), 'db': gen.database(maxnodes=3), 'probes': st.lists(probe, min_size=1, max_size=8),
                                  'saved': st.booleans(), 'path': st.booleans(), 'kf': st.booleans()})


def flip(b, i, bit):
    i %= len(b)
    return b[:i] + bytes([b[i] ^ (1 << bit)]) + b[i + 1:]


def alter_head(data, h, what, n, bit):
    """header with one value altered that still parses, or None"""
    f = list(h['fields'])
    idx = {i: k for k, (i, _) in enumerate(f)}
    minor = h['version'][1]
    if what == 'minor':
        minor = (minor + 1 + n % 7) % 65536
    elif what in (1, 4, 7, 12):
        if what not in idx or not f[idx[what]][1]:
            return None
        f[idx[what]] = (what, flip(f[idx[what]][1], n, bit))
    elif what == 'compbit':
        v = f[idx[3]][1]
        f[idx[3]] = (3, flip(v, 0, 0))
    else:
        vd = ref._read_variant(f[idx[11]][1])
        k = 'S' if what == 'salt' else [x for x in ('R', 'I', 'M', 'P', 'V') if x in vd][n % len([x for x in ('R', 'I', 'M', 'P', 'V') if x in vd])]
        vd[k] = (vd[k][0], flip(vd[k][1], n, bit))
        f[idx[11]] = (11, ref._variant_dict([(t, k2, v) for k2, (t, v) in vd.items()]))
    raw = ref.SIG + struct.pack('<HH', minor, 4) + b''.join(struct.pack('<BI', i, len(d)) + d for i, d in f)
    if raw == data[:h['end']]:
        return None
    return raw + data[h['end']:]


def alter_block(data, r, tk, what, bn, n, bit):
    h = r['header']
    if h['version'][0] == 4:
        pos = r['block_pos']
        a, b = pos[bn % len(pos)]
        if what == 'sum':
            return data[:a] + flip(data[a:a + 32], n, bit) + data[a + 32:]
        if b == a + 36:
            return None
        return data[:a + 36] + flip(data[a + 36:b], n, bit) + data[b:]
    key = ref.sha256(h['master_seed'], tk)
    plain = ref.outer_decrypt(h['cipher'], key, h['iv'], data[h['end']:])
    p, spans = 32, []
    while True:
        ln = struct.unpack('<I', plain[p + 36:p + 40])[0]
        spans.append((p, p + 40 + ln))
        p += 40 + ln
        if not ln:
            break
    a, b = spans[bn % len(spans)]
    if what == 'sum':
        plain = plain[:a + 4] + flip(plain[a + 4:a + 36], n, bit) + plain[a + 36:]
    elif b == a + 40:
        return None
    else:
        plain = plain[:a + 40] + flip(plain[a + 40:b], n, bit) + plain[b:]
    return data[:h['end']] + ref.outer_encrypt(h['cipher'], key, h['iv'], plain)


def run(case, stt):
    from pykeepass.exceptions import CredentialsError, HeaderChecksumError, PayloadChecksumError
    import io
    cfg, db = gen.real_cfg(case['cfg']), gen.build(case['db'])
    kf = b'the key file' if case['kf'] else None
    data = sut.make_file(cfg, db, 'pw', kf)
    comp = ref.composite('pw', kf)
    K = lambda b: io.BytesIO(b) if b is not None else None
    if case['saved']:
        data = sut.save_bytes(sut.open_bytes(data, 'pw', K(kf)))
    r = ref.read_kdbx(data, comp=comp, strict=False)
    h, tk = r['header'], r['transformed']
    v4 = h['version'][0] == 4
    d = scratch()

    def op(b, pw='pw', k=kf, **kw):
        if not case['path']:
            return sut.open_bytes(b, pw, K(k), **kw)
        p = os.path.join(d, 'f.kdbx')
        with open(p, 'wb') as f:
            f.write(b)
        return sut.open_db(p, pw, K(k), **kw)

    def must(err, b, what, **kw):
        stt.nt()
        try:
            op(b, **kw)
        except err:
            stt.cls(err.__name__)
            return
        except Exception as e:
            raise Violation('%s: %s instead of %s' % (what, repr(e)[:300], err.__name__))
        raise Violation('%s: no error instead of %s' % (what, err.__name__))
    for p in case['probes']:
        k = p[0]
        stt.cls(k)
        if k == 'sig':
            must(HeaderChecksumError, flip(data[:8], p[1] // 8, p[1] % 8) + data[8:], 'signature altered')
        elif k == 'junk':
            b = bytes.fromhex(p[1])
            if b[:8] != ref.SIG:
                must(HeaderChecksumError, b, 'no database')
        elif k == 'head' and v4:
            b = alter_head(data, h, *p[1:])
            if b:
                must(HeaderChecksumError, b, 'altered header %r' % (p,))
        elif k == 'hash' and v4:
            b = data[:h['end']] + flip(data[h['end']:h['end'] + 32], p[1] // 8, p[1] % 8) + data[h['end'] + 32:]
            must(HeaderChecksumError, b, 'altered header hash')
        elif k == 'cred':
            w = p[1]
            kw = {'pw': {'pw': 'pw%d' % p[2]}, 'kf': {'k': b'other' if kf is None or p[2] % 2 else None}, 'none': {'pw': None, 'k': None},
                  'both': {'pw': 'x', 'k': b'y'}, 'tk': {'pw': None, 'k': None, 'transformed_key': flip(tk, p[2], p[2] % 8)},
                  'tkshort': {'pw': 'pw', 'transformed_key': [b'', tk[:31], tk + b'\0', bytes(32)][p[2] % 4]}}[w]
            must(CredentialsError, data, 'wrong credentials %r' % (p,), **kw)
        elif k == 'blk':
            b = alter_block(data, r, tk, *p[1:])
            if b:
                must(PayloadChecksumError, b, 'altered payload block %r' % (p,))
                if p[2] % 3 == 0:
                    must(PayloadChecksumError, b, 'altered payload block %r, opened with the transformed key' % (p,), pw=None, k=None, transformed_key=tk)
        elif k == 'sound':
            M.expect_db(db, sut.view(op(data)), 'sound file')
    M.expect_db(db, sut.view(op(data)), 'sound file')
    stt.cls('v%d' % h['version'][0], '%d blocks' % min(3, len(r['blocks'])))
