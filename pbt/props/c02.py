import gc, os, pathlib
from hypothesis import strategies as st
from .. import gen, sut, model as M
from ..core import check, scratch
ID = 'C02'
QUICK, THOROUGH = 2600, 60000
RULE = ('case = file layout (version, cipher, KDF and parameters, compression level, inner stream, header field order, block sizes, comment, public data, '
        'XML style: indentation, escaping, declaration, child order, time format) x database with foreign extras, written by the independent writer; '
        'opened from a path, a path object, a stream or within one; what pykeepass shows (XML export and all accessors) must be what was written; non-trivial: at least one entry or subgroup')


def strategy(tier):
    return st.fixed_dictionaries({'cfg': gen.cfg(), 'db': gen.database(x=True, maxnodes=6, omit=True), 'style': gen.style,
                                  'pw': st.one_of(st.none(), gen.text), 'kf': st.one_of(st.none(), st.none(), gen.hexdata), 'src': st.integers(0, 4), 'drop': st.integers(0, 3)})


def fixed(tier):
    """key derivation settings beyond what random cases can afford"""
    e = {'s': {'Title': ['t', False], 'Password': ['p', True]}, 'tags': '', 'icon': '', 'exp': False, 't': [gen._T2020], 'at': None, 'att': [], 'x': [], 'tx': [], 'ax': [], 'h': []}
    db = {'meta': {'name': '', 'desc': '', 'user': '', 'rec': '-1', 'force': '-1', 'changed': gen._T2020}, 'root': {'name': 'r', 'notes': '', 'icon': '', 'exp': False, 't': [gen._T2020], 'x': [], 'tx': []},
          'nodes': [['e', 0, e]], 'bins': [], 'bin': None, 'mx': [], 'rx': []}
    aes = [{'name': 'aeskdf', 'n': n, 'saltlen': 32} for n in (6000, 65535, 65536, 65537, 140000) + ((1100000,) if tier == 'thorough' else ())]
    argon = [{'name': a, 'n': n, 'm': m, 'p': p, 'saltlen': 32, 'ver': 0x13} for a in ('argon2', 'argon2id')
             for n, m, p in ((1, 1, 32), (1, 1, 64), (1, 1, 255), (1, 1, 256), (20, 1, 1), (40, 2, 2), (2, 128, 8), (1, 4096, 1), (2, 8192, 1), (1, 8192, 2), (300, 1, 1))]
    return [{'cfg': dict(gen.CHEAP, v=v, kdf=k, stream='salsa20' if v[0] == 3 else 'chacha20'), 'db': db, 'style': {}, 'pw': 'pw', 'kf': None, 'src': 0, 'drop': 0}
            for v, ks in (([3, 1], aes), ([4, 0], aes + argon)) for k in ks]


def run(case, stt):
    import io
    cfg, db = gen.real_cfg(case['cfg']), gen.build(case['db'])
    kf = bytes.fromhex(case['kf']) if case['kf'] is not None else None
    data = sut.make_file(cfg, db, case['pw'], kf, style=case['style'])
    kfa = io.BytesIO(kf) if kf is not None else None
    if case['src'] == 0:
        src = io.BytesIO(data)
    elif case['src'] == 4:
        # the file lies within a stream
        src = io.BytesIO(b'\x03\xd9\xa2\x9a' * 5 + data)
        src.seek(20)
    else:
        p = os.path.join(scratch(), 'x.kdbx')
        with open(p, 'wb') as f:
            f.write(data)
        src = p if case['src'] == 1 else pathlib.Path(p) if case['src'] == 2 else open(p, 'rb')
    kp = sut.open_db(src, case['pw'], kfa)
    M.expect_db(db, sut.view(kp), 'file as read')
    sut.check_api(kp, db)
    check(tuple(kp.version) == tuple(cfg['v']), 'version is %r', kp.version)
    check(kp.encryption_algorithm == cfg['cipher'], 'cipher is %r', kp.encryption_algorithm)
    check(kp.kdf_algorithm == cfg['kdf']['name'], 'kdf is %r', kp.kdf_algorithm)
    if case.get('drop'):
        # elements stay usable when nothing else refers to the database
        if case['drop'] == 1:
            es, root, atts = kp.entries, None, []
        elif case['drop'] == 2:
            es, root, atts = [], kp.root_group, []
        else:
            es, root, atts = [], None, kp.attachments
        del kp
        gc.collect()
        if root is not None:
            sut.cmp_group(db, db['root'], root, 'root, without reference to the database')
            check(root.parentgroup is None and root.path == [], 'root group has a parent')
        for e, m in zip(es, M.entries(db)):
            sut.cmp_entry(m, sut.api_entry(e, 'entry'), 'entry, without reference to the database')
            check(e.group is not None and isinstance(e.path, list), 'entry lost its group')
            e.ref('title')
            for at, (nm, r) in zip(e.attachments, m['att']):
                sut.check_data(at, r, db, 'entry, without reference to the database')
        for at, r in zip(atts, [r for m in M.entries(db) for nm, r in m['att']]):
            sut.check_data(at, r, db, 'attachment, without reference to the database')
        stt.cls('drop')
    stt.cls('v%d.%d' % tuple(cfg['v']), cfg['cipher'], cfg['kdf']['name'], 'gzip' if cfg['comp'] else 'plain', 'stream_' + cfg['stream'],
            'blocks' if cfg['blocks'] else 'oneblock', *['style_%s%s' % kv for kv in case['style'].items() if kv[0] in ('ind', 'esc', 'decl')])
    stt.nt(bool(db['root']['ch']))
