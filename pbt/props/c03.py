from hypothesis import strategies as st
from .. import gen, ops, sut, model as M, kdbxref as ref
from ..core import check
from . import c28
ID = 'C03'
QUICK, THOROUGH = 3200, 50000
RULE = ('case = full file configuration x database with foreign extras x up to 8 edits x 1-3 saves; each saved file is read by the independent strict reader '
        'and compared with the model and the original settings; a few saves of payloads that fill whole blocks; non-trivial: at least one entry or subgroup and one effective edit')
W = {'new_entry': 1, 'add_group': 2, 'add_entry': 4, 'set': 4, 'setg': 2, 'tags': 1, 'at': 1, 'time': 1, 'exp': 1, 'meta': 1, 'prop_set': 3, 'prop_del': 1,
     'bin_add': 3, 'bin_del': 2, 'att_add': 3, 'att_del': 1, 'hist_add': 2, 'mv_e': 1, 'mv_g': 1, 'trash': 1, 'del_e': 1, 'pw': 1, 'kf': 1}


def strategy(tier):
    return st.fixed_dictionaries({'ops': ops.oplist(W, max_size=8), 'saves': st.integers(1, 3), 'cfg': gen.cfg(), 'db': gen.database(x=True, maxnodes=5, omit=True),
                                  'style': gen.style})


def settings(h):
    """the header data that must survive"""
    out = {'version': h['version'], 'cipher': h['cipher'], 'comp': h['comp'], 'kdf': h['kdf']}
    for i, v in h['fields']:
        if i in (1, 12):
            out[i] = v
        if i == 11:
            out['kdfdict'] = sorted(ref._read_variant(v).items())
    return out


def fixed(tier):
    """payloads that fill whole blocks"""
    return [{'edge': {'v': v, 'cipher': c, 'comp': False, 'kind': 'edge', 'where': 'notes', 'k': k, 'delta': d}}
            for v in ([4, 0], [3, 1]) for c, d in (('aes256', -16), ('aes256', 0), ('chacha20', 0), ('chacha20', -1)) for k in ((1,) if tier == 'quick' else (1, 2, 3))]


def run(case, stt):
    if 'edge' in case:
        return c28.run(case['edge'], stt)
    w = ops.World(case)
    want = settings(ref.read_header(w.data))
    w.verify_each = False
    k = 0
    for i in range(case['saves']):
        n = len(case['ops']) // case['saves'] + 1
        w.run(case['ops'][k:k + n], api=False)
        k += n
        data = sut.save_bytes(w.kp)
        v = sut.read_ref(data, w.pw, w.kf)
        M.expect_db(w.db, v, 'saved file')
        got = settings(v['res']['header'])
        check(got == want, 'settings changed by saving: %r, expected %r', got, want)
        check(v['res']['stream'] == w.cfg['stream'], 'inner stream cipher changed')
        for e in M.entries(v):
            for x in [e] + e['h']:
                for name, r in x['att']:
                    check(r is not None and r >= 0, 'attachment reference %r', r)
        if w.v[0] == 4:
            check(v['flags'] == [1 if b.get('prot') else 0 for b in w.db['bins']], 'protection flags of binaries are %r', v['flags'])
        if i % 2:
            w.open(data)
    stt.cls('v%d.%d' % w.v, w.cfg['cipher'], w.cfg['kdf']['name'], 'gzip' if w.cfg['comp'] else 'plain', 'stream_' + w.cfg['stream'])
    stt.nt(bool(w.db['root']['ch']) and len(w.done) > 0)
