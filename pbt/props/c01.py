import io, os, pathlib
from hypothesis import strategies as st
from .. import gen, ops, sut, model as M
from ..core import check, scratch
from . import c28
ID = 'C01'
QUICK, THOROUGH = 1600, 40000
BIG = 16
RULE = ('case = full file configuration x database x up to 8 edits x 1-3 save/reopen cycles (stream, stream behind other data, path, Path, reload); the whole content is '
        'compared through the XML export and through every read accessor before and after; non-trivial: database has at least one entry or subgroup')
W = {'new_entry': 1, 'add_group': 2, 'add_entry': 4, 'set': 4, 'setg': 2, 'icon': 1, 'tags': 2, 'at': 2, 'time': 2, 'exp': 1, 'meta': 2, 'days': 1, 'prop_set': 3,
     'bin_add': 2, 'att_add': 2, 'hist_add': 2, 'mv_e': 1, 'mv_g': 1, 'trash': 1, 'bin_del': 1}


def strategy(tier):
    return st.fixed_dictionaries({'ops': ops.oplist(W, max_size=8), 'cycles': st.lists(st.integers(0, 6), min_size=1, max_size=3), 'cfg': gen.cfg(),
                                  'db': gen.database(maxnodes=5, omit=True), 'style': gen.style, 'src': st.integers(0, 2)})


def fixed(tier):
    """payloads that fill whole blocks"""
    return [{'edge': {'v': v, 'cipher': c, 'comp': False, 'kind': 'edge', 'where': 'notes', 'k': 1, 'delta': d}}
            for v in ([4, 0], [3, 1]) for c, d in (('aes256', -16), ('chacha20', 0))]


def run(case, stt):
    if 'edge' in case:
        return c28.run(case['edge'], stt)
    w = ops.World(case)
    w.verify_each = False
    w.run(case['ops'], api=False)
    d = w.tmpdir()
    for i, how in enumerate(case['cycles']):
        before = M.freeze(sut.view(w.kp))
        again = []
        if how == 0:
            again.append(sut.save_bytes(w.kp))
        elif how == 1:
            p = os.path.join(d, 's%d.kdbx' % i)
            w.kp.save(p)
            again.append(open(p, 'rb').read())
        elif how == 2:
            p = pathlib.Path(d) / ('s%d.kdbx' % i)
            w.kp.save(p)
            again.append(p.read_bytes())
        elif how == 3 and w.src:
            w.kp.save()
            again.append(open(w.kp.filename, 'rb').read())
        elif how == 4:
            p = os.path.join(d, 's%d.kdbx' % i)
            with open(p, 'wb') as f:
                w.kp.save(f)
            again.append(open(p, 'rb').read())
        elif how == 6:
            # a stream that holds something else already
            b = io.BytesIO(b'PREFIX' * 7)
            b.seek(0, 2)
            w.kp.save(b)
            check(b.getvalue()[:42] == b'PREFIX' * 7, 'saving to a stream overwrote what was written to it before')
            again.append(b.getvalue()[42:])
        else:
            again.append(sut.save_bytes(w.kp))
            again.append(sut.save_bytes(w.kp))
        M.expect_db(before, sut.view(w.kp), 'saving changed the open database')
        for data in again:
            kp = sut.open_bytes(data, w.pw, w.kfarg())
            v = sut.view(kp)
            M.expect_db(before, v, 'reopened database')
            M.expect_db(w.db, v, 'reopened database')
        if i == 0:
            sut.check_api(w.kp, w.db)
        w.open(again[-1])
        sut.check_api(w.kp, w.db)
        stt.cls('cycle%d' % how)
    stt.cls('v%d.%d' % w.v, w.cfg['cipher'], w.cfg['kdf']['name'], 'gzip' if w.cfg['comp'] else 'plain', 'stream_' + w.cfg['stream'])
    stt.nt(bool(w.db['root']['ch']))
