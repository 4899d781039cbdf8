import base64
import xml.etree.ElementTree as ET
from hypothesis import strategies as st
from .. import gen, ops, sut, model as M, kdbxref as ref
from ..core import check
ID = 'C04'
QUICK, THOROUGH = 4400, 60000
BIG = 16
RULE = ('case = database (fields protected or not, in live and history entries) x up to 12 field edits / snapshots / moves / reopenings; the decrypted but '
        'still inner-encrypted payload of the saved file is searched for every protected value and compared with the model; non-trivial: at least one '
        'non-empty protected value saved after at least one edit')
W = {'new_entry': 1, 'hist_set': 1, 'add_entry': 4, 'set': 8, 'prop_set': 6, 'prop_del': 1, 'hist_add': 4, 'hist_del': 1, 'mv_e': 1, 'reopen': 2, 'bin_add': 1, 'trash': 1, 'add_group': 1, 'tags': 1, 'resets': 4, 'again': 3}
FIELDS = ['Title', 'UserName', 'Password', 'URL', 'Notes', 'otp']
secret = st.integers(0, 10 ** 9).map(lambda n: 'sEcReT-%d-x' % n)
value = st.one_of(secret, secret, gen.text)


EX = {'resets': st.tuples(st.just('resets'), gen.sel(), st.sampled_from(sorted(M.BUILTIN)), st.lists(st.one_of(st.just(''), value), min_size=2, max_size=4)).map(list),
      'again': st.tuples(st.just('again'), gen.sel(), gen.sel(), st.lists(st.tuples(st.one_of(st.just(''), value), st.sampled_from([None, True, False])).map(list), min_size=2, max_size=3)).map(list)}


class World(ops.World):
    def prepare(self, case):
        """other programs may protect any field: flip marks as drawn"""
        for i, e in enumerate(M.entries(self.db)):
            for j, k in enumerate(FIELDS):
                if k in e['s'] and case['flip'] >> ((i * 6 + j) % 24) & 1:
                    e['s'][k][1] = not e['s'][k][1]
                if k in e['s'] and case['blank'] >> ((i * 6 + j) % 24) & 1:
                    e['s'][k][0] = ''
                elif k not in e['s'] and case['blank'] >> ((i * 6 + j + 11) % 24) & 1:
                    e['s'][k] = ['', False, {}]

    def op_resets(self, es, field, values):
        for v in values:
            if self.op_set(es, field, v) is False:
                return False

    def op_again(self, es, ks, values):
        e = self.e(es)
        keys = [k for k in e['s'] if k not in M.RESERVED] if e else []
        if not keys:
            return False
        for v, p in values:
            self.op_prop_set(es, keys[ks % len(keys)], v, p)


def strategy(tier):
    return st.fixed_dictionaries({'ops': ops.oplist(W, t=value, max_size=12, extra=EX), 'flip': st.one_of(st.just(0), st.integers(0, 2 ** 24 - 1)), 'blank': st.one_of(st.just(0), st.integers(0, 2 ** 24 - 1)), 'cfg': gen.cfg(),
                                  'db': gen.database(t=value, maxnodes=4, names=gen.ident), 'style': gen.style})


def check_file(w, data):
    v = sut.read_ref(data, w.pw, w.kf)
    M.expect_db(w.db, v, 'saved file')
    raw = ET.fromstring(v['res']['xml'])
    prot, plain, n = set(), [], 0
    allnodes = [x for e in M.entries(w.db) for x in [e] + list(e['h'])]
    for x in allnodes:
        for k, s in x['s'].items():
            if s[1] and s[0]:
                prot.add(s[0])
                n += 1
            else:
                plain.append(s[0])
            plain.append(k)
        plain += [x['tags'], (x['at'] or {}).get('seq') or '', (x['at'] or {}).get('win') or ''] + [a[0] for a in x['att']]
    plain += [w.db['meta'][k] for k in M.META]
    for g in M.groups(w.db):
        plain += [g['name'], g['notes']]
    # every marked value is stored encrypted
    marked = 0
    for s in raw.iter('String'):
        val = s.find('Value')
        if val.get('Protected') == 'True' and val.text:
            marked += 1
            check(val.text not in prot or len(val.text) < 6, 'protected field %r is stored as plain text', s.findtext('Key'))
    check(marked == n, '%d protected values stored, expected %d', marked, n)
    xml = v['res']['xml']
    for p in prot:
        if p.startswith('sEcReT') and not any(p in q for q in plain):
            check(p.encode() not in xml, 'protected value %r occurs in the payload', p)
            check(base64.b64encode(p.encode()) not in xml, 'protected value %r is stored merely base64 encoded', p)
    return n


def run(case, stt):
    w = World(case)
    w.verify_each = False
    n = 0
    for i, op in enumerate(case['ops']):
        w.step(op)
        if i % 5 == 4:
            n += check_file(w, sut.save_bytes(w.kp))
    w.verify()
    for e in w.entries():
        h = w.h(e, 0)
        for k, s in e['s'].items():
            if k not in M.RESERVED and s[0]:
                check(h.is_custom_property_protected(k) == bool(s[1]), 'is_custom_property_protected(%r) is %r', k, h.is_custom_property_protected(k))
        for i, x in enumerate(e['h']):
            for k, s in x['s'].items():
                if k not in M.RESERVED and s[0]:
                    check(h.history[i].is_custom_property_protected(k) == bool(s[1]), 'history: is_custom_property_protected(%r)', k)
    data = sut.save_bytes(w.kp)
    n += check_file(w, data)
    w.open(data)
    w.verify()
    check_file(w, sut.save_bytes(w.kp))
    stt.cls('v%d' % w.v[0], 'stream_' + w.cfg['stream'], *['op_' + o[0] for o in w.done])
    stt.nt(n > 0 and len(w.done) > 0)
