import os, pathlib, re
import xml.etree.ElementTree as ET
from hypothesis import strategies as st
from .. import gen, ops, sut, model as M, kdbxref as ref
from ..core import check, Violation
from .c22 import payload, diff
ID = 'C27'
QUICK, THOROUGH = 2200, 50000
BIG = 48
RULE = ('case = full file configuration x database with foreign content x up to 8 edits / saves / reopenings; after each step the export is parsed by expat and compared with the model, '
        'repeated, written to a (new or existing) file and compared, before and after a save; non-trivial: a non-empty protected value and one edit')
W = {'add_group': 2, 'add_entry': 4, 'set': 5, 'setg': 2, 'tags': 1, 'at': 1, 'time': 1, 'meta': 2, 'prop_set': 4, 'prop_del': 1, 'bin_add': 2, 'bin_del': 1, 'att_add': 2, 'hist_add': 3, 'mv_e': 1, 'mv_g': 1,
     'trash': 1, 'del_e': 1, 'reopen': 2, 'pw': 1, 'save': 3}


def strategy(tier):
    return st.fixed_dictionaries({'ops': ops.oplist(W, max_size=8 if tier == 'quick' else 20, extra={'save': st.just(['save'])}), 'cfg': gen.cfg(),
                                  'db': gen.database(x=True, maxnodes=5, minnodes=1, omit=True), 'style': gen.style, 'old': st.sampled_from([None, 'x', 'x' * 200000]), 'pathobj': st.booleans(), 'pp': st.booleans()})


class World(ops.World):
    def op_save(self):
        x = self.kp.xml()
        data = sut.save_bytes(self.kp)
        check(self.kp.xml() == x, 'export differs after saving')
        self.check_file(data)

    def export(self, case):
        x = self.kp.xml()
        y = self.kp.xml()
        check(x == y, 'two exports of the same state differ')
        raw = x.encode('utf-8') if isinstance(x, str) else x
        check(isinstance(raw, bytes), 'export is %r', type(x))
        try:
            raw.decode('utf-8')
            root = ref.xml_root(raw)
        except (UnicodeDecodeError, ET.ParseError) as e:
            raise Violation('export is not well-formed UTF-8 XML: %s' % e)
        m = re.match(rb'<\?xml[^>]*?encoding=["\']([^"\']*)', raw)
        check(m is None or m.group(1).lower() == b'utf-8', 'the export declares the encoding %r', m and m.group(1))
        v = M.db_from_et(root, [(0, b['data']) for b in self.db['bins']] if self.v[0] == 4 else None)
        M.expect_db(self.db, v, 'export')
        p = os.path.join(self.tmpdir(), 'out.xml')
        if case['old'] is not None:
            with open(p, 'w') as f:
                f.write(case['old'])
        self.kp.dump_xml(pathlib.Path(p) if case['pathobj'] else p)
        with open(p, 'rb') as f:
            check(f.read() == raw, 'file written by dump_xml differs from the export')
        check(set(os.listdir(self.tmpdir())) <= {'out.xml', 'other.kdbx', 'db.kdbx'}, 'files after dump_xml: %r', os.listdir(self.tmpdir()))
        for n in M.walk(self.db['root'])[:4]:
            d = self.h(n).dump_xml(pretty_print=case['pp'])
            try:
                el = ref.xml_root(d)
            except ET.ParseError as e:
                raise Violation('dump_xml of an element is not well-formed: %s' % e)
            check(el.tag == ('Group' if n['k'] == 'g' else 'Entry'), 'dump_xml of an element gives a %s', el.tag)
            out = []
            if n['k'] == 'e':
                M.diff_node(n, M.entry_from(el), 'dump_xml of an entry', out)
            check(not out, '%s', '; '.join(out[:3]))
        check(self.kp.xml() == x, 'exporting changed the database')


def run(case, stt):
    w = World(case)
    w.verify_each = False
    # an export leaves no trace, not even one that an export would not show
    a = payload(sut.save_bytes(sut.open_bytes(w.data, w.pw, w.kfarg())), w)
    w.export(case)
    d = diff(a, payload(sut.save_bytes(w.kp), w))
    check(not d, 'exporting changed what is saved: %s', d)
    for op in case['ops']:
        if w.step(op) is not False:
            w.export(case)
            stt.cls('op_' + op[0])
    w.reopen()
    w.export(case)
    prot = any(s[1] is True and s[0] for e in w.entries() for x in [e] + e['h'] for s in x['s'].values())
    stt.cls('v%d' % w.v[0], 'protected' if prot else 'plain')
    stt.nt(prot and len(w.done) > 0)
