import base64
from hypothesis import strategies as st
from .. import gen, ops, sut, model as M, kdbxref as ref
from ..core import check, Violation
from .c03 import settings
ID = 'C22'
QUICK, THOROUGH = 4000, 50000
RULE = ('case = file with generated foreign content (elements, attributes, namespaces, nested and protected items, custom icons, deleted objects, extra auto-type associations and times children, '
        'attributes of values) planted in metadata, root, groups, entries and history, any configuration; saved unedited (whole XML tree compared) and after up to 10 API edits (every foreign element '
        'compared); non-trivial: at least 3 foreign items and one effective edit')
W = {'new_entry': 1, 'add_group': 2, 'add_entry': 3, 'set': 6, 'setg': 4, 'icon': 3, 'tags': 3, 'at': 3, 'time': 2, 'exp': 2, 'touch': 1, 'meta': 3, 'days': 1, 'prop_set': 3, 'prop_del': 2, 'bin_add': 2,
     'bin_del': 3, 'att_add': 2, 'att_del': 1, 'hist_add': 3, 'hist_del': 1, 'mv_e': 2, 'mv_g': 2, 'append': 1, 'del_e': 1, 'trash': 2, 'reindex': 2, 'uuid': 1, 'reopen': 2, 'pw': 1, 'empty': 1, 'sweep': 3}
txt = st.one_of(gen.small, gen.text)
tag = st.sampled_from(['CustomData', 'Plugin', 'x-y.z', 'Gr\u00f6\u00dfe', '{urn:example:a}ext', '{http://x/y?z=1}ext', 'IsExpanded', 'ForegroundColor', 'LastTopVisibleEntry', 'CustomIconUUID',
                       'EnableSearching', 'LastModificationTimeX', 'CreationTimeX', 'ExpiryTimeX', 'LastAccessTimeX', 'ExpiresX', 'XUUID', 'NameX', 'NotesX', 'IconIDX', 'TagsX', 'HistoryX', 'AutoTypeX', 'DefaultSequenceX', 'EnabledX', 'StringX', 'BinaryX', 'GroupX', 'EntryX', 'Meta2', 'string', 'name', 'QualityCheck'])
attrs = st.dictionaries(st.sampled_from(['a', 'ID', 'Ref', 'Compressed', 'b-c', 'Protect']), txt, max_size=2)
leaf = st.builds(lambda t, a, x: [t, a, x, []], tag, attrs, txt)
item = st.builds(lambda k, v, p: ['Item', {}, '', [['Key', {}, k, []], ['Value', {'Protected': 'True'} if p else {}, v, []]]], txt, txt, st.sampled_from([False, False, True]))
# names with a meaning elsewhere, in places where they have none
inner = st.builds(lambda t, x: [t, {}, x, []], st.sampled_from(['Notes', 'Name', 'IconID', 'Tags', 'Times', 'AutoType', 'Enabled', 'DefaultSequence', 'Key', 'Value', 'CreationTime', 'ExpiryTime', 'Expires', 'DatabaseName', 'RecycleBinUUID', 'Window', 'Generator']), txt)
foreign = st.recursive(st.one_of(leaf, leaf, leaf, item, item, gen.remark), lambda c: st.builds(lambda t, a, ch: [t, a, '', ch], tag, attrs, st.lists(st.one_of(c, c, inner), min_size=1, max_size=3)), max_leaves=6)
KNOWN = [['CustomIcons', {}, '', [['Icon', {}, '', [['UUID', {}, 'AAAAAAAAAAAAAAAAAAAAAQ==', []], ['Data', {}, 'iVBORw0KGgo=', []]]]]],
         ['MemoryProtection', {}, '', [['ProtectTitle', {}, 'False', []], ['ProtectPassword', {}, 'True', []]]], ['HistoryMaxItems', {}, '10', []], ['Color', {}, '#FF0000', []],
         ['CustomData', {}, '', [['Item', {}, '', [['Key', {}, 'KPXC', []], ['Value', {}, '1', []], ['LastModificationTime', {}, 'AAAAAAAAAAA=', []]]]]],
         ['RecycleBinEnabled', {}, 'True', []], ['EntryTemplatesGroup', {}, 'AAAAAAAAAAAAAAAAAAAAAA==', []]]
# what KeePass itself writes and pykeepass does not interpret
def _std(*names):
    return [[n, {}, v, []] for n, v in names]


U1 = 'AAAAAAAAAAAAAAAAAAAAAQ=='
STD_META = _std(('SettingsChanged', '2020-01-01T00:00:00Z'), ('DatabaseNameChanged', '2020-01-02T00:00:00Z'), ('DatabaseDescriptionChanged', '2020-01-03T00:00:00Z'), ('DefaultUserNameChanged', '2020-01-04T00:00:00Z'),
                ('MaintenanceHistoryDays', '365'), ('Color', '#00FF00'), ('MasterKeyChangeForceOnce', 'True'), ('RecycleBinEnabled', 'True'), ('RecycleBinChanged', '2020-01-05T00:00:00Z'), ('EntryTemplatesGroup', U1),
                ('EntryTemplatesGroupChanged', '2020-01-06T00:00:00Z'), ('HistoryMaxItems', '10'), ('HistoryMaxSize', '6291456'), ('LastSelectedGroup', U1), ('LastTopVisibleGroup', U1)) + KNOWN[:2]
STD_GROUP = _std(('CustomIconUUID', U1), ('IsExpanded', 'True'), ('DefaultAutoTypeSequence', '{USERNAME}'), ('EnableAutoType', 'null'), ('EnableSearching', 'false'), ('LastTopVisibleEntry', U1), ('PreviousParentGroup', U1),
                 ('Tags', 'g1;g2')) + [KNOWN[4]]
STD_ENTRY = _std(('CustomIconUUID', U1), ('ForegroundColor', '#FF0000'), ('BackgroundColor', ''), ('OverrideURL', 'cmd://x'), ('QualityCheck', 'False'), ('PreviousParentGroup', U1)) + [KNOWN[4]]
STD_TIMES = _std(('UsageCount', '7'))
STD_AUTO = _std(('DataTransferObfuscation', '1'))
any_f = st.one_of(foreign, foreign, st.sampled_from(KNOWN))
PLACES = ['mx', 'rx', 'gx', 'gx', 'ex', 'ex', 'hx', 'hx', 'tx', 'ax', 'assoc', 'gattr', 'eattr', 'vattr', 'battr', 'battr', 'gtx', 'del']
plant = st.tuples(st.sampled_from(PLACES), gen.sel(), any_f, attrs, gen.sel()).map(list)


def strategy(tier):
    return st.fixed_dictionaries({'plant': st.lists(plant, min_size=2, max_size=8), 'ops': ops.oplist(W, txt, min_size=1, max_size=10 if tier == 'quick' else 25, extra=EX), 'cfg': gen.cfg(),
                                  'db': gen.database(t=txt, maxnodes=5, minnodes=1, std=False, omit=True), 'style': st.tuples(gen.style, st.sampled_from([0, 0, 1, 2, 3, 5])).map(lambda t: dict(t[0], xattr=t[1]) if t[1] else t[0]), 'src': st.integers(0, 1), 'std': st.booleans()})


EX = {'sweep': st.tuples(st.just('sweep'), txt, gen.when).map(list)}


class World(ops.World):
    def op_sweep(self, text, us):
        """every setter on every element"""
        ns = M.walk(self.db['root'])
        for i, n in enumerate(ns):
            for k in 'cmax':
                self.op_time(i, k, us, 60)
            self.op_exp(i, True)
            self.op_touch(i, True)
            self.op_icon(i, '7')
        for i in range(len(self.entries())):
            for f in M.BUILTIN:
                self.op_set(i, f, text)
            self.op_tags(i, ['a', 'b'])
            for k in ('enabled', 'seq', 'win'):
                self.op_at(i, k, 'F' + text)
            self.op_prop_set(i, 'k1', text, True)
            self.op_hist_add(i)
        for i in range(len(self.groups())):
            self.op_setg(i, 'name', text)
            self.op_setg(i, 'notes', text)

    def b64(self, s):
        """the uuid of some element, as other programs refer to it"""
        ns = M.walk(self.db['root'])
        return base64.b64encode(bytes.fromhex(ns[s % len(ns)]['uuid'])).decode()

    def real(self, l, s):
        for x in l:
            if x[2] == U1:
                x[2] = self.b64(s)
                s += 1
        return l

    def prepare(self, case):
        db = self.db
        self.n = 0
        es = M.entries(db)
        hs = [h for e in es for h in e['h']]
        if case['std']:
            db['mx'] += self.real(M.clone(STD_META), 0)
            for i, g in enumerate(M.groups(db)):
                g['x'] += self.real(M.clone(STD_GROUP), i)
                g['tx'] += M.clone(STD_TIMES)
            for i, e in enumerate(es + hs):
                e['x'] += self.real(M.clone(STD_ENTRY), i + 2)
                e['tx'] += M.clone(STD_TIMES)
                if e['at'] is not None:
                    e['ax'] += M.clone(STD_AUTO)
        for k, s, f, a, s2 in case['plant']:
            f = M.clone(f)
            self.n += 1
            if k == 'mx':
                db['mx'].append(f)
            elif k == 'rx':
                db['rx'].append(f)
            elif k == 'del':
                db['rx'].append(['DeletedObjects', {}, '', [['DeletedObject', {}, '', [['UUID', {}, 'AAAAAAAAAAAAAAAAAAAA%02d==' % (s % 90 + 10) if s2 % 3 == 0 else self.b64(s), []], ['DeletionTime', {}, '2020-01-01T00:00:00Z', []]]]]])
            elif k in ('gx', 'gattr', 'gtx'):
                g = M.groups(db)[s % len(M.groups(db))]
                if k == 'gx':
                    g['x'].append(f)
                elif k == 'gtx':
                    g['tx'].append(f)
                else:
                    g['xa'] = dict(a)
            else:
                pool = hs if k == 'hx' and hs else es + hs
                if not pool:
                    self.n -= 1
                    continue
                e = pool[s % len(pool)]
                if k in ('ex', 'hx'):
                    e['x'].append(f)
                elif k == 'tx':
                    e['tx'].append(f)
                elif k == 'ax' and e['at'] is not None:
                    e['ax'].append(f)
                elif k == 'assoc' and e['at'] is not None and e['at']['win']:
                    e['ax'].append(['Association', {}, '', [['Window', {}, 'other*', []], ['KeystrokeSequence', {}, '{USERNAME}', []]]])
                elif k == 'eattr':
                    e['xa'] = dict(a)
                elif k == 'battr':
                    pool = [x for x in pool if x['att']] or [e]
                    e = pool[s % len(pool)]
                    if not e['att'] and db['bins']:
                        e['att'] = [['f', s2 % len(db['bins'])]]
                    e['ba'] = [{x: y for x, y in a.items() if x not in ('Ref', 'Protect', 'Compressed')} for _ in e['att']]
                elif k == 'vattr' and e['s']:
                    v = e['s'][sorted(e['s'])[s2 % len(e['s'])]]
                    v[2] = {'ProtectInMemory': 'True'} if s2 % 2 else {x: y for x, y in a.items() if x != 'Protect'}
        for e in es + hs:           # further associations come first among the foreign auto-type children in the view
            e['ax'] = [x for x in e['ax'] if x[0] != 'Association'] + [x for x in e['ax'] if x[0] == 'Association']


def tree(el, path=''):
    """canonical form of a whole document"""
    if not isinstance(el.tag, str):
        return M.canon_x(el)
    ch = [tree(c) for c in el]
    text = el.text or ''
    if ch and not text.strip():
        text = ''
    if el.tag == 'HeaderHash':
        text = ''
    return [el.tag, dict(el.attrib), text, ch]


def diff(a, b, path=''):
    p = path + '/' + a[0]
    if a[:3] != b[:3]:
        return '%s: %s became %s' % (p, M._short(a[:3]), M._short(b[:3]))
    if [c[0] for c in a[3]] != [c[0] for c in b[3]]:
        return '%s: children %s became %s' % (p, M._short([c[0] for c in a[3]]), M._short([c[0] for c in b[3]]))
    for x, y in zip(a[3], b[3]):
        d = diff(x, y, p)
        if d:
            return d


def payload(data, w):
    try:
        res = ref.read_kdbx(data, comp=ref.composite(w.pw, w.kf))
        return tree(ref.parse_xml(res))
    except ref.RefError as e:
        raise Violation('file rejected by the independent reader: %s' % e)


def run(case, stt):
    w = World(case)
    want = settings(ref.read_header(w.data))
    before = payload(w.data, w)
    w.verify('opening')
    d1 = sut.save_bytes(w.kp)
    d = diff(before, payload(d1, w))
    check(not d, 'saving without edits changed the document: %s', d)
    check(settings(ref.read_header(d1)) == want, 'header settings changed')
    w.verify_each = False
    for op in case['ops']:
        w.step(op)
    w.verify()
    w.reopen()
    d2 = sut.save_bytes(w.kp)
    check(settings(ref.read_header(d2)) == want, 'header settings changed')
    M.expect_db(w.db, sut.read_ref(d2, w.pw, w.kf), 'saved file')
    for k in case['plant']:
        stt.cls('at_' + k[0])
    for o in w.done:
        stt.cls('op_' + o[0])
    stt.nt(w.n >= 3 and len(w.done) > 0)
