"""Hypothesis strategies for texts, file configurations and databases (all JSON-able)."""
from hypothesis import strategies as st
from . import model as M

# characters XML 1.0 can hold
_RANGES = [(0x20, 0x7e), (0x20, 0x7e), (0x9, 0xa), (0xd, 0xd), (0x7f, 0xff), (0x100, 0xd7ff), (0xe000, 0xfffd), (0x10000, 0x10ffff)]
# invisible, combining, bidirectional, private-use, non-character and other code points that sanitising code tends to touch
ODD = [chr(c) for c in (0x7f, 0x80, 0x85, 0x9f, 0xa0, 0xad, 0x300, 0x345, 0x61c, 0x180e, 0x2000, 0x2003, 0x200b, 0x200c, 0x200d, 0x200e, 0x200f, 0x2028, 0x2029, 0x202a, 0x202e, 0x2060, 0x2066,
                        0x2069, 0x3000, 0xd7ff, 0xe000, 0xf8ff, 0xfb01, 0xfdd0, 0xfdef, 0xfe0f, 0xfeff, 0xff21, 0xfff9, 0xfffc, 0xfffd, 0x10000, 0x1d400, 0x1f468, 0x1fffe, 0x1ffff, 0x20000, 0x2ffff,
                        0xe0001, 0xe0100, 0xf0000, 0xffffe, 0x100000, 0x10fffe, 0x10ffff)]
char = st.one_of(*[st.integers(a, b).map(chr) for a, b in _RANGES], st.sampled_from(ODD))

NASTY = ['', ' ', '\t', '\n', '\r\n', '\r', '  lead', 'trail  ', 'a b', '"', "'", '"\'', 'say "hi"', "it's", 'x"or"1"="1', "')or('",
         '<', '>', '&', '&amp;', '<a>', ']]>', '<![CDATA[x]]>', '<!--', '-->', '{}', '{0}', '{flags}', '%s', '%', '\\', '\\n', '$', '^',
         '*', '.*', '(', '[', ']', '/', '//', '../x', 'a/b', '|', '@', ';', ',', 'a;b', 'a,b', 'None', 'True', 'False', '0', '-1', 'true',
         '\u00e9', '\u00df', 'e\u0301', '\u2028', '\u0085', '\u00a0', '\u202e', '\ufeff', '\ufffd', '\U0001f600', '\U0010ffff', '\u4e2d\u6587',
         'Title', 'UserName', 'Password', 'URL', 'Notes', 'otp', 'Root', 'Group', 'Entry', 'Recycle Bin', 'root', '\u0130', 'K', '\u212a',
         'text()', 'a' * 70, 'x' * 500]
VOCAB = ['a', 'b', 'foo', 'Foo', 'foobar', 'bar', 'x', 'a b', 'foo_entry', 'gmail']

free_text = st.lists(char, max_size=12).map(''.join)
# lengths around the limits an implementation may have
LENGTHS = [15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 512, 1000, 1023, 1024, 1025, 4096, 5000]
long_text = st.builds(lambda u, n, e: (u * n)[:n] + e, st.sampled_from(['x', 'ab ', '\u00e9', 'line\n', '\U0001f600', '"\'', '<&>']), st.sampled_from(LENGTHS),
                      st.sampled_from(['', '', '!', ' ', '\n']))
_pair = st.tuples(st.sampled_from(VOCAB + NASTY), st.sampled_from(NASTY + VOCAB)).map(''.join)
text = st.one_of(st.sampled_from(VOCAB), st.sampled_from(NASTY), free_text, _pair, st.sampled_from(VOCAB), st.sampled_from(NASTY), free_text, _pair,
                 st.one_of(st.sampled_from(NASTY), long_text))
word = st.one_of(st.sampled_from(VOCAB), st.sampled_from([n for n in NASTY if n.strip()]), free_text.filter(lambda t: t != ''))
small = st.sampled_from(VOCAB[:5] + ['', 'say "hi"', "it's", '"\''])
nonempty = st.one_of(st.sampled_from(VOCAB), st.sampled_from([n for n in NASTY if n]), free_text.filter(bool))
ident = st.sampled_from(['a', 'b', 'foo', 'foobar', 'x'])

_RES = set(M.RESERVED)
prop_key = st.one_of(st.sampled_from(['k1', 'k2', 'Key "x"', "k'1", 'k"\'', 'title', 'TITLE', 'Title ', 'URL2', 'Otp', 'OTP', 'username', 'a;b', 'k 1', '{}', 'KPRPC']),
                     nonempty).filter(lambda k: k not in _RES)

some_icon = st.sampled_from(['0', '1', '12', '68', '69', '77', '255'])
icons = st.one_of(st.just(''), some_icon)
# tags as given to the library, one by one
one_tag = st.one_of(ident, ident, ident, ident, st.sampled_from([' a', 'b ', 'A', 'two words', 'e\u0301', '0', '<x>', ' ', '"']))
# microseconds since year 1; whole seconds
_T2020 = 637134336000000000 // 10
when = st.one_of(st.sampled_from([_T2020, _T2020 + 86400 * M.US, _T2020 + 1 * M.US, 62135596800 * M.US, 1 * M.US, 315537897599 * M.US - 86400 * M.US]),
                 st.integers(_T2020 // M.US, _T2020 // M.US + 10 ** 8).map(lambda s: s * M.US),
                 st.integers(400 * 86400, 3600000 * 86400).map(lambda s: s * M.US))
hexdata = st.one_of(st.sampled_from(['', '00', '61', '0102ff', '1f8b', '1f8b08000000000002032b484cce4e4d512840a100990300a015000000', '78' * 40, '00' * 33]), st.binary(max_size=40).map(bytes.hex))


def sel(n=60):
    return st.integers(0, n)


# ------------------------------------------------------------------ file configuration

def cfg(version=None, twofish=True, big=False):
    kdf4 = st.one_of(
        st.builds(lambda n, sl: {'name': 'aeskdf', 'n': n, 'saltlen': 32}, st.sampled_from([1, 2, 3, 60, 1, 2, 3, 300]), st.just(32)),
        st.builds(lambda name, n, m, p, sl, ver, rem: {'name': name, 'n': n, 'm': m, 'p': p, 'saltlen': sl, 'ver': ver, 'mrem': rem},
                  st.sampled_from(['argon2', 'argon2id']), st.sampled_from([1, 2, 3, 1, 2, 3, 1, 11]), st.sampled_from([1, 2, 3, 4, 1, 2, 3, 40]), st.sampled_from([1, 2, 1, 2, 1, 2, 3, 4, 9, 17]),
                  st.sampled_from([32, 32, 16, 64, 32, 32, 8, 200]), st.sampled_from([0x13, 0x13, 0x13, 0x10]), st.sampled_from([0, 0, 0, 1, 512, 1023])))
    kdf3 = st.builds(lambda n: {'name': 'aeskdf', 'n': n, 'saltlen': 32}, st.sampled_from([1, 2, 3, 60, 1, 2, 3, 300]))
    ciphers = ['aes256', 'aes256', 'aes256', 'chacha20', 'chacha20', 'chacha20'] + (['twofish'] if twofish else [])

    def fin(v, cipher, comp, k4, k3, seed, stream4, stream3, order, comment, public, blocks, xitems, level, skl):
        c = {'v': v, 'cipher': cipher, 'comp': comp, 'kdf': k4 if v[0] == 4 else k3, 'seed': seed,
             'stream': stream4 if v[0] == 4 else stream3, 'order': order, 'blocks': blocks, 'level': level}
        if comment is not None:
            c['comment'] = comment
        if skl is not None:
            c['skl'] = skl
        if v[0] == 4:
            if public is not None:
                c['public'] = public
            if xitems:
                c['xitems'] = True
        return c
    versions = {None: [[4, 0], [4, 0], [4, 0], [4, 1], [3, 1], [3, 1], [3, 1], [3, 0]], 3: [[3, 1], [3, 1], [3, 0]],
                4: [[4, 0], [4, 0], [4, 1]]}[version]
    return st.builds(fin, st.sampled_from(versions), st.sampled_from(ciphers), st.booleans(), kdf4, kdf3, st.integers(0, 999),
                     st.sampled_from(['chacha20', 'chacha20', 'salsa20']), st.sampled_from(['salsa20', 'salsa20', 'chacha20']),
                     st.one_of(st.just(0), st.integers(0, 5040)), st.one_of(*[st.none()] * 4, st.just('c\u00f6mment'), st.just('c\u00f6mment'), st.sampled_from(['', 'long ' * 130, 'long ' * 3000])),
                     st.one_of(st.none(), st.none(), st.just('0001'), st.binary(max_size=20).map(bytes.hex), st.sampled_from(['empty', 'types', 'long 600', 'long 5000', 'long 70000'])),
                     st.one_of(st.just([]), st.just([]), st.lists(st.sampled_from([1, 7, 16, 17, 64, 100, 1000]), min_size=1, max_size=3)
                               .filter(lambda b: sum(b) > 20)),
                     st.booleans(), st.sampled_from([6, 6, 1, 9, 0]), st.one_of(*[st.none()] * 4, st.sampled_from([1, 16, 32, 48, 64, 65, 100, 300])))


def real_cfg(c):
    """the drawn (JSON) configuration with bytes where the writer needs them"""
    c = dict(c)
    if 'comment' in c:
        c['comment'] = c['comment'].encode('utf-8')
    if 'public' in c:
        from .kdbxref import _variant_dict
        if c['public'].startswith('long'):
            c['public'] = _variant_dict([(0x42, 'Pub', bytes(range(251)) * (int(c['public'][5:]) // 251)), (0x18, 'End', b'end')])
        elif c['public'] == 'empty':
            c['public'] = _variant_dict([])
        elif c['public'] == 'types':
            c['public'] = _variant_dict([(0x04, 'u', b'\xff\0\0\0'), (0x05, 'U', bytes(8)), (0x08, 'f', b'\0'), (0x08, 't', b'\1'), (0x0c, 'i', b'\xff' * 4), (0x0d, 'I', b'\xfe' * 8),
                                         (0x42, '', b''), (0x18, 's\u00e9', 'x\u00e9'.encode())])
        else:
            c['public'] = _variant_dict([(0x42, 'Pub', bytes.fromhex(c['public'])), (0x18, 'S', b'x')])
    return c


CHEAP = {'v': [4, 0], 'cipher': 'chacha20', 'comp': False, 'kdf': {'name': 'aeskdf', 'n': 1, 'saltlen': 32}, 'seed': 1,
         'stream': 'chacha20', 'order': 0, 'blocks': [], 'level': 6}


def cheap_cfg(version=None):
    """both formats, cheapest key derivation"""
    def fin(v, cipher, comp, seed):
        return dict(CHEAP, v=v, cipher=cipher, comp=comp, seed=seed, stream='salsa20' if v[0] == 3 else 'chacha20')
    vs = [[4, 0], [3, 1]] if version is None else [[version, 0 if version == 4 else 1]]
    return st.builds(fin, st.sampled_from(vs), st.sampled_from(['aes256', 'chacha20']), st.booleans(), st.integers(0, 5))


style = st.one_of(st.just({}), st.fixed_dictionaries({}, optional={
    'ind': st.integers(0, 2), 'esc': st.integers(0, 2), 'decl': st.integers(0, 3), 'perm': st.integers(0, 5000), 'empty': st.integers(0, 1),
    'tz': st.integers(0, 6), 'pattr': st.booleans(), 'full': st.booleans(), 'pfalse': st.booleans(), 'late': st.booleans()}))


# ------------------------------------------------------------------ databases

def strings(t=text, maxcustom=3):
    """fields of an entry: {key: [value, protected]}"""
    def fin(title, user, pw, opt, custom):
        s = {}
        if title is not None:
            s['Title'] = title
        if user is not None:
            s['UserName'] = user
        if pw is not None:
            s['Password'] = pw
        s.update(opt)
        for k, v in custom:
            s[k] = v
        return s
    plain = t.map(lambda v: [v, False])
    anyp = st.tuples(t, st.booleans()).map(list)
    return st.builds(fin, st.one_of(plain, plain, st.none(), anyp), st.one_of(plain, st.none()), st.one_of(t.map(lambda v: [v, True]), st.none(), anyp),
                     st.fixed_dictionaries({}, optional={'URL': plain, 'Notes': anyp, 'otp': t.map(lambda v: [v, True])}),
                     st.lists(st.tuples(prop_key, anyp), max_size=maxcustom))


def tags_text(t=small):
    return st.one_of(st.just(''), st.lists(t.filter(lambda x: x != ''), min_size=1, max_size=3).map(';'.join),
                     st.lists(t.filter(lambda x: x != ''), min_size=2, max_size=3).map(','.join))


foreign_leaf = st.builds(lambda tag, attrs, txt: [tag, attrs, txt, []],
                         st.sampled_from(['CustomData', 'ForegroundColor', 'QualityCheck', 'PluginX', 'Foreign', 'OverrideURL', 'x-y.z', 'PreviousParentGroup', 'Settings']),
                         st.dictionaries(st.sampled_from(['a', 'ID', 'Protected2', 'Ref2', 'key']), text, max_size=2), text)
remark = st.one_of(st.sampled_from([' c ', 'x', '<Entry><UUID>x</UUID></Entry>', '&amp;', '']).map(lambda t: ['!', {}, t, []]), st.sampled_from(['pi', 'x y="1"', 'p <a>']).map(lambda t: ['?', {}, t, []]))
foreign = st.one_of(foreign_leaf, foreign_leaf, foreign_leaf, remark, st.builds(lambda tag, attrs, ch: [tag, attrs, '', ch], st.sampled_from(['CustomData', 'Plugin', 'Icons2']),
                    st.dictionaries(st.sampled_from(['a', 'b']), text, max_size=1),
                    st.lists(st.one_of(foreign_leaf, st.just(['Item', {}, '', [['Key', {}, 'k', []], ['Value', {}, 'v', []]]])), min_size=1, max_size=3)))


def extras(p):
    """a few foreign elements, or none"""
    return st.lists(foreign, max_size=2) if p else st.just([])


keys = st.sampled_from(['', '', '{USERNAME}{TAB}', 'x'])
autotype = st.builds(lambda e, s, w, k, m: {'enabled': e, 'seq': s, 'win': w, 'ks': k if w or m else '', 'more': m}, st.sampled_from(['True', 'False', 'True', 'False', 'True', '']), st.one_of(st.just(''), text),
                     st.one_of(st.just(''), text), keys, st.one_of(st.just([]), st.lists(st.tuples(st.one_of(st.just(''), small), keys).map(list), min_size=1, max_size=2)))


def entry_body(t=text, nb=3, x=False, hist=True, atnone=True):
    base = {'s': strings(t), 'tags': tags_text(), 'icon': icons, 'exp': st.booleans(), 't': st.lists(when, min_size=1, max_size=3),
            'at': st.one_of(st.none(), autotype) if atnone else autotype,
            'att': st.lists(st.tuples(t, sel(5)).map(list), max_size=2) if nb else st.just([]),
            'x': extras(x), 'tx': st.lists(st.just(['UsageCount', {}, '5', []]), max_size=1) if x else st.just([]),
            'ax': st.lists(foreign, max_size=1) if x else st.just([])}
    one = st.fixed_dictionaries(base)
    if not hist:
        return one
    return st.fixed_dictionaries(dict(base, h=st.one_of(st.just([]), st.just([]), st.lists(one, max_size=2))))


def group_body(t=text, x=False):
    return st.fixed_dictionaries({'name': t, 'notes': st.one_of(st.just(''), t), 'icon': icons, 'exp': st.booleans(),
                                  't': st.lists(when, min_size=1, max_size=3), 'x': extras(x),
                                  'tx': st.lists(st.just(['UsageCount', {}, '5', []]), max_size=1) if x else st.just([])})


_U1 = 'AAAAAAAAAAAAAAAAAAAAAQ=='
_ONOFF = ['True', 'False']
# what KeePass itself writes and pykeepass does not interpret; '@' stands for the uuid of some element
STD_META = [('HistoryMaxItems', ['-1', '0', '1', '2', '10']), ('HistoryMaxSize', ['-1', '0', '1', '6291456']), ('RecycleBinEnabled', _ONOFF), ('MaintenanceHistoryDays', ['0', '365']),
            ('EntryTemplatesGroup', ['@', _U1]), ('LastSelectedGroup', ['@']), ('LastTopVisibleGroup', ['@']), ('Color', ['#FF0000', '']), ('MasterKeyChangeForceOnce', _ONOFF),
            ('SettingsChanged', ['2020-01-01T00:00:00Z']), ('RecycleBinChanged', ['2020-01-05T00:00:00Z'])]
STD_GROUP = [('EnableSearching', ['false', 'false', 'true', 'null']), ('EnableAutoType', ['false', 'true', 'null']), ('IsExpanded', _ONOFF), ('DefaultAutoTypeSequence', ['{USERNAME}', '']), ('LastTopVisibleEntry', ['@']),
             ('PreviousParentGroup', ['@']), ('CustomIconUUID', [_U1]), ('Tags', ['g1;g2', 'a'])]
STD_ENTRY = [('QualityCheck', _ONOFF), ('CustomIconUUID', [_U1]), ('ForegroundColor', ['#FF0000']), ('BackgroundColor', ['']), ('OverrideURL', ['cmd://x', '']), ('PreviousParentGroup', ['@'])]
_PROT = ['ProtectTitle', 'ProtectUserName', 'ProtectPassword', 'ProtectURL', 'ProtectNotes']
_bits = st.integers(0, 2 ** 16 - 1)
standard = st.one_of(st.none(), st.fixed_dictionaries({'m': st.lists(_bits, min_size=1, max_size=4), 'g': st.lists(_bits, max_size=3), 'e': st.lists(_bits, max_size=3), 'mp': st.one_of(st.none(), st.integers(0, 31)),
                                                       'ci': st.booleans(), 'del': st.booleans(), 'all': st.booleans()}))


def add_standard(db, spec):
    """elements of other programs' standard settings; the lists hold selectors"""
    import base64
    ns = M.walk(db['root'])

    def pick(table, b, j):
        name, vals = table[(b >> 6) % len(table)]
        v = vals[b % len(vals)]
        return [name, {}, base64.b64encode(bytes.fromhex(ns[(b + j) % len(ns)]['uuid'])).decode() if v == '@' else v, []]

    def put(x, new):
        for y in new:
            if y[0] not in [z[0] for z in x]:
                x.append(y)
    put(db['mx'], [pick(STD_META, b, 0) for b in spec['m']])
    if spec['mp'] is not None:
        put(db['mx'], [['MemoryProtection', {}, '', [[k, {}, str(bool(spec['mp'] >> i & 1)), []] for i, k in enumerate(_PROT)]]])
    if spec['ci']:
        put(db['mx'], [['CustomIcons', {}, '', [['Icon', {}, '', [['UUID', {}, _U1, []], ['Data', {}, 'iVBORw0KGgo=', []]]]]]])
    if spec['del']:
        put(db['rx'], [['DeletedObjects', {}, '', [['DeletedObject', {}, '', [['UUID', {}, base64.b64encode(bytes.fromhex(n['uuid'])).decode(), []], ['DeletionTime', {}, '2020-01-01T00:00:00Z', []]]]
                                                   for n in ns[-2:]]]])
    if spec.get('all'):                          # everything, as KeePass does
        put(db['mx'], [pick(STD_META, spec['m'][0] * 5 + (i << 6) + i, i) for i in range(len(STD_META))])
        for j, n in enumerate(ns):
            table = STD_GROUP if n['k'] == 'g' else STD_ENTRY
            put(n['x'], [pick(table, j * 3 + spec['m'][0] + (i << 6), j) for i in range(len(table))])
            put(n['tx'], [['UsageCount', {}, str(j % 3), []]])
    for j, n in enumerate(ns):
        for b in spec['g' if n['k'] == 'g' else 'e'][:(j * 7 + len(ns)) % 4]:
            put(n['x'], [pick(STD_GROUP if n['k'] == 'g' else STD_ENTRY, b + 64 * j, j)])
        if n['k'] == 'e':
            for h in n['h'][:2]:
                put(h['x'], M.clone(n['x']))


BIG = False             # strategies made while this is set are of databases with many elements of each kind
FOCUS_G, FOCUS_E = 7000, 7001
_many = st.sampled_from([3, 40, 70, 110, 140, 270])
big_pad = st.fixed_dictionaries({'big': st.just(True), 'e': _many, 'g': _many, 'd': st.sampled_from([3, 20, 40, 70]), 'h': _many, 'p': _many, 'b': _many, 'last': st.booleans()})


def database(t=text, x=False, hist=True, nb=3, maxnodes=8, names=None, bin=True, atnone=True, minnodes=0, minbins=0, pads=True, std=True, omit=False):
    """compact description of a database"""
    node = st.one_of(st.tuples(st.just('e'), sel(30), entry_body(t, nb, x, hist, atnone)).map(list),
                     st.tuples(st.just('e'), sel(30), entry_body(t, nb, x, hist, atnone)).map(list),
                     st.tuples(st.just('g'), sel(30), group_body(names or t, x)).map(list))
    meta = st.fixed_dictionaries({'name': t, 'desc': t, 'user': t, 'rec': st.sampled_from(['-1', '0', '5', '182']),
                                  'force': st.sampled_from(['-1', '0', '5', '365']), 'changed': when})
    if BIG:
        minnodes, maxnodes = 0, min(maxnodes, 2)
    pad = big_pad.map(lambda p: dict(p, h=p['h'] if hist else 0, b=p['b'] if nb else 0)) if BIG else st.one_of(*[st.none()] * 7, st.fixed_dictionaries({}, optional=dict(
        {'e': st.integers(1, 14), 'd': st.integers(1, 9), 'h': st.integers(1, 14) if hist else st.just(0)}, **({'b': st.integers(8, 14)} if nb else {}))))
    return st.fixed_dictionaries({
        'omit': st.one_of(*[st.none()] * 3, st.integers(1, 2 ** 20 - 1)) if omit else st.none(), 'pad': pad if pads or BIG else st.none(), 'std': standard if std else st.none(), 'meta': meta, 'root': group_body(names or t, x), 'nodes': st.lists(node, min_size=minnodes, max_size=maxnodes),
        'bins': st.lists(st.tuples(hexdata, st.booleans(), st.booleans()).map(list), min_size=minbins, max_size=nb) if nb else st.just([]),
        'bin': st.one_of(st.none(), sel(20)) if bin else st.none(),
        'mx': st.lists(foreign, max_size=3) if x else st.just([]),
        'rx': st.lists(st.one_of(foreign, st.just(['DeletedObjects', {}, '', [['DeletedObject', {}, '', [['UUID', {}, 'AAAAAAAAAAAAAAAAAAAAAA==', []]]]]])), max_size=2) if x else st.just([])})


def leave_out(db, bits):
    """optional elements which other programs do not write"""
    db['omit'] = [k for i, k in enumerate(M.META + ['RecycleBinUUID', 'Binaries']) if bits >> i & 1]
    for k in M.META:
        if k in db['omit']:
            db['meta'][k] = ''
    if bits >> 7 & 1:
        db['meta']['changed'] = None
    for j, n in enumerate(M.walk(db['root'])):
        for x in [n] + n.get('h', []):
            b = bits >> 8 if j % 2 else (bits * 7 + j) >> 8
            for i, k in enumerate('cmaxl'):
                if b >> i & 1:
                    x['t'][k] = None
            if b >> 5 & 1:
                x['exp'] = None


def _uu(i):
    import hashlib
    return hashlib.md5(b'node%d' % i).hexdigest()


def _apply(n, b):
    n['icon'], n['exp'] = b['icon'], b['exp']
    ts = b['t']
    n['t'] = {k: ts[i % len(ts)] for i, k in enumerate('cmaxl')}
    n['x'], n['tx'] = M.clone(b.get('x', [])), M.clone(b.get('tx', []))


def add_big(root, gs, pad, filler, tt):
    """one group with many entries and subgroups and a deep subtree, one entry with many history items and custom properties"""
    def group(i, name):
        g = M.new_group(_uu(i), name)
        g['t'] = tt()
        gs.append(g)
        return g
    f = group(FOCUS_G, 'focus')
    e = filler(FOCUS_E - 5000, 'focus')
    root['ch'].append(f)
    for i in range(pad['e']):
        f['ch'].append(filler(3000 + i, 'f%d' % i))
    f['ch'].insert(len(f['ch']) if pad['last'] else len(f['ch']) // 2, e)
    for i in range(pad['g']):
        f['ch'].insert((i * 7) % (len(f['ch']) + 1), group(9000 + i, 'g%d' % i))
    c = f
    for i in range(pad['d']):
        n = group(9500 + i, ['a', 'b', 'foo'][i % 3])
        c['ch'].append(n)
        c = n
    c['ch'].append(filler(3900, 'deep'))
    for i in range(pad['h']):
        h = filler(0, 'old%d' % i)
        h['uuid'] = e['uuid']
        h['t'] = {k: _T2020 + i * 3600 * M.US for k in 'cmaxl'}
        e['h'].append(h)
    for i in range(pad['p']):
        e['s']['key %d' % i] = ['value %d' % i, i % 3 == 0, {}]


def build(spec):
    """model of a described database"""
    def mk_entry(uuid, b):
        e = M.new_entry(uuid)
        _apply(e, b)
        e['s'] = {k: [v[0], v[1], {}] for k, v in b['s'].items()}
        e['tags'] = b['tags']
        e['at'] = dict(b['at']) if b['at'] is not None else None
        e['ax'] = M.clone(b.get('ax', [])) if e['at'] is not None else []
        if e['at'] is not None:
            # further associations
            e['ax'] += [['Association', {}, '', [['Window', {}, w, []], ['KeystrokeSequence', {}, k, []]]] for w, k in e['at'].pop('more', [])]
        nb = len(spec['bins'])
        e['att'] = [[n, r % nb] for n, r in b['att']] if nb else []
        e['h'] = [mk_entry(uuid, h) for h in b.get('h', [])]
        return e
    root = M.new_group(_uu(0))
    _apply(root, spec['root'])
    root['name'], root['notes'] = spec['root']['name'], spec['root']['notes']
    gs = [root]
    for i, (k, p, b) in enumerate(spec['nodes']):
        parent = gs[p % len(gs)]
        if k == 'g':
            n = M.new_group(_uu(i + 1))
            _apply(n, b)
            n['name'], n['notes'] = b['name'], b['notes']
            gs.append(n)
        else:
            n = mk_entry(_uu(i + 1), b)
        parent['ch'].append(n)
    pad = spec.get('pad') or {}
    tt = lambda: {k: _T2020 for k in 'cmaxl'}

    def filler(i, title):
        e = M.new_entry(_uu(5000 + i))
        e['s'] = {'Title': [title, False, {}], 'UserName': ['u%d' % (i % 3), False, {}], 'Password': ['p%d' % i, True, {}]}
        e['t'] = tt()
        return e
    if pad.get('big'):
        add_big(root, gs, pad, filler, tt)
        pad = {'b': pad['b'], 'to': _uu(FOCUS_E)}
    for i in range(pad.get('d', 0)):            # a chain of groups, the deepest one gets the filler entries
        g = M.new_group(_uu(6000 + i), ['a', 'b', 'foo'][i % 3])
        g['t'] = tt()
        gs[-1]['ch'].append(g)
        gs.append(g)
    for i in range(pad.get('e', 0)):
        gs[-1]['ch'].append(filler(i, 'f%d' % i))
    es = [n for n in M.walk(root) if n['k'] == 'e']
    if es and pad.get('h'):
        e = es[len(es) // 2]
        for i in range(pad['h']):
            h = filler(0, 'old%d' % i)
            h['uuid'] = e['uuid']
            h['t'] = {k: _T2020 + i * 3600 * M.US for k in 'cmaxl'}
            e['h'].append(h)
    db = M.new_db(root)
    m = spec['meta']
    db['meta'].update(DatabaseName=m['name'], DatabaseDescription=m['desc'], DefaultUserName=m['user'], MasterKeyChangeRec=m['rec'],
                      MasterKeyChangeForce=m['force'], changed=m['changed'])
    db['bins'] = [{'data': bytes.fromhex(h), 'prot': p, 'comp': c} for h, p, c in spec['bins']]
    n0 = len(db['bins'])
    for i in range(pad.get('b', 0)):
        db['bins'].append({'data': b'filler %d' % i, 'prot': i % 2 == 0, 'comp': i % 3 == 0})
        if es and i % 3 != 1:
            (next((e for e in es if e['uuid'] == pad.get('to')), None) or es[i % len(es)])['att'].append(['f%d' % i, n0 + i])
    if spec['bin'] is not None and len(gs) > 1:
        db['meta']['bin'] = gs[1 + spec['bin'] % (len(gs) - 1)]['uuid']
        if (spec.get('pad') or {}).get('big') and spec['bin'] % 2:
            db['meta']['bin'] = _uu(FOCUS_G)
    db['mx'], db['rx'] = M.clone(spec['mx']), M.clone(spec['rx'])
    if spec.get('std'):
        add_standard(db, spec['std'])
    if spec.get('omit'):
        leave_out(db, spec['omit'])
    return db
