"""Plain-Python model of a KeePass database, its XML form (own writer) and views of the implementation's state.

Model (all JSON-like, texts as str with '' for absent):
 db    {'meta': {...}, 'root': group, 'bins': [{'data': bytes, 'prot': 0/1, 'comp': 0/1}], 'mx': extras, 'rx': extras}
 group {'k':'g','uuid':hex,'name','notes','icon','t':times,'exp':bool,'ch':[group|entry...],'x':extras,'tx':extras}
 entry {'k':'e','uuid','s':{key:[value,protected,extras]},'tags','icon','t','exp','at':{enabled,seq,win},
        'att':[[name,ref]...],'h':[entry...] or None,'x','tx','ax'}
 times {'c','m','a','x','l'} -> microseconds since 0001-01-01 UTC, or None
 extras: list of canonical foreign elements (tag, attributes, text, children)
"""
import base64, calendar, copy, struct, zlib
import xml.etree.ElementTree as ET
from datetime import datetime, timedelta, timezone
from .core import Violation, check, HarnessError

EPOCH = datetime(1, 1, 1, tzinfo=timezone.utc)
US = 1000000
TAGS = {'c': 'CreationTime', 'm': 'LastModificationTime', 'a': 'LastAccessTime', 'x': 'ExpiryTime', 'l': 'LocationChanged'}
META = ['DatabaseName', 'DatabaseDescription', 'DefaultUserName', 'MasterKeyChangeRec', 'MasterKeyChangeForce']
BUILTIN = {'title': 'Title', 'username': 'UserName', 'password': 'Password', 'url': 'URL', 'notes': 'Notes', 'otp': 'otp'}
RESERVED = ['Title', 'UserName', 'Password', 'URL', 'Tags', 'IconID', 'Times', 'History', 'Notes', 'otp']


class _Any:
    """compares equal to everything"""
    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return 'ANY'


ANY = _Any()


def dt(us):
    return EPOCH + timedelta(microseconds=us)


def dt_off(us, minutes):
    """the instant in a zone of the given offset (UTC where that leaves the range of datetime)"""
    d = dt(us)
    try:
        return d.astimezone(timezone(timedelta(minutes=minutes)))
    except OverflowError:
        return d


def us_of(d):
    """microseconds since year 1 of an aware datetime, exactly"""
    d = d - EPOCH
    return (d.days * 86400 + d.seconds) * US + d.microseconds


# ------------------------------------------------------------------ constructors

def new_times(t):
    return {k: t for k in 'cmaxl'}


def new_group(uuid, name='', t=0):
    return {'k': 'g', 'uuid': uuid, 'name': name, 'notes': '', 'icon': '', 't': new_times(t), 'exp': False, 'ch': [],
            'x': [], 'tx': [], 'at': {}}


def new_entry(uuid, t=0):
    return {'k': 'e', 'uuid': uuid, 's': {}, 'tags': '', 'icon': '', 't': new_times(t), 'exp': False,
            'at': {'enabled': 'True', 'seq': '', 'win': ''}, 'att': [], 'h': [], 'x': [], 'tx': [], 'ax': [], 'xa': {}}


def new_db(root):
    return {'meta': {'DatabaseName': '', 'DatabaseDescription': '', 'DefaultUserName': '', 'MasterKeyChangeRec': '-1',
                     'MasterKeyChangeForce': '-1', 'changed': 0, 'bin': '0' * 32},
            'root': root, 'bins': [], 'mx': [], 'rx': []}


def walk(g):
    """all nodes below and including g, in document order (no history)"""
    out, stack = [], [g]
    while stack:
        n = stack.pop()
        out.append(n)
        if n['k'] == 'g':
            stack.extend(reversed(n['ch']))
    return out


def groups(db):
    return [n for n in walk(db['root']) if n['k'] == 'g']


def entries(db):
    return [n for n in walk(db['root']) if n['k'] == 'e']


def parent_map(db):
    m = {}
    for g in groups(db):
        for c in g['ch']:
            m[id(c)] = g
    return m


def clone(x):
    return copy.deepcopy(x)


# ------------------------------------------------------------------ XML writer

_ESC = {'&': '&amp;', '<': '&lt;', '>': '&gt;'}


# interpreted elements on which other programs may put attributes of their own (style 'xattr')
MARKED = {'UUID', 'Name', 'Notes', 'IconID', 'Key', 'Tags', 'CreationTime', 'LastModificationTime', 'LastAccessTime', 'ExpiryTime', 'Expires', 'Enabled', 'DefaultSequence', 'Window', 'KeystrokeSequence',
          'DatabaseName', 'DatabaseDescription', 'DefaultUserName', 'MasterKeyChanged', 'MasterKeyChangeRec', 'MasterKeyChangeForce', 'RecycleBinUUID', 'Generator'}


class Writer:
    """serialises a model in the style of some other program.

    style: ind (0 none, 1 tabs, 2 spaces+CRLF), esc (0 minimal, 1 numeric for non-ASCII, 2 CDATA where possible),
           decl (XML declaration variant), perm (child order code), empty (0 <x/>, 1 <x></x>), tz (time format code), pattr"""

    def __init__(self, db, version, style, protect, header_hash=None):
        self.db, self.v, self.s, self.protect = db, version, style, protect
        self.out = []
        self.hh = header_hash
        self.n = 0

    def esc(self, t):
        m = self.s.get('esc', 0)
        self.n += 1
        if m == 2 and ']]>' not in t and '\r' not in t and t.strip():
            return '<![CDATA[' + t + ']]>'
        r = []
        for ch in t:
            if ch in _ESC:
                r.append(_ESC[ch])
            elif ch == '\r':
                r.append('&#13;' if m else '&#xD;')
            elif m == 1 and ord(ch) > 126:
                r.append('&#x%X;' % ord(ch) if self.n % 2 else '&#%d;' % ord(ch))
            elif m == 1 and ch == '"':
                r.append('&quot;')
            else:
                r.append(ch)
        return ''.join(r)

    def attr(self, t):
        q = '"' if not self.s.get('pattr') else "'"
        t = t.replace('&', '&amp;').replace('<', '&lt;').replace(q, '&quot;' if q == '"' else '&apos;')
        t = t.replace('\r', '&#13;').replace('\n', '&#10;').replace('\t', '&#9;')
        return q + t + q

    def nl(self, depth):
        i = self.s.get('ind', 0)
        if i == 1:
            self.out.append('\n' + '\t' * depth)
        elif i == 2:
            self.out.append('\r\n' + '  ' * depth)

    def leaf(self, depth, tag, text, own=True, **attrs):
        self.nl(depth)
        if own and self.s.get('xattr') and tag in MARKED and len(self.out) % self.s['xattr'] == 0:
            attrs = dict(attrs, Plugin='p %d' % len(self.out))
        a = ''.join(' %s=%s' % (k, self.attr(v)) for k, v in attrs.items())
        if text is None or text == '':
            self.out.append('<%s%s />' % (tag, a) if not self.s.get('empty') else '<%s%s></%s>' % (tag, a, tag))
        else:
            self.out.append('<%s%s>%s</%s>' % (tag, a, self.esc(text), tag))

    def open(self, depth, tag, attrs=None):
        self.nl(depth)
        self.out.append('<%s%s>' % (tag, ''.join(' %s=%s' % (k, self.attr(v)) for k, v in (attrs or {}).items())))

    def close(self, depth, tag):
        self.nl(depth)
        self.out.append('</%s>' % tag)

    def foreign(self, depth, x):
        tag, attrs, text, ch = x
        if tag in '!?':
            self.nl(depth)
            self.out.append('<!--%s-->' % text if tag == '!' else '<?%s?>' % text)
            return
        if tag.startswith('{'):
            uri, tag = tag[1:].split('}')
            tag, attrs = 'q:' + tag, dict(attrs, **{'xmlns:q': uri})
        if not ch:
            if tag == 'Value' and attrs.get('Protected') == 'True':
                text = base64.b64encode(self.protect(text.encode('utf-8'))).decode() if text else ''
            self.leaf(depth, tag, text, own=False, **attrs)
            return
        self.open(depth, tag, attrs)
        for c in ch:
            self.foreign(depth + 1, c)
        self.close(depth, tag)

    def time(self, us):
        if us is None:
            return ''
        code = self.s.get('tz', 0)
        if self.v[0] == 4 and code != 1:
            return base64.b64encode(struct.pack('<Q', us // US)).decode()
        d = dt(us)
        if code >= 2 and US * 86400 * 400 < us < US * 86400 * 3650000:
            off = self.s.get('tzoff', [0, 60, -330, 845, -720][code % 5])
            d = d.astimezone(timezone(timedelta(minutes=off)))
            return d.isoformat()
        t = d.replace(tzinfo=None).isoformat()
        return t + 'Z'

    def times(self, depth, n):
        if n['exp'] is None and not n['tx'] and not any(v is not None for v in n['t'].values()):
            return
        self.open(depth, 'Times')
        order = self.perm(list('cmaxl') + ['exp'] + list(range(len(n['tx']))))
        for k in order:
            if k == 'exp':
                if n['exp'] is None:
                    continue
                self.leaf(depth + 1, 'Expires', 'True' if n['exp'] else 'False')
            elif isinstance(k, int):
                continue
            elif n['t'][k] is not None:
                self.leaf(depth + 1, TAGS[k], self.time(n['t'][k]))
        for x in n['tx']:
            self.foreign(depth + 1, x)
        self.close(depth, 'Times')

    def perm(self, seq):
        from .kdbxref import permute
        return permute(seq, self.s.get('perm', 0)) if self.s.get('perm') else seq

    def b64uuid(self, h):
        return base64.b64encode(bytes.fromhex(h)).decode()

    def value(self, depth, v, prot, xtra):
        attrs = dict(xtra or {})
        if prot:
            attrs['Protected'] = 'True'
            raw = self.protect(v.encode('utf-8')) if v else b''
            self.leaf(depth, 'Value', base64.b64encode(raw).decode(), **attrs)
        else:
            if self.s.get('pfalse'):
                attrs['Protected'] = 'False'
            self.leaf(depth, 'Value', v, **attrs)

    def entry(self, depth, e, inhist=False):
        self.open(depth, 'Entry', e.get('xa'))
        parts = ['uuid', 'icon', 'tags', 'times', 'at'] + [('s', k) for k in e['s']] + [('b', i) for i in range(len(e['att']))]
        xs = list(range(len(e['x'])))
        # foreign elements keep their relative order but are mixed in
        seq = self.perm(parts)
        hist = 'h'
        pos = self.s.get('perm', 0)
        seq.insert(len(seq) if not pos else pos % (len(seq) + 1), hist)
        step = max(1, len(seq) // (len(xs) + 1))
        merged, xi = [], 0
        for i, p in enumerate(seq):
            merged.append(p)
            if (i + 1) % step == 0 and xi < len(xs):
                merged.append(('x', xi))
                xi += 1
        merged += [('x', i) for i in range(xi, len(xs))]
        nb = 0
        for p in merged:
            if p == 'uuid':
                self.leaf(depth + 1, 'UUID', self.b64uuid(e['uuid']))
            elif p == 'icon':
                if e['icon'] != '':
                    self.leaf(depth + 1, 'IconID', e['icon'])
            elif p == 'tags':
                if e['tags'] != '' or self.s.get('full'):
                    self.leaf(depth + 1, 'Tags', e['tags'])
            elif p == 'times':
                self.times(depth + 1, e)
            elif p == 'at':
                a = e['at']
                if a is None:
                    continue
                self.open(depth + 1, 'AutoType')
                if a['enabled'] not in (None, '') or self.s.get('full'):
                    self.leaf(depth + 2, 'Enabled', a['enabled'])
                if a['seq'] != '' or self.s.get('full') or a['enabled'] not in (None, ''):
                    self.leaf(depth + 2, 'DefaultSequence', a['seq'])
                if a['win'] != '' or a.get('ks') or any(x[0] == 'Association' for x in e['ax']):
                    self.open(depth + 2, 'Association')
                    self.leaf(depth + 3, 'Window', a['win'])
                    self.leaf(depth + 3, 'KeystrokeSequence', a.get('ks') or '')
                    self.close(depth + 2, 'Association')
                for x in e['ax']:
                    self.foreign(depth + 2, x)
                self.close(depth + 1, 'AutoType')
            elif p == 'h':
                if e.get('h'):
                    self.open(depth + 1, 'History')
                    for h in e['h']:
                        self.entry(depth + 2, h, True)
                    self.close(depth + 1, 'History')
                elif not inhist and self.s.get('full'):
                    self.leaf(depth + 1, 'History', '')
            elif p[0] == 's':
                v, prot, xtra = e['s'][p[1]]
                self.open(depth + 1, 'String')
                self.leaf(depth + 2, 'Key', p[1])
                self.value(depth + 2, v, prot, xtra)
                self.close(depth + 1, 'String')
            elif p[0] == 'b':
                # attachments keep their order
                name, ref = e['att'][nb]
                more = e['ba'][nb] if 'ba' in e else {}
                nb += 1
                self.open(depth + 1, 'Binary')
                self.leaf(depth + 2, 'Key', name)
                self.leaf(depth + 2, 'Value', '', **dict(more, Ref=str(ref)))
                self.close(depth + 1, 'Binary')
            elif p[0] == 'x':
                self.foreign(depth + 1, e['x'][p[1]])
        self.close(depth, 'Entry')

    def group(self, depth, g):
        # iterative: nesting may exceed the recursion limit
        todo = [('g', g, depth)]
        while todo:
            what, n, d = todo.pop()
            if what == 'e':
                self.entry(d, n)
            elif what == 'tail':
                n, late = n
                self.gparts(d, n, late)
                for x in n['x'][1:]:
                    self.foreign(d + 1, x)
                self.close(d, 'Group')
            else:
                self.open(d, 'Group', n.get('xa'))
                head, late = self.perm(['uuid', 'name', 'notes', 'icon', 'times']), []
                if self.s.get('late'):           # some group attributes after the children
                    head, late = head[:3], head[3:]
                self.gparts(d, n, head)
                for x in n['x'][:1]:
                    self.foreign(d + 1, x)
                todo.append(('tail', (n, late), d))
                for c in reversed(n['ch']):
                    todo.append((c['k'], c, d + 1))

    def gparts(self, d, n, parts):
        for p in parts:
            if p == 'uuid':
                self.leaf(d + 1, 'UUID', self.b64uuid(n['uuid']))
            elif p == 'name':
                self.leaf(d + 1, 'Name', n['name'])
            elif p == 'notes':
                if n['notes'] != '' or self.s.get('full'):
                    self.leaf(d + 1, 'Notes', n['notes'])
            elif p == 'icon':
                if n['icon'] != '':
                    self.leaf(d + 1, 'IconID', n['icon'])
            elif p == 'times':
                self.times(d + 1, n)

    def build(self):
        o, m = self.out, self.db['meta']
        decl = self.s.get('decl', 0)
        if decl == 0:
            o.append('<?xml version="1.0" encoding="utf-8" standalone="yes"?>')
        elif decl == 1:
            o.append("<?xml version='1.0' encoding='UTF-8'?>\n")
        elif decl == 2:
            o.append('\ufeff<?xml version="1.0"?>')
        self.open(0, 'KeePassFile')
        self.open(1, 'Meta')
        self.leaf(2, 'Generator', 'Reference')
        if self.v[0] == 3 and self.hh is not None and not self.s.get('nohh'):
            self.leaf(2, 'HeaderHash', base64.b64encode(self.hh).decode())
        omit = self.db.get('omit') or ()
        for k in META:
            if not (k in omit and m[k] == ''):
                self.leaf(2, k, m[k])
        if m['changed'] is not None:
            self.leaf(2, 'MasterKeyChanged', self.time(m['changed']))
        if not ('RecycleBinUUID' in omit and not m['bin'].strip('0')):
            self.leaf(2, 'RecycleBinUUID', self.b64uuid(m['bin']))
        for x in self.db['mx']:
            self.foreign(2, x)
        if self.v[0] == 3 and (self.db['bins'] or 'Binaries' not in omit):
            self.open(2, 'Binaries')
            idx = self.perm(list(range(len(self.db['bins']))))
            for i in idx:
                b = self.db['bins'][i]
                d, at = b['data'], {'ID': str(i)}
                if b.get('prot'):
                    at['Protected'] = 'True'
                    d = self.protect(d) if d else d
                elif b.get('comp'):
                    at['Compressed'] = 'True'
                    c = zlib.compressobj(6, zlib.DEFLATED, 31)
                    # KeePass writes nothing for empty data
                    d = c.compress(d) + c.flush() if d or i % 2 else b''
                elif i % 2:
                    at['Compressed'] = 'False'
                self.leaf(3, 'Binary', base64.b64encode(d).decode(), **at)
            self.close(2, 'Binaries')
        self.close(1, 'Meta')
        self.open(1, 'Root')
        self.group(2, self.db['root'])
        for x in self.db['rx']:
            self.foreign(2, x)
        self.close(1, 'Root')
        self.close(0, 'KeePassFile')
        return ''.join(o).encode('utf-8')


# ------------------------------------------------------------------ reading XML back into a model

def decode_time(text):
    """instant in microseconds denoted by a timestamp of either format; None for an empty one"""
    if text is None or text.strip() == '':
        return None
    t = text.strip()
    if '-' not in t and ':' not in t:
        raw = base64.b64decode(t)
        if len(raw) != 8:
            raise Violation('timestamp %r is neither base64 of 8 bytes nor ISO 8601' % text)
        return struct.unpack('<Q', raw)[0] * US
    try:
        d = datetime.fromisoformat(t[:-1] + '+00:00' if t.endswith('Z') else t)
    except ValueError:
        raise Violation('timestamp %r is not ISO 8601' % text)
    if d.tzinfo is None:
        d = d.replace(tzinfo=timezone.utc)
    return us_of(d)


def canon_x(el):
    """canonical form of a foreign element"""
    if el.tag is ET.Comment or el.tag is ET.ProcessingInstruction:
        return ['!' if el.tag is ET.Comment else '?', {}, el.text or '', []]
    ch = [canon_x(c) for c in el]
    text = el.text or ''
    if ch and not text.strip():
        text = ''
    return [el.tag, dict(el.attrib), text, ch]


def _one(el, tag):
    f = el.findall(tag)
    if len(f) > 1:
        raise Violation('element %s occurs %d times in %s' % (tag, len(f), el.tag))
    return f[0] if f else None


def _text(el, tag):
    c = _one(el, tag)
    return (c.text or '') if c is not None else ''


def _uuid(text, what):
    try:
        raw = base64.b64decode(text or '', validate=True)
    except Exception:
        raise Violation('%s uuid %r is not base64' % (what, text))
    if len(raw) != 16:
        raise Violation('%s uuid %r is not 16 bytes' % (what, text))
    return raw.hex()


def _times(el, n):
    t = _one(el, 'Times')
    n['t'] = {k: None for k in TAGS}
    n['tx'] = []
    n['exp'] = None
    if t is None:
        return
    for k, tag in TAGS.items():
        n['t'][k] = decode_time(_text(t, tag))
    e = _text(t, 'Expires')
    n['exp'] = {'True': True, 'False': False, '': None}.get(e, e)
    known = set(TAGS.values()) | {'Expires'}
    n['tx'] = [canon_x(c) for c in t if c.tag not in known]


def entry_from(el, history=True):
    n = {'k': 'e', 'uuid': _uuid(_text(el, 'UUID'), 'entry'), 's': {}, 'tags': _text(el, 'Tags'), 'icon': _text(el, 'IconID'),
         'att': [], 'x': [], 'ax': [], 'xa': dict(el.attrib)}
    _times(el, n)
    for c in el:
        if c.tag == 'String':
            ks, vs = c.findall('Key'), c.findall('Value')
            if len(ks) != 1 or len(vs) != 1:
                raise Violation('String element without exactly one Key and Value')
            k = ks[0].text or ''
            if k in n['s']:
                raise Violation('field %r occurs twice in an entry' % k)
            at = dict(vs[0].attrib)
            prot = at.pop('Protected', 'False')
            if prot not in ('True', 'False'):
                raise Violation('Protected=%r' % prot)
            n['s'][k] = [vs[0].text or '', prot == 'True', at]
        elif c.tag == 'Binary':
            v = c.find('Value')
            ref = v.get('Ref') if v is not None else None
            n['att'].append([_text(c, 'Key'), int(ref) if ref is not None else None])
            n.setdefault('ba', []).append({x: y for x, y in v.attrib.items() if x != 'Ref'} if v is not None else {})
        elif c.tag == 'AutoType':
            pass
        elif c.tag == 'History':
            if not history:
                raise Violation('history entry contains a History element')
        elif c.tag not in ('UUID', 'IconID', 'Tags', 'Times'):
            n['x'].append(canon_x(c))
    a = _one(el, 'AutoType')
    if a is None:
        n['at'] = {'enabled': '', 'seq': '', 'win': '', 'ks': ''}
    else:
        assoc = a.findall('Association')
        n['at'] = {'enabled': _text(a, 'Enabled'), 'seq': _text(a, 'DefaultSequence'),
                   'win': _text(assoc[0], 'Window') if assoc else '', 'ks': _text(assoc[0], 'KeystrokeSequence') if assoc else ''}
        n['ax'] = [canon_x(c) for c in a if c.tag not in ('Enabled', 'DefaultSequence', 'Association')]
        n['ax'] += [canon_x(c) for c in assoc[1:]]
    if history:
        h = _one(el, 'History')
        n['h'] = [entry_from(c, False) for c in h.findall('Entry')] if h is not None else []
    else:
        n['h'] = []
    return n


def group_from(el):
    def shell(el):
        n = {'k': 'g', 'uuid': _uuid(_text(el, 'UUID'), 'group'), 'name': _text(el, 'Name'), 'notes': _text(el, 'Notes'),
             'icon': _text(el, 'IconID'), 'ch': [], 'x': [], 'xa': dict(el.attrib)}
        _times(el, n)
        for c in el:
            if c.tag not in ('UUID', 'Name', 'Notes', 'IconID', 'Times', 'Group', 'Entry'):
                n['x'].append(canon_x(c))
        return n
    root = shell(el)
    stack = [(el, root)]
    while stack:
        e, n = stack.pop()
        for c in e:
            if c.tag == 'Group':
                m = shell(c)
                n['ch'].append(m)
                stack.append((c, m))
            elif c.tag == 'Entry':
                n['ch'].append(entry_from(c))
    return root


def db_from_et(root, bins=None):
    """model of a decrypted payload (ElementTree); bins: KDBX4 binaries [(flag, data)]"""
    if root.tag != 'KeePassFile':
        raise Violation('root element is %s' % root.tag)
    meta, rt = _one(root, 'Meta'), _one(root, 'Root')
    if meta is None or rt is None:
        raise Violation('Meta or Root missing')
    g = _one(rt, 'Group')
    if g is None:
        raise Violation('no root group')
    db = {'meta': {k: _text(meta, k) for k in META}, 'root': group_from(g)}
    db['meta']['changed'] = decode_time(_text(meta, 'MasterKeyChanged'))
    db['meta']['bin'] = _uuid(_text(meta, 'RecycleBinUUID'), 'recycle bin') if _text(meta, 'RecycleBinUUID') else '0' * 32
    known = set(META) | {'MasterKeyChanged', 'RecycleBinUUID', 'Binaries', 'HeaderHash', 'Generator'}
    db['mx'] = [canon_x(c) for c in meta if c.tag not in known]
    db['rx'] = [canon_x(c) for c in rt if c.tag != 'Group']
    if bins is not None:
        db['bins'] = [d for _, d in bins]
        db['flags'] = [f & 1 for f, _ in bins]
    else:
        out = {}
        pool = _one(meta, 'Binaries')
        for c in (pool.findall('Binary') if pool is not None else []):
            d = base64.b64decode(c.text or '')
            if c.get('Compressed') == 'True' and d:
                z = zlib.decompressobj(31)
                d = z.decompress(d)
                if not z.eof or z.unused_data:
                    raise Violation('binary is not one complete gzip stream')
            i = int(c.get('ID'))
            if i in out:
                raise Violation('two binaries with ID %d' % i)
            out[i] = d
        if sorted(out) != list(range(len(out))):
            raise Violation('binary IDs are not contiguous: %s' % sorted(out))
        db['bins'] = [out[i] for i in range(len(out))]
    return db


# ------------------------------------------------------------------ comparison

TOL = US            # times may lose the sub-second part


def _same_time(a, b):
    if a is ANY or b is ANY:
        return True
    if a is None or b is None:
        return a == b
    return abs(a - b) < TOL


def _short(x):
    r = repr(x)
    return r if len(r) < 300 else r[:300] + '...'


def diff_node(m, v, where, out, history=True):
    """m: model node, v: view node (no children)"""
    def d(what, a, b):
        out.append('%s: %s is %s, expected %s' % (where, what, _short(b), _short(a)))
    for k in ('uuid', 'icon', 'exp'):
        if m[k] is not ANY and m[k] != v[k]:
            d(k, m[k], v[k])
    for k in TAGS:
        if not _same_time(m['t'][k], v['t'][k]):
            d('time ' + TAGS[k], m['t'][k], v['t'][k])
    for k in ('x', 'tx', 'xa') + (('ax',) if m['k'] == 'e' else ()):
        if m.get(k) is not ANY and (m.get(k) or []) != (v.get(k) or []) and (m.get(k) or v.get(k)):
            d('foreign content (%s)' % k, m.get(k), v.get(k))
    if m['k'] == 'g':
        for k in ('name', 'notes'):
            if m[k] != v[k]:
                d(k, m[k], v[k])
        return
    if m['tags'] != v['tags']:
        d('tags', m['tags'], v['tags'])
    mat = m['at'] or {'enabled': '', 'seq': '', 'win': ''}
    for k in ('enabled', 'seq', 'win'):
        if (mat[k] or '') != v['at'][k]:
            d('autotype ' + k, mat[k], v['at'][k])
    if (mat.get('ks') or '') != v['at'].get('ks', ''):
        d('keystrokes of the first association', mat.get('ks'), v['at']['ks'])
    for k in sorted(set(m['s']) | set(v['s'])):
        a, b = m['s'].get(k), v['s'].get(k)
        if a is None:
            if b[0] != '':
                d('field %r' % k, 'absent', b)
            continue
        if b is None:
            if a[0] != '':
                d('field %r' % k, a, 'absent')
            continue
        if a[0] != b[0]:
            d('field %r' % k, a[0], b[0])
        if a[1] is not ANY and bool(a[1]) != b[1] and a[0] != '':
            d('protection of field %r' % k, a[1], b[1])
        if a[2] is not ANY and (a[2] or {}) != b[2]:
            d('attributes of field %r' % k, a[2], b[2])
    if m['att'] != v['att']:
        d('attachments', m['att'], v['att'])
    elif 'ba' in m and m['ba'] != v.get('ba', []):
        d('attributes of attachment values', m['ba'], v.get('ba', []))
    if history:
        mh = m.get('h') or []
        if len(mh) != len(v['h']):
            d('number of history entries', len(mh), len(v['h']))
        for i, (a, b) in enumerate(zip(mh, v['h'])):
            diff_node(a, b, '%s history[%d]' % (where, i), out, False)


def diff_db(m, v, limit=5):
    """list of differences between model and view"""
    out = []
    for k in META:
        if m['meta'][k] != v['meta'][k]:
            out.append('%s is %s, expected %s' % (k, _short(v['meta'][k]), _short(m['meta'][k])))
    if not _same_time(m['meta']['changed'], v['meta']['changed']):
        out.append('MasterKeyChanged is %s, expected %s' % (v['meta']['changed'], m['meta']['changed']))
    if m['meta']['bin'] != v['meta']['bin']:
        out.append('RecycleBinUUID is %s, expected %s' % (v['meta']['bin'], m['meta']['bin']))
    for k in ('mx', 'rx'):
        if (m[k] or []) != (v[k] or []):
            out.append('foreign content in %s is %s, expected %s' % (k, _short(v[k]), _short(m[k])))
    mb = [b['data'] for b in m['bins']]
    if mb != v['bins']:
        out.append('binaries are %s, expected %s' % (_short([bytes(b[:20]) for b in v['bins']]), _short([bytes(b[:20]) for b in mb])))
    stack = [(m['root'], v['root'], 'root')]
    while stack and len(out) < limit:
        a, b, where = stack.pop()
        if a['k'] != b['k']:
            out.append('%s is a %s' % (where, b['k']))
            continue
        diff_node(a, b, where, out)
        if a['k'] == 'g':
            if [(c['k'], c['uuid']) for c in a['ch']] != [(c['k'], c['uuid']) for c in b['ch']]:
                out.append('%s: children are %s, expected %s' % (where, _short([(c['k'], c['uuid'][-4:]) for c in b['ch']]),
                                                                 _short([(c['k'], c['uuid'][-4:]) for c in a['ch']])))
                continue
            for i in range(len(a['ch']) - 1, -1, -1):
                stack.append((a['ch'][i], b['ch'][i], where + '/' + str(i) if len(where) < 200 else '...'))
    return out


def expect_db(m, v, what):
    d = diff_db(m, v)
    if d:
        raise Violation(what + ': ' + '; '.join(d[:5]))


def freeze(v):
    """a view as a model (for 'unchanged' comparisons)"""
    v = clone(v)
    v['bins'] = [{'data': b} for b in v['bins']]
    return v
