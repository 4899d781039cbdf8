"""Views of the implementation's state through its public interface, and helpers to make and open files."""
import base64, io, os
import xml.etree.ElementTree as ET
from datetime import timezone, timedelta, datetime
from . import kdbxref as ref, model as M
from .core import Violation, check, HarnessError

STYLE0 = {}


def make_file(cfg, db, password='pw', keyfile=None, transformed=None, style=None):
    """bytes of a KDBX file written by the reference writer"""
    comp = ref.composite(password, keyfile) if transformed is None else None

    def xml(protect, hh):
        return M.Writer(db, cfg['v'], style or STYLE0, protect, hh).build()
    # bits of the flags other than the first have no meaning (yet)
    bins = [((1 if b.get('prot') else 0) | (4 if len(b['data']) % 5 == 3 else 0), b['data']) for b in db['bins']] if cfg['v'][0] == 4 else ()
    return ref.write_kdbx(cfg, xml, bins, comp=comp, transformed=transformed)


def open_db(src, password='pw', keyfile=None, **kw):
    from pykeepass import PyKeePass
    return PyKeePass(src, password=password, keyfile=keyfile, **kw)


def open_bytes(data, password='pw', keyfile=None, **kw):
    return open_db(io.BytesIO(data), password, keyfile, **kw)


def save_bytes(kp, **kw):
    b = io.BytesIO()
    kp.save(b, **kw)
    return b.getvalue()


def view(kp):
    """model of the open database, from its XML export and its list of binaries"""
    root = ref.xml_root(kp.xml())
    if tuple(kp.version)[0] == 4:
        return M.db_from_et(root, [(0, bytes(b)) for b in kp.binaries])
    v = M.db_from_et(root)
    b = [bytes(x) for x in kp.binaries]
    check(b == v['bins'], 'binaries %r differ from those in the XML %r', [x[:20] for x in b], [x[:20] for x in v['bins']])
    return v


def read_ref(data, password='pw', keyfile=None, transformed=None, strict=True):
    """model of a file's content according to the independent reader; Violation if it is not conforming"""
    comp = ref.composite(password, keyfile) if transformed is None else None
    try:
        res = ref.read_kdbx(data, comp=comp, transformed=transformed, strict=strict)
        root = ref.parse_xml(res)
    except ref.RefError as e:
        raise Violation('file rejected by the independent reader: %s' % e)
    v = M.db_from_et(root, res['binaries'])
    v['res'] = res
    return v


def nz(x):
    return '' if x is None else x


def api_time(d, what):
    if d is None:
        return None
    check(isinstance(d, datetime) and d.tzinfo is not None and d.utcoffset() == timedelta(0), '%s is %r, not a UTC datetime', what, d)
    return M.us_of(d)


def api_entry(e, where, history=True):
    s = {}
    for attr, key in M.BUILTIN.items():
        val = getattr(e, attr)
        if val is not None:
            check(isinstance(val, str), '%s: %s is %r', where, attr, val)
            s[key] = [val, M.ANY, M.ANY]
    cp = e.custom_properties
    for k, val in cp.items():
        check(k not in s, '%s: custom property %r hides a built-in field', where, k)
        check(nz(e.get_custom_property(k)) == nz(val), '%s: custom property %r: listing %r, lookup %r', where, k, val, e.get_custom_property(k))
        s[k] = [nz(val), bool(e.is_custom_property_protected(k)), M.ANY]
    n = {'k': 'e', 'uuid': e.uuid.hex, 's': s, 'tags': list(e.tags), 'icon': nz(e.icon), 'exp': e.expires,
         't': {'c': api_time(e.ctime, 'ctime'), 'm': api_time(e.mtime, 'mtime'), 'a': api_time(e.atime, 'atime'),
               'x': api_time(e.expiry_time, 'expiry_time'), 'l': M.ANY},
         'at': {'enabled': {None: '', True: 'True', False: 'False'}[e.autotype_enabled], 'seq': nz(e.autotype_sequence),
                'win': nz(e.autotype_window)},
         'att': [[nz(a.filename), a.id] for a in e.attachments], 'ishist': e.is_a_history_entry}
    n['h'] = [api_entry(h, where + ' history[%d]' % i, False) for i, h in enumerate(e.history)] if history else []
    if not history:
        check(e.history == [], '%s: history entry has history', where)
    return n


def split_tags(t):
    return t.replace(',', ';').split(';') if t else []


def cmp_entry(m, v, where, hist=False):
    def d(what, a, b):
        raise Violation('%s: %s reads %s, expected %s' % (where, what, M._short(b), M._short(a)))
    if m['uuid'] != v['uuid']:
        d('uuid', m['uuid'], v['uuid'])
    for k in set(m['s']) | set(v['s']):
        a, b = m['s'].get(k, ['', M.ANY]), v['s'].get(k, ['', M.ANY])
        if a[0] != b[0]:
            d('field %r' % k, a[0], b[0])
        if a[1] is not M.ANY and b[1] is not M.ANY and bool(a[1]) != b[1] and a[0] != '':
            d('protection of %r' % k, a[1], b[1])
        if k in m['s'] and k not in M.RESERVED and k not in v['s']:
            d('custom property %r' % k, a[0], 'absent')
        if k not in m['s'] and k not in M.RESERVED:
            d('custom property %r' % k, 'absent', b[0])
    if split_tags(m['tags']) != v['tags']:
        d('tags', split_tags(m['tags']), v['tags'])
    if m['icon'] != v['icon']:
        d('icon', m['icon'], v['icon'])
    if m['exp'] is not M.ANY and bool(m['exp']) != bool(v['exp']):
        d('expires', m['exp'], v['exp'])
    mat = m['at'] or {'enabled': '', 'seq': '', 'win': ''}
    for k in ('enabled', 'seq', 'win'):
        if (mat[k] or '') != v['at'][k]:
            d('autotype ' + k, mat[k], v['at'][k])
    for k in 'cmax':
        if not M._same_time(m['t'][k], v['t'][k]):
            d('time ' + M.TAGS[k], m['t'][k], v['t'][k])
    if [list(x) for x in m['att']] != v['att']:
        d('attachments', m['att'], v['att'])
    if v['ishist'] != hist:
        d('is_a_history_entry', hist, v['ishist'])
    if not hist:
        mh = m.get('h') or []
        if len(mh) != len(v['h']):
            d('number of history entries', len(mh), len(v['h']))
        for i, (a, b) in enumerate(zip(mh, v['h'])):
            cmp_entry(a, b, where + ' history[%d]' % i, True)


def cmp_group(db, n, g, where):
    for attr, want in (('name', n['name']), ('notes', n['notes']), ('icon', n['icon'])):
        check(nz(getattr(g, attr)) == want, '%s: %s reads %r, expected %r', where, attr, getattr(g, attr), want)
    check(g.uuid.hex == n['uuid'], '%s: uuid', where)
    check(n['exp'] is M.ANY or bool(g.expires) == bool(n['exp']), '%s: expires reads %r', where, g.expires)
    for k, attr in zip('cmax', ('ctime', 'mtime', 'atime', 'expiry_time')):
        check(M._same_time(n['t'][k], api_time(getattr(g, attr), attr)), '%s: %s reads %r, expected %s', where, attr, getattr(g, attr), n['t'][k])
    check(g.is_root_group == (n is db['root']), '%s: is_root_group', where)
    es, gs = g.entries, g.subgroups
    me, mg = [c for c in n['ch'] if c['k'] == 'e'], [c for c in n['ch'] if c['k'] == 'g']
    check([x.uuid.hex for x in es] == [x['uuid'] for x in me], '%s: entries are %r, expected %r', where,
          [x.uuid.hex[-4:] for x in es], [x['uuid'][-4:] for x in me])
    check([x.uuid.hex for x in gs] == [x['uuid'] for x in mg], '%s: subgroups are %r, expected %r', where,
          [x.uuid.hex[-4:] for x in gs], [x['uuid'][-4:] for x in mg])
    return es, gs, me, mg


def read_all(h):
    """read everything an object has to tell, so that it may remember it"""
    if hasattr(h, 'history'):
        api_entry(h, 'new object')
        h.index, h.expired
        for a in h.attachments:
            a.id, a.filename
        # what is returned is the caller's own
        h.attachments.clear(), h.history.clear(), h.tags.append('x'), h.custom_properties.clear()
    else:
        h.entries.clear(), h.subgroups.clear(), h.path.append('x')
        h.name, h.notes, h.icon, h.expires, h.ctime, h.mtime, h.atime, h.expiry_time, h.entries, h.subgroups, h.is_root_group
    h.path.insert(0, 'x')
    h.path, h.uuid, h.group, str(h)


def check_api(kp, db, paths=True):
    """compare everything the read accessors show with the model"""
    m = db['meta']
    for attr, k in (('database_name', 'DatabaseName'), ('database_description', 'DatabaseDescription'), ('default_username', 'DefaultUserName')):
        check(nz(getattr(kp, attr)) == m[k], '%s reads %r, expected %r', attr, getattr(kp, attr), m[k])
    for attr, k in (('credchange_required_days', 'MasterKeyChangeForce'), ('credchange_recommended_days', 'MasterKeyChangeRec')):
        check(getattr(kp, attr) == (int(m[k]) if m[k] != '' else None), '%s reads %r, expected %r', attr, getattr(kp, attr), m[k])
    check(M._same_time(m['changed'], api_time(kp.credchange_date, 'credchange_date')), 'credchange_date reads %r', kp.credchange_date)
    check([bytes(b) for b in kp.binaries] == [b['data'] for b in db['bins']], 'binaries differ')
    check([g.uuid.hex for g in kp.groups] == [g['uuid'] for g in M.groups(db)], 'kp.groups lists %r, expected %r',
          [g.uuid.hex[-4:] for g in kp.groups], [g['uuid'][-4:] for g in M.groups(db)])
    check([e.uuid.hex for e in kp.entries] == [e['uuid'] for e in M.entries(db)], 'kp.entries lists %r, expected %r',
          [e.uuid.hex[-4:] for e in kp.entries], [e['uuid'][-4:] for e in M.entries(db)])
    bins = [g['uuid'] for g in M.groups(db) if g['uuid'] == m['bin']]
    r = kp.recyclebin_group
    check(r is None if not bins else r is not None and r.uuid.hex == m['bin'], 'recyclebin_group is %r, expected %r', r, bins)
    atts = [(e['uuid'], n, r) for e in M.entries(db) for n, r in e['att']]
    got = [(a.entry.uuid.hex, nz(a.filename), a.id) for a in kp.attachments]
    check(got == [tuple(x) for x in atts], 'kp.attachments lists %r, expected %r', got[:6], atts[:6])
    for a, (u, n, r) in list(zip(kp.attachments, atts))[:4]:
        e = a.entry
        check(e.uuid.hex == u and [x.id for x in e.attachments].count(r) and e.group is not None and nz(e.title) == nz(kp.find_entries(uuid=e.uuid, first=True).title),
              'the entry of attachment %r is %r', a, e)
        check_data(a, r, db, 'listed attachment')
    kp.entries.clear(), kp.groups.clear(), kp.attachments.clear(), kp.binaries.clear()
    root = kp.root_group
    check(root is not None, 'no root group')
    stack = [(root, db['root'], 'root')]
    while stack:
        g, n, where = stack.pop()
        es, gs, me, mg = cmp_group(db, n, g, where)
        for i, (a, b) in enumerate(zip(es, me)):
            w = '%s entry %d' % (where, i)
            cmp_entry(b, api_entry(a, w), w)
            for at, (nm, r) in zip(a.attachments, b['att']):
                check_data(at, r, db, w)
        for i, (a, b) in enumerate(zip(gs, mg)):
            stack.append((a, b, where + '/%d' % i if len(where) < 200 else '...'))


def check_data(at, r, db, where):
    from pykeepass.exceptions import BinaryError
    if 0 <= r < len(db['bins']):
        want = db['bins'][r]['data']
        check(bytes(at.data) == want and bytes(at.binary) == want, '%s: attachment %r has data %r, expected %r', where,
              at.filename, bytes(at.data)[:30], want[:30])
    else:
        try:
            got = at.data
        except BinaryError:
            return
        raise Violation('%s: attachment without binary gives %r instead of BinaryError' % (where, bytes(got)[:30]))
