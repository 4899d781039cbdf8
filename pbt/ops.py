"""Operation histories: generated operations applied to the implementation and to the model side by side."""
import io, os, pathlib, time, uuid as uuidlib
from datetime import datetime, timedelta, timezone
from hypothesis import strategies as st
from . import gen, model as M, sut
from .core import Violation, check, scratch, HarnessError
from .model import ANY, US


FOCUS = (gen._uu(gen.FOCUS_G), gen._uu(gen.FOCUS_E))


def now_us():
    return M.us_of(datetime.now(timezone.utc))


class World:
    def __init__(self, case, x=None):
        """case: {'cfg', 'db', 'style'?, 'src'?, 'pw'?, 'kf'?}"""
        self.cfg = gen.real_cfg(case['cfg'])
        self.v = tuple(self.cfg['v'])
        self.db = gen.build(case['db'])
        if case.get('binuuid'):
            self.db['meta']['bin'] = case['binuuid']
        self.prepare(case)
        self.pw = case.get('pw', 'pw')
        self.kf = bytes.fromhex(case['kf']) if case.get('kf') is not None else None
        self.src = case.get('src', 0)
        self.dir = None
        self.handles = {}
        self.i = 0
        self.done = []
        self.rejected = 0
        self.verify_each = True
        data = sut.make_file(self.cfg, self.db, self.pw, self.kf, style=case.get('style'))
        self.data = data
        self.open(data)

    negative = False    # attachments with negative ids

    def prepare(self, case):
        """adjust the model before the file is written"""

    # -------------------------------------------------- files
    def tmpdir(self):
        if self.dir is None:
            self.dir = scratch()
        return self.dir

    def kfarg(self):
        return io.BytesIO(self.kf) if self.kf is not None else None

    def open(self, data=None):
        if self.src == 0:
            self.kp = sut.open_bytes(data, self.pw, self.kfarg())
        else:
            p = os.path.join(self.tmpdir(), 'db.kdbx')
            if data is not None:
                with open(p, 'wb') as f:
                    f.write(data)
            self.kp = sut.open_db(p if self.src == 1 else pathlib.Path(p), self.pw, self.kfarg())
        self.handles = {}

    def reopen(self, how=0):
        """save, check the file with the independent reader, open it again"""
        if how % 3 == 1 and self.src:
            self.kp.save()
            with open(self.kp.filename, 'rb') as f:
                data = f.read()
            self.check_file(data)
            self.kp.reload()
            self.handles = {}
        elif how % 3 == 2:
            p = os.path.join(self.tmpdir(), 'other.kdbx')
            self.kp.save(p)
            with open(p, 'rb') as f:
                data = f.read()
            self.check_file(data)
            self.open(data)
        else:
            data = sut.save_bytes(self.kp)
            self.check_file(data)
            self.open(data)
        self.verify('after saving and reopening')

    def check_file(self, data):
        v = sut.read_ref(data, self.pw, self.kf)
        M.expect_db(self.db, v, 'saved file')
        if self.v[0] == 4:
            want = [1 if b.get('prot') else 0 for b in self.db['bins']]
            check(v['flags'] == want, 'saved file: protection flags of binaries are %r, expected %r', v['flags'], want)

    # -------------------------------------------------- elements
    def groups(self):
        return M.groups(self.db)

    def entries(self):
        return M.entries(self.db)

    def g(self, s, root=True):
        gs = self.groups()
        if not root:
            gs = gs[1:]
        f = self.focus(s, gs)
        if f is not None:
            return f
        return gs[s % len(gs)] if gs else None

    def e(self, s):
        es = self.entries()
        return self.focus(s, es) or (es[s % len(es)] if es else None)

    def focus(self, s, nodes):
        """in a database with one big group and entry, choose these often"""
        return next((n for n in nodes if n['uuid'] in FOCUS), None) if s % 2 else None

    def node(self, s):
        ns = M.walk(self.db['root'])
        return (self.focus(s, ns[::-1] if s % 4 == 3 else ns)) or ns[s % len(ns)]

    def trail(self, node):
        """(group indices..., own index) from the root"""
        pm = M.parent_map(self.db)
        path = []
        n = node
        while n is not self.db['root']:
            p = pm[id(n)]
            same = [c for c in p['ch'] if c['k'] == n['k']]
            path.append((n['k'], [x is n for x in same].index(True)))
            n = p
        return path[::-1]

    def walk_to(self, node):
        h = self.kp.root_group
        for k, i in self.trail(node):
            h = h.subgroups[i] if k == 'g' else h.entries[i]
        return h

    def h(self, node, via=None):
        """a handle of the implementation for a model node, obtained one way or another"""
        via = self.i if via is None else via
        if via % 3 == 1 and node['uuid'] in self.handles:
            return self.handles[node['uuid']]
        if via % 3 == 2:
            u = uuidlib.UUID(hex=node['uuid'])
            h = (self.kp.find_groups if node['k'] == 'g' else self.kp.find_entries)(uuid=u, first=True)
            check(h is not None, 'lookup by uuid finds nothing for an existing %s', 'group' if node['k'] == 'g' else 'entry')
        else:
            h = self.walk_to(node)
        check(h.uuid.hex == node['uuid'], 'handle has uuid %s, expected %s', h.uuid.hex, node['uuid'])
        self.keep(node['uuid'], h)
        return h

    def keep(self, uuid, h):
        """hold on to the first object for an element, with everything it may remember"""
        if uuid not in self.handles:
            self.handles[uuid] = h
            if len(self.handles) <= 12:
                sut.read_all(h)

    def held(self):
        """what the objects obtained earlier show now"""
        for n in M.walk(self.db['root']):
            h = self.handles.get(n['uuid'])
            if h is None:
                continue
            if n['k'] == 'e':
                sut.cmp_entry(n, sut.api_entry(h, 'object obtained earlier'), 'object obtained earlier')
            else:
                sut.cmp_group(self.db, n, h, 'object obtained earlier')
            p = None if n is self.db['root'] else self.parent(n)
            got = h.parentgroup
            check((got is None) == (p is None) and (p is None or got.uuid.hex == p['uuid']), 'object obtained earlier: its group is %r', got)

    def parent(self, node):
        return M.parent_map(self.db)[id(node)]

    def inside(self, node, g):
        return any(n is node for n in M.walk(g))

    # -------------------------------------------------- checking
    def verify(self, what=''):
        M.expect_db(self.db, sut.view(self.kp), 'after %s' % (what or self.done[-1:]))

    def api(self):
        sut.check_api(self.kp, self.db)
        self.held()

    def run(self, oplist, api=True):
        if api:
            self.api()
        for op in oplist:
            self.step(op)
        if not self.verify_each:
            self.verify()
        if api:
            self.api()

    def step(self, op):
        self.i += 1
        f = getattr(self, 'op_' + op[0])
        r = f(*op[1:])
        if r is not False:
            self.done.append(op)
            if self.verify_each:
                self.verify('op %d %s' % (self.i, M._short(op)))
        return r

    def refused(self, fn, what, types=Exception):
        before = M.freeze(sut.view(self.kp))
        try:
            fn()
        except types:
            pass
        else:
            raise Violation('%s was not refused' % what)
        self.rejected += 1
        after = sut.view(self.kp)
        M.expect_db(before, after, 'after refused %s' % what)
        fields = lambda v: [x['s'] for e in M.entries(v) for x in [e] + e['h']]
        check(fields(before) == fields(after), 'after refused %s: empty or unset fields changed', what)

    # -------------------------------------------------- creation
    def _adopt(self, dest, t0, t1, handle, k, what):
        """find the element just added below dest and take over what was left to the implementation"""
        v = sut.view(self.kp)
        vd = next((n for n in M.walk(v['root']) if n['k'] == 'g' and n['uuid'] == dest['uuid']), None)
        check(vd is not None, 'destination group vanished')
        check([c['uuid'] for c in vd['ch'][:-1]] == [c['uuid'] for c in dest['ch']] and len(vd['ch']) == len(dest['ch']) + 1,
              '%s: new element is not appended last: %s', what, [c['uuid'][-4:] for c in vd['ch']])
        n = vd['ch'][-1]
        check(n['k'] == k, '%s: wrong kind of element added', what)
        known = {x['uuid'] for x in M.walk(self.db['root'])}
        check(n['uuid'] not in known, '%s: uuid already in use', what)
        if handle is not None:
            check(handle.uuid.hex == n['uuid'], '%s: returned object is not the new element', what)
            self.keep(n['uuid'], handle)
        for key in 'cmal':
            check(n['t'][key] is not None and t0 - US <= n['t'][key] <= t1 + US, '%s: %s of the new element is not now', what, M.TAGS[key])
        return n

    def op_add_group(self, gs, name, icon, notes):
        d = self.g(gs)
        h = self.h(d)
        t0 = now_us()
        kw = {}
        if icon is not None:
            kw['icon'] = icon
        if notes is not None:
            kw['notes'] = notes
        r = self.kp.add_group(h, name, **kw)
        n = self._adopt(d, t0, now_us(), r, 'g', 'add_group')
        m = M.new_group(n['uuid'], name)
        m['icon'], m['notes'], m['exp'] = icon or '', notes or '', False
        m['t'], m['x'], m['tx'] = n['t'], n['x'], n['tx']
        d['ch'].append(m)

    def op_add_entry(self, gs, f):
        d = self.g(gs)
        h = self.h(d)
        kw = {k: f[k] for k in ('url', 'notes', 'tags', 'otp', 'icon') if f.get(k) is not None}
        if f.get('exp') is not None:
            kw['expiry_time'] = M.dt_off(*f['exp'])
        title, user, pw = f['title'], f['username'], f['password']
        force = f.get('force', False)
        if not title or not user:
            force = True
        dup = any(c['k'] == 'e' and c['s'].get('Title', [''])[0] == title and c['s'].get('UserName', [''])[0] == user for c in d['ch'])
        if force:
            kw['force_creation'] = True
        elif dup:
            self.refused(lambda: self.kp.add_entry(h, title, user, pw, **kw), 'duplicate add_entry')
            return True
        t0 = now_us()
        r = self.kp.add_entry(h, title, user, pw, **kw)
        n = self._adopt(d, t0, now_us(), r, 'e', 'add_entry')
        m = M.new_entry(n['uuid'])
        m['s'] = {'Title': [title or '', False, {}], 'UserName': [user or '', False, {}], 'Password': [pw or '', True, {}]}
        if f.get('url'):
            m['s']['URL'] = [f['url'], False, {}]
        if f.get('notes'):
            m['s']['Notes'] = [f['notes'], False, {}]
        if f.get('otp'):
            m['s']['otp'] = [f['otp'], True, {}]
        t = f.get('tags')
        m['tags'] = (';'.join(t) if isinstance(t, list) else t) if t else ''
        m['icon'] = f.get('icon') or ''
        m['exp'] = f.get('exp') is not None
        m['t'] = dict(n['t'])
        if m['exp']:
            m['t']['x'] = f['exp'][0]
        m['x'], m['tx'], m['ax'], m['at'] = n['x'], n['tx'], n['ax'], dict(n['at'])
        check(n['at'] is not None and n['at']['seq'] == '' and n['at']['win'] == '' and n['at']['enabled'] == 'True', 'new entry has autotype settings %r', n['at'])
        d['ch'].append(m)

    def op_new_entry(self, gs, f, at):
        """an Entry made by its constructor, then appended to a group"""
        from pykeepass.entry import Entry
        d = self.g(gs)
        kw = {k: f[k] for k in ('url', 'notes', 'tags', 'otp', 'icon') if f.get(k) is not None}
        if f.get('exp') is not None:
            kw['expiry_time'] = M.dt_off(*f['exp'])
            if f.get('force') is not None:
                kw['expires'] = f['force']
        if at[0] is not None:
            kw['autotype_enabled'] = at[0]
        if at[1]:
            kw['autotype_sequence'] = at[1]
        if at[2]:
            kw['autotype_window'] = at[2]
        t0 = now_us()
        r = Entry(f['title'], f['username'], f['password'], kp=self.kp, **kw)
        h = self.h(d)
        h.append([r] if self.i % 2 else r)
        n = self._adopt(d, t0, now_us(), r, 'e', 'new Entry')
        m = M.new_entry(n['uuid'])
        m['s'] = {'Title': [f['title'] or '', False, {}], 'UserName': [f['username'] or '', False, {}], 'Password': [f['password'] or '', True, {}]}
        for a, k, p in (('url', 'URL', False), ('notes', 'Notes', False), ('otp', 'otp', True)):
            if f.get(a):
                m['s'][k] = [f[a], p, {}]
        t = f.get('tags')
        m['tags'] = (';'.join(t) if isinstance(t, list) else t) if t else ''
        m['icon'] = f.get('icon') or ''
        m['exp'] = bool(kw.get('expires', False))
        m['t'] = dict(n['t'])
        if f.get('exp') is not None:
            m['t']['x'] = f['exp'][0]
        m['x'], m['tx'], m['ax'] = n['x'], n['tx'], n['ax']
        m['at'] = {'enabled': 'False' if at[0] is False else 'True', 'seq': at[1] or '', 'win': at[2] or ''}
        d['ch'].append(m)

    # -------------------------------------------------- fields
    def op_set(self, es, field, value):
        e = self.e(es)
        if e is None:
            return False
        setattr(self.h(e), field, value)
        self.m_set(e, field, value)

    @staticmethod
    def m_set(e, field, value):
        key = M.BUILTIN[field]
        old = e['s'].get(key)
        prot = old[1] if old else False
        if field in ('password', 'otp') and (not old or old[0] == ''):
            prot = True
        e['s'][key] = [value, prot, ANY]

    def op_setg(self, gs, field, value):
        g = self.g(gs)
        setattr(self.h(g), field, value)
        g[field] = value

    def op_icon(self, ns, value):
        n = self.node(ns)
        self.h(n).icon = value
        n['icon'] = value

    def op_tags(self, es, value):
        e = self.e(es)
        if e is None:
            return False
        self.h(e).tags = value
        e['tags'] = ';'.join(value) if isinstance(value, list) else value

    def op_at(self, es, what, value):
        e = self.e(es)
        if e is None:
            return False
        if what == 'enabled':
            value = {'T': True, 'F': False, 'N': None}.get(str(value)[:1].upper(), True)
        setattr(self.h(e), {'enabled': 'autotype_enabled', 'seq': 'autotype_sequence', 'win': 'autotype_window'}[what], value)
        if e['at'] is None:
            e['at'] = {'enabled': '', 'seq': '', 'win': ''}
        e['at'][what] = '' if value is None else str(value)

    def op_time(self, ns, which, us, off):
        n = self.node(ns)
        setattr(self.h(n), {'c': 'ctime', 'm': 'mtime', 'a': 'atime', 'x': 'expiry_time'}[which],
                M.dt_off(us, off))
        n['t'][which] = us

    def op_exp(self, ns, value):
        n = self.node(ns)
        self.h(n).expires = value
        n['exp'] = bool(value)

    def op_touch(self, ns, modify):
        n = self.node(ns)
        t0 = now_us()
        h = self.h(n)
        if modify:
            h.touch(modify=True)
        else:
            h.touch()
        t1 = now_us()
        v = {x['uuid']: x for x in M.walk(sut.view(self.kp)['root'])}[n['uuid']]
        for k in 'am' if modify else 'a':
            check(v['t'][k] is not None and t0 - US <= v['t'][k] <= t1 + US, 'touch did not set %s to now', M.TAGS[k])
            n['t'][k] = v['t'][k]

    def op_uuid(self, ns, code):
        n = self.node(ns)
        if n['uuid'] == self.db['meta']['bin']:
            return False
        new = {0: '00' * 16, 1: 'ff' * 16, 2: '00' * 15 + '01'}.get(code) if code < 3 else gen._uu(10 ** 6 + code)
        if any(x['uuid'] == new for x in M.walk(self.db['root'])) or not new.strip('0') and not (self.db['meta']['bin'] or '').strip('0'):
            return False
        h = self.h(n)
        h.uuid = uuidlib.UUID(hex=new)
        old = self.handles.pop(n['uuid'], None)
        if old is not None:
            self.handles[new] = old
        n['uuid'] = new

    def op_meta(self, what, value):
        attr = {'DatabaseName': 'database_name', 'DatabaseDescription': 'database_description', 'DefaultUserName': 'default_username'}[what]
        setattr(self.kp, attr, value)
        self.db['meta'][what] = value

    def op_days(self, what, n):
        setattr(self.kp, 'credchange_%s_days' % what, n)
        self.db['meta'][{'required': 'MasterKeyChangeForce', 'recommended': 'MasterKeyChangeRec'}[what]] = str(n)

    # -------------------------------------------------- custom properties
    def op_prop_set(self, es, key, value, prot):
        e = self.e(es)
        if e is None:
            return False
        if prot is None:
            self.h(e).set_custom_property(key, value)
        else:
            self.h(e).set_custom_property(key, value, protect=prot)
        e['s'][key] = [value, bool(prot), ANY]

    def op_prop_del(self, es, ks):
        e = self.e(es)
        keys = [k for k in e['s'] if k not in M.RESERVED] if e else []
        if not keys:
            return False
        k = keys[ks % len(keys)]
        self.h(e).delete_custom_property(k)
        del e['s'][k]

    # -------------------------------------------------- attachments
    def all_atts(self):
        out = []
        for e in self.entries():
            for x in [e] + list(e.get('h') or []):
                out.append(x)
        return out

    def op_bin_add(self, hexs, comp, prot):
        data = bytes.fromhex(hexs)
        r = self.kp.add_binary(data, compressed=comp, protected=prot)
        check(r == len(self.db['bins']), 'add_binary returned %r, expected %d', r, len(self.db['bins']))
        self.db['bins'].append({'data': data, 'prot': prot, 'comp': comp})

    def op_bin_del(self, s):
        from pykeepass.exceptions import BinaryError
        n = len(self.db['bins'])
        i = s % (n + 2) - 1 if s % 5 == 4 else (s % n if n else 0)
        if not 0 <= i < n:
            self.refused(lambda: self.kp.delete_binary(i), 'delete_binary(%d) of %d' % (i, n), BinaryError)
            return True
        self.kp.delete_binary(i)
        del self.db['bins'][i]
        for x in self.all_atts():
            if 'ba' in x:
                x['ba'] = [b for b, (nm, r) in zip(x['ba'], x['att']) if r != i]
            x['att'] = [[nm, r - 1 if r > i else r] for nm, r in x['att'] if r != i]

    def op_att_add(self, es, s, name):
        e = self.e(es)
        if e is None:
            return False
        n = len(self.db['bins'])
        i = s % (n + 1) if s % 4 == 3 or not n else s % n
        if self.negative and s % 17 == 11:
            i = -1 - s % 2
        a = self.h(e).add_attachment(i, name)
        check(a.id == i and sut.nz(a.filename) == name, 'add_attachment returned %r', a)
        sut.check_data(a, i, self.db, 'new attachment')
        e['att'].append([name, i])
        if 'ba' in e:
            e['ba'].append({})

    def _att(self, es, s):
        """an attachment of a live entry: (entry, index)"""
        c = [(e, j) for e in self.entries() for j in range(len(e['att']))]
        return c[(es * 7 + s) % len(c)] if c else (None, None)

    def op_att_del(self, es, s):
        e, j = self._att(es, s)
        if e is None:
            return False
        h = self.h(e)
        a = h.attachments[j]
        if s % 2:
            a.delete()
        else:
            h.delete_attachment(a)
        del e['att'][j]
        if 'ba' in e:
            del e['ba'][j]

    def op_att_name(self, es, s, name):
        e, j = self._att(es, s)
        if e is None:
            return False
        self.h(e).attachments[j].filename = name
        e['att'][j][0] = name

    def op_att_ref(self, es, s, r):
        e, j = self._att(es, s)
        if e is None:
            return False
        i = r % (len(self.db['bins']) + 1) if not self.negative or r % 17 != 11 else -1
        self.h(e).attachments[j].id = i
        e['att'][j][1] = i

    # -------------------------------------------------- history
    def op_hist_add(self, es):
        e = self.e(es)
        if e is None:
            return False
        self.h(e).save_history()
        snap = M.clone(e)
        snap['h'] = []
        e['h'] = (e.get('h') or []) + [snap]

    def op_hist_del(self, es, s):
        c = [e for e in self.entries() if e.get('h')]
        if not c:
            return False
        e = c[es % len(c)]
        i = s % len(e['h'])
        h = self.h(e)
        if self.i % 3:
            h.delete_history(h.history[i])
        else:
            h.history[i].delete()
        del e['h'][i]

    def op_hist_set(self, es, s, field, value):
        """edit a history item itself"""
        c = [e for e in self.entries() if e.get('h')]
        if not c:
            return False
        e = c[es % len(c)]
        i = s % len(e['h'])
        setattr(self.h(e).history[i], field, value)
        self.m_set(e['h'][i], field, value)

    def op_hist_all(self, es):
        e = self.e(es)
        if e is None:
            return False
        self.h(e).delete_history(all=True)
        e['h'] = []

    # -------------------------------------------------- tree
    def op_mv_e(self, es, gs):
        e, g = self.e(es), self.g(gs)
        if e is None:
            return False
        self.kp.move_entry(self.h(e), self.h(g, self.i + 1))
        self._detach(e)
        g['ch'].append(e)

    def _detach(self, n):
        p = self.parent(n)
        for i, c in enumerate(p['ch']):
            if c is n:
                del p['ch'][i]
                return

    def op_mv_g(self, gs, ds):
        g, d = self.g(gs, False), self.g(ds)
        if g is None:
            return False
        if self.inside(d, g):
            hg, hd = self.h(g), self.h(d, self.i + 1)
            self.refused(lambda: self.kp.move_group(hg, hd), 'moving a group below itself')
            return True
        self.kp.move_group(self.h(g), self.h(d, self.i + 1))
        self._detach(g)
        d['ch'].append(g)

    def op_reads(self, s):
        """calls that only read"""
        kp = self.kp
        for n in (self.node(s), self.e(s), self.g(s)):
            if n is None:
                continue
            h = self.h(n)
            for a in (h.path, h.group, h.parentgroup, h.expired, str(h), repr(h), hash(h), h == h, h.dump_xml()):
                pass
            if n['k'] == 'e':
                for f in ('title', 'username', 'password', 'url', 'notes', 'uuid'):
                    check(kp.deref(h.ref(f)) is not None or '{REF:' in str(getattr(h, f)), 'reference to %s of an existing entry resolves to None', f)
                for a in (h.index, h.history, h.attachments, h.custom_properties, h.is_a_history_entry, kp.find_entries(path=h.path), kp.find_entries(title=h.title, history=True),
                          kp.find_entries(title='(a|.)', regex=True, flags='i', first=True), kp.find_attachments(filename='a', element=h, history=True)):
                    pass
            else:
                for a in (kp.find_groups(name=h.name), kp.find_groups(path=h.path), kp.find_entries(group=h, recursive=False), kp.find_attachments(element=h), h.entries, h.subgroups):
                    pass
        for a in (kp.credchange_required, kp.credchange_recommended, kp.recyclebin_group, kp.attachments, kp.encryption_algorithm, kp.kdf_algorithm, kp.database_salt, kp.transformed_key, kp.version):
            pass

    def op_append(self, sels, gs):
        es = []
        for s in sels:
            e = self.e(s)
            if e is not None and not any(x is e for x in es):
                es.append(e)
        if not es:
            return False
        g = self.g(gs)
        self.h(g).append([self.h(e) for e in es])
        for e in es:
            self._detach(e)
            g['ch'].append(e)

    def op_del_e(self, es):
        e = self.e(es)
        if e is None:
            return False
        if self.i % 2:
            self.kp.delete_entry(self.h(e))
        else:
            self.h(e).delete()
        self._detach(e)
        self.handles.pop(e['uuid'], None)

    def op_del_g(self, gs):
        g = self.g(gs, False)
        if g is None:
            return False
        if self.i % 2:
            self.kp.delete_group(self.h(g))
        else:
            self.h(g).delete()
        self._forget(g)
        self._detach(g)

    def _forget(self, g):
        for n in M.walk(g):
            self.handles.pop(n['uuid'], None)

    def op_empty(self, gs):
        g = self.g(gs)
        h = self.h(g)
        self.kp.empty_group(h)
        for c in g['ch']:
            self._forget(c)
        g['ch'] = []

    def bin(self):
        return next((g for g in self.groups() if g['uuid'] == self.db['meta']['bin']), None)

    def op_trash(self, ns):
        from pykeepass.exceptions import UnableToSendToRecycleBin
        n = self.node(ns)
        b = self.bin()
        h = self.h(n)
        fn = (lambda: self.kp.trash_group(h)) if n['k'] == 'g' else (lambda: self.kp.trash_entry(h))
        if n is self.db['root'] or n is b:
            self.refused(fn, 'trashing the root group or the recycle bin', UnableToSendToRecycleBin)
            return True
        if b is not None and n['k'] == 'g' and self.inside(b, n):
            self.refused(fn, 'trashing a group that contains the recycle bin')
            return True
        t0 = now_us()
        fn()
        if b is None:
            v = sut.view(self.kp)
            b = self._adopt_bin(v, t0, n)
        self._detach(n)
        b['ch'].append(n)
        r = self.kp.recyclebin_group
        check(r is not None and r.uuid.hex == b['uuid'], 'recyclebin_group is %r', r)

    def _adopt_bin(self, v, t0, moved):
        root = self.db['root']
        check(len(v['root']['ch']) > 0 and v['root']['ch'][-1]['k'] == 'g', 'no recycle bin was created under the root')
        n = v['root']['ch'][-1]
        check(n['uuid'] == v['meta']['bin'], 'RecycleBinUUID does not name the new recycle bin')
        check(n['uuid'] not in {x['uuid'] for x in M.walk(root)}, 'recycle bin reuses a uuid')
        for key in 'cmal':
            check(n['t'][key] is not None and t0 - US <= n['t'][key] <= now_us() + US, 'recycle bin: %s is not now', M.TAGS[key])
        m = M.new_group(n['uuid'], n['name'])
        for k in ('notes', 'icon', 'exp', 't', 'x', 'tx'):
            m[k] = n[k]
        self.db['meta']['bin'] = n['uuid']
        root['ch'].append(m)
        return m

    def op_empty_bin(self):
        b = self.bin()
        if b is None:
            return False
        self.kp.empty_group(self.kp.recyclebin_group)
        for c in b['ch']:
            self._forget(c)
        b['ch'] = []

    def op_reindex(self, es, s):
        e = self.e(es)
        if e is None:
            return False
        g = self.parent(e)
        sib = [c for c in g['ch'] if c['k'] == 'e']
        i = s % len(sib)
        h = self.h(e)
        h.reindex(i)
        # model: position among entries changes, everything else keeps its relative order
        v = next(n for n in M.walk(sut.view(self.kp)['root']) if n['uuid'] == g['uuid'] and n['k'] == 'g')
        order = [x for x in sib if x is not e]
        order.insert(i, e)
        byu = {c['uuid']: c for c in g['ch']}
        check(sorted(c['uuid'] for c in v['ch']) == sorted(byu), 'reindex lost or duplicated children')
        check([c['uuid'] for c in v['ch'] if c['k'] == 'e'] == [c['uuid'] for c in order], 'reindex(%d): entries are %r, expected %r', i,
              [c['uuid'][-4:] for c in v['ch'] if c['k'] == 'e'], [c['uuid'][-4:] for c in order])
        others = lambda ch: [c['uuid'] for c in ch if c['uuid'] != e['uuid']]
        check(others(v['ch']) == others(g['ch']), 'reindex changed the order of other children')
        g['ch'] = [byu[c['uuid']] for c in v['ch']]
        check(self.h(e).index == i, 'index is %r after reindex(%d)', self.h(e).index, i)

    # -------------------------------------------------- files and credentials
    def op_reopen(self, how):
        self.reopen(how)

    def op_pw(self, pw):
        t0 = now_us()
        self.kp.password = pw
        self.pw = pw
        self._changed(t0)

    def op_kf(self, hexs):
        t0 = now_us()
        self.kf = bytes.fromhex(hexs) if hexs is not None else None
        self.kp.keyfile = self.kfarg()
        self._changed(t0)

    def _changed(self, t0):
        c = sut.view(self.kp)['meta']['changed']
        check(c is not None and t0 - US <= c <= now_us() + US, 'credential change date was not set to now')
        self.db['meta']['changed'] = c


# ------------------------------------------------------------------ strategies

def _t(*a):
    return st.tuples(*a).map(list)


def add_entry_args(t=gen.text):
    exp = st.tuples(gen.when, st.sampled_from([0, 60, -330, 845])).map(list)
    n = st.one_of(t, t, t, t, t, t, t, st.none())
    return st.fixed_dictionaries({'title': n, 'username': n, 'password': n},
                                 optional={'url': t, 'notes': t, 'otp': t, 'icon': gen.some_icon,
                                           'tags': st.one_of(st.lists(gen.one_tag, min_size=1, max_size=3), gen.one_tag), 'exp': exp, 'force': st.booleans()})


def table(t=gen.text):
    s = gen.sel
    return {
        'add_group': _t(st.just('add_group'), s(), t, st.one_of(st.none(), gen.some_icon), st.one_of(st.none(), t)),
        'add_entry': _t(st.just('add_entry'), s(), add_entry_args(t)),
        'set': _t(st.just('set'), s(), st.sampled_from(sorted(M.BUILTIN)), t),
        'setg': _t(st.just('setg'), s(), st.sampled_from(['name', 'notes']), t),
        'icon': _t(st.just('icon'), s(), gen.some_icon),
        'tags': _t(st.just('tags'), s(), st.one_of(st.lists(gen.one_tag, max_size=3), gen.ident, gen.text)),
        'at': _t(st.just('at'), s(), st.sampled_from(['enabled', 'seq', 'win']), t),
        'time': _t(st.just('time'), s(), st.sampled_from(list('cmax')), gen.when, st.sampled_from([0, 60, -330, 845])),
        'exp': _t(st.just('exp'), s(), st.booleans()),
        'touch': _t(st.just('touch'), s(), st.booleans()),
        'uuid': _t(st.just('uuid'), s(), s()),
        'meta': _t(st.just('meta'), st.sampled_from(M.META[:3]), t),
        'days': _t(st.just('days'), st.sampled_from(['required', 'recommended']), st.integers(-1, 400)),
        'prop_set': _t(st.just('prop_set'), s(), gen.prop_key, t, st.sampled_from([None, True, False])),
        'prop_del': _t(st.just('prop_del'), s(), s()),
        'bin_add': _t(st.just('bin_add'), gen.hexdata, st.booleans(), st.booleans()),
        'bin_del': _t(st.just('bin_del'), s()),
        'att_add': _t(st.just('att_add'), s(), s(), t),
        'att_del': _t(st.just('att_del'), s(), s()),
        'att_name': _t(st.just('att_name'), s(), s(), t),
        'att_ref': _t(st.just('att_ref'), s(), s(), s()),
        'hist_add': _t(st.just('hist_add'), s()),
        'hist_del': _t(st.just('hist_del'), s(), s()),
        'hist_set': _t(st.just('hist_set'), s(), s(), st.sampled_from(sorted(M.BUILTIN)), t),
        'new_entry': _t(st.just('new_entry'), s(), add_entry_args(t), _t(st.sampled_from([None, None, True, False]), st.one_of(st.none(), t), st.one_of(st.none(), t))),
        'hist_all': _t(st.just('hist_all'), s()),
        'mv_e': _t(st.just('mv_e'), s(), s()),
        'mv_g': _t(st.just('mv_g'), s(), s()),
        'append': _t(st.just('append'), st.lists(s(), min_size=1, max_size=3), s()),
        'del_e': _t(st.just('del_e'), s()),
        'del_g': _t(st.just('del_g'), s()),
        'empty': _t(st.just('empty'), s()),
        'trash': _t(st.just('trash'), s()),
        'empty_bin': st.just(['empty_bin']),
        'reads': _t(st.just('reads'), s()),
        'reindex': _t(st.just('reindex'), s(), s()),
        'reopen': _t(st.just('reopen'), st.integers(0, 2)),
        'pw': _t(st.just('pw'), st.one_of(st.none(), t)),
        'kf': _t(st.just('kf'), st.one_of(st.none(), gen.hexdata)),
    }


def oplist(weights, t=gen.text, max_size=10, min_size=0, extra=None):
    """lists of operations; weights: {name: weight}; extra: further operations {name: strategy}"""
    tab = dict(table(t), **(extra or {}))
    names = [n for n, w in weights.items() for _ in range(w)]
    if gen.BIG:
        names = [n for n, w in weights.items() for _ in range((w + 2) // 2 if w else 0)]
    one = st.sampled_from(names).flatmap(lambda n: tab[n])
    if gen.BIG and max_size > 3:
        min_size, max_size = 6, 16
    return st.lists(one, min_size=min_size, max_size=max_size)
