import uuid as uuidlib
from datetime import datetime, timezone
from hypothesis import strategies as st
from .. import gen, ops, sut, model as M
from ..core import check, Violation
ID = 'C11'
QUICK, THOROUGH = 2600, 60000
BIG = 16
RULE = ('case = database x up to 12 steps, of which about half are calls that must be refused (illegal XML text or wrong types in any field or argument, reserved or missing '
        'property names, duplicates, moves below itself, root / recycle bin to the bin, unknown ids) at generated targets; each must raise and leave the whole '
        'content as it was; non-trivial: at least two refused calls')
ILL = ['\x00', 'a\x00b', '\x01', 'x\x0b', '\x1f', '\ufffe', 'a\uffff', '\ud800', 'ok\udfff', '\x08end']
TYPES = [5, 1.5, ['a'], [5], ('x',), {'s': 1}, True, b'\xff', None, 0]
illegal = st.one_of(st.sampled_from(ILL), st.tuples(gen.text, st.sampled_from(ILL), gen.text).map(''.join))
s = gen.sel
W = {'add_group': 2, 'add_entry': 3, 'set': 2, 'prop_set': 3, 'prop_del': 1, 'bin_add': 1, 'att_add': 1, 'hist_add': 2, 'mv_e': 1, 'mv_g': 2, 'trash': 3, 'reopen': 1,
     'bin_del': 1, 'tags': 1, 'at': 1, 'del_g': 1, 'ill': 8, 'typ': 7, 'misc': 8}
FIELDS = ['title', 'username', 'password', 'url', 'notes', 'otp', 'tags', 'tagl', 'icon', 'aseq', 'awin', 'aen', 'gname', 'gnotes', 'gicon', 'prop', 'propk', 'attname', 'newatt', 'newgroup',
          'newgroupn', 'newgroupi', 'e_title', 'e_username', 'e_password', 'e_url', 'e_notes', 'e_otp', 'e_tags', 'e_icon', 'm_name', 'm_desc', 'm_user', 'm_req', 'm_rec', 'attid', 'protect',
          'e_tagl']
MISC = ['uuid', 'time', 'exptime', 'cdate', 'reserved', 'reserveddel', 'reserveddel', 'reservedget', 'reservedprot', 'missing', 'missing', 'dup', 'dup', 'self', 'rootmove', 'trashroot', 'trashbin', 'trashbin', 'trashnone', 'binid',
        'binid', 'bintype', 'hist', 'hist2', 'histset', 'reindex', 'append', 'destnone', 'addexp', 'find', 'find2', 'deldetached', 'addgroupdest', 'mvnone']
EXTRA = {'ill': st.tuples(st.just('ill'), st.sampled_from(FIELDS), s(), illegal).map(list),
         'typ': st.tuples(st.just('typ'), st.sampled_from(FIELDS), s(), st.integers(0, len(TYPES) - 1)).map(list),
         'misc': st.tuples(st.just('misc'), st.sampled_from(MISC), s(), s()).map(list)}


def strategy(tier):
    return st.fixed_dictionaries({'ops': ops.oplist(W, min_size=4, max_size=12 if tier == 'quick' else 25, extra=EXTRA), 'cfg': gen.cheap_cfg(),
                                  'db': gen.database(maxnodes=6, atnone=True, omit=True), 'style': gen.style})


def fixed(tier):
    """every kind of refused call x every bad value, on a database that has everything"""
    from . import c12
    db = c12._fixed_db()
    db['bin'] = 3
    db['nodes'].append(['e', 4, c12._entry(6)])
    todo = [['ill', f, j + i, t] for i, f in enumerate(FIELDS) for j, t in enumerate(ILL)]
    todo += [['typ', f, j + i, j] for i, f in enumerate(FIELDS) for j in range(len(TYPES))]
    todo += [['misc', k, a, b] for k in dict.fromkeys(MISC) for a in range(4) for b in range(12)]
    return [{'ops': todo[i:i + 40], 'cfg': dict(gen.CHEAP, v=[[4, 0], [3, 1]][i // 40 % 2]), 'db': db, 'style': {}} for i in range(0, len(todo), 40)]


class World(ops.World):
    def call(self, f, es, val):
        """a closure setting or passing `val` where field f says; None when there is no target"""
        kp = self.kp
        e = self.e(es)
        h = self.h(e) if e else None
        if f in ('title', 'username', 'password', 'url', 'notes', 'otp', 'tags', 'icon') and h:
            return lambda: setattr(h, f, val)
        if f == 'tagl' and h:
            return lambda: setattr(h, 'tags', ['a', val])
        if f in ('aseq', 'awin', 'aen') and h:
            return lambda: setattr(h, {'aseq': 'autotype_sequence', 'awin': 'autotype_window', 'aen': 'autotype_enabled'}[f], val)
        g = self.h(self.g(es))
        if f in ('gname', 'gnotes', 'gicon'):
            return lambda: setattr(g, f[1:], val)
        if f == 'prop' and h:
            keys = [k for k in e['s'] if k not in M.RESERVED]
            return lambda: h.set_custom_property(keys[es % len(keys)] if keys else 'k', val, protect=bool(es % 2))
        if f == 'propk' and h:
            return lambda: h.set_custom_property(val, 'value')
        if f == 'attname' and h and e['att']:
            a = h.attachments[es % len(e['att'])]
            return lambda: setattr(a, 'filename', val)
        if f == 'attid' and h and e['att'] and isinstance(val, str):
            a = h.attachments[es % len(e['att'])]
            return lambda: setattr(a, 'id', val)
        if f == 'newatt' and h:
            return lambda: h.add_attachment(0, val)
        if f == 'newgroup':
            return lambda: kp.add_group(g, val)
        if f == 'newgroupn':
            return lambda: kp.add_group(g, 'name', notes=val)
        if f == 'newgroupi':
            return lambda: kp.add_group(g, 'name', icon=val)
        if f.startswith('e_'):
            a = {'title': 'new title %d' % es, 'username': 'u', 'password': 'p'}
            a['tags' if f == 'e_tagl' else f[2:]] = ['a', val] if f == 'e_tagl' else val
            return lambda: kp.add_entry(g, a.pop('title'), a.pop('username'), a.pop('password'), force_creation=True, **a)
        if f.startswith('m_') and isinstance(val, str):
            return lambda: setattr(kp, {'m_name': 'database_name', 'm_desc': 'database_description', 'm_user': 'default_username',
                                        'm_req': 'credchange_required_days', 'm_rec': 'credchange_recommended_days'}[f], val)
        return None

    def op_ill(self, f, es, text):
        c = self.call(f, es, text)
        if c is None:
            return False
        self.refused(c, '%s = %r' % (f, text))
        return True

    def op_typ(self, f, es, i):
        val = TYPES[i]
        # where a value is converted, means "not given" or is documented as a list, it is not of the wrong type
        falsy = not val
        if f in ('aen', 'protect', 'attid') or f.startswith('m_'):
            return False
        if val is None and f in ('aseq', 'awin', 'attname') or falsy and (f.startswith('e_') and f != 'e_tagl' or f in ('newgroupn', 'newgroupi')):
            return False
        if f in ('tags', 'e_tags') and val in (['a'], ('x',)):
            return False
        if isinstance(val, dict) or val == ('x',) and f in ('tags', 'e_tags'):
            return False
        c = self.call(f, es, val)
        if c is None:
            return False
        self.refused(c, '%s = %r' % (f, val))
        return True

    def op_misc(self, k, a, b):
        kp = self.kp
        e = self.e(a)
        h = self.h(e) if e else None
        n = self.node(a)
        nh = self.h(n)
        g = self.g(b)
        gh = self.h(g)
        bad = [5, 'x', None, 1.5][b % 4]
        R = M.RESERVED[b % len(M.RESERVED)]
        binn = self.bin()
        c = None
        if k == 'uuid':
            c = lambda: setattr(nh, 'uuid', [5, 'x', None, n['uuid']][b % 4])
        elif k == 'time':
            c = lambda: setattr(nh, ['ctime', 'mtime', 'atime', 'expiry_time'][a % 4], bad)
        elif k == 'exptime':
            c = lambda: setattr(nh, 'expiry_time', bad)
        elif k == 'cdate':
            c = lambda: setattr(kp, 'credchange_date', bad)
        elif k == 'reserved' and h:
            c = lambda: h.set_custom_property(R, 'v')
        elif k == 'reserveddel' and h:
            have = [x for x in M.RESERVED if x in e['s']] or M.RESERVED
            c = lambda: h.delete_custom_property(have[b % len(have)])
        elif k == 'reservedget' and h:
            c = lambda: h.get_custom_property(R)
        elif k == 'reservedprot' and h:
            c = lambda: h.is_custom_property_protected(R)
        elif k == 'missing' and h:
            key = ['nope', '', 'Title', '"', 'k1 ', "'", 'URL'][b % 7]
            if key in M.RESERVED or key not in e['s']:
                c = lambda: h.delete_custom_property(key)
        elif k == 'dup' and h:
            p = self.parent(e)
            t, u = (e['s'].get(x, [''])[0] for x in ('Title', 'UserName'))
            if t and u:
                ph = self.h(p)
                c = lambda: kp.add_entry(ph, t, u, 'pw')
        elif k == 'self':
            inner = [x for x in M.walk(g) if x['k'] == 'g']
            d = self.h(inner[a % len(inner)])
            c = lambda: kp.move_group(gh, d)
        elif k == 'rootmove':
            c = lambda: kp.move_group(kp.root_group, gh)
        elif k == 'trashroot':
            c = lambda: kp.trash_group(kp.root_group)
        elif k == 'trashbin' and binn:
            p = binn
            if b % 2 and self.parent(binn) is not self.db['root']:
                p = self.parent(binn)
            ph = self.h(p)
            c = lambda: kp.trash_group(ph)
        elif k == 'trashnone':
            c = lambda: (kp.trash_entry if a % 2 else kp.trash_group)(bad)
        elif k == 'binid':
            nb = len(self.db['bins'])
            i = [nb, nb + 1, -1, -nb - 1, 10 ** 6, -nb if nb else -1][b % 6]
            c = lambda: kp.delete_binary(i)
        elif k == 'bintype':
            c = lambda: kp.add_binary([5, 'x', None, ['x']][b % 4], compressed=bool(a % 2))
        elif k == 'hist' and h:
            c = lambda: h.delete_history([None, h, 5, 'x'][b % 4])
        elif k == 'hist2' and h:
            o = [x for x in self.entries() if x is not e and x.get('h')]
            if o:
                oh = self.h(o[b % len(o)]).history[0]
                c = lambda: h.delete_history(oh)
        elif k == 'histset' and h:
            c = lambda: setattr(h, 'history', [])
        elif k == 'reindex' and h:
            if len([x for x in self.parent(e)['ch'] if x['k'] == 'e']) > 1:
                c = lambda: h.reindex(['x', None, [1]][b % 3])
        elif k == 'append' and h:
            c = lambda: gh.append([[h, bad], [bad], bad, [h, h, bad]][a % 4])
        elif k == 'destnone':
            c = lambda: kp.add_entry([None, 5, 'x', h][b % 4], 't%d' % a, 'u', 'p', force_creation=bool(a % 2))
        elif k == 'addexp':
            c = lambda: kp.add_entry(gh, 'new title', 'new user', 'p', expiry_time=[5, 'x', 1.5][b % 3])
        elif k == 'find':
            c = lambda: [kp.find_entries, kp.find_groups, kp.find_attachments][a % 3](nonsense='x')
        elif k == 'find2':
            c = lambda: [kp.find_entries, kp.find_groups][a % 2](uuid='not a uuid')
        elif k == 'deldetached':
            pass
        elif k == 'addgroupdest':
            c = lambda: kp.add_group([None, 5, 'x', h][b % 4], 'name')
        elif k == 'mvnone':
            c = lambda: (kp.move_entry if a % 2 else kp.move_group)(*[(bad, gh), (nh if n is not self.db['root'] else bad, bad)][b % 2])
        if c is None:
            return False
        self.refused(c, k)
        return True


def run(case, stt):
    w = World(case)
    for op in case['ops']:
        w.step(op)
    w.api()
    w.reopen()
    w.api()
    for o in w.done:
        stt.cls(o[0] if o[0] not in ('ill', 'typ', 'misc') else o[0] + '_' + o[1])
    stt.nt(w.rejected >= 2)
