import os, random, uuid as uuidlib
from hypothesis import strategies as st
from .. import gen, ops, sut, model as M
from ..core import check, Violation
ID = 'C26'
QUICK, THOROUGH = 1500, 40000
BIG = 16
RULE = ('case = database, up to 10 operations (adds, edits, moves, snapshots, deletions, trash, reopening); after each, all pairs of objects for entries and groups got by different routes are compared '
        '(==, !=, hash, set membership), with other things too; lookups by uuid of living and deleted elements; some cases add dozens of elements in a burst, some of them in a forked process, with the random module seeded anew each time; non-trivial: at least 3 elements and one '
        'operation')
W = {'new_entry': 1, 'hist_set': 1, 'add_group': 3, 'add_entry': 4, 'set': 2, 'setg': 2, 'mv_e': 2, 'mv_g': 2, 'del_e': 2, 'del_g': 1, 'trash': 2, 'hist_add': 3, 'time': 2, 'touch': 1, 'reindex': 1, 'reopen': 2, 'uuid': 2, 'prop_set': 1,
     'icon': 1, 'empty': 1, 'att_add': 1, 'bin_add': 1}


def strategy(tier):
    return st.fixed_dictionaries({'ops': ops.oplist(W, st.one_of(gen.small, gen.text), min_size=1, max_size=10 if tier == 'quick' else 25), 'cfg': gen.cheap_cfg(),
                                  'db': gen.database(t=gen.small, maxnodes=5, minnodes=1, pads=False), 'burst': st.sampled_from([0, 0, 0, 5, 40]), 'style': gen.style, 'rng': st.booleans(), 'near': st.one_of(st.none(), st.integers(0, 120)), 'copy': st.tuples(gen.sel(), gen.sel())})


class World(ops.World):
    def prepare(self, case):
        """uuids which differ in few places only"""
        if case['near'] is None:
            return
        names = {}

        def near(h):
            i = names.setdefault(h, len(names) + 1)
            return '%032x' % (0x0123456789abcdef0123456789abcdef ^ i << min(case['near'], 116))
        if self.db['meta']['bin'].strip('0'):
            self.db['meta']['bin'] = near(self.db['meta']['bin'])
        for n in M.walk(self.db['root']):
            n['uuid'] = near(n['uuid'])
            for h in n.get('h') or []:
                h['uuid'] = n['uuid']


def eq(a, b, want, what):
    check((a == b) is want, '%s: == gives %r', what, a == b)
    check((b == a) is want, '%s: == gives %r', what, b == a)
    check((a != b) is (not want), '%s: != gives %r', what, a != b)
    if want:
        check(hash(a) == hash(b), '%s: equal objects with different hashes', what)


def routes(w):
    """[(object, uuid)] by several routes"""
    kp = w.kp
    out = [(x, n['uuid']) for x, n in zip(kp.entries, w.entries())] + [(x, n['uuid']) for x, n in zip(kp.groups, w.groups())]
    for n in M.walk(w.db['root']):
        u = uuidlib.UUID(hex=n['uuid'])
        find = kp.find_groups if n['k'] == 'g' else kp.find_entries
        h = find(uuid=u, first=True)
        check(h is not None, 'lookup by uuid finds nothing for an existing %s', n['k'])
        check(h.uuid == u, 'lookup by uuid finds another element')
        l = find(uuid=u)
        check(len(l) == 1 and l[0].uuid == u, 'lookup by uuid returns %r', l)
        check((kp.find_entries if n['k'] == 'g' else kp.find_groups)(uuid=u, first=True) is None, 'lookup of the uuid of a %s finds the other kind', n['k'])
        out.append((h, n['uuid']))
        old = w.handles.get(n['uuid'])
        if old is not None:
            out.append((old, n['uuid']))
        if n['k'] == 'g':
            out += [(x, c['uuid']) for x, c in zip(h.entries, [c for c in n['ch'] if c['k'] == 'e'])]
            out += [(x, c['uuid']) for x, c in zip(h.subgroups, [c for c in n['ch'] if c['k'] == 'g'])]
            if n is not w.db['root']:
                out.append((h.parentgroup, w.parent(n)['uuid']))
        else:
            out.append((h.group, w.parent(n)['uuid']))
            for a in h.attachments:
                out.append((a.entry, n['uuid']))
    return out


def look(w, dead, full):
    rs = routes(w)
    if not full:
        rs = rs[::3]
    if len(rs) > 200:
        rs = rs[:20] + rs[20:-20:len(rs) // 60] + rs[-20:]
    for i, (a, u) in enumerate(rs):
        check(a.uuid.hex == u, 'uuid is %s, expected %s', a.uuid.hex, u)
        for b, v in rs[i:]:
            eq(a, b, u == v, 'elements %s and %s' % (u[-4:], v[-4:]))
        for other in (None, 5, 'x', u, a.uuid, object(), (), []):
            check((a == other) is False and (a != other) is True, 'element equals %r', other)
    check(len({a for a, _ in rs}) == len({u for _, u in rs}), 'set of elements has %d members, expected %d', len({a for a, _ in rs}), len({u for _, u in rs}))
    d = {a: u for a, u in rs}
    for a, u in rs:
        check(d[a] == u, 'dictionary keyed by elements mixes them up')
    for e in w.entries():
        hs = w.h(e).history
        for i, (x, mx) in enumerate(zip(hs, e['h'])):
            check(x.uuid.hex == mx['uuid'], 'history entry has another uuid than its snapshot')
            for y, my in list(zip(hs, e['h']))[:i]:
                if not M._same_time(mx['t']['m'], my['t']['m']):
                    check(x != y and not x == y, 'snapshots with different modification times are equal')
            check((x == 5) is False, 'history entry equals 5')
            eq(x, w.h(e).history[i], True, 'history entry and itself')
    for u in dead:
        uu = uuidlib.UUID(hex=u)
        for f in (w.kp.find_entries, w.kp.find_groups):
            check(f(uuid=uu, first=True) is None and f(uuid=uu) == [], 'deleted element is still found by its uuid')


def forked(kp, n):
    """uuids created by a forked process"""
    r, s = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            for i in range(n):
                os.write(s, (kp.add_entry(kp.root_group, 'f', 'u', 'p', force_creation=True) if i % 2 else kp.add_group(kp.root_group, 'f')).uuid.bytes)
        finally:
            os._exit(0)
    os.close(s)
    data = b''
    while True:
        b = os.read(r, 4096)
        if not b:
            break
        data += b
    os.close(r)
    os.waitpid(pid, 0)
    check(len(data) == 16 * n, 'a forked process could not create elements')
    return {data[i:i + 16].hex() for i in range(0, len(data), 16)}


def run(case, stt):
    # programs may seed the random module; uuids must not repeat because of it
    state = random.getstate()
    try:
        _run(case, stt, (lambda: random.seed(1)) if case.get('rng') else lambda: None)
    finally:
        random.setstate(state)


def _run(case, stt, seed):
    w = World(case)
    ever, dead = set(), set()

    def note():
        nonlocal dead
        now = {n['uuid'] for n in M.walk(w.db['root'])}
        ever.update(now)
        dead = ever - now
    note()
    look(w, dead, True)
    for op in case['ops']:
        before = {n['uuid'] for n in M.walk(w.db['root'])}
        seed()
        if w.step(op) is False:
            continue
        if op[0] in ('add_group', 'add_entry', 'trash'):
            new = {n['uuid'] for n in M.walk(w.db['root'])} - before
            check(not new & dead and not new & ever, 'uuid of a deleted element was given to a new one')
        note()
        look(w, dead, len(case['ops']) < 8)
        stt.cls('op_' + op[0])
    if case['burst']:
        w.verify_each = False
        g = w.kp.root_group
        seed()
        other = forked(w.kp, 4)
        check(not other & ever and len(other) == 4, 'a forked process used a uuid twice')
        ever |= other
        for i in range(case['burst']):
            seed()
            x = w.kp.add_entry(g, 'b', 'u', 'p', force_creation=True) if i % 2 else w.kp.add_group(g, 'b')
            u = x.uuid.hex
            check(u not in ever, 'uuid used twice')
            ever.add(u)
        stt.cls('burst')
    else:
        # same uuid means equal, even of another entry (as after copying a database)
        ns = M.walk(w.db['root'])
        a, b = ns[case['copy'][0] % len(ns)], ns[case['copy'][1] % len(ns)]
        ha, hb = w.h(a, 0), w.h(b, 0)
        eq(ha, hb, a is b, 'two elements')
        if a is not b:
            hb.uuid = ha.uuid
            eq(ha, hb, True, 'two elements with the same uuid')
            hb.uuid = uuidlib.UUID(hex=b['uuid'])
            eq(ha, hb, False, 'two elements')
        # the same element in another copy of the database
        other = sut.open_bytes(sut.save_bytes(w.kp))
        for n in ns:
            f = other.find_groups if n['k'] == 'g' else other.find_entries
            eq(w.h(n, 0), f(uuid=uuidlib.UUID(hex=n['uuid']), first=True), True, 'an element and its saved self')
    stt.nt(len(ever) >= 3 and len(w.done) > 0)
