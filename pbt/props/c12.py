import re, uuid as uuidlib
from hypothesis import strategies as st
from .. import gen, ops, sut, model as M
from ..core import check, Violation
ID = 'C12'
QUICK, THOROUGH = 2600, 60000
BIG = 48
RULE = ('a deterministic sweep of every criterion x mode x scope, then: case = generated database, up to 4 edits, then up to 7 searches (half of the time all repeated after up to 4 further edits) (entries, groups, attachments; 0-4 criteria with values taken from the database or generated, exact or regex with '
        'flags, group scope, recursion, history, first, deprecated find_*_by_* forms), each compared with a brute-force scan of the model; non-trivial: some search with a criterion '
        'matched at least one but not all elements')
EF = ['title', 'username', 'password', 'url', 'notes', 'otp', 'string', 'uuid', 'tags', 'autotype_enabled', 'autotype_sequence', 'autotype_window']
OLD = ['title', 'username', 'password', 'url', 'notes', 'uuid', 'string']
PAT = ['.*', '.', '^', '$', '', 'o+', '[a-f]', '^.{3}$', '(foo|bar)', r'\d', r'\s', r'\w+', '"', "'", '"\'', 'foo', 'FOO', '^foo$', '(?i)FOO', r'\bfoo\b', '[^a]', '{', '{}', 'a|', '(a)(b)?', r'\\', '^$', r'é', '{flags}', 'foo.*bar']
s = gen.sel
val = st.tuples(st.sampled_from([0, 0, 0, 1, 2, 3]), s(), gen.nonempty, st.sampled_from([0, 0, 1, 2, 3, 3, 4, 5]))


def query():
    crit = lambda names: st.lists(st.tuples(st.sampled_from(names), val), max_size=4)
    one = st.one_of(st.tuples(st.just('e'), crit(EF)), st.tuples(st.just('e'), crit(['title', 'username', 'password', 'string', 'tags'])),
                    st.tuples(st.just('g'), crit(['name', 'name', 'notes', 'uuid'])), st.tuples(st.just('a'), crit(['id', 'filename'])))
    return st.tuples(one, st.fixed_dictionaries({'base': s(), 'regex': st.booleans(), 'flags': st.sampled_from([None, None, 'i', 'i', '']),
                     'scope': st.one_of(st.none(), st.none(), s()), 'rec': st.sampled_from([True, True, True, False, None]),
                     'first': st.booleans(), 'hist': st.sampled_from([None, False, True]), 'old': st.integers(0, 3)})).map(lambda t: [t[0][0], t[0][1], t[1]])


W = {'add_entry': 2, 'add_group': 1, 'set': 3, 'setg': 2, 'tags': 2, 'prop_set': 2, 'hist_add': 2, 'mv_e': 1, 'mv_g': 1, 'att_add': 1, 'att_name': 1, 'at': 1, 'uuid': 1, 'reopen': 1, 'trash': 1}


def strategy(tier):
    t = st.one_of(gen.small, gen.text)
    return st.fixed_dictionaries({'q': st.lists(query(), min_size=2, max_size=7), 'db': gen.database(t=t, maxnodes=8, minnodes=3), 'ops': ops.oplist(W, t, max_size=4), 'ops2': st.one_of(st.just([]), ops.oplist(dict(W, uuid=4, del_e=1, del_g=1, bin_del=1), t, min_size=1, max_size=4)),
                                  'cfg': gen.cheap_cfg(), 'style': gen.style})


def _entry(i, hist=()):
    """all fields set, to values that differ in case and are parts of each other"""
    v = ['Alpha%d', 'aLPHA%d x', 'Alpha%d Beta', 'x "Alpha%d"', "it's aLpha%d"][i % 5] % (i % 3)
    n = lambda k: (v + k) if i % 2 else (k + v)
    st_ = {k: [n(k[:2]), k in ('Password', 'otp')] for k in ('Title', 'UserName', 'Password', 'URL', 'Notes', 'otp', 'k1')}
    # names that merely resemble those of built-in fields, with values that other entries have in these
    w = ['Alpha%d', 'aLPHA%d x', 'Alpha%d Beta', 'x "Alpha%d"', "it's aLpha%d"][(i + 1) % 5] % ((i + 1) % 3)
    for k in ('Title', 'UserName', 'Password', 'URL', 'Notes', 'otp', 'k1'):
        o = (w + k[:2]) if i % 2 == 0 else (k[:2] + w)
        for d in ('X' + k, k + '_1', k.swapcase()):
            st_[d] = [o, False]
    if i % 4 == 3:
        del st_['URL'], st_['otp']
        st_['K1'] = ['Other', False]
    return {'s': st_, 'tags': 'Tag%d;tAG%d' % (i % 3, i), 'icon': '', 'exp': False, 't': [gen._T2020 + i * M.US], 'at': {'enabled': ['True', 'False'][i % 2], 'seq': n('{USERNAME}'), 'win': n('Win')},
            'att': [['File%d.TXT' % i, i]], 'x': [], 'tx': [], 'ax': [], 'h': [_entry(j) for j in hist]}


def _fixed_db():
    g = lambda i: {'name': 'Group%d' % (i % 3), 'notes': 'nOtes%d' % (i % 2), 'icon': '', 'exp': False, 't': [gen._T2020], 'x': [], 'tx': []}
    return {'meta': {'name': '', 'desc': '', 'user': '', 'rec': '-1', 'force': '-1', 'changed': gen._T2020}, 'root': g(9),
            'nodes': [['e', 0, _entry(0, [1, 4])], ['g', 0, g(1)], ['e', 1, _entry(1)], ['e', 1, _entry(2, [0])], ['g', 1, g(2)], ['e', 2, _entry(3)], ['g', 0, g(4)], ['e', 3, _entry(4, [3, 2])], ['e', 3, _entry(5)]],
            'bins': [['00', False, False], ['01', True, False], ['02', False, True]], 'bin': None, 'mx': [], 'rx': []}


def fixed(tier):
    """every criterion x exact / regex / flags x value forms x scopes, deterministically"""
    qs = []
    for k, names in (('e', EF), ('g', ['name', 'notes', 'uuid']), ('a', ['id', 'filename'])):
        for f in names:
            for regex, flags, how in ((False, None, 0), (False, 'i', 4), (True, None, 0), (True, None, 4), (True, 'i', 4), (True, 'i', 1), (True, '', 2), (True, None, 5)):
                for scope, rec, hist, first, old, base in ((None, None, None, False, 0, 0), (None, True, True, False, 0, 3), (1, True, None, False, 1, 1), (1, False, None, False, 0, 2), (None, None, False, True, 1, 4),
                                                           (4, None, True, True, 0, 5)):
                    qs.append([k, [[f, [0, base, 'x', how]]], {'base': base, 'regex': regex, 'flags': flags, 'scope': scope, 'rec': rec, 'first': first, 'hist': hist, 'old': old}])
                # two criteria
                qs.append([k, [[f, [0, 1, 'x', how]], [names[(names.index(f) + 1) % len(names)], [0, 1, 'x', how]]],
                           {'base': 2, 'regex': regex, 'flags': flags, 'scope': None, 'rec': None, 'first': False, 'hist': None, 'old': 0}])
    for base in range(3):                       # all strings of an entry, or all but one
        for idx in [0] + list(range(1, 61, 4)):
            qs.append(['e', [['string', [0, idx, 'x', 1]]], {'base': base, 'regex': False, 'flags': None, 'scope': None, 'rec': None, 'first': False, 'hist': None, 'old': 0}])
    return [{'q': qs[i:i + 12], 'db': _fixed_db(), 'ops': [], 'cfg': dict(gen.CHEAP, v=[[4, 0], [3, 1]][i // 12 % 2]), 'style': {}} for i in range(0, len(qs), 12)]


def field(e, f, key=None):
    if f == 'string':
        return e['s'].get(key, [''])[0]
    if e['k'] == 'g':
        return e[f]
    if f in M.BUILTIN:
        return e['s'].get(M.BUILTIN[f], [''])[0]
    if f == 'tags':
        return e['tags']
    at = e.get('at') or {'enabled': '', 'seq': '', 'win': ''}
    return at[{'autotype_enabled': 'enabled', 'autotype_sequence': 'seq', 'autotype_window': 'win'}[f]] or ''


def windows(e):
    """an entry has any number of associations"""
    return [field(e, 'autotype_window')] + [x[3][0][2] for x in e['ax'] if x[0] == 'Association']


def any_of(vs):
    return True if True in vs else None if None in vs else False


def pattern(text, how, idx):
    if how == 0:
        p = '^' + re.escape(text) + '$'
    elif how == 1:
        p = re.escape(text[:1 + idx % 4])
    elif how == 2:
        p = text
    elif how == 3:
        p = PAT[idx % len(PAT)]
    elif how == 4:
        p = re.escape(text.swapcase())
    else:
        p = '(?:%s|nope)' % re.escape(text)
    try:
        re.compile(p)
    except re.error:
        p = re.escape(text)
    return p


def verdict(text, want, q, exact=False):
    """True / False, or None where the pattern is about an empty text"""
    if not q['regex'] or exact:
        return text == want and text != ''
    r = re.search(want, text, re.I if 'i' in (q['flags'] or '') else 0) is not None
    return None if text == '' else r


def both(a, b):
    return False if a is False or b is False else None if a is None or b is None else True


def search(w, q0, stt, plan=None):
    k, crit, q = q0
    live = w.entries()
    pool = {'e': live, 'g': w.groups(), 'a': [x for x in w.all_atts() if x['att']]}[k]
    kw, preds = plan or ({}, [])
    for f, (mode, idx, text, how) in crit if plan is None else []:
        if f in kw:
            continue
        at = q['base'] if mode == 0 else idx
        src = (w.focus(at, pool) or pool[at % len(pool)]) if pool else None
        if mode == 3:
            kw[f] = None
            continue
        if f == 'uuid':
            u = src['uuid'] if src is not None and mode != 2 else gen._uu(5000 + idx)
            kw[f] = uuidlib.UUID(hex=u)
            preds.append(lambda n, a, u=u: n['uuid'] == u)
            continue
        if f == 'tags':
            tags = [x for x in sut.split_tags(src['tags']) if x] if src is not None else []
            tags = [tags[(idx + i) % len(tags)] for i in range(1 + how % 2)] if tags and mode != 2 else [text]
            if how == 4:
                tags = [tags[0][:1 + idx % 3]]
            if how == 5:
                tags.append(text)
            if idx % 6 == 5:
                tags[0] = [tags[0] + ';', ';' + tags[0], tags[0] + ',', tags[0] + ' '][idx // 6 % 4]
            kw[f] = tags
            preds.append(lambda n, a, tags=tags: all(t in n['tags'] for t in tags))
            continue
        if f == 'id':
            i = idx % (len(w.db['bins']) + 1)
            if mode == 0 and src is not None:
                i = src['att'][idx % len(src['att'])][1]
            kw[f] = i
            preds.append(lambda n, a, i=i: a[1] == i)
            continue
        if f == 'filename':
            v = src['att'][idx % len(src['att'])][0] if src is not None and mode != 2 else text
            v = pattern(v, how, idx) if q['regex'] else (v or text)
            kw[f] = v
            preds.append(lambda n, a, v=v: verdict(a[0], v, q))
            continue
        if f == 'string':
            keys = sorted(src['s']) if src is not None else []
            keys = [x for x in keys if x] or ['k1']
            d = {}
            n = 2 if how == 5 else len(keys) if how == 1 else 1
            for i in range(n):
                key = keys[(idx + i) % len(keys)]
                v = field(src, f, key) if src is not None and mode != 2 else text
                if how == 1 and not q['regex'] and idx % 4 == 1 and i == idx * 7 % n:
                    v += 'x'                    # all of them must match
                d[key] = pattern(v, how, idx) if q['regex'] else (v or text)
            kw[f] = d
            preds.append(lambda n, a, d=d: all_of([verdict(field(n, 'string', x), y, q) for x, y in d.items()]))
            continue
        if f == 'autotype_enabled':
            v = how % 2 == 0
            kw[f] = v
            preds.append(lambda n, a, v=v: verdict(field(n, 'autotype_enabled'), str(v), q))
            continue
        v = field(src, f) if src is not None and mode != 2 else text
        if f == 'autotype_window' and src is not None and mode != 2:
            v = windows(src)[idx % len(windows(src))]
        v = pattern(v, how, idx) if q['regex'] else (v or text)
        kw[f] = v
        preds.append(lambda n, a, f=f, v=v: any_of([verdict(t, v, q) for t in (windows(n) if f == 'autotype_window' else [field(n, f)])]))
    hist, rec, first = q['hist'], q['rec'], q['first']
    scope = None
    # candidates in document order: (model entry/group, is history, attachment or None)
    if k == 'e':
        if q['scope'] is not None:
            scope = w.g(q['scope'])
        elif rec is False:
            rec = True
        root = scope or w.db['root']
        nodes = [n for n in (M.walk(root) if rec is not False else root['ch']) if n['k'] == 'e']
        cand = []
        for n in nodes:
            cand.append((n, False, None))
            if hist and rec is not False:
                cand += [(h, True, None) for h in n.get('h') or []]
        if hist and rec is False:
            hist = None
    elif k == 'g':
        hist = None
        if q['scope'] is not None:
            scope = w.g(q['scope'])
        elif rec is False:
            rec = True
        if scope is None:
            nodes = w.groups()
        else:
            nodes = [n for n in (M.walk(scope)[1:] if rec is not False else scope['ch']) if n['k'] == 'g']
        cand = [(n, False, None) for n in nodes]
    else:
        if q['scope'] is not None:
            scope = w.node(q['scope'])
            if scope['k'] == 'g':
                rec = None
        elif rec is False:
            rec = None
        nodes = [n for n in M.walk(scope or w.db['root']) if n['k'] == 'e']
        cand = []
        for n in nodes:
            cand += [(n, False, a) for a in n['att']]
            if hist and rec is not False:
                for h in n.get('h') or []:
                    cand += [(h, True, a) for a in h['att']]
        if hist and rec is False:
            hist = None
    marks = [all_of([p(n, a) for p in preds]) for n, h, a in cand]
    args = dict(kw)
    if q['regex']:
        args['regex'] = True
    if q['flags'] is not None:
        args['flags'] = q['flags']
    if hist is not None:
        args['history'] = hist
    if scope is not None:
        args['element' if k == 'a' else 'group'] = w.h(scope)
    if rec is not None:
        args['recursive'] = rec
    if first:
        args['first'] = True
    fn = {'e': w.kp.find_entries, 'g': w.kp.find_groups, 'a': w.kp.find_attachments}[k]
    what = '%s(%s)' % (fn.__name__, ', '.join('%s=%r' % x for x in args.items()))
    # the older spellings
    live_kw = [x for x in kw if kw[x] is not None]
    if q['old'] == 1 and k in 'eg' and len(kw) == 1 and live_kw and rec is not False and (kw.keys() & (set(OLD) if k == 'e' else {'name', 'notes', 'uuid'})):
        f = live_kw[0]
        fn = getattr(w.kp, 'find_%s_by_%s' % ('entries' if k == 'e' else 'groups', f))
        v = args.pop(f)
        args.pop('recursive', None)
        stt.cls('deprecated')
        got = fn(v, **args)
    else:
        got = fn(**args)
    if first:
        check(got is None or not isinstance(got, list), '%s returned %r', what, got)
        got = [] if got is None else [got]
        sure = [i for i, m in enumerate(marks) if m is True]
        if sure:
            end = sure[0] + 1
            while k == 'a' and hist and end < len(cand) and cand[end][0]['uuid'] == cand[sure[0]][0]['uuid']:
                end += 1
            cand, marks = cand[:end], marks[:end]
        if not got:
            check(not sure, '%s found nothing, expected %s', what, name(cand[sure[0]] if sure else None))
            return kw, preds
        ok = any(m is not False and same(got[0], c) for c, m in zip(cand, marks))
        check(ok, '%s returned %r, expected the first match %s', what, got[0], name(cand[sure[0]]) if sure else 'None')
        nm = 1
    else:
        check(isinstance(got, list), '%s returned %r', what, got)
        nm = len(got)
        if k == 'a' and hist:
            # attachments of an entry and of its history: any order
            rest = list(got)
            for c, m in zip(cand, marks):
                hit = next((g for g in rest if m is not False and same(g, c)), None)
                if hit is not None:
                    rest = [g for g in rest if g is not hit]
                else:
                    check(m is not True, '%s misses %s', what, name(c))
            check(not rest, '%s returned %r which does not match', what, rest[:1])
        else:
            j = 0
            for c, m in zip(cand, marks):
                if m is False:
                    continue
                if j < len(got) and same(got[j], c):
                    j += 1
                elif m is True:
                    raise Violation('%s misses %s (or returns it out of order); got %r' % (what, name(c), got[:5]))
            check(j == len(got), '%s returned %r which does not match or is out of order', what, got[j] if j < len(got) else None)
    if preds and 0 < nm and (first or nm < len(cand)):
        stt.nt(True)
        stt.cls('hit_' + k + ('_regex' if q['regex'] else ''))
    stt.cls('search_' + k)
    for f in kw:
        stt.cls('by_' + f)
    return kw, preds


def all_of(l):
    r = True
    for x in l:
        r = both(r, x)
    return r


def same(g, c):
    n, h, a = c
    if a is not None:
        return [sut.nz(g.filename), g.id] == list(a) and g.entry.uuid.hex == n['uuid'] and g.entry.is_a_history_entry == h
    if g.uuid.hex != n['uuid']:
        return False
    if n['k'] == 'g':
        return True
    if g.is_a_history_entry != h:
        return False
    if not h:
        return True
    try:
        sut.cmp_entry(n, sut.api_entry(g, 'x', False), 'x', True)
    except Violation:
        return False
    return True


def name(c):
    if c is None:
        return None
    n, h, a = c
    return '%s%s %s' % ('history ' if h else '', 'group %r' % n['name'] if n['k'] == 'g' else 'entry %r' % n['s'].get('Title', [''])[0], a or '')


def probe(w, seen):
    """plain lookups by every value there is or was"""
    es, gs = w.entries(), w.groups()
    for e in es:
        seen[('e', 'uuid', e['uuid'])] = 1
        for f in ('title', 'username', 'url'):
            if field(e, f):
                seen[('e', f, field(e, f))] = 1
    for g in gs:
        seen[('g', 'uuid', g['uuid'])] = 1
        if g['name']:
            seen[('g', 'name', g['name'])] = 1
    for k, f, v in list(seen)[:60]:
        fn = w.kp.find_entries if k == 'e' else w.kp.find_groups
        want = [n['uuid'] for n in (es if k == 'e' else gs) if (n['uuid'] if f == 'uuid' else field(n, f)) == v]
        arg = uuidlib.UUID(hex=v) if f == 'uuid' else v
        got = [x.uuid.hex for x in fn(**{f: arg})]
        check(got == want, '%s(%s=%r) returned the elements %r, expected %r', fn.__name__, f, arg, got, want)
        one = fn(first=True, **{f: arg})
        check((one and one.uuid.hex) == (want[0] if want else None), '%s(%s=%r, first=True) returned %r, expected %r', fn.__name__, f, arg, one, want[:1])


def run(case, stt):
    w = ops.World(case)
    w.verify_each = False
    for op in case['ops']:
        w.step(op)
    w.verify()
    plans, seen = [search(w, q, stt) for q in case['q']], {}
    if case.get('ops2'):
        # the same searches again in the edited database
        probe(w, seen)
        sut.check_api(w.kp, w.db)
        for op in case['ops2']:
            w.step(op)
        probe(w, seen)
        for q, p in zip(case['q'], plans):
            search(w, q, stt, p)
        stt.cls('searched_again')
    # searching changes nothing
    w.verify('searches')
    # and the plain listings
    sut.check_api(w.kp, w.db)
