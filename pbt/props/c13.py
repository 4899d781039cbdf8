import re
from hypothesis import strategies as st
from .. import gen, ops, sut, model as M
from ..core import check, Violation
ID = 'C13'
QUICK, THOROUGH = 2600, 60000
BIG = 48
RULE = ('case = tree with generated non-empty names (few distinct ones, plus quotes, slashes, brackets, any Unicode), up to 10 adds, renames, moves, deletions and reopenings; then path, parent and '
        'root flag of every element, lookup of every path and of perturbed paths, against the model; non-trivial: an element at depth 2 or more')
W = {'add_group': 4, 'add_entry': 3, 'setg': 4, 'set': 3, 'mv_e': 3, 'mv_g': 4, 'del_e': 1, 'del_g': 1, 'trash': 2, 'hist_add': 2, 'reindex': 1, 'reopen': 1, 'empty': 1, 'append': 1}
names = st.one_of(st.sampled_from(['a', 'b', 'a/b', 'say "hi"', "it's", '"\'', '/', 'foo', '..', '.', '*', 'Entry']), gen.nonempty)
body = gen.group_body(names)
pert = st.tuples(gen.sel(), st.integers(0, 7), gen.sel(), names).map(list)


def strategy(tier):
    def fin(c, groups):
        c['db']['nodes'] = [['g', p, b] for p, b in groups[:3]] + c['db']['nodes'] + [['g', p, b] for p, b in groups[3:]]
        return c
    return st.builds(fin, st.fixed_dictionaries({'db': gen.database(t=names, nb=0, maxnodes=6), 'cfg': gen.cheap_cfg(), 'style': gen.style, 'pert': st.lists(pert, max_size=6),
                     'ops': ops.oplist(W, names, max_size=10 if tier == 'quick' else 25)}), st.lists(st.tuples(gen.sel(), body), max_size=5))


def lookup(kp, paths, k, path, stt, via=0):
    """find the path; paths: {path: first element} of the model"""
    want = paths.get(tuple(path))
    fn = kp.find_entries if k == 'e' else kp.find_groups
    if via == 1:
        fn = kp.find_entries_by_path if k == 'e' else kp.find_groups_by_path
        got = fn(list(path))
    elif via == 2:
        got = fn(path=['^%s$' % re.escape(x) for x in path], regex=True)
        if any('\n' in x or x == '' for x in path) and (got is None or got.uuid.hex != (want or {}).get('uuid')):
            return          # $ before a final newline
        check_nl = [p for p in paths if len(p) == len(path) and all(a.rstrip('\n') == b for a, b in zip(p, path))]
        if len(check_nl) > 1 or (want is None and check_nl):
            return
    elif via == 3:
        got = fn(path=list(path), first=True)
    else:
        got = fn(path=list(path))
    if want is None:
        check(got is None, 'lookup of path %r, which no element has, returned %r', path, got)
        stt.cls('lookup_none')
    else:
        check(got is not None, 'lookup of path %r found nothing', path)
        check(got.uuid.hex == want['uuid'], 'lookup of path %r returned another element: %r', path, got)
        stt.cls('lookup_hit')


def checkall(w, stt, perts):
    db, kp = w.db, w.kp
    pm = M.parent_map(db)
    path = {id(db['root']): []}
    first = {'e': {}, 'g': {(): db['root']}}
    deep = 0
    def own(n):
        return n['name'] if n['k'] == 'g' else n['s'].get('Title', [''])[0]
    nodes = M.walk(db['root'])
    for n in nodes:
        if n is not db['root']:
            path[id(n)] = path[id(pm[id(n)])] + [own(n)]
            deep = max(deep, len(path[id(n)]))
    todo = []
    # lookup by path means: first element in document order
    for n in nodes:
        if own(n):
            first[n['k']].setdefault(tuple(path[id(n)]), n)
    for n in nodes:
        h = w.h(n)
        p = path[id(n)]
        what = 'group' if n['k'] == 'g' else 'entry'
        check([sut.nz(x) for x in h.path] == p, 'path of %s is %r, expected %r', what, h.path, p)
        par = h.parentgroup
        if n is db['root']:
            check(par is None, 'parent of the root group is %r', par)
            check(h.is_root_group is True, 'root group is not the root group')
        else:
            check(par is not None and par.uuid.hex == pm[id(n)]['uuid'], 'parent of %s %r is %r', what, p, par)
            check(h.group.uuid.hex == pm[id(n)]['uuid'], 'group of %s %r is %r', what, p, h.group)
            sib = par.subgroups if n['k'] == 'g' else par.entries
            check(n['uuid'] in [x.uuid.hex for x in sib], 'parent of %s %r does not list it', what, p)
            if n['k'] == 'g':
                check(h.is_root_group is False, 'group %r claims to be the root group', p)
        check(str(h) and repr(h), 'no text form')
        if own(n):
            lookup(kp, first[n['k']], n['k'], p, stt)
        if n['k'] == 'e':
            for hm, hh in zip(n['h'], h.history):
                check(hh.group is not None and hh.group.uuid.hex == pm[id(n)]['uuid'], 'group of a history entry is %r', hh.group)
                want = p[:-1] + [hm['s'].get('Title', [''])[0]]
                check([sut.nz(x) for x in hh.path] == want, 'path of a history entry is %r, expected %r', hh.path, want)
                check(str(hh) and repr(hh), 'no text form')
    for sel, kind, at, nm in perts:
        n = nodes[sel % len(nodes)]
        p = list(path[id(n)])
        k = n['k']
        i = at % len(p) if p else 0
        if kind == 0:
            p.insert(i, nm)
        elif kind == 1 and p:
            del p[i]
        elif kind == 2 and p:
            p[i] = nm
        elif kind == 3 and p:
            p[i] = p[i] + nm
        elif kind == 4 and p:
            p[i:i + 1] = p[i].split('/')
        elif kind == 5:
            k = 'g' if k == 'e' else 'e'
        elif kind == 6 and p:
            p[i] = p[i].swapcase()
        elif kind == 7:
            p = p[::-1]
        if any(x == '' for x in p) or not p:
            continue
        lookup(kp, first[k], k, p, stt, at % 4)
    return deep


def run(case, stt):
    w = ops.World(case)
    checkall(w, stt, [])
    for op in case['ops']:
        w.step(op)
    deep = checkall(w, stt, case['pert'])
    w.reopen()
    checkall(w, stt, case['pert'])
    r = w.kp.root_group
    check(r.path == [] and r.is_root_group, 'root group')
    stt.cls('depth_%d' % min(deep, 4))
    stt.nt(deep >= 2)
