import re, uuid as uuidlib
from hypothesis import strategies as st
from .. import gen, ops, sut, model as M
from ..core import check, Violation
ID = 'C21'
QUICK, THOROUGH = 2600, 60000
BIG = 16
RULE = ('case = 2-6 entries in a generated tree whose fields are templates of text and references (made with Entry.ref or written by search field: title, username, password, url, notes, uuid; to existing '
        'or missing entries), some changed later; every field of every entry and extra texts dereferenced and compared with an own resolver (cyclic ones skipped); non-trivial: a text with at least '
        'one resolvable reference')
F = {'title': 'T', 'username': 'U', 'password': 'P', 'url': 'A', 'notes': 'N', 'uuid': 'I'}
CODE = {v: k for k, v in F.items()}
REF = re.compile(r'\{REF:([TUPANI])@([TUPANI]):([^}]+)\}')
fill = st.one_of(gen.small, gen.text, st.sampled_from(['{', '}', '{TITLE}', '{}', '{{', '}}', '\\1', '\\g<0>', '$1', '@I:', '{ref:x}'])).filter(lambda t: 'REF:' not in t)
part = st.one_of(st.tuples(st.just('t'), fill), st.tuples(st.just('r'), gen.sel(20), st.sampled_from(sorted(F)), st.sampled_from(['I', 'I', 'I', 'T', 'U', 'P', 'A', 'N']), st.booleans()),
                 st.tuples(st.just('bad'), st.integers(0, 6), st.sampled_from('TUPANI'))).map(list)
good = part.filter(lambda p: p[0] != 'bad')
tmpl = st.one_of(st.lists(good, min_size=1, max_size=4), st.lists(good, min_size=1, max_size=4), st.tuples(part).map(list), st.lists(part, max_size=4))
fields = st.sampled_from(['title', 'username', 'password', 'url', 'notes'])


def strategy(tier):
    return st.fixed_dictionaries({'n': st.lists(st.tuples(gen.sel(20), fill, fill), min_size=2, max_size=5), 'edits': st.lists(st.tuples(gen.sel(20), fields, tmpl), max_size=8),
                                  'later': st.lists(st.tuples(gen.sel(20), fields, tmpl), max_size=4), 'extra': st.lists(tmpl, max_size=4), 'chain': st.tuples(st.sampled_from([0, 0, 0, 0, 0, 0, 5, 9, 12, 17, 33]), fields, fields, fill, st.booleans()).map(list), 'cfg': gen.cheap_cfg(),
                                  'db': gen.database(t=fill, nb=0, maxnodes=4), 'ops': ops.oplist({'mv_e': 2, 'mv_g': 1, 'reindex': 2, 'hist_add': 2, 'reopen': 1, 'trash': 1, 'del_e': 1}, max_size=4)})


class Cycle(Exception):
    pass


class Unmatched(Exception):
    pass


def val(e, f):
    return e['uuid'].upper() if f == 'uuid' else e['s'].get(M.BUILTIN[f], [''])[0]


def resolve(es, text, depth=0):
    if depth > 90:
        raise Cycle
    out, pos = [], 0
    for m in REF.finditer(text):
        out.append(text[pos:m.start()])
        want, by, key = m.groups()
        if by == 'I':
            hit = [e for e in es if e['uuid'].upper() == key.upper()]
        else:
            hit = [e for e in es if val(e, CODE[by]) == key]
        if not hit:
            # a cycle elsewhere must not matter
            raise Unmatched
        out.append(resolve(es, val(hit[0], CODE[want]), depth + 1))
        pos = m.end()
    out.append(text[pos:])
    return ''.join(out)


def has_cycle(es, text, seen=()):
    for m in REF.finditer(text):
        if m.group(0) in seen or len(seen) > 90:
            return True
        want, by, key = m.groups()
        hit = [e for e in es if (e['uuid'].upper() == key.upper() if by == 'I' else val(e, CODE[by]) == key)]
        if hit and has_cycle(es, val(hit[0], CODE[want]), seen + (m.group(0),)):
            return True
    return False


def text_of(w, t):
    """the text of a template"""
    out = []
    for p in t:
        if p[0] == 't':
            out.append(p[1])
        elif p[0] == 'bad':
            out.append('{REF:%s@%s}' % (p[2], ['I:%032X' % 7, 'I:nonsense', 'T:no such title', 'U:no such user "x"', 'I:0', "N:it's not there", 'P:\u00e9'][p[1]]))
        else:
            e = w.e(p[1])
            if p[3] == 'I' and p[4]:
                out.append(w.h(e).ref(p[2]))
            else:
                key = e['uuid'].upper() if p[3] == 'I' else val(e, CODE[p[3]])
                if key == '' or '}' in key or 'REF:' in key:
                    key = e['uuid'].upper()
                    out.append('{REF:%s@I:%s}' % (F[p[2]], key))
                else:
                    out.append('{REF:%s@%s:%s}' % (F[p[2]], p[3], key))
    return ''.join(out)


def look(w, stt, extra):
    es = w.entries()

    def one(text, got, what):
        try:
            want = resolve(es, text)
        except Unmatched:
            want = None
        except Cycle:
            return
        got = got()
        check(got == want, '%s: %r dereferences to %r, expected %r', what, text, got, want)
        if REF.search(text):
            stt.cls('unmatched' if want is None else 'resolved')
            if want is not None:
                stt.nt(True)
                if len(set(REF.findall(text))) > 1:
                    stt.cls('several')
                if any(REF.search(val(e, f)) for e in es for f in F):
                    stt.cls('chained')
        else:
            check(got == text, '%s: text without references %r dereferences to %r', what, text, got)
    chain = getattr(w, 'chain', [])
    some = [e for e in es if e not in chain[:-2]]
    for e in some:
        h = w.h(e)
        for f in F:
            if f == 'uuid':
                continue
            t = val(e, f)
            if has_cycle(es, t):
                stt.cls('cycle')
                continue
            one(t, lambda: sut.nz(h.deref(f)) if t == '' else h.deref(f), 'Entry.deref(%r)' % f)
            one(t, lambda: w.kp.deref(t), 'PyKeePass.deref')
    for x in extra:
        t = text_of(w, x)
        if has_cycle(es, t):
            stt.cls('cycle')
            continue
        one(t, lambda: w.kp.deref(t), 'PyKeePass.deref')
    # a reference to each field
    for e in some:
        for f in F:
            r = w.h(e).ref(f)
            if not has_cycle(es, r):
                one(r, lambda: w.kp.deref(r), 'ref(%r)' % f)


def run(case, stt):
    w = ops.World(case)
    w.verify_each = False
    for gs, title, user in case['n']:
        w.step(['add_entry', gs, {'title': title, 'username': user, 'password': 'p', 'force': True}])
    n, f1, f2, txt, two = case.get('chain') or (0, '', '', '', False)
    if n:
        # a chain of n references, ending in plain text
        last, w.chain = None, []
        for i in range(n):
            v = {'title': 'c%d' % i, 'username': 'cu%d' % i, 'password': 'cp%d' % i, 'force': True}
            w.step(['add_entry', 0, v])
            e = w.db['root']['ch'][-1]
            j = w.entries().index(e)
            f = f1 if i % 2 else f2
            w.step(['set', j, f, (txt or 'end') if last is None else (txt[:1] if two else '') + w.h(last[0]).ref(last[1])])
            last = (e, f)
            w.chain.append(e)
        stt.cls('chain_%d' % n)
    for phase in ('edits', 'later'):
        for es, f, t in case[phase]:
            w.step(['set', es, f, text_of(w, t)])
        look(w, stt, case['extra'])
        if phase == 'edits':
            for op in case['ops']:
                w.step(op)
            if not w.entries():
                return
    w.verify()
