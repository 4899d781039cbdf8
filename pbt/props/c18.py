from hypothesis import strategies as st
from .. import gen, ops, sut, model as M
from ..core import check, Violation
ID = 'C18'
QUICK, THOROUGH = 2600, 60000
BIG = 48
RULE = ('case = database, then up to 20 steps on one or two entries: set (protected, unprotected, default), get, delete custom properties over a small pool of generated names (any characters, '
        'look-alikes of built-in names), built-in field edits, reserved names, missing names, snapshots, reopenings; listing, values and protection of every property compared with a dict after each; '
        'non-trivial: a property was overwritten or deleted')
R = M.RESERVED
s = gen.sel
key = gen.prop_key
t = st.one_of(gen.small, gen.text, st.sampled_from(['Title', 'k1']))
one = st.one_of(st.tuples(st.just('set'), s(), s(9), t, st.sampled_from([None, True, False])), st.tuples(st.just('set'), s(), s(9), t, st.sampled_from([None, True, False])),
                st.tuples(st.just('del'), s(), s(9)), st.tuples(st.just('get'), s(), s(9)), st.tuples(st.just('field'), s(), st.sampled_from(sorted(M.BUILTIN)), t),
                st.tuples(st.just('res'), s(), st.sampled_from(R), st.integers(0, 3)), st.tuples(st.just('hist'), s()), st.tuples(st.just('reopen'), st.integers(0, 2)),
                st.tuples(st.just('near'), s(), s(9), st.integers(0, 5)), st.tuples(st.just('tags'), s(), st.just('a;b')), st.tuples(st.just('att'), s(), s(9))).map(list)


def strategy(tier):
    return st.fixed_dictionaries({'keys': st.lists(key, min_size=1, max_size=6, unique=True), 'steps': st.lists(one, min_size=4, max_size=20 if tier == 'quick' else 50),
                                  'cfg': gen.cheap_cfg(), 'db': gen.database(t=t, maxnodes=3, minnodes=1), 'style': gen.style, 'src': st.integers(0, 2)})


def props(e):
    return {k: v for k, v in e['s'].items() if k not in R}


def look(w, keys):
    for e in w.entries():
        h = w.h(e)
        want = props(e)
        got = h.custom_properties
        check({k: sut.nz(v) for k, v in got.items()} == {k: v[0] for k, v in want.items()}, 'custom_properties is %r, expected %r', got, {k: v[0] for k, v in want.items()})
        # a listing is the caller's own: it stays as it was, and may be changed
        kept = w.__dict__.setdefault('kept', [])
        for a, b in kept:
            check(a == b, 'a listing obtained earlier changed from %r to %r', b, a)
        kept.append((got, dict(got)))
        del kept[:-12]
        h.custom_properties.clear()
        h.custom_properties['k1'] = 'not set'
        for k in keys:
            if k in want:
                check(sut.nz(h.get_custom_property(k)) == want[k][0], 'property %r reads %r, expected %r', k, h.get_custom_property(k), want[k][0])
                check(h.is_custom_property_protected(k) == bool(want[k][1]), 'property %r: protected is %r', k, h.is_custom_property_protected(k))
            else:
                check(h.get_custom_property(k) is None, 'missing property %r reads %r', k, h.get_custom_property(k))
                check(h.is_custom_property_protected(k) is False, 'missing property %r is protected', k)
        for a, f in M.BUILTIN.items():
            check(sut.nz(getattr(h, a)) == e['s'].get(f, [''])[0], '%s reads %r, expected %r', a, getattr(h, a), e['s'].get(f, [''])[0])


def run(case, stt):
    w = ops.World(case)
    keys = case['keys']
    nt = False
    look(w, keys)
    for st_ in case['steps']:
        w.i += 1
        k = st_[0]
        if k == 'reopen':
            w.reopen(st_[1])
            look(w, keys)
            stt.cls('reopen')
            continue
        e = w.e(st_[1])
        if e is None:
            break
        h = w.h(e)
        mine = sorted(props(e))
        pool = keys + mine
        if k == 'set':
            key = pool[st_[2] % len(pool)]
            nt |= key in e['s']
            stt.cls('overwrite' if key in e['s'] else 'set')
            w.op_prop_set(st_[1], key, st_[3], st_[4])
        elif k == 'del':
            key = pool[st_[2] % len(pool)]
            if key in e['s']:
                h.delete_custom_property(key)
                del e['s'][key]
                nt = True
                stt.cls('delete')
            else:
                w.refused(lambda: h.delete_custom_property(key), 'deleting the missing property %r' % key, AttributeError)
                stt.cls('delete_missing')
        elif k == 'get':
            pass
        elif k == 'near':
            # variations of an existing name are other names
            key = pool[st_[2] % len(pool)]
            key = [key + ' ', ' ' + key, key.swapcase(), key[:-1], key + key, '"%s"' % key][st_[3]]
            if key and key not in R and key not in e['s']:
                check(h.get_custom_property(key) is None, 'property %r, which was never set, reads %r', key, h.get_custom_property(key))
                w.refused(lambda: h.delete_custom_property(key), 'deleting the missing property %r' % key, AttributeError)
        elif k == 'field':
            w.op_set(*st_[1:])
        elif k == 'res':
            name = st_[2]
            fn = [lambda: h.set_custom_property(name, 'x'), lambda: h.get_custom_property(name), lambda: h.delete_custom_property(name),
                  lambda: h.is_custom_property_protected(name)][st_[3]]
            w.refused(fn, 'custom property %s' % name)
        elif k == 'hist':
            w.op_hist_add(st_[1])
        elif k == 'tags':
            w.op_tags(st_[1], st_[2])
        elif k == 'att':
            w.op_att_add(st_[1], 0, keys[st_[2] % len(keys)])
        stt.cls('step_' + k)
        w.verify('step %s' % M._short(st_))
        look(w, keys)
    w.reopen()
    look(w, keys)
    w.api()
    stt.nt(nt)
