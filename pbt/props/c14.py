from hypothesis import strategies as st
from .. import gen, ops, sut, model as M
from ..core import check
ID = 'C14'
QUICK, THOROUGH = 2600, 60000
BIG = 48
RULE = ('case = group tree whose entries, subgroups and attributes are interleaved by a generated writer style, then up to 14 reindex / add / delete / move / rename / field edits; index of every entry '
        'and full order checked after every step and after reopening; non-trivial: at least one reindex in a group of 2 or more entries')
W = {'reindex': 12, 'add_entry': 3, 'add_group': 2, 'del_e': 1, 'mv_e': 2, 'setg': 2, 'icon': 1, 'set': 1, 'hist_add': 1, 'reopen': 1, 'del_g': 1, 'append': 1, 'trash': 1, 'uuid': 1, 'time': 1}
t = st.one_of(gen.small, gen.text)


def strategy(tier):
    def fin(c, es):
        # most entries in the root group
        c['db']['nodes'] = [[k, p if k == 'g' else p % 2, b] for k, p, b in c['db']['nodes']]
        return c
    return st.builds(fin, st.fixed_dictionaries({'db': gen.database(t=t, nb=0, maxnodes=9, minnodes=3), 'cfg': gen.cheap_cfg(),
                     'style': st.one_of(gen.style, st.fixed_dictionaries({'perm': st.integers(0, 5000), 'late': st.just(True), 'ind': st.integers(0, 2)})),
                     'ops': ops.oplist(W, t, min_size=2, max_size=14 if tier == 'quick' else 40)}), st.just(0))


class World(ops.World):
    nt = False

    def indices(self):
        for g in self.groups():
            sib = [c for c in g['ch'] if c['k'] == 'e']
            hs = self.h(g).entries
            check([h.uuid.hex for h in hs] == [c['uuid'] for c in sib], 'entries of a group out of order')
            for i, h in enumerate(hs):
                check(h.index == i, 'index of the entry at position %d of %d is %r', i, len(hs), h.index)
            for i, c in enumerate(sib):
                check(self.h(c).index == i, 'index of the entry at position %d is %r', i, self.h(c).index)

    def op_reindex(self, es, s):
        e = self.e(es)
        if e is not None and sum(c['k'] == 'e' for c in self.parent(e)['ch']) > 1:
            self.nt = True
        return super().op_reindex(es, s)


def run(case, stt):
    w = World(case)
    w.indices()
    for op in case['ops']:
        w.step(op)
        w.indices()
    w.reopen()
    w.indices()
    for o in w.done:
        stt.cls('op_' + o[0])
    stt.nt(w.nt)
