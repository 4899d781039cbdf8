from hypothesis import strategies as st
from .. import gen, ops, sut, model as M
from ..core import check
ID = 'C17'
QUICK, THOROUGH = 2600, 60000
BIG = 48
RULE = ('case = tree with no, an existing (anywhere) or a dangling recycle bin, then up to 14 steps: trash any entry or group (also the root, the bin, ancestors of the bin, elements already in it), restore '
        'by moving, delete or empty the bin, add, rename, reopen; whole database and recyclebin_group compared after every step; non-trivial: at least two elements were trashed')
W = {'trash': 10, 'restore': 4, 'del_bin': 2, 'empty_bin': 2, 'add_entry': 2, 'add_group': 3, 'mv_g': 2, 'mv_e': 1, 'hist_add': 1, 'att_add': 1, 'setg': 1, 'reopen': 2, 'del_g': 1, 'mv_bin': 1,
     'ren_bin': 1}
EXTRA = {'restore': st.tuples(st.just('restore'), gen.sel(), gen.sel()).map(list), 'del_bin': st.just(['del_bin']),
         'mv_bin': st.tuples(st.just('mv_bin'), gen.sel()).map(list), 'ren_bin': st.tuples(st.just('ren_bin'), gen.text).map(list)}
t = st.one_of(gen.small, gen.text, st.just('Recycle Bin'))


def strategy(tier):
    return st.fixed_dictionaries({'cfg': gen.cheap_cfg(), 'db': gen.database(t=t, maxnodes=8, minnodes=2, omit=True), 'style': gen.style, 'src': st.integers(0, 2), 'dangle': st.booleans(),
                                  'ops': ops.oplist(W, t, min_size=3, max_size=14 if tier == 'quick' else 35, extra=EXTRA)})


class World(ops.World):
    n = 0

    def op_trash(self, ns):
        r0 = self.rejected
        r = super().op_trash(ns)
        if r is not False and self.rejected == r0:
            self.n += 1
        return r

    def op_restore(self, s, gs):
        b = self.bin()
        if b is None:
            return False
        inner = M.walk(b)[1:]
        gs_ = [g for g in self.groups() if not self.inside(g, b)]
        if not inner or not gs_:
            return False
        n, d = inner[s % len(inner)], gs_[gs % len(gs_)]
        (self.kp.move_group if n['k'] == 'g' else self.kp.move_entry)(self.h(n), self.h(d, self.i + 1))
        self._detach(n)
        d['ch'].append(n)

    def op_del_bin(self):
        b = self.bin()
        if b is None or b is self.db['root']:
            return False
        self.kp.delete_group(self.kp.recyclebin_group)
        self._forget(b)
        self._detach(b)

    def op_mv_bin(self, gs):
        b, d = self.bin(), self.g(gs)
        if b is None or self.inside(d, b):
            return False
        self.kp.move_group(self.kp.recyclebin_group, self.h(d))
        self._detach(b)
        d['ch'].append(b)

    def op_ren_bin(self, name):
        b = self.bin()
        if b is None:
            return False
        self.kp.recyclebin_group.name = name
        b['name'] = name

    def rb(self):
        b, r = self.bin(), self.kp.recyclebin_group
        if b is None:
            check(r is None, 'recyclebin_group is %r although no group has the recorded uuid', r)
        else:
            check(r is not None and r.uuid.hex == b['uuid'], 'recyclebin_group is %r', r)
            check([x.uuid.hex for x in r.entries + r.subgroups] == [c['uuid'] for k in 'eg' for c in b['ch'] if c['k'] == k], 'content of the recycle bin')


def run(case, stt):
    if case['dangle'] and case['db']['bin'] is None:
        case = dict(case, binuuid=gen._uu(424242))
        stt.cls('dangling')
    w = World(case)
    w.rb()
    for op in case['ops']:
        if w.step(op) is not False:
            w.rb()
            w.api()
    w.reopen()
    w.rb()
    w.api()
    for o in w.done:
        stt.cls('op_' + o[0])
    stt.nt(w.n >= 2)
