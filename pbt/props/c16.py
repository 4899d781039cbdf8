from hypothesis import strategies as st
from .. import gen, ops, sut, model as M
from ..core import check
ID = 'C16'
QUICK, THOROUGH = 2600, 60000
BIG = 16
RULE = ('case = database with foreign content and history, then up to 14 edits, snapshots, deletions of history items, moves and reopenings; all snapshots compared with copies taken by the model '
        'after every step, and searches with and without history; non-trivial: a snapshot existed when its entry was edited, snapshot again or one was deleted')
W = {'hist_add': 8, 'hist_del': 4, 'hist_all': 1, 'set': 6, 'prop_set': 3, 'prop_del': 1, 'tags': 2, 'icon': 1, 'time': 2, 'exp': 1, 'touch': 1, 'at': 2, 'bin_add': 1, 'att_add': 2, 'att_del': 1,
     'att_name': 1, 'att_ref': 1, 'mv_e': 2, 'mv_g': 1, 'trash': 1, 'del_e': 1, 'add_entry': 1, 'reindex': 1, 'reopen': 2, 'uuid': 0, 'same': 5}
t = st.one_of(gen.small, gen.text)
EXTRA = {'same': st.tuples(st.just('same'), st.sampled_from(sorted(M.BUILTIN)), t, gen.sel()).map(list)}


def strategy(tier):
    return st.fixed_dictionaries({'cfg': gen.cheap_cfg(), 'db': gen.database(t=t, x=True, maxnodes=4, minnodes=1, omit=True), 'style': gen.style, 'src': st.integers(0, 2),
                                  'ops': ops.oplist(W, t, min_size=3, max_size=14 if tier == 'quick' else 35, extra=EXTRA)})


class World(ops.World):
    nt = False

    def op_same(self, field, value, s):
        """snapshot and edit one entry in a row"""
        c = [e for e in self.entries() if e['h']] or self.entries()
        if not c:
            return False
        e = c[s % len(c)]
        es = [x is e for x in self.entries()].index(True)
        self.op_hist_add(es)
        self.op_set(es, field, value)

    def op_hist_add(self, es):
        e = self.e(es)
        if e is not None and e['h']:
            self.nt = True
        return super().op_hist_add(es)

    def op_set(self, es, f, v):
        e = self.e(es)
        if e is not None and e['h']:
            self.nt = True
        return super().op_set(es, f, v)

    def op_hist_del(self, es, s):
        r = super().op_hist_del(es, s)
        if r is not False:
            self.nt = True
        return r

    def hist(self):
        want_live = [e['uuid'] for e in self.entries()]
        kp = self.kp
        check([e.uuid.hex for e in kp.entries] == want_live and not any(e.is_a_history_entry for e in kp.entries), 'kp.entries contains history or misses entries')
        for e in self.entries():
            h = self.h(e)
            sut.cmp_entry(e, sut.api_entry(h, 'entry'), 'entry')
            hs = h.history
            for a, m in zip(hs, e['h']):
                check(a.is_a_history_entry and a.history == [], 'history entry is not one, or has history')
                check(a.uuid.hex == e['uuid'], 'history entry has another uuid')
            ti = e['s'].get('Title', [''])[0]
            old = [m['s'].get('Title', [''])[0] for m in e['h']]
            for x in {ti, *old} - {''}:
                n = sum(y['s'].get('Title', [''])[0] == x for y in self.entries())
                nh = sum(m['s'].get('Title', [''])[0] == x for y in self.entries() for m in y['h'])
                check(len(kp.find_entries(title=x)) == n, 'find_entries(title=%r) returns %d of %d entries', x, len(kp.find_entries(title=x)), n)
                check(len(kp.find_entries(title=x, history=True)) == n + nh, 'find_entries(title=%r, history=True)', x)
        allh = kp.find_entries(history=True)
        check([x.uuid.hex for x in allh] == [u for e in self.entries() for u in [e['uuid']] * (1 + len(e['h']))], 'find_entries(history=True)')


def run(case, stt):
    w = World(case)
    w.hist()
    for op in case['ops']:
        if w.step(op) is not False:
            w.hist()
    w.reopen()
    w.hist()
    for o in w.done:
        stt.cls('op_' + o[0])
    stt.nt(w.nt)
