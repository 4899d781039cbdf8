from hypothesis import strategies as st
from .. import gen, ops, sut, model as M
from ..core import check
ID = 'C15'
QUICK, THOROUGH = 2600, 60000
BIG = 16
RULE = ('case = database with binaries and attachments in live and history entries (KDBX3 and KDBX4, compressed / protected or not, IDs in any order), then up to 14 operations on binaries, attachments, '
        'history, entries, saving and reopening; pool, references and data of every live and history attachment checked after each; non-trivial: a binary was deleted or the file '
        'reopened while attachments existed')
W = {'bin_add': 4, 'bin_del': 5, 'att_add': 6, 'att_del': 2, 'att_name': 2, 'att_ref': 2, 'hist_add': 4, 'hist_del': 1, 'hist_all': 1, 'mv_e': 1, 'mv_g': 1, 'del_e': 1, 'del_g': 1, 'trash': 1,
     'add_entry': 1, 'add_group': 1, 'set': 1, 'reopen': 3, 'empty_bin': 1, 'reindex': 1, 'att_again': 2}
t = st.one_of(gen.small, gen.text)


def strategy(tier):
    return st.fixed_dictionaries({'cfg': gen.cheap_cfg(), 'db': gen.database(t=t, nb=4, maxnodes=6, minnodes=2, minbins=1, omit=True), 'style': gen.style, 'src': st.integers(0, 2),
                                  'many': st.sampled_from([0, 0, 0, 9, 11, 13]),
                                  'ops': ops.oplist(W, t, min_size=3, max_size=14 if tier == 'quick' else 35, extra={'att_again': st.tuples(st.just('att_again'), gen.sel(), gen.sel(), gen.sel()).map(list)})})


class World(ops.World):
    negative = True

    def atts(self):
        db, kp = self.db, self.kp
        check([bytes(b) for b in kp.binaries] == [b['data'] for b in db['bins']], 'binaries differ from the model')
        total = 0
        for e in self.entries():
            h = self.h(e)
            for m, x in [(e, h)] + list(zip(e['h'], h.history)):
                got = x.attachments
                check([[sut.nz(a.filename), a.id] for a in got] == [list(a) for a in m['att']], 'attachments of %s are %r, expected %r',
                      'an entry' if m is e else 'a history entry', got, m['att'])
                for a, (nm, r) in zip(got, m['att']):
                    total += 1
                    sut.check_data(a, r, db, 'attachment of %s' % ('an entry' if m is e else 'a history entry'))
                    check(a.entry.uuid.hex == e['uuid'], 'Attachment.entry is %r', a.entry)
                    check(a.entry.is_a_history_entry == (m is not e) and sut.nz(a.entry.title) == m['s'].get('Title', [''])[0], 'Attachment.entry of an attachment of %s is %r',
                          'an entry' if m is e else 'a history entry', a.entry)
        self.held()
        live = [(e['uuid'], n, r) for e in self.entries() for n, r in e['att']]
        for r in range(len(db['bins']) + 1):
            got = sorted((a.entry.uuid.hex, sut.nz(a.filename), a.id) for a in kp.find_attachments(id=r))
            check(got == sorted(x for x in live if x[2] == r), 'find_attachments(id=%d) gives %r', r, got)
        check([(a.entry.uuid.hex, sut.nz(a.filename), a.id) for a in kp.attachments] == live, 'kp.attachments differs')
        return total

    def op_att_again(self, es, s, r):
        """an attachment replaced by another one of the same name"""
        e, j = self._att(es, s)
        if e is None or not self.db['bins']:
            return False
        name, old = e['att'][j]
        i = r % len(self.db['bins'])
        h = self.h(e)
        h.delete_attachment(h.attachments[j])
        h.add_attachment(i, name)
        del e['att'][j]
        e['att'].append([name, i])

    # the whole pool again and again: more than ten binaries make two-digit ids
    def fill(self, n):
        for i in range(n):
            data = b'%d' % i * i
            r = self.kp.add_binary(data, compressed=bool(i % 2), protected=bool(i % 3))
            check(r == len(self.db['bins']), 'add_binary returned %r', r)
            self.db['bins'].append({'data': data, 'prot': bool(i % 3)})
        for i, e in enumerate(self.entries()):
            for j in range(n):
                if (i + j) % 3 == 0:
                    k = len(self.db['bins']) - 1 - j
                    self.h(e).add_attachment(k, 'f%d' % j)
                    e['att'].append(['f%d' % j, k])


def run(case, stt):
    w = World(case)
    n = w.atts()
    nt = False
    if case['many']:
        w.fill(case['many'])
        n = w.atts()
        stt.cls('many')
    for op in case['ops']:
        if op[0] in ('bin_del', 'reopen') and n:
            nt = True
        if w.step(op) is not False:
            n = w.atts()
    w.reopen()
    w.atts()
    for o in w.done:
        stt.cls('op_' + o[0])
    stt.cls('v%d' % w.v[0])
    stt.nt(nt)
