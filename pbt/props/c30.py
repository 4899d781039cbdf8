import io, os
from hypothesis import strategies as st
from .. import gen, ops, sut, model as M
from ..core import check, Violation, scratch, REPO
from ..sched import Schedule
from . import c25
ID = 'C30'
QUICK, THOROUGH = 2500, 60000
RULE = ('case = 2-4 databases (from different files, from the same bytes, from the same path, or newly created; different formats, credentials and binaries) x up to 14 operations interleaved over them (edits, binaries, '
        'history, trash, searches, credential changes, saves, reopening, reloading, failed openings); after every operation every database is compared with its own model, and saved files with theirs; in half of the cases every database is then edited, saved and reopened by a thread of its own, the threads switching at generated points between lines of pykeepass; '
        'non-trivial: operations on at least two of the databases')
W = {'add_group': 2, 'add_entry': 4, 'set': 4, 'setg': 1, 'icon': 1, 'tags': 1, 'at': 1, 'time': 1, 'meta': 2, 'days': 1, 'prop_set': 2, 'prop_del': 1, 'bin_add': 4, 'bin_del': 2, 'att_add': 3, 'att_del': 1,
     'hist_add': 2, 'hist_del': 1, 'mv_e': 1, 'mv_g': 1, 'trash': 2, 'empty_bin': 1, 'del_e': 1, 'del_g': 1, 'reindex': 1, 'uuid': 1, 'touch': 1, 'reopen': 3, 'pw': 3, 'kf': 2, 'save': 3, 'search': 2, 'fail': 1, 'reads': 4}
PW = {k: n for k, n in W.items() if k != 'reopen'}
EX = {'save': st.just(['save']), 'search': st.just(['search']), 'fail': st.just(['fail'])}


def strategy(tier):
    src = st.one_of(st.fixed_dictionaries({'kind': st.just('own'), 'cfg': gen.cheap_cfg(), 'db': gen.database(maxnodes=4), 'src': st.integers(0, 2), 'pw': st.sampled_from(['pw', 'other', None, '']),
                                           'kf': st.sampled_from([None, None, '00', '61' * 64])}),
                    st.fixed_dictionaries({'kind': st.just('same'), 'src': st.integers(0, 1)}), st.fixed_dictionaries({'kind': st.just('new'), 'pw': st.integers(0, 4), 'kf': st.integers(0, 3)}))
    first = st.fixed_dictionaries({'kind': st.just('own'), 'cfg': gen.cheap_cfg(), 'db': gen.database(maxnodes=4), 'src': st.integers(0, 2), 'pw': st.sampled_from(['pw', 'other']), 'kf': st.sampled_from([None, '61' * 64])})
    length = st.one_of(st.integers(1, 15), st.integers(1, 400))
    par = st.one_of(st.none(), st.fixed_dictionaries({'len': st.lists(length, min_size=1, max_size=40), 'ops': st.lists(ops.oplist(PW, max_size=3, min_size=0, extra=EX), min_size=4, max_size=4), 'save': st.integers(0, 1)}))
    return st.fixed_dictionaries({'par': par, 'first': first, 'more': st.lists(src, min_size=1, max_size=3), 'ops': st.lists(st.tuples(st.integers(0, 3), ops.oplist(W, max_size=1, min_size=1, extra=EX)).map(list), min_size=4,
                                                                                                           max_size=14 if tier == 'quick' else 40)})


class World(ops.World):
    def op_save(self):
        self.check_file(sut.save_bytes(self.kp))

    def op_search(self):
        self.api()

    def op_fail(self):
        data = sut.save_bytes(self.kp)
        try:
            sut.open_bytes(data, (self.pw or '') + 'wrong', self.kfarg())
        except Exception:
            return
        raise Violation('opens with a wrong password')


class Same(World):
    """another object for the file of the first database"""
    def __init__(self, w, src):
        self.cfg, self.v, self.pw, self.kf, self.src = w.cfg, w.v, w.pw, w.kf, w.src if src else 0
        self.db = M.clone(w.db)
        self.dir = w.tmpdir() if src else None
        self.handles, self.i, self.done, self.rejected, self.verify_each, self.data = {}, 0, [], 0, False, w.data
        self.open(w.data if self.src == 0 else None)


class New(World):
    def __init__(self, pw, kf):
        from pykeepass import create_database
        c25.memo()
        self.v, self.pw, self.kf, self.src, self.dir = (4, 0), c25.PW[pw], [None, None, b'1', b'2'][kf], 0, None
        self.handles, self.i, self.done, self.rejected, self.verify_each = {}, 0, [], 0, False
        b = io.BytesIO()
        self.kp = create_database(b, password=self.pw, keyfile=self.kfarg())
        v = sut.read_ref(b.getvalue(), self.pw, self.kf)
        for k in ('res', 'flags'):
            v.pop(k, None)
        self.db = M.freeze(v)

    def op_pw(self, pw):
        return False if pw not in c25.PW else super().op_pw(pw)

    def op_fail(self):
        return False

    def op_kf(self, h):
        return False


def parallel(ws, par, stt):
    """every database in a thread of its own"""
    def body(x, ol):
        def f():
            for op in ol:
                x.step(op)
            data = sut.save_bytes(x.kp)
            if par['save']:
                p = os.path.join(x.own, 'x.kdbx')
                x.kp.save(p)
                with open(p, 'rb') as f:
                    data = f.read()
            x.check_file(data)
            M.expect_db(x.db, sut.view(sut.open_bytes(data, x.pw, x.kfarg())), 'reopened in a thread')
            x.verify('working in a thread')
        return f
    for x in ws:
        x.own = scratch()
    s = Schedule(par['len'], os.path.join(os.path.realpath(REPO), 'pykeepass'))
    for r, e in s.run([body(x, par['ops'][j % 4]) for j, x in enumerate(ws)]):
        if e is not None:
            raise e
    stt.cls('threads', 'threads with %s switches' % ('10 or more' if s.switches >= 10 else 'fewer than 10'))
    if s.free:
        stt.cls('threads, not controlled')
    for x in ws:
        x.verify('working in threads')


def run(case, stt):
    ws = [World(case['first'])]
    for c in case['more']:
        ws.append(World(c) if c['kind'] == 'own' else Same(ws[0], c['src']) if c['kind'] == 'same' else New(c['pw'], c['kf']))
        stt.cls(c['kind'])
    for w in ws:
        w.verify_each = False
        w.verify('opening the others')
    used = set()
    for i, ol in case['ops']:
        k = i % len(ws)
        w = ws[k]
        if w.step(ol[0]) is False:
            continue
        used.add(k)
        stt.cls(ol[0][0])
        for j, x in enumerate(ws):
            x.verify('%s on database %d (this is %d)' % (ol[0][0], k, j))
            p, f = x.kp.password, x.kp.keyfile
            check(p == x.pw, 'password of database %d became %r', j, p)
            check((f is None) == (x.kf is None), 'key file of database %d became %r', j, f)
    if case.get('par'):
        parallel(ws, case['par'], stt)
    for j, x in enumerate(ws):
        x.api()
        x.check_file(sut.save_bytes(x.kp))
    stt.nt(len(used) > 1)
