from datetime import datetime, timedelta, timezone
from zoneinfo import ZoneInfo
from hypothesis import strategies as st
from .. import gen, ops, sut, tz, model as M
from ..core import check, Violation
from ..model import US
ID = 'C19'
QUICK, THOROUGH = 4400, 60000
BIG = 16
RULE = ('case = local time zone x file of either format whose timestamps are base64 or ISO 8601 with Z or any offset (fractions included), then up to 12 steps setting any time of any entry or group or the '
        'credential change date to aware datetimes (years 1-9999, any offset, DST zones with fold, microseconds), touching, adding elements, reopening; all times of all elements compared as instants '
        'after every step; non-trivial: at least one time set with a non-UTC zone')
LAST = 315537897600 * US - 1
us = st.one_of(gen.when, st.integers(US * 86400 * 2, LAST - US * 86400 * 2), st.integers(62135596800 * US - 10 * US, 62135596800 * US + 10 * US),
               st.integers(63713433600 * US, 63713433600 * US + 10 ** 14), st.sampled_from([US * 86400 * 2 - 1, 999999, 500000, 1, LAST, LAST - 500000]))
off = st.one_of(st.integers(-1439, 1439).map(lambda m: m * 60), st.integers(-86399, 86399), st.sampled_from([0, 3600, -18000, 20700, 50400, -43200, 1800]), st.sampled_from(tz.ZONES))
# instants around changes of daylight saving time, in the zone that changes
EDGES = [[M.us_of(datetime(y, *a, tzinfo=timezone.utc)), z] for z, l in (('Europe/Berlin', [(10, 31, 1), (3, 28, 1)]), ('America/New_York', [(11, 7, 6), (3, 14, 7)]), ('Australia/Lord_Howe', [(4, 3, 15), (10, 2, 15, 30)]), ('Europe/Dublin', [(10, 31, 1)]), ('America/St_Johns', [(11, 7, 4, 30)]))
         for a in l for y in (2021,)]
edge = st.tuples(st.sampled_from(EDGES), st.one_of(st.integers(-5400, 5400), st.sampled_from([-3600, -1, 0, 1800, 3599])), st.sampled_from([0, 0, 1, 999999])).map(lambda t: [t[0][0] + t[1] * US + t[2], t[0][1]])
dtspec = st.one_of(st.tuples(us, off).map(list), st.tuples(us, off).map(list), edge)
s = gen.sel
step = st.one_of(st.tuples(st.just('time'), s(), st.sampled_from(list('cmax')), dtspec), st.tuples(st.just('time'), s(), st.sampled_from(list('cmax')), dtspec),
                 st.tuples(st.just('time'), s(), st.sampled_from(list('cmax')), dtspec), st.tuples(st.just('cdate'), dtspec),
                 st.tuples(st.just('touch'), s(), st.booleans()), st.tuples(st.just('reopen'), st.integers(0, 2)), st.tuples(st.just('new'), s(), st.booleans(), dtspec),
                 st.tuples(st.just('exp'), s(), st.booleans()), st.tuples(st.just('hist_add'), s())).map(list)


def strategy(tier):
    return st.fixed_dictionaries({'tz': st.sampled_from(tz.LOCAL), 'steps': st.lists(step, min_size=2, max_size=12 if tier == 'quick' else 40), 'cfg': gen.cheap_cfg(),
                                  'db': gen.database(t=gen.small, nb=0, maxnodes=4, minnodes=1, omit=True), 'times': st.lists(us, max_size=8), 'src': st.integers(0, 2),
                                  'style': st.one_of(gen.style, st.fixed_dictionaries({'tz': st.integers(1, 6), 'tzoff': st.integers(-1439, 1439)}))})


def make(spec):
    u, o = spec
    z = ZoneInfo(o) if isinstance(o, str) else timezone(timedelta(seconds=o))
    d = M.dt(u)
    try:
        r = d.astimezone(z)
    except OverflowError:
        return d
    if M.us_of(r.astimezone(timezone.utc)) != u:
        return d
    return r


class World(ops.World):
    def prepare(self, case):
        ts = case['times']
        if not ts:
            return
        i = 0
        for n in M.walk(self.db['root']):
            for x in [n] + (n['h'] if n['k'] == 'e' else []):
                for k in 'cmaxl':
                    x['t'][k] = ts[i % len(ts)]
                    i += 1
        self.db['meta']['changed'] = ts[i % len(ts)]

    def op_time(self, ns, which, spec):
        n = self.node(ns)
        d = make(spec)
        attr = {'c': 'ctime', 'm': 'mtime', 'a': 'atime', 'x': 'expiry_time'}[which]
        h = self.h(n)
        setattr(h, attr, d)
        n['t'][which] = M.us_of(d)
        got = sut.api_time(getattr(h, attr), attr)
        check(M._same_time(got, n['t'][which]), '%s set to %r reads %r', attr, d, getattr(h, attr))

    def op_cdate(self, spec):
        d = make(spec)
        self.kp.credchange_date = d
        self.db['meta']['changed'] = M.us_of(d)
        got = sut.api_time(self.kp.credchange_date, 'credchange_date')
        check(M._same_time(got, M.us_of(d)), 'credchange_date set to %r reads %r', d, self.kp.credchange_date)

    def op_new(self, gs, entry, spec):
        if not entry:
            return self.op_add_group(gs, 'n', None, None)
        d = self.g(gs)
        t0 = ops.now_us()
        when = make(spec)
        r = self.kp.add_entry(self.h(d), 't', 'u', 'p', expiry_time=when, force_creation=True)
        n = self._adopt(d, t0, ops.now_us(), r, 'e', 'add_entry')
        check(n['exp'] is True and M._same_time(n['t']['x'], M.us_of(when)), 'add_entry(expiry_time=%r): stored %r', when, n['t']['x'])
        d['ch'].append(n)


def run(case, stt):
    with tz.local(case['tz']):
        w = World(case)
        w.verify('opening')
        w.api()
        for op in case['steps']:
            w.step(op)
            stt.cls(op[0])
            if op[0] == 'time' and op[3][1] != 0:
                stt.nt(True)
        w.api()
        w.reopen()
        w.api()
        stt.cls('v%d' % w.v[0])
        stt.cls(case['tz'])
