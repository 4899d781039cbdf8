from datetime import datetime, timedelta, timezone
from zoneinfo import ZoneInfo
from hypothesis import strategies as st
from .. import gen, ops, sut, tz, model as M
from ..core import check, Violation
from ..model import US
ID = 'C20'
QUICK, THOROUGH = 4400, 60000
RULE = ('case = local time zone x database whose elements expire at generated distances from now (seconds to centuries, both sides) with the flag set or not, then up to 10 steps: set flag, expiry time, '
        'add entries with naive or aware or no expiry, set policy days and change date near their boundaries, change password or key file, reopen; expired of every element and both policies evaluated '
        'independently after each step; non-trivial: both an expired and an unexpired verdict were asked for, or a policy verdict was true')
DAY = 86400
# distances from now in seconds, clear of the boundary
dist = st.one_of(st.integers(30, 7200), st.integers(30, 40 * 365 * DAY), st.integers(DAY - 7200, DAY + 7200), st.sampled_from([30, 3600, 7200, 5 * 3600, 12 * 3600, 14 * 3600, DAY, 365 * DAY]))
delta = st.tuples(dist, st.booleans()).map(lambda t: t[0] if t[1] else -t[0])
# fixed instants: what other programs write for "never", limits of time types
ABS = [M.us_of(datetime(*a, tzinfo=timezone.utc)) for a in ((2999, 12, 27, 23), (2999, 12, 31, 23, 59, 59), (3000, 1, 1), (9999, 12, 30), (2100, 1, 1), (2038, 1, 19, 3, 14, 8), (2106, 2, 7, 6, 28, 16), (1970, 1, 1),
                                                             (1969, 12, 31, 23, 59, 59), (1601, 1, 1), (1, 1, 3), (1899, 12, 30))]
FAR = 10 ** 12
FOLDS = {'America/New_York': [(2021, 11, 7, 1, 30), (2030, 11, 3, 1, 0)], 'Europe/Berlin': [(2021, 10, 31, 2, 30), (2030, 10, 27, 2, 59, 59)], 'Australia/Lord_Howe': [(2021, 4, 4, 1, 45), (2030, 4, 7, 1, 31)]}
delta = st.one_of(delta, delta, delta, delta, st.integers(0, len(ABS) - 1).map(lambda i: FAR + i), st.integers(30, 900 * 365 * DAY), st.integers(-1900 * 365 * DAY, -30))


def at(d):
    """the instant d seconds from now, or one of the fixed ones"""
    return ABS[d - FAR] if d >= FAR else ops.now_us() // US * US + d * US


days = st.one_of(st.sampled_from([-1, -1, 0, 1, 5, 182]), st.integers(0, 4000))
# (whole days, second of the day) since the change
since = st.tuples(st.integers(0, 4000), st.integers(120, DAY - 120)).map(list)
s = gen.sel
step = st.one_of(st.tuples(st.just('exp'), s(), st.booleans()), st.tuples(st.just('xt'), s(), delta, st.integers(-14 * 60, 14 * 60)),
                 st.tuples(st.just('new'), s(), st.sampled_from(['naive', 'naive', 'aware', 'none', 'fold']), delta, st.integers(-14 * 60, 14 * 60)),
                 st.tuples(st.just('days'), st.sampled_from(['required', 'recommended']), days),
                 st.tuples(st.just('since'), st.sampled_from(['required', 'recommended']), st.integers(-2, 2), st.integers(120, DAY - 120), st.integers(-14 * 60, 14 * 60)),
                 st.tuples(st.just('future'), delta), st.tuples(st.just('cred'), st.sampled_from(['pw', 'kf', 'pw', 'kf', 'pwnone', 'kfnone', 'pwsame', 'kfsame'])), st.tuples(st.just('reopen'), st.integers(0, 2)),
                 st.tuples(st.just('hist_add'), s())).map(list)


def strategy(tier):
    return st.fixed_dictionaries({'tz': st.sampled_from(tz.LOCAL), 'steps': st.lists(step, min_size=2, max_size=10 if tier == 'quick' else 30), 'cfg': gen.cheap_cfg(),
                                  'db': gen.database(t=gen.small, nb=0, maxnodes=4, minnodes=1, omit=True), 'd': st.lists(delta, min_size=1, max_size=5), 'since': since, 'same': st.integers(0, 63),
                                  'style': st.one_of(gen.style, st.fixed_dictionaries({'tz': st.integers(1, 6), 'tzoff': st.integers(-1439, 1439)}))})


class World(ops.World):
    def prepare(self, case):
        same = case.get('same', 0)
        now = ops.now_us() // US * US
        for i, n in enumerate(M.walk(self.db['root'])):
            if n['t']['x'] is None:
                continue                # left out by the program that wrote it
            n['t']['x'] = at(case['d'][i % len(case['d'])])
            # other times that coincide with it
            for j, k in enumerate('cma'):
                if same >> (j + i) % 6 & 1:
                    n['t'][k] = n['t']['x']
        if self.db['meta']['changed'] is not None:
            self.db['meta']['changed'] = now - (case['since'][0] * DAY + case['since'][1]) * US

    def op_xt(self, ns, d, off):
        n = self.node(ns)
        t = at(d)
        self.h(n).expiry_time = M.dt_off(t, off)
        n['t']['x'] = t

    def op_new(self, gs, kind, d, off):
        g = self.g(gs)
        t = at(d)
        arg = None
        if kind == 'aware':
            arg = M.dt_off(t, off)
        elif kind == 'naive':
            z = tz.FIXED.get(self.tz)
            naive = M.dt(t).replace(tzinfo=None)      # any wall clock time
            a = tz.local_instant(naive, self.tz)
            if a is None or not 1972 < naive.year < 2036:
                return False
            # stay clear of now
            if abs((a - datetime.now(timezone.utc)).total_seconds()) < 20:
                return False
            arg, t = naive, M.us_of(a)
        elif kind == 'fold':
            # in a repeated hour of the zone, first or second pass
            l = FOLDS.get(self.tz) or FOLDS['Europe/Berlin']
            arg = datetime(*l[d % len(l)], fold=off % 2)
            z = tz.FIXED.get(self.tz)
            zone = timezone(timedelta(minutes=z)) if z is not None else ZoneInfo(self.tz)
            t = M.us_of(arg.replace(tzinfo=zone).astimezone(timezone.utc))
        t0 = ops.now_us()
        kw = {} if arg is None else {'expiry_time': arg}
        r = self.kp.add_entry(self.h(g), 'n', 'u', 'p', force_creation=True, **kw)
        n = self._adopt(g, t0, ops.now_us(), r, 'e', 'add_entry')
        check(n['exp'] == (arg is not None), 'add_entry(expiry_time=%r): expires is %r', arg, n['exp'])
        if arg is not None:
            check(M._same_time(n['t']['x'], t), 'add_entry(expiry_time=%r) in zone %s: expires at %s', arg, self.tz, M.dt(n['t']['x']))
            check(M._same_time(sut.api_time(r.expiry_time, 'expiry_time'), t), 'expiry_time reads %r', r.expiry_time)
        g['ch'].append(n)

    def op_days(self, what, n):
        setattr(self.kp, 'credchange_%s_days' % what, n)
        self.db['meta'][{'required': 'MasterKeyChangeForce', 'recommended': 'MasterKeyChangeRec'}[what]] = str(n)

    def op_since(self, what, dd, sec, off):
        """a change date around the boundary of a policy"""
        n = int(self.db['meta'][{'required': 'MasterKeyChangeForce', 'recommended': 'MasterKeyChangeRec'}[what]] or 0)
        t = ops.now_us() // US * US - (max(0, n + dd) * DAY + sec) * US
        self.kp.credchange_date = M.dt_off(t, off)
        self.db['meta']['changed'] = t

    def op_future(self, d):
        t = at(d)
        if not 120 < (ops.now_us() - t) // US % DAY < DAY - 120:
            return False
        self.kp.credchange_date = M.dt(t)
        self.db['meta']['changed'] = t

    def op_cred(self, what):
        if what == 'pw':
            return self.op_pw('new%d' % self.i)
        if what == 'pwsame':
            return self.op_pw(self.pw)
        if what == 'kfsame':
            return self.op_kf(self.kf.hex() if self.kf is not None else None)
        if what == 'pwnone':
            return self.op_pw(None if self.kf is not None else '')
        if what == 'kfnone':
            if self.pw is None:
                self.op_pw('x')
            return self.op_kf(None)
        return self.op_kf('%02x' % self.i)

    def look(self, stt):
        seen = set()
        for n in M.walk(self.db['root']):
            h = self.h(n)
            now = ops.now_us()
            want = bool(n['exp']) and n['t']['x'] is not None and n['t']['x'] < now
            if n['t']['x'] is None:
                check(h.expired is False, 'expired is %r without an expiry time', h.expired)
            elif abs(n['t']['x'] - now) > 5 * US:
                got = h.expired
                check(got == want and isinstance(got, bool), 'expired is %r, with expires=%r and expiry %d s from now', got, n['exp'], (n['t']['x'] - now) // US)
                seen.add(want)
            check(bool(h.expires) == bool(n['exp']), 'expires is %r', h.expires)
        true = False
        for what, k in (('required', 'MasterKeyChangeForce'), ('recommended', 'MasterKeyChangeRec')):
            n = int(self.db['meta'][k] or -1)
            age = ops.now_us() - (self.db['meta']['changed'] or 0)
            want = n != -1 and self.db['meta']['changed'] is not None and age >= (n + 1) * DAY * US
            got = getattr(self.kp, 'credchange_' + what)
            check(bool(got) == want, 'credchange_%s is %r, with %d days set and %.3f days since the change', what, got, n, age / US / DAY)
            check(getattr(self.kp, 'credchange_%s_days' % what) == (n if self.db['meta'][k] else None), 'credchange_%s_days reads %r', what, getattr(self.kp, 'credchange_%s_days' % what))
            true |= want
            stt.cls('%s_%s' % (what, want))
        if len(seen) == 2 or true:
            stt.nt(True)
        for x in seen:
            stt.cls('expired_%s' % x)


def run(case, stt):
    World.tz = case['tz']
    with tz.local(case['tz']):
        w = World(case)
        w.look(stt)
        for op in case['steps']:
            w.step(op)
            stt.cls(op[0])
            w.look(stt)
        w.reopen()
        w.look(stt)
