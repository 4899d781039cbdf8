"""Checks of the reference machinery itself (no code of pykeepass is run): setup_cmd."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, V)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import hypothesis
from pbt import kdbxref as ref, twofish_ref, model as M, gen
import xml.etree.ElementTree as ET
REPO = os.environ.get('VERIF_REPO', '/repo')


def samples():
    """files of other programs and of older versions, kept with the tests"""
    n = 0
    t = os.path.join(REPO, 'tests')
    for f in sorted(os.listdir(t)) if os.path.isdir(t) else []:
        if not f.endswith('.kdbx'):
            continue
        data = open(os.path.join(t, f), 'rb').read()
        k = os.path.join(t, f[:-5] + '.key')
        keys = [None] + [open(os.path.join(t, x), 'rb').read() for x in sorted(os.listdir(t)) if x.endswith(('.key', '.keyx'))]
        for pw in ('password', '', None):
            done = False
            for kf in keys:
                try:
                    r = ref.read_kdbx(data, comp=ref.composite(pw, kf), strict=False)
                    root = ref.parse_xml(r)
                except ref.RefError:
                    continue
                M.db_from_et(root, r['binaries'])
                n += 1
                done = True
                break
            if done:
                break
    return n


def roundtrip():
    """reference writer against reference reader"""
    n = 0

    @hypothesis.settings(max_examples=150, database=None, deadline=None, suppress_health_check=list(hypothesis.HealthCheck))
    @hypothesis.seed(1)
    @hypothesis.given(gen.cfg(), gen.database(x=True), gen.style)
    def t(cfg, spec, style):
        from pbt import sut
        nonlocal n
        cfg, db = gen.real_cfg(cfg), gen.build(spec)
        data = sut.make_file(cfg, db, 'p', b'k', style=style)
        M.expect_db(db, sut.read_ref(data, 'p', b'k'), 'reference reader on reference writer')
        n += 1
    t()
    return n


twofish_ref.selftest()
s = samples()
print('selftest: twofish vectors ok, %d sample files read by the reference reader, %d reference round trips' % (s, roundtrip()))
