import io, os, pathlib
from hypothesis import strategies as st
from .. import gen, ops, sut, model as M, kdbxref as ref
from ..core import check, Violation, scratch
ID = 'C23'
QUICK, THOROUGH = 5000, 40000
RULE = ('case = full file configuration (all versions, ciphers, key derivations, salt lengths) x credentials x database x supplied credentials (right, wrong, none, a transformed key) x path / Path / stream; '
        'settings compared with the independent header reader before and after a full opening and an edited save, then 1-6 generated uses of the content which must raise ValueError; '
        'non-trivial: supplied credentials were not the right ones')
USES = ['tree', 'entries', 'groups', 'root_group', 'recyclebin_group', 'xml', 'database_name', 'binaries', 'attachments', 'find_e', 'find_g', 'find_a', 'find_path', 'add_binary', 'delete_binary', 'payload',
        'credchange_date', 'credchange_required', 'credchange_recommended', 'days', 'deref', 'setname', 'setdesc', 'setuser', 'default_username', 'database_description', 'xpath', 'setdate', 'setdays', 'dump']
pw = st.one_of(st.none(), gen.text)


def strategy(tier):
    return st.fixed_dictionaries({'cfg': gen.cfg(), 'db': gen.database(t=gen.small, maxnodes=2), 'pw': pw, 'kf': st.one_of(st.none(), st.none(), gen.hexdata), 'give': st.integers(0, 4), 'pw2': pw,
                                  'kf2': st.one_of(st.none(), gen.hexdata), 'tk': st.binary(min_size=32, max_size=32).map(bytes.hex), 'src': st.integers(0, 2),
                                  'uses': st.lists(st.sampled_from(USES), min_size=1, max_size=6)})


def use(kp, u, d):
    from datetime import datetime, timezone
    {'tree': lambda: kp.tree, 'entries': lambda: kp.entries, 'groups': lambda: kp.groups, 'root_group': lambda: kp.root_group, 'recyclebin_group': lambda: kp.recyclebin_group, 'xml': lambda: kp.xml(),
     'database_name': lambda: kp.database_name, 'binaries': lambda: kp.binaries, 'attachments': lambda: kp.attachments, 'find_e': lambda: kp.find_entries(title='x', first=True),
     'find_g': lambda: kp.find_groups(name='.*', regex=True), 'find_a': lambda: kp.find_attachments(id=0), 'find_path': lambda: kp.find_entries(path=['a', 'b']), 'add_binary': lambda: kp.add_binary(b'x'),
     'delete_binary': lambda: kp.delete_binary(0), 'payload': lambda: kp.payload, 'credchange_date': lambda: kp.credchange_date, 'credchange_required': lambda: kp.credchange_required,
     'credchange_recommended': lambda: kp.credchange_recommended, 'days': lambda: kp.credchange_required_days, 'deref': lambda: kp.deref('{REF:T@I:%032X}' % 5),
     'setname': lambda: setattr(kp, 'database_name', 'x'), 'setdesc': lambda: setattr(kp, 'database_description', 'x'), 'setuser': lambda: setattr(kp, 'default_username', 'x'),
     'default_username': lambda: kp.default_username, 'database_description': lambda: kp.database_description, 'xpath': lambda: kp.xpath('//Entry'),
     'setdate': lambda: setattr(kp, 'credchange_date', datetime.now(timezone.utc)), 'setdays': lambda: setattr(kp, 'credchange_required_days', 5),
     'dump': lambda: kp.dump_xml(os.path.join(d, 'dump.xml'))}[u]()


def stored(cfg, data):
    """what the file says, by the independent reader of the header"""
    h = ref.read_header(data)
    salt = None
    for i, v in h['fields']:
        if tuple(h['version'])[0] == 3 and i == 5:
            salt = v
        if tuple(h['version'])[0] == 4 and i == 11:
            salt = ref._read_variant(v)['S'][1] if isinstance(ref._read_variant(v)['S'], tuple) else ref._read_variant(v)['S']
    want = (tuple(cfg['v']), cfg['cipher'], cfg['kdf']['name'], salt)
    check(tuple(h['version']) == want[0] and h['cipher'] == want[1], 'header of the file: %r', h)
    return want


def settings(kp):
    return (tuple(kp.version), kp.encryption_algorithm, kp.kdf_algorithm, bytes(kp.database_salt))


def run(case, stt):
    cfg = gen.real_cfg(case['cfg'])
    db = gen.build(case['db'])
    kf = bytes.fromhex(case['kf']) if case['kf'] is not None else None
    kf2 = bytes.fromhex(case['kf2']) if case['kf2'] is not None else None
    data = sut.make_file(cfg, db, case['pw'], kf)
    want = stored(cfg, data)
    d = scratch()
    p = os.path.join(d, 'x.kdbx')
    with open(p, 'wb') as f:
        f.write(data)
    src = lambda: [io.BytesIO(data), p, pathlib.Path(p)][case['src']]
    io_ = lambda b: io.BytesIO(b) if b is not None else None
    give = case['give']
    kw = [dict(), dict(password=case['pw'], keyfile=io_(kf)), dict(password=case['pw2']), dict(password=case['pw2'], keyfile=io_(kf2)), dict(transformed_key=bytes.fromhex(case['tk']))][give]
    from pykeepass import PyKeePass
    kp = PyKeePass(src(), decrypt=False, **kw)
    got = settings(kp)
    check(got == want, 'without decrypting: settings %r, expected %r', got, want)
    for u in case['uses']:
        try:
            use(kp, u, d)
        except ValueError:
            stt.cls('use_' + u)
            continue
        raise Violation('%s of a database which was not decrypted did not raise ValueError' % u)
    check(settings(kp) == want, 'settings changed by using the content')
    # saving it must not work either, nor destroy anything
    try:
        kp.save(p)
    except Exception:
        pass
    else:
        raise Violation('a database which was not decrypted was saved')
    with open(p, 'rb') as f:
        check(f.read() == data, 'saving a database which was not decrypted changed the file')
    full = PyKeePass(src(), password=case['pw'], keyfile=io_(kf))
    check(settings(full) == want, 'with credentials: settings %r, expected %r', settings(full), want)
    M.expect_db(db, sut.view(full), 'with credentials')
    # an object that was decrypted before, and back
    full.read(src(), decrypt=False, **kw)
    check(settings(full) == want, 'read again without decrypting: settings %r, expected %r', settings(full), want)
    for u in case['uses']:
        try:
            use(full, u, d)
        except ValueError:
            continue
        raise Violation('%s of a database which was read again without decrypting did not raise ValueError' % u)
    for target in (io.BytesIO(), None) if case['src'] else (io.BytesIO(),):
        try:
            full.save(target) if target is not None else full.save()
        except Exception:
            pass
        else:
            raise Violation('a database which was not decrypted was saved')
    with open(p, 'rb') as f:
        check(f.read() == data, 'saving a database which was not decrypted changed the file')
    check(set(os.listdir(d)) <= {'x.kdbx', 'dump.xml'}, 'files %r were left behind', sorted(os.listdir(d)))
    full.read(src(), password=case['pw'], keyfile=io_(kf))
    check(settings(full) == want, 'decrypted again: settings %r, expected %r', settings(full), want)
    M.expect_db(db, sut.view(full), 'decrypted again')
    full.add_entry(full.root_group, 'new', 'u', 'p', force_creation=True)
    out = sut.save_bytes(full) if kf is None else None
    if out is not None:
        again = PyKeePass(io.BytesIO(out), decrypt=False)
        check(settings(again) == stored(cfg, out) == want, 'after saving: settings %r, expected %r', settings(again), want)
    stt.cls('v%d.%d' % tuple(cfg['v']), cfg['cipher'], cfg['kdf']['name'], 'give%d' % give)
    stt.nt(give != 1)
