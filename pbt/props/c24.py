import io, os, pathlib
from hypothesis import strategies as st
from .. import gen, ops, sut, model as M, kdbxref as ref
from ..core import check, Violation, scratch
ID = 'C24'
QUICK, THOROUGH = 3000, 40000
RULE = ('case = full file configuration x credentials x database x up to 6 steps of edits, saves under the credentials, saves with a given transformed key (stream or path), reopening with credentials or key, reading another file with the same object; '
        'reported key compared with an independent derivation, files read by the independent reader with that key, wrong keys probed; non-trivial: a file was opened by transformed key after an edit or '
        'saved with a given key')
W = {'add_entry': 3, 'set': 3, 'add_group': 1, 'prop_set': 1, 'bin_add': 1, 'att_add': 1, 'del_e': 1, 'meta': 1}
# any bytes can be given as a key
key = st.one_of(*[st.binary(min_size=32, max_size=32).map(bytes.hex)] * 3, st.sampled_from(['00' * 32, 'ff' * 32]), st.binary(min_size=1, max_size=70).map(bytes.hex),
                st.sampled_from(['00' * 31, '6b' * 16, '6b' * 33, '6b' * 64, '2061' * 16, '0a' + '61' * 31, '61' * 31 + '0a']))
step = st.one_of(ops.oplist(W, gen.small, max_size=3).map(lambda l: ['edit', l]), st.just(['save']), st.just(['savetk']),
                 st.tuples(st.just('given'), key, st.integers(0, 255), st.integers(0, 2)).map(list), st.tuples(st.just('reopen'), st.integers(0, 1)).map(list),
                 st.tuples(st.just('reread'), gen.text, st.booleans()).map(list))
pw = st.one_of(st.none(), gen.text)


def strategy(tier):
    return st.fixed_dictionaries({'cfg': gen.cfg(), 'pw': pw, 'kf': st.one_of(st.none(), st.none(), gen.hexdata), 'db': gen.database(t=gen.small, maxnodes=3, hist=False),
                                  'steps': st.lists(step, min_size=1, max_size=6), 'flip': st.integers(0, 255)})


def run(case, stt):
    from pykeepass import PyKeePass
    from pykeepass.exceptions import CredentialsError
    w = ops.World(case)
    w.verify_each = False
    comp = ref.composite(w.pw, w.kf)
    nt = False
    first = M.clone(w.db)

    def derived(data):
        return ref.transform(ref.read_header(data)['kdf'], comp)

    def wrong(data, k, what, **kw):
        if k is not None:
            kw['transformed_key'] = k
        try:
            kp = PyKeePass(io.BytesIO(data), **kw)
        except CredentialsError:
            return
        raise Violation('%s opened the file' % what)

    def flip(k, i):
        i %= len(k) * 8
        return k[:i // 8] + bytes([k[i // 8] ^ (1 << i % 8)]) + k[i // 8 + 1:]

    def by_key(data, k, what):
        kp = PyKeePass(io.BytesIO(data), transformed_key=k)
        check(bytes(kp.transformed_key) == k, '%s: the key given at opening is not the one reported', what)
        M.expect_db(w.db, sut.view(kp), what)
        # the same from a path, a path object, and with the credentials given as well
        p = os.path.join(w.tmpdir(), 'bykey.kdbx')
        with open(p, 'wb') as f:
            f.write(data)
        for src, kw in ((p, {}), (pathlib.Path(p), {}), (io.BytesIO(data), {'password': w.pw, 'keyfile': w.kfarg()})):
            k2 = PyKeePass(src, transformed_key=k, **kw)
            check(bytes(k2.transformed_key) == k, '%s: the key given at opening is not the one reported', what)
            check(k2.xml() == kp.xml(), '%s: content depends on how the file is given', what)
        return kp
    tk = derived(w.data)
    check(bytes(w.kp.transformed_key) == tk, 'transformed key is %s, expected %s', bytes(w.kp.transformed_key).hex(), tk.hex())
    by_key(w.data, tk, 'opened by transformed key')
    wrong(w.data, flip(tk, case['flip']), 'a wrong transformed key')
    # a key that is given is what counts, even if the credentials would do
    for k in (flip(tk, case['flip']), b'', b'\0' * 32)[case['flip'] % 3:][:1]:
        wrong(w.data, k, 'a wrong transformed key along with the credentials', password=w.pw, keyfile=w.kfarg())
    data = w.data
    edited = False
    for s in case['steps']:
        stt.cls(s[0])
        if s[0] == 'edit':
            w.run(s[1], api=False)
            edited = True
        elif s[0] in ('save', 'savetk'):
            # saving with the known key is saving under the credentials
            data = sut.save_bytes(w.kp, **({} if s[0] == 'save' else {'transformed_key': tk}))
            check(derived(data) == tk, 'key derivation settings changed by saving')
            check(bytes(w.kp.transformed_key) == tk, 'transformed key changed by saving')
            w.check_file(data)
            by_key(data, tk, 'saved file opened by transformed key')
            kp = sut.open_bytes(data, w.pw, w.kfarg())
            M.expect_db(w.db, sut.view(kp), 'saved file opened by credentials')
            wrong(data, flip(tk, case['flip'] + 7), 'a wrong transformed key')
            nt |= edited
        elif s[0] == 'given':
            k = bytes.fromhex(s[1])
            if s[3] == 0:
                out = sut.save_bytes(w.kp, transformed_key=k)
            else:
                p = os.path.join(w.tmpdir(), 'given.kdbx')
                w.kp.save(p, transformed_key=k)
                with open(p, 'rb') as f:
                    out = f.read()
            M.expect_db(w.db, sut.read_ref(out, transformed=k), 'file saved with a transformed key')
            kp = by_key(out, k, 'file saved with a transformed key')
            wrong(out, flip(k, s[2]), 'a wrong transformed key')
            for k2 in (k + b'\0', k[:-1], b'\0' + k, k[1:], k + k, k.strip(), k.rjust(32, b'\0'), k.ljust(32, b'\0'), k[:32], k.rstrip(b'\0'), ref.sha256(k))[s[2] % 4::4]:
                if k2 != k:
                    wrong(out, k2, 'a transformed key of other length')
            if k != tk:
                wrong(out, tk, 'the transformed key of the credentials')
                wrong(out, None, 'the credentials', password=w.pw, keyfile=w.kfarg())
            # go on with it: saved again with the key
            out2 = sut.save_bytes(kp, transformed_key=k)
            M.expect_db(w.db, sut.read_ref(out2, transformed=k), 'file saved again with a transformed key')
            nt = True
            w.verify('saving with a transformed key')
        elif s[0] == 'reread':
            # the same object reads a file with other credentials, then its own again
            data = sut.save_bytes(w.kp)
            w.check_file(data)
            pw2 = s[1] if s[1] != w.pw else s[1] + 'x'
            other = sut.make_file(w.cfg, first, pw2, None)
            tk2 = ref.transform(ref.read_header(other)['kdf'], ref.composite(pw2, None))
            if s[2]:
                w.kp.read(io.BytesIO(other), password=pw2)
            else:
                w.kp.read(io.BytesIO(other), transformed_key=tk2)
            check(bytes(w.kp.transformed_key) == tk2, 'transformed key after reading another file')
            M.expect_db(first, sut.view(PyKeePass(io.BytesIO(other), transformed_key=bytes(w.kp.transformed_key))), 'other file opened by transformed key')
            w.kp.read(io.BytesIO(data), password=w.pw, keyfile=w.kfarg())
            check(bytes(w.kp.transformed_key) == tk, 'transformed key after reading again')
            w.handles = {}
        else:
            data = sut.save_bytes(w.kp)
            w.check_file(data)
            if s[1]:
                w.kp = by_key(data, tk, 'reopened by transformed key')
                w.handles = {}
                # the key does not carry the credentials
                w.kp.read(io.BytesIO(data), password=w.pw, keyfile=w.kfarg())
            else:
                w.open(data)
            check(bytes(w.kp.transformed_key) == tk, 'transformed key after reopening')
    stt.cls('v%d' % w.v[0], w.cfg['kdf']['name'])
    stt.nt(nt)
