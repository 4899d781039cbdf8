import base64, io, os, pathlib
from hypothesis import strategies as st
from .. import gen, sut, model as M, kdbxref as ref
from ..core import check, scratch, Violation
ID = 'C06'
QUICK, THOROUGH = 12000, 100000
RULE = ('case = key file content (XML 1.x, XML 2.x with right or wrong hash, 32 raw bytes, 64 hex digits, near misses of each, arbitrary bytes) x way of passing it x '
        'format; the file is written by the independent writer for the key the content stands for; it must open with the key file (or, for a wrong hash, be '
        'refused), and save under it again; non-trivial: content is a special form or a near miss of one')
hx = st.text('0123456789abcdefABCDEF', min_size=64, max_size=64)
key32 = st.binary(min_size=32, max_size=32)
XML1 = '%s<KeyFile>%s<Meta>%s<Version>%s</Version></Meta><Key><Data>%s</Data></Key></KeyFile>'
XML2 = '%s<KeyFile>%s<Meta><Version>%s</Version></Meta><Key><Data Hash="%s">%s</Data></Key></KeyFile>'
decls = st.sampled_from(['', '<?xml version="1.0" encoding="utf-8"?>\n', '<?xml version="1.0" encoding="UTF-8" standalone="no"?>', '\ufeff<?xml version="1.0"?>'])
spaces = st.sampled_from(['', '\n\t', ' '])


def hexfmt(b, f):
    h = b.hex().upper() if f % 2 else b.hex()
    if f >= 2:
        h = '\n\t\t\t' + ' '.join(h[i:i + 8] for i in range(0, len(h), 8)) + '\n\t\t'
    return h


kinds = st.one_of(
    st.tuples(st.just('xml1'), decls, spaces, st.sampled_from(['1.00', '1.0']), key32.map(bytes.hex)),
    st.tuples(st.just('xml2'), decls, spaces, st.sampled_from(['2.0', '2.00']), key32.map(bytes.hex), st.integers(0, 3), st.sampled_from([0, 0, 0, 0, 1, 2, 3, 4, 5, 6])),
    st.tuples(st.just('raw'), st.one_of(key32.map(bytes.hex), st.just('20' * 32), st.just('30' * 32), st.just('0a' * 32))),
    st.tuples(st.just('hex'), hx),
    st.tuples(st.just('nearhex'), hx, st.sampled_from(['_', '0x', '+', '-', ' ', '\n', 'g', '\t', '\r\n', '\x00', '\x0c']), st.integers(0, 63), st.booleans()),
    st.tuples(st.just('len'), st.sampled_from([0, 1, 31, 33, 63, 65, 64, 128]), st.sampled_from(['61', '30', '00', 'ff', '67'])),
    st.tuples(st.just('len'), st.sampled_from([255, 256, 257, 1000, 4096, 4097, 8192, 65535, 65536, 65537, 2 ** 20 - 1, 2 ** 20, 2 ** 20 + 1, 1500000, 2 ** 21 + 5]), st.sampled_from(['61', '30', '00ff'])),
    st.tuples(st.just('otherxml'), st.sampled_from(['<a/>', '<KeyFile/>', '<KeyFile><Meta/></KeyFile>', '<KeyFile><Meta><Version>3.0</Version></Meta><Key><Data>AAAA</Data></Key></KeyFile>',
        '<KeyFile><Meta><Version>1.0</Version></Meta></KeyFile>', '<KeyFile><Meta><Version/></Meta><Key><Data>AAAA</Data></Key></KeyFile>', '<x>' + 'y' * 25 + '</x>',
        '<KeyFile><Meta><Version>2.0</Version></Meta><Key/></KeyFile>', '<KeyFile><Meta><Version>1.0</Version>', 'not <xml', '<abcdefghi>' + 'a' * 41 + '</abcdefghi>'])),
    st.tuples(st.just('vers'), st.sampled_from(['10.0', '12.0', '11', '20.0', '21.0', '3.0', '0.1', ' ', 'x1.0', '01.0']), key32.map(bytes.hex), st.integers(0, 2)),
    # a key file in XML which is not well-formed: something before its declaration or after its end
    st.tuples(st.just('bent'), st.sampled_from([' ', '\n', '\r\n', '\ufeff ', 'x', '\0', '<!--', '']), st.sampled_from(['', '\0', '<x/>', 'x', '&', '</KeyFile>']), key32.map(bytes.hex), st.booleans()),
    st.tuples(st.just('any'), st.binary(max_size=80).map(bytes.hex))).map(list)


def strategy(tier):
    return st.fixed_dictionaries({'k': kinds, 'how': st.lists(st.integers(0, 5), min_size=1, max_size=3), 'k2': st.one_of(st.none(), kinds), 'pw': st.one_of(st.none(), st.sampled_from(['', 'pw'])),
                                  'cfg': gen.cheap_cfg(), 'pos': st.integers(0, 100)})


def meant(k, contrib):
    """the key a refused key file would contribute if its hash were not verified"""
    return contrib if contrib is not None else bytes.fromhex(k[4])


def content(k):
    """(bytes, contribution or None when it must be refused)"""
    t = k[0]
    if t == 'xml1':
        key = bytes.fromhex(k[4])
        return (XML1 % (k[1], k[2], k[2], k[3], base64.b64encode(key).decode())).encode(), key
    if t == 'xml2':
        key = bytes.fromhex(k[4])
        h = ref.sha256(key)[:4]
        bad = k[6]
        if bad:
            h = bytes([h[0] ^ 1]) + h[1:] if bad == 1 else h[:3] + bytes([h[3] ^ 0x80]) if bad == 2 else ref.sha256(key)[4:8] if bad == 3 else h[:bad - 3] if bad < 6 else h + b'\0'
        return (XML2 % (k[1], k[2], k[3], h.hex().upper() if k[5] % 2 else h.hex(), hexfmt(key, k[5]))).encode(), (None if bad else key)
    if t == 'raw':
        b = bytes.fromhex(k[1])
        return b, b
    if t == 'hex':
        return k[1].encode(), bytes.fromhex(k[1])
    if t == 'nearhex':
        ins, i = k[2], min(k[3], 64 - len(k[2]))
        s = (k[1][:i] + ins + k[1][i + len(ins):]) if k[4] else (k[1][:i] + ins + k[1][i:])
        b = s.encode()
    elif t == 'len':
        b = (bytes.fromhex(k[2]) * k[1])[:k[1]]
        if k[1] > 128:
            b = b[:-1] + b'z'
    elif t == 'vers':                 # XML with an unknown version is any other file
        key = bytes.fromhex(k[2])
        b = (XML1 % ('', '', '', k[1], base64.b64encode(key).decode()) if k[3] else XML2 % ('', '', k[1], ref.sha256(key)[:4].hex(), key.hex())).encode()
    elif t == 'bent':
        key = bytes.fromhex(k[3])
        a, z = (k[1], k[2]) if k[1] or k[2] else (' ', '')
        x = '<?xml version="1.0" encoding="utf-8"?>'
        b = (a + (XML1 % (x, '', '', '1.00', base64.b64encode(key).decode()) if k[4] else XML2 % (x, '', '2.0', ref.sha256(key)[:4].hex(), key.hex())) + z).encode()
    elif t == 'otherxml':
        b = k[1].encode()
    else:
        b = bytes.fromhex(k[1])
    if len(b) == 32:
        return b, b
    if len(b) == 64 and all(c in b'0123456789abcdefABCDEF' for c in b):
        return b, bytes.fromhex(b.decode())
    return b, ref.sha256(b)


class Unseekable(io.RawIOBase):
    def __init__(self, b):
        self.b = io.BytesIO(b)

    def readable(self):
        return True

    def seekable(self):
        return False

    def read(self, n=-1):
        return self.b.read(n)


def run(case, stt):
    b, contrib = content(case['k'])
    cfg = gen.real_cfg(case['cfg'])
    db = M.new_db(M.new_group(gen._uu(0), 'r', M.US * 10 ** 10))
    pw = case['pw']
    comp = ref.sha256((ref.sha256(pw.encode()) if pw is not None else b'') + meant(case['k'], contrib))
    stt.cls(case['k'][0])

    def xml(protect, hh):
        return M.Writer(db, cfg['v'], {}, protect, hh).build()
    data = ref.write_kdbx(cfg, xml, (), comp=comp)
    d = scratch()
    path = os.path.join(d, 'key file "x".key')
    with open(path, 'wb') as f:
        f.write(b)
    fobj = open(path, 'rb')
    bio = io.BytesIO(b)
    last = None
    for how in case['how']:
        bio.seek(min(case['pos'], len(b)))
        fobj.seek(min(case['pos'], len(b)))
        kf = [path, pathlib.Path(path), bio, fobj, io.BytesIO(b), path][how]
        stt.cls('how%d' % how)
        if contrib is None:
            try:
                sut.open_bytes(data, pw, kf)
            except Exception:
                stt.nt()
                continue
            raise Violation('key file with wrong hash was accepted')
        kp = sut.open_bytes(data, pw, kf)
        check(kp.root_group.name == 'r', 'content')
        out = sut.save_bytes(kp)
        try:
            ref.read_kdbx(out, comp=comp)
        except ref.RefError as e:
            raise Violation('saved under a different key: %s' % e)
        last = kp
    if contrib is None:
        # the key itself (as if the hash were not checked) must not open it either
        return
    fobj.close()
    check(open(path, 'rb').read() == b, 'key file was modified')
    if case['k2'] is not None:
        # another key file under the same path
        b2, contrib2 = content(case['k2'])
        with open(path, 'wb') as f:
            f.write(b2)
        comp2 = ref.sha256((ref.sha256(pw.encode()) if pw is not None else b'') + meant(case['k2'], contrib2))
        data2 = ref.write_kdbx(cfg, xml, (), comp=comp2)
        if contrib2 is None:
            try:
                sut.open_bytes(data2, pw, path)
            except Exception:
                pass
            else:
                raise Violation('key file with wrong hash was accepted')
        else:
            kp = sut.open_bytes(data2, pw, path)
            check(kp.root_group.name == 'r', 'content')
            last.keyfile = path
            try:
                ref.read_kdbx(sut.save_bytes(kp), comp=comp2)
                ref.read_kdbx(sut.save_bytes(last), comp=comp2)
            except ref.RefError as e:
                raise Violation('saved under a different key after the key file was replaced: %s' % e)
        stt.cls('replaced')
    stt.nt(case['k'][0] != 'any')
