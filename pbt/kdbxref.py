"""Independent KDBX 3.x / 4.x writer and strict reader, from the published format description.

Uses only hashlib/hmac/zlib/struct, the AES / ChaCha20 / Salsa20 primitives of pycryptodomex, the argon2 C
binding and our own Twofish.  Shares no code with the implementation under test."""
import base64, hashlib, hmac, struct, zlib
import xml.etree.ElementTree as ET
from Cryptodome.Cipher import AES, ChaCha20, Salsa20
import argon2.low_level as a2
from . import twofish_ref

SIG = bytes.fromhex('03d9a29a67fb4bb5')
CIPHERS = {'aes256': bytes.fromhex('31c1f2e6bf714350be5805216afc5aff'),
           'twofish': bytes.fromhex('ad68f29f576f4bb9a36ad47af965346c'),
           'chacha20': bytes.fromhex('d6038a2b8b6f4cb5a524339a31dbb59a')}
KDFS = {'argon2': bytes.fromhex('ef636ddf8c29444b91f7a9a403e30a0c'),
        'argon2id': bytes.fromhex('9e298b1956db4773b23dfc3ec6f0a1e6'),
        'aeskdf': bytes.fromhex('c9d9f39a628a4460bf740d08c18a4fea')}
STREAMS = {'none': 0, 'salsa20': 2, 'chacha20': 3}


class RefError(Exception):
    """the file violates the format"""


def sha256(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p)
    return h.digest()


def sha512(*parts):
    h = hashlib.sha512()
    for p in parts:
        h.update(p)
    return h.digest()


class Det:
    """deterministic byte source derived from one drawn integer"""
    def __init__(self, seed):
        self.seed, self.n = seed, 0

    def __call__(self, k):
        out = b''
        while len(out) < k:
            out += sha512(b'det', str(self.seed).encode(), struct.pack('<Q', self.n))
            self.n += 1
        return out[:k]


# ---------------------------------------------------------------- keys

_HEX = frozenset(b'0123456789abcdefABCDEF')


def keyfile_contribution(data):
    """what a key file's content contributes to the composite key (KeePass documentation, 'Key Files')"""
    try:
        root = ET.fromstring(data)
    except (ET.ParseError, ValueError, LookupError):
        root = None
    if root is not None:
        ver = root.findtext('Meta/Version')
        node = root.find('Key/Data')
        if ver is not None and node is not None and node.text is not None:
            if ver.startswith('1.0'):
                return base64.b64decode(node.text)
            if ver.startswith('2.0'):
                return bytes.fromhex(''.join(node.text.split()))
    if len(data) == 32:
        return data
    if len(data) == 64 and all(c in _HEX for c in data):
        return bytes.fromhex(data.decode('ascii'))
    return sha256(data)


def composite(password=None, keyfile=None):
    parts = b''
    if password is not None:
        parts += sha256(password.encode('utf-8'))
    if keyfile is not None:
        parts += keyfile_contribution(keyfile)
    return sha256(parts)


def transform(kdf, comp):
    if kdf['name'] == 'aeskdf':
        c = AES.new(kdf['salt'], AES.MODE_ECB)
        k = comp
        for _ in range(kdf['rounds']):
            k = c.encrypt(k)
        return sha256(k)
    return a2.hash_secret_raw(secret=comp, salt=kdf['salt'], time_cost=kdf['iterations'],
                              memory_cost=kdf['memory'] // 1024, parallelism=kdf['parallelism'], hash_len=32,
                              type=a2.Type.ID if kdf['name'] == 'argon2id' else a2.Type.D, version=kdf.get('version', 0x13))


def outer_encrypt(cipher, key, iv, data):
    if cipher == 'chacha20':
        return ChaCha20.new(key=key, nonce=iv).encrypt(data)
    n = 16 - len(data) % 16
    data += bytes([n]) * n
    if cipher == 'aes256':
        return AES.new(key, AES.MODE_CBC, iv).encrypt(data)
    return twofish_ref.cbc_encrypt(key, iv, data)


def outer_decrypt(cipher, key, iv, data):
    if cipher == 'chacha20':
        if len(iv) != 12:
            raise RefError('chacha20 iv length')
        return ChaCha20.new(key=key, nonce=iv).decrypt(data)
    if len(iv) != 16:
        raise RefError('iv length')
    if not data or len(data) % 16:
        raise RefError('ciphertext is not a positive multiple of 16 bytes')
    p = AES.new(key, AES.MODE_CBC, iv).decrypt(data) if cipher == 'aes256' else twofish_ref.cbc_decrypt(key, iv, data)
    n = p[-1]
    if not 1 <= n <= 16 or p[-n:] != bytes([n]) * n:
        raise RefError('bad PKCS#7 padding')
    return p[:-n]


class InnerStream:
    def __init__(self, kind, key):
        if kind == 'salsa20':
            self.c = Salsa20.new(key=sha256(key), nonce=bytes.fromhex('e830094b97205d2a'))
        elif kind == 'chacha20':
            h = sha512(key)
            self.c = ChaCha20.new(key=h[:32], nonce=h[32:44])
        else:
            self.c = None

    def __call__(self, data):
        return self.c.encrypt(data) if self.c else data


# ---------------------------------------------------------------- writer

def _variant_dict(items, version=0x0100):
    out = struct.pack('<H', version)
    for typ, key, val in items:
        k = key.encode()
        out += struct.pack('<BI', typ, len(k)) + k + struct.pack('<I', len(val)) + val
    return out + b'\0'


def kdf_items(kdf):
    items = [(0x42, '$UUID', KDFS[kdf['name']])]
    if kdf['name'] == 'aeskdf':
        items += [(0x05, 'R', struct.pack('<Q', kdf['rounds'])), (0x42, 'S', kdf['salt'])]
    else:
        items += [(0x05, 'I', struct.pack('<Q', kdf['iterations'])), (0x05, 'M', struct.pack('<Q', kdf['memory'])),
                  (0x04, 'P', struct.pack('<I', kdf['parallelism'])), (0x42, 'S', kdf['salt']),
                  (0x04, 'V', struct.pack('<I', kdf.get('version', 0x13)))]
    return items


_XITEMS = [(0x18, 'Xs', 'h\u00e9llo'.encode()), (0x08, 'Xb', b'\x01'), (0x0C, 'Xi', struct.pack('<i', -5)),
           (0x0D, 'Xl', struct.pack('<q', -5)), (0x42, 'Xy', b'\0\1\0')]


def permute(seq, code):
    """the code-th permutation (Lehmer) of seq"""
    seq, out = list(seq), []
    while seq:
        code, i = divmod(code, len(seq))
        out.append(seq.pop(i))
    return out


def make_kdf(cfg, rnd):
    k = cfg['kdf']
    kdf = {'name': k['name'], 'salt': rnd(k.get('saltlen', 32))}
    if k['name'] == 'aeskdf':
        kdf['rounds'] = k['n']
    else:
        kdf.update(iterations=k['n'], memory=k['m'] * 1024 * 8 * k['p'] + k.get('mrem', 0), parallelism=k['p'], version=k.get('ver', 0x13))
    return kdf


def split_blocks(data, sizes):
    """cut data in blocks of the given (cyclic) sizes; default 1 MiB"""
    sizes = [s for s in (sizes or []) if s > 0] or [1 << 20]
    out, i, n = [], 0, 0
    while i < len(data):
        s = sizes[n % len(sizes)]
        out.append(data[i:i + s])
        i += s
        n += 1
    return out


def write_kdbx(cfg, xml_builder, binaries=(), comp=None, transformed=None):
    """Build a KDBX file.

    cfg: v [major, minor], cipher, comp (bool), kdf {name, n, m, p}, seed, stream, order, comment, public, blocks, xitems
    xml_builder(protect, header_hash) -> xml bytes; protect(bytes) encrypts one protected value in document order.
    binaries: list of (flag, data), for KDBX4."""
    rnd = Det(cfg['seed'])
    master_seed, iv = rnd(32), rnd(12 if cfg['cipher'] == 'chacha20' else 16)
    stream_key, start = rnd(cfg.get('skl') or (64 if cfg['v'][0] == 4 else 32)), rnd(32)
    kdf = make_kdf(cfg, rnd)
    tk = transformed if transformed is not None else transform(kdf, comp)
    head = SIG + struct.pack('<HH', cfg['v'][1], cfg['v'][0])
    fields = [(2, CIPHERS[cfg['cipher']]), (3, struct.pack('<I', 1 if cfg['comp'] else 0)), (4, master_seed), (7, iv)]
    if cfg.get('comment') is not None:
        fields.append((1, cfg['comment']))
    if cfg['v'][0] == 4:
        items = kdf_items(kdf) + (_XITEMS if cfg.get('xitems') else [])
        fields.append((11, _variant_dict(permute(items, cfg.get('order', 0)))))
        if cfg.get('public') is not None:
            fields.append((12, cfg['public']))
        fmt = '<BI'
    else:
        fields += [(5, kdf['salt']), (6, struct.pack('<Q', kdf['rounds'])), (8, stream_key), (9, start),
                   (10, struct.pack('<I', STREAMS[cfg['stream']]))]
        fmt = '<BH'
    for i, d in permute(fields, cfg.get('order', 0)) + [(0, b'\r\n\r\n')]:
        head += struct.pack(fmt, i, len(d)) + d
    protect = InnerStream(cfg['stream'], stream_key)
    xml = xml_builder(protect, sha256(head))
    key = sha256(master_seed, tk)
    if cfg['v'][0] == 4:
        inner = [(1, struct.pack('<I', STREAMS[cfg['stream']])), (2, stream_key)]
        if cfg.get('order', 0) % 2:
            inner.reverse()
        inner += [(3, bytes([f]) + d) for f, d in binaries]
        if (cfg.get('order', 0) // 2) % 2 and len(inner) > 2:
            inner = inner[2:] + inner[:2]
        body = b''.join(struct.pack('<BI', i, len(d)) + d for i, d in inner + [(0, b'')]) + xml
        if cfg['comp']:
            body = _gzip(body, cfg)
        body = outer_encrypt(cfg['cipher'], key, iv, body)
        base = sha512(master_seed, tk, b'\x01')
        out = head + sha256(head) + hmac.digest(sha512(b'\xff' * 8, base), head, 'sha256')
        for i, b in enumerate(split_blocks(body, cfg.get('blocks')) + [b'']):
            out += hmac_block(base, i, b)
        return out
    body = _gzip(xml, cfg) if cfg['comp'] else xml
    plain = start
    blocks = split_blocks(body, cfg.get('blocks'))
    for i, b in enumerate(blocks):
        plain += struct.pack('<I', i) + sha256(b) + struct.pack('<I', len(b)) + b
    plain += struct.pack('<I', len(blocks)) + bytes(32) + struct.pack('<I', 0)
    return head + outer_encrypt(cfg['cipher'], key, iv, plain)


def hmac_block(base, i, b):
    idx = struct.pack('<Q', i)
    return hmac.digest(sha512(idx, base), idx + struct.pack('<I', len(b)) + b, 'sha256') + struct.pack('<I', len(b)) + b


def _gzip(data, cfg):
    c = zlib.compressobj(cfg.get('level', 6), zlib.DEFLATED, 31)
    return c.compress(data) + c.flush()


# ---------------------------------------------------------------- strict reader

class _R:
    def __init__(self, data):
        self.d, self.p = data, 0

    def take(self, n):
        if n < 0 or self.p + n > len(self.d):
            raise RefError('file truncated')
        r = self.d[self.p:self.p + n]
        self.p += n
        return r

    def u(self, fmt):
        return struct.unpack(fmt, self.take(struct.calcsize(fmt)))[0]


def _read_variant(data):
    r = _R(data)
    if r.u('<H') >> 8 != 1:
        raise RefError('variant dictionary version')
    d = {}
    while True:
        t = r.u('<B')
        if t == 0:
            break
        k = r.take(r.u('<I')).decode()
        v = r.take(r.u('<I'))
        d[k] = (t, v)
    if r.p != len(data):
        raise RefError('variant dictionary trailing data')
    return d


def read_header(data):
    r = _R(data)
    if r.take(8) != SIG:
        raise RefError('bad signature')
    minor, major = r.u('<H'), r.u('<H')
    if major not in (3, 4):
        raise RefError('unsupported version')
    fields, seen = [], {}
    while True:
        i = r.u('<B')
        n = r.u('<I') if major == 4 else r.u('<H')
        v = r.take(n)
        fields.append((i, v))
        seen[i] = v
        if i == 0:
            break
    known = {4: {0, 1, 2, 3, 4, 7, 11, 12}, 3: set(range(0, 11))}[major]
    if not set(seen) <= known:
        raise RefError('unknown header field')
    if len(seen) != len(fields):
        raise RefError('duplicate header field')
    h = {'version': (major, minor), 'fields': fields, 'raw': data[:r.p], 'end': r.p}
    inv = {v: k for k, v in CIPHERS.items()}
    try:
        h['cipher'] = inv[seen[2]]
        comp = struct.unpack('<I', seen[3])[0]
        h['master_seed'], h['iv'] = seen[4], seen[7]
        if len(seen[4]) != 32 or comp not in (0, 1):
            raise RefError('header field value')
        h['comp'] = bool(comp)
        if major == 4:
            vd = _read_variant(seen[11])
            name = {v: k for k, v in KDFS.items()}[vd['$UUID'][1]]
            kdf = {'name': name, 'salt': vd['S'][1]}
            if name == 'aeskdf':
                kdf['rounds'] = struct.unpack('<Q', vd['R'][1])[0]
            else:
                kdf.update(iterations=struct.unpack('<Q', vd['I'][1])[0], memory=struct.unpack('<Q', vd['M'][1])[0],
                           parallelism=struct.unpack('<I', vd['P'][1])[0], version=struct.unpack('<I', vd['V'][1])[0])
            h['kdf'] = kdf
        else:
            h['kdf'] = {'name': 'aeskdf', 'salt': seen[5], 'rounds': struct.unpack('<Q', seen[6])[0]}
            h['stream_key'], h['start'] = seen[8], seen[9]
            h['stream'] = {v: k for k, v in STREAMS.items()}[struct.unpack('<I', seen[10])[0]]
            if len(h['start']) != 32:
                raise RefError('stream start length')
    except (KeyError, struct.error) as e:
        raise RefError('incomplete header: %r' % (e,))
    return h


def _gunzip(data):
    d = zlib.decompressobj(31)
    try:
        out = d.decompress(data)
    except zlib.error as e:
        raise RefError('gzip: %s' % e)
    if not d.eof or d.unused_data:
        raise RefError('gzip stream incomplete or followed by garbage')
    return out


def read_kdbx(data, comp=None, transformed=None, strict=True):
    """-> dict(header=..., xml=bytes, inner stream, binaries=[(flag, data)], blocks=[len...])"""
    h = read_header(data)
    tk = transformed if transformed is not None else transform(h['kdf'], comp)
    key = sha256(h['master_seed'], tk)
    r = _R(data)
    r.p = h['end']
    res = {'header': h, 'transformed': tk, 'blocks': []}
    if h['version'][0] == 4:
        if r.take(32) != sha256(h['raw']):
            raise RefError('header hash')
        base = sha512(h['master_seed'], tk, b'\x01')
        if r.take(32) != hmac.digest(sha512(b'\xff' * 8, base), h['raw'], 'sha256'):
            raise RefError('header hmac (credentials)')
        cipher = b''
        i = 0
        res['block_pos'] = []
        while True:
            pos = r.p
            mac = r.take(32)
            blk = r.take(r.u('<I'))
            if hmac_block(base, i, blk)[:32] != mac:
                raise RefError('block %d hmac' % i)
            res['block_pos'].append((pos, r.p))
            i += 1
            if not blk:
                break
            res['blocks'].append(len(blk))
            cipher += blk
        res['end'] = r.p
        if strict and r.p != len(data):
            raise RefError('data after the last block')
        body = outer_decrypt(h['cipher'], key, h['iv'], cipher)
        if h['comp']:
            body = _gunzip(body)
        ir = _R(body)
        bins, st = [], {}
        while True:
            t = ir.u('<B')
            v = ir.take(ir.u('<I'))
            if t == 0:
                break
            if t == 3:
                if not v:
                    raise RefError('binary without flag byte')
                bins.append((v[0], v[1:]))
            elif t in (1, 2):
                if t in st:
                    raise RefError('duplicate inner header field')
                st[t] = v
            else:
                raise RefError('unknown inner header field')
        try:
            kind = {v: k for k, v in STREAMS.items()}[struct.unpack('<I', st[1])[0]]
            skey = st[2]
        except (KeyError, struct.error):
            raise RefError('inner header incomplete')
        res.update(xml=body[ir.p:], binaries=bins, stream=kind, stream_key=skey)
        return res
    plain = outer_decrypt(h['cipher'], key, h['iv'], data[h['end']:])
    pr = _R(plain)
    if pr.take(32) != h['start']:
        raise RefError('stream start bytes (credentials)')
    body, i = b'', 0
    while True:
        if pr.u('<I') != i:
            raise RefError('block index')
        hh = pr.take(32)
        blk = pr.take(pr.u('<I'))
        if not blk:
            if hh != bytes(32):
                raise RefError('terminator hash')
            break
        if sha256(blk) != hh:
            raise RefError('block hash')
        res['blocks'].append(len(blk))
        body += blk
        i += 1
    if strict and pr.p != len(plain):
        raise RefError('data after the last block')
    if h['comp']:
        body = _gunzip(body)
    res.update(xml=body, binaries=None, stream=h['stream'], stream_key=h['stream_key'])
    return res


def xml_root(data):
    """ElementTree root, with the comments and processing instructions in it"""
    return ET.fromstring(data, ET.XMLParser(target=ET.TreeBuilder(insert_comments=True, insert_pis=True)))


def parse_xml(res):
    """ElementTree of the payload with protected values decrypted in document order (strict)"""
    try:
        root = xml_root(res['xml'])
    except ET.ParseError as e:
        raise RefError('payload is not well-formed XML: %s' % e)
    stream = InnerStream(res['stream'], res['stream_key'])
    for el in root.iter():
        if el.tag in ('Value', 'Binary') and el.get('Protected') == 'True' and el.text:
            try:
                raw = base64.b64decode(el.text, validate=True)
            except Exception:
                raise RefError('protected value is not base64')
            if el.tag == 'Binary':
                el.text = base64.b64encode(stream(raw)).decode()
                continue
            try:
                el.text = stream(raw).decode('utf-8')
            except UnicodeDecodeError:
                raise RefError('protected value does not decrypt to UTF-8')
    hh = root.findtext('Meta/HeaderHash')
    if res['header']['version'][0] == 3 and hh:
        if base64.b64decode(hh) != sha256(res['header']['raw']):
            raise RefError('header hash in the XML does not match the header')
    return root
