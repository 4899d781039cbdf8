"""Independent Twofish (128-bit block, 256-bit key), written from the Twofish paper:
q permutations from their 4-bit tables, MDS over GF(2^8)/0x169, RS over GF(2^8)/0x14D.
Nothing is shared with the implementation under test."""
import struct
from functools import lru_cache

_Q = (
    ((8,1,7,13,6,15,3,2,0,11,5,9,14,12,10,4),
     (14,12,11,8,1,2,3,5,15,4,10,6,7,0,9,13),
     (11,10,5,14,6,13,9,0,12,8,15,3,2,4,7,1),
     (13,7,15,4,1,2,6,14,9,11,3,0,8,5,12,10)),
    ((2,8,11,13,15,7,6,14,3,1,9,4,0,10,12,5),
     (1,14,2,11,4,12,3,7,6,13,10,5,15,9,0,8),
     (4,12,7,5,1,6,9,10,0,14,13,8,2,11,3,15),
     (11,9,5,1,12,3,13,14,6,4,7,15,2,0,8,10)),
)

def _ror4(x): return ((x >> 1) | (x << 3)) & 15

def _q(n, x):
    t = _Q[n]
    a, b = x >> 4, x & 15
    a, b = a ^ b, a ^ _ror4(b) ^ ((8 * a) & 15)
    a, b = t[0][a], t[1][b]
    a, b = a ^ b, a ^ _ror4(b) ^ ((8 * a) & 15)
    a, b = t[2][a], t[3][b]
    return 16 * b + a

Q0 = [_q(0, i) for i in range(256)]
Q1 = [_q(1, i) for i in range(256)]

def _gmul(a, b, poly):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a <<= 1
        if a & 0x100:
            a ^= poly
        b >>= 1
    return r

_MDS = ((0x01,0xEF,0x5B,0x5B),(0x5B,0xEF,0xEF,0x01),(0xEF,0x5B,0x01,0xEF),(0xEF,0x01,0xEF,0x5B))
_RS = ((0x01,0xA4,0x55,0x87,0x5A,0x58,0xDB,0x9E),(0xA4,0x56,0x82,0xF3,0x1E,0xC6,0x68,0xE5),
       (0x02,0xA1,0xFC,0xC1,0x47,0xAE,0x3D,0x19),(0xA4,0x55,0x87,0x5A,0x58,0xDB,0x9E,0x03))
# column tables: _MT[j][x] = MDS column j times x, packed little endian
_MT = [[sum(_gmul(_MDS[i][j], x, 0x169) << (8 * i) for i in range(4)) for x in range(256)] for j in range(4)]
M = 0xFFFFFFFF

def _sub(pos, x, L):
    """byte `pos` through the q/key chain of h for the 32-byte-key case; L = list of 4 words (as byte tuples)"""
    # order of q for k=4,3,2,1,0 per byte position (Twofish paper fig. 2)
    chain = ((Q1, Q1, Q0, Q0, Q1), (Q0, Q1, Q1, Q0, Q0), (Q0, Q0, Q0, Q1, Q1), (Q1, Q0, Q1, Q1, Q0))[pos]
    y = chain[0][x] ^ L[3][pos]
    y = chain[1][y] ^ L[2][pos]
    y = chain[2][y] ^ L[1][pos]
    y = chain[3][y] ^ L[0][pos]
    return chain[4][y]

def _h(x, L):
    r = 0
    for p in range(4):
        r ^= _MT[p][_sub(p, (x >> (8 * p)) & 255, L)]
    return r

def _rol(x, n): return ((x << n) | (x >> (32 - n))) & M
def _ror(x, n): return ((x >> n) | (x << (32 - n))) & M

@lru_cache(maxsize=64)
def _schedule(key):
    if len(key) != 32:
        raise ValueError('reference Twofish: 32-byte keys only')
    words = [key[i:i + 4] for i in range(0, 32, 4)]
    me, mo = words[0::2], words[1::2]
    s = []
    for i in range(4):
        blk = key[8 * i:8 * i + 8]
        v = []
        for r in range(4):
            acc = 0
            for c in range(8):
                acc ^= _gmul(_RS[r][c], blk[c], 0x14D)
            v.append(acc)
        s.append(bytes(v))
    s.reverse()
    rho = 0x01010101
    k = []
    for i in range(20):
        a = _h((2 * i * rho) & M, me)
        b = _rol(_h(((2 * i + 1) * rho) & M, mo), 8)
        k.append((a + b) & M)
        k.append(_rol((a + 2 * b) & M, 9))
    sb = [[_MT[p][_sub(p, x, s)] for x in range(256)] for p in range(4)]
    return k, sb

def encrypt_block(key, block):
    k, (s0, s1, s2, s3) = _schedule(key)
    a, b, c, d = struct.unpack('<4I', block)
    a ^= k[0]; b ^= k[1]; c ^= k[2]; d ^= k[3]
    for r in range(16):
        t0 = s0[a & 255] ^ s1[(a >> 8) & 255] ^ s2[(a >> 16) & 255] ^ s3[a >> 24]
        b8 = _rol(b, 8)
        t1 = s0[b8 & 255] ^ s1[(b8 >> 8) & 255] ^ s2[(b8 >> 16) & 255] ^ s3[b8 >> 24]
        f0 = (t0 + t1 + k[2 * r + 8]) & M
        f1 = (t0 + 2 * t1 + k[2 * r + 9]) & M
        c, d = _ror(c ^ f0, 1), _rol(d, 1) ^ f1
        a, b, c, d = c, d, a, b
    a, b, c, d = c, d, a, b
    return struct.pack('<4I', a ^ k[4], b ^ k[5], c ^ k[6], d ^ k[7])

def decrypt_block(key, block):
    k, (s0, s1, s2, s3) = _schedule(key)
    a, b, c, d = struct.unpack('<4I', block)
    a ^= k[4]; b ^= k[5]; c ^= k[6]; d ^= k[7]
    a, b, c, d = c, d, a, b
    for r in range(15, -1, -1):
        a, b, c, d = c, d, a, b
        t0 = s0[a & 255] ^ s1[(a >> 8) & 255] ^ s2[(a >> 16) & 255] ^ s3[a >> 24]
        b8 = _rol(b, 8)
        t1 = s0[b8 & 255] ^ s1[(b8 >> 8) & 255] ^ s2[(b8 >> 16) & 255] ^ s3[b8 >> 24]
        f0 = (t0 + t1 + k[2 * r + 8]) & M
        f1 = (t0 + 2 * t1 + k[2 * r + 9]) & M
        c, d = _rol(c, 1) ^ f0, _ror(d ^ f1, 1)
    return struct.pack('<4I', a ^ k[0], b ^ k[1], c ^ k[2], d ^ k[3])

def _xor(a, b): return (int.from_bytes(a, 'little') ^ int.from_bytes(b, 'little')).to_bytes(16, 'little')

def cbc_encrypt(key, iv, data):
    out = []
    prev = iv
    for i in range(0, len(data), 16):
        prev = encrypt_block(key, _xor(data[i:i + 16], prev))
        out.append(prev)
    return b''.join(out)

def cbc_decrypt(key, iv, data):
    out = []
    prev = iv
    for i in range(0, len(data), 16):
        blk = data[i:i + 16]
        out.append(_xor(decrypt_block(key, blk), prev))
        prev = blk
    return b''.join(out)

def selftest():
    # Twofish paper, 256-bit key vectors
    key = bytes.fromhex('0123456789ABCDEFFEDCBA987654321000112233445566778899AABBCCDDEEFF')
    ct = encrypt_block(key, bytes(16))
    assert ct.hex().upper() == '37527BE0052334B89F0CFCCAE87CFA20', ct.hex()
    assert decrypt_block(key, ct) == bytes(16)
    key = bytes.fromhex('D43BB7556EA32E46F2A282B7D45B4E0D57FF739D4DC92C1BD7FC01700CC8216F')
    pt = bytes.fromhex('90AFE91BB288544F2C32DC239B2635E6')
    assert encrypt_block(key, pt).hex().upper() == '6CB4561C40BF0A9705931CB6D408E7FA'

if __name__ == '__main__':
    selftest(); print('twofish ok')
