""" independent OSNMA transmitter (SIS ICD 1.1) """
import hashlib
import hmac as hm
import os
from bits import BW
from cryptography.hazmat.primitives import cmac, hashes
from cryptography.hazmat.primitives import serialization as se
from cryptography.hazmat.primitives.ciphers import algorithms
from cryptography.hazmat.primitives.asymmetric import ec, utils

WEEK = 604800
KLEN = [96, 104, 112, 120, 128, 160, 192, 224, 256]
TLEN = {6: 24, 8: 32, 9: 40}
# tag sequences: S own satellite, E any, F flexible
MACLT = {
    27: ('00S 00E 00E 00E 12S 00E', '00S 00E 00E 04S 12S 00E'),
    31: ('00S 00E 00E 12S 00E', '00S 00E 00E 12S 04S'),
    33: ('00S 00E 04S 00E 12S 00E', '00S 00E 00E 12S 00E 12E'),
    34: ('00S FLX 04S FLX 12S 00E', '00S FLX 00E 12S 00E 12E'),
    35: ('00S FLX 04S FLX 12S FLX', '00S FLX FLX 12S FLX FLX'),
    36: ('00S FLX 04S FLX 12S', '00S FLX 00E 12S 12E'),
    38: ('00S FLX 04S FLX 12S', '00S FLX FLX 12S FLX'),
    39: ('00S FLX 04S FLX', '00S FLX 00E 12S'),
    40: ('00S 00E 04S 12S', '00S 00E 00E 12E'),
    41: ('00S FLX 04S FLX', '00S FLX FLX 12S'),
}


def gst(t):
    """ t: seconds since the start of GST """
    return BW().u(12, t//WEEK).u(20, t % WEEK).bytes()


def rb(r, n):
    return bytes(r.randrange(256) for _ in range(n))


def ec_key(r, curve=None):
    c = curve or ec.SECP256R1()
    return ec.derive_private_key(r.getrandbits(250)+2, c)


def point(k):
    pk = k.public_key() if hasattr(k, 'public_key') else k
    return pk.public_bytes(se.Encoding.X962, se.PublicFormat.CompressedPoint)


class Chain():
    def __init__(self, r, cfg, t_root, t_end, alpha=None):
        """ keys from the root key (t_root) up to t_end """
        self.cfg = cfg
        self.kl = KLEN[cfg['ks']]//8
        self.alpha = alpha or rb(r, 6)
        k = rb(r, self.kl)
        self.t_root = t_root
        self.keys = {t_end: k}
        t = t_end
        H = hashlib.sha256 if cfg['hf'] == 0 else hashlib.sha3_256
        while t > t_root:
            t -= 30
            k = H(k+gst(t)+self.alpha).digest()[:self.kl]
            self.keys[t] = k

    def mac(self, t, msg):
        k = self.keys[t]
        if self.cfg['mf'] == 0:
            return hm.new(k, msg, 'sha256').digest()
        h = cmac.CMAC(algorithms.AES(k))
        h.update(msg)
        return h.finalize()


class Cfg(dict):
    pass


def config(r):
    while True:
        c = dict(hf=r.choice([0, 2]), mf=r.choice([0, 0, 1]),
                 ks=r.randrange(9), ts=r.choice(list(TLEN)),
                 maclt=r.choice(list(MACLT)), pkid=r.randrange(1, 16),
                 cid=r.randrange(4), nmas=r.choice([1, 2]))
        if r.random() < .3:
            c.update(ks=4, ts=9, mf=0, hf=0)
        if c['mf'] == 1 and KLEN[c['ks']] not in (128, 192, 256):
            continue
        n = (480-KLEN[c['ks']])//(TLEN[c['ts']]+16)
        if n == len(MACLT[c['maclt']][0].split()):
            return c


def header(cfg, cpks=1):
    return BW().u(2, cfg['nmas']).u(2, cfg['cid']).u(3, cpks).u(
        1, 0).bytes()


def dsm_kroot(r, cfg, chain, sk, t_root, hdr, tamper=None):
    """ list of blocks; t_root: start of the hour the root key refers to """
    kl = chain.kl*8
    nb = 7
    while nb*104-104-kl-512 < 16:
        nb += 1
    if nb < 14 and r.random() < .3:
        nb += 1
    w = BW().u(4, nb-6).u(4, cfg['pkid']).u(2, cfg['cid']).u(2, 0).u(
        2, cfg['hf']).u(2, cfg['mf']).u(4, cfg['ks']).u(4, cfg['ts']).u(
        8, cfg['maclt']).u(4, 0).u(12, t_root//WEEK).u(
        8, t_root % WEEK//3600)
    d = w.bytes()+chain.alpha+chain.keys[t_root-30]
    if tamper == 'signature':
        ds = rb(r, 64)
    else:
        der = sk.sign(hdr+d[1:], ec.ECDSA(hashes.SHA256()))
        a, b = utils.decode_dss_signature(der)
        ds = a.to_bytes(32, 'big')+b.to_bytes(32, 'big')
    if tamper == 'alpha':
        d = d[:7]+rb(r, 6)+d[13:]
    pdk = hashlib.sha256(hdr+d[1:]+ds).digest()
    pad = nb*13-len(d)-64
    d = d+ds+(pdk+bytes(200))[:pad] if pad <= 32 else \
        d+ds+pdk+bytes(pad-32)
    if tamper == 'pdk':
        d = d[:-pad]+rb(r, pad)
    return [d[13*k:13*k+13] for k in range(nb)]


class Merkle():
    def __init__(self, r, leaves):
        """ leaves: {index: (npkt, npkid, public key bytes)} """
        self.m = [bytes([(leaves[i][0] << 4) | leaves[i][1]])+leaves[i][2]
                  if i in leaves else rb(r, 34) for i in range(16)]
        self.x = [[hashlib.sha256(m).digest() for m in self.m]]
        for j in range(4):
            p = self.x[-1]
            self.x.append([hashlib.sha256(p[2*i]+p[2*i+1]).digest()
                           for i in range(len(p)//2)])
        self.root = self.x[4][0]

    def dsm(self, r, i, m=None, root=None):
        """ DSM-PKR blocks """
        itn = b''
        k = i
        for j in range(4):
            itn += self.x[j][k ^ 1]
            k >>= 1
        m = self.m[i] if m is None else m
        nb = {33: 13, 67: 16}[len(m)-1]
        n = nb*13-130-(len(m)-1)
        pdp = hashlib.sha256((root or self.root)+m).digest()[:n]
        d = BW().u(4, nb-6).u(4, i).bytes()+itn+m+pdp
        assert len(d) == nb*13, (len(d), nb)
        return [d[13*k:13*k+13] for k in range(nb)]


def xml(path, name, root, keys):
    """ keys: {pkid: (type text, point)} """
    d = os.path.join(path, 'data/pubkey/osnma')
    os.makedirs(d, exist_ok=True)
    os.makedirs(os.path.join(path, 'run'), exist_ok=True)
    with open(os.path.join(d, name), 'w', encoding='utf-8') as f:
        f.write('<?xml version="1.0" encoding="UTF-8"?>\n<signalData>'
                '<header><source>GSC</source></header><body><MerkleTree>'
                '<N>16</N><HashFunction>SHA-256</HashFunction>')
        for k, (t, p) in keys.items():
            f.write(f"<PublicKey><i>0</i><PKID>{k}</PKID><lengthInBits>"
                    f"{len(p)*8}</lengthInBits><point>{p.hex()}</point>"
                    f"<PKType>{t}</PKType></PublicKey>")
        f.write('<TreeNode><j>3</j><i>1</i><lengthInBits>256</lengthInBits>'
                f'<x_ji>{os.urandom(32).hex()}</x_ji></TreeNode>')
        f.write('<TreeNode><j>4</j><i>0</i><lengthInBits>256</lengthInBits>'
                f'<x_ji>{root.hex()}</x_ji></TreeNode>')
        f.write('</MerkleTree></body></signalData>\n')
    return os.path.join(path, 'run')


class Nav():
    """ I/NAV words of a satellite """

    def __init__(self, r, iod):
        self.iod = iod
        self.w = {}
        for m in range(1, 5):
            self.w[m] = (m << 122) | (iod << 112) | r.getrandbits(112)
        self.w[5] = (5 << 122) | r.getrandbits(122)

    def auth(self):
        """ authenticated 549 bits """
        w = BW()
        for m, n in ((1, 120), (2, 120), (3, 122), (4, 120), (5, 67)):
            w.u(n, (self.w[m] >> (122-n)) & ((1 << n)-1))
        return w

    def flip(self, m, b):
        """ copy with a flipped bit b (from the most significant) """
        o = Nav.__new__(Nav)
        o.iod, o.w = self.iod, dict(self.w)
        o.w[m] ^= 1 << (127-b)
        return o


class Utc():
    def __init__(self, r):
        self.a = r.getrandbits(99)
        self.b = r.getrandbits(42)

    def words(self, r):
        return {6: (6 << 122) | (self.a << 23) | r.getrandbits(23),
                10: (10 << 122) | (r.getrandbits(80) << 42) | self.b}

    def auth(self):
        return BW().u(99, self.a).u(42, self.b)


ORDER = ([2, 4, 6, 7, 8, 0, 0, 0, 0, 0, 1, 3, 5, 0, 0],
         [2, 4, 6, 9, 10, 0, 0, 0, 0, 0, 1, 3, 5, 0, 0])


def tag(chain, t_key, prn_d, prn_a, ctr, t_tag, nmas, data, n):
    w = BW()
    if ctr > 1:
        w.u(8, prn_d)
    w.u(8, prn_a).u(12, t_tag//WEEK).u(20, t_tag % WEEK).u(8, ctr).u(2, nmas)
    w.cat(data)
    return chain.mac(t_key, w.align().bytes())[:n//8]


def seq(cfg, t):
    return MACLT[cfg['maclt']][0 if t % 60 == 0 else 1].split()


def mack(r, cfg, chain, prn, t, nav_of, utc, prns, key_shift=0, bad=None):
    """ 60 byte MACK of satellite prn in the sub-frame starting at t.
    nav_of(prn): navigation data of the previous sub-frame or None
    returns bytes, list of (adkd, prn_d) """
    n = TLEN[cfg['ts']]
    tk = t+30+key_shift
    w, flx, lst = [], b'', []
    sq = seq(cfg, t)
    q = r.choice([k for k in range(1, len(sq)) if sq[k] != 'FLX'] or [0])
    for k, e in enumerate(sq):
        if bad == 'sequence' and k == q:  # kind or satellite not allowed
            adkd, d = int(e[:2]), prn
            if e[2] == 'S' and r.random() < .5:
                d = r.choice([p for p in prns if p != prn])
            else:
                adkd = {0: 12, 12: 0, 4: 0}[adkd]
        elif e == 'FLX':
            adkd = r.choice([0, 0, 12, 4])
            d = prn if adkd == 4 or r.random() < .3 else r.choice(prns)
        else:
            adkd = int(e[:2])
            d = prn if e[2] == 'S' else r.choice(prns)
        data = utc.auth() if adkd == 4 else \
            None if nav_of(d) is None else nav_of(d).auth()
        key = tk if adkd != 12 else tk+300
        v = rb(r, n//8) if data is None else \
            tag(chain, key, d, prn, k+1, t, cfg['nmas'], data, n)
        info = bytes([d, (adkd << 4) | r.randrange(1, 16)])
        if e == 'FLX':
            flx += info
        w.append((v, info))
        lst.append((adkd, d))
    m = chain.mac(tk, bytes([prn])+gst(t)+flx)
    s = (((m[0] << 8) | m[1]) & 0xfff0) | r.randrange(16)
    if bad == 'macseq':
        s ^= 0x10 << r.randrange(12)
    out = w[0][0]+s.to_bytes(2, 'big')
    for v, i in w[1:]:
        out += v+i
    out += chain.keys[t]
    return out+bytes(60-len(out)), lst


def page(r, word, nma):
    """ even and odd page, 240 bits """
    w = BW().u(1, 0).u(1, 0).u(112, word >> 16).u(6, 0)
    w.u(1, 1).u(1, 0).u(16, word & 0xffff)
    for b in nma:
        w.u(8, b)
    return w.u(22, r.getrandbits(22)).u(2, 0).u(24, r.getrandbits(24)).u(
        8, r.getrandbits(8)).u(6, 0).bytes()
