""" C33: QZSS navigation message authentication """
import os
from common import Check
from bits import BW
import osnma_sim as om
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives import serialization as se
from cryptography.hazmat.primitives.asymmetric import ec, utils
from cssrlib.gnss import id2sat, uGNSS
from cssrlib.qznma import qznma, uNavId

chk = Check('C33', ['src/cssrlib/qznma.py'],
            rule='independently signed message streams of QZSS (LNAV, CNAV, '
            'CNAV2) and of GPS and Galileo (L6), with losses, alterations '
            'and key changes; distinct by message kind and alteration')

WEEK = 604800


def keys(c, ids):
    """ key files; {id: private key} """
    d = os.path.join(c.tmp, 'key')
    os.makedirs(d, exist_ok=True)
    out = {}
    for i in ids:
        out[i] = om.ec_key(c.rng)
        with open(f"{d}/{i:03d}.der", 'wb') as f:
            f.write(out[i].public_key().public_bytes(
                se.Encoding.DER, se.PublicFormat.SubjectPublicKeyInfo))
    return d, out


def sign(sk, w):
    der = sk.sign(w.bytes(), ec.ECDSA(hashes.SHA256()))
    a, b = utils.decode_dss_signature(der)
    return (a << 256) | b


class Bits():
    """ fixed size bit field """

    def __init__(self, n, v=0):
        self.n, self.v = n, v

    def set(self, i, k, v):
        s = self.n-i-k
        self.v = (self.v & ~(((1 << k)-1) << s)) | (v << s)
        return self

    def get(self, i, k):
        return (self.v >> (self.n-i-k)) & ((1 << k)-1)

    def bytes(self):
        return self.v.to_bytes((self.n+7)//8, 'big') if self.n % 8 == 0 \
            else (self.v << (8-self.n % 8)).to_bytes((self.n+7)//8, 'big')


def keep(n, drop):
    """ mask of n bits without the ranges (first, count) """
    m = (1 << n)-1
    for i, k in drop:
        m &= ~(((1 << k)-1) << (n-i-k))
    return m


# bits which are not signed, (first, count) of 300 bit messages.
# LNAV: parity, TLM reserved bits/preamble, HOW beyond the time of week
PAR = [(24+30*k, 6) for k in range(10)]
LN_Q = keep(300, PAR+[(22, 2), (30+17, 7), (270+22, 2)])
LN_G = [keep(300, PAR+[(8, 14), (30+22, 2), (270+22, 2)]),
        keep(300, PAR+[(8, 14), (30+22, 2), (270+17, 7)]),
        keep(300, PAR+[(8, 14), (30+22, 2), (270+22, 2)])]


def cnav_mask(first, tail):
    return keep(300, first+[tail])


# CNAV: PRN, alert flag and CRC
CN_Q = [keep(300, [(8, 6), (37, 1), (271, 1), (276, 24)]),
        keep(300, [(8, 6), (37, 1), (276, 24)]),
        keep(300, [(8, 6), (37, 1), (127, 173)])]
CN_G = [keep(300, [(14, 6), (276, 24)]), keep(300, [(14, 6), (276, 24)]),
        keep(300, [(14, 6), (127, 173)])]
FN = keep(244, [(214, 10), (224, 14)])
C2 = keep(576, [(32, 1), (565, 1)])


def lnav(r, sid, tow, iode, pre=True):
    """ 300 bits """
    b = Bits(300, r.getrandbits(300))
    if pre:
        b.set(0, 8, 0x8b)
    b.set(30, 17, (tow//6) % 100800).set(49, 3, sid)
    iodc = (r.randrange(4) << 8) | iode
    if sid == 1:
        b.set(60+22, 2, iodc >> 8).set(210, 8, iode)
    elif sid == 2:
        b.set(60, 8, iode)
    elif sid == 3:
        b.set(270, 8, iode)
    return b


def raw10(b):
    """ ten words of 30 bits, each in 32 bits """
    w = BW()
    for k in range(10):
        w.u(2, 0).u(30, b.get(30*k, 30))
    return w.bytes()


def cnav(r, mt, tow, toe, prn):
    b = Bits(300, r.getrandbits(300))
    b.set(0, 8, 0x8b).set(8, 6, prn).set(14, 6, mt)
    b.set(20, 17, (tow//6) % 100800)
    b.set({10: 70, 11: 38}.get(mt, 60), 11, toe)
    return b


def rawc(b):
    return BW().u(300, b.v).u(4, 0).bytes()


class Stream():
    """ transmitter of a QZSS satellite """

    def __init__(self, c, mode, sks, prn):
        self.c, self.r, self.mode, self.sks = c, c.rng, mode, sks
        self.prn = prn

    def rds(self, body, key, total):
        """ key id, signature and salt with reserved bits """
        r = self.r
        salt = r.getrandbits(16)
        w = BW().u(8, key).cat(body).u(16, salt)
        w.u(total-536, 0)
        s = sign(self.sks[key], w)
        return Bits(total, BW().u(8, key).u(512, s).u(16, salt).u(
            total-536, 0).v)

    def frames(self, t, n, key):
        """ list of rounds: (signature messages, signed messages) each a list
        of (time, kind, bits) """
        r = self.r
        out = []
        for _ in range(n):
            k = key()
            if self.mode == uNavId.GPS_LNAV:
                iode = r.randrange(256)
                tn = t+90    # frame after the three pages
                fr = [lnav(r, s+1, tn+6*s, iode) for s in range(3)]
                body = BW()
                for x in fr:
                    body.u(300, x.v & LN_Q)
                d = self.rds(body, k, 540)
                seg = []
                for s in range(3):
                    # the two last bits of a page are not part of it
                    b = lnav(r, 5, t+30*s+24, 0)
                    v = d.get(180*s, 180)
                    b.set(60, 2, 3).set(62, 6, 60).set(68, 2, s+1)
                    b.set(70, 14, v >> 166)
                    for q in range(7):
                        x = (v >> max(0, 166-24*(q+1))) & 0xffffff if q < 6 \
                            else (v & ((1 << 22)-1)) << 2
                        b.set(90+30*q, 24, x)
                    seg.append((t+30*s+24, b))
                oth = []
                for s in range(3):
                    for q in range(4):
                        if s == 0 and q < 3:
                            continue   # those are signed by the round before
                        b = lnav(r, q+1, t+30*s+6*q, r.randrange(256))
                        if q == 3:
                            b.set(62, 6, 1)
                        oth.append((t+30*s+6*q, b))
                out.append((seg, [(tn+6*s, x) for s, x in enumerate(fr)],
                            oth))
                t += 90
            elif self.mode == uNavId.GPS_CNAV:
                toe = r.randrange(2016)
                tn = t+r.choice([18, 24, 42])
                mts = [10, 11, r.choice([30, 31, 33, 37, 61])]
                fr = [cnav(r, m, tn+6*s, toe, self.prn-192)
                      for s, m in enumerate(mts)]
                body = BW()
                for x, m in zip(fr, CN_Q):
                    body.u(300, x.v & m)
                d = self.rds(body, k, 708)
                seg = []
                tt = sorted(r.sample(range(t, tn-6, 6), 2))+[tn-6]
                for s in range(3):
                    b = cnav(r, 60, tt[s], 0, self.prn-192)
                    b.set(38, 2, s+1).set(40, 236, d.get(236*s, 236))
                    seg.append((tt[s], b))
                oth = [(u, cnav(r, r.choice([12, 15, 32]), u, 0,
                                self.prn-192))
                       for u in range(t, tn, 6) if u not in tt]
                out.append((seg, [(tn+6*s, x) for s, x in enumerate(fr)],
                            oth))
                t = tn+18
            else:
                tn = t+54
                sf2 = Bits(600, r.getrandbits(600))
                toi = tn % 7200//18
                sf2.set(13, 8, tn % WEEK//7200)
                body = BW().u(9, toi).u(576, (sf2.v >> 24) & C2).u(24, 0)
                d = self.rds(body, k, 702)
                seg, oth = [], []
                for s in range(3):
                    u = t+18*s
                    seg.append((u, self.frame2(
                        u, 60, (s+1, d.get(234*s, 234)), None)))
                out.append((seg, [(tn, self.frame2(tn, r.choice(
                    [1, 2, 3]), None, sf2))], oth))
                t = tn+18
        return out, t

    def frame2(self, t, page, seg, sf2):
        """ CNAV2 frame """
        r = self.r
        if sf2 is None:
            sf2 = Bits(600, r.getrandbits(600))
            sf2.set(13, 8, t % WEEK//7200)
        b = Bits(1800, r.getrandbits(1800))
        b.set(0, 9, t % 7200//18).set(52, 600, sf2.v)
        b.set(1252, 8, self.prn & 0xff).set(1260, 6, page)
        if seg:
            b.set(1266, 2, seg[0]).set(1268, 234, seg[1])
        return b

    def signed(self):
        """ masks of the signed messages """
        if self.mode == uNavId.GPS_LNAV:
            return [LN_Q]*3
        if self.mode == uNavId.GPS_CNAV:
            return CN_Q
        m = Bits(1800)
        m.set(0, 9, 511).set(52, 576, C2)
        return [m.v]

    def raw(self, b):
        if self.mode == uNavId.GPS_LNAV:
            return raw10(b)
        if self.mode == uNavId.GPS_CNAV:
            return rawc(b)
        return b.bytes()


@chk.case(700, 12000, cpu=200)
def qzss(c):
    """ LNAV, CNAV and CNAV2 of QZSS """
    r = c.rng
    mode = r.choice([uNavId.GPS_LNAV, uNavId.GPS_CNAV, uNavId.GPS_CNAV2])
    ids = r.sample(range(1, 256), 3)
    d, sks = keys(c, ids)
    unknown = r.choice([i for i in range(1, 256) if i not in ids])
    sks[unknown] = om.ec_key(r)
    evil = om.ec_key(r)
    q = qznma()
    q.monlevel = c.rng.choice([0, 0, 1, 2])
    q.pubk_bdir = d
    other = qznma()
    other.pubk_bdir = d
    prns = r.sample(range(193, 203), r.randint(1, 3))
    t0 = 18*r.randrange(33600)
    if mode == uNavId.GPS_LNAV:
        t0 = 30*r.randrange(20160)
    if r.random() < .4:   # end of week
        t0 = WEEK-90*r.randint(0, 4)
    ev = []
    expect = {}
    for prn in prns:
        st = Stream(c, mode, sks, prn)
        cur = [r.choice(ids)]

        def key():
            if r.random() < .2:
                cur[0] = r.choice(ids)
            return unknown if r.random() < .08 else cur[0]
        rounds, _ = st.frames(t0, r.randint(3, 9), key)
        sat = id2sat(f"J{prn-192:02d}")
        msk = st.signed()
        nb = {uNavId.GPS_LNAV: 300, uNavId.GPS_CNAV: 300}.get(mode, 1800)
        for j, (seg, fr, oth) in enumerate(rounds):
            k = r.choice(['ok', 'ok', 'ok', 'signed', 'not signed', 'lost',
                          'lost segment', 'signature', 'evil', 'replay',
                          'repeat'])
            seg = [(t, Bits(b.n, b.v)) for t, b in seg]
            fr = [(t, Bits(b.n, b.v)) for t, b in fr]
            kid = (seg[0][1].get(70, 8) if mode == uNavId.GPS_LNAV else
                   seg[0][1].get(40, 8) if mode == uNavId.GPS_CNAV else
                   seg[0][1].get(1268, 8))
            good = kid != unknown
            x = r.randrange(len(fr))
            if k in ('signed', 'not signed'):
                # not the fields that tell what the message is
                for _ in range(200):
                    b = r.randrange(nb)
                    s = (msk[x] >> (nb-1-b)) & 1
                    if mode == uNavId.GPS_LNAV and (
                            30 <= b < 52 or x and b > 9000):
                        continue
                    if mode == uNavId.GPS_CNAV and (b < 38):
                        continue
                    if mode == uNavId.GPS_CNAV2 and (
                            b < 9 or 65 <= b < 73 or b >= 1252):
                        continue
                    if bool(s) == (k == 'signed'):
                        fr[x][1].v ^= 1 << (nb-1-b)
                        good = good and k != 'signed'
                        c.seen(k, int(mode), x, b//30)
                        break
            elif k == 'lost':
                del fr[x]
                good = False
            elif k == 'lost segment':
                del seg[r.randrange(3)]
                good = False
            elif k == 'signature':
                s = r.randrange(3)
                a, n = {uNavId.GPS_LNAV: (90, 24), uNavId.GPS_CNAV: (
                    60, 40)}.get(mode, (1290, 40))
                seg[s][1].v ^= 1 << (nb-1-(a+r.randrange(n)))
                good = False
            elif k == 'evil':   # own signature, known key id
                st2 = Stream(c, mode, {i: evil for i in sks}, prn)
                (s2, f2, _), = st2.frames(seg[0][0] if mode != uNavId.GPS_LNAV
                                          else seg[0][0]-24, 1,
                                          lambda: cur[0])[0]
                if [t for t, _ in f2] == [t for t, _ in fr]:
                    seg, fr, good = s2, f2, False
                    kid = cur[0]
            elif k == 'replay' and j > 0:   # of another signature
                seg = [(t, rounds[j-1][0][s][1] if mode !=
                        uNavId.GPS_LNAV else rounds[j-1][0][s][1])
                       for s, (t, _) in enumerate(seg)]
                good = False
            elif k == 'repeat':   # the last segment once more
                seg.append(seg[-1])
                good = None if good else False
            for s in seg+fr+oth:
                ev.append((s[0], prn, sat, st.raw(s[1])))
            expect.setdefault(sat, []).append(
                (max(t for t, _ in rounds[j][1]), good, k))
            c.seen('round', int(mode), k, good)
    ev.sort(key=lambda x: x[:2])
    done = {s: 0 for s in expect}
    for i, (t, prn, sat, raw) in enumerate(ev):
        # CNAV2 and CNAV messages carry the time themselves
        q.decode(t % WEEK, raw, None, sat, mode)
        if i % 7 == 0:
            other.decode(t % WEEK, om.rb(r, len(raw)), None, sat, mode)
        if i+1 < len(ev) and ev[i+1][0] == t:
            continue
        for s, lst in expect.items():
            n = [g for u, g, _ in lst if u <= t]
            lo = sum(g is True for g in n)
            hi = sum(g is not False for g in n)
            got = sum(q.vstatus.get(s, {}).values())
            c.ok(lo <= got <= hi, 'authenticated',
                 lambda: f"{mode} {got} of {lst} at {t}, start {t0}")
            done[s] = got
        c.eq(q.count_valid_sat(), sum(v > 0 for v in done.values()),
             'satellites')
        c.eq(q.nsat[uGNSS.QZS], sum(v > 0 for v in done.values()), 'nsat')
    c.eq(other.count_valid_sat(), 0, 'noise')
    c.sample(f"{mode} {len(prns)} satellites {len(ev)} messages "
             f"{sum(done.values())} authenticated")


class Gnss():
    """ navigation message of a GPS or Galileo satellite """

    def __init__(self, r, kind, prn, iod):
        self.kind, self.prn, self.iod = kind, prn, iod
        t = self.t = 30*r.randrange(20000)
        if kind == 1:
            self.m = [lnav(r, s+1, t+6*s, iod) for s in range(3)]
        elif kind == 2:
            self.m = [cnav(r, m, t+12*s, iod, prn) for s, m in enumerate(
                (10, 11, r.choice(
                [30, 31, 32, 33, 35, 36, 37, 61])))]
        elif kind == 4:
            self.m = []
            for s in range(4):
                b = Bits(244, r.getrandbits(244))
                b.set(0, 6, s+1)
                if s == 0:
                    b.set(6, 6, prn).set(12, 10, iod)
                else:
                    b.set(6, 10, iod)
                self.m.append(b)
        else:
            self.m = []
            for s in range(5):
                b = Bits(128, r.getrandbits(128))
                b.set(0, 6, s+1)
                if s < 4:
                    b.set(6, 10, iod)
                self.m.append(b)

    def lines(self, wn):
        out = []
        for s, b in enumerate(self.m):
            if self.kind == 1:
                h, n = raw10(b), 40
            elif self.kind == 2:
                h, n = rawc(b), 38
            elif self.kind == 4:
                h, n = BW().u(244, b.v).u(4, 0).bytes(), 31
            else:
                w = BW().u(2, 0).u(112, b.v >> 16).u(6, 0).u(2, 2).u(
                    16, b.v & 0xffff).u(102, 0)
                h, n = w.bytes(), 30
            out.append(f"{wn} {self.t+6*s} {self.prn} 0 {n} {h.hex()}\n")
        return out

    def body(self, tow):
        """ signed bits with the time of week of the signature """
        w = BW()
        for s, b in enumerate(self.m):
            x = Bits(b.n, b.v)
            if self.kind == 1:
                x.v &= LN_G[s]
                x.set(30, 17, tow+s)
            elif self.kind == 2:
                x.v &= CN_G[s]
                x.set(20, 17, tow+s)
            elif self.kind == 4:
                x.v &= FN
                x.set((167, 194, 186, 189)[s], 20, tow+10*s)
            elif s == 4:
                x.set(85, 20, tow)
            w.u(x.n, x.v)
        return w

    def free(self):
        """ bits (message, bit) that are not signed, apart from TOW """
        m = LN_G if self.kind == 1 else CN_G if self.kind == 2 else \
            [FN]*4 if self.kind == 4 else [(1 << 128)-1]*5
        out = []
        for s, b in enumerate(self.m):
            out += [(s, k) for k in range(b.n)
                    if not (m[s] >> (b.n-1-k)) & 1]
        return out

    def ident(self, s, k):
        """ bits which identify the message, IOD and TOW """
        if self.kind == 1:
            return 30 <= k < 52 or (s, k) in [
                (a, b) for a, i in ((0, 210), (1, 60), (2, 270))
                for b in range(i, i+8)]
        if self.kind == 2:
            return k < 37 or {0: 70, 1: 38, 2: 60}[s] <= k < \
                {0: 70, 1: 38, 2: 60}[s]+11
        if self.kind == 4:
            t = (167, 194, 186, 189)[s]
            return k < 22 or t <= k < t+20
        return k < 16 or s == 4 and 85 <= k < 105


@chk.case(400, 9000, cpu=200)
def gnss(c):
    """ GPS and Galileo messages authenticated by QZSS L6 """
    r = c.rng
    ids = r.sample(range(1, 256), 2)
    d, sks = keys(c, ids)
    evil = om.ec_key(r)
    q = qznma()
    q.monlevel = c.rng.choice([0, 0, 1, 2])
    q.pubk_bdir = d
    gm, im = r.choice([1, 2]), r.choice([4, 5])
    q.navmode[uGNSS.GPS], q.navmode[uGNSS.GAL] = gm, im
    gp = r.sample(range(1, 33), 3)
    ga = r.sample(range(1, 37), 3)
    nav = []
    for kind, ps in ((1, gp), (2, gp), (4, ga), (5, ga)):
        for p in ps:
            # an IOD can be in use by both message types
            n = {1: 256, 2: 2016}.get(kind, 1024)
            for iod in r.sample(range(min(n, r.choice([6, n]))), 3):
                nav.append(Gnss(r, kind, p, iod))
    x = {}
    alt = {}
    for g in nav:
        k = r.choice(['ok', 'ok', 'signed', 'not signed'])
        sent = g
        if k != 'ok':
            fr = set(g.free())
            alls = [(s, b) for s in range(len(g.m))
                    for b in range(g.m[s].n) if not g.ident(s, b)]
            pool = [y for y in alls if (y in fr) == (k == 'not signed')]
            # preamble and the like do not matter for the message kind
            sent = Gnss.__new__(Gnss)
            sent.__dict__ = dict(g.__dict__)
            sent.m = [Bits(b.n, b.v) for b in g.m]
            if pool:
                s, b = r.choice(pool)
                sent.m[s].v ^= 1 << (sent.m[s].n-1-b)
                c.seen(k, g.kind, s, b//30)
            else:
                k = 'ok'
        alt[id(g)] = k
        x.setdefault(g.kind, []).append(sent)
    for kind, f in ((1, q.load_navmsg_lnav), (2, q.load_navmsg_cnav),
                    (4, q.load_navmsg_fnav), (5, q.load_navmsg_inav)):
        p = f"{c.tmp}/nav{kind}.txt"
        with open(p, 'w', encoding='ascii') as h:
            for g in x[kind]:
                ln = g.lines(2300)
                if r.random() < .4:   # first received incompletely
                    k = r.randrange(len(ln))
                    h.writelines(ln[:k]+ln[k+1:])
                    c.seen('incomplete', kind, k)
                h.writelines(ln)
        f(p)
    exp, sats = {}, {}
    tow = 100
    pend = []
    for g in r.sample(nav, len(nav)):
        key = r.choice(ids)
        t = r.randrange(1, 100000)
        how = r.choice(['ok', 'ok', 'ok', 'signature', 'evil', 'tow', 'iod',
                        'svid', 'reserved'])
        svid = g.prn+(64 if g.kind >= 4 else 0)
        iode2 = g.iod if g.kind <= 2 else 0
        salt = r.getrandbits(16)
        w = BW().u(4, 0).u(20, t).u(8, svid).u(4, g.kind).u(11, g.iod).u(
            11, iode2).u(11, iode2).u(8, key)
        s = sign(evil if how == 'evil' else sks[key],
                 BW().cat(w).cat(g.body(t)).u(16, salt))
        good = alt[id(g)] != 'signed'
        f = {'t': t, 'svid': svid, 'iod': g.iod}
        if how == 'signature':
            s ^= 1 << r.randrange(512)
        elif how == 'tow':
            f['t'] ^= 1 << r.randrange(10)
        elif how == 'iod':
            f['iod'] ^= 1 << r.randrange(8)
        elif how == 'svid':
            f['svid'] ^= 1 << r.randrange(5)
        elif how == 'reserved':
            f['svid'] = r.choice([0, 203, 255, 127, 191])
        good = good and how == 'ok'
        w = BW().u(4, 0).u(20, f['t']).u(8, f['svid']).u(4, g.kind).u(
            11, f['iod']).u(11, iode2).u(11, iode2).u(8, key).u(
            512, s).u(16, salt)
        pend.append(w)
        sat = id2sat(f"{'E' if g.kind >= 4 else 'G'}{g.prn:02d}")
        if good:
            exp[sat, g.iod] = exp.get((sat, g.iod), 0)+1
            if g.kind in (gm, im):
                sats[sat] = True
        c.seen('gnss', g.kind, how, alt[id(g)], good)
        if len(pend) == 2 or g is nav[-1]:
            if len(pend) == 1:
                pend.append(BW().u(605, 0))
            vend = r.choice([3, 3, 3, 3, 5])
            m = BW().u(32, 0x1acffc1d).u(8, r.randrange(193, 203)).u(
                8, (vend << 5) | r.getrandbits(5)).u(1, 0).cat(pend[0]).cat(
                pend[1]).pad(2000)
            if vend == 3:
                q.decode(tow, None, m.bytes(), 0, uNavId.GPS_LNAV)
            else:
                q.decode(tow, None, m.bytes(), 0, uNavId.GPS_LNAV)
                m.put(40, 8, 0x60)
                q.decode(tow, None, m.bytes(), 0, uNavId.GPS_LNAV)
            pend = []
            tow += 1
            got = {(s, i): n for s, v in q.vstatus.items()
                   for i, n in v.items()}
            c.eq(got, exp, 'authenticated', f"{g.kind} {how}")
            c.eq(q.nsat[uGNSS.GPS]+q.nsat[uGNSS.GAL], len(sats), 'nsat',
                 f"{gm} {im}")
            c.eq(q.count_valid_sat(), len({s for s, _ in exp}), 'satellites')
    c.sample(f"{len(exp)} of {len(nav)} authenticated")
