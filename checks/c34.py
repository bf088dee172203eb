""" C34: raw navigation message decoders """
import datetime
from common import Check
from bits import BW
from cssrlib.gnss import id2sat, uGNSS, uTYP
from cssrlib.rawnav import RawNav, rcvDec, rcvOpt

chk = Check('C34', ['src/cssrlib/rawnav.py'],
            rule='streams of sub-frames of several satellites encoded from '
            'tables of the interface documents, with losses, data set '
            'changes and week rollover; distinct by message, result and time')

PI = 3.1415926535898
WEEK = 604800
GPS0, GST0, BDT0 = 315964800, 935280000, 1136073600


def S(n):
    return 2.0**-n


def sc(n):
    return PI*2.0**-n


class F():
    """ data set: raw integers by field name """

    def __init__(self, r, tab):
        self.v = {}
        for name, (fmt, lim) in tab.items():
            n = int(fmt[1:])
            if fmt[0] == 'u':
                lo, hi = 0, (1 << n)-1
            elif fmt[0] == 's':
                lo, hi = -(1 << (n-1)), (1 << (n-1))-1
            else:   # sign and magnitude
                hi = (1 << (n-1))-1
                lo = -hi
            if lim:
                lo, hi = lim
            k = r.random()
            self.v[name] = lo if k < .05 else hi if k < .1 else \
                r.choice([0, -1 if lo < 0 else 1]) if k < .15 else \
                r.randint(lo, hi)

    def __getitem__(self, k):
        return self.v[k]

    def __setitem__(self, k, x):
        self.v[k] = x


def enc(n, fmt, x):
    """ n bit two's complement or sign-magnitude """
    if fmt == 'g':
        return ((1 << (n-1)) | -x) if x < 0 else x
    return x & ((1 << n)-1)


def put(bits, pos, n, v):
    """ list of bits; pos counts from zero """
    for k in range(n):
        bits[pos+k] = (v >> (n-1-k)) & 1


def split(bits, parts, v):
    """ value in several parts [(first bit from 1, count)], MSB first """
    n = sum(p[1] for p in parts)
    v &= (1 << n)-1
    for p, k in parts:
        n -= k
        put(bits, p-1, k, (v >> n) & ((1 << k)-1))


def words(b, nw):
    """ 30 bit words, right aligned in 32 bits """
    out = []
    for w in range(nw):
        out += [0, 0]+b[30*w:30*w+30]
    return pack(out)


def leap(t):
    """ GPS-UTC [s] at a UTC time [s] since 1980-01-06 """
    return sum(t >= k for k in LEAPS)


LEAPS = [(datetime.datetime(y, m, 1)-datetime.datetime(1980, 1, 6)
          ).total_seconds() for y, m in (
    (1981, 7), (1982, 7), (1983, 7), (1985, 7), (1988, 1), (1990, 1),
    (1991, 1), (1992, 7), (1993, 7), (1994, 7), (1996, 1), (1997, 7),
    (1999, 1), (2006, 1), (2009, 1), (2012, 7), (2015, 7), (2017, 1))]


def pack(b):
    b = b+[0]*(-len(b) % 8)
    return bytes(int(''.join(map(str, b[i:i+8])), 2)
                 for i in range(0, len(b), 8))


def rnd(r, n):
    return [r.getrandbits(1) for _ in range(n)]


ECC = {'e': ('u32', None)}


class Family():
    """ message type: transmitter of a satellite and expected result """
    period = 30     # of a frame
    week0 = GPS0
    tabs = {}

    def __init__(self, c, sat, prn, week, tow):
        self.c, self.r, self.sat, self.prn = c, c.rng, sat, prn
        self.week, self.tow = week, tow
        self.used = set()
        self.ds = None

    def newset(self):
        r = self.r
        d = F(r, self.tabs)
        for _ in range(1000):
            iod = self.newiod()
            if iod not in self.used:
                break
        self.used.add(iod)
        d.iod = iod
        # reference time within some hours of now
        now = self.week*WEEK+self.tow
        res = self.tres
        t = now+r.choice([0, 1800, 3600, 7200, -1800, -3600, 9000,
                          r.randint(-10000, 10000)])
        t = t//res*res
        d.toe = t
        self.ds = d
        self.ready(d)

    def ready(self, d):
        pass

    def newiod(self):
        return self.r.randrange(256)

    def spoil(self, msg):
        """ message that must be ignored """
        return None

    def flip(self, msg, bits):
        m = bytearray(msg)
        k = self.r.choice(bits)
        m[k//8] ^= 0x80 >> (k % 8)
        return bytes(m)

    def abst(self, t):
        """ time [s] since GPS epoch """
        return t+self.week0-GPS0


def kepler(x, p):
    """ expected orbit terms """
    return x


class LNav(Family):
    def spoil(self, msg):
        return self.flip(msg, range(2, 10))

    period, tres = 30, 16
    tabs = dict(l2='u2', ura='u4', health='u6', l2p='u1', tgd='s8', af2='s8',
                af1='s16', af0='s22', crs='s16', deln='s16', M0='s32',
                cuc='s16', cus='s16', sqrtA='u32', fit='u1', aodo='u5',
                cic='s16', OMG0='s32', cis='s16', i0='s32', crc='s16',
                omg='s32', OMGd='s24', idot='s14', ih='u2')
    tabs = {k: (v, None) for k, v in tabs.items()} | ECC

    def frame(self):
        d, r = self.ds, self.r
        out = []
        toe = d.toe % WEEK//16
        for s in range(5):
            t = self.tow+6*s
            b = rnd(r, 300)
            put(b, 0, 8, 0x8b)
            put(b, 30, 17, t//6)
            put(b, 49, 3, s+1)
            g = {}
            if s == 0:
                g = dict(wn=([(61, 10)], self.week % 1024),
                         l2=([(71, 2)], d['l2']), ura=([(73, 4)], d['ura']),
                         h=([(77, 6)], d['health']),
                         iodc=([(83, 2), (211, 8)], (d['ih'] << 8) | d.iod),
                         l2p=([(91, 1)], d['l2p']), tgd=([(197, 8)], d['tgd']),
                         toc=([(219, 16)], toe), af2=([(241, 8)], d['af2']),
                         af1=([(249, 16)], d['af1']),
                         af0=([(271, 22)], d['af0']))
            elif s == 1:
                g = dict(iode=([(61, 8)], d.iod), crs=([(69, 16)], d['crs']),
                         dn=([(91, 16)], d['deln']),
                         M0=([(107, 8), (121, 24)], d['M0']),
                         cuc=([(151, 16)], d['cuc']),
                         e=([(167, 8), (181, 24)], d['e']),
                         cus=([(211, 16)], d['cus']),
                         sa=([(227, 8), (241, 24)], d['sqrtA']),
                         toe=([(271, 16)], toe), fit=([(287, 1)], d['fit']),
                         aodo=([(288, 5)], d['aodo']))
            elif s == 2:
                g = dict(cic=([(61, 16)], d['cic']),
                         O=([(77, 8), (91, 24)], d['OMG0']),
                         cis=([(121, 16)], d['cis']),
                         i0=([(137, 8), (151, 24)], d['i0']),
                         crc=([(181, 16)], d['crc']),
                         w=([(197, 8), (211, 24)], d['omg']),
                         Od=([(241, 24)], d['OMGd']),
                         iode=([(271, 8)], d.iod),
                         idot=([(279, 14)], d['idot']))
            for p, v in g.values():
                split(b, p, v)
            out.append((t, s, words(b, 10), d, (self.week, t)))
        return out

    def call(self, rn, week, t, msg):
        return rn.decode_gps_lnav(week, t, self.sat, msg)

    def want(self, got):
        """ got: {part: (time, data set, (week, tow))} last received """
        if not {0, 1, 2} <= set(got) or len({id(got[k][1])
                                             for k in (0, 1, 2)}) > 1:
            return None
        d = got[0][1]
        week, tow = got[0][2]
        iodc = (d['ih'] << 8) | d.iod
        x = dict(code=d['l2'], l2p=d['l2p'], svh=d['health'],
                 sva=[2, 2.8, 4, 5.7, 8, 11.3][d['ura']] if d['ura'] < 6 else
                 2.0**(1+d['ura']/2) if d['ura'] == 6 else
                 2.0**(d['ura']-2), tgd=d['tgd']*S(31), iodc=iodc,
                 iode=d.iod, af0=d['af0']*S(31), af1=d['af1']*S(43),
                 af2=d['af2']*S(55), crs=d['crs']*S(5), crc=d['crc']*S(5),
                 deln=d['deln']*sc(43), M0=d['M0']*sc(31),
                 cuc=d['cuc']*S(29), cus=d['cus']*S(29), cic=d['cic']*S(29),
                 cis=d['cis']*S(29), e=d['e']*S(33),
                 A=(d['sqrtA']*S(19))**2, OMG0=d['OMG0']*sc(31),
                 i0=d['i0']*sc(31), omg=d['omg']*sc(31),
                 OMGd=d['OMGd']*sc(43), idot=d['idot']*sc(43), mode=0,
                 week=d.toe//WEEK, toes=d.toe % WEEK)
        return x, dict(toe=d.toe, toc=d.toe, tot=week*WEEK+tow)


CN = dict(h='u3', top='u11', ed='s5', dA='s26', Adot='s25', deln='s17',
          delnd='s23', M0='s33', omg='s33', isf='u1', esf='u1', OMG0='s33',
          i0='s33', OMGd='s17', idot='s15', cis='s16', cic='s16', crs='s24',
          crc='s24', cus='s21', cuc='s21', n0='s5', n1='u3', n2='u3',
          af0='s26', af1='s20', af2='s10', tgd='s13', c1='s13', c2='s13',
          c3='s13', c4='s13', l1='s13', l2='s13', wnop='u8')
CN = {k: (v, None) for k, v in CN.items()} | {
    'e': ('u33', None), 'dwop': ('s3', (-1, 1)),
    'top': ('u11', (0, 2015))}


def cnav_orbit(d, gps):
    return dict(A=(26559710.0 if gps else 42164200.0)+d['dA']*S(9),
                Adot=d['Adot']*S(21), deln=d['deln']*sc(44),
                delnd=d['delnd']*sc(57), M0=d['M0']*sc(32), e=d['e']*S(34),
                omg=d['omg']*sc(32), OMG0=d['OMG0']*sc(32), i0=d['i0']*sc(32),
                OMGd=(d['OMGd']*S(44)-2.6e-9)*PI, idot=d['idot']*sc(44),
                cis=d['cis']*S(30), cic=d['cic']*S(30), crs=d['crs']*S(8),
                crc=d['crc']*S(8), cus=d['cus']*S(30), cuc=d['cuc']*S(30),
                af0=d['af0']*S(35), af1=d['af1']*S(48), af2=d['af2']*S(60),
                tgd=d['tgd']*S(35), week=d.toe//WEEK, toes=d.toe % WEEK,
                tops=d['top']*300.0,
                urai=[d['n0'], d['n1'], d['n2'], d['ed']])


class CNav(Family):
    def spoil(self, msg):
        return self.flip(msg, range(14))

    period, tres, tabs = 48, 300, CN

    def newiod(self):
        return self.r.getrandbits(30)

    def ready(self, d):
        # the reference time identifies the data set
        while d.toe in self.used:
            d.toe += 300
        self.used.add(d.toe)

    def frame(self):
        d, r = self.ds, self.r
        qz = self.prn > 192
        out = []
        mts = [10, 11]+r.choice([[30], [30, 33], [32, 30], [31, 30, 35],
                                 [30, 37]])
        if qz and r.random() < .3:
            mts = [61 if m == 30 else m for m in mts]
        if r.random() < .4:
            r.shuffle(mts)
        if r.random() < .3:
            mts.insert(r.randint(0, len(mts)), r.choice([12, 15]))
        al = r.getrandbits(1)
        toe = d.toe % WEEK//300
        for s, m in enumerate(mts):
            t = self.tow+12*s
            w = BW().u(8, 0x8b).u(6, self.prn & 63).u(6, m)
            w.u(17, t % WEEK//6).u(1, al)
            if m == 10:
                w.u(13, (self.week+t//WEEK) % 8192).u(3, d['h']).u(
                    11, d['top'])
                w.s(5, d['ed']).u(11, toe)
                for n, k in (('dA', 26), ('Adot', 25), ('deln', 17),
                             ('delnd', 23), ('M0', 33)):
                    w.s(k, d[n])
                w.u(33, d['e']).s(33, d['omg']).u(1, d['isf']).u(1, d['esf'])
            elif m == 11:
                w.u(11, toe)
                for n, k in (('OMG0', 33), ('i0', 33), ('OMGd', 17),
                             ('idot', 15), ('cis', 16), ('cic', 16),
                             ('crs', 24), ('crc', 24), ('cus', 21),
                             ('cuc', 21)):
                    w.s(k, d[n])
            elif m >= 30:
                w.u(11, d['top']).s(5, d['n0']).u(3, d['n1']).u(3, d['n2'])
                w.u(11, toe).s(26, d['af0']).s(20, d['af1']).s(10, d['af2'])
                if m in (30, 61):
                    for n in ('tgd', 'c1', 'c2', 'c3', 'c4'):
                        w.s(13, d[n])
                    for _ in range(8):
                        w.u(8, r.getrandbits(8))
                    w.u(8, (self.week+d['dwop']) % 256)
            while len(w) < 300:
                w.u(1, r.getrandbits(1))
            w.u(4, 0)
            part = {10: 0, 11: 1}.get(m, 2 if m >= 30 else 9)
            out.append((t, part, w.bytes(), d,
                        (self.week+t//WEEK, t % WEEK, m, al, self.week)))
        return out

    def call(self, rn, week, t, msg):
        return rn.decode_gps_cnav(week, t, self.sat, msg)

    def want(self, got):
        if not {0, 1, 2} <= set(got) or len({id(got[k][1])
                                             for k in (0, 1, 2)}) > 1:
            return None
        d = got[0][1]
        if got[2][2][2] not in (30, 61):
            return None
        week, tow, _, al, _ = got[0][2]
        x = cnav_orbit(d, self.prn < 192)
        wop = got[2][2][4]+d['dwop']
        x |= dict(svh=d['h'], mode=1, code=1,
                  integ=(al << 2) | (d['esf'] << 1) | d['isf'], wn_op=wop,
                  isc=[d[n]*S(35) for n in ('c1', 'c2', 'c3', 'c4')]+[0, 0])
        return x, dict(toe=d.toe, toc=d.toe, tot=week*WEEK+tow,
                       top=wop*WEEK+d['top']*300)


class CNav2(Family):
    period, tres, tabs = 18, 300, CN

    def newiod(self):
        return self.r.getrandbits(30)

    def frame(self):
        d, r = self.ds, self.r
        qz = self.prn > 192
        t = self.tow
        w = BW().u(9, t % 7200//18).u(43, r.getrandbits(43))
        w.u(13, self.week % 8192).u(8, t//7200).u(11, d['top'])
        w.u(1, d['h'] & 1).s(5, d['ed']).u(11, d.toe % WEEK//300)
        for n, k in (('dA', 26), ('Adot', 25), ('deln', 17), ('delnd', 23),
                     ('M0', 33)):
            w.s(k, d[n])
        w.u(33, d['e'])
        for n, k in (('omg', 33), ('OMG0', 33), ('i0', 33), ('OMGd', 17),
                     ('idot', 15), ('cis', 16), ('cic', 16), ('crs', 24),
                     ('crc', 24), ('cus', 21), ('cuc', 21), ('n0', 5)):
            w.s(k, d[n])
        w.u(3, d['n1']).u(3, d['n2']).s(26, d['af0']).s(20, d['af1'])
        w.s(10, d['af2']).s(13, d['tgd']).s(13, d['l1']).s(13, d['l2'])
        w.u(1, d['isf']).u(8, (self.week+d['dwop']) % 256).u(1, d['esf'])
        w.u(1252-len(w), r.getrandbits(1252-len(w)))
        page = r.choice([1, 1, 1, 61 if qz else 1, 2, 3, 4, 6])
        w.u(8, self.prn & 255).u(6, page)
        w.u(34, r.getrandbits(34)).u(64, r.getrandbits(64))
        w.u(64, r.getrandbits(64))
        for n in ('c1', 'c2', 'c3', 'c4'):
            # 16+13+7+8+16+13+13+4+8 UTC, 64 iono
            w.s(13, d[n])
        w.pad(1800)
        return [(t, 0, w.bytes(), d, (self.week, t, page))]

    def call(self, rn, week, t, msg):
        return rn.decode_gps_cnav2(week, t, self.sat, msg)

    def want(self, got):
        _, d, (week, tow, page) = got[0]
        if page not in (1, 61):
            return None
        x = cnav_orbit(d, self.prn < 192)
        wop = week+d['dwop']
        integ = d['isf'] | ((d['esf'] << 1) if self.prn > 192 else 0)
        x |= dict(svh=d['h'] & 1, mode=2, code=2, integ=integ, wn_op=wop,
                  isc=[d[n]*S(35) for n in ('c1', 'c2', 'c3', 'c4', 'l2',
                                            'l1')])
        return x, dict(toe=d.toe, toc=d.toe, tot=week*WEEK+tow,
                       top=wop*WEEK+d['top']*300)


GA = dict(M0='s32', sqrtA='u32', OMG0='s32', i0='s32', omg='s32',
          idot='s14', OMGd='s24', deln='s16', cuc='s16', cus='s16', crc='s16',
          crs='s16', sisa='u8', cic='s16', cis='s16', af0='s31', af1='s21',
          af2='s6', e='u32')
GA = {k: (v, None) for k, v in GA.items()}
GA5 = dict(bgda='s10', bgdb='s10', hs1='u2', hs2='u2', d1='u1', d2='u1')
GA5 = {k: (v, None) for k, v in GA5.items()}


def gal_orbit(d):
    s = d['sisa']
    sva = s*.01 if s < 50 else .5+(s-50)*.02 if s < 75 else 1+(s-75)*.04 \
        if s < 100 else 2+(s-100)*.16 if s < 126 else -1 if s == 255 else \
        float('nan')
    return dict(iode=d.iod, iodc=d.iod, sva=sva, M0=d['M0']*sc(31),
                e=d['e']*S(33), A=(d['sqrtA']*S(19))**2,
                OMG0=d['OMG0']*sc(31), i0=d['i0']*sc(31), omg=d['omg']*sc(31),
                idot=d['idot']*sc(43), OMGd=d['OMGd']*sc(43),
                deln=d['deln']*sc(43), cuc=d['cuc']*S(29),
                cus=d['cus']*S(29), crc=d['crc']*S(5), crs=d['crs']*S(5),
                cic=d['cic']*S(29), cis=d['cis']*S(29), af0=d['af0']*S(34),
                af1=d['af1']*S(46), af2=d['af2']*S(59),
                toes=d.toe % WEEK, week=d.toe//WEEK+1024)


class INav(Family):
    period, tres, tabs, week0 = 30, 60, GA, GST0

    def newiod(self):
        return self.r.randrange(1024)

    def frame(self):
        d, r = self.ds, self.r
        x = F(r, GA5)
        toe = d.toe % WEEK//60
        out = []
        for s in [2, 4, 6, 1, 3, 5, 0]:
            t = self.tow+2*len(out)
            w = BW().u(6, s)
            if s in (1, 2, 3, 4):
                w.u(10, d.iod)
            if s == 1:
                w.u(14, toe).s(32, d['M0']).u(32, d['e']).u(32, d['sqrtA'])
            elif s == 2:
                w.s(32, d['OMG0']).s(32, d['i0']).s(32, d['omg']).s(
                    14, d['idot'])
            elif s == 3:
                w.s(24, d['OMGd']).s(16, d['deln']).s(16, d['cuc']).s(
                    16, d['cus']).s(16, d['crc']).s(16, d['crs']).u(
                    8, d['sisa'])
            elif s == 4:
                w.u(6, self.prn).s(16, d['cic']).s(16, d['cis']).u(
                    14, toe).s(31, d['af0']).s(21, d['af1']).s(6, d['af2'])
            elif s == 5:
                w.u(41, r.getrandbits(41)).s(10, x['bgda']).s(
                    10, x['bgdb']).u(2, x['hs1']).u(2, x['hs2']).u(
                    1, x['d1']).u(1, x['d2'])
                w.u(12, self.week % 4096).u(20, t)
            if len(w) < 128:
                w.u(128-len(w), r.getrandbits(128-len(w)))
            v = w.v if hasattr(w, 'v') else int.from_bytes(w.bytes(), 'big')
            m = BW().u(2, 0).u(112, v >> 16).u(6, 0).u(2, 2).u(
                16, v & 0xffff).u(102, r.getrandbits(102)).bytes()
            out.append((t, s, m, d if s < 5 else x, (self.week, t)))
        return out

    def call(self, rn, week, t, msg):
        self.band = self.r.choice([0, 2])
        return rn.decode_gal_inav(week, t, self.sat, self.band, msg)

    def want(self, got):
        last = self.last
        if last not in (1, 2, 3, 4, 5) or not {1, 2, 3, 4, 5} <= set(got) or \
                len({id(got[k][1]) for k in (1, 2, 3, 4)}) > 1:
            return None
        d, x = got[1][1], got[5][1]
        week, tow = got[5][2]
        y = gal_orbit(d)
        y |= dict(mode=0, tgd=x['bgdb']*S(32), tgd_b=x['bgda']*S(32),
                  code=(1 << 9) | (1 if self.band == 0 else 4),
                  svh=(x['hs1'] << 7) | (x['d1'] << 6) | (x['hs2'] << 1) |
                  x['d2'])
        return y, dict(toe=d.toe, toc=d.toe, tot=week*WEEK+tow)


class FNav(Family):
    period, tres, week0 = 50, 60, GST0
    tabs = GA | GA5

    def newiod(self):
        return self.r.randrange(1024)

    def frame(self):
        d, r = self.ds, self.r
        toe = d.toe % WEEK//60
        out = []
        for s in (1, 2, 3, 4, 5):
            t = self.tow+10*(s-1)
            w = BW().u(6, s if s < 5 else r.choice([5, 6, 63]))
            if s == 1:
                w.u(6, self.prn).u(10, d.iod).u(14, toe).s(31, d['af0']).s(
                    21, d['af1']).s(6, d['af2']).u(8, d['sisa']).u(
                    41, r.getrandbits(41)).s(10, d['bgda']).u(
                    2, d['hs1']).u(12, self.week % 4096).u(20, t).u(
                    1, d['d1'])
            elif s == 2:
                w.u(10, d.iod).s(32, d['M0']).s(24, d['OMGd']).u(
                    32, d['e']).u(32, d['sqrtA']).s(32, d['OMG0']).s(
                    14, d['idot'])
            elif s == 3:
                w.u(10, d.iod).s(32, d['i0']).s(32, d['omg']).s(
                    16, d['deln']).s(16, d['cuc']).s(16, d['cus']).s(
                    16, d['crc']).s(16, d['crs']).u(14, toe)
            elif s == 4:
                w.u(10, d.iod).s(16, d['cic']).s(16, d['cis'])
            if len(w) < 248:
                w.u(248-len(w), r.getrandbits(248-len(w)))
            out.append((t, s, w.bytes(), d, (self.week, t)))
        return out

    def call(self, rn, week, t, msg):
        return rn.decode_gal_fnav(week, t, self.sat, 1, msg)

    def want(self, got):
        if self.last == 5 or not {1, 2, 3, 4} <= set(got) or \
                len({id(got[k][1]) for k in (1, 2, 3, 4)}) > 1:
            return None
        d = got[1][1]
        week, tow = got[1][2]
        y = gal_orbit(d)
        y |= dict(mode=1, tgd=d['bgda']*S(32), tgd_b=0.0, code=2 | (1 << 8),
                  svh=(d['hs1'] << 4) | (d['d1'] << 3))
        return y, dict(toe=d.toe, toc=d.toe, tot=week*WEEK+tow)


D1 = dict(svh='u1', aodc='u5', ura='u4', tgd='s10', tgd_b='s10', af2='s11',
          af0='s24', af1='s22', iode='u5', deln='s16', cuc='s18', M0='s32',
          cus='s18', crc='s18', crs='s18', sqrtA='u32', i0='s32', cic='s18',
          OMGd='s24', cis='s18', idot='s14', OMG0='s32', omg='s32')
D1 = {k: (v, None) for k, v in D1.items()} | {'e': ('u32', None)}


def d12(d, week):
    u = d['ura']
    return dict(svh=d['svh'], iodc=d['aodc'], iode=d['iode'],
                sva=[2, 2.8, 4, 5.7, 8, 11.3][u] if u < 6 else 16.0
                if u == 6 else 2.0**(u-2), tgd=d['tgd']*1e-10,
                tgd_b=d['tgd_b']*1e-10, af0=d['af0']*S(33),
                af1=d['af1']*S(50), af2=d['af2']*S(66), deln=d['deln']*sc(43),
                cuc=d['cuc']*S(31), cus=d['cus']*S(31), cic=d['cic']*S(31),
                cis=d['cis']*S(31), crc=d['crc']*S(6), crs=d['crs']*S(6),
                M0=d['M0']*sc(31), e=d['e']*S(33), A=(d['sqrtA']*S(19))**2,
                i0=d['i0']*sc(31), OMGd=d['OMGd']*sc(43),
                idot=d['idot']*sc(43), OMG0=d['OMG0']*sc(31),
                omg=d['omg']*sc(31), toes=d.toe % WEEK, week=d.toe//WEEK,
                mode=0)


class BD1(Family):
    def spoil(self, msg):
        return self.flip(msg, range(11))

    period, tres, tabs, week0 = 30, 8, D1, BDT0

    def newiod(self):
        return self.r.getrandbits(30)

    def parts(self, d):
        toe = d.toe % WEEK//8
        return [
            dict(svh=[(43, 1)], aodc=[(44, 5)], ura=[(49, 4)],
                 wn=([(61, 13)], self.week), toc=([(74, 9), (91, 8)], toe),
                 tgd=[(99, 10)], tgd_b=[(109, 4), (121, 6)], af2=[(215, 11)],
                 af0=[(226, 7), (241, 17)], af1=[(258, 5), (271, 17)],
                 iode=[(288, 5)]),
            dict(deln=[(43, 10), (61, 6)], cuc=[(67, 16), (91, 2)],
                 M0=[(93, 20), (121, 12)], e=[(133, 10), (151, 22)],
                 cus=[(181, 18)], crc=[(199, 4), (211, 14)],
                 crs=[(225, 8), (241, 10)], sqrtA=[(251, 12), (271, 20)],
                 toe=([(291, 2)], toe >> 15)),
            dict(toe=([(43, 10), (61, 5)], toe), i0=[(66, 17), (91, 15)],
                 cic=[(106, 7), (121, 11)], OMGd=[(132, 11), (151, 13)],
                 cis=[(164, 9), (181, 9)], idot=[(190, 13), (211, 1)],
                 OMG0=[(212, 21), (241, 11)], omg=[(252, 11), (271, 21)]),
            {}, {}]

    def frame(self):
        d, r = self.ds, self.r
        out = []
        for s, g in enumerate(self.parts(d)):
            t = self.tow+6*s
            b = rnd(r, 300)
            put(b, 0, 11, 0x712)
            put(b, 15, 3, s+1)
            split(b, [(19, 8), (31, 12)], t)
            for k, p in g.items():
                if isinstance(p, tuple):
                    split(b, p[0], p[1])
                else:
                    split(b, p, d[k])
            # 300 bits in 40 bytes, without padding: as from the receiver
            out.append((t, s, pack(b+[0]*20), d, (self.week, t)))
        return out

    def call(self, rn, week, t, msg):
        return rn.decode_bds_d1(week, t, self.sat, msg)

    def want(self, got):
        if self.last > 2 or not {0, 1, 2} <= set(got):
            return None
        t = [got[k][0] for k in (0, 1, 2)]
        if t[1] != t[0]+6 or t[2] != t[1]+6:
            return None
        d = got[0][1]
        week, tow = got[0][2]
        return d12(d, week) | dict(flag=1), dict(toe=d.toe, toc=d.toe,
                                                 tot=week*WEEK+tow)


class BD2(BD1):
    def frame(self):
        d, r = self.ds, self.r
        toe = d.toe % WEEK//8
        pg = [dict(svh=[(47, 1)], aodc=[(48, 5)], ura=[(61, 4)],
                   wn=([(65, 13)], self.week), toc=([(78, 5), (91, 12)], toe),
                   tgd=[(103, 10)], tgd_b=[(121, 10)]), {},
              dict(af0=[(101, 12), (121, 12)], af1=([(133, 4)],
                                                    d['af1'] >> 18)),
              dict(af1=([(47, 6), (61, 12)], d['af1']),
                   af2=[(73, 10), (91, 1)], iode=[(92, 5)], deln=[(97, 16)],
                   cuc=([(121, 14)], d['cuc'] >> 4)),
              dict(cuc=([(47, 4)], d['cuc']),
                   M0=[(51, 2), (61, 22), (91, 8)], cus=[(99, 14), (121, 4)],
                   e=([(125, 10)], d['e'] >> 22)),
              dict(e=([(47, 6), (61, 16)], d['e']),
                   sqrtA=[(77, 6), (91, 22), (121, 4)],
                   cic=([(125, 10)], d['cic'] >> 8)),
              dict(cic=([(47, 6), (61, 2)], d['cic']), cis=[(63, 18)],
                   toe=([(81, 2), (91, 15)], toe),
                   i0=([(106, 7), (121, 14)], d['i0'] >> 11)),
              dict(i0=([(47, 6), (61, 5)], d['i0']), crc=[(66, 17), (91, 1)],
                   crs=[(92, 18)], OMGd=([(110, 3), (121, 16)],
                                         d['OMGd'] >> 5)),
              dict(OMGd=([(47, 5)], d['OMGd']),
                   OMG0=[(52, 1), (61, 22), (91, 9)],
                   omg=([(100, 13), (121, 14)], d['omg'] >> 5)),
              dict(omg=([(47, 5)], d['omg']), idot=[(52, 1), (61, 13)])]
        out = []
        for s, g in enumerate(pg):
            t = self.tow+3*s
            b = rnd(r, 160)
            put(b, 0, 11, 0x712)
            put(b, 15, 3, 1)
            split(b, [(19, 8), (31, 12)], t)
            put(b, 42, 4, s+1)
            for k, p in g.items():
                if isinstance(p, tuple):
                    split(b, p[0], p[1])
                else:
                    split(b, p, d[k])
            out.append((t, s, pack(b+rnd(r, 160)), d, (self.week, t)))
        b = rnd(r, 320)   # other subframe
        put(b, 0, 11, 0x712)
        put(b, 15, 3, r.choice([2, 3, 4, 5]))
        out.insert(1, (self.tow+.6, 99, pack(b), d, None))
        return out

    def call(self, rn, week, t, msg):
        return rn.decode_bds_d2(week, t, self.sat, msg)

    def want(self, got):
        k = [0]+list(range(2, 10))
        if self.last == 99 or not set(k) <= set(got):
            return None
        t0 = got[0][0]
        if any(got[i][0] != t0+3*i for i in k):
            return None
        d = got[0][1]
        week, tow = got[0][2]
        return d12(d, week) | dict(flag=2), dict(toe=d.toe, toc=d.toe,
                                                 tot=week*WEEK+tow)


BC = dict(dA='s26', Adot='s25', deln='s17', delnd='s23', M0='s33', omg='s33',
          OMG0='s33', i0='s33', OMGd='s19', idot='s15', cis='s16', cic='s16',
          crs='s24', crc='s24', cus='s21', cuc='s21', a0='s25', a1='s22',
          a2='s11', t1='s12', t2='s12', t3='s12', t4='s12', hs='u2',
          f1='u3', f2='u3', ih='u2')
BC = {k: (v, None) for k, v in BC.items()} | {
    'e': ('u33', None), 'sat': ('u2', (1, 3)),
    'sm': ('s4', None), 'oe': ('u5', (0, 15)), 'ocb': ('s5', (0, 15)),
    'oc1': ('s3', (0, 3)), 'oc2': ('s3', (0, 3)), 'top': ('u11', (0, 2015))}


class BCnav(Family):
    tres, tabs, week0 = 300, BC, BDT0
    # frames of several messages; the first identifies the time

    def eph1(self, w, d):
        w.u(11, d.toe % WEEK//300).u(2, d['sat']).s(26, d['dA']).s(
            25, d['Adot']).s(17, d['deln']).s(23, d['delnd']).s(
            33, d['M0']).u(33, d['e']).s(33, d['omg'])
        return w

    def eph2(self, w, d):
        for n, k in (('OMG0', 33), ('i0', 33), ('OMGd', 19), ('idot', 15),
                     ('cis', 16), ('cic', 16), ('crs', 24), ('crc', 24),
                     ('cus', 21), ('cuc', 21)):
            w.s(k, d[n])
        return w

    def clk(self, w, d):
        return w.u(11, d.toe % WEEK//300).s(25, d['a0']).s(22, d['a1']).s(
            11, d['a2'])

    def sis(self, w, d):
        return w.u(11, d['top']).s(5, d['ocb']).s(3, d['oc1']).s(3, d['oc2'])

    def orbit(self, d):
        return dict(A=(27906100.0 if d['sat'] == 3 else 42162200.0) +
                    d['dA']*S(9), Adot=d['Adot']*S(21), sattype=d['sat'],
                    deln=d['deln']*sc(44), delnd=d['delnd']*sc(57),
                    M0=d['M0']*sc(32), e=d['e']*S(34), omg=d['omg']*sc(32),
                    OMG0=d['OMG0']*sc(32), i0=d['i0']*sc(32),
                    OMGd=d['OMGd']*sc(44), idot=d['idot']*sc(44),
                    cis=d['cis']*S(30), cic=d['cic']*S(30), crs=d['crs']*S(8),
                    crc=d['crc']*S(8), cus=d['cus']*S(30), cuc=d['cuc']*S(30),
                    af0=d['a0']*S(34), af1=d['a1']*S(50), af2=d['a2']*S(66),
                    toes=d.toe % WEEK, week=d.toe//WEEK, sismai=d['sm'],
                    tops=d['top']*300.0, svh=d['hs'])


class B1C(BCnav):
    period = 18

    def frame(self):
        d, r = self.ds, self.r
        bad = r.random() < .1    # IODC of other data
        w = BW().u(13, self.week).u(8, self.tow//3600)
        w.u(10, ((d['ih'] << 8) | d.iod) ^ (1 if bad else 0)).u(8, d.iod)
        self.eph1(w, d)
        self.eph2(w, d)
        self.clk(w, d)
        w.s(12, d['t1']).s(12, d['t2']).s(12, d['t3'])
        w.u(31, r.getrandbits(31)).u(8, r.getrandbits(8))
        page = r.choice([1, 1, 1, 2, 3, 4, 5])
        w.u(6, page).u(2, d['hs']).u(3, d['f1']).s(4, d['sm'])
        if page in (1, 3):
            w.u(5, d['oe'])
        self.sis(w, d)
        w.pad(600+8+264)
        w.u(8, self.tow % 3600//18)
        return [(self.tow, 0, w.bytes(), d, (self.week, self.tow, page, bad))]

    def call(self, rn, week, t, msg):
        return rn.decode_bds_b1c(week, t, self.sat, msg)

    def want(self, got):
        _, d, (week, tow, page, bad) = got[0]
        if page != 1 or bad:
            return None
        x = self.orbit(d) | dict(
            iode=d.iod, iodc=(d['ih'] << 8) | d.iod, mode=1, integ=d['f1'],
            tgd=d['t3']*S(34), tgd_b=d['t1']*S(34),
            isc=[d['t2']*S(34), 0, 0, 0, 0, 0],
            sisai=[d['oe'], d['ocb'], d['oc1'], d['oc2']])
        return x, dict(toe=d.toe, toc=d.toe, tot=week*WEEK+tow)


class B2a(BCnav):
    period = 18

    def frame(self):
        d, r = self.ds, self.r
        out = []
        ms = [10, 11, 30]+r.choice([[40, 34], [34, 40], [40], [40, 31]])
        for s, m in enumerate(ms):
            t = self.tow+3*s
            w = BW().u(6, self.prn).u(6, m).u(18, t//3)
            if m == 10:
                w.u(13, self.week).u(3, d['f1']).s(4, d['sm']).u(
                    3, d['f2']).u(8, d.iod)
                self.eph1(w, d)
            else:
                w.u(2, d['hs']).u(10, r.getrandbits(10))
                if m == 11:
                    self.eph2(w, d)
                elif m == 30:
                    self.clk(w, d)
                    w.u(10, (d['ih'] << 8) | d.iod).s(12, d['t1']).s(
                        12, d['t2']).u(74, r.getrandbits(74)).s(12, d['t3'])
                elif m == 34:
                    self.sis(w, d)
                elif m == 40:
                    w.u(5, d['oe'])
                    self.sis(w, d)
            w.u(320-len(w), r.getrandbits(320-len(w)))
            out.append((t, m, w.bytes(), d, (self.week, t)))
        return out

    def call(self, rn, week, t, msg):
        return rn.decode_bds_b2a(week, t, self.sat, msg)

    def want(self, got):
        if self.last == 31 or not {10, 11, 30, 40} <= set(got):
            return None
        t = [got[k][0] for k in (10, 11, 30)]
        if t[1] != t[0]+3 or t[2] != t[1]+3:
            return None
        d, x = got[10][1], got[40][1]
        week, tow = got[10][2]
        y = self.orbit(d) | dict(
            iode=d.iod, iodc=(d['ih'] << 8) | d.iod, mode=2,
            integ=(d['f1'] << 3)+d['f2'], tgd=d['t3']*S(34),
            tgd_b=d['t1']*S(34), isc=[0, d['t2']*S(34), 0, 0, 0, 0],
            tops=x['top']*300.0,
            sisai=[x['oe'], x['ocb'], x['oc1'], x['oc2']])
        return y, dict(toe=d.toe, toc=d.toe, tot=week*WEEK+tow)


class B2b(BCnav):
    period = 6

    def frame(self):
        d, r = self.ds, self.r
        out = []
        for s, m in enumerate([10, 30, 40]):
            t = self.tow+s
            w = BW().u(12, r.getrandbits(12)).u(6, m).u(20, t)
            if m == 10:
                w.u(4, r.getrandbits(4))
                self.eph1(w, d)
                self.eph2(w, d)
                w.u(3, d['f1']).s(4, d['sm'])
            elif m == 30:
                w.u(13, self.week).u(4, r.getrandbits(4))
                self.clk(w, d)
                w.s(12, d['t4']).u(74, r.getrandbits(74)).u(
                    97, r.getrandbits(97)).u(138, r.getrandbits(138))
                self.sis(w, d)
                w.u(5, d['oe']).u(2, d['hs'])
            w.u(496-len(w), r.getrandbits(496-len(w)))
            out.append((t, m, w.bytes(), d, (self.week, t)))
        if r.random() < .3:
            # another message type
            m = out[2][2]
            w = BW().u(12, 0).u(6, r.choice([7, 63])).u(20, self.tow+3)
            w.u(496-len(w), r.getrandbits(496-len(w)))
            out.append((self.tow+3, 99, w.bytes(), d, None))
        return out

    def call(self, rn, week, t, msg):
        return rn.decode_bds_b2b(week, t, self.sat, msg)

    def want(self, got):
        if self.last == 99 or not {10, 30} <= set(got):
            return None
        if got[30][0] != got[10][0]+1:
            return None
        d = got[10][1]
        week, tow = got[10][2]
        y = self.orbit(d) | dict(
            mode=3, integ=d['f1'], tgd=d['t4']*S(34),
            sisai=[d['oe'], d['ocb'], d['oc1'], d['oc2']])
        return y, dict(toe=d.toe, toc=d.toe, tot=week*WEEK+tow)


IR = dict(af0='s22', af1='s16', af2='s8', ura='u4', tgd='s8', deln='s22',
          svh='u2', cuc='s15', cus='s15', cic='s15', cis='s15', crc='s15',
          crs='s15', idot='s14', M0='s32', e='u32', sqrtA='u32', OMG0='s32',
          omg='s32', OMGd='s22', i0='s32')
IR = {k: (v, None) for k, v in IR.items()}


class IRn(Family):
    period, tres, tabs = 48, 16, IR

    def frame(self):
        d, r = self.ds, self.r
        toe = d.toe % WEEK//16
        out = []
        for s in range(4):
            t = self.tow+12*s
            w = BW().u(8, 0x8b).u(17, t//12).u(2, r.getrandbits(2)).u(
                2, s).u(1, 0)
            if s == 0:
                w.u(10, self.week % 1024).s(22, d['af0']).s(16, d['af1']).s(
                    8, d['af2']).u(4, d['ura']).u(16, toe).s(8, d['tgd']).s(
                    22, d['deln']).u(8, d.iod).u(10, r.getrandbits(10)).u(
                    2, d['svh'])
                for n in ('cuc', 'cus', 'cic', 'cis', 'crc', 'crs'):
                    w.s(15, d[n])
                w.s(14, d['idot'])
            elif s == 1:
                w.s(32, d['M0']).u(16, toe).u(32, d['e']).u(
                    32, d['sqrtA']).s(32, d['OMG0']).s(32, d['omg']).s(
                    22, d['OMGd']).s(32, d['i0'])
            w.u(320-len(w), r.getrandbits(320-len(w)))
            out.append((t, s, w.bytes(), d, (self.week, t)))
        return out

    def call(self, rn, week, t, msg):
        return rn.decode_irn_lnav(week, t, self.sat, msg)

    def want(self, got):
        if self.last > 1 and self.last != 2 or not {0, 1} <= set(got):
            return None
        if got[1][0] != got[0][0]+12:
            return None
        d = got[0][1]
        week, tow = got[0][2]
        u = d['ura']
        y = dict(af0=d['af0']*S(31), af1=d['af1']*S(43), af2=d['af2']*S(55),
                 urai=u, sva=[2, 2.8, 4, 5.7, 8, 11.3][u] if u < 6 else 16.0
                 if u == 6 else 2.0**(u-2), tgd=d['tgd']*S(31),
                 deln=d['deln']*sc(41), iode=d.iod, iodc=d.iod, svh=d['svh'],
                 cuc=d['cuc']*S(28), cus=d['cus']*S(28), cic=d['cic']*S(28),
                 cis=d['cis']*S(28), crc=d['crc']*S(4), crs=d['crs']*S(4),
                 idot=d['idot']*sc(43), M0=d['M0']*sc(31), e=d['e']*S(33),
                 A=(d['sqrtA']*S(19))**2, OMG0=d['OMG0']*sc(31),
                 omg=d['omg']*sc(31), OMGd=d['OMGd']*sc(41),
                 i0=d['i0']*sc(31), toes=d.toe % WEEK, week=d.toe//WEEK,
                 mode=0)
        return y, dict(toe=d.toe, toc=d.toe, tot=week*WEEK+tow)


IL = dict(svh='u1', ura='s5', dA='s26', Adot='s26', deln='s19', delnd='s23',
          M0='s33', omg='s33', OMG0='s33', OMGd='s25', i0='s33', idot='s15',
          cis='s16', cic='s16', crs='s24', crc='s24', cus='s21', cuc='s21',
          af0='s29', af1='s22', af2='s15', tgd='s12', c1='s12', c2='s12',
          rsf='u1', e='u33')
IL = {k: (v, None) for k, v in IL.items()}


class IRL1(Family):
    period, tres, tabs, week0 = 18, 300, IL, GST0

    def newiod(self):
        return self.r.getrandbits(30)

    def frame(self):
        d, r = self.ds, self.r
        t = self.tow
        other = r.random() < .1
        w = BW().u(9, t % 7200//18).u(43, r.getrandbits(43))
        w.u(13, self.week).u(8, t//7200).u(1, 0)
        w.u(1, d['svh']).u(4, d.iod & 15).s(5, d['ura']).u(
            11, d.toe % WEEK//300).s(26, d['dA']).s(26, d['Adot']).s(
            19, d['deln']).s(23, d['delnd']).s(33, d['M0']).u(33, d['e'])
        for n, k in (('omg', 33), ('OMG0', 33), ('OMGd', 25), ('i0', 33),
                     ('idot', 15), ('cis', 16), ('cic', 16), ('crs', 24),
                     ('crc', 24), ('cus', 21), ('cuc', 21), ('af0', 29),
                     ('af1', 22), ('af2', 15), ('tgd', 12), ('c1', 12),
                     ('c2', 12)):
            w.s(k, d[n])
        w.u(1, d['rsf']).u(3, 0).u(6, self.prn % 14+1 if other else self.prn)
        w.u(1252-len(w), r.getrandbits(1252-len(w)))
        w.u(6, r.choice([0, 5, 6, 8, 10, 17, 33])).u(1, 0)
        w.u(241, r.getrandbits(241))
        w.u(1800-len(w), r.getrandbits(1800-len(w)))
        return [(t, 0, w.bytes(), d, (self.week, t, other))]

    def call(self, rn, week, t, msg):
        return rn.decode_irn_l1nav(week, t, self.sat, msg)

    def want(self, got):
        _, d, (week, tow, other) = got[0]
        if other:
            return None
        u = d['ura']
        y = dict(svh=d['svh'], iode=d.iod & 15, iodc=d.iod & 15, urai=u,
                 sva=2.0**(1+u/2) if u < 1 or u == 6 else
                 [0, 2.8, 4, 5.7, 8, 11.3][u] if u < 6 else 2.0**(u-2),
                 A=42164200.0+d['dA']*S(9), Adot=d['Adot']*S(21),
                 deln=d['deln']*sc(44), delnd=d['delnd']*sc(57),
                 M0=d['M0']*sc(32), e=d['e']*S(34), omg=d['omg']*sc(32),
                 OMG0=d['OMG0']*sc(32), OMGd=d['OMGd']*sc(44),
                 i0=d['i0']*sc(32), idot=d['idot']*sc(44),
                 cis=d['cis']*S(30), cic=d['cic']*S(30), crs=d['crs']*S(8),
                 crc=d['crc']*S(8), cus=d['cus']*S(30), cuc=d['cuc']*S(30),
                 af0=d['af0']*S(35), af1=d['af1']*S(50), af2=d['af2']*S(66),
                 tgd=d['tgd']*S(35), integ=d['rsf'],
                 isc=[0, 0, 0, 0, d['c2']*S(35), d['c1']*S(35)],
                 toes=d.toe % WEEK, week=d.toe//WEEK, mode=2, code=2)
        return y, dict(toe=d.toe, toc=d.toe, tot=week*WEEK+tow)


class Glo(Family):
    """ FDMA; times are UTC """
    period, tres = 30, 900
    tabs = {k: (v, None) for k, v in dict(
        p1='u2', h='u5', m='u6', s='u1', vx='g24', ax='g5', x='g27', bn='u3',
        p2='u1', vy='g24', ay='g5', y='g27', p3='u1', gam='g11', p='u2',
        ln='u1', vz='g24', az='g5', z='g27', tau='g22', dtau='g5', en='u5',
        p4='u1', ft='u4', nt='u11', n='u5', mm='u2', tc='g32', n4='u5',
        tg='g22').items()}

    def newiod(self):
        return self.r.getrandbits(30)

    def tk(self):
        """ seconds of the day in Moscow of the frame start """
        return (self.tow+10800) % 86400

    def frame(self):
        d, r = self.ds, self.r
        k = self.tk()
        out = []
        for s in range(1, 16):
            if s > 6 and s < 14:
                continue
            w = BW().u(1, 0).u(4, s)
            if s == 1:
                w.u(2, 0).u(2, d['p1']).u(5, k//3600).u(6, k//60 % 60).u(
                    1, k % 60//30).g(24, d['vx']).g(5, d['ax']).g(
                    27, d['x'])
            elif s == 2:
                w.u(3, d['bn']).u(1, d['p2']).u(
                    7, (d.toe+10800) % 86400//900).u(5, 0).g(
                    24, d['vy']).g(5, d['ay']).g(27, d['y'])
            elif s == 3:
                w.u(1, d['p3']).g(11, d['gam']).u(1, 0).u(2, d['p']).u(
                    1, d['ln']).g(24, d['vz']).g(5, d['az']).g(27, d['z'])
            elif s == 4:
                w.g(22, d['tau']).g(5, d['dtau']).u(5, d['en']).u(
                    14, 0).u(1, d['p4']).u(4, d['ft']).u(3, 0).u(
                    11, d['nt']).u(5, d['n']).u(2, d['mm'])
            elif s == 5:
                w.u(11, d['nt']).g(32, d['tc']).u(1, 0).u(5, d['n4']).g(
                    22, d['tg']).u(1, 0)
            w.u(96-len(w), r.getrandbits(96-len(w)))
            out.append((self.tow+2*(s-1), s, w.bytes(), d,
                        (self.week, self.tow)))
        return out

    def call(self, rn, week, t, msg):
        self.frq = self.r.randint(-7, 6)
        # GPS time of the receiver
        return rn.decode_glo_fdma(week, t, self.sat, msg, self.frq)

    def want(self, got):
        if self.last > 5 or not {1, 2, 3, 4} <= set(got):
            return None
        t = [got[k][0] for k in (1, 2, 3, 4)]
        if any(t[k+1] != t[k]+2 for k in range(3)):
            return None
        d = got[1][1]
        week, tow = got[1][2]
        km = 1e3
        y = dict(pos=[d[k]*S(11)*km for k in 'xyz'],
                 vel=[d['v'+k]*S(20)*km for k in 'xyz'],
                 acc=[d['a'+k]*S(30)*km for k in 'xyz'],
                 gamn=d['gam']*S(40), taun=d['tau']*S(30),
                 dtaun=d['dtau']*S(30), svh=d['bn'], age=d['en'],
                 sva=d['ft'], frq=self.frq,
                 iode=(d.toe+10800) % 86400//900,
                 flag=(d['mm'] << 7) | (d['p4'] << 6) | (d['p3'] << 5) |
                 (d['p2'] << 4) | (d['p1'] << 2) | d['p'], mode=0)
        return y, dict(toe=d.toe+leap(d.toe),
                       tof=week*WEEK+tow+leap(week*WEEK+tow))


class Sbs(Family):
    period, tres = 60, 16
    tabs = {k: (v, None) for k, v in dict(
        ura='u4', x='s30', y='s30', z='s25', vx='s17', vy='s17', vz='s18',
        ax='s10', ay='s10', az='s10', f0='s12', f1='s8').items()}

    def frame(self):
        d, r = self.ds, self.r
        other = r.random() < .2
        w = BW().u(8, r.choice([0x53, 0x9a, 0xc6])).u(
            6, r.choice([1, 2, 17, 63, 8, 11]) if other else 9).u(8, d.iod)
        w.u(13, d.toe % 86400//16).u(4, d['ura']).s(30, d['x']).s(
            30, d['y']).s(25, d['z']).s(17, d['vx']).s(17, d['vy']).s(
            18, d['vz']).s(10, d['ax']).s(10, d['ay']).s(10, d['az']).s(
            12, d['f0']).s(8, d['f1'])
        w.u(256-len(w), r.getrandbits(256-len(w)))
        return [(self.tow, 0, w.bytes(), d, (self.week, self.tow, other))]

    def spoil(self, msg):
        return bytes([msg[0] ^ (1 << self.r.randrange(8))])+msg[1:]

    def call(self, rn, week, t, msg):
        return rn.decode_sbs_l1(week, t, self.sat, msg)

    def want(self, got):
        _, d, (week, tow, other) = got[0]
        if other:
            return None
        u = d['ura']
        y = dict(iodn=d.iod, svh=int(u == 15), mode=0,
                 sva=[2, 2.8, 4, 5.7, 8, 11.3, 16][u] if u < 7 else
                 2.0**(u-2) if u < 15 else 0,
                 pos=[d['x']*.08, d['y']*.08, d['z']*.4],
                 vel=[d['vx']*.000625, d['vy']*.000625, d['vz']*.004],
                 acc=[d['ax']*.0000125, d['ay']*.0000125, d['az']*.0000625],
                 af0=d['f0']*S(31), af1=d['f1']*S(40))
        return y, dict(t0=d.toe, tof=week*WEEK+tow)


class GloCdma(Family):
    """ L1OC, L3OC; times are UTC """
    l1 = True
    tabs = {k: (v, None) for k, v in dict(
        hl='u1', ll='u1', p1='u4', p2='u1', kp='u2', a='u1', m='u3', ps='u6',
        ee='u8', et='u8', re='u2', rt='u2', fe='g5', ft='g5', tau='g32',
        gam='g19', beta='g15', tc='g40', dtc='g13', x='g40', y='g40',
        z='g40', vx='g35', vy='g35', vz='g35', ax='g15', ay='g15', az='g15',
        dx='g13', dy='g13', dz='g13', dt='g18', tg='g30').items()}
    period, tres = 30, 90

    def newiod(self):
        return self.r.getrandbits(30)

    def newset(self):
        if self.ds is None:
            super().newset()

    def day(self, t):
        """ N4, NT and second of day in Moscow of UTC since 1980-01-06 """
        x = datetime.datetime(1980, 1, 6)+datetime.timedelta(
            seconds=t+10800)
        y0 = x.year-(x.year-1996) % 4
        d = (x-datetime.datetime(y0, 1, 1)).days
        return (y0-1996)//4+1, d+1, (x.hour*60+x.minute)*60+x.second

    def service(self, w, t):
        d = self.ds
        s = self.day(t)[2]
        if not self.l1:
            w.u(15, s//3)
        w.u(6, self.prn).u(1, d['hl']).u(1, d['ll']).u(4, d['p1']).u(
            1, d['p2']).u(2, d['kp']).u(1, d['a'])
        if self.l1:
            w.u(16, s//2)
        return w

    def frame(self):
        d, r = self.ds, self.r
        out = []
        n4, nt, tb = self.day(d.toe)
        for s, m in enumerate(r.choice([[10, 11, 12], [10, 11, 12, 20],
                                        [12, 10, 11]])):
            t = self.tow+6*s
            w = BW().u(12, 0x5f1) if self.l1 else BW().u(20, 0x0494e)
            w.u(6, m)
            self.service(w, self.week*WEEK+t)
            if m == 10:
                w.u(5, n4).u(11, nt).u(3, d['m']).u(6, d['ps']).u(
                    10, tb//90).u(8, d['ee']).u(8, d['et']).u(
                    2, d['re']).u(2, d['rt']).g(5, d['fe']).g(
                    5, d['ft']).g(32, d['tau']).g(19, d['gam']).g(
                    15, d['beta']).g(40, d['tc']).g(13, d['dtc'])
            elif m == 11:
                for n, k in (('x', 40), ('y', 40), ('z', 40), ('vx', 35),
                             ('vy', 35)):
                    w.g(k, d[n])
            elif m == 12:
                for n, k in (('vz', 35), ('ax', 15), ('ay', 15), ('az', 15),
                             ('dx', 13), ('dy', 13), ('dz', 13), ('dt', 18),
                             ('tg', 30)):
                    w.g(k, d[n])
            n = 250 if self.l1 else 300
            w.u(n-len(w), r.getrandbits(n-len(w)))
            out.append((t, m, w.bytes(), d, (self.week, t)))
        return out

    def spoil(self, msg):
        return self.flip(msg, range(12 if self.l1 else 20))

    def call(self, rn, week, t, msg):
        f = rn.decode_glo_l1oc if self.l1 else rn.decode_glo_l3oc
        return f(week, t, self.sat, msg)

    def want(self, got):
        if self.last == 20 or not {10, 11, 12} <= set(got):
            return None
        d = self.ds
        week, tow = got[10][2]
        n4, nt, tb = self.day(d.toe)
        u = 2 if self.l1 else 3
        y = dict(urai=[d['fe'], d['ft']], taun=d['tau']*S(38),
                 gamn=d['gam']*S(48), beta=d['beta']*S(57),
                 pos=[d[k]*S(20)*1e3 for k in 'xyz'],
                 vel=[d['v'+k]*S(30)*1e3 for k in 'xyz'],
                 acc=[d['a'+k]*S(39)*1e3 for k in 'xyz'],
                 dpos=[d['d'+k]*S(10) for k in 'xyz'],
                 isc=[0.0]*(1 if self.l1 else 2)+[d['dt']*S(38)],
                 tau_gps=d['tg']*S(38), svh=d['hl'], status=d['ll'],
                 sattype=d['m'], src=(d['re'] << 2) | d['rt'],
                 aode=d['ee']*.25, aodc=d['et']*.25, iode=tb//90,
                 mode=1 if self.l1 else 3)
        if self.l1:
            # the lowest bits of the second velocity are not in the string
            y['vel'][1] = d['vy'] & ~63 if d['vy'] >= 0 else -(-d['vy'] & ~63)
            y['vel'][1] *= S(30)*1e3
        t = week*WEEK+tow
        # the day number of tof is the one of the reference time
        dd = self.day(d.toe)[1]-self.day(t)[1]
        e = dict(toe=d.toe+leap(d.toe))
        if dd == 0:
            e['tof'] = t-self.day(t)[2] % u+leap(t)
        return y, e


class GloL3(GloCdma):
    l1 = False


FAM = {'lnav': (LNav, 'GJ'), 'cnav': (CNav, 'GJ'), 'cnav2': (CNav2, 'GJ'),
       'inav': (INav, 'E'), 'fnav': (FNav, 'E'), 'd1': (BD1, 'C'),
       'd2': (BD2, 'C'), 'b1c': (B1C, 'C'), 'b2a': (B2a, 'C'),
       'b2b': (B2b, 'C'), 'irn': (IRn, 'I'), 'irl1': (IRL1, 'I'),
       'glo': (Glo, 'R'), 'l1oc': (GloCdma, 'R'), 'l3oc': (GloL3, 'R'),
       'sbs': (Sbs, 'S')}


def compare(c, name, fam, eph, exp, tag):
    x, tm = exp
    c.eq(eph.sat, fam.sat, name+':sat', tag)
    for k, v in x.items():
        w = getattr(eph, k, None)
        if isinstance(v, list):
            c.close([float(q) for q in w][:len(v)], v, 1e-14, f"{name}:{k}",
                    tag, rtol=1e-12)
        elif isinstance(v, float):
            c.close(w, v, 0 if v == v else 1, f"{name}:{k}", tag, rtol=1e-12)
        else:
            c.close(w, v, 1e-9, f"{name}:{k}", tag)
    for k, t in tm.items():
        g = getattr(eph, k)
        s = fam.abst(t)
        if fam.week0 == BDT0:
            s += 14
        d = (g.time-GPS0-s)+g.sec if hasattr(g, 'time') else None
        c.ok(d is not None and abs(d) < 1e-6, f"{name}:{k}",
             lambda: f"{tag}: {d} s off, week {fam.week} {fam.tow}")


def stream(c, name):
    r = c.rng
    cls, sysl = FAM[name]
    rn = RawNav()
    sats = []
    for _ in range(r.randint(1, 3)):
        ch = r.choice(sysl)
        prn = r.randint(1, {'G': 32, 'J': 10, 'E': 36, 'C': 63,
                            'I': 14, 'R': 27, 'S': 38}[ch])
        if (ch, prn) not in sats:
            sats.append((ch, prn))
    week = r.choice([r.randint(2000, 2400), 2047, 2048, r.randint(1400, 2047),
                     r.randint(2048, 3000)]) if cls.week0 == GPS0 else \
        r.randint(600, 1500)
    P = cls.period
    u = {'lnav': 30, 'irn': 48}.get(name, 1)
    tow0 = r.choice([r.randrange(WEEK), WEEK-r.randint(1, 9)*P-P,
                     r.randrange(0, 4000), r.randrange(302000, 303500)])
    g = {'cnav': 12, 'cnav2': 18, 'b1c': 18, 'irl1': 18, 'b2a': 3,
         'irn': 12, 'glo': 30, 'l1oc': 6, 'l3oc': 6, 'inav': 1, 'd1': 1, 'd2': 1}.get(name, u)
    tow0 = tow0//g*g
    # the frames of a satellite follow each other
    rweek = {GPS0: 0, GST0: 1024, BDT0: 1356}[cls.week0]
    ev = []
    for ch, prn in sats:
        sat = id2sat(f"{ch}{prn+19 if ch == 'S' else prn:02d}")
        fam = cls(c, sat, prn+192 if ch == 'J' else prn, week, tow0)
        fam.newset()
        loss = r.choice([0, 0, .1, .3])
        step = P
        if name == 'cnav':
            step = 72
        for _ in range(r.randint(4, 14)):
            if r.random() < .35:
                fam.newset()
            if name not in ('cnav',) and fam.tow+step > WEEK:
                # no frame across the week boundary
                fam.week, fam.tow = fam.week+1, fam.tow % g
            for t, part, msg, ds, info in fam.frame():
                if r.random() >= loss:
                    ev.append((fam.week*WEEK+t, fam, part, msg, ds, info,
                               fam.week, fam.tow))
            fam.tow += step
            if fam.tow >= WEEK:
                fam.week, fam.tow = fam.week+1, fam.tow-WEEK
    ev.sort(key=lambda e: e[0])
    got = {}
    n = 0
    for t, fam, part, msg, ds, info, w, tw in ev:
        m = got.setdefault(id(fam), {})
        if part < 99:
            m[part] = (t, ds, info)
        fam.last = part
        fam.week, fam.tow = w, tw
        buf = bytes(msg)
        if r.random() < .1:
            b = fam.spoil(buf)
            if b is not None:
                c.ok(fam.call(rn, t//WEEK+rweek, t % WEEK, b) is None,
                     name+':foreign message used', 'preamble or satellite')
        # the receiver may still (or already) be in the other week
        rw = t//WEEK+rweek
        eph = fam.call(rn, rw, t % WEEK, buf)
        exp = fam.want(m)
        tag = f"{fam.sat} part {part} at {t//WEEK}/{t % WEEK}"
        if exp is None:
            c.ok(eph is None, name+':incomplete',
                 lambda: f"{tag}: message of incomplete data")
            c.seen(name, part, 'none')
            continue
        if not c.ok(eph is not None, name+':missing', tag):
            continue
        n += 1
        compare(c, name, fam, eph, exp, tag)
        toe = exp[1].get('toe', t)
        c.seen(name, part, 'ok', toe//WEEK-t//WEEK)
    c.sample(f"{name} {len(sats)} satellites {len(ev)} messages {n} decoded")


@chk.case(20, 200)
def signals(c):
    """ signal tables of the receiver decoders """
    gn = {'G': uGNSS.GPS, 'R': uGNSS.GLO, 'E': uGNSS.GAL, 'C': uGNSS.BDS,
          'J': uGNSS.QZS, 'S': uGNSS.SBS, 'I': uGNSS.IRN}
    s = ''.join(c.rng.sample('GRECJSI', c.rng.randint(1, 7)))
    d = rcvDec(gnss_t=s)
    c.eq(set(d.sig_tab), {gn[k] for k in s}, 'systems', s)
    for sys, t in d.sig_tab.items():
        c.eq(set(t), {uTYP.C, uTYP.L, uTYP.D, uTYP.S}, 'types', s)
        x = [sig.str()[1:] for sig in t[uTYP.C]]
        for typ, sg in t.items():
            c.eq([g.sys for g in sg], [sys]*len(sg), 'system of signal', s)
            c.eq([g.typ for g in sg], [typ]*len(sg), 'type of signal', s)
            c.eq([g.str()[1:] for g in sg], x, 'signal', s)
        c.seen(int(sys))


def mk(name):
    def f(c):
        stream(c, name)
    f.__name__ = name
    chk.case(240, 6000, cpu=120)(f)


for _n in FAM:
    mk(_n)


EXT = {'qzslnav': 'lnv', 'gpslnav': 'lnv', 'qzscnav': 'cnv',
       'gpscnav': 'cnv', 'qzscnav2': 'cn2', 'gpscnav2': 'cn2', 'qzsl6': 'l6',
       'gale6': 'e6', 'qzsl1s': 'sbs', 'qzsl5s': 'sbs', 'galinav': 'inv',
       'galfnav': 'fnv', 'bdsb1c': None, 'bdsb2a': None, 'bdsb2b': 'b2b',
       'bdsd12': None, 'gloca': None, 'irnnav': None, 'sbas': 'sbs',
       'rnxnav': 'nav', 'rnxobs': 'obs'}


@chk.case(60, 3000, minseen=5)
def files(c):
    """ files and options of a receiver decoder, SBAS message files """
    import os
    r = c.rng
    opt = rcvOpt()
    on = {k for k in EXT if r.random() < r.choice([.1, .4, .9])}
    for k in on:
        setattr(opt, 'flg_'+k, True)
    opt.useL1CB = r.random() < .3
    d = os.path.join(c.tmp, 'out')
    os.mkdir(d)
    rcv = rcvDec(opt, os.path.join(d, 'x'), 'GREJCSI')
    c.eq(sorted(os.listdir(d)),
         sorted({'x.'+EXT[k] for k in on if EXT[k]}), 'files', sorted(on))
    for k in EXT:
        c.eq(getattr(rcv, 'flg_'+k), k in on, 'option', k)
        c.ok(not getattr(rcvDec, 'flg_'+k), 'option of the class', k)
    c.eq(rcv.useL1CB, opt.useL1CB, 'L1CB')
    want = []
    if 'sbs' in {EXT[k] for k in on}:
        rcv.week = r.randint(1024, 2500)
        for k in range(r.randint(1, 6)):
            rcv.tow = r.choice([r.randrange(604800), r.uniform(0, 604799)])
            prn, mt = r.randint(120, 199), r.choice([0, 1, 32, 63, 34, 47])
            ty = r.choice([0, 1, 2, 3])
            p = r.choice([5, 12, 6, 9, 3, 10]) if ty == 1 else \
                r.choice([0x53, 0x9a, 0xc6, 0x5c, 0xa3, 0x93, r.randrange(256)])
            if ty == 3:
                s = r.randrange(4)
                w = BW().u(8, p).u(2, s).u(222, r.getrandbits(222))
                mt = {0: 34, 2: 32, 3: 63}.get(s) or \
                    {0x53: 31, 0x9a: 37}.get(p, 47)
            else:
                n = 4 if ty == 1 else 8
                w = BW().u(n, p).u(6, mt).u(226-n, r.getrandbits(226-n))
            b = w.bytes()
            rcv.output_sbas(prn, bytearray(b), rcv.fh_sbas, ty)
            want.append((rcv.week, int(rcv.tow), prn, mt, ty, b[:29]))
            c.seen('sbas', ty, mt)
    fs = [v for k, v in vars(rcv).items() if k.startswith('fh_') and v]
    rcv.file_close()
    c.ok(all(f.closed for f in fs), 'files stay open')
    if not want:
        return
    with open(os.path.join(d, 'x.sbs')) as fh:
        ls = fh.read().splitlines()
    if not c.eq(len(ls), len(want), 'lines'):
        return
    for x, (w, t, p, mt, ty, b) in zip(ls, want):
        v = x.split()
        if not c.eq(len(v), 6, 'columns', x):
            continue
        c.eq((int(v[0]), int(v[1]), int(v[2]), int(v[3]), v[4]),
             (w, t, p, mt, ':'), 'columns', f"{x} {ty}")
        m = bytes.fromhex(v[5])
        if ty == 3:
            n = int.from_bytes(m, 'big')
            c.eq(n >> (29*8-10) & 63, mt, 'message type of L5S', x)
            c.ok(m[0] >> 4 in (5, 12, 6, 9, 3, 10), 'preamble of L5S', x)
            c.eq(n % (1 << (29*8-10)), int.from_bytes(b, 'big')
                 % (1 << (29*8-10)), 'message', x)
        else:
            c.eq(m.hex(), b.hex(), 'message', x)
