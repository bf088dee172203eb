""" C40: correction streams, received second by second, position a receiver """
from common import Check
from bits import BW, ru, rtcm3
import copy
import math
import os
import numpy as np
import c20
import c23
import c24
import c26
import c27
import c29
import enc_cssr
import ref_orbit as ro
from enc_cssr import Enc, Mask, GN, SG, T
from cssrlib.cssr_bds import cssr_bds
from cssrlib.cssr_has import cssr_has, cnav_msg
from cssrlib.cssr_pvs import cssr_pvs
from cssrlib.cssrlib import cssr, sCSSRTYPE as sc
from cssrlib.gnss import gtime_t, id2sat, sat2id, sat2prn, timeadd, uGNSS
from cssrlib.pppssr import pppos
from cssrlib.rtcm import rtcm

chk = Check('C40', ['src/cssrlib/ephemeris.py', 'src/cssrlib/pppssr.py',
                    'src/cssrlib/rtcm.py', 'src/cssrlib/cssrlib.py',
                    'src/cssrlib/cssr_has.py', 'src/cssrlib/cssr_bds.py',
                    'src/cssrlib/cssr_pvs.py'],
            rule='receiver sessions of six services with the corrections '
            'decoded from independently encoded streams second by second, '
            'with losses, damage, latency, mask, IOD and ephemeris changes '
            'and hour, day and week turns; distinct by service, '
            'constellation, satellite situation and turn')

enc_cssr.PNAN[0] = .012
NAN3 = [math.nan]*3


def bias_of(d, typ, code, has=False):
    """ correction of a signal; combined tracking stands in """
    if not d:
        return 0.0
    if has and code == '2W' and typ+'2P' in d:
        return d[typ+'2P']
    for k in (typ+code, typ+code[0]+'X'):
        if k in d:
            return d[k]
    return 0.0


class Srv():
    """ one service: broadcast and reception """
    lat = 0
    vague = False

    def steady(self, typ, sat, code, scl, n):
        """ raw bias of a signal, the same all the time """
        d = self.__dict__.setdefault('_bias', {})
        k = typ, sat, code
        if k not in d:
            r = self.S.c.rng
            m = .5 if typ == 'C' else 3
            d[k] = max(2-(1 << n-1), min((1 << n-1)-2, round(
                r.uniform(-m, m)/scl)))
            if r.random() < .01 and not isinstance(self, Rtcm):
                d[k] = -(1 << n-1)
        return d[k]

    def usable(self):
        """ all parts of the correction received once """
        return self.cs.lc[0].cstat & 0xf == 0xf

    def before(self, t):
        pass


class Rtcm(c23.Stream, Srv):
    """ RTCM and IGS SSR """

    def __init__(self, c, S, mode):
        r = c.rng
        c23.Stream.__init__(self, c, S.week)
        self.S = S
        self.dialect = 'igs' if mode == sc.IGS_SSR else 'rtcm'
        self.cs = rtcm()
        self.cs.cssrmode = mode
        self.cs.monlevel = 0
        self.cs.inet = 0
        self.have = {y: [int(s[1:]) for s in S.names if s[0] == y
                         and r.random() < .92] for y in S.systems}
        self.comb = r.random() < .4
        self.hc = r.random() < .35
        self.iv = {'orb': r.choice([3, 4, 5]), 'clk': r.choice([0, 2, 3])}
        self.iv['oc'] = r.choice([2, 3])
        self.lat = r.choice([0, 0, 1, 3])
        self.iod_ = ru(r, 4)
        self.igs_time = None
        self.n = 0

    def interval(self, kind):
        return self.iv.get(kind, 5)

    def choose(self, dialect, sy):
        return self.have[sy]

    def vorb(self):
        r = self.r
        v = [r.randint(-20000, 20000), r.randint(-8000, 8000),
             r.randint(-8000, 8000), r.randint(-10000, 10000),
             r.randint(-2500, 2500), r.randint(-2500, 2500)]
        if r.random() < .03:
            v[:3] = [r.randint(-524000, 524000) for _ in range(3)]
        if r.random() < .02:
            v[r.randrange(3)] = None
        return v

    def vclk(self):
        r = self.r
        v = [r.randint(-30000, 30000), r.randint(-9000, 9000),
             r.randint(-4000, 4000)]
        if r.random() < .02:
            v[0] = None
        return v

    def vbias(self, typ, sat, code):
        return self.steady(typ, sat, code, *(
            (.01, 14) if typ == 'C' else (1e-4, 20)))

    def codes(self, sy):
        r, t = self.r, c23.SIG[sy]
        q = []
        for k, x in t.items():
            if x in self.S.codes[sy]:
                if r.random() < .95:
                    q.append(k)
            elif x[1] == 'X' and r.random() < .5 or r.random() < .1:
                q.append(k)
        r.shuffle(q)
        return q

    def usable(self):
        return self.cs.lc[0].cstat & 6 == 6

    def second(self, t, tow, first):
        """ messages of one second """
        r = self.r
        if r.random() < .01 and not first:
            self.iod_ = (self.iod_+1) % 16
            first = True
        m = tow-self.lat
        # start of a session: everything is broadcast
        udi = (1, 2, 5, 10, 15, 30)
        kinds = []
        if first or m % udi[self.iv['oc' if self.comb else 'orb']] == 0:
            kinds.append('oc' if self.comb else 'orb')
        if not self.comb and (first or m % udi[self.iv['clk']] == 0):
            kinds.append('clk')
        if self.hc and kinds:
            kinds.append('hclk')
        if first or m % 30 == 7:
            kinds += ['cb', 'pb']
        if m % 20 == 3:
            kinds.append('ura')
        blob = bytes(r.randrange(256) for _ in range(r.choice([0, 0, 1, 9])))
        for kind in kinds:
            lost = not first and r.random() < .12
            for sy in r.sample(sorted(self.have), len(self.have)):
                if self.dialect == 'rtcm' and kind == 'pb' and \
                        sy not in c23.PB or not self.have[sy]:
                    continue
                keep = copy.deepcopy((self.st, self.ep))
                f = self.make(self.dialect, sy, kind, m, self.iod_)[1]
                bad = not first and r.random() < .04
                if lost or bad:
                    self.st, self.ep = keep
                    self.c.seen('lost', self.cs.cssrmode, kind)
                    if lost:
                        continue
                    f = bytearray(f)
                    f[r.randrange(5, len(f))] ^= 1 << r.randrange(8)
                elif kind in ('orb', 'oc'):
                    for s, v in self.st['orb'].items():
                        if s[0] == sy:
                            self.S.issue(s, v[0])
                blob += bytes(f)
                if r.random() < .1:
                    blob += rtcm3(BW().u(12, 4090).u(60, ru(r, 60)).bytes())
                if r.random() < .1:
                    blob += bytes(r.randrange(256) for _ in range(5))
        cs = self.cs
        i, n = 0, len(blob)
        while i < n-6:
            if not cs.sync(blob, i):
                i += 1
                continue
            if not cs.checksum(blob, i, n):
                i += 1
                continue
            cs.decode_time(blob[i:i+cs.len+3])
            c20.quiet(cs.decode, blob[i:i+cs.len+3])
            i += cs.dlen

    def corr(self, s, t, tow):
        st, e = self.st, self.ep
        if s not in st['orb'] or s not in st['clk']:
            return None
        iode, d, v = st['orb'][s]
        k = st['clk'][s]
        h = (1, 2, 5, 10, 15, 30)
        ko, kc = ('oc', 'oc') if self.comb else ('orb', 'clk')
        a = tow-e['orb']-(h[self.iv[ko]]/2 if self.iv[ko] else 0)
        b = tow-e['orb' if self.comb else 'clk']-(
            h[self.iv[kc]]/2 if self.iv[kc] else 0)
        ck = k[0]+k[1]*b+k[2]*b*b+st['hclk'].get(s, 0.0)
        return iode, np.array(d)+np.array(v)*a, ck

    def bias(self, s, typ, code):
        v = bias_of(self.st['cb' if typ == 'C' else 'pb'].get(s), typ, code)
        return v[0] if isinstance(v, tuple) else v


class WMask(Mask):
    """ mask of given satellites """

    def __init__(self, c, S, gids, has=False):
        r = c.rng
        self.g, self.sat = [], []
        for gid in gids:
            sy, p0, n = GN[gid]
            prn = [int(s[1:])-p0 for s in S.names if s[0] == sy and
                   0 <= int(s[1:])-p0 < n and r.random() < .92]
            sig = []
            for k, x in enumerate(SG[gid]):
                if x in S.codes[sy]:
                    y = r.random() < .95
                else:
                    y = x[1] == 'X' and r.random() < .4 or r.random() < .06 \
                        or has and x == '2P' and r.random() < .5
                if y:
                    sig.append(k)
            sig = sig[:4] or [0]
            cma = r.random() < .4
            cells = [[int(not cma or r.random() < .9) for _ in sig]
                     for _ in prn]
            self.g.append((gid, prn, sig, cma, cells))
            for p, q in zip(prn, cells):
                self.sat.append((f"{sy}{p+p0:02d}", gid, [
                    SG[gid][k] for k, b in zip(sig, q) if b]))
        self.n = len(self.sat)


class Cssr(Srv):
    """ store of a Compact SSR model as seen by the receiver """
    has = False

    def publish(self):
        """ the receiver has got everything broadcast so far """
        m = self.e.m
        s = m.net(0)
        self.pub = copy.deepcopy(dict(
            dorb=s.dorb, dclk=s.dclk, iode=s.iode, cb=s.cbias, pb=s.pbias,
            iod=m.iod, iodc=m.iodc, mask=[x[0] for x in m.mask.sat]))
        if self.iods[-1:] != [m.iod]:
            self.iods = (self.iods+[m.iod])[-2:]
            self.masks = (self.masks+[self.pub['mask']])[-2:]

    def bias(self, s, typ, code):
        d = self.pub['cb' if typ == 'C' else 'pb'] or {}
        return bias_of(d.get(s), typ, code, self.has)


class Madoca(Cssr):
    """ Compact SSR in L6E frames """

    def __init__(self, c, S, mode):
        r = self.r = c.rng
        self.c, self.S = c, S
        self.cs = cssr()
        self.cs.cssrmode = mode
        self.cs.monlevel = 0
        self.e = Enc(c, S.week)
        self.e.live = True
        self.e.f.bias = lambda typ, s, k: self.steady(typ, s, k, *(
            (.02, 11) if typ == 'C' else (.001, 15)))
        self.gid = [dict(G=0, R=1, E=2, J=4)[s] for s in 'GREJ'
                    if s in S.systems]
        self.iods, self.masks, self.pub = [], [], None
        self.prn, self.fac, self.pt = 193+r.randrange(8), r.randrange(4), \
            r.randrange(2)
        self.ph = r.randrange(5)
        self.frames = []
        self.todo = []
        self.k = 0
        self.lost = False

    def subframe(self, tow, first):
        r, e = self.r, self.e
        w = BW()
        self.must = first
        self.keep = copy.deepcopy(e.m), list(self.todo)
        self.new = []
        q = []
        if first or r.random() < .12:
            iod = r.randrange(16) if first else (e.m.iod+1) % 16
            w.cat(e.mask(tow, WMask(self.c, self.S, self.gid), iod))
            self.must = True
            if not first:
                self.c.seen('mask change')
        elif r.random() < .3:
            w.cat(e.mask(tow, e.m.mask, e.m.iod))
        if self.k % 6 == 0 or first:
            self.todo += ['orb', 'clk', 'cb', 'pb']
        else:
            self.todo += ['clk']
            if self.k % 3 == 0:
                self.todo += ['orb']
        if r.random() < .1:
            self.todo.append('ura')
        self.k += 1
        # one second of a sub frame lasts for all its messages
        while self.todo:
            k2 = copy.deepcopy(e.m)
            x = getattr(e, self.todo[0])(tow)
            if w.n+x.n > 8475:
                e.m = k2
                break
            w.cat(x)
            q.append(self.todo.pop(0))
        if 'orb' in q:
            self.new = sorted(e.m.net(0).iode.items())
        w.pad(8475)
        return [c24.l6(self.prn, 5, self.fac, self.pt, int(k == 0),
                       w.get(k*1695, 1695)) for k in range(5)]

    def second(self, t, tow, first):
        r, e, cs = self.r, self.e, self.cs
        # the first seconds are quick
        for _ in range(10 if first else 1):
            self.one(tow, first)

    def one(self, tow, first):
        r, e, cs = self.r, self.e, self.cs
        if not self.frames:
            self.frames = self.subframe(tow, first and e.m.mask is None)
            self.drop = set()
            if not self.must and not first and r.random() < .15:
                self.drop = set(range(5))
                e.m, self.todo = self.keep
                self.c.seen('lost', 'subframe')
            self.i = 0
        f = self.frames.pop(0)
        k, self.i = self.i, self.i+1
        if k in self.drop:
            return
        if r.random() < .05:
            bad = bytearray(f)
            bad[r.randrange(4)] ^= 1 << r.randrange(8)
            cs.decode_l6msg(bytes(bad), 0)
        cs.decode_l6msg(f, 0)
        if cs.fcnt == 5:
            cs.decode_cssr(bytes(cs.buff), 0)
            for s, i in self.new:
                self.S.issue(s, i)
            self.publish()

    def corr(self, s, t, tow):
        p = self.pub
        if p is None or not p['dorb'] or not p['dclk'] or \
                s not in p['dorb'] or s not in p['dclk']:
            return None
        # both belong to the present mask or the one before
        for k in (T.ORBIT, T.CLOCK):
            if p['iodc'][k] == self.iods[-1]:
                if s not in self.masks[-1]:
                    return None
            elif p['iodc'][k] != self.iods[0] or s not in self.masks[0]:
                return None
        return p['iode'][s], p['dorb'][s], p['dclk'][s]


class HasSrv(Cssr):
    """ Galileo HAS pages """
    has = True

    def __init__(self, c, S, mode):
        r = self.r = c.rng
        self.c, self.S = c, S
        self.cs = cssr_has()
        self.cs.monlevel = 0
        fn = os.path.join(c.tmp, 'gmat.csv')
        np.savetxt(fn, c26.gmat(), fmt='%d', delimiter=',')
        self.cn = cnav_msg()
        self.cn.load_gmat(fn)
        self.e = c26.Has(c, S.week, 0)
        self.e.given = lambda typ, s, k: self.steady(typ, s, k, *(
            (.02, 11) if typ == 'C' else (.01, 11)))
        self.gid = [dict(G=0, E=2)[s] for s in 'GE' if s in S.systems]
        self.iods, self.masks, self.pub = [], [], None
        self.pages, self.mid = [], r.randrange(32)
        self.id, self.iod, self.k = None, r.randrange(32), 0
        self.idc = None

    def message(self, tow, first):
        r, e = self.r, self.e
        e.m.tow0 = tow//3600*3600
        toh = tow % 3600
        mask = e.m.mask
        self.nid = self.id
        if first or r.random() < .08:
            if self.id is not None:
                self.c.seen('mask change')
            self.id = (r.randrange(32) if self.id is None else
                       (self.id+r.randint(1, 31)) % 32)
            mask = WMask(self.c, self.S, self.gid, True)
            self.iod = (self.iod+1) % 32
            bl = ['mask', 'orb', 'clk', 'cb', 'pb']
            if not first and r.random() < .4:
                bl.remove('clk')
        elif self.k % 4 == 0 or r.random() < .2:
            self.iod = (self.iod+r.randint(0, 1)) % 32
            bl = r.choice([['orb', 'clk'], ['mask', 'orb', 'clk'],
                           ['mask', 'orb', 'clk', 'cb', 'pb']])
        else:
            bl = ['clk'] if r.random() < .6 or self.idc != self.id else \
                ['sub']
        if 'clk' in bl:
            self.idc = self.id
        self.k += 1
        w = e.message(toh, bl, mask, self.id, self.iod)
        self.new = sorted(e.m.net(0).iode.items()) if 'orb' in bl else []
        self.pidc = self.idc
        data = w.bytes()
        ms = (len(data)+52)//53
        data += bytes(53*ms-len(data))
        self.mid = (self.mid+r.choice([1, 1, 2])) % 32
        enc = c26.encode([data[53*i:53*i+53] for i in range(ms)])
        pid = list(range(ms))+list(range(32, 255))
        if r.random() < .7:
            r.shuffle(pid)
        self.ms, self.got = ms, 0
        self.pages = [(enc[p], p) for p in pid]
        self.c.seen('pages', ms)

    def second(self, t, tow, first):
        for _ in range(3 if first else 1):
            self.one(tow, first)

    def one(self, tow, first):
        r, e, cs = self.r, self.e, self.cs
        if not self.pages:
            keep = copy.deepcopy(e.m), self.id, self.idc, self.iod
            self.message(tow, e.m.mask is None)
            if len(self.new) == 0 and r.random() < .15:
                # missed as a whole
                e.m, self.id, self.idc, self.iod = keep
                self.pages = []
                self.c.seen('lost', 'has')
                return
        nsv = 32 if first else r.choice([4, 10, 20])
        vi = []
        for _ in range(nsv):
            p, k = self.pages.pop(0)
            if r.random() < .2:
                continue
            vi.append(c26.cnav(p, 1, self.mid, self.ms, k+1, rng=r))
        out = self.cn.decode_cnav(tow, vi)
        self.got += len(vi)
        self.c.ok((out is not None) == (self.got >= self.ms), 'message',
                  f"{self.got} of {self.ms} pages")
        if out is None:
            return
        self.pages = []
        cs.msgtype = self.cn.msgtype
        cs.decode_cssr(out)
        for s, i in self.new:
            self.S.issue(s, i)
        self.publish()
        self.pub['id'] = self.id, self.pidc

    def corr(self, s, t, tow):
        p = self.pub
        if p is None or s not in p['dorb'] or s not in p['dclk']:
            return None
        if s not in p['mask']:
            return None
        if p['id'][0] != p['id'][1] and s not in self.pmask_clk:
            return None
        return p['iode'][s], p['dorb'][s], p['dclk'][s]

    def publish(self):
        Cssr.publish(self)
        if self.pidc == self.id:
            self.pmask_clk = self.pub['mask']


class Bds(c27.B2b, Srv):
    """ PPP-B2b """

    def __init__(self, c, S, mode):
        r = c.rng
        # BDT
        c27.B2b.__init__(self, c, S.week-1356, 0)
        self.S = S
        self.cs = cssr_bds()
        self.cs.monlevel = 0
        self.ic, self.icn = {}, {}
        self.k = self.q = 0
        self.mask_ok = False
        self.new = {}
        self.oiod = self.piod = None

    def choose(self):
        r = self.r
        out = []
        for s in 'CG':
            out += [x for x in self.S.names if x[0] == s
                    and r.random() < .92]
        return out

    def vbias(self, sat, code):
        v = self.steady('C', sat, code, .017, 12)
        return v, math.nan if v == -2048 else v*.017

    def anysat(self):
        self.q += 1
        return self.sats[self.q % len(self.sats)]

    def iod(self, sat):
        r = self.r
        if sat is None:
            return ru(r, 10), ru(r, 3)
        if sat in self.icn:
            # the clock has been changed before
            self.ic[sat] = self.icn.pop(sat)
        elif r.random() < .3:
            self.ic[sat] = (self.ic.get(sat, 0)+1) % 8
        n = ru(r, 10)
        self.new[sat] = n & 255
        return n, self.ic.get(sat, 0)

    def iod_clk(self, sat):
        if sat not in self.icn and self.r.random() < .04:
            self.icn[sat] = (self.ic.get(sat, 0)+1) % 8
        return self.icn.get(sat, self.ic.get(sat, 0))

    def clk(self, iod=None, iodp=None):
        # sub types in turn
        n = max(0, (len(self.sats)-1)//23)
        self.cst = (getattr(self, 'cst', -1)+1) % (n+1)
        w = self.head(4, iod)
        w.u(4, self.iodp if iodp is None else iodp).u(5, self.cst)
        for k in range(23):
            i = self.cst*23+k
            if i < len(self.sats):
                self.clk1(w, self.sats[i], iod is None and iodp is None)
            else:
                w.u(18, ru(self.r, 18))
        return w.pad(462)

    def second(self, t, tow, first):
        r = self.r
        b = tow-14
        self.tow0, self.tod = b//86400*86400, b % 86400
        for _ in range(60 if first else 3):
            self.one(first)

    def one(self, first):
        r, cs = self.r, self.cs
        self.new = {}
        names = ('st', 't0', 'ic', 'icn', 'iodc_', 'iodssr', 'iodp', 'sats',
                 'time')
        keep = copy.deepcopy({k: getattr(self, k) for k in names})
        mask = False
        if self.iodp is None:
            w = self.mask(r.randrange(4), r.randrange(16))
            mask = True
        elif not first and r.random() < .015:
            w = self.mask(self.bad(), (self.iodp+1) % 16)
            mask = True
            self.c.seen('mask change')
        elif not first and r.random() < .01:
            w = self.mask(self.bad(), self.iodp)
            mask = True
            self.c.seen('iod ssr change')
        elif r.random() < .05:
            w = self.mask(self.iodssr, self.iodp)
        else:
            self.k += 1
            w = [self.clk, self.orb, self.comb, self.orb, self.cb, self.orb,
                 self.clk, self.comb1][self.k % 8]()
        if not first and not mask and r.random() < .1:
            for k, v in keep.items():
                setattr(self, k, v)
            self.c.seen('lost', 'b2b')
            return
        cs.decode_cssr(w.bytes()+bytes(4), 0)
        if mask:
            if keep['iodssr'] is not None:
                self.piod = keep['iodssr']
            # no use of the corrections in between is promised
            self.vague |= keep['iodssr'] not in (None, self.iodssr) and \
                keep['iodp'] == self.iodp
        if self.new:
            self.oiod = self.iodssr
            self.vague = False
            for s, i in sorted(self.new.items()):
                if s in self.st['iode']:
                    self.S.issue(s, i)

    def corr(self, s, t, tow):
        st = self.st
        if s not in st['iode'] or self.oiod not in (self.iodssr, self.piod):
            return None
        if st['iodc'][s] == st['iodc_c'].get(s):
            k = st['dclk'][s]
        elif st['iodc'][s] == st['iodc_c_p'].get(s):
            k = st['dclk_p'][s]
            self.c.seen('clock of the previous iod')
        else:
            self.c.seen('iod without clock')
            return None
        return st['iode'][s], st['dorb'][s], k

    def bias(self, s, typ, code):
        return bias_of(self.st['cbias'].get(s), typ, code) if typ == 'C' \
            else 0.0


class Pvs(Srv):
    """ SouthPAN PVS """

    def __init__(self, c, S, mode):
        self.c, self.r, self.S = c, c.rng, S
        self.cs = cssr_pvs()
        self.cs.monlevel = 0
        self.e = c29.Dfmc(c, S.t0)
        self.q = 0
        self.names = [s for s in S.names if self.r.random() < .95]
        self.gone = []
        self.exp = {}

    def usable(self):
        return self.cs.lc[0].cstat & 6 == 6

    def second(self, t, tow, first):
        r, e = self.r, self.e
        e.t = t
        if not first and r.random() < .02:
            self.gone = r.sample(self.names, len(self.names)//4)
        for _ in range(len(self.names) if first else 2):
            self.q += 1
            s = self.names[self.q % len(self.names)]
            if s in self.gone or not first and r.random() < .1:
                continue
            k = tow % 86400//16
            k -= 1-k % 2
            keep = copy.deepcopy(e.cor)
            slot = int(s[1:])+(74 if s[0] == 'E' else 0)
            if r.random() < .05:
                k += 1      # not a PVS correction
            w = e.corr(pvs=True, slot=slot, tod=k % 5400)
            if r.random() < .05 and not first:
                e.cor = keep
                w = e.msg(r.choice([0, 31, 34, 63]),
                          BW().u(216, ru(r, 216)))
            self.cs.decode_cssr(w.bytes(), 0)
            if e.cor.get(s) is not keep.get(s) and s in e.cor and \
                    e.cor[s] != keep.get(s):
                self.S.issue(s, e.cor[s]['iode'])

    def before(self, t):
        """ validity, checked by the receiver before an epoch """
        self.cs.check_validity(t)
        for s, m in self.e.cor.items():
            m['old'] = m.get('old') or ro.tsub(t, m['t0']) > 120

    def corr(self, s, t, tow):
        m = self.e.cor.get(s)
        if m is None:
            return None
        if m.get('old'):
            self.c.seen('expired')
            return -1, np.zeros(3), 0.0
        a = ro.tsub(t, m['t0'])
        return m['iode'], np.array(m['dorb'])+a*np.array(m['dvel']), \
            m['dclk']+a*m['ddft']

    def bias(self, s, typ, code):
        return 0.0


SRV = {sc.RTCM3_SSR: Rtcm, sc.IGS_SSR: Rtcm, sc.QZS_MADOCA: Madoca,
       sc.GAL_HAS_SIS: HasSrv, sc.BDS_PPP: Bds, sc.PVS_PPP: Pvs}
SYS = {sc.RTCM3_SSR: ['GE', 'GER', 'GEC', 'GEJ', 'GR', 'EC'],
       sc.IGS_SSR: ['GE', 'GER', 'GEC', 'GEJ', 'GR', 'EC'],
       sc.QZS_MADOCA: ['GE', 'GER', 'GEJ', 'GR'],
       sc.GAL_HAS_SIS: ['GE'], sc.BDS_PPP: ['GC', 'C', 'GC'],
       sc.PVS_PPP: ['GE']}
MODES = sorted(SRV)


class Live(c20.Setup):
    """ receiver which decodes a correction stream """

    def make_cs(self):
        c, w = self.c, self.w
        r = c.rng
        self.base = {**w.eph, **w.geph}
        self.names = [sat2id(s) for s in w.sats()]
        self.num = {n: s for n, s in zip(self.names, w.sats())}
        s = self.t0.time-ro.GPS0
        self.week, self.tow = s//604800, s % 604800
        self.srv = SRV[self.mode](c, self, self.mode)
        self.cs = self.srv.cs
        w.mode = self.mode
        w.dorb, w.dclk = {}, {}
        self.truth, self.wait = {}, []
        self.nmode = {x: 0 for x in 'GREJ'}
        self.nmode['C'] = 1
        if self.mode == sc.PVS_PPP:
            self.nmode['E'] = 1
        for q, e in self.base.items():
            e.mode = self.nmode[w.let(q)]

    def shifted(self, e, d):
        """ the same orbit with another reference time """
        if e.toes+d < 0 or self.w.let(e.sat) == 'C' or e.mode > 0:
            return
        n = math.sqrt(ro.MU[self.w.let(e.sat)]/e.A**3)+e.deln
        e.M0 += n*d
        e.OMG0 += e.OMGd*d
        e.i0 += e.idot*d
        e.toes += d
        e.toe = timeadd(e.toe, d)

    def issue(self, name, iode):
        """ a new ephemeris comes with the corrections """
        r, g = self.c.rng, self.c.np
        s = self.num[name]
        b = self.base[s]
        e = copy.deepcopy(b)
        e.iode = iode
        d = copy.deepcopy(e)
        glo = s in self.w.geph
        lst = self.nav.geph if glo else self.nav.eph
        if glo:
            e.pos = e.pos+g.normal(size=3)*3
            e.taun += g.normal()*1e-8
            d.pos = d.pos+3e4
        else:
            e.M0 += g.normal()*2e-7
            e.OMG0 += g.normal()*2e-7
            e.af0 += g.normal()*2e-8
            d.M0 += 1e-3
            self.shifted(e, -r.randint(0, 60))
        # forgotten: the same issue of earlier times
        lst[:] = [x for x in lst if x.sat != s or x.iode != iode]
        self.wait = [x for x in self.wait if x[1].sat != s
                     or x[1].iode != iode]
        add = []
        k = r.random()
        if self.mode != sc.PVS_PPP and k < .3:
            d.mode = 1-e.mode
            add.append(d)
        elif k < .4:
            # of another day
            d.toe = timeadd(d.toe, r.choice([-86400, 86400, -6*3600]))
            add.append(d)
        late = r.random() < .06
        if not late:
            add.append(e)
        else:
            self.wait.append((r.randint(1, 40), e))
        r.shuffle(add)
        # order of arrival
        lst += add
        while len(lst) > 900:
            lst.pop(0)
        self.truth[s] = e

    def tick(self):
        """ ephemerides which come late """
        out = []
        for n, e in self.wait:
            if n <= 0:
                (self.nav.geph if e.sat in self.w.geph else
                 self.nav.eph).append(e)
            else:
                out.append((n-1, e))
        self.wait = out

    def find(self, s, iode, t):
        """ ephemeris of the issue """
        m = self.nmode[self.w.let(s)]
        lst = [x for x in (self.nav.geph if s in self.w.geph else
                           self.nav.eph) if x.sat == s and x.mode == m]
        if iode >= 0:
            lst = [x for x in lst if x.iode == iode and
                   abs(ro.tsub(t, x.toe)) < 10800]
            return lst[0] if lst else None
        # the one with the closest time of ephemeris, later ones first
        k = [(abs(ro.tsub(t, x.toe)), -i) for i, x in enumerate(lst)]
        return lst[-min(k)[1]] if k and min(k)[0] < 7200 else None

    def prepare(self, t, tow):
        """ state of the constellation; usable satellites """
        w = self.w
        use = []
        for n, s in self.num.items():
            q = self.srv.corr(n, t, tow)
            e = None
            if q is not None:
                iode, d, k = q
                if not (np.any(np.isnan(d)) or math.isnan(k)):
                    e = self.find(s, int(iode), t)
                    if e is None:
                        self.c.seen('no ephemeris', self.mode)
                else:
                    self.c.seen('invalid correction', self.mode)
            else:
                self.c.seen('no correction', self.mode)
            ok = e is not None
            neg = self.mode in c20.NEG
            for code in self.codes[w.let(s)]:
                for typ in 'CL':
                    b = self.srv.bias(n, typ, code)
                    if math.isnan(b):
                        ok = False
                        self.c.seen('invalid bias', self.mode)
                        b = 0.0
                    self.bias[s, code, typ] = b if neg else -b
            w.dorb[s], w.dclk[s] = np.zeros(3), 0.0
            if ok:
                w.dorb[s], w.dclk[s] = np.array(d, dtype=float), k
                if s in w.geph:
                    w._glo.pop(s, None)
                    w.geph[s] = e
                else:
                    w.eph[s] = e
                use.append(s)
        return use


def measured(nav):
    """ satellites with measurements """
    return sorted(int(q) for i, q in enumerate(nav.sat) if np.any(nav.y[i]))


@chk.case(30, 900, cpu=600, minseen=20)
def session(c):
    """ receiver session """
    r = c.rng
    mode = MODES[c.idx % len(MODES)]
    week = r.randint(2000, 2400)
    tow = r.choice([r.randint(8000, 590000), r.randint(8000, 590000),
                    3600*r.randint(2, 166), 86400*r.randint(1, 6), 604800])
    tow -= r.choice([20, 60, 90]) if tow % 3600 == 0 else 0
    codes = dict(c20.CODES)
    if mode == sc.BDS_PPP:
        codes['G'] = ['1C', '2L']
    t0 = ro.gps(week, tow)
    s = Live(c, mode, r.choice(SYS[mode]), t0=t0, codes=codes, exact=True,
             pmode=0)
    virgin = copy.deepcopy(s.eng)
    virgin.nav.eph, virgin.nav.geph = [], []
    dt = r.choice([5, 10, 15, 30])
    ne = 10
    n_ok = 0
    err = []
    last, jump, cor = None, set(), {}
    for k in range(ne*dt+1):
        t = timeadd(s.t0, float(k))
        tk = s.tow+k
        s.cs.set_time(t)
        s.tick()
        s.srv.second(t, tk, k == 0)
        if k % dt or not s.srv.usable() or s.srv.vague:
            continue
        s.srv.before(t)
        use = s.prepare(t, tk)
        s.k = k//dt
        o, info = s.epoch(float(dt))
        tag = f"{mode} {s.systems} tow {tk} epoch {k}"
        eng = copy.deepcopy(virgin)
        eng.nav.eph, eng.nav.geph = list(s.nav.eph), list(s.nav.geph)
        c20.quiet(eng.process, o, cs=s.cs)
        exp = [int(q) for q in o.sat if q in use
               and info[q]['el'] >= s.nav.elmin]
        clear = all(abs(info[q]['el']-s.nav.elmin) > 1e-4 for q in o.sat)
        c.seen(mode, s.systems, (s.tow+k)//3600-s.tow//3600,
               tk//604800-s.tow//604800)
        if len(exp) >= 6:
            if clear:
                c.eq(measured(eng.nav), exp, 'satellites', tag)
            c20.residuals(c, s, eng.nav, o, info, tag, True)
            n_ok += 1
        # one engine for the whole session
        s.run(o)
        # a jump of the biases looks like a cycle slip
        b = dict(s.bias)
        if last is not None:
            jump |= {k[0] for k in b if b[k] != last.get(k)}
        last = b
        # and one of the orbit or clock like an outlier
        for q in use:
            v = np.append(s.w.dorb[q], s.w.dclk[q])
            if q in cor and np.abs(v-cor[q]).max() > 15:
                jump.add(q)
            cor[q] = v
        sure = [q for q in exp if q not in jump]
        ok = len(exp) >= 6 and clear and len(sure) >= 6
        if ok:
            c.eq([q for q in measured(s.nav) if q in sure or q not in exp],
                 sure, 'satellites', tag+' continued')
        jump -= set(exp)
        if len(exp) < 6:
            continue
        x = s.nav.xa[:3] if s.nav.smode == 4 else s.nav.x[:3]
        err.append(round(float(np.linalg.norm(x-s.x)), 3))
    if err:
        # few satellites, biased first ambiguities; the residuals above
        # are the sharp criterion
        c.ok(max(err) < 15 and max(err[4:]+[0]) < 1.5+.8*max(err[:4]),
             'position', f"{mode} {s.systems} {err}")
    c.seen('epochs', n_ok)
    c.sample(f"{mode} {s.systems} tow {s.tow} {dt} s, {n_ok} epochs, "
             f"errors {err}")
