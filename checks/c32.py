""" C32: Galileo OSNMA """
import os
from common import Check
import osnma_sim as om
from osnma_sim import WEEK
from cryptography.hazmat.primitives import serialization as se
from cryptography.hazmat.primitives.asymmetric import ec
from cssrlib.osnma import osnma, uOSNMA

chk = Check('C32', ['src/cssrlib/osnma.py'],
            rule='independent OSNMA transmitter with random configuration, '
            'losses and attackers; distinct by configuration, sub-frame '
            'sequence, attack and outcome')

GPS_OFS = 1024
T256 = 'ECDSA P-256/SHA-256'


def receiver(c, keys, root=None, log='log.txt'):
    """ receiver with a Merkle tree file """
    run = om.xml(c.tmp, 'mt.xml', root or bytes(32), keys)
    old = os.getcwd()
    os.chdir(run)
    try:
        n = osnma('mt.xml', logfile=log)
    finally:
        os.chdir(old)
    n.monlevel = c.rng.choice([0, 0, 0, 1, 2])
    return n


def feed(nma, t, prn, msg, conn):
    """ as in the tutorial; t: GST seconds """
    wn, tow = t//WEEK+GPS_OFS, t % WEEK
    nma.prn_a = prn
    nav, b = nma.load_gal_inav(msg)
    nma.save_gal_inav(nav, prn, tow)
    if conn:
        nma.decode(b, wn, tow, prn)


class World():
    """ constellation and its transmitter """

    def __init__(self, c, nsub=None, before=None):
        r = self.r = c.rng
        self.c = c
        self.cfg = om.config(r)
        self.n = nsub or r.choice([5, 8, 16, 22])
        q = r.random()
        hour = r.randrange(20, 2**12-2)*WEEK+3600*r.randrange(168)
        gap = 30*r.choice([0, 0, 1, r.randrange(60), r.randrange(1500)])
        if q < .45:      # around the start of a week
            e = (hour//WEEK+1)*WEEK
            gap = 30*r.randrange(1, 400)
            self.t0 = e-30*(r.randrange(0, self.n+1) if r.random() < .3 else
                            r.randint(2, max(2, self.n-4)))
            hour = (self.t0-gap)//3600*3600
        else:
            self.t0 = hour+gap
        if before:
            self.t0 = hour-before
        self.hour = hour
        self.end = max(self.t0, hour)+30*(self.n+20)
        self.chain = om.Chain(r, self.cfg, hour-30, self.end)
        self.sk = om.ec_key(r)
        self.hdr = om.header(self.cfg)
        self.did = r.randrange(12)
        self.dsm = om.dsm_kroot(r, self.cfg, self.chain, self.sk, hour,
                                self.hdr)
        self.prns = r.sample(range(1, 37), r.randint(2, 7))
        self.conn = sorted(r.sample(self.prns, r.randint(
            max(2, len(self.prns)-2), len(self.prns))))
        self.ofs = {p: r.randrange(16) for p in self.prns}
        self.utc = om.Utc(r)
        self.nav = {}
        self.used = {p: r.sample(range(1024), 30) for p in self.prns}
        for p in self.prns:
            x = om.Nav(r, self.used[p].pop())
            for t in self.times():
                if r.random() < .12:
                    x = om.Nav(r, self.used[p].pop())
                self.nav[p, t] = x
        self.mk, self.tags = {}, {}
        for p in self.conn:
            for t in self.times():
                self.mk[p, t], self.tags[p, t] = om.mack(
                    r, self.cfg, self.chain, p, t,
                    lambda d, t=t: self.nav.get((d, t-30)), self.utc,
                    self.prns) if t >= hour-30 else (om.rb(r, 60), [])

    def times(self):
        return range(self.t0, self.t0+30*self.n, 30)

    def block(self, p, t):
        return ((t-self.t0)//30*3+self.ofs[p]) % len(self.dsm)

    def hk(self, p, t, dsm=None):
        b = self.block(p, t)
        return self.hdr+bytes([(self.did << 4) | b])+(dsm or self.dsm)[b]


def words(r, nav, utc, t):
    o = om.ORDER[t//30 % 2]
    u = utc.words(r)
    out = []
    for m in o:
        if m in nav.w:
            out.append(nav.w[m])
        elif m in u:
            out.append(u[m])
        else:
            out.append((m << 122) | r.getrandbits(122))
    return out


class Model():
    """ what can be authenticated and when """

    def __init__(self, w, slow, vmin=1):
        self.w, self.slow = w, slow
        self.blocks = set()
        self.root = False
        self.cnt = {}
        self.nutc = 0
        self.vmin = vmin
        self.pend = []

    @property
    def auth(self):
        return {k for k, n in self.cnt.items() if n >= self.vmin}

    @property
    def utc(self):
        return self.nutc >= self.vmin

    def add(self, k):
        self.cnt[k] = self.cnt.get(k, 0)+1

    def call(self, a, t, rnav, good=True, tags=True, blk=True):
        """ end of sub-frame t of satellite a. good: its MACK is genuine now
        and in the previous sub-frame """
        w = self.w
        if blk:
            self.blocks.add(w.block(a, t))
            self.root = self.root or len(self.blocks) == len(w.dsm)
        if not self.root or not good or t <= w.hour-30:
            return
        if (a, t-30) not in w.tags:
            return
        if tags:
            for adkd, d in w.tags[a, t-30]:
                x = rnav.get((d, t-60))
                v = x is not None and \
                    x.auth().v == w.nav[d, t-60].auth().v
                if adkd == 0 and v:
                    self.add((d, x.iod))
                elif adkd == 4 and (a, t-60) in rnav and (
                        (a, t-90) in rnav or (t-60)//30 % 2):
                    self.nutc += 1
                elif adkd == 12 and self.slow and v:
                    self.pend.append((t, d, x.iod))
        for s, d, i in self.pend:
            if t-s == 300:
                self.add((d, i))
        self.pend = [x for x in self.pend if t-x[0] < 300]


def state(nma, prns):
    """ authenticated issues of data """
    return {(p, i) for p in prns for i in range(1024) if nma.chk_nav(p, i)}


def check(c, nma, m, w, tag):
    g = state(nma, w.prns)
    c.eq(sorted(g), sorted(m.auth), 'authenticated', tag)
    c.eq(nma.nsat, len({p for p, _ in g}), 'satellites', tag)
    c.eq(bool(nma.status & uOSNMA.ROOTKEY_VERIFIED), m.root, 'root key', tag)
    c.eq(bool(nma.status & uOSNMA.UTC_VERIFIED), m.utc, 'utc', tag)
    c.eq(bool(nma.status & uOSNMA.POS_AUTH), len({p for p, _ in g}) >= 4,
         'position', tag)


def note(c, w, m, what):
    c.seen('configuration', w.cfg['hf'], w.cfg['mf'], w.cfg['ks'],
           w.cfg['ts'], w.cfg['maclt'])
    c.seen(what, w.cfg['maclt'], len(m.auth) > 0)


@chk.case(150, 4000, cpu=200)
def genuine(c):
    """ everything that is sent is authenticated once and in time """
    r = c.rng
    w = World(c)
    how = r.choice(['xml', 'pem', 'der'])
    typ = {w.cfg['pkid']: (T256, om.point(w.sk))}
    if how == 'xml':
        nma = receiver(c, typ)
    else:
        nma = receiver(c, {(w.cfg['pkid'] % 15)+1: (
            T256, om.point(om.ec_key(r)))})
        f = f"{c.tmp}/data/pubkey/osnma/k.{how}"
        with open(f, 'wb') as h:
            h.write(w.sk.public_key().public_bytes(
                se.Encoding.PEM if how == 'pem' else se.Encoding.DER,
                se.PublicFormat.SubjectPublicKeyInfo))
        nma.pubk_bdir = f"{c.tmp}/data/pubkey/osnma/"
        c.ok(nma.load_pubkey_pkid(f'k.{how}', w.cfg['pkid']), 'key file', how)
    other = receiver(c, typ, log='other.txt') if r.random() < .3 else None
    nma.flg_slowmac = r.random() < .7
    nma.vcnt_min = r.choice([1, 1, 2, 3, 5, 8])
    m = Model(w, nma.flg_slowmac, nma.vcnt_min)
    rnav = {}
    for t in w.times():
        wd = {p: words(r, w.nav[p, t], w.utc, t) for p in w.prns}
        for p in w.prns:
            rnav[p, t] = w.nav[p, t]
        for k in range(15):
            o = r.sample(w.prns, len(w.prns))
            for p in o:
                cn = p in w.conn
                nb = bytes(5)
                if cn:
                    hk = w.hk(p, t)
                    nb = bytes([hk[k]])+w.mk[p, t][4*k:4*k+4]
                feed(nma, t+2*k+1, p, om.page(r, wd[p][k], nb), cn)
                if other is not None:  # other antenna, nothing but noise
                    feed(other, t+2*k+1, p, om.page(
                        r, wd[p][k] ^ (r.getrandbits(100) << 5),
                        om.rb(r, 5)), cn)
                if k == 14 and cn:
                    m.call(p, t, rnav)
        check(c, nma, m, w, f"{w.cfg} t={t-w.t0} week {t % WEEK} "
              f"root {t-w.hour}")
    note(c, w, m, 'genuine')
    c.seen('slow', nma.flg_slowmac, w.n)
    c.sample(f"{w.cfg} {w.n} sub-frames {len(m.auth)} issues of data")


@chk.case(160, 8000, cpu=200)
def attack(c):
    """ data which was not signed is never authenticated """
    r = c.rng
    kind = r.choice(['nav', 'flip', 'flip', 'chain', 'late', 'macseq',
                     'mack', 'all', 'delay', 'wrongkey', 'early', 'all',
                     'chain', 'tag', 'sequence'])
    w = World(c, nsub=r.choice([8, 16, 20]),
              before=30*r.randrange(4, 12) if kind == 'early' else None)
    sk = om.ec_key(r) if kind in ('wrongkey', 'early') else w.sk
    if kind == 'early':
        sk = w.sk
    nma = receiver(c, {w.cfg['pkid']: (T256, om.point(sk))})
    nma.flg_slowmac = r.random() < .6
    m = Model(w, nma.flg_slowmac)
    up = Model(w, nma.flg_slowmac)
    if kind == 'wrongkey':
        m.call = lambda *a, **b: None
    ts = list(w.times())
    s = r.choice(ts[:6]) if kind != 'all' or r.random() < .5 else \
        r.choice(ts[2:-4])
    A = r.choice(w.conn)
    D = set(r.sample(w.prns, r.randint(1, len(w.prns))))
    if kind in ('chain', 'late', 'early'):
        D.add(A)
    if kind in ('all', 'delay'):
        D = set(w.prns)
    fake = {p: om.Nav(r, w.used[p].pop()) for p in w.prns}
    oth = om.Chain(r, w.cfg, w.hour-30, w.end,
                   w.chain.alpha if r.random() < .8 else None)
    dsm2 = None
    if kind == 'early':    # the root key used as if it were a chain key
        for t in range(w.t0-30, w.t0+30*w.n+400, 30):
            oth.keys[t] = w.chain.keys[w.hour-30]
    if kind == 'all':
        tk = om.ec_key(r)
        v = r.choice(['own', 'own', 'signature', 'alpha', 'pdk', 'none'])
        if v != 'none':
            while dsm2 is None or len(dsm2) != len(w.dsm):
                dsm2 = om.dsm_kroot(r, w.cfg, oth, tk, w.hour, w.hdr,
                                    None if v == 'own' else v)
        c.seen('forged root', v)
    flip = (r.choice([1, 2, 3, 4, 5]), r.randrange(16, 128))
    delay = 30*r.randint(1, 4)
    rnav = {}
    fk = {}
    for t in ts:
        on = t >= s
        rx, mk = {}, dict(w.mk)
        for p in w.prns:
            x = w.nav[p, t]
            if on and p in D and kind in ('nav', 'chain', 'late', 'all',
                                          'early'):
                x = fake[p]
            elif on and p in D and kind == 'flip':
                x = x.flip(*flip)
            elif on and kind == 'delay':
                x = w.nav[p, max(w.t0, t-delay)]
            rnav[p, t] = rx[p] = x
        for p in w.conn:
            mine = p == A or kind in ('all', 'early', 'tag')
            if not on or not mine:
                continue
            if kind in ('chain', 'all', 'early'):
                mk[p, t] = fk[p, t] = om.mack(
                    r, w.cfg, oth, p, t, lambda d: rnav.get((d, t-30)),
                    w.utc, w.prns)[0]
            elif kind == 'late':  # with keys already published
                mk[p, t] = om.mack(
                    r, w.cfg, w.chain, p, t, lambda d: rnav.get((d, t-30)),
                    w.utc, w.prns, key_shift=-r.choice([30, 60])
                    if t-60 >= w.hour else -30)[0] \
                    if t >= w.hour else om.rb(r, 60)
            elif kind in ('macseq', 'sequence'):
                mk[p, t] = om.mack(
                    r, w.cfg, w.chain, p, t, lambda d: rnav.get((d, t-30)),
                    w.utc, w.prns, bad=kind)[0]
            elif kind == 'tag':   # one bit of every tag
                b = bytearray(mk[p, t])
                n = om.TLEN[w.cfg['ts']]//8
                for q in range(len(om.seq(w.cfg, t))):
                    b[q*(n+2)+r.randrange(n)] ^= 1 << r.randrange(8)
                mk[p, t] = bytes(b)
            elif kind == 'mack' and r.random() < .5:
                b = bytearray(mk[p, t])
                for q in range(r.choice([1, 1, 8])):
                    b[r.randrange(60)] ^= 1 << r.randrange(8)
                mk[p, t] = bytes(b)
        wd = {p: words(r, rx[p], w.utc, t) for p in w.prns}
        order = r.sample(w.prns, len(w.prns))
        if kind == 'chain' and r.random() < .7:   # attacker is the first
            order.remove(A)
            order.insert(0, A)
        for k in range(15):
            for p in order:
                cn = p in w.conn
                nb = bytes(5)
                if cn:
                    u = t
                    if on and kind == 'delay':
                        u = max(w.t0, t-delay)
                    hk = w.hk(p, u, dsm2 if on else None)
                    nb = bytes([hk[k]])+mk[p, u][4*k:4*k+4]
                feed(nma, t+2*k+1, p, om.page(r, wd[p][k], nb), cn)
                if k == 14 and cn:
                    g, tg, bk = True, True, True
                    if kind == 'mack' and p == A:
                        g = not on
                    elif kind == 'tag':
                        tg = t-30 < s
                    elif kind in ('chain', 'late', 'macseq',
                                  'sequence') and p == A:
                        g = not on if kind == 'chain' else t-30 < s
                    elif kind in ('all', 'delay') and on:
                        g = False
                        bk = kind == 'delay' or dsm2 is None
                        if kind == 'delay':
                            m.blocks.add(w.block(p, max(w.t0, t-delay)))
                            m.root = m.root or len(m.blocks) == len(w.dsm)
                            bk = False
                    elif kind == 'early':
                        g = False
                    m.call(p, t, rnav, g, tg, bk)
                    # its tags of the sub-frame before are genuine
                    up.call(p, t, rnav, g or kind == 'chain' and t == s)
        tag = f"{kind} {w.cfg} t={t-w.t0} from {s-w.t0} by {A} on {D} " \
            f"{flip} {delay} slow {nma.flg_slowmac}"
        if kind == 'mack':
            g = state(nma, w.prns)
            c.ok(g <= {(p, x.iod) for (p, u), x in rnav.items()},
                 'unknown', tag)
            c.ok(m.auth <= g, 'others', tag)
            continue
        g = state(nma, w.prns)
        if kind in ('nav', 'chain', 'late', 'all', 'early', 'wrongkey'):
            c.ok(not any((p, fake[p].iod) in g for p in D),
                 'forged data authenticated', tag)
        if kind == 'wrongkey':
            c.eq(g, set(), 'authenticated', tag)
            c.ok(not nma.status & uOSNMA.ROOTKEY_VERIFIED, 'root key', tag)
            c.eq(nma.nsat, 0, 'satellites', tag)
        elif kind == 'all':
            c.eq(sorted(g), sorted(m.auth), 'authenticated', tag)
        elif kind == 'early':
            if t < w.hour:
                c.eq(g, set(), 'authenticated', tag)
        else:
            if len(w.conn) == 1 or (nma.flg_slowmac and len(w.conn) < 2):
                continue
            if kind == 'chain':
                c.ok(m.auth <= g <= up.auth, 'authenticated',
                     lambda: f"{tag} {m.auth-g} {g-up.auth}")
            else:
                c.eq(sorted(g), sorted(m.auth), 'authenticated', tag)
            c.eq(nma.nsat, len({p for p, _ in g}), 'satellites', tag)
    c.seen('attack', kind, w.cfg['maclt'], nma.flg_slowmac)
    c.seen('attack and authenticated', kind, len(state(nma, w.prns)) > 0)


@chk.case(80, 2500, cpu=200)
def losses(c):
    """ lost pages and satellites: still nothing wrong, and satellites
    received completely are authenticated """
    r = c.rng
    w = World(c, nsub=r.choice([12, 20]))
    nma = receiver(c, {w.cfg['pkid']: (T256, om.point(w.sk))})
    nma.flg_slowmac = r.random() < .5
    pl = r.choice([.005, .02, .1])
    lost = {(p, t): {k for k in range(15) if r.random() < pl}
            for p in w.prns for t in w.times()}
    for p in w.prns:     # outage
        if r.random() < .3:
            a = r.choice(list(w.times()))
            for t in range(a, a+30*r.randint(1, 5), 30):
                lost[p, t] = set(range(15))
    if r.random() < .3:  # of all satellites
        a = r.choice(list(w.times()))
        for p in w.prns:
            for t in range(a, a+30*r.randint(1, 3), 30):
                lost[p, t] = set(range(15))
    blocks, root = set(), False
    legit = {(p, w.nav[p, t].iod) for p in w.prns for t in w.times()}
    must = set()

    def ok(p, *tt):
        return all((p, t) in lost and not lost[p, t] for t in tt)
    for t in w.times():
        wd = {p: words(r, w.nav[p, t], w.utc, t) for p in w.prns}
        for k in range(15):
            for p in r.sample(w.prns, len(w.prns)):
                cn = p in w.conn
                nb = bytes(5)
                if k in lost[p, t]:
                    continue
                if cn:
                    hk = w.hk(p, t)
                    nb = bytes([hk[k]])+w.mk[p, t][4*k:4*k+4]
                feed(nma, t+2*k+1, p, om.page(r, wd[p][k], nb), cn)
                if k == 14 and cn and ok(p, t):
                    blocks.add(w.block(p, t))
                    root = root or len(blocks) == len(w.dsm)
                    if root and ok(p, t-30) and t > w.hour-30:
                        for adkd, d in w.tags[p, t-30]:
                            if adkd == 0 and ok(d, t-60, t-30) and (
                                    ok(d, t) or (d, t) in lost and
                                    0 not in lost[d, t]):
                                must.add((d, w.nav[d, t-60].iod))
        g = state(nma, w.prns)
        tag = f"{w.cfg} t={t-w.t0} loss {pl}"
        c.ok(g <= legit, 'unknown data authenticated', tag)
        c.ok(must <= g, 'not authenticated', lambda: f"{tag} {must-g}")
        c.eq(bool(nma.status & uOSNMA.ROOTKEY_VERIFIED), root, 'root', tag)
        c.eq(nma.nsat, len({p for p, _ in g}), 'satellites', tag)
    c.seen('losses', pl, w.cfg['maclt'], len(must) > 0)


@chk.case(40, 2500, cpu=200)
def renewal(c):
    """ public key over the air: DSM-PKR """
    r = c.rng
    w = World(c, nsub=22)
    kinds = ['good', 'good', 'key', 'path', 'pdp', 'root']
    kind = r.choice(kinds)
    pk = om.point(w.sk)
    idx = r.randrange(16)
    p521 = om.ec_key(r, ec.SECP521R1())
    i5 = (idx+r.randrange(1, 16)) % 16
    id5 = w.cfg['pkid'] % 15+1
    mt = om.Merkle(r, {idx: (1, w.cfg['pkid'], pk),
                       i5: (3, id5, om.point(p521))})
    evil = om.Merkle(r, {idx: (1, w.cfg['pkid'], pk)})
    d = mt.dsm(r, idx)
    if kind == 'key':      # own key with the genuine path
        d = mt.dsm(r, idx, bytes([0x10 | w.cfg['pkid']])+pk)
        d = mt.dsm(r, (idx+1) % 16, mt.m[idx])
    elif kind == 'path':
        d = evil.dsm(r, idx, root=mt.root)
    elif kind == 'pdp':
        d[-1] = d[-1][:-1]+bytes([d[-1][-1] ^ 1])
    elif kind == 'root':
        d = evil.dsm(r, idx)
    d5 = mt.dsm(r, i5)
    old = om.ec_key(r)
    nma = receiver(c, {id5 % 15+1: (T256, om.point(old))}, mt.root)
    first = r.random() < .5    # before any DSM-KROOT
    st = 10
    seen5, got, rootb = set(), set(), set()
    t0 = w.t0
    for n, t in enumerate(w.times()):
        for a, p in enumerate(w.conn):
            if first == (n < st):
                # one block each
                j = (n*len(w.conn)+a) % (len(d)+len(d5))
                dd, did, j = (d, 13, j) if j < len(d) else \
                    (d5, 15, j-len(d))
                hk = w.hdr+bytes([(did << 4) | j])+dd[j]
                (got if did == 13 else seen5).add(j)
            else:
                hk = w.hk(p, t)
                rootb.add(w.block(p, t))
            for k in range(15):
                feed(nma, t+2*k+1, p, om.page(
                    r, r.getrandbits(122), bytes([hk[k]]) +
                    w.mk[p, t][4*k:4*k+4]), True)
        tag = f"{kind} first {first} t={t-t0}"
        full = kind == 'good' and len(got) == len(d)
        pkx = nma.pk_list.get(w.cfg['pkid'])
        c.eq(pkx is not None and om.point(pkx) == pk, full, 'new key', tag)
        p5 = nma.pk_list.get(id5)
        c.eq(p5 is not None and om.point(p5) == om.point(p521),
             len(seen5) == len(d5), 'P-521 key', tag)
        c.ok(id5 % 15+1 in nma.pk_list, 'old key', tag)
        c.eq(bool(nma.status & uOSNMA.PKR_UPDATED),
             full or len(seen5) == len(d5), 'updated', tag)
        if kind != 'good':
            c.ok(not nma.status & uOSNMA.ROOTKEY_VERIFIED, 'root key', tag)
        elif full and len(rootb) == len(w.dsm):
            c.ok(nma.status & uOSNMA.ROOTKEY_VERIFIED, 'root key', tag)
    c.seen('renewal', kind, first, len(rootb) == len(w.dsm))

