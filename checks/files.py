""" writers of the product files of a simulated session (independent of the
code under test): RINEX OBS/NAV/CLK, SP3, Bias-SINEX, ANTEX """
import datetime
import math
from cssrlib.gnss import uGNSS, sat2prn
import ref_orbit as ro

U0 = datetime.datetime(1970, 1, 1)
LETSYS = {v: k for k, v in ro.LET.items()}

# a signal nobody asks for
OTHER = {'G': '5Q', 'E': '7Q', 'J': '5Q', 'C': '2I', 'R': '3Q'}


def sid(sat):
    s, p = sat2prn(int(sat))
    s = uGNSS(int(s))
    return f"{ro.LET[s]}{p-192 if s == uGNSS.QZS else p:02d}"


def dt(t, off=0):
    return U0+datetime.timedelta(seconds=int(t.time)+off,
                                 microseconds=round(t.sec*1e6))


def lab(s, label):
    return f"{s:<60}{label}\n"


def n19(*v):
    return ''.join('%19.12E' % x for x in v)


def nav(path, w, r, ion=None, ver='3.04'):
    o = [lab(f"     {ver}           N: GNSS NAV DATA    M: MIXED",
             'RINEX VERSION / TYPE')]
    if ion is not None:
        for k, n in enumerate(('GPSA', 'GPSB')):
            o.append(lab(n+' '+''.join('%12.4E' % x for x in ion[k]),
                         'IONOSPHERIC CORR'))
    o.append(lab('    18', 'LEAP SECONDS'))
    o.append(lab('', 'END OF HEADER'))
    recs = []
    for s, e in w.eph.items():
        let = sid(s)[0]
        off = -14 if let == 'C' else 0
        q = sid(s)+dt(e.toc, off).strftime(' %Y %m %d %H %M %S')
        q += n19(e.af0, e.af1, e.af2)+'\n'
        sow = e.toes
        week = e.week+(0 if let != 'C' else 0)
        rows = [(float(e.iode), e.crs, e.deln, e.M0),
                (e.cuc, e.e, e.cus, math.sqrt(e.A)),
                (sow, e.cic, e.OMG0, e.cis), (e.i0, e.crc, e.omg, e.OMGd)]
        if let in 'GJ':
            rows += [(e.idot, 1.0, float(week), 0.0),
                     (2.0, float(e.svh), e.tgd, float(e.iodc)),
                     (sow, 4.0 if let == 'G' else 0.0)]
        elif let == 'E':
            rows += [(e.idot, 517.0, float(week), 0.0),
                     (3.12, float(e.svh), e.tgd_b, e.tgd), (sow,)]
        elif let == 'C':
            rows += [(e.idot, 0.0, float(week), 0.0),
                     (2.0, float(e.svh), e.tgd, e.tgd_b),
                     (sow, float(e.iodc))]
        recs.append(q+''.join('    '+n19(*x)+'\n' for x in rows))
    for s, g in w.geph.items():
        d = dt(g.toe, -18)
        q = sid(s)+d.strftime(' %Y %m %d %H %M %S')
        f = (g.toe.time-18-ro.GPS0-600) % 604800
        q += n19(-g.taun, g.gamn, float(f))+'\n'
        for i, x in enumerate((float(g.svh), float(g.frq), 0.0)):
            q += '    '+n19(g.pos[i]/1e3, g.vel[i]/1e3, g.acc[i]/1e3, x)+'\n'
        recs.append(q)
    r.shuffle(recs)
    with open(path, 'w') as fh:
        fh.write(''.join(o+recs))


class ObsFile():
    """ RINEX 3 observation file; codes: {'G': ['1C', ...]} """

    def __init__(self, path, r, codes, t0, pos, rcv, ant, ch=None,
                 ver='3.04', extra=True):
        self.r, self.path = r, path
        self.codes = codes
        self.cols = {}
        o = [lab(f"     {ver}           OBSERVATION DATA    M",
                 'RINEX VERSION / TYPE'),
             lab(f"{'1':20s}{rcv:20s}{'1.0':20s}", 'REC # / TYPE / VERS'),
             lab(f"{'2':20s}{ant:20s}", 'ANT # / TYPE'),
             lab('%14.4f%14.4f%14.4f' % tuple(pos), 'APPROX POSITION XYZ'),
             lab('%14.4f%14.4f%14.4f' % (0, 0, 0), 'ANTENNA: DELTA H/E/N')]
        lets = list(codes)
        r.shuffle(lets)
        for s in lets:
            cols = [(t, x) for x in codes[s] for t in 'CLS']
            if extra:
                cols += [('D', x) for x in codes[s]]
                cols += [(t, OTHER[s]) for t in 'CLDS' if r.random() < .3]
            r.shuffle(cols)
            self.cols[s] = cols
            for j in range(0, len(cols), 13):
                a = ''.join(' '+t+x for t, x in cols[j:j+13])
                o.append(lab((f"{s}  {len(cols):3d}" if j == 0 else ' '*6)+a,
                             'SYS / # / OBS TYPES'))
        if ch:
            ks = sorted(ch)
            for j in range(0, len(ks), 8):
                a = ''.join(' %s %2d' % (k, ch[k]) for k in ks[j:j+8])
                o.append(lab(('%3d' % len(ks) if j == 0 else '   ')+a,
                             'GLONASS SLOT / FRQ #'))
        d = dt(t0)
        o.append(lab('%6d%6d%6d%6d%6d%13.7f     GPS' % (
            d.year, d.month, d.day, d.hour, d.minute, d.second),
            'TIME OF FIRST OBS'))
        o.append(lab('', 'END OF HEADER'))
        self.o = o

    def add(self, obs, empty=0.0):
        """ one epoch; index of code k of the simulated receiver """
        r = self.r
        if r.random() < empty:      # an event record in between
            self.o.append('>                              4  1\n')
            self.o.append(lab('an event', 'COMMENT'))
        d = dt(obs.t)
        self.o.append('> %s%11.7f  0%3d\n' % (
            d.strftime('%Y %m %d %H %M'), d.second+d.microsecond*1e-6,
            len(obs.sat)))
        rows = []
        for i, s in enumerate(obs.sat):
            q = sid(s)
            x = ''
            for t, c in self.cols[q[0]]:
                if c == OTHER[q[0]] or t == 'D':
                    x += '%14.3f  ' % r.uniform(-4000, 4000)
                    continue
                k = self.codes[q[0]].index(c)
                v = {'C': obs.P, 'L': obs.L, 'S': obs.S}[t][i, k]
                ll = str(int(obs.lli[i, k])) if t == 'L' and \
                    obs.lli[i, k] else ' '
                x += ' '*16 if v == 0 else '%14.3f%s%s' % (
                    v, ll, '7' if t == 'L' else ' ')
            rows.append((q+x).rstrip()+'\n')
        self.o += rows

    def close(self):
        with open(self.path, 'w') as fh:
            fh.write(''.join(self.o))


def sp3(path, state, sats, t0, n, step):
    """ state(sat, t) -> position [m], clock [s] """
    from cssrlib.gnss import timeadd

    def ep(d):
        return '%04d %2d %2d %2d %2d %11.8f' % (
            d.year, d.month, d.day, d.hour, d.minute, d.second)
    d0 = dt(t0)
    o = ['#cP%s %7d ORBIT IGS14 HLM  IGS\n' % (ep(d0), n)]
    sec = (d0-datetime.datetime(1980, 1, 6)).total_seconds()
    o.append('## %4d %15.8f %14.8f %5d %15.13f\n' % (
        sec//604800, sec % 604800, step, 44244+sec//86400,
        sec % 86400/86400))
    ids = [sid(s) for s in sats]
    for k in range(5):
        a = ids[17*k:17*k+17]
        o.append('+ %s   %s\n' % ('%4d' % len(ids) if k == 0 else '    ',
                                  ''.join(a+['  0']*(17-len(a)))))
    for k in range(5):
        o.append('++       %s\n' % ('  0'*17))
    o.append('%c M  cc GPS ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc\n')
    o.append('%c cc cc ccc ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc\n')
    o.append('%f  1.2500000  1.025000000  0.00000000000  0.000000000000000\n')
    o.append('%f  0.0000000  0.000000000  0.00000000000  0.000000000000000\n')
    o += ['%i    0    0    0    0      0      0      0      0         0\n']*2
    o.append('/* simulated\n')
    for k in range(n):
        t = timeadd(t0, k*step)
        o.append('*  '+ep(dt(t))+'\n')
        for s, i in zip(sats, ids):
            p, ck = state(s, t)
            o.append('P%s%14.6f%14.6f%14.6f%14.6f\n' % (
                i, p[0]/1e3, p[1]/1e3, p[2]/1e3, ck*1e6))
    o.append('EOF\n')
    with open(path, 'w') as fh:
        fh.write(''.join(o))


def clk(path, clock, sats, t0, n, step):
    from cssrlib.gnss import timeadd
    o = [lab('     3.00           C                   G',
             'RINEX VERSION / TYPE'), lab('GPS', 'TIME SYSTEM ID'),
         lab('', 'END OF HEADER')]
    for k in range(n):
        t = timeadd(t0, k*step)
        d = dt(t)
        for s in sats:
            o.append('AS %-4s %4d %02d %02d %02d %02d %9.6f  1   %19.12E\n' % (
                sid(s), d.year, d.month, d.day, d.hour, d.minute, d.second,
                clock(s, t)))
    with open(path, 'w') as fh:
        fh.write(''.join(o))


def bia(path, osb, t0):
    """ osb: {(sat, 'C1C'): ns} """
    d0 = dt(t0).replace(hour=0, minute=0, second=0)

    def yd(d):
        return '%04d:%s:%05d' % (d.year, d.strftime('%j'),
                                 d.hour*3600+d.minute*60+d.second)
    o = ['%=BIA 1.00 IGS\n', '+BIAS/SOLUTION\n',
         '*BIAS SVN_ PRN STATION__ OBS1 OBS2 BIAS_START____ BIAS_END______ '
         'UNIT __ESTIMATED_VALUE____ _STD_DEV___\n']
    for (s, c), v in osb.items():
        o.append(f" OSB  {sid(s)[0]}000 {sid(s):<3}           {c:<4}      "
                 f"{yd(d0)} {yd(d0+datetime.timedelta(days=2))} ns   "
                 f"{v:21.5f} {.001:11.6f}\n")
    o += ['-BIAS/SOLUTION\n', '%=ENDBIA\n']
    with open(path, 'w') as fh:
        fh.write(''.join(o))


def atx(path, ants, r):
    """ ants: (type, code or '', {'G1': (n, e, u)} [mm]) """
    o = [lab('     1.4            M', 'ANTEX VERSION / SYST'),
         lab('A', 'PCV TYPE / REFANT'), lab('', 'END OF HEADER')]
    b = []
    for typ, code, off in ants:
        z = (0, 17, 1) if code else (0, 90, 5)
        n = int((z[1]-z[0])/z[2])+1
        s = lab('', 'START OF ANTENNA')
        s += lab(f"{typ:<20}{code:<20}{'G063':<10}2011-036A",
                 'TYPE / SERIAL NO')
        s += lab(f"  {0:6.1f}", 'DAZI')
        s += lab("  {:6.1f}{:6.1f}{:6.1f}".format(*z), 'ZEN1 / ZEN2 / DZEN')
        s += lab(f"{len(off):6d}", '# OF FREQUENCIES')
        if code:
            s += lab('  2000     1     1     0     0    0.0000000',
                     'VALID FROM')
        for f in off:
            s += lab(f"   {f[0]}0{f[1]}", 'START OF FREQUENCY')
            s += lab("{:10.2f}{:10.2f}{:10.2f}".format(*off[f]),
                     'NORTH / EAST / UP')
            s += '   NOAZI'+'    0.00'*n+'\n'
            s += lab(f"   {f[0]}0{f[1]}", 'END OF FREQUENCY')
        s += lab('', 'END OF ANTENNA')
        b.append(s)
    r.shuffle(b)
    with open(path, 'w') as fh:
        fh.write(''.join(o+b))
