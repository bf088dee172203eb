""" C03: observation codes and carrier frequencies """
from common import Check
from cssrlib.gnss import (uGNSS, uTYP, uSIG, rSigRnx, rCST)

chk = Check('C03', ['src/cssrlib/gnss.py'],
            rule='all (constellation, type, band, attribute) combinations are '
            'enumerated against the RINEX 3/4 observation code tables; '
            'distinct by code')

# RINEX 3.05/4.00 tracking attributes; frequency in MHz
TBL = {
    'G': {'1': ('CSLXPWYM', 1575.42), '2': ('CDSLXPWYMN', 1227.60),
          '5': ('IQX', 1176.45)},
    'R': {'1': ('CP', None), '2': ('CP', None), '3': ('IQX', 1202.025),
          '4': ('ABX', 1600.995), '6': ('ABX', 1248.06)},
    'E': {'1': ('ABCXZ', 1575.42), '5': ('IQX', 1176.45),
          '6': ('ABCXZ', 1278.75), '7': ('IQX', 1207.14),
          '8': ('IQX', 1191.795)},
    'S': {'1': ('C', 1575.42), '5': ('IQX', 1176.45)},
    'J': {'1': ('CESLXZB', 1575.42), '2': ('SLX', 1227.60),
          '5': ('IQXDPZ', 1176.45), '6': ('SLXEZ', 1278.75)},
    'C': {'2': ('IQX', 1561.098), '1': ('DPXSLZ', 1575.42),
          '5': ('DPX', 1176.45), '7': ('IQXDPZ', 1207.14),
          '8': ('DPX', 1191.795), '6': ('IQXDPZ', 1268.52)},
    'I': {'1': ('DPX', 1575.42), '5': ('ABCX', 1176.45),
          '9': ('ABCX', 2492.028)},
}
# bands whose attribute table is not closed in the implementation
# (legacy or proprietary codes are tolerated there)
OPEN = {('R', '1'): 'X', ('R', '2'): 'X'}
SYS = {'G': uGNSS.GPS, 'R': uGNSS.GLO, 'E': uGNSS.GAL, 'C': uGNSS.BDS,
       'J': uGNSS.QZS, 'S': uGNSS.SBS, 'I': uGNSS.IRN}
TYP = {'C': uTYP.C, 'L': uTYP.L, 'D': uTYP.D, 'S': uTYP.S}
CL = 299792458.0


def freq(c, s, ref, tag, k=None):
    f = s.frequency(k) if k is not None else s.frequency()
    c.ok(f is not None and abs(f-ref) < 0.5, 'frequency', f"{tag}: {f} {ref}")
    w = s.wavelength(k) if k is not None else s.wavelength()
    c.ok(w is not None and abs(w-CL/ref) < 1e-9, 'wavelength', f"{tag} {w}")


@chk.case(1, 1)
def codes(c):
    seen = {}
    for ch, bands in TBL.items():
        for b, (att, fr) in bands.items():
            for a in 'ABCDEFGHIJKLMNOPQRSTUVWXYZ':
                for t in 'CLDS':
                    code = ch+t+b+a
                    if a not in att:
                        if a in OPEN.get((ch, b), ''):
                            continue
                        for args in ((code,), (SYS[ch], t+b+a)):
                            try:
                                s = rSigRnx(*args)
                                c.ok(False, 'accepted', f"{code} -> {s!r}")
                            except ValueError:
                                c.ok(True, '')
                        c.seen('reject', ch, b, a)
                        continue
                    try:
                        s = rSigRnx(code)
                        s2 = rSigRnx(SYS[ch], t+b+a)
                    except ValueError:
                        c.ok(False, 'rejected', code)
                        continue
                    c.seen(code)
                    c.eq(repr(s), code, 'repr')
                    c.eq(s.str(), t+b+a, 'str')
                    c.ok(s == s2 and hash(s) == hash(s2), 'equal', code)
                    c.eq((s.sys, s.typ), (SYS[ch], TYP[t]), 'fields', code)
                    s3 = rSigRnx(s.sys, s.typ, s.sig)
                    c.ok(s3 == s and hash(s3) == hash(s), 'triple', code)
                    c.ok(s not in seen, 'unique', f"{code} {seen.get(s)}")
                    seen[s] = code
                    c.eq(s.band(), uSIG(int(b)*100), 'band', code)
                    c.eq(repr(rSigRnx(s.sys, s.typ, s.band())).strip(),
                         ch+t+b, 'band form', code)
                    c.eq(s.isGPS_PY(), ch == 'G' and b in '12' and a == 'W',
                         'isGPS_PY', code)
                    for t2 in 'CLDS':
                        u = s.toTyp(TYP[t2])
                        c.eq(repr(u), ch+t2+b+a, 'toTyp', code)
                    for a2 in att:
                        c.eq(repr(s.toAtt(a2)), ch+t+b+a2, 'toAtt', code)
                    c.eq(repr(s.toAtt()).strip(), ch+t+b, 'toAtt:none', code)
                    c.eq(repr(s), code, 'mutated')
                    if fr is not None:
                        freq(c, s, fr*1e6, code)
                        freq(c, s, fr*1e6, code, 3)
                        freq(c, rSigRnx(s.sys, s.typ, s.band()), fr*1e6,
                             code+' band')
                    else:
                        f0, d = ((1602e6, 562.5e3) if b == '1'
                                 else (1246e6, 437.5e3))
                        for k in range(-7, 14):
                            freq(c, s, f0+k*d, f"{code} k={k}", k)
                        c.ok(s.frequency() is None and s.wavelength() is None,
                             'fdma without channel', code)
            # code without attribute
            s = rSigRnx(ch+'C'+b)
            c.eq(s.str().strip(), 'C'+b, 'no attribute')
    for bad in ('', 'G', 'GC', 'GX1C', 'GCC1', 'G C1C', 'GC1CX'):
        try:
            rSigRnx(bad)
            c.ok(False, 'malformed accepted', bad)
        except (ValueError, IndexError):
            c.ok(True, '')
    c.eq(rCST.CLIGHT, CL, 'speed of light')
    c.sample(f"{len(seen)} codes accepted")
