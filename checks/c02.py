""" C02: satellite numbering """
from common import Check
from cssrlib.gnss import (uGNSS, prn2sat, sat2prn, sat2id, id2sat, char2sys,
                          sys2char, sys2str)

chk = Check('C02', ['src/cssrlib/gnss.py'],
            rule='every satellite slot of every constellation is enumerated; '
            'distinct by satellite')

# constellation letter, first PRN, number of slots, offset of the RINEX id
TBL = {'G': (uGNSS.GPS, 1, 32, 0), 'E': (uGNSS.GAL, 1, 36, 0),
       'J': (uGNSS.QZS, 193, 17, 192), 'C': (uGNSS.BDS, 1, 63, 0),
       'R': (uGNSS.GLO, 1, 32, 0), 'S': (uGNSS.SBS, 120, 39, 100),
       'I': (uGNSS.IRN, 1, 14, 0)}
NAMES = {'G': 'GPS', 'R': 'GLONASS', 'E': 'GALILEO', 'C': 'BEIDOU',
         'J': 'QZSS', 'S': 'SBAS', 'I': 'IRNSS'}


@chk.case(1, 1)
def enumerate_all(c):
    used = {}
    for ch, (sys, p0, n, o) in TBL.items():
        c.eq(char2sys(ch), sys, 'char2sys', ch)
        c.eq(sys2char(sys), ch, 'sys2char', ch)
        c.eq(sys2str(sys), NAMES[ch], 'sys2str', ch)
        for prn in range(p0, p0+n):
            sat = prn2sat(sys, prn)
            key = (ch, prn)
            c.ok(1 <= sat <= uGNSS.MAXSAT, 'range', f"{key} -> {sat}")
            c.ok(int(sat) not in used, 'collision',
                 f"{key} and {used.get(int(sat))} -> {sat}")
            used[int(sat)] = key
            s2, p2 = sat2prn(sat)
            c.ok(s2 == sys and p2 == prn, 'sat2prn', f"{key}: {s2} {p2}")
            c.ok(sys2char(uGNSS(int(s2))) == ch, 'sat2prn:sys', f"{key}")
            id_ = sat2id(sat)
            c.eq(id_, '%s%02d' % (ch, prn-o), 'sat2id', str(key))
            c.eq(int(id2sat('%s%02d' % (ch, prn-o))), int(sat), 'id2sat',
                 str(key))
            c.eq(int(id2sat('%s%2d' % (ch, prn-o))), int(sat), 'id2sat:blank',
                 str(key))
            c.seen(ch, prn)
    c.eq(sorted(used), list(range(1, int(uGNSS.MAXSAT)+1)), 'dense')
    s2, p2 = sat2prn(int(uGNSS.MAXSAT)+1)
    c.ok(s2 == uGNSS.NONE, 'beyond range', str(s2))
    for ch in 'XLTU':
        c.eq(char2sys(ch), uGNSS.NONE, 'unknown letter', ch)
        c.eq(id2sat(ch+'01'), -1, 'unknown id', ch)
    letters = ''.join(TBL)
    c.eq([int(s) for s in char2sys(letters)],
         [int(TBL[x][0]) for x in letters], 'char2sys:list')
    c.eq(''.join(sys2char([TBL[x][0] for x in letters])), letters,
         'sys2char:list')
    c.sample(f"{len(used)} satellites, 1..{max(used)}")
