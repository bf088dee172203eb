""" bit level message writer and reader, independent of the library """


class BW():
    """ big-endian bit writer """

    def __init__(self):
        self.v = 0
        self.n = 0

    def __len__(self):
        return self.n

    def u(self, n, v):
        v = int(v)
        assert 0 <= v < (1 << n), (n, v)
        self.v = (self.v << n) | v
        self.n += n
        return self

    def s(self, n, v):
        """ two's complement """
        v = int(v)
        assert -(1 << (n-1)) <= v < (1 << (n-1)), (n, v)
        return self.u(n, v & ((1 << n)-1))

    def g(self, n, v):
        """ sign and magnitude """
        v = int(v)
        assert abs(v) < (1 << (n-1)), (n, v)
        return self.u(n, abs(v) | ((1 << (n-1)) if v < 0 else 0))

    def add(self, fmt, *vals):
        """ 'u6 s16 g5' """
        f = fmt.split()
        assert len(f) == len(vals), (fmt, vals)
        for x, v in zip(f, vals):
            getattr(self, x[0])(int(x[1:]), v)
        return self

    def cat(self, o):
        self.v = (self.v << o.n) | o.v
        self.n += o.n
        return self

    def put(self, i, n, v):
        """ overwrite n bits at position i """
        sh = self.n-i-n
        m = ((1 << n)-1) << sh
        self.v = (self.v & ~m) | ((v & ((1 << n)-1)) << sh)
        return self

    def get(self, i, n):
        return (self.v >> (self.n-i-n)) & ((1 << n)-1)

    def pad(self, n):
        """ zero fill up to n bits """
        assert self.n <= n, (self.n, n)
        return self.u(n-self.n, 0) if n > self.n else self

    def align(self):
        return self.pad((self.n+7)//8*8)

    def bytes(self):
        self.align()
        return self.v.to_bytes(self.n//8, 'big')


def rs(r, n, inv=True):
    """ random signed n-bit integer, extremes included (-2^(n-1) excluded) """
    m = 1 << (n-1)
    k = r.random()
    if k < 0.06:
        return m-1
    if k < 0.12:
        return -(m-1)
    if k < 0.16:
        return 0
    if k < 0.2:
        return -1
    return r.randint(-(m-1), m-1)


def ru(r, n):
    k = r.random()
    if k < 0.05:
        return (1 << n)-1
    if k < 0.1:
        return 0
    return r.randint(0, (1 << n)-1)


def _tab24(poly=0x864cfb):
    t = []
    for b in range(256):
        c = b << 16
        for _ in range(8):
            c = (c << 1) ^ (poly if c & 0x800000 else 0)
        t.append(c & 0xffffff)
    return t


_T24 = _tab24()


def crc24q(buf):
    c = 0
    for b in buf:
        c = ((c << 8) & 0xffffff) ^ _T24[((c >> 16) ^ b) & 0xff]
    return c


def crc24q_bits(v, n):
    """ crc24q of n bits (right aligned in v, zero fill to the left) """
    k = (n+7)//8
    return crc24q(int(v).to_bytes(k, 'big'))


def rtcm3(body, rsv=0):
    """ RTCM3 transport frame """
    b = bytes([0xd3, (rsv << 2) | (len(body) >> 8), len(body) & 0xff])+body
    return b+crc24q(b).to_bytes(3, 'big')
