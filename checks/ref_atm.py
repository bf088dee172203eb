""" reference atmosphere models, written from the standards """
import math

C = 299792458.0
PI = math.pi


def lin(tab, lat):
    """ tables at 15, 30, .. 75 degrees """
    if lat <= 15:
        return list(tab[0])
    if lat >= 75:
        return list(tab[-1])
    k = int((lat-15)//15)
    f = (lat-15-15*k)/15
    return [a*(1-f)+b*f for a, b in zip(tab[k], tab[k+1])]


# MOPS (RTCA DO-229) tropospheric model ------------------------------------
M_AVG = [(1013.25, 299.65, 26.31, 6.30e-3, 2.77),
         (1017.25, 294.15, 21.79, 6.05e-3, 3.15),
         (1015.75, 283.15, 11.66, 5.58e-3, 2.57),
         (1011.75, 272.15, 6.78, 5.39e-3, 1.81),
         (1013.00, 263.65, 4.11, 4.53e-3, 1.55)]
M_VAR = [(0, 0, 0, 0, 0), (-3.75, 7.0, 8.85, 0.25e-3, 0.33),
         (-2.25, 11.0, 7.24, 0.32e-3, 0.46),
         (-1.75, 15.0, 5.36, 0.81e-3, 0.74),
         (-0.50, 14.5, 3.39, 0.62e-3, 0.30)]


def mops(doy, lat, hgt):
    """ zenith hydrostatic and wet delay """
    a, v = lin(M_AVG, abs(lat)), lin(M_VAR, abs(lat))
    cs = math.cos(2*PI*(doy-(28 if lat >= 0 else 211))/365.25)
    P, T, e, b, lam = [x-y*cs for x, y in zip(a, v)]
    k1, k2, Rd, gm, g = 77.604, 382000.0, 287.054, 9.784, 9.80665
    zh = 1e-6*k1*Rd*P/gm
    zw = 1e-6*k2*Rd/(gm*(lam+1)-b*Rd)*e/T
    q = 1-b*hgt/T
    return q**(g/(Rd*b))*zh, q**((lam+1)*g/(Rd*b)-1)*zw


def mops_map(el):
    return 1.001/math.sqrt(0.002001+math.sin(el)**2)


# Saastamoinen with the standard atmosphere and Niell mapping ---------------
def saast(lat, hgt, humi):
    p = 1013.25*(1-2.2557e-5*hgt)**5.2568
    T = 15-6.5e-3*hgt+273.16
    e = 6.108*humi*math.exp((17.15*T-4684)/(T-38.45))
    h = 0.0022768*p/(1-0.00266*math.cos(2*lat)-0.00028*hgt/1e3)
    return h, 0.002277*(1255/T+0.05)*e


N_H = [(1.2769934e-3, 2.9153695e-3, 62.610505e-3),
       (1.2683230e-3, 2.9152299e-3, 62.837393e-3),
       (1.2465397e-3, 2.9288445e-3, 63.721774e-3),
       (1.2196049e-3, 2.9022565e-3, 63.824265e-3),
       (1.2045996e-3, 2.9024912e-3, 64.258455e-3)]
N_A = [(0, 0, 0), (1.2709626e-5, 2.1414979e-5, 9.0128400e-5),
       (2.6523662e-5, 3.0160779e-5, 4.3497037e-5),
       (3.4000452e-5, 7.2562722e-5, 84.795348e-5),
       (4.1202191e-5, 11.723375e-5, 170.37206e-5)]
N_W = [(5.8021897e-4, 1.4275268e-3, 4.3472961e-2),
       (5.6794847e-4, 1.5138625e-3, 4.6729510e-2),
       (5.8118019e-4, 1.4572752e-3, 4.3908931e-2),
       (5.9727542e-4, 1.5007428e-3, 4.4626982e-2),
       (6.1641693e-4, 1.7599082e-3, 5.4736038e-2)]


def herring(s, a, b, c):
    return (1+a/(1+b/(1+c)))/(s+a/(s+b/(s+c)))


def niell(doy, lat, hgt, el):
    y = (doy-28)/365.25+(0.5 if lat < 0 else 0)
    d = abs(math.degrees(lat))
    h = [x-v*math.cos(2*PI*y) for x, v in zip(lin(N_H, d), lin(N_A, d))]
    w = lin(N_W, d)
    s = math.sin(el)
    mh = herring(s, *h)+(1/s-herring(s, 2.53e-5, 5.49e-3, 1.14e-3))*hgt/1e3
    return mh, herring(s, *w)


# broadcast ionosphere (IS-GPS-200, 20.3.3.5.2.5) ---------------------------
def klobuchar(tow, lat, lon, az, el, alp, bet):
    E, A = el/PI, az
    psi = 0.0137/(E+0.11)-0.022
    phi = min(0.416, max(-0.416, lat/PI+psi*math.cos(A)))
    lam = lon/PI+psi*math.sin(A)/math.cos(phi*PI)
    phm = phi+0.064*math.cos((lam-1.617)*PI)
    t = (43200*lam+tow) % 86400
    F = 1+16*(0.53-E)**3
    per = max(72000, sum(b*phm**n for n, b in enumerate(bet)))
    amp = max(0, sum(a*phm**n for n, a in enumerate(alp)))
    x = 2*PI*(t-50400)/per
    if abs(x) < 1.57:
        return C*F*(5e-9+amp*(1-x**2/2+x**4/24))
    return C*F*5e-9
