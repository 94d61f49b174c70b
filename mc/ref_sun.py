"""Plain (scalar) reference of sun times and potential radiation."""
import math


def sun_times(doy, lon, lat, tz):
    """-> sunrise, noon, sunset, day length in hours; Bourges (1985) and Spencer (1971)."""
    b = math.radians(360.0 / 365.25 * (doy - 79.346))
    decl = math.radians(0.3723 + 23.2567 * math.sin(b) - 0.7580 * math.cos(b)
                        + 0.1149 * math.sin(2 * b) + 0.3656 * math.cos(2 * b)
                        - 0.1712 * math.sin(3 * b) + 0.0201 * math.cos(3 * b))
    s = 2 * math.pi * (doy - 1) / 365.0
    eqt = 12 / math.pi * (0.000075 + 0.001868 * math.cos(s) - 0.032077 * math.sin(s)
                          - 0.014615 * math.cos(2 * s) - 0.040849 * math.sin(2 * s))
    # the nearest noon, also across the date line
    noon = 12.0 - ((lon - 15.0 * tz + 180.0) % 360.0 - 180.0) / 15.0 - eqt
    x = -math.tan(math.radians(lat)) * math.tan(decl)
    if x < -1:
        half = 12.0
    elif x > 1:
        half = 0.0
    else:
        half = 12.0 / math.pi * math.acos(x)
    rise, fall = noon - half, noon + half
    return (rise + 24 if rise < 0 else rise, noon, fall - 24 if fall > 24 else fall, 2 * half)


def potential(ts, lon, lat, tz, slope=0.0, azimuth=0.0, clouds=0.0):
    """-> direct, diffuse, solar constant at this day, cosine of zenith angle (unlimited)"""
    doy = ts.timetuple().tm_yday
    decl = math.radians(23.43697) * math.cos(2 * math.pi * (doy - 173.0) / 365.25)
    t = ts.hour + ts.minute / 60.0 + (lon - 15.0 * tz) / 15.0
    ha = math.pi * (t / 12.0 - 1.0)
    p = math.radians(lat)
    cz = math.sin(decl) * math.sin(p) + math.cos(decl) * math.cos(p) * math.cos(ha)
    b = 2 * math.pi * doy / 365.25
    s0 = 1367.0 * (1.00011 + 0.034221 * math.cos(b) + 0.00128 * math.sin(b)
                   + 0.000719 * math.cos(2 * b) + 0.000077 * math.sin(2 * b))
    if cz <= 0:
        return 0.0, 0.0, s0, cz
    c = min(cz, 1.0)
    sz = math.sin(math.acos(c))
    sin_mu = math.cos(decl) * math.sin(ha) / sz if sz else 0.0
    mu = math.asin(min(max(sin_mu, -1.0), 1.0))
    cosi = math.cos(slope) * c + math.sin(slope) * sz * math.cos(mu - azimuth)
    direct = max(s0 * (0.6 + 0.2 * c) * (1.0 - clouds) * cosi, 0.0)
    diffuse = s0 * (0.3 + 0.1 * c) * clouds * c
    return direct, diffuse, s0, cz
