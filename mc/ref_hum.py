"""Plain reference model of the humidity methods."""
import math

NAN = float('nan')


def es(t):
    """Saturation vapour pressure (hPa) after Sonntag (1990)."""
    if t != t:
        return NAN
    c = t - 273.15
    if t >= 273.15:
        return 6.112 * math.exp(17.62 * c / (243.12 + c))
    return 6.112 * math.exp(22.46 * c / (272.62 + c))


def vapour(t, hum):
    return es(t) * hum / 100.0


def dewpoint(t, hum):
    if t != t or hum != hum:
        return NAN
    x = math.log(vapour(t, hum) / 6.112)
    if t >= 273.15:
        return 273.15 + 243.12 * x / (17.62 - x)
    return 273.15 + 272.62 * x / (22.46 - x)


def raw(method, days, temp, a0=None, a1=None, kr=None, table=None):
    """Values before correction and limiting.

    days: list of dicts (date, tmin, tmax, hum, hum_min, hum_max, precip); temp: hourly list.
    """
    out = []
    if method == 'minimal':
        a0, a1 = 0.0, 1.0
    for d, day in enumerate(days):
        nxt = days[d + 1] if d + 1 < len(days) else day
        for h in range(24):
            t = temp[24 * d + h] if temp is not None else None
            if method == 'equal':
                v = day['hum']
            elif method in ('minimal', 'dewpoint_regression'):
                v = 100.0 * es(a0 + a1 * day['tmin']) / es(t)
            elif method == 'linear_dewpoint_variation':
                td = a0 + a1 * day['tmin']
                tn = a0 + a1 * nxt['tmin']
                td += h / 24.0 * (tn - td)
                td += 0.5 * math.sin((h + 1) * math.pi / kr - 3 * math.pi / 4)
                v = 100.0 * es(td) / es(t)
            elif method == 'min_max':
                share = (t - day['tmin']) / (day['tmax'] - day['tmin'])
                v = day['hum_max'] + share * (day['hum_min'] - day['hum_max'])
            else:
                v = table[day['date'].month, h, bool(day['precip'] > 0)]
            out.append(v)
    return out


def finish(values, days, preserve):
    out = []
    for d, day in enumerate(days):
        v = values[24 * d:24 * d + 24]
        if preserve:
            valid = [x for x in v if x == x]
            if valid and day['hum'] == day['hum']:
                bias = sum(valid) / len(valid) - day['hum']
                v = [x - bias for x in v]
        out += [x if x != x else min(max(x, 0.0), 100.0) for x in v]
    return out
