"""Local time in zones given as POSIX TZ strings, computed on integers."""
from vlib.csvref import civil

# name: (TZ string, standard offset s, daylight offset s or None, (start rule), (end rule)); rule = (month, week, weekday, local seconds)
ZONES = {
    "UTC": ("UTC0", 0, None, None, None),
    "New York": ("EST5EDT,M3.2.0,M11.1.0", -18000, -14400, (3, 2, 0, 7200), (11, 1, 0, 7200)),
    "Berlin": ("CET-1CEST,M3.5.0,M10.5.0/3", 3600, 7200, (3, 5, 0, 7200), (10, 5, 0, 10800)),
    "Sydney": ("AEST-10AEDT,M10.1.0,M4.1.0/3", 36000, 39600, (10, 1, 0, 7200), (4, 1, 0, 10800)),
    "Lord Howe": ("LHST-10:30LHDT-11,M10.1.0,M4.1.0", 37800, 39600, (10, 1, 0, 7200), (4, 1, 0, 7200)),
    "Kolkata": ("IST-5:30", 19800, None, None, None),
    "Kathmandu": ("NPT-5:45", 20700, None, None, None),
    "Marquesas": ("MART9:30", -34200, None, None, None),
    "Kiritimati": ("LINT-14", 50400, None, None, None),
    "Baker": ("BIT12", -43200, None, None, None),
    "odd": ("ODD3:17:29", -(3 * 3600 + 17 * 60 + 29), None, None, None),
}


def days(y, m, d):
    y -= m <= 2
    era = y // 400
    yoe = y - era * 400
    doy = (153 * (m + (-3 if m > 2 else 9)) + 2) // 5 + d - 1
    return era * 146097 + yoe * 365 + yoe // 4 - yoe // 100 + doy - 719468


def rule_day(y, rule):
    m, week, wd, _ = rule
    first = days(y, m, 1)
    d = first + (wd - (first + 4) % 7) % 7 + (week - 1) * 7
    while civil(d)[1] != m:
        d -= 7
    return d


def changes(zone, y):
    """UTC seconds of the start and the end of daylight saving in year y."""
    _, std, dst, a, b = zone
    return rule_day(y, a) * 86400 + a[3] - std, rule_day(y, b) * 86400 + b[3] - dst


def offset(zone, secs):
    _, std, dst, a, _ = zone
    if dst is None:
        return std
    y = civil((secs + std) // 86400)[0]
    lo, hi = changes(zone, y)
    on = lo <= secs < hi if lo < hi else not hi <= secs < lo
    return dst if on else std
