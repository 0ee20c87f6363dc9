"""C16: calendar and clock fields, time zones, parsing and formatting of Date / DateTimeNano / TimeSpan."""
from datetime import datetime, timedelta, timezone
from fractions import Fraction

import numpy as np
import riptable as rt
import lay
from proj import NA, BAD, same

NS = 10**9
DAYNS = 86400 * NS
LASTDAY = 25932  # 2040-12-31
I8MIN, I4MIN = -(2**63), -(2**31)
ZONES = ["UTC", "GMT", "NYC", "America/New_York", "US/Eastern", "DUBLIN", "Europe/Dublin", "Australia/Sydney", "Sydney", "Asia/Hong_Kong", "Hongkong",
         "Asia/Tokyo", "Tokyo", "Asia/Seoul", "Seoul", "Asia/Kolkata"]
CANON = {"NYC": "America/New_York", "US/Eastern": "America/New_York", "DUBLIN": "Europe/Dublin", "Sydney": "Australia/Sydney", "Hongkong": "Asia/Hong_Kong",
         "Tokyo": "Asia/Tokyo", "Seoul": "Asia/Seoul", "GMT": "UTC"}
_TR = {}


def transitions(zone):
    """UTC seconds of offset changes of a zone (only used to aim inputs)"""
    zone = CANON.get(zone, zone)
    if zone not in _TR:
        from dateutil import tz

        z, ep, out = tz.gettz(zone), datetime(1970, 1, 1, tzinfo=timezone.utc), []
        off = lambda h: (ep + timedelta(hours=h / 2)).astimezone(z).utcoffset()
        prev = off(48)
        for day in range(2, LASTDAY):
            o = off(day * 48)
            if o != prev:
                for h in range((day - 1) * 48 + 1, day * 48 + 1):
                    if off(h) != prev:
                        out.append(h * 1800)
                        break
                prev = o
        _TR[zone] = out
    return _TR[zone]


def tri(n):
    n = int(n)
    return [n // DAYNS, n % DAYNS // NS, n % NS]


def num(t):
    return t[0] * DAYNS + t[1] * NS + t[2]


def instant(rng, zone, wall=False):
    """an instant (or, with wall, a wall-clock reading) aimed at edges"""
    r = rng.random()
    tr = transitions(zone)
    if r < 0.3 and tr:
        base = rng.choice(tr) * NS
        base += rng.choice([0, 0, -1, 1, -NS, NS, 1800 * NS, -1800 * NS, 3600 * NS, -3600 * NS, 3599 * NS, 7200 * NS, rng.randint(-4 * 3600, 4 * 3600) * NS])
        if wall:
            from dateutil import tz

            z = tz.gettz(CANON.get(zone, zone))
            o = (datetime(1970, 1, 1, tzinfo=timezone.utc) + timedelta(seconds=base // NS)).astimezone(z).utcoffset()
            base += int(o.total_seconds()) * NS
    elif r < 0.6:
        y = rng.randint(1970, 2040)
        m, d = rng.choice([(1, 1), (12, 31), (2, 28), (2, 29), (3, 1), (1, 31), (4, 30), (10, 1), (6, 30)])
        try:
            day = (datetime(y, m, d) - datetime(1970, 1, 1)).days
        except ValueError:
            day = (datetime(y, 3, 1) - datetime(1970, 1, 1)).days
        base = day * DAYNS + rng.choice([0, 0, 1, DAYNS - 1, DAYNS // 2, rng.randrange(DAYNS), DAYNS - NS, 5 * 3600 * NS, 4 * 3600 * NS - 1, 19 * 3600 * NS])
    else:
        base = rng.randrange(LASTDAY) * DAYNS + rng.choice([rng.randrange(86400) * NS, rng.randrange(DAYNS), rng.randrange(1440) * 60 * NS])
    return tri(min(max(base, 2 * DAYNS), LASTDAY * DAYNS))


def size(rng):
    return rng.choice([0, 1, 1, 2, 3, 4, 5, 6, 8])


DTNF = ["year", "month", "day_of_month", "day_of_year", "day_of_week", "start_of_week", "is_weekday", "is_weekend", "yyyymmdd", "monthyear", "date", "days_since_epoch",
        "seconds_since_epoch", "nanos_since_midnight", "millis_since_midnight", "day", "hour", "hour_span", "minute", "minute_span", "second", "second_span", "millisecond",
        "millisecond_span", "microsecond", "microsecond_span", "nanosecond", "nanosecond_span", "nanos_since_start_of_year", "time_since_start_of_year", "time_since_midnight",
        "is_dst", "tz_offset"]
DATEF = ["year", "month", "day_of_month", "day_of_year", "day_of_week", "is_weekend", "is_weekday", "is_leapyear", "yyyymmdd", "monthyear", "seconds_since_epoch",
         "start_of_month", "start_of_week"]
UNIT = {"seconds_since_epoch": NS, "nanos_since_midnight": 1, "millis_since_midnight": 10**6, "day": DAYNS, "hour": 3600 * NS, "minute": 60 * NS, "second": NS,
        "millisecond": 10**6, "microsecond": 1000, "nanosecond": 1, "nanos_since_start_of_year": 1}
NOMISS = {"monthyear", "is_dst", "tz_offset"}
DSTYLE = [("%Y-%m-%d", "y-m-d"), ("%Y%m%d", "ymd"), ("%j", "doy"), ("%a %b %d", "a b d"), ("%m/%d/%Y", "m/d/y")]
TSTYLE = DSTYLE + [("%Y-%m-%d %H:%M:%S", "y-m-d h:m:s"), ("%H:%M:%S", "h:m:s"), ("%Y%m%d %H:%M:%S.%f", "ymd h:m:s.u"), ("%B %d, %Y %I:%M:%S %p", "B d, y h12")]
PSTYLE = {"ymd": None, "y-m-d": None, "y-m-d h:m:s": None, "y-m-dTh:m:s.n": None, "y-m-d h:m:s.n": None, "y-m-d h:m": None, "ymd h:m:s": None, "ymd h:m:s.n": None,
          "ymd h:m:s.u": None, "m/d/y": "%m/%d/%Y", "d b y": "%d %b %Y", "B d, y h12": "%B %d, %Y %I:%M:%S %p", "m/d/yy h:m:s": "%m/%d/%y %H:%M:%S",
          "ymd h:m:s|f": "%Y%m%d %H:%M:%S", "y-m-d h:m:s.n|f": "%Y-%m-%d %H:%M:%S"}
VIAS = ["int", "int", "astz", "settz", "slice", "fancy", "copy", "hstack", "shift", "ds", "view", "where"]


def gens(rng, tier):
    zone = rng.choice(ZONES)
    r = rng.random()
    n = size(rng)
    miss = rng.choice([0, 0, 0.2])

    def ts(wall=False, z=None):
        return [(["z"] if rng.random() < 0.6 else ["s"]) if rng.random() < miss else instant(rng, z or zone, wall) for _ in range(n)]

    if r < 0.42:
        return {"fn": "field", "z": zone, "z0": rng.choice(ZONES), "via": rng.choice(VIAS), "t": ts(), "scal": int(rng.random() < 0.35)}
    if r < 0.57:
        n = max(n, 1) if rng.random() < 0.9 else 0
        return {"fn": "dfield", "via": rng.choice(["int", "str", "slice", "hstack", "copy", "fancy"]),
                "t": [(["z"] if rng.random() < 0.6 else ["s"]) if rng.random() < miss else [instant(rng, "UTC")[0]] for _ in range(n)]}
    if r < 0.72:
        n = max(n, 1)
        style = rng.choice(list(PSTYLE))
        cls = "DateTimeNano"
        if style in ("ymd", "y-m-d", "m/d/y", "d b y") and rng.random() < 0.6:
            cls = "Date"
        if rng.random() < 0.15:
            cls, style = "TimeSpan", rng.choice(["h:m:s", "h:m:s.u", "h:m:s.n", "h:m"])
        c = {"fn": "parse", "cls": cls, "style": style, "from": zone, "to": rng.choice(ZONES), "dt": rng.choice(["S", "U", "list", "cat", "scalar"]),
             "w": [[] if rng.random() < miss else instant(rng, zone, True) for _ in range(n)], "bad": rng.choice(["", "abc", "20191301", "2019", "99999999"])}
        if c["dt"] == "scalar":
            c["w"] = c["w"][:1]
        return c
    if r < 0.82:
        n = max(n, 1)
        return {"fn": "conv", "form": rng.choice(["int", "int", "dt64", "dt64s", "pydt", "date", "start", "startdate", "startstr", "matlab", "series"]), "from": zone, "to": rng.choice(ZONES),
                "w": [[] if rng.random() < miss else instant(rng, zone, True) for _ in range(n)]}
    if r < 0.92:
        return {"fn": "show", "z": zone, "t": ts()}
    if r < 0.94:
        a = rng.randint(2, LASTDAY - 400)
        step = rng.choice([1, 1, 1, 2, 3, 7, 10])
        days = rng.choice([-1, -1, rng.randint(0, 20)])
        return {"fn": "range", "a": a, "b": a + rng.randint(0, 40), "step": step, "days": days, "closed": rng.choice(["", "left", "right"]) if days < 0 else "", "int": rng.randint(0, 1)}
    if r < 0.96:
        a = rng.randint(0, 20) * 3600 + rng.choice([0, 0, 1800, 600])
        b = a + rng.randint(1, max(1, (86399 - a) // 900)) * 900
        step = rng.choice([900, 1800, 3600, 600, 7200, 90])
        if (b - a) // step > 40:
            step = 3600
        n = max(n, 1)
        form = rng.choice(["int", "span", "list"])
        if form == "int" and step % 60:
            step = 600
        cuts = list(range(a, b, step)) + [b]
        if form == "list":
            cuts = sorted(rng.sample(cuts, min(len(cuts), rng.randint(2, 5)))) if len(cuts) > 1 else cuts
            if len(cuts) < 2:
                cuts = [a, b]
        t = ts()
        for i, x in enumerate(t):  # aim at the cut points
            if len(x) == 3 and rng.random() < 0.5:
                w = rng.choice(cuts) * NS + rng.choice([0, 0, 1, -1])
                t[i] = [x[0], w // NS % 86400, w % NS]
        z = "UTC" if rng.random() < 0.5 else zone
        return {"fn": "cut", "form": form, "cuts": cuts, "step": step, "pre": rng.randint(0, 1), "post": rng.randint(0, 1), "side": rng.choice(["left", "right"]), "z": z, "t": t}
    if r < 0.98:
        n = max(n, 1)
        base = instant(rng, zone)[0]
        step = rng.choice([1, 10, 60, 300, 1800, 3600, 7200, 21600])
        t = [[base + rng.choice([0, 0, 0, 1]) if step >= 60 else base, rng.randrange(86400) if step >= 60 else 1000 + rng.randrange(100), rng.choice([0, 5, 999999999])] for _ in range(n)]
        drop = rng.randint(0, 1)
        if drop and miss:
            t[0] = ["z"]
        return {"fn": "resample", "z": zone, "step": step, "t": t, "drop": drop}
    return {"fn": "span", "t": [([] if rng.random() < miss else tri(rng.choice([-1, 1, 1]) * rng.choice([rng.randrange(DAYNS), rng.randrange(86400) * NS, rng.randrange(20 * DAYNS), 0, 1, DAYNS, DAYNS - 1]))) for _ in range(n)]}


def cases(tier, rng):
    for z in ZONES:  # every transition of every zone, on the instant and around it
        tr = transitions(z) if z not in CANON else transitions(z)[::9]
        for i in range(0, len(tr), 10):
            yield {"fn": "field", "z": z, "z0": "UTC", "via": "int", "t": [tri(x * NS + o) for x in tr[i:i + 10] for o in (-1, 0)], "scal": 0, "only": ["is_dst", "hour", "date", "tz_offset"]}
            w = []
            for x in tr[i:i + 10]:
                for o in (-7200, -3601, 3600, 7200, 10800):
                    w.append(tri((x + o) * NS))
            yield {"fn": "conv", "form": "int", "from": z, "to": "UTC", "w": wall(w, z)}
    for y in range(1970, 2041):  # every year end, leap day and month end
        t = []
        for m in range(1, 13):
            a = (datetime(y, m, 1) - datetime(1970, 1, 1)).days
            t += [[x] for x in (a - 1, a) if 0 < x]
        t = t if y > 1970 else t[1:]
        yield {"fn": "dfield", "via": "int", "t": t}
        yield {"fn": "field", "z": "UTC", "z0": "UTC", "via": "int", "t": [[x[0], 0, 0] for x in t] + [[x[0], 86399, 999999999] for x in t], "scal": 0,
               "only": ["year", "month", "day_of_month", "day_of_year", "yyyymmdd", "day_of_week"]}
    for _ in range(1500 if tier == "quick" else 24000):
        yield gens(rng, tier)


def wall(ts, zone):
    from dateutil import tz

    z = tz.gettz(CANON.get(zone, zone))
    out = []
    for t in ts:
        o = (datetime(1970, 1, 1, tzinfo=timezone.utc) + timedelta(seconds=num(t) // NS)).astimezone(z).utcoffset()
        out.append(tri(num(t) + int(o.total_seconds()) * NS))
    return out


def ints(t):
    return [0 if x == ["z"] else I8MIN if x == ["s"] else num(x) for x in t]


def norm(t):
    return [x if len(x) == 3 else [] for x in t]


def dtn(arr, z):
    return rt.DateTimeNano(arr, from_tz="UTC", to_tz=z)


def build(c):
    a = np.array(ints(c["t"]), dtype=np.int64)
    z, via = c["z"], c["via"]
    if via == "astz":
        return dtn(lay.fa(a), c["z0"]).astimezone(z)
    if via == "settz":
        o = dtn(lay.fa(a), c["z0"])
        o.set_timezone(z)
        return o
    if via == "slice":
        return dtn(np.concatenate([[DAYNS], a, [DAYNS]]), z)[1:-1]
    if via == "fancy":
        return dtn(a[::-1].copy(), z)[np.arange(len(a))[::-1]]
    if via == "copy":
        return dtn(lay.fa(a), z).copy()
    if via == "hstack":
        h = len(a) // 2
        return rt.hstack([dtn(a[:h], z), dtn(a[h:], z)])
    if via == "shift" and len(a):
        return dtn(np.concatenate([a, [DAYNS]]), z).shift(1)[1:]
    if via == "ds":
        ds = rt.Dataset({"a": dtn(lay.fa(a), z), "b": np.arange(len(a))})
        return ds.copy()[:, ["a", "b"]].a if len(a) else ds.a
    if via == "where" and len(a):
        return rt.where(np.ones(len(a), bool), dtn(a, z), dtn(a, z)) if False else dtn(a, z).filter(np.ones(len(a), bool)) if hasattr(rt.DateTimeNano, "filter") else dtn(a, z)
    if via == "view":
        return dtn(lay.fa(a), z)[:]
    return dtn(lay.fa(a), z)


def pint(x):
    x = int(x)
    return NA if x in (I4MIN, I8MIN) else x if abs(x) < 2**30 else BAD


def pval(f, x):
    """one observed field value"""
    if f == "monthyear":
        return x.decode() if isinstance(x, bytes) else str(x)
    if f in ("is_dst", "is_weekday", "is_weekend", "is_leapyear"):
        return int(bool(x))
    if f == "tz_offset":
        return int(round(float(x) * 3600))
    if f in ("start_of_week", "start_of_month"):
        return NA if int(x) in (0, I4MIN) else pint(x)
    if f == "date":
        return [] if int(x) in (0, I8MIN) else tri(x)
    if f in UNIT or f.endswith("_span") or f.startswith("time_since"):
        u = UNIT.get(f, 1)
        if isinstance(x, (float, np.floating)):
            return [] if np.isnan(x) else tri(round(Fraction(float(x)) * u))
        return [] if int(x) in (I8MIN, I4MIN) else tri(int(x) * u)
    if isinstance(x, (float, np.floating)):
        return NA if np.isnan(x) else pint(x) if x == int(x) else BAD
    return pint(x)


def get(o, f):
    v = getattr(o, f)
    return v() if callable(v) else v


def one(v):
    return np.asarray(v)[0] if isinstance(v, np.ndarray) and v.shape == (1,) else v


def plist(f, v):
    if isinstance(v, rt.FastArray):
        v = v._np
    return [pval(f, x) for x in np.asarray(v)]


def zname(o):
    return o._timezone._to_tz


def rint(o):
    return [[] if int(x) in (0, I8MIN) else tri(x) for x in np.asarray(o._np)]


def exc(e):
    return [{"e": "unexpected", "why": type(e).__name__}]


def execute(case):
    evs = globals()["x_" + case["fn"]](case)
    return evs


def x_field(c):
    o = build(c)
    t = norm(c["t"])
    raw = np.array(o._np)
    evs = [{"e": "same", "form": c["via"], "t": t, "out": rint(o), "to": c["z"], "zout": zname(o), "cls": "DateTimeNano", "clsout": type(o).__name__, "frame": 1}]
    for f in c.get("only", DTNF):
        if f in NOMISS and [] in t:
            continue
        if c["scal"] and len(t):
            try:
                out = [pval(f, one(get(o[i], f))) for i in range(len(t))]
            except Exception as e:
                evs += exc(e)
                evs[-1]["why"] += ":DateTimeNanoScalar." + f
                continue
            cls = "DateTimeNanoScalar"
        else:
            try:
                out = plist(f, get(o, f))
            except Exception as e:
                evs += exc(e)
                evs[-1]["why"] += ":DateTimeNano." + f
                continue
            cls = "DateTimeNano"
        evs.append({"e": "field", "cls": cls, "f": f, "z": c["z"], "t": t, "out": out, "frame": int(same(raw, o._np))})
    return evs


def x_dfield(c):
    a = np.array([0 if x == ["z"] else I4MIN if x == ["s"] else x[0] for x in c["t"]], dtype=np.int32)
    via = c["via"]
    if via == "str":
        if not len(a):
            return []
        o = rt.Date(np.array(["" if x in (0, I4MIN) else str(np.datetime64(int(x), "D")) for x in a]))
        a = np.where(a == I4MIN, 0, a)
    elif via == "slice":
        o = rt.Date(np.concatenate([[5], a, [6]]).astype(np.int32))[1:-1]
    elif via == "hstack":
        o = rt.hstack([rt.Date(a[:1]), rt.Date(a[1:])])
    elif via == "copy":
        o = rt.Date(lay.fa(a)).copy()
    elif via == "fancy":
        o = rt.Date(a[::-1].copy())[np.arange(len(a))[::-1]]
    else:
        o = rt.Date(lay.fa(a))
    t = [NA if x in (0, I4MIN) else int(x) for x in a]
    raw = np.array(o._np)
    evs = [{"e": "same", "form": "date-" + via, "t": t, "out": [NA if x in (0, I4MIN) else int(x) for x in raw], "to": "UTC", "zout": "UTC", "cls": "Date", "clsout": type(o).__name__, "frame": 1}]
    for f in DATEF:
        if f in NOMISS and NA in t:
            continue
        try:
            out = plist(f, get(o, f))
        except Exception as e:
            evs += exc(e)
            evs[-1]["why"] += ":Date." + f
            continue
        evs.append({"e": "dfield", "cls": "Date", "f": f, "t": t, "out": out, "frame": int(same(raw, o._np))})
    for fmt, st in DSTYLE:
        if NA in t:
            continue
        evs.append({"e": "dshow", "form": "strftime", "style": st, "t": t, "miss": "", "out": [str(x) for x in o.strftime(fmt)], "frame": int(same(raw, o._np))})
    if len(t):
        evs.append({"e": "dshow", "form": "str", "style": "y-m-d", "t": t, "miss": "Inv", "out": [str(o[i]) for i in range(len(t))], "frame": 1})
        evs.append({"e": "dshow", "form": "repr", "style": "y-m-d", "t": t, "miss": "Inv", "out": [x.strip("'") for x in str(o).split(", ")] if len(t) < 20 else [str(o[i]) for i in range(len(t))], "frame": 1})
    return evs


TXT = {"ymd": "%Y%m%d", "y-m-d": "%Y-%m-%d", "y-m-d h:m:s": "%Y-%m-%d %H:%M:%S", "y-m-d h:m": "%Y-%m-%d %H:%M", "ymd h:m:s": "%Y%m%d %H:%M:%S", "m/d/y": "%m/%d/%Y",
       "d b y": "%d %b %Y", "B d, y h12": "%B %d, %Y %I:%M:%S %p", "m/d/yy h:m:s": "%m/%d/%y %H:%M:%S", "h:m:s": "%H:%M:%S", "h:m": "%H:%M"}


def text(style, w):
    d = datetime(1970, 1, 1) + timedelta(days=w[0], seconds=w[1])
    if style.endswith(".n"):
        return text(style[:-2], w) + "." + "%09d" % w[2]
    if style.endswith(".u"):
        return text(style[:-2], w) + "." + "%06d" % (w[2] // 1000)
    if style == "y-m-dTh:m:s":
        return d.strftime("%Y-%m-%dT%H:%M:%S")
    return d.strftime(TXT[style])


def x_parse(c):
    style, fmt = c["style"].split("|")[0], PSTYLE.get(c["style"])
    if fmt and "%y" in fmt and any(w and not (0 < w[0] < LASTDAY) for w in c["w"]):
        return []
    txt = [text(style, w) if w else c["bad"] for w in c["w"]]
    if c["cls"] == "TimeSpan":
        if not all(c["w"]):
            return []
    if fmt and not all(c["w"]):
        return []
    if c["dt"] == "S":
        arr = lay.view(np.array(txt, dtype="S").view(rt.FastArray))
    elif c["dt"] == "U":
        arr = lay.view(rt.FastArray(np.array(txt, dtype="U"), unicode=True))
    elif c["dt"] == "cat":
        if c["cls"] == "TimeSpan" or fmt or not all(c["w"]):
            return []
        arr = rt.Cat(txt)
    elif c["dt"] == "scalar":
        arr = txt[0]
    else:
        arr = list(txt)
    raw = np.array(arr) if isinstance(arr, np.ndarray) else None
    ev = {"e": "parse", "cls": c["cls"], "style": style, "from": c["from"], "to": c["to"], "w": c["w"], "text": txt}
    if c["cls"] == "Date":
        o = rt.Date(arr, format=fmt) if fmt else rt.Date(arr)
        ev.update(out=[[] if int(x) in (0, I4MIN) else [int(x), 0, 0] for x in o._np], zout="UTC")
    elif c["cls"] == "TimeSpan":
        o = rt.TimeSpan(arr)
        ev.update(out=[tri(x) for x in o._np], zout="UTC")
    else:
        kw = {"format": fmt} if fmt else {}
        o = rt.DateTimeNano(arr, from_tz=c["from"], to_tz=c["to"], **kw)
        ev.update(out=rint(o), zout=zname(o))
    ev["frame"] = int(raw is None or same(raw, np.array(arr)))
    evs = [ev]
    if type(o).__name__ != c["cls"]:
        evs.append({"e": "unexpected", "why": "class:" + type(o).__name__})
    return evs


def x_conv(c):
    form, w = c["form"], [list(x) for x in c["w"]]
    kw = dict(from_tz=c["from"], to_tz=c["to"])
    vals = [0 if not x else num(x) for x in w]
    frame = 1
    if form == "int":
        a = lay.fa(np.array(vals, dtype=np.int64))
        raw = np.array(a)
        o = rt.DateTimeNano(a, **kw)
        frame = int(same(raw, np.array(a)))
    elif form in ("dt64", "dt64s"):
        if not all(w):
            return []
        a = np.array(vals, dtype=np.int64).view("M8[ns]")
        if form == "dt64s":
            a = a.astype("M8[s]")
            w = [[x[0], x[1], 0] for x in w]
        o = rt.DateTimeNano(a, **kw)
    elif form == "pydt":
        if not all(w):
            return []
        a = [datetime(1970, 1, 1) + timedelta(days=x[0], seconds=x[1], microseconds=x[2] // 1000) for x in w]
        w = [[x[0], x[1], x[2] - x[2] % 1000] for x in w]
        o = rt.DateTimeNano(np.array(a, dtype=object), **kw)
    elif form == "date":
        w = [x and [x[0], 0, 0] for x in w]
        o = rt.DateTimeNano(rt.Date(np.array([x[0] if x else 0 for x in w], dtype=np.int32)), **kw)
    elif form == "start":  # one start date, spans from midnight
        if not all(w):
            return []
        w = [[w[0][0], x[1], x[2]] for x in w]
        o = rt.DateTimeNano(rt.TimeSpan(np.array([x[1] * NS + x[2] for x in w], dtype=np.float64)), start_date=str(np.datetime64(w[0][0], "D")).replace("-", ""), **kw)
    elif form == "startdate":
        if not all(w):
            return []
        d = rt.Date(np.array([x[0] for x in w], dtype=np.int32))
        o = rt.DateTimeNano(rt.TimeSpan(np.array([x[1] * NS + x[2] for x in w], dtype=np.float64)), start_date=d, **kw)
    elif form == "startstr":
        if not all(w):
            return []
        d = rt.Date(np.array([x[0] for x in w], dtype=np.int32))
        o = rt.DateTimeNano(np.array([text("h:m:s.n", x) for x in w]), start_date=d, **kw)
    elif form == "series":
        if not all(w):
            return []
        o = rt.datestring_to_nano(rt.FA([text("y-m-d", x) for x in w]), time=rt.FA([text("h:m:s.n", x) for x in w]), **kw)
    else:  # matlab day numbers, exact in a double
        w = [x and [x[0], x[1] - x[1] % 10800, 0] for x in w]
        o = rt.DateTimeNano(np.array([x[0] + 719529 + x[1] / 86400 if x else np.nan for x in w]), from_matlab=True, **kw)
    return [{"e": "conv", "form": form, "from": c["from"], "to": c["to"], "w": w, "out": rint(o), "zout": zname(o), "frame": frame}]


def x_show(c):
    o = dtn(lay.fa(np.array(ints(c["t"]), dtype=np.int64)), c["z"])
    t = norm(c["t"])
    raw = np.array(o._np)
    evs = []

    def ev(form, style, out, miss=""):
        evs.append({"e": "show", "form": form, "style": style, "z": c["z"], "t": t, "miss": miss, "out": [x.decode() if isinstance(x, bytes) else str(x) for x in out], "frame": int(same(raw, o._np))})

    if [] not in t:
        for fmt, st in TSTYLE:
            ev("strftime", st, o.strftime(fmt))
            if len(t):
                ev("scalar-strftime", st, [o[i].strftime(fmt) for i in range(len(t))])
    if len(t):
        ev("str", "ymd h:m:s.n", [str(o[i]) for i in range(len(t))], "Inv")
        ev("array-str", "ymd h:m:s.n", [x.strip("'") for x in str(o).split(", ")], "Inv")
        ev("iso", "y-m-dTh:m:s.n", o.to_iso(), "NaT")
        p = dtn(np.array(o._np), c["z"])
        p.format_short
        ev("short", "h:m:s", [x.strip("'") for x in str(p).split(", ")], "Inv")
        p.format_medium
        ev("medium", "ymd", [x.strip("'") for x in str(p).split(", ")], "Inv")
        p.format_long
        ev("long", "ymd h:m:s.n", [str(x) for x in p], "Inv")
    return evs


def x_span(c):
    if not c["t"]:
        return []
    o = rt.TimeSpan(lay.fa(np.array([num(x) if x else np.nan for x in c["t"]], dtype=np.float64)))
    t = c["t"]
    raw = np.array(o._np)
    evs = [{"e": "sshow", "form": "str", "style": "h:m:s.n", "t": t, "miss": "Inv", "out": [str(o[i]) for i in range(len(t))], "frame": 1},
           {"e": "sshow", "form": "str", "style": "h:m:s.n", "t": t, "miss": "Inv", "out": [x.strip("'") for x in str(o).split(", ")], "frame": 1}]
    if all(x and -1 <= x[0] <= 0 for x in t) and all(num(x) > -DAYNS for x in t):
        for fmt, st in (("%H:%M:%S", "h:m:s"), ("%H:%M", "h:m"), ("%H:%M:%S.%f", "h:m:s.u")):
            evs.append({"e": "sshow", "form": "strftime", "style": st, "t": t, "miss": "", "out": [str(x) for x in o.strftime(fmt)], "frame": int(same(raw, o._np))})
            evs.append({"e": "sshow", "form": "scalar-strftime", "style": st, "t": t, "miss": "", "out": [str(o[i].strftime(fmt)) for i in range(len(t))], "frame": 1})
    if all(x and x[0] >= 0 for x in t):
        evs.append({"e": "hhmmss", "t": t, "out": [pint(x) for x in o.hhmmss]})
    return evs


def x_range(c):
    s = lambda d: (int if c["int"] else str)(str(np.datetime64(d, "D")).replace("-", ""))
    kw = {"step": c["step"]}
    if c["days"] >= 0:
        kw["days"] = c["days"]
    else:
        kw["end"] = s(c["b"])
        if c["closed"]:
            kw["closed"] = c["closed"]
    o = rt.Date.range(s(c["a"]), **kw)
    return [{"e": "range", "a": c["a"], "b": c["b"], "step": c["step"], "days": c["days"], "closed": c["closed"], "out": [int(x) for x in o._np]}]


def hm(s):
    return (s // 3600, s % 3600 // 60) if s % 60 == 0 else (s // 3600, s % 3600 // 60, s % 60)


def x_cut(c):
    o = dtn(lay.fa(np.array(ints(c["t"]), dtype=np.int64)), c["z"])
    raw = np.array(o._np)
    kw = {"add_pre_bucket": bool(c["pre"]), "add_post_bucket": bool(c["post"]), "label": c["side"]}
    cuts = list(c["cuts"])
    if c["form"] == "list":
        r = o.cut_time([hm(x) for x in cuts], **kw)
    else:
        b = c["step"] // 60 if c["form"] == "int" else rt.TimeSpan(c["step"], "s")
        r = o.cut_time(b, start_time=hm(cuts[0]), end_time=hm(cuts[-1]), **kw)
    if c["pre"]:
        cuts = [0] + cuts
    if c["post"]:
        cuts = cuts + [86400]
    style = "h:m" if all(x % 60 == 0 for x in cuts) else "h:m:s"
    labels = [x.decode() if isinstance(x, bytes) else str(x) for x in r.category_array]
    return [{"e": "cut", "z": c["z"], "cuts": cuts, "t": norm(c["t"]), "out": [int(x) for x in r._np], "nlab": len(labels), "labels": labels, "style": style, "side": c["side"], "pre": c["pre"],
             "post": c["post"], "frame": int(same(raw, o._np))}]


def x_resample(c):
    o = dtn(lay.fa(np.array(ints(c["t"]), dtype=np.int64)), c["z"])
    s = c["step"]
    rule = "%dH" % (s // 3600) if s % 3600 == 0 else "%dT" % (s // 60) if s % 60 == 0 else "%dS" % s
    r = o.resample(rule, dropna=bool(c["drop"]))
    if len(r) > 20000:
        return []
    return [{"e": "resample", "z": c["z"], "step": s, "drop": c["drop"], "t": norm(c["t"]), "out": rint(r), "zout": zname(r)}]
