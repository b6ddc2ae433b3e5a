"""An independent reading of cron expressions (second minute hour day-of-month month day-of-week year): which instants match.
Used to give the specification the slots of a general expression."""
import datetime

BASE = datetime.datetime(2030, 1, 1)
CLIP = 2000000000
DOW = {n: i for i, n in enumerate(["mon", "tue", "wed", "thu", "fri", "sat", "sun"])}
MON = {n: i + 1 for i, n in enumerate(["jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec"])}


def field(s, lo, hi, names=None, wrap=False):
    out = set()

    def one(x):
        return names[x.lower()[:3]] if names and not x.isdigit() else int(x)
    for part in s.split(","):
        step = 1
        if "/" in part:
            part, step = part.split("/")
            step = int(step)
        if part in ("*", "?"):
            a, b = lo, hi
        elif "-" in part:
            a, b = map(one, part.split("-"))
        else:
            a = one(part)
            b = hi if step > 1 else a
        out.update(range(a, b + 1, step))
    return out


def slots(expr, limit=30):
    """Matching instants in ms after BASE, in order: at most `limit`, the last one CLIP if there are more far away."""
    f = expr.split()
    sec, mnt, hr = field(f[0], 0, 59), field(f[1], 0, 59), field(f[2], 0, 23)
    dom, mon = field(f[3], 1, 31), field(f[4], 1, 12, MON)
    dow = field(f[5], 0, 6, DOW)
    yr = field(f[6], 1970, 2100)
    out = []
    for d in range(0, 24):
        t = BASE + datetime.timedelta(days=d)
        if t.day not in dom or t.month not in mon or t.weekday() not in dow or t.year not in yr:
            continue
        for h in sorted(hr):
            for m in sorted(mnt):
                for s in sorted(sec):
                    ms = ((d * 24 + h) * 60 + m) * 60000 + s * 1000
                    if ms > 0 and ms < CLIP:
                        out.append(ms)
                    if len(out) >= limit:
                        return out
    if f[6] in ("*", "?") or max(yr) > 2030:
        out.append(CLIP)
    return out


def expression(r):
    c = r.choice
    n = lambda a, b: r.randrange(a, b)
    return c([
        lambda: "*/%d * * * * * *" % c([7, 11, 13, 25, 40]),
        lambda: "%d,%d,%d * * * * * *" % (n(0, 10), n(15, 30), n(35, 60)),
        lambda: "%d-%d * * * * * *" % (n(0, 5), n(6, 12)),
        lambda: "%d %d,%d * * * * *" % (n(0, 60), n(0, 25), n(30, 60)),
        lambda: "%d */%d * * * * *" % (n(0, 60), c([7, 9, 25])),
        lambda: "%d %d */%d * * * *" % (n(0, 60), n(0, 60), c([5, 6, 7])),
        lambda: "0 %d %d-%d * * Mon-Fri *" % (n(0, 60), n(5, 9), n(15, 20)),
        lambda: "0 0 %d * * %s *" % (n(0, 24), c(["Sun", "Mon,Thu", "Sat", "Tue-Thu"])),
        lambda: "%d %d %d %d,%d * * *" % (n(0, 60), n(0, 60), n(0, 24), n(1, 8), n(9, 20)),
        lambda: "0 0 0 %d Jan * *" % n(2, 20),
        lambda: "10-40/%d %d %d %d 1 * 2030" % (c([5, 15]), n(0, 60), n(0, 24), n(1, 9)),
        lambda: "%d %d %d */%d Jan,Mar * 2030" % (n(0, 60), n(0, 60), n(0, 24), c([2, 3, 5])),
        lambda: "59 59 23 * * * *",
        lambda: "0 0 0 29 2 * *",
    ])()
