"""Geodesics on the ellipsoid (C33, C34)."""
from fractions import Fraction as F
import math
import random
import signal

import run_h
import vlib

TEN = 10 ** 20
PI = F(31415926535897932384626433832795028841971, 10 ** 40)
WGS84 = (6378137.0, 6356752.3142)
ELLIPSOIDS = [WGS84, WGS84, (6378137.0, 6356752.314140356), (6377397.155, 6356078.962818189),
              (6378160.0, 6356774.719195306), (6371000.0, 6371000.0), (6378249.145, 6356514.869549776)]


def big(x):
    """A number of module Big: 20 decimals, rounded down."""
    n = (F(x) * TEN).__floor__()
    res = []
    for _ in range(5):
        n, r = divmod(n, 10000)
        res.append(r)
    return [n] + res[::-1]


def turn(x):
    """The angle less whole turns."""
    return F(x) - 2 * PI * round(F(x) / (2 * PI))


def leg(a, p1, a1, s, p2, dl, a2=None):
    return dict(p1=big(p1), a1=big(turn(a1)), s=big(F(s) / F(a)), p2=big(p2), l=big(turn(dl)), a2=big(turn(a2 or 0)),
                hasback=int(a2 is not None))


class Slow(Exception):
    pass


def _slow(*_):
    raise Slow('no answer in 5 s')


def attempt(f, *a):
    """('ok', finite numbers) or ('exc', text)"""
    signal.signal(signal.SIGALRM, _slow)
    signal.setitimer(signal.ITIMER_REAL, 5)
    try:
        res = vlib.attempt(f, *a)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return res


def finite(v):
    return all(isinstance(x, (int, float)) and math.isfinite(x) for x in v)


def near(rng, top):
    return rng.choice([-1, 1]) * 10 ** rng.uniform(-7, math.log10(top))


def pair(rng):
    """Two points, in radians, between 10 cm and nearly half way round."""
    while True:
        kind = rng.choice(['any', 'any', 'equator', 'meridian', 'parallel', 'close', 'close', 'pole', 'mirror', 'cell', 'far', 'tiny'])
        p1 = math.radians(rng.uniform(-90, 90))
        l1 = math.radians(rng.uniform(-180, 180))
        if kind == 'any':
            p2, l2 = math.radians(rng.uniform(-90, 90)), math.radians(rng.uniform(-180, 180))
        elif kind == 'equator':
            p1 = rng.choice([0.0, 0.0, 1e-9, -1e-12])
            l1 = rng.choice([0.0, l1])
            p2, l2 = rng.choice([0.0, p1, -p1]), l1 + rng.choice([rng.uniform(-3.1, 3.1), near(rng, 3.1)])
        elif kind == 'meridian':
            p2, l2 = math.radians(rng.uniform(-90, 90)), rng.choice([l1, l1, l1 + near(rng, 1e-3)])
        elif kind == 'parallel':
            p2, l2 = p1, math.radians(rng.uniform(-180, 180))
        elif kind == 'close':
            p2, l2 = p1 + near(rng, .1), l1 + near(rng, .1)
        elif kind == 'tiny':
            w = 10 ** rng.uniform(-7.7, -6)
            t = rng.choice([rng.uniform(0, 2 * math.pi), rng.randint(0, 3) * math.pi / 2])
            p2, l2 = p1 + w * math.cos(t), l1 + w * math.sin(t)
        elif kind == 'pole':
            p1 = rng.choice([-1, 1]) * rng.choice([90, 90, 89.9999, 89.])
            p1 = math.radians(p1)
            p2, l2 = math.radians(rng.uniform(-90, 90)), math.radians(rng.uniform(-180, 180))
        elif kind == 'mirror':
            p2, l2 = -p1, rng.choice([l1, math.radians(rng.uniform(-180, 180))])
        elif kind == 'cell':
            w = math.radians(rng.choice([.01, 1 / 3600., .00025, .1]))
            p2, l2 = rng.choice([(p1, l1 + w), (p1 + w, l1), (p1 + w, l1 + w)])
        else:
            p2 = -p1 + rng.uniform(-.3, .3)
            l2 = l1 + math.pi + rng.uniform(-.6, .6)
        if abs(p2) > math.pi / 2:
            continue
        if rng.random() < .2:
            l2 += rng.choice([-1, 1]) * 2 * math.pi
        if rng.random() < .5:
            p1, l1, p2, l2 = p2, l2, p1, l1
        c = math.sin(p1) * math.sin(p2) + math.cos(p1) * math.cos(p2) * math.cos(l1 - l2)
        x = math.cos(p1) * math.cos(l1) - math.cos(p2) * math.cos(l2), \
            math.cos(p1) * math.sin(l1) - math.cos(p2) * math.sin(l2), math.sin(p1) - math.sin(p2)
        if c < math.cos(math.radians(178.5)) or math.hypot(*x) * 6378137 < .1:
            continue
        return p1, l1, p2, l2


def record_c33(i, job):
    from utilities.vincenty import vinc_dist
    rng = random.Random(job)
    a, b = rng.choice(ELLIPSOIDS)
    f = (a - b) / a
    p1, l1, p2, l2 = pair(rng)
    r = dict(exc=0, mm=1, equal=0, f=big(f), legs=[], args=repr((f, a, p1, l1, p2, l2)))
    k, v = attempt(vinc_dist, f, a, p1, l1, p2, l2)
    r['out'] = repr(v)
    if k != 'ok' or not finite(v) or not 0 <= v[0] < 1e8 or not all(-10 < x < 10 for x in v[1:]):
        r['exc'] = 1
        return r
    r['legs'].append(leg(a, p1, v[1], v[0], p2, F(l2) - F(l1), v[2]))
    return r


def record_pt(rng):
    from utilities.vincenty import vinc_pt
    a, b = rng.choice(ELLIPSOIDS)
    f = (a - b) / a
    p1 = math.radians(rng.choice([rng.uniform(-90, 90), 0., -45.]))
    l1 = math.radians(rng.uniform(-180, 180))
    al = rng.choice([rng.uniform(0, 2 * math.pi), rng.uniform(-3, 9), rng.choice([0, 1, 2, 3, 4]) * math.pi / 2])
    s = rng.choice([rng.uniform(0, 1.99e7), rng.uniform(0, 1.99e7), 0.0, 10 ** rng.uniform(-3, 7), -10 ** rng.uniform(0, 6)])
    if s < 0:
        s = -s
    r = dict(exc=0, mm=1, equal=0, f=big(f), legs=[], args='vinc_pt' + repr((f, a, p1, l1, al, s)))
    k, v = attempt(vinc_pt, f, a, p1, l1, al, s)
    r['out'] = repr(v)
    if k != 'ok' or not finite(v) or any(abs(x) > 20 for x in v):
        r['exc'] = 1
        return r
    r['legs'].append(leg(a, p1, al, s, v[0], F(v[1]) - F(l1), v[2]))
    return r


def record_gc(rng):
    from utilities.vincenty import GreatCircle
    a, b = rng.choice(ELLIPSOIDS)
    p1, l1, p2, l2 = (math.degrees(x) for x in pair(rng))
    p1, p2 = max(-90., min(90., p1)), max(-90., min(90., p2))
    n = rng.choice([2, 3, 4, 5, 7])
    rad = lambda x: F(x) * PI / 180  # noqa: E731
    r = dict(exc=0, mm=n, equal=1, f=big((a - b) / a), legs=[], args='GreatCircle' + repr((a, b, l1, p1, l2, p2, n)))

    def go():
        g = GreatCircle(a, b, l1, p1, l2, p2)
        lons, lats = g.points(n)
        few = [vlib.attempt(g.points, k)[0] for k in (1, 0)]
        return g.distance, g.azimuth12, g.azimuth21, list(lons), list(lats), len(lons), len(lats), g.gcarclen, few
    k, v = attempt(go)
    r['out'] = repr(v)
    if k != 'ok' or len(v[3]) != n or len(v[4]) != n or not finite(v[3] + v[4] + list(v[:3]) + [v[7]]) or v[8] != ['exc', 'exc'] \
            or not 0 <= v[0] < 1e8 or any(abs(x) > 1e3 for x in v[3] + v[4]) or not -1 < v[7] < 10:
        r['exc'] = 1
        return r
    d, a12, a21, lons, lats = v[:5]
    a1 = a12
    for i in range(n):
        r['legs'].append(leg(a, rad(p1), a1, F(d) * i / (n - 1), rad(lats[i]), rad(lons[i]) - rad(l1), a21 if i == n - 1 else None))
    r['arc'] = dict(g=big(v[7]), p1=big(rad(p1)), p2=big(rad(p2)), l=big(turn(rad(l2) - rad(l1))))
    return r


def record_c34(i, job):
    rng = random.Random(job)
    return record_pt(rng) if i % 2 else record_gc(rng)


def model(ctx):
    c = dict(Lats={2, 6, 8}, Azis={0, 5, 6, 9, 20}, StepLen=23, MaxSteps=3, Fault='none')
    if not ctx.quick:
        c.update(Lats=set(range(1, 12)), Azis={1, 2, 5, 6, 7, 9, 11, 13, 15, 18, 20, 22}, StepLen=31)
        ctx.mc('Geodesic', dict(c, Lats={6}, Azis={0}, StepLen=23, MaxSteps=3), invariants=['Right'])
    ctx.mc('Geodesic', c, invariants=['Right'], min_states=40)
    for f, az in (('sphere', 0), ('longitude', 6)):
        ctx.mc_must_fail('Geodesic', dict(c, Lats={6}, Azis={az}, StepLen=23, MaxSteps=3, Fault=f), invariants=['Right'])


def check(ctx, record, n):
    model(ctx)
    jobs = [ctx.rng.randint(0, 10 ** 9) for _ in range(n)]
    recs = [v for _, v in run_h.pool(ctx, jobs, record, nproc=8)]
    ctx.sample(recs[0])
    ctx.count('evaluations', len(recs))
    ctx.count('distinct_nontrivial', len({r['args'] for r in recs}))
    ctx.validate('GeodesicTrace', recs)


def run_c33(ctx):
    check(ctx, record_c33, ctx.pick(400, 8000))


def run_c34(ctx):
    check(ctx, record_c34, ctx.pick(240, 4000))
