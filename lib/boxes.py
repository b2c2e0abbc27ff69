"""Reference geometry for oriented boxes in the plane."""
import math


def corners(x, y, h, bb):
    """bb = [cx, cy, cz, length, width, height]"""
    c, s = math.cos(h), math.sin(h)
    out = []
    for sx, sy in ((1, 1), (-1, 1), (-1, -1), (1, -1)):
        u, v = bb[0] + sx * bb[3] / 2, bb[1] + sy * bb[4] / 2
        out.append((x + u * c - v * s, y + u * s + v * c))
    return out


def span(pts, h):
    c, s = math.cos(h), math.sin(h)
    a = [p[0] * c + p[1] * s for p in pts]
    b = [-p[0] * s + p[1] * c for p in pts]
    return (min(a), max(a)), (min(b), max(b))


def gap(a, b):
    """signed gap from interval a to interval b, 0 on overlap"""
    if b[0] > a[1]:
        return b[0] - a[1]
    if b[1] < a[0]:
        return b[1] - a[0]
    return 0.0


def seg_point(p, a, b):
    dx, dy = b[0] - a[0], b[1] - a[1]
    l2 = dx * dx + dy * dy
    t = 0.0 if l2 == 0 else max(0.0, min(1.0, ((p[0] - a[0]) * dx + (p[1] - a[1]) * dy) / l2))
    return math.hypot(p[0] - a[0] - t * dx, p[1] - a[1] - t * dy)


def separation(P, hp, Q, hq):
    """largest gap over the four separating axes: > 0 apart, < 0 overlapping (penetration)"""
    best = -1e9
    for h in (hp, hq):
        sp, sq = span(P, h), span(Q, h)
        for i in (0, 1):
            best = max(best, sq[i][0] - sp[i][1], sp[i][0] - sq[i][1])
    return best


def distance(P, hp, Q, hq):
    if separation(P, hp, Q, hq) <= 0:
        return 0.0
    return min(min(seg_point(p, B[i], B[(i + 1) % 4]) for p in A for i in range(4)) for A, B in ((P, Q), (Q, P)))


def inside(pt, P, h):
    sp = span(P, h)
    c, s = math.cos(h), math.sin(h)
    a, b = pt[0] * c + pt[1] * s, -pt[0] * s + pt[1] * c
    return max(sp[0][0] - a, a - sp[0][1], sp[1][0] - b, b - sp[1][1])      # < 0 inside


def point_distance(pt, P, h):
    if inside(pt, P, h) <= 0:
        return 0.0
    return min(seg_point(pt, P[i], P[(i + 1) % 4]) for i in range(4))
