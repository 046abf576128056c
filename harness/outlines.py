"""Outlines and surfaces: what their vertices have to satisfy."""
from common import *
import math

EPS = 1e-4


class Axes:
    """records what is drawn"""

    def __init__(self):
        self.patches = []
        self.surfaces = []

    def add_patch(self, p):
        self.patches.append(p)

    def plot_surface(self, X, Y, Z, **options):
        self.surfaces.append((X, Y, Z, options))


def near(a, b):
    return -EPS <= a - b <= EPS


def same(p, q):
    return all([near(p[i], q[i]) for i in range(len(q))])


def pieces(P):
    """vertices of an outline, split at the separating NaN rows"""
    parts = [[]]
    for i in range(P.shape[0]):
        if P[i, 0] != P[i, 0]:
            vh.check(P[i, 1] != P[i, 1], 'separator')
            parts.append([])
        else:
            parts[-1].append((P[i, 0], P[i, 1]))
    return parts


def turn(ring, c, n, msg):
    """the ring goes once around c in n steps; True if counterclockwise"""
    vh.check(len(ring) == n + 1, msg + ': number of vertices')
    vh.check(same(ring[0], ring[-1]), msg + ': closed')
    left, right = True, True
    for k in range(len(ring) - 1):
        u, v = ring[k], ring[k + 1]
        x = (u[0] - c[0]) * (v[1] - c[1]) - (u[1] - c[1]) * (v[0] - c[0])
        left = left and x > 0
        right = right and x < 0
    vh.check(left or right, msg + ': once around the centre')
    return left


def check_ellipse(ring, c, a, b, n, msg):
    """regular outline of an axis aligned ellipse"""
    for x, y in ring:
        u, v = x - c[0], y - c[1]
        vh.check(near(u * u * b * b + v * v * a * a, a * a * b * b),
                 msg + ': vertices on the ellipse')
    step = 2.0 * math.sin(math.pi / n)
    for k in range(len(ring) - 1):
        u = (ring[k + 1][0] - ring[k][0]) * b
        v = (ring[k + 1][1] - ring[k][1]) * a
        vh.check(u * u + v * v <= a * a * b * b * step * step + EPS,
                 msg + ': steps between vertices')
    return turn(ring, c, n, msg)


def check_box(ring, c, a, b, msg):
    """the four corners, one after the other"""
    for x, y in ring:
        vh.check(near(x, c[0] - a) or near(x, c[0] + a), msg + ': corners')
        vh.check(near(y, c[1] - b) or near(y, c[1] + b), msg + ': corners')
    return turn(ring, c, 4, msg)


def check_diamond(ring, c, r, msg):
    for x, y in ring:
        vh.check(near(x, c[0]) and (near(y, c[1] - r) or near(y, c[1] + r))
                 or near(y, c[1]) and (near(x, c[0] - r)
                                       or near(x, c[0] + r)),
                 msg + ': corners')
    return turn(ring, c, 4, msg)


def either(f, *args):
    """for a solid and for a hollow shape"""
    full = vh.boolean()
    h = vh.real(0.05, 0.95)
    if full:
        f(*args, 0.0)
    else:
        f(*args, h)


def two(parts, hollow, msg):
    vh.check(len(parts) == (2 if hollow > 0.0 else 1), msg + ': parts')


def check_round(parts, c, a, b, hollow, n, msg):
    two(parts, hollow, msg)
    o = check_ellipse(parts[0], c, a, b, n, msg)
    if hollow > 0.0:
        i = check_ellipse(parts[1], c, hollow * a, hollow * b, n,
                          msg + ' (inner)')
        vh.check(o != i, msg + ': the hole is left out')


def check_bicone(parts, c, r, hollow, msg):
    two(parts, hollow, msg)
    o = check_diamond(parts[0], c, r, msg)
    if hollow > 0.0:
        i = check_diamond(parts[1], c, hollow * r, msg + ' (inner)')
        vh.check(o != i, msg + ': the hole is left out')


def check_cut(parts, c, r, h2, hollow, msg):
    """cut through a cylinder: a box, or one on each side of the hole"""
    two(parts, hollow, msg)
    if hollow > 0.0:
        m, w = r * (1 + hollow) / 2, r * (1 - hollow) / 2
        left = parts[0][0][0] < c[0]
        s = -1.0 if left else 1.0
        check_box(parts[0], (c[0] + s * m, c[1]), w, h2, msg + ' (1st side)')
        check_box(parts[1], (c[0] - s * m, c[1]), w, h2, msg + ' (2nd side)')
    else:
        check_box(parts[0], c, r, h2, msg)


def grid(XYZ):
    """the points of a surface, row by row"""
    m = max([A.shape[0] for A in XYZ])
    n = max([A.shape[1] for A in XYZ])
    return [[tuple([A[i if A.shape[0] > 1 else 0, j if A.shape[1] > 1 else 0]
                    for A in XYZ]) for j in range(n)] for i in range(m)]


def sq(x):
    return x * x


def check_cuboid(S, c, e, msg):
    vh.check(len(S) == 6, msg + ': faces')
    G = [[p for row in grid(XYZ) for p in row] for XYZ in S]
    # side of the box (0: none, 1: lower, 2: upper) along each direction
    G = [[tuple([1 if near(p[i], c[i] - e[i] / 2) else
                 2 if near(p[i], c[i] + e[i] / 2) else 0
                 for i in range(3)]) for p in g] for g in G]
    for g in G:
        for p in g:
            vh.check(all([p[i] > 0 for i in range(3)]),
                     msg + ': no points but the corners')
    for a in range(3):
        b, d = (a + 1) % 3, (a + 2) % 3
        for s in (1, 2):
            F = [all([p[a] == s for p in g]) for g in G]
            vh.check(sum(F) == 1, msg + ': one surface for each face')
            for t in (1, 2):
                for u in (1, 2):
                    vh.check(any([F[k] and any([
                        p[b] == t and p[d] == u for p in G[k]])
                        for k in range(6)]), msg + ': corners of the face')


def check_ball(XYZ, c, r, s, msg):
    G = grid(XYZ)
    n, m = len(G), len(G[0])
    vh.check(n == s + 1 and m == round((s + 1) / 2), msg + ': size')
    for row in G:
        for p in row:
            vh.check(near(sum([sq(p[i] - c[i]) for i in range(3)]), r * r),
                     msg + ': points on the sphere')
        vh.check(same(row[0], (c[0], c[1], c[2] + r))
                 and same(row[-1], (c[0], c[1], c[2] - r))
                 or same(row[0], (c[0], c[1], c[2] - r))
                 and same(row[-1], (c[0], c[1], c[2] + r)),
                 msg + ': from pole to pole')
        step = 2.0 * math.sin(math.pi / (m - 1) / 2)
        for j in range(m - 1):
            vh.check(sum([sq(row[j][i] - row[j + 1][i]) for i in range(3)])
                     <= r * r * step * step + EPS, msg + ': steps')
    for j in range(1, m - 1):
        check_ring([row[j] for row in G], c, 2, s, msg)
    for i in range(n - 1):
        for j in range(m):
            vh.check(near(G[i][j][2], G[i + 1][j][2]), msg + ': rings')


def check_ring(ring, c, z, s, msg):
    """regular ring around the axis z through c"""
    x, y = (z + 1) % 3, (z + 2) % 3
    R = sq(ring[0][x] - c[x]) + sq(ring[0][y] - c[y])
    step = sq(2.0 * math.sin(math.pi / s))
    for k in range(len(ring) - 1):
        vh.check(sq(ring[k + 1][x] - ring[k][x])
                 + sq(ring[k + 1][y] - ring[k][y]) <= R * step + EPS,
                 msg + ': steps around the axis')
    turn([(p[x], p[y]) for p in ring], (c[x], c[y]), s, msg)


def check_cylinder(XYZ, c, r, h, hollow, z, s, msg):
    G = grid(XYZ)
    x, y = (z + 1) % 3, (z + 2) % 3
    vh.check(len(G) == (5 if hollow > 0.0 else 4) and len(G[0]) == s + 1,
             msg + ': size')
    outer = []
    for i, row in enumerate(G):
        # 1: inside, 2: outside; 1: lower end, 2: upper end
        T = [(2 if near(R, r * r) else
              1 if near(R, hollow * hollow * r * r) else 0,
              2 if near(v, h / 2) else 1 if near(v, -h / 2) else 0)
             for R, v in [(sq(p[x] - c[x]) + sq(p[y] - c[y]), p[z] - c[z])
                          for p in row]]
        vh.check(T[0][0] > 0 and T[0][1] > 0, msg + ': at the edges')
        vh.check(all([t[0] == T[0][0] and t[1] == T[0][1] for t in T]),
                 msg + ': around the axis')
        outer.append(T[0])
    for a in (1, 2):
        for b in (1, 2):
            vh.check(any([t[0] == a and t[1] == b for t in outer]),
                     msg + ': both ends of the inside and the outside')
    for i in range(len(outer) - 1):
        vh.check(outer[i][0] == outer[i + 1][0]
                 or outer[i][1] == outer[i + 1][1],
                 msg + ': along the mantle and the lids')
    if hollow > 0.0:
        for j in range(s + 1):
            vh.check(same(G[0][j], G[-1][j]), msg + ': closed')
    for i, row in enumerate(G):
        if outer[i][0] == 2 or hollow > 0.0:
            check_ring(row, c, z, s, msg)


def check_cone(XYZ, tip, r, h, z, s, msg):
    G = grid(XYZ)
    x, y = (z + 1) % 3, (z + 2) % 3
    vh.check(len(G) == 2 and len(G[0]) == s + 1, msg + ': size')
    for p in G[0]:
        vh.check(same(p, tip), msg + ': starts at the tip')
    for p in G[1]:
        vh.check(near(p[z], tip[z] + h), msg + ': height')
        vh.check(near(sq(p[x] - tip[x]) + sq(p[y] - tip[y]), r * r),
                 msg + ': radius')
    check_ring(G[1], tip, z, s, msg)


def corners(p):
    if hasattr(p, 'get_radius'):
        return None
    if hasattr(p, 'get_width'):
        (x, y), w, h = p.get_xy(), p.get_width(), p.get_height()
        vh.check(p.angle == 0.0, 'not rotated')
        return [[(x, y), (x + w, y), (x + w, y + h), (x, y + h), (x, y)]]
    return pieces(p.get_xy())


def closing(parts):
    """without the vertex that closes the path of several outlines, or of
    one whose ends differ by rounding"""
    last = parts[-1]
    if same(last[-1], parts[0][0]) and (len(parts) > 1 or
                                        same(last[-1], last[-2])):
        return parts[:-1] + [last[:-1]]
    return parts
