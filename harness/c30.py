from common import *
from outlines import *
import numpy as np
import causets.shapes as shp
from causets.shapes import CoordinateShape

CASES = [
    dict(fn='circle', params=dict(s=6), tier='quick'),
    dict(fn='circle', params=dict(s=9), tier='quick'),
    dict(fn='circle', params=dict(s=24), tier='thorough'),
    dict(fn='ellipse', params=dict(s=6), tier='quick'),
    dict(fn='ellipse', params=dict(s=15), tier='thorough'),
    dict(fn='polygons', params=dict(), tier='quick'),
    dict(fn='cuboid', params=dict(), tier='quick'),
    dict(fn='ball', params=dict(s=5), tier='quick'),
    dict(fn='ball', params=dict(s=8), tier='quick'),
    dict(fn='ball', params=dict(s=14), tier='thorough'),
    dict(fn='cylinder', params=dict(s=5), tier='quick'),
    dict(fn='cylinder', params=dict(s=12), tier='thorough'),
    dict(fn='cone', params=dict(s=5), tier='quick'),
    dict(fn='cone', params=dict(s=12), tier='thorough'),
    dict(fn='plot2', params=dict(name='ball', s=5), tier='quick'),
    dict(fn='plot2', params=dict(name='bicone', s=5), tier='quick'),
    dict(fn='plot2', params=dict(name='diamond', s=5), tier='thorough'),
    dict(fn='plot2', params=dict(name='cylinder', s=5), tier='quick'),
    dict(fn='plot2', params=dict(name='cube', s=5), tier='quick'),
    dict(fn='plot2', params=dict(name='cuboid', s=5), tier='quick'),
    dict(fn='plot3', params=dict(name='ball', s=4), tier='quick'),
    dict(fn='plot3', params=dict(name='bicone', s=4), tier='quick'),
    dict(fn='plot3', params=dict(name='cylinder', s=4), tier='quick'),
    dict(fn='plot3', params=dict(name='cube', s=4), tier='quick'),
    dict(fn='plot3', params=dict(name='cuboid', s=4), tier='quick'),
]
def circle(s):
    c = [vh.real(-2.0, 2.0), vh.real(-2.0, 2.0)]
    r = vh.real(0.25, 2.0)
    either(one_circle, s, c, r)


def one_circle(s, c, r, hollow):
    P = shp.CircleEdge(np.array(c), r, hollow, s)
    vh.check(P.shape == ((2 * s + 3 if hollow > 0.0 else s + 1), 2),
             'size of CircleEdge')
    check_round(pieces(P), c, r, r, hollow, s, 'CircleEdge')


def ellipse(s):
    c = [vh.real(-2.0, 2.0), vh.real(-2.0, 2.0)]
    a, b = vh.real(0.25, 2.0), vh.real(0.25, 2.0)
    either(one_ellipse, s, c, a, b)


def one_ellipse(s, c, a, b, hollow):
    P = shp.EllipseEdge(np.array(c), np.array([a, b]), hollow, s)
    vh.check(P.shape == ((2 * s + 3 if hollow > 0.0 else s + 1), 2),
             'size of EllipseEdge')
    check_round(pieces(P), c, a, b, hollow, s, 'EllipseEdge')


def polygons():
    c = [vh.real(-2.0, 2.0), vh.real(-2.0, 2.0)]
    r, h = vh.real(0.25, 2.0), vh.real(0.25, 2.0)
    either(one_polygon, c, r, h)


def one_polygon(c, r, h, hollow):
    n = 11 if hollow > 0.0 else 5
    P = shp.RectangleEdge(c[0], c[1], r, h)
    vh.check(P.shape == (5, 2), 'size of RectangleEdge')
    check_box(pieces(P)[0], (c[0] + r / 2, c[1] + h / 2), r / 2, h / 2,
              'RectangleEdge')
    P = shp.BiconeEdge(np.array(c), r, hollow)
    vh.check(P.shape == (n, 2), 'size of BiconeEdge')
    check_bicone(pieces(P), c, r, hollow, 'BiconeEdge')
    P = shp.CylinderCutEdge(np.array(c), r, h, hollow)
    vh.check(P.shape == (n, 2), 'size of CylinderCutEdge')
    check_cut(pieces(P), c, r, h / 2, hollow, 'CylinderCutEdge')


# --- surfaces ---------------------------------------------------------
def centre(n=3):
    return [vh.real(-2.0, 2.0) for i in range(n)]


def cuboid():
    c = centre()
    e = [vh.real(0.25, 2.0) for i in range(3)]
    check_cuboid(shp.CuboidSurface(np.array(c), np.array(e)), c, e,
                 'CuboidSurface')
    check_cuboid(shp.CubeSurface(np.array(c), e[0]), c, [e[0]] * 3,
                 'CubeSurface')


def ball(s):
    c = centre()
    r = vh.real(0.25, 2.0)
    S = shp.BallSurface(np.array(c), r, s)
    vh.check(len(S) == 1, 'one surface')
    check_ball(S[0], c, r, s, 'BallSurface')


def cylinder(s):
    c = centre()
    r, h = vh.real(0.25, 2.0), vh.real(0.25, 2.0)
    z = vh.integer(0, 2)
    either(one_cylinder, s, c, r, h, z)


def one_cylinder(s, c, r, h, z, hollow):
    for k in range(3):
        if z == k:
            S = shp.CylinderSurface(np.array(c), r, h, hollow, k, s)
            vh.check(len(S) == 1, 'one surface')
            check_cylinder(S[0], c, r, h, hollow, k, s, 'CylinderSurface')
    S = shp.CylinderSurface(np.array(c), r, h, hollow, samplingsize=s)
    check_cylinder(S[0], c, r, h, hollow, 2, s, 'CylinderSurface')


def cone(s):
    c = centre()
    r, h = vh.real(0.25, 2.0), vh.real(-2.0, 2.0)
    z = vh.integer(0, 2)
    for k in range(3):
        if z == k:
            S = shp.OpenConeSurface(np.array(c), r, h, k, s)
            vh.check(len(S) == 1, 'one surface')
            check_cone(S[0], c, r, h, k, s, 'OpenConeSurface')
    S = shp.OpenConeSurface(np.array(c), r, h, samplingsize=s)
    check_cone(S[0], c, r, h, 2, s, 'OpenConeSurface')


# --- CoordinateShape.plot ---------------------------------------------
def shape(name, d, c, e, hollow):
    if name == 'cube':
        return CoordinateShape(d, name, center=c, edge=e[0])
    if name == 'cuboid':
        return CoordinateShape(d, name, center=c, edges=e)
    if name == 'cylinder':
        return CoordinateShape(d, name, center=c, radius=e[0], duration=e[1],
                               hollow=hollow)
    return CoordinateShape(d, name, center=c, radius=e[0], hollow=hollow)


def plot2(name, s):
    d = 3
    c = centre(d)
    e = [vh.real(0.25, 2.0) for i in range(d)]
    alpha = vh.real(0.0, 1.0)
    given = vh.boolean()
    pair = vh.integer(0, 5)
    if name in ('cube', 'cuboid'):
        all_plot2(name, s, d, c, e, alpha, given, pair, 0.0)
    else:
        either(all_plot2, name, s, d, c, e, alpha, given, pair)


def all_plot2(name, s, d, c, e, alpha, given, pair, hollow):
    for k, dims in enumerate([(0, 1), (1, 0), (0, 2), (2, 0), (1, 2),
                              (2, 1)]):
        if pair == k:
            one_plot2(name, s, d, c, e, hollow, list(dims), alpha, given)


def unchanged(S, d, c, e, hollow, msg):
    """plotting leaves the shape alone"""
    vh.check(same(S.Center, c), msg + ': centre of the shape')
    name = S.Name
    if name == 'cube':
        vh.check(near(S.Parameter('edge'), e[0]), msg + ': edge')
    elif name == 'cuboid':
        vh.check(same(S.Parameter('edges'), e), msg + ': edges')
    else:
        vh.check(near(S.Parameter('radius'), e[0]), msg + ': radius')
        vh.check(near(S.Parameter('hollow'), hollow), msg + ': hollow')
        if name == 'cylinder':
            vh.check(near(S.Parameter('duration'), e[1]),
                     msg + ': duration')


def one_plot2(name, s, d, c, e, hollow, dims, alpha, given):
    shp.default_samplingsize = s
    given_dims = tuple(dims)
    dims = list(dims)
    axes = Axes()
    S = shape(name, d, c, e, hollow)
    p = S.plot(dims, axes, alpha=alpha) if given else S.plot(dims, axes)
    vh.check(len(axes.patches) == 1 and axes.patches[0] is p,
             'the returned patch is drawn')
    vh.check(len(axes.surfaces) == 0, 'nothing else is drawn')
    vh.check(near(p.get_alpha(), alpha if given else 0.05), 'opacity')
    vh.check(tuple(dims) == given_dims, 'the list of dimensions is left alone')
    unchanged(S, d, c, e, hollow, 'plotted ' + name)
    o = [c[dims[0]], c[dims[1]]]
    P = corners(p)
    msg = 'plot of a ' + name
    cut = 0 in dims
    if name in ('cube', 'cuboid'):
        w = [e[0] if name == 'cube' else e[dims[i]] for i in range(2)]
        vh.check(P is not None, msg + ': rectangle')
        vh.check(len(P) == 1, msg + ': one part')
        check_box(P[0], o, w[0] / 2, w[1] / 2, msg)
    elif cut and name in ('bicone', 'diamond'):
        vh.check(P is not None, msg + ': polygon')
        check_bicone(closing(P), o, e[0], hollow, msg)
    elif cut and name == 'cylinder':
        vh.check(P is not None, msg + ': polygon')
        P = closing(P)
        if dims[0] == 0:
            P = [[(y, x) for x, y in part] for part in P]
            o = [o[1], o[0]]
        check_cut(P, o, e[0], e[1] / 2, hollow, msg)
    elif P is None:
        vh.check(hollow == 0.0, msg + ': not hollow')
        vh.check(same(p.center, o), msg + ': centre')
        vh.check(near(p.get_radius(), e[0]), msg + ': radius')
    else:
        P = closing(P)
        check_round(P, o, e[0], e[0], hollow, s, msg)


def plot3(name, s):
    d = 4
    c = centre(d)
    e = [vh.real(0.25, 2.0) for i in range(d)]
    alpha = vh.real(0.0, 1.0)
    given = vh.boolean()
    case = vh.integer(0, 5)
    if name in ('cube', 'cuboid'):
        all_plot3(name, s, d, c, e, alpha, given, case, 0.0)
    else:
        either(all_plot3, name, s, d, c, e, alpha, given, case)


def all_plot3(name, s, d, c, e, alpha, given, case, hollow):
    for k, dims in enumerate([(0, 1, 2), (1, 2, 0), (2, 0, 3), (1, 2, 3),
                              (3, 2, 0), (3, 1, 2)]):
        if case == k:
            one_plot3(name, s, d, c, e, hollow, list(dims), alpha, given)


def one_plot3(name, s, d, c, e, hollow, dims, alpha, given):
    shp.default_samplingsize = s
    given_dims = tuple(dims)
    dims = list(dims)
    axes = Axes()
    S = shape(name, d, c, e, hollow)
    L = S.plot(dims, axes, alpha=alpha) if given else S.plot(dims, axes)
    vh.check(len(axes.patches) == 0, 'no patch')
    vh.check(len(axes.surfaces) == len(L), 'the returned surfaces are drawn')
    for i in range(len(L)):
        vh.check(all([axes.surfaces[i][k] is L[i][k] for k in range(3)]),
                 'the returned surfaces are drawn')
        vh.check(near(axes.surfaces[i][3]['alpha'],
                      alpha if given else 0.05), 'opacity')
    vh.check(tuple(dims) == given_dims, 'the list of dimensions is left alone')
    unchanged(S, d, c, e, hollow, 'plotted ' + name)
    o = [c[i] for i in dims]
    z = dims.index(0) if 0 in dims else -1
    msg = 'plot of a ' + name
    parts = 2 if hollow > 0.0 else 1
    if name in ('cube', 'cuboid'):
        check_cuboid(L, o, [e[0] if name == 'cube' else e[i] for i in dims],
                     msg)
    elif name == 'ball' or z < 0:
        vh.check(len(L) == parts, msg + ': surfaces')
        check_ball(L[-1], o, e[0], s, msg)
        if hollow > 0.0:
            check_ball(L[0], o, hollow * e[0], s, msg + ' (inner)')
    elif name == 'cylinder':
        vh.check(len(L) == 1, msg + ': surfaces')
        check_cylinder(L[0], o, e[0], e[1], hollow, z, s, msg)
    else:
        vh.check(len(L) == 2 * parts, msg + ': surfaces')
        R = ([hollow * e[0]] * 2 if hollow > 0.0 else []) + [e[0]] * 2
        for i in range(len(R)):
            tip = list(o)
            sign = -1.0 if i % 2 == 0 else 1.0
            tip[z] = o[z] + sign * R[i]
            check_cone(L[i], tip, R[i], -sign * R[i], z, s, msg)
