"""Reference definitions: points, mirroring, subareas (interpreted symbolically, never run)"""
import numpy as np
from aeroframe.interpol.translate import get_deformed_point
from commonlibs.math.vectors import get_plane_line_intersect

NORMAL = {'xy': 2, 1: 2, 'xz': 1, 2: 1, 'yz': 0, 3: 0}


def mirror_point(point, plane):
    x, y, z = point[0], point[1], point[2]
    if plane in ('xy', 1):
        return np.array([x, y, -z])
    if plane in ('xz', 2):
        return np.array([x, -y, z])
    if plane in ('yz', 3):
        return np.array([-x, y, z])
    raise ValueError(plane)


def order(vertices, plane):
    a, b, c, d = vertices
    if plane in ('xy', 1):
        return (a, b, c, d)
    if plane in ('xz', 2):
        return (b, a, d, c)
    if plane in ('yz', 3):
        return (d, c, b, a)
    raise ValueError(plane)


def mirror_vertices(vertices, plane):
    return order(tuple(mirror_point(p, plane) for p in vertices), plane)


def bilinear(v, eta, xsi):
    """Point of a quadrilateral: bilinear interpolation of its corners"""
    return (1 - eta)*(1 - xsi)*v['a'] + eta*(1 - xsi)*v['b'] + eta*xsi*v['c'] + (1 - eta)*xsi*v['d']


def xsi_interpol(v, rel_inner, rel_outer, eta):
    p1 = bilinear(v, rel_inner[0], rel_inner[1])
    p2 = bilinear(v, rel_outer[0], rel_outer[1])
    le = bilinear(v, eta, 0)
    te = bilinear(v, eta, 1)
    normal = np.cross(np.cross(v['b'] - v['a'], v['d'] - v['a']), te - le)
    p = get_plane_line_intersect(normal, le, p1 - p2, p1)
    return np.linalg.norm(p - le)/np.linalg.norm(te - le)


def deformed_point(segment, eta, xsi, mirror):
    wing = segment.parent_wing
    p = bilinear(segment.vertices, eta, xsi)
    if mirror:
        p = mirror_point(p, wing.symmetry)
        field = wing.def_field_mirror
    else:
        field = wing.def_field
    if field is None:
        return p
    return get_deformed_point(p, field)


def strip_vertices(strip, mirror):
    """Corners of a strip: points of its segment at its relative span positions"""
    seg, rel = strip.parent_segment, strip.rel_vertices
    wing = strip.parent_wing
    at = [('eta_a', 0), ('eta_b', 0), ('eta_c', 1), ('eta_d', 1)]
    if wing.def_field is not None or wing.def_field_mirror is not None:
        pts = tuple(deformed_point(seg, rel[k], xsi, mirror) for k, xsi in at)
        if mirror:
            pts = order(pts, wing.symmetry)
    else:
        pts = tuple(bilinear(seg.vertices, rel[k], xsi) for k, xsi in at)
        if mirror:
            pts = mirror_vertices(pts, wing.symmetry)
    return dict(zip('abcd', pts))


def chord_pos(area, key, mirror):
    """Relative chord position measured on the corners of the (mirrored) strip"""
    return area.rel_vertices[key]


def area_vertices(area, mirror):
    """Corners of a subarea: chordwise positions between leading and trailing corner of its strip"""
    v = area.parent_subdivision.abs_vertices(mirror)
    r = area.rel_vertices
    a, b, c, d = r['xsi_a'], r['xsi_b'], r['xsi_c'], r['xsi_d']
    if mirror:
        sym = area.parent_wing.symmetry
        if sym in ('xz', 2):
            a, b, c, d = b, a, d, c
        elif sym in ('yz', 3):
            # chord positions count from the other edge, corners a/d and b/c change places
            a, b, c, d = 1 - d, 1 - c, 1 - b, 1 - a
        elif sym not in ('xy', 1):
            raise ValueError(sym)
    return {'a': v['a'] + a*(v['d'] - v['a']), 'b': v['b'] + b*(v['c'] - v['b']),
            'c': v['b'] + c*(v['c'] - v['b']), 'd': v['a'] + d*(v['d'] - v['a'])}


def hinge_vertices(area, mirror):
    v = area.parent_subdivision.abs_vertices(mirror)
    h1, h2 = area.rel_hinge_vertices['xsi_h1'], area.rel_hinge_vertices['xsi_h2']
    if mirror:
        sym = area.parent_wing.symmetry
        if sym == 2:
            h1, h2 = h2, h1
        elif sym == 3:
            h1, h2 = 1 - h1, 1 - h2
    return {'p_inner': v['a'] + h1*(v['d'] - v['a']), 'p_outer': v['b'] + h2*(v['c'] - v['b'])}


def hinge_axis(area, mirror):
    p = area.abs_hinge_vertices(mirror)
    return p['p_outer'] - p['p_inner']


def camber_axis(area, mirror):
    """Unit vector in the plane of the subarea, perpendicular to its inner edge"""
    v = area.abs_vertices(mirror)
    ab, ad = v['b'] - v['a'], v['d'] - v['a']
    n = np.cross(np.cross(ab, ad), ad)
    return n/np.linalg.norm(n)


def rel_length(area):
    r = area.rel_vertices
    return ((r['xsi_d'] - r['xsi_a']) + (r['xsi_c'] - r['xsi_b']))/2


def collocation_xsi(area, num):
    r = area.rel_vertices
    out = []
    for i in range(num):
        f = (i + 3/4)/num
        front = (r['xsi_a'] + r['xsi_b'])/2
        rear = (r['xsi_c'] + r['xsi_d'])/2
        out.append((1 - f)*front + f*rear)
    return out


def segment_area(seg):
    v = seg.vertices
    ab, ad = v['b'] - v['a'], v['d'] - v['a']
    cb, cd = v['b'] - v['c'], v['d'] - v['c']
    return (np.linalg.norm(np.cross(ab, ad)) + np.linalg.norm(np.cross(cb, cd)))/2
