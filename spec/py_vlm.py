"""Reference definitions: panelling, linear system and its data (interpreted symbolically, never run)"""
from math import ceil

import numpy as np
import scipy.linalg.lapack as lapack
import pytornado.aero.c_vlm as c_vlm
from commonlibs.math.interpolation import lin_interpol
from commonlibs.math.vectors import axis_rot_matrix
import pytornado.aero.vlm as vlm
from pytornado.aero.vlm import pre_panelling
from pytornado.objects.aircraft import get_abs_segment_point_coords
from pytornado.objects.vlm_struct import BookKeepingEntry, VLMLattice
from spec.py_geom import bilinear, camber_axis, collocation_xsi, hinge_axis


def subareas(aircraft):
    for wing in aircraft.wings.values():
        for segment in wing.segments.values():
            for strip in segment.subdivision.values():
                for area in strip.subarea.values():
                    yield wing, segment, area


def lattice(aircraft, state, settings, first):
    if first:
        pre_panelling(aircraft)
    entries = []
    panels = 0
    for wing, segment, area in subareas(aircraft):
        owner = segment if area.parent_control is None else area.parent_control
        n = owner.panels['num_c']
        if area.type == 'segment':
            xsi = area.rel_vertices
            n = ceil((xsi['xsi_c'] + xsi['xsi_d'] - xsi['xsi_a'] - xsi['xsi_b'])/2*n)
        entries.append(BookKeepingEntry(area, range(panels, panels + n), n, False))
        panels += n
        if wing.symmetry:
            entries.append(BookKeepingEntry(area, range(panels, panels + n), n, True))
            panels += n
    res = VLMLattice()
    res.panel_bookkeeping = entries
    m = len(entries)
    res.info['num_wings'] = len(aircraft.wings)
    res.info['num_segments'] = m
    res.info['num_controls'] = sum(len(w.controls) for w in aircraft.wings.values())
    res.info['num_strips'] = panels
    res.info['num_panels'] = panels
    corners = np.zeros((m, 4, 3), dtype=float, order='C')
    numbers = np.ones((m, 2), dtype=int, order='C')
    k = 0
    for e in entries:
        points = e.subarea.abs_vertices(e.mirror)
        for j, name in enumerate('abcd'):
            corners[k, j, :] = points[name]
        numbers[k, 1] = e.num_chordwise_panels
        k += 1
    res.p = np.zeros((panels, 4, 3), dtype=float, order='C')
    res.v = np.zeros((panels, 4, 3), dtype=float, order='C')
    res.c = np.zeros((panels, 3), dtype=float, order='C')
    res.bound_leg_midpoints = np.zeros((panels, 3), dtype=float, order='C')
    res.n = np.zeros((panels, 3), dtype=float, order='C')
    res.a = np.zeros(panels, dtype=float, order='C')
    res.epsilon = settings.settings['_epsilon']
    c_vlm.py2c_lattice(res, state, corners, np.zeros(panels, dtype=int, order='C'), numbers)
    return res


def deflected(area, mirror, normal):
    """Normal turned about the hinge axis of the control device the subarea belongs to"""
    control = area.parent_control
    if control is None:
        return normal
    angle = control.deflection_mirror if mirror else control.deflection
    if not angle:
        return normal
    return axis_rot_matrix(hinge_axis(area, mirror), np.deg2rad(angle)) @ normal


def cambered(area, mirror, xsi, normal):
    """Normal turned by the slope of the camber line at the chordwise position of the collocation point"""
    rel = area.parent_subdivision.rel_vertices
    airfoil = area.parent_segment.segment_airfoil.at_eta((rel['eta_a'] + rel['eta_b'])/2)
    angle = np.deg2rad(airfoil.camber_line_angle(xsi))
    if not angle:
        return normal
    return axis_rot_matrix(camber_axis(area, mirror), angle) @ normal


def rotated_lattice(aircraft, state, settings, first):
    res = lattice(aircraft, state, settings, first)
    for e in res.panel_bookkeeping:
        for row in e.pan_idx:
            res.n[row] = deflected(e.subarea, e.mirror, res.n[row])
        places = collocation_xsi(e.subarea, len(e.pan_idx))
        for k, row in enumerate(e.pan_idx):
            res.n[row] = cambered(e.subarea, e.mirror, places[k], res.n[row])
    return res


def autopanels(aircraft, settings):
    chordwise = settings.settings.get('vlm_autopanels_c', 1)
    spanwise = settings.settings.get('vlm_autopanels_s', 1)
    for wing in aircraft.wings.values():
        for segment in wing.segments.values():
            if segment.panels['num_c'] is None:
                segment.panels['num_c'] = chordwise
            if segment.panels['num_s'] is None:
                segment.panels['num_s'] = ceil(segment.geometry['span']/sum(abs(s.geometry['span']) for s in wing.segments.values())*spanwise)
        for control in wing.controls.values():
            if control.panels['num_c'] is None:
                control.panels['num_c'] = chordwise


def spanned(wing, control):
    """segments a control device lies on, from the inner to the outer one"""
    uids = []
    inside = False
    for uid in wing.segments:
        inside = inside or uid == control.segment_uid['inner']
        if inside:
            uids.append(uid)
        if inside and uid == control.segment_uid['outer']:
            break
    return uids


def device_strips(wing, control):
    v, h = control.rel_vertices, control.rel_hinge_vertices
    edge = (v['xsi_inner'], v['xsi_outer'])
    hinge = (h['xsi_inner'], h['xsi_outer'])
    first, last = control.segment_uid['inner'], control.segment_uid['outer']
    if first == last:
        wing.segments[first].add_subdivision_for_control(v['eta_inner'], v['eta_outer'], control, edge[0], edge[1], hinge[0], hinge[1])
        return
    middle = (edge[0] + edge[1])/2
    uids = spanned(wing, control)
    lengths = [0]
    for uid in uids:
        if edge[0] == edge[1] and hinge[0] == hinge[1]:
            break
        corners = wing.segments[uid].vertices
        a = get_abs_segment_point_coords(corners, v['eta_inner'] if uid == first else 0, edge[0] if uid == first else middle)
        b = get_abs_segment_point_coords(corners, v['eta_outer'] if uid == last else 1, edge[1] if uid == last else middle)
        lengths.append(lengths[-1] + np.sqrt(np.dot(b - a, b - a)))
    total = lengths[-1]
    for k, uid in enumerate(uids):
        x1, x2, h1, h2 = edge[0], edge[1], hinge[0], hinge[1]
        if edge[0] != edge[1] or hinge[0] != hinge[1]:
            x1 = lin_interpol(edge, (0, total), lengths[k])
            x2 = lin_interpol(edge, (0, total), lengths[k+1])
            h1 = lin_interpol(hinge, (0, total), lengths[k])
            h2 = lin_interpol(hinge, (0, total), lengths[k+1])
        wing.segments[uid].add_subdivision_for_control(v['eta_inner'] if uid == first else 0, v['eta_outer'] if uid == last else 1, control, x1, x2, h1, h2)


def panelling(aircraft):
    for wing in aircraft.wings.values():
        for control in wing.controls.values():
            device_strips(wing, control)
    for wing in aircraft.wings.values():
        for segment in wing.segments.values():
            for eta in np.linspace(0, 1, segment.panels['num_s'] + 1):
                if eta != 0 and eta != 1:
                    segment.add_subdivision(eta, eta, ignore_inval_eta=True)


def influence(lattice, vlmdata):
    n = lattice.info['num_panels']
    vlmdata.matrix_downwash = np.zeros((n, n), dtype=float, order='C')
    c_vlm.py2c_downwash(lattice, vlmdata.matrix_downwash)


def right_hand_side(lattice, state, vlmdata):
    rhs = np.zeros(lattice.info['num_panels'], dtype=float, order='C')
    c_vlm.py2c_boundary(lattice, state, rhs)
    vlmdata.array_rhs = np.array(rhs)


def circulation(vlmdata):
    lu, pivots, gamma, info = lapack.dgesv(vlmdata.matrix_downwash, vlmdata.array_rhs)
    vlmdata.matrix_lu = lu
    vlmdata.array_pivots = pivots
    vlmdata.panelwise['gamma'] = gamma
    if info != 0:
        raise RuntimeError


def results(lattice, state, vlmdata):
    n = lattice.info['num_panels']
    for name in ('vx', 'vy', 'vz', 'vmag', 'fx', 'fy', 'fz', 'fmag', 'cp'):
        vlmdata.panelwise[name] = np.zeros(n, dtype=float, order='C')
    c_vlm.py2c_results(lattice, state, vlmdata)


def allocated(aircraft, state, settings, first):
    """Sizes of the arrays of a new lattice: driver for the code in the repository"""
    return arrays(vlm.gen_lattice(aircraft, state, settings, first))


def must_be_allocated(aircraft, state, settings, first):
    return arrays(lattice(aircraft, state, settings, first))


def arrays(x):
    return x.info['num_segments'], x.info['num_panels'], x.p, x.v, x.c, x.bound_leg_midpoints, x.n, x.a


class Named:
    def __init__(self, uid):
        self.uid = uid


class Owned:
    def __init__(self, uid):
        self.parent_wing = Named(uid)


def entries(old, a, b, c):
    return [BookKeepingEntry(Owned(uid), range(1), 1, mirror) for uid, mirror in (('main', old), ('main', a), ('tail', b), ('main', c))]


def use_books(old, a, b, c):
    first, *others = entries(old, a, b, c)
    lattice = VLMLattice()
    lattice.update_bookkeeping(first)
    lattice.clean_bookkeeping()
    for e in others:
        lattice.update_bookkeeping(e)
    own, mirrored = lattice.bookkeeping_by_wing_uid, lattice.bookkeeping_by_wing_uid_mirror
    return lattice.panel_bookkeeping, own['main'], own['tail'], mirrored['main'], mirrored['tail']


def books(old, a, b, c):
    _, x, y, z = entries(old, a, b, c)
    return [x, y, z], [e for e in (x, z) if not e.mirror], [e for e in (y,) if not e.mirror], [e for e in (x, z) if e.mirror], [e for e in (y,) if e.mirror]
