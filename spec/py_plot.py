"""Reference definitions: contents of the plots (interpreted symbolically, never run)"""
import os
from datetime import datetime

import matplotlib.pyplot as plt
import matplotlib.cm as cm
import numpy as np
from commonlibs.math.vectors import unit_vector
import pytornado.objects.objecttools as ot
import pytornado.plot.plottools as pt


# ------------------------------------------------------------------ lines in the four views
def line(axes_2d, axes_3d, points, symmetry, color):
    yz, xz, xy = axes_2d
    x, y, z = points[:, 0], points[:, 1], points[:, 2]
    axes_3d.plot(x, y, z, color=color)
    yz.plot(y, z, color=color)
    xz.plot(x, z, color=color)
    xy.plot(x, y, color=color)
    if symmetry == 1:
        axes_3d.plot(x, y, -z, color=color)
        yz.plot(y, -z, color=color)
        xz.plot(x, -z, color=color)
    if symmetry == 2:
        axes_3d.plot(x, -y, z, color=color)
        yz.plot(-y, z, color=color)
        xy.plot(x, -y, color=color)
    if symmetry == 3:
        axes_3d.plot(-x, y, z, color=color)
        xz.plot(-x, z, color=color)
        xy.plot(-x, y, color=color)


def wings(axes_2d, axes_3d, aircraft):
    yz, xz, xy = axes_2d
    for wing in aircraft.wings.values():
        for segment in wing.segments.values():
            v = segment.vertices
            line(axes_2d, axes_3d, np.array([v['a'], v['b'], v['c'], v['d'], v['a']]), wing.symmetry, pt.C.MESH_MIRROR)


def controls(axes_2d, axes_3d, aircraft):
    yz, xz, xy = axes_2d
    for wing in aircraft.wings.values():
        for control in wing.controls.values():
            v = control.abs_vertices
            if control.device_type == 'flap':
                line(axes_2d, axes_3d, np.array([v['d'], v['a'], v['b'], v['c']]), wing.symmetry, pt.C.CONTROL_FLAP)
            else:
                line(axes_2d, axes_3d, np.array([v['b'], v['c'], v['d'], v['a']]), wing.symmetry, pt.C.CONTROL_SLAT)
            h = control.abs_hinge_vertices
            line(axes_2d, axes_3d, np.array([h['p_inner'], h['p_outer']]), wing.symmetry, pt.C.CONTROL_HINGE)


def lattice(axes_2d, axes_3d, lattice):
    yz, xz, xy = axes_2d
    for p, c, v, n in zip(lattice.p, lattice.c, lattice.v, lattice.n):
        line(axes_2d, axes_3d, np.array([p[0], p[1], p[2], p[3], p[0]]), None, pt.C.MESH)


def deformation(axes_2d, axes_3d, aircraft):
    yz, xz, xy = axes_2d
    for wing in aircraft.wings.values():
        if wing.is_deformed:
            if wing.def_field is not None:
                line(axes_2d, axes_3d, wing.def_field[:, 0:3], 0, pt.C.MAROON)
            if wing.def_field_mirror is not None:
                line(axes_2d, axes_3d, wing.def_field_mirror[:, 0:3], 0, pt.C.MAROON)


def centre(axes_2d, axes_3d, aircraft):
    yz, xz, xy = axes_2d
    x, y, z = aircraft.refs['gcenter']
    axes_3d.scatter(x, y, z, color=pt.C.BLACK)
    yz.scatter(y, z, color=pt.C.BLACK)
    xz.scatter(x, z, color=pt.C.BLACK)
    xy.scatter(x, y, color=pt.C.BLACK)


def free_stream(axes_2d, axes_3d, state, tip_pos, vector_len):
    v = vector_len*unit_vector(state.free_stream_velocity_vector)
    tail = tip_pos - v
    axes_3d.quiver(*tail, *v, color=pt.C.BLACK)
    axes_3d.text(*tail, f"{state.aero['airspeed']:.1f} m/s")


# ------------------------------------------------------------------ results
def quad(a, b, c, d, size):
    fr = 0.5*np.sqrt(np.sum((b - a)**2)) + 0.5*np.sqrt(np.sum((c - d)**2))
    fs = 0.5*np.sqrt(np.sum((d - a)**2)) + 0.5*np.sqrt(np.sum((c - b)**2))
    r, s = np.meshgrid(np.linspace(0, 1, num=int(2 + np.ceil(100*fr/size))), np.linspace(0, 1, num=int(2 + np.ceil(100*fs/size))))
    x, y, z = [a[i]*(1 - r)*(1 - s) + b[i]*r*(1 - s) + c[i]*r*s + d[i]*(1 - r)*s for i in range(3)]
    return x, y, z


def results(axes_2d, axes_3d, figure_3d, vlmdata, lattice, aircraft, key):
    yz, xz, xy = axes_2d
    data = vlmdata.panelwise[key]
    low, high = min(data), max(data)
    values = (data - low)/(high - low) if high - low != 0 else np.zeros(data.shape)
    for p, value in zip(lattice.p, values):
        color = pt.C.COLORMAP(value)
        q = np.array([p[0], p[1], p[2], p[3], p[0]])
        x, y, z = pt.interpolate_quad(q[0], q[1], q[2], q[3], size=aircraft.size)
        axes_3d.plot_surface(x, y, z, color=color)
        yz.fill(y, z, color=color)
        xz.fill(x, z, color=color)
        xy.fill(x, y, color=color)
    bar = cm.ScalarMappable(cmap=pt.C.COLORMAP)
    bar.set_array(data)
    figure_3d.colorbar(bar).set_label(key)


# ------------------------------------------------------------------ figures
def geometry_plot(aircraft, plot_settings):
    with pt.plot2d3d(aircraft, 'geometry', plot_settings) as (f2, a2, f3, a3):
        pt.add_CG(a2, a3, aircraft)
        pt.add_wings(a2, a3, aircraft)
        pt.add_controls(a2, a3, aircraft)


def lattice_plot(aircraft, lattice, plot_settings):
    with pt.plot2d3d(aircraft, 'lattice', plot_settings) as (f2, a2, f3, a3):
        pt.add_CG(a2, a3, aircraft)
        pt.add_lattice(a2, a3, lattice)
        if not aircraft.has_deformed_wings:
            pt.add_controls(a2, a3, aircraft)
        if 'deformation' in plot_settings['opt']:
            pt.add_deformation_field_points(a2, a3, aircraft)


def results_plot(aircraft, lattice, state, vlmdata, plot_settings):
    for key in plot_settings['opt']:
        with pt.plot2d3d(aircraft, 'results_' + key, plot_settings) as (f2, a2, f3, a3):
            pt.add_freestream_vector(a2, a3, state)
            pt.add_results(a2, a3, f3, vlmdata, lattice, aircraft, key)


def show_save(plot_settings, one, two):
    plt.tight_layout()
    if plot_settings['save']:
        for figure, name in (one, two):
            stamp = datetime.now().strftime("%F_%H-%M-%S-%f")
            figure.savefig(os.path.join(plot_settings['plot_dir'], f"{name}_{stamp}.png"), dpi=200, format='png')
    if plot_settings['show']:
        plt.show()


def use_show_save(plot_settings, one, two):
    pt.show_and_save(plot_settings, one, two)


def use_figures(aircraft, name, plot_settings, body):
    with pt.plot2d3d(aircraft, name, plot_settings) as (f2, a2, f3, a3):
        body(f2, a2, f3, a3)


def figures(aircraft, name, plot_settings, body):
    try:
        f3 = plt.figure(figsize=(12, 12), edgecolor='black')
        a3 = f3.gca(projection='3d')
        a3.set_xlabel('X [m]')
        a3.set_ylabel('Y [m]')
        a3.set_zlabel('Z [m]')
        a3.set_title(aircraft.uid)
        f3.subplots_adjust()
        text = f"Wings = {len(aircraft.wings):2d}\n" + f"Segments = {sum(len(w.segments) for w in aircraft.wings.values()):2d}\n" + \
            f"Controls = {sum(len(w.controls) for w in aircraft.wings.values()):2d}\n\n" + f"Aircraft size = {aircraft.size:5.2f}"
        a3.annotate(text)
        f2 = plt.figure(figsize=(20, 7), edgecolor='black')
        yz, xz, xy = f2.add_subplot(131), f2.add_subplot(132), f2.add_subplot(133)
        for axes, h, v in ((yz, 'Y', 'Z'), (xz, 'X', 'Z'), (xy, 'X', 'Y')):
            axes.set_aspect('equal')
            axes.set_xlabel(h + ' [m]')
            axes.set_ylabel(v + ' [m]')
            axes.set_title(h + '-' + v + ' plane')
        f2.suptitle(aircraft.uid)
        try:
            body(f2, (yz, xz, xy), f3, a3)
        finally:
            pt.show_and_save(plot_settings, (f3, name + '3D'), (f2, name + '2D'))
    finally:
        plt.close('all')


# ------------------------------------------------------------------ extents
def two_wings(p, q, s, t):
    """an aircraft of two wings with one segment each"""
    from pytornado.objects.aircraft import Aircraft
    aircraft = Aircraft()
    for uid, points, symmetry in (('one', p, s), ('two', q, t)):
        wing = aircraft.add_wing(uid)
        wing.symmetry = symmetry
        segment = wing.add_segment('segment')
        for i, k in enumerate('abcd'):
            segment.vertices[k] = np.array([points[i][0], points[i][1], points[i][2]])
    return aircraft


def use_scale_plots(axes_2d, axes_3d, p, q, s, t):
    pt._scale_plots(axes_2d, axes_3d, two_wings(p, q, s, t))


def scale_plots(axes_2d, axes_3d, p, q, s, t):
    yz, xz, xy = axes_2d
    low, high = [], []
    for i in range(3):
        values = [0]
        for points, symmetry in ((p, s), (q, t)):
            for point in (points[0], points[1], points[2], points[3]):
                values.append(point[i])
                values.append(-point[i] if symmetry == 3 - i else point[i])
        low.append(min(values))
        high.append(max(values))
    half = max([high[i] - low[i] for i in range(3)])/2
    domain = []
    for i in range(3):
        mid = (high[i] + low[i])/2
        domain.append((mid - pt.PS.SCALE_FACTOR*half, mid + pt.PS.SCALE_FACTOR*half))
    x, y, z = domain
    axes_3d.set_xlim(x)
    axes_3d.set_ylim(y)
    axes_3d.set_zlim(z)
    yz.set_xlim(y)
    yz.set_ylim(z)
    xz.set_xlim(x)
    xz.set_ylim(z)
    xy.set_xlim(x)
    xy.set_ylim(y)


def use_size(p, q, s, t):
    return two_wings(p, q, s, t).size


def size(p, q, s, t):
    sides = []
    for i in range(3):
        values = [0]
        for points, symmetry in ((p, s), (q, t)):
            for point in (points[0], points[1], points[2], points[3]):
                values.append(point[i])
                values.append(-point[i] if symmetry == 3 - i else point[i])
        sides.append(max(values) - min(values))
    return np.linalg.norm(np.array(sides))
