"""Reference definitions: division of a segment into strips (interpreted symbolically, never run)"""
from pytornado.objects.aircraft import SegmentStrip, xsi_interpol

MIN_ETA = 0.01


def add_strip(segment, eta, eta_d, ignore):
    """
    Divide the strip at eta; the outer part inherits the control devices of the divided strip

    A position closer to an existing division than the minimum distance stands for this division.
    """
    if eta <= 0 or 1 <= eta:
        if ignore:
            return None
        raise ValueError('position')
    i, old, on_edge = segment._get_subdiv_at_eta(eta)
    inner, outer = old.rel_vertices['eta_a'], old.rel_vertices['eta_b']
    if on_edge or eta - inner < MIN_ETA:
        return old
    if outer < 1 and outer - eta < MIN_ETA:
        return segment._get_outer_neighbour_subdiv(outer)
    rel = dict(eta_a=eta, eta_b=outer, eta_c=old.rel_vertices['eta_c'], eta_d=eta_d)
    n = len(segment.subdivision)
    new = SegmentStrip(segment, rel)
    segment.subdivision[n] = new
    old.rel_vertices['eta_b'] = eta
    old.rel_vertices['eta_c'] = eta_d
    for kind, k1, k2 in (('flap', 'xsi_a', 'xsi_b'), ('slat', 'xsi_d', 'xsi_c')):
        if kind in old.subarea:
            device = old.subarea[kind]
            x1, x2 = device.rel_vertices[k1], device.rel_vertices[k2]
            h1, h2 = device.rel_hinge_vertices['xsi_h1'], device.rel_hinge_vertices['xsi_h2']
            x = xsi_interpol(segment.vertices, (inner, x1), (outer, x2), eta)
            h = xsi_interpol(segment.vertices, (inner, h1), (outer, h2), eta)
            new._add_subarea(device.parent_control, x, x2, h, h2)
            old._update_subarea(kind, x1, x, h1, h)
    return new


def add_device(segment, eta_a, eta_b, control, x1, x2, h1, h2):
    """Strips from eta_a to eta_b get a subarea of the control; edges are interpolated at the strip boundaries in between"""
    h1 = x1 if h1 is None else h1
    h2 = x2 if h2 is None else h2
    strip = segment.subdivision[0] if eta_a == 0 else segment.add_subdivision(eta_a, eta_a)
    strips = [strip]
    starts = [(x1, h1)]
    end = strip.rel_vertices['eta_b']
    while end < eta_b:
        at = strip.rel_vertices['eta_b']
        starts.append((xsi_interpol(segment.vertices, (eta_a, x1), (eta_b, x2), at),
                       xsi_interpol(segment.vertices, (eta_a, h1), (eta_b, h2), at)))
        strip = segment._get_outer_neighbour_subdiv(end)
        strips.append(strip)
        end = strip.rel_vertices['eta_b']
    if len(strips) == 1 and eta_b < end and eta_b - strip.rel_vertices['eta_a'] < MIN_ETA:
        raise ValueError('too narrow')
    if eta_b < end:
        segment.add_subdivision(eta_b, eta_b)
    starts.append((x2, h2))
    k = 0
    for s in strips:
        # A control which ends closer to a division than the minimum distance ends at this division
        if eta_b - s.rel_vertices['eta_a'] >= MIN_ETA:
            s._add_subarea(control, starts[k][0], starts[k + 1][0], starts[k][1], starts[k + 1][1])
        k += 1
