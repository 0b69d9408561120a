"""Reference definitions: strips of a segment and their subareas (interpreted symbolically, never run)"""
from pytornado.objects.aircraft import xsi_interpol

MIN_XSI = 0.01
MIN_ETA = 0.01


class StripSubdivision:
    def __init__(self, strip, rel_vertices, subarea_type):
        self.parent_subdivision = strip
        self.parent_segment = strip.parent_segment
        self.parent_wing = strip.parent_segment.parent_wing
        self.type = subarea_type
        # c is the outer, d the inner rear corner; the argument names them the other way round
        self.rel_vertices = {'xsi_a': rel_vertices['xsi_a'], 'xsi_b': rel_vertices['xsi_b'],
                             'xsi_c': rel_vertices['xsi_d'], 'xsi_d': rel_vertices['xsi_c']}
        self.parent_control = None


class SegmentStrip:
    def __init__(self, segment, rel_vertices):
        self.parent_segment = segment
        self.parent_wing = segment.parent_wing
        self.rel_vertices = {k: rel_vertices[k] for k in ('eta_a', 'eta_b', 'eta_c', 'eta_d')}
        whole = {'xsi_a': 0.0, 'xsi_b': 0.0, 'xsi_c': 1.0, 'xsi_d': 1.0}
        self.subarea = {'segment': StripSubdivision(self, whole, 'segment')}


def new_subarea(strip, kind, a, b, c, d):
    return StripSubdivision(strip, {'xsi_a': a, 'xsi_b': b, 'xsi_c': d, 'xsi_d': c}, kind)


def add_subarea(strip, control, xsi1, xsi2, xsi_h1, xsi_h2):
    """Strip with one more subarea: the segment subarea gives up what the new one takes"""
    kind = control.device_type
    if kind != 'slat' and kind != 'flap':
        raise ValueError('type')
    areas = strip.subarea
    if kind in areas:
        raise ValueError('second one')
    h1 = xsi1 if xsi_h1 is None else xsi_h1
    h2 = xsi2 if xsi_h2 is None else xsi_h2
    if not (0 < xsi1 < 1 and 0 < xsi2 < 1 and 0 <= h1 <= 1 and 0 <= h2 <= 1):
        raise ValueError('range')
    if 'slat' in areas and not (areas['slat'].rel_vertices['xsi_d'] + MIN_XSI <= xsi1 and areas['slat'].rel_vertices['xsi_c'] + MIN_XSI <= xsi2):
        raise ValueError('overlap')
    if 'flap' in areas and not (xsi1 + MIN_XSI <= areas['flap'].rel_vertices['xsi_a'] and xsi2 + MIN_XSI <= areas['flap'].rel_vertices['xsi_b']):
        raise ValueError('overlap')
    whole = areas['segment'].rel_vertices
    if kind == 'slat':
        new = new_subarea(strip, 'slat', 0.0, 0.0, xsi2, xsi1)
        whole['xsi_a'] = xsi1
        whole['xsi_b'] = xsi2
    else:
        new = new_subarea(strip, 'flap', xsi1, xsi2, 1.0, 1.0)
        whole['xsi_d'] = xsi1
        whole['xsi_c'] = xsi2
    new.rel_hinge_vertices = {'xsi_h1': h1, 'xsi_h2': h2}
    new.parent_control = control
    areas[kind] = new
    return new


def update_subarea(strip, kind, xsi1, xsi2, xsi_h1, xsi_h2):
    """The dividing line between the segment subarea and the control moves: no gap, no overlap"""
    if kind not in ('slat', 'flap'):
        return
    area = strip.subarea[kind]
    whole = strip.subarea['segment']
    if kind == 'slat':
        area.rel_vertices['xsi_d'] = xsi1
        area.rel_vertices['xsi_c'] = xsi2
        whole.rel_vertices['xsi_a'] = xsi1
        whole.rel_vertices['xsi_b'] = xsi2
    else:
        area.rel_vertices['xsi_a'] = xsi1
        area.rel_vertices['xsi_b'] = xsi2
        whole.rel_vertices['xsi_d'] = xsi1
        whole.rel_vertices['xsi_c'] = xsi2
    area.rel_hinge_vertices['xsi_h1'] = xsi_h1
    area.rel_hinge_vertices['xsi_h2'] = xsi_h2


def make_strip(segment, rel_vertices):
    return SegmentStrip(segment, rel_vertices)


def make_subarea(strip, rel_vertices, kind):
    return StripSubdivision(strip, rel_vertices, kind)


def strip_at(segment, eta):
    for i, s in segment.subdivision.items():
        if s.rel_vertices['eta_a'] <= eta and eta < s.rel_vertices['eta_b']:
            return i, s, eta == s.rel_vertices['eta_a']


def outer_neighbour(segment, eta):
    """The strip with the largest inner edge that is not beyond eta (within the tolerance)"""
    eta = eta + MIN_ETA/10
    best = None
    least = 1
    for s in segment.subdivision.values():
        d = eta - s.rel_vertices['eta_a']
        if 0 <= d and d < least:
            least = d
            best = s
    return best
