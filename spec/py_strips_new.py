"""Entry points: new strips and subareas as the code creates them"""
from pytornado.objects.aircraft import SegmentStrip, StripSubdivision


def make_strip(segment, rel_vertices):
    return SegmentStrip(segment, rel_vertices)


def make_subarea(strip, rel_vertices, kind):
    return StripSubdivision(strip, rel_vertices, kind)
