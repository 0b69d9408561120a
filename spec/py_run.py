"""Reference definitions: a complete analysis (interpreted symbolically, never run)"""
import commonlibs.logger as hlogger
import pytornado.aero.vlm as vlm
import pytornado.fileio.cpacs.aircraft
import pytornado.fileio.cpacs.results
import pytornado.fileio.cpacs.state
import pytornado.fileio.native.aircraft
import pytornado.fileio.native.deformation
import pytornado.fileio.native.results
import pytornado.fileio.native.settings
import pytornado.fileio.native.state
import pytornado.plot.makeplots as makeplots
from pytornado.objects.vlm_struct import VLMData

FORCES = [('Fx', 'x'), ('Fy', 'y'), ('Fz', 'z'), ('FD', 'D'), ('FC', 'C'), ('FL', 'L'), ('Mx', 'l'), ('My', 'm'), ('Mz', 'n')]
COEFFS = [('Cx', 'x'), ('Cy', 'y'), ('Cz', 'z'), ('CD', 'D'), ('CC', 'C'), ('CL', 'L'), ('Cl', 'l'), ('Cm', 'm'), ('Cn', 'n')]


def analysis(args):
    settings = pytornado.fileio.native.settings.load(args.run)
    hlogger.init(settings.paths('f_log'), level=args)
    if settings.aircraft_is_cpacs:
        aircraft = pytornado.fileio.cpacs.aircraft.load(settings)
    else:
        aircraft = pytornado.fileio.native.aircraft.load(settings)
    if settings.state_is_cpacs:
        state = pytornado.fileio.cpacs.state.load(settings)
    else:
        state = pytornado.fileio.native.state.load(settings)
    if settings.settings['deformation']:
        pytornado.fileio.native.deformation.load(aircraft, settings)
    vlm.set_autopanels(aircraft, settings)
    vlmdata = VLMData()
    for number, one in enumerate(state.iter_states()):
        settings.paths.counter = number
        settings.paths('d_results', make_dirs=True, is_dir=True)
        settings.paths('d_plots', make_dirs=True, is_dir=True)
        one.refs = aircraft.refs
        lattice = vlm.gen_lattice(aircraft, one, settings, number == 0)
        vlm.calc_downwash(lattice, vlmdata)
        vlm.calc_boundary(lattice, one, vlmdata)
        vlm.solver(vlmdata)
        vlm.calc_results(lattice, one, vlmdata)
        pytornado.fileio.native.results.save_all(settings, aircraft, one, vlmdata)
        makeplots.make_all(settings, aircraft, one, vlmdata, lattice)
        for name, key in FORCES:
            state.results[name].append(vlmdata.forces[key])
        for name, key in COEFFS:
            state.results[name].append(vlmdata.coeffs[key])
    if settings.aircraft_is_cpacs and settings.state_is_cpacs:
        pytornado.fileio.cpacs.results.save_aeroperformance_map(state, settings)
    if settings.settings['save_results']['aeroperformance']:
        pytornado.fileio.native.results.save_aeroperformance_map(state, settings)
    return {'lattice': lattice, 'vlmdata': vlmdata, 'state': state, 'settings': settings}
