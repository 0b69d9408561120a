"""Reference definitions: command line, template projects, deformation files, text helpers (interpreted symbolically, never run)"""
import json
import os
import shutil
import sys
from pathlib import Path

import numpy as np
from aeroframe.fileio.serialise import load_json_def_fields
import pytornado.database.tools as db
import pytornado.fileio as io
import pytornado.stdfun.run as run
import pytornado.stdfun.setup as setup
from pytornado.fileio.utils import NDArrayEncoder
from pytornado.objects.aircraft import Aircraft
from pytornado.objects.settings import Settings
from pytornado.objects.state import FlightState
from pytornado.stdfun.run import StdRunArgs


# ------------------------------------------------------------------ deformation fields
def load_deformation(aircraft, settings):
    path = settings.paths('f_deformation')
    if not os.path.exists(path):
        raise IOError('not found')
    if os.stat(path).st_size >= 10:
        for uid, field in load_json_def_fields(path).items():
            if not uid.startswith('_'):
                if uid.endswith('_m'):
                    aircraft.wings[uid[:-2]].def_field_mirror = field
                else:
                    aircraft.wings[uid].def_field = field


# ------------------------------------------------------------------ JSON, text
def encode(self, obj):
    if isinstance(obj, np.ndarray):
        return obj.tolist()
    raise TypeError('not JSON')


def use_dump(obj, fp):
    from pytornado.fileio.utils import dump_pretty_json
    dump_pretty_json(obj, fp)


def dump(obj, fp):
    json.dump(obj, fp, cls=NDArrayEncoder, indent=4, separators=(',', ': '))


def parse_str(entry, allow_char='-_'):
    if not isinstance(entry, str):
        raise ValueError('no string')
    return ''.join([c for c in entry if c.isalnum() or c in allow_char])


def load_state(settings):
    path = settings.paths('f_state')
    if not os.path.exists(path):
        raise IOError('not found')
    with open(path, 'r') as fp:
        data = json.load(fp)
    state = FlightState()
    state.update_from_dict(**data)
    return state


def save_state(state, settings):
    path = settings.paths('f_state')
    with open(path, 'w') as fp:
        json.dump({'aero': dict(state.aero)}, fp, cls=NDArrayEncoder, indent=4, separators=(',', ': '))


# ------------------------------------------------------------------ command line
def main():
    import argparse
    parser = argparse.ArgumentParser()
    for group in ([('-r', '--run', None), ('--cpacs2json', None), ('--make-example', 'store_true'), ('--list-example-from-db', '--ldb', 'store_true'),
                   ('--make-example-from-db', '--mdb', None)],
                  [('-v', '--verbose', 'store_true'), ('-d', '--debug', 'store_true'), ('-q', '--quiet', 'store_true')],
                  [('-c', '--clean', 'store_true'), ('--clean-only', 'store_true')]):
        exclusive = parser.add_mutually_exclusive_group()
        for option in group:
            if option[-1] is None:
                exclusive.add_argument(*option[:-1], type=str)
            else:
                exclusive.add_argument(*option[:-1], action=option[-1])
    args = parser.parse_args()
    if args.clean or args.clean_only:
        if args.run is None:
            raise RuntimeError('settings needed')
        run.clean_project_dir(run.get_settings(args.run))
    if not args.clean_only:
        if args.run:
            run.standard_run(args)
        elif args.cpacs2json:
            setup.cpacs2pytornado(args.cpacs2json)
        elif args.make_example:
            setup.setup_wkdir()
        elif args.make_example_from_db is not None:
            name = Path(args.make_example_from_db).stem
            try:
                path = db.get_aircraft_file_path(name)
            except FileNotFoundError:
                db.print_available_aircraft()
                sys.exit(1)
            setup.setup_wkdir(path)
        elif args.list_example_from_db:
            db.print_available_aircraft()
        else:
            parser.print_help()


# ------------------------------------------------------------------ template project
def setup_wkdir(aircraft_file=None):
    folder = os.path.abspath('pytornado')
    if os.path.exists(folder):
        sys.exit(1)
    os.makedirs(folder)
    if aircraft_file is None:
        settings = Settings('template.json', folder, check_ac_file_type=False)
        aircraft = Aircraft()
        aircraft.uid = 'template_aircraft'
        aircraft.refs.update({'area': 10, 'span': 5, 'chord': 2, 'gcenter': [0, 0, 0], 'rcenter': [0, 0, 0]})
        wing = aircraft.add_wing('template_wing')
        wing.symmetry = 2
        segment = wing.add_segment('template_segment')
        segment.vertices.update({'a': [0, 0, 0], 'b': [0, 5, 0], 'c': [2, 5, 0], 'd': [2, 0, 0]})
        segment.airfoils.update({'inner': 'NACA0000', 'outer': 'NACA0000'})
        control = wing.add_control('template_control')
        control.device_type = 'flap'
        control.deflection = 5
        control.deflection_mirror = -5
        control.segment_uid.update({'inner': 'template_segment', 'outer': 'template_segment'})
        control.rel_vertices.update({'eta_inner': 0.2, 'eta_outer': 0.8, 'xsi_inner': 0.7, 'xsi_outer': 0.7})
        control.rel_hinge_vertices.update({'xsi_inner': 0.7, 'xsi_outer': 0.7})
        settings.settings['aircraft'] = 'template_aircraft.json'
        settings.settings['state'] = 'template.json'
        settings.generate_paths()
    else:
        name = Path(aircraft_file).stem + '.json'
        settings = Settings(Path(aircraft_file).name, folder, check_ac_file_type=False)
        settings.settings['aircraft'] = name
        settings.settings['state'] = name
        settings.generate_paths()
        shutil.copy(aircraft_file, settings.paths('d_aircraft'))
        aircraft = io.native.aircraft.load(settings)
    settings.settings['vlm_autopanels_s'] = 20
    settings.settings['vlm_autopanels_c'] = 5
    settings.settings['plot']['results']['show'] = True
    settings.settings['plot']['results']['opt'] = ['cp']
    state = FlightState()
    for k, v in (('airspeed', 100), ('density', 1.225), ('alpha', 2), ('beta', 0), ('rate_P', 0), ('rate_Q', 0), ('rate_R', 0)):
        state.aero[k] = v
    io.native.settings.save(settings)
    io.native.state.save(state, settings)
    io.native.aircraft.save(aircraft, settings)
    return folder


# ------------------------------------------------------------------ arguments of a run
def use_arguments(run, verbose, debug, quiet):
    a, b = StdRunArgs(run, verbose, debug, quiet), StdRunArgs(run=run, quiet=quiet)
    return [[x.run, x.verbose, x.debug, x.quiet] for x in (a, b, StdRunArgs())]


def arguments(run, verbose, debug, quiet):
    return [[run, verbose, debug, quiet], [run, False, False, quiet], [None, False, False, False]]
