"""Reference definitions: result files, plots, settings and project folders (interpreted symbolically, never run)"""
import json
import logging
import os
from pathlib import Path

import numpy as np
from commonlibs.fileio.paths import ProjectPaths
from pytornado.fileio.utils import NDArrayEncoder
import pytornado.plot.downwash
import pytornado.plot.makeplots as mp

PANELWISE = [('gamma', 'm^2/s'), ('vx', 'm/s'), ('vy', 'm/s'), ('vz', 'm/s'), ('vmag', 'm/s'), ('fx', 'N'), ('fy', 'N'), ('fz', 'N'), ('fmag', 'N'), ('cp', '1')]


def write(path, data):
    with open(path, 'w') as fp:
        json.dump(data, fp, cls=NDArrayEncoder, indent=4, separators=(',', ': '))


def save_all(settings, aircraft, state, vlmdata):
    which = settings.settings['save_results']
    if which['global']:
        write(settings.paths('f_results_global'), {'aero': dict(state.aero), 'refs': dict(state.refs),
                                                   'global_forces': dict(vlmdata.forces), 'global_coeffs': dict(vlmdata.coeffs)})
    if which['panelwise']:
        columns = [vlmdata.panelwise[k] for k, unit in PANELWISE]
        header = ''
        for i in range(len(PANELWISE)):
            header += (PANELWISE[i][0] + ' [' + PANELWISE[i][1] + ']').center(14 if i else 12)
        np.savetxt(settings.paths('f_results_panelwise'), np.stack(columns, axis=-1), delimiter=',', header=header, fmt=['%13.6e'] * 10, comments='# ')
    if which['matrix_system']:
        m = vlmdata.matrix_downwash
        header = f'Downwash matrix: {m.shape}\nRight-hand side: {vlmdata.array_rhs.shape}'
        np.savetxt(settings.paths('f_results_matrix'), np.concatenate([m, vlmdata.array_rhs.reshape((m.shape[0], 1))], axis=1),
                   delimiter=',', header=header, fmt='%13.6e', comments='# ')


def save_aeroperformance_map(state, settings):
    out = {}
    for k, v in state.aero.items():
        out[k] = [] if v is None else list(v)
    for k, v in state.results.items():
        out[k] = [] if v is None else list(v)
    write(settings.paths('f_results_apm_global'), out)


def plot_settings(settings, name):
    one = settings.settings['plot'][name]
    return {**one, 'plot_dir': settings.paths('d_plots')}, one['save'] or one['show']


def make_all(settings, aircraft, cur_state, vlmdata, lattice):
    s, wanted = plot_settings(settings, 'matrix_downwash')
    if wanted:
        pytornado.plot.downwash.view_downwash(vlmdata, s)
    s, wanted = plot_settings(settings, 'geometry')
    if wanted:
        mp.plot_geometry_aircraft(aircraft, s)
    s, wanted = plot_settings(settings, 'lattice')
    if wanted:
        mp.plot_lattice_aircraft(aircraft, lattice, s)
    s, wanted = plot_settings(settings, 'results')
    if wanted:
        mp.plot_results_aircraft(aircraft, lattice, cur_state, vlmdata, s)


# ------------------------------------------------------------------ settings

def defaults():
    plot = {}
    for k in ('geometry', 'lattice', 'matrix_downwash', 'results'):
        plot[k] = {'opt': [], 'show': False, 'save': False}
    return {'aircraft': None, 'state': None, 'deformation': None, 'vlm_autopanels_c': 4, 'vlm_autopanels_s': 4,
            'save_results': {'global': False, 'panelwise': False, 'aeroperformance': False, 'matrix_system': False},
            'plot': plot, '_do_normal_rotations': True, '_deformation_check': True, '_epsilon': 1e-6}


def wrong(value, kind):
    if not isinstance(value, kind):
        raise TypeError('wrong type')


def update_from_dict(self, settings_dict):
    s = self.settings
    for k in settings_dict:
        s[k] = settings_dict[k]
    if not s['plot']['results']['opt']:
        s['plot']['results']['opt'] = ['cp']
    wrong(s['aircraft'], str)
    wrong(s['state'], str)
    wrong(s['vlm_autopanels_c'], int)
    wrong(s['vlm_autopanels_s'], int)
    wrong(s['save_results'], dict)
    for k in ('global', 'panelwise', 'aeroperformance', 'matrix_system'):
        wrong(s['save_results'][k], bool)
    wrong(s['plot'], dict)
    for k in ('geometry', 'lattice', 'matrix_downwash', 'results'):
        wrong(s['plot'][k], dict)
        wrong(s['plot'][k]['opt'], list)
        wrong(s['plot'][k]['show'], bool)
        wrong(s['plot'][k]['save'], bool)
    wrong(s['_do_normal_rotations'], bool)
    wrong(s['_deformation_check'], bool)
    wrong(s['_epsilon'], float)
    if s['_epsilon'] <= 0 or s['_epsilon'] >= 1:
        raise ValueError('epsilon')


def new_settings(self, settings_filename, project_dir, *, settings_dict=None, make_dirs=True, check_ac_file_type=True):
    self.project_dir = Path(project_dir).resolve()
    self.project_basename = os.path.splitext(settings_filename)[0]
    self.settings = defaults()
    if settings_dict is not None:
        self.update_from_dict(settings_dict)
    self.paths = None
    self.generate_paths()
    self.aircraft_is_cpacs = None
    if check_ac_file_type:
        ending = self.paths('f_aircraft').suffix.lower()
        if ending == '.json':
            self.aircraft_is_cpacs = False
        elif ending == '.xml':
            self.aircraft_is_cpacs = True
        else:
            raise ValueError('file type')
    if make_dirs:
        self.paths.make_dirs_for_groups('dir')


def state_is_cpacs(self):
    if self.settings['state'].upper() == '__CPACS':
        if self.aircraft_is_cpacs:
            return True
        raise RuntimeError('aircraft is not CPACS')
    return False


def load_settings(settings_filepath):
    path = Path(settings_filepath).resolve()
    if path.parent.name == 'settings':
        folder = path.parent.parent
    else:
        folder = path.parent
    with open(path, 'r') as fp:
        data = json.load(fp)
    from pytornado.objects.settings import Settings
    return Settings(path.name, folder, settings_dict=data)


# ------------------------------------------------------------------ folders
def generate_paths(self):
    p = ProjectPaths(self.project_dir)
    self.paths = p
    name = self.project_basename
    for uid, folder in (('d_aircraft', 'aircraft'), ('d_airfoils', 'airfoils'), ('d_deformation', 'deformation'), ('d_settings', 'settings'), ('d_state', 'state')):
        p.add_path(uid=uid, path=folder, uid_groups='dir')
    for uid, folder in (('d_plots_TOP', '_plots'), ('d_results_TOP', '_results'),
                        ('d_plots', '_plots/' + name + '_{counter:03d}'), ('d_results', '_results/' + name + '_{counter:03d}')):
        p.add_path(uid=uid, path=folder, uid_groups=('dir', 'tmp'))
    p.add_path(uid='f_log', path='log.txt')
    for parent, uid, file in (('d_aircraft', 'f_aircraft', str(self.settings['aircraft'])), ('d_deformation', 'f_deformation', str(self.settings['deformation'])),
                              ('d_settings', 'f_settings', name + '.json'), ('d_state', 'f_state', str(self.settings['state'])),
                              ('d_results', 'f_results_global', 'global.json'), ('d_results', 'f_results_panelwise', 'panelwise.dat'),
                              ('d_results', 'f_results_matrix', 'matrix.dat'), ('d_results_TOP', 'f_results_apm_global', name + '_aeroperformance.json')):
        p.add_subpath(uid_parent=parent, uid=uid, path=file)


def clean(self):
    self.paths.rm_dirs_for_groups('tmp')


def clean_project_dir(settings):
    settings.paths.rm_dirs_for_groups('tmp')


# ------------------------------------------------------------------ drivers (interpreted as the code under analysis)
def first_then_second():
    """Changing the defaults of one project must not show in the next"""
    from pytornado.objects.settings import DEFAULT_SETTINGS
    from pytornado.objects.utils import get_default_dict
    first = get_default_dict(template_dict=DEFAULT_SETTINGS)
    first['plot']['results']['opt'] = ['cp']
    first['plot']['geometry']['show'] = True
    first['plot']['lattice']['opt'].append('x')
    first['save_results']['global'] = True
    first['vlm_autopanels_c'] = 9
    return get_default_dict(template_dict=DEFAULT_SETTINGS)


def save_nested(settings, v0, v1, v2, v3, v4, v5, v6):
    from pytornado.fileio.native.settings import save
    settings.settings = nested(v0, v1, v2, v3, v4, v5, v6)
    save(settings)
    return settings.settings


def nested_saved(settings, v0, v1, v2, v3, v4, v5, v6):
    path = settings.paths('f_settings')
    with open(path, 'w') as fp:
        json.dump(nested_cleaned(v0, v1, v2, v3, v4, v5, v6, None, None), fp, cls=NDArrayEncoder, indent=4, separators=(',', ': '))
    settings.settings = nested(v0, v1, v2, v3, v4, v5, v6)
    return settings.settings


def nested(v0, v1, v2, v3, v4, v5, v6):
    return {'a': v0, '_b': v1, 'c': {'_d': v2, 'e': {'_f': v3, 'g': v4}, 'h_': v5}, '_k': {'m': v6}, 'n': {}}


def clean_nested(v0, v1, v2, v3, v4, v5, v6, v7, v8):
    from pytornado.fileio.native.settings import clean_dict
    return clean_dict(nested(v0, v1, v2, v3, v4, v5, v6))


def nested_cleaned(v0, v1, v2, v3, v4, v5, v6, v7, v8):
    return {'a': v0, 'c': {'e': {'g': v4}, 'h_': v5}, 'n': {}}


def clean_inner(v0, v1, v2, v3, v4, v5, v6, v7, v8):
    from pytornado.fileio.native.settings import clean_dict
    data = nested(v0, v1, v2, v3, v4, v5, v6)
    inner = data['c']
    clean_dict(data)
    return [inner, inner['e']]


def inner_cleaned(v0, v1, v2, v3, v4, v5, v6, v7, v8):
    return [{'e': {'g': v4}, 'h_': v5}, {'g': v4}]


def clean_dict(dictionary):
    for k in [k for k in dictionary if k.startswith('_')]:
        del dictionary[k]
    return dictionary


def updated(self, settings_dict, old):
    """A dictionary which belongs to the settings alone, filled or replaced alike."""
    self.settings = dict(old)
    self.update_from_dict(settings_dict)


def updated_spec(self, settings_dict, old):
    self.settings = dict(old)
    update_from_dict(self, settings_dict)
