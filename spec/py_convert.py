"""Reference definitions: conversion of a CPACS model, the example database (interpreted symbolically, never run)"""
import glob
import json
import os
from pathlib import Path

import pytornado.database.tools as db
import observed


# ------------------------------------------------------------------ project paths: the file behind a name, when it is used
class Paths:
    def __init__(self, root):
        self.root = root
        self.files = {'f_aircraft': os.path.join(root, 'aircraft', 'model')}

    def __call__(self, uid):
        return self.files[uid]

    def add_path(self, uid, path, uid_groups=None, is_absolute=False):
        if uid in self.files:
            raise ValueError('path known')
        self.files[uid] = path if is_absolute else os.path.join(self.root, path)

    def remove_path(self, uid):
        del self.files[uid]

    def change_suffix(self, uid, new_suffix):
        self.files[uid] = os.path.splitext(self.files[uid])[0] + ('' if new_suffix.startswith('.') else '.') + new_suffix

    def add_suffix(self, uid, new_suffix):
        self.files[uid] = self.files[uid] + ('' if new_suffix.startswith('.') else '.') + new_suffix


class Project:
    def __init__(self, settings_filename, project_dir, *, settings_dict=None, make_dirs=True, check_ac_file_type=True):
        self.paths = Paths('/project')
        if make_dirs:
            observed.folders_made(project_dir)
        if check_ac_file_type:
            raise ValueError('no aircraft file')


def read(settings):
    return observed.read_cpacs(settings.paths('f_aircraft'))


def write(aircraft, settings):
    observed.write_json(aircraft, settings.paths('f_aircraft'))


def cpacs2pytornado(file_cpacs):
    path = os.path.abspath(file_cpacs)
    observed.write_json(observed.read_cpacs(path), os.path.splitext(path)[0] + '.json')


# ------------------------------------------------------------------ example database
def folder():
    return os.path.join(os.path.abspath(os.path.dirname(db.__file__)), 'aircraft')


def use_paths():
    return sorted(db.list_full_aircraft_paths())


def sorted_paths():
    return sorted(file_paths())


def file_paths():
    return glob.glob(os.path.join(folder(), '*.json'))


def use_names():
    return sorted(db.list_aircraft_names())


def names():
    return sorted([Path(p).stem for p in file_paths()])


def file_path(aircraft_name):
    for p in file_paths():
        if Path(p).stem == aircraft_name:
            return p
    raise FileNotFoundError


def listing():
    print("Available aircraft in database:\n")
    for p in file_paths():
        with open(p) as fp:
            model = json.load(fp)
        print(f"* {Path(p).stem:10s} -- {model.get('comment', '[no information]')}")
