"""Writes /verif/properties.jsonl (the text of the properties is kept here)."""
import json
import os
L = 'src/lib/pytornado/'
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over if isinstance(over, list) else [over], 'text': text},
        'why_tests_cant': why,
        'anchors': {'files': [f if f.startswith('src') else L + f for f in files],
                    'mechanism': [{'name': n, 'where': w} for n, w in mech],
                    'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
                    'observe_at': list(observe), 'hook_needed': None},
    })


FEW = 'The stable tests run two fixed models and only check that the runs finish; '

# ------------------------------------------------------------------ flight states
prop('P01', 'Flight-state value combinations and derived airspeed and density',
     'A flight-state definition is accepted only if the given (non-null) speed and atmosphere entries are exactly {airspeed, density}, {airspeed, altitude} or {mach, altitude}; any other combination is rejected with an error before any analysis. '
     'With altitude given, the density of every state comes from the standard atmosphere at that altitude; with a Mach number, airspeed = Mach x speed of sound of the standard atmosphere at that altitude. '
     'Directly given values are used unchanged, a single number is the same as a list of one number, and null is the same as leaving the entry out.',
     'inputs', 'all flight-state definitions: which of the four entries are present or null, and all their values',
     FEW + 'they cover two of the combinations with one value each.',
     ['objects/state.py'],
     [('combination check and standard-atmosphere lookups', 'FlightState.update_from_dict')])
prop('P02', 'Flight-state values are range-checked and complete before use',
     'Loading flight states fails with an error if any angle of attack or side-slip angle of any state lies outside [-90, 90] degrees; angles inside that range (bounds included) are accepted. '
     'It also fails if the given entries have different numbers of values, or if no entry is given; otherwise the number of states is the common number of values.',
     'inputs', 'all flight-state definitions and all their values',
     FEW + 'no out-of-range or malformed state is ever loaded.',
     ['objects/state.py'], [('range checks', 'FlightState.check_values'), ('completeness', 'FlightState.update_from_dict')])
prop('P03', 'Every flight state is analysed with its own values and free stream',
     'Iterating over the flight states yields, for each index in order, exactly the values of that index (airspeed, angles in degrees, rates, density) and no state twice or skipped. '
     'The free-stream vector of a state is V x (cos a cos b, -sin b, sin a cos b) with the angles of that state.',
     ['inputs', 'configurations'], 'all states, all numbers of states, all values of airspeed and angles',
     FEW + 'no test reads a free-stream vector or compares it between the two languages.',
     ['objects/state.py', 'aero/c_boundary.cpp', 'aero/c_lattice.cpp'],
     [('state iteration', 'FlightState.iter_states'), ('free-stream vector', 'free_stream_velocity_vector, py2c_boundary, py2c_lattice')])

# ------------------------------------------------------------------ pipeline
prop('P04', 'One result entry per state, each quantity under its own name',
     'An analysis of n flight states collects, for every state in order, exactly one value of each of the 18 global quantities (Fx..FL, Mx..Mz, Cx..CL, Cl, Cm, Cn) under its own name, taken from the force, moment or coefficient results of that very state. '
     'The aeroperformance file holds these values together with the states they belong to.',
     ['inputs', 'configurations'], 'all numbers of states and all results',
     FEW + 'no test checks which value ends up under which name.',
     ['stdfun/run.py', 'objects/state.py', 'fileio/native/results.py'],
     [('result collection', 'standard_run'), ('aeroperformance file', 'results.save_aeroperformance_map')])
prop('P05', 'Analysis steps run in dependency order on the same case, per state',
     'For every flight state the lattice is generated first, then influence matrix and boundary conditions, then the linear system is solved, then results are computed, and the results are saved and plotted after that; all of these act on the same aircraft, state, lattice and result data. '
     'The reference values of the aircraft are attached to each state before its lattice is generated, the output paths carry the number of the state, and the panel book-keeping is rebuilt only for the first state.',
     ['configurations', 'histories'], 'all numbers of states and all settings',
     FEW + 'a step done with stale data still finishes.',
     ['stdfun/run.py'], [('analysis loop', 'standard_run')])

# ------------------------------------------------------------------ VLM kernels
prop('P06', 'Lattice geometry: panel points, vortices, normals and areas',
     'Every quadrilateral is divided into chordwise x spanwise panels whose corner points are the bilinear interpolation of its corners, numbered chordwise first (index = spanwise position x chordwise number + chordwise position), quadrilaterals in order. '
     'Each panel has its bound vortex on its 1/4-chord line, its collocation point at 3/4 chord and mid span, trailing vortices that reach 10^4 free-stream vectors downstream from the ends of the bound leg, the mid point of the bound leg, a unit normal perpendicular to its diagonal vectors at the collocation point, and an area equal to mean width times mean length. '
     'The minimum, maximum and mean panel area and aspect ratio are those of the generated panels.',
     'inputs', 'all quadrilaterals, panel numbers and free-stream directions',
     FEW + 'no test looks at a panel.',
     ['aero/c_lattice.cpp'], [('lattice kernel', 'vlm_lattice / py2c_lattice')])
prop('P07', 'Influence matrix holds the Biot-Savart downwash of every panel pair',
     'For panels i and j, entry (i, j) of the influence matrix is the component along the normal of panel i of the velocity induced at the collocation point of panel i by the unit-strength horseshoe vortex of panel j, summed over its bound and two trailing segments with the Biot-Savart law, regularised by the epsilon of the settings; no pair is left out or approximated. '
     'Every entry is written exactly once and nothing else is modified.',
     'inputs', 'all lattices and all panel pairs',
     FEW + 'no test looks at an entry of the matrix.',
     ['aero/c_downwash.cpp', 'aero/vlm.py'], [('downwash kernel', 'vlm_downwash / py2c_downwash')])
prop('P08', 'Boundary condition: no flow through any panel, rotation included',
     'The right-hand side entry of each panel is minus the component along its normal of the onflow at its collocation point, where the onflow is the free stream of the state minus the cross product of its rates (P, Q, R) and the position relative to the centre of gravity. '
     'Every panel has exactly one entry, computed afresh for every state.',
     'inputs', 'all lattices, states and rotation rates',
     FEW + 'both run with zero rotation rates.',
     ['aero/c_boundary.cpp', 'aero/vlm.py'], [('right-hand side kernel', 'vlm_boundary / py2c_boundary')])
prop('P09', 'Panel loads follow Kutta-Joukowski and add up to total loads',
     'The velocity at each bound vortex is free stream plus rotation minus/plus all induced velocities, the panel force is density x circulation x (velocity cross bound vector), the pressure coefficient is the normal force over dynamic pressure and panel area. '
     'Total forces are the sums over all panels, total moments the sums of lever arm cross force about the rotation centre, and drag, side force and lift are the total force in the wind axes.',
     'inputs', 'all lattices, circulations and states',
     FEW + 'no test reads a force.',
     ['aero/c_results.cpp', 'aero/vlm.py'], [('results kernel', 'vlm_results / py2c_results')])
prop('P10', 'Global coefficients use the right reference values',
     'Force coefficients are forces divided by dynamic pressure and reference area; rolling and yawing moment coefficients are in addition divided by the reference span, the pitching moment coefficient by the reference chord. '
     'Dynamic pressure is half the density times airspeed squared of the state, and a zero dynamic pressure never leads to a division by zero, neither in global nor in panel coefficients.',
     'inputs', 'all reference values and states, zero airspeed and zero density included',
     FEW + 'both use airspeeds and reference values that are not zero and check no coefficient.',
     ['aero/c_results.cpp'], [('coefficients', 'py2c_results')])
prop('P11', 'Native kernels never index outside the arrays they are given',
     'Every read and write of the native kernels stays inside the array it addresses, for every number of panels: the arrays allocated for a case have the sizes the kernels assume. '
     'Indices into the influence matrix, which grow with the square of the number of panels, are never computed in a type in which they can overflow.',
     'inputs', 'all panel numbers, also those for which N*N exceeds 2^31',
     'A test cannot allocate the cases at which the index wraps around, and out-of-bounds accesses need not crash.',
     ['aero/c_downwash.cpp', 'aero/c_lattice.cpp', 'aero/c_results.cpp', 'aero/c_boundary.cpp', 'aero/vlm.py'],
     [('index arithmetic', 'native kernels'), ('allocation', 'gen_lattice, calc_downwash, calc_boundary, calc_results')])
prop('P12', 'Malformed input to the native kernels raises an error',
     'If an attribute, dictionary entry or array handed to a native kernel is missing, or an array does not have the element type or layout the kernel reads, the call raises a Python exception. '
     'It never returns as if it had succeeded, leaving zero results behind.',
     ['inputs', 'fault_sequences'], 'all argument objects, with any required item missing or of another type',
     'The tests only call the kernels with well-formed data.',
     ['aero/c_downwash.cpp', 'aero/c_lattice.cpp', 'aero/c_results.cpp', 'aero/c_boundary.cpp'],
     [('marshalling checks', 'py2c_lattice, py2c_downwash, py2c_boundary, py2c_results')])
prop('P14', 'The linear system is solved as stated and a singular one is reported',
     'The circulation is the solution of (influence matrix) x (circulation) = (right-hand side) of the current state, and nothing of another state is used for it. '
     'If the solver reports that the matrix is singular or an argument illegal, the analysis stops with an error instead of going on with an unsolved circulation.',
     'inputs', 'all influence matrices, singular ones included',
     FEW + 'both have regular matrices.',
     ['aero/vlm.py'], [('solver call', 'solver')])

# ------------------------------------------------------------------ geometry model
prop('P15', 'Mirroring reflects at the right plane and keeps the panel orientation',
     'Mirroring a point changes the sign of exactly the coordinate normal to the given symmetry plane (1: xy, 2: xz, 3: yz; any other value is an error, 0 is no symmetry). '
     'The corners of a mirrored quadrilateral are the mirrored corners in an order that keeps leading/trailing edge and outward normals consistent (2: b,a,d,c; 3: d,c,b,a; 1: unchanged), and the original points are never modified.',
     'inputs', 'all points, quadrilaterals and symmetry planes',
     FEW + 'no stable test covers planes 1 and 3 or looks at a mirrored point.',
     ['objects/aircraft.py'], [('mirroring', 'mirror_point, mirror_vertices, order_mirrored_vertex_points')])
prop('P16', 'Chordwise subareas tile each strip from leading to trailing edge',
     'A strip always consists of the segment subarea and at most the flap/slat subareas that were added: their relative chord positions start at 0, end at 1 and leave no gap or overlap, also where inner and outer positions differ. '
     'Adding a leading- or trailing-edge subarea at a position outside (0, 1), a second one of the same type, or one that overlaps the other is rejected with an error.',
     ['inputs', 'histories'], 'all sequences of subarea additions and all positions',
     FEW + 'they add at most one flap to a strip.',
     ['objects/aircraft.py'], [('subareas', 'SegmentStrip._add_subarea, _update_subarea, StripSubdivision')])
prop('P17', 'Spanwise strips tile each segment from inner to outer edge',
     'Adding a spanwise subdivision replaces the strip that contains the position by two strips that meet there, so that the strips of a segment always cover [0, 1] without gap or overlap and stay in order. '
     'Positions outside (0, 1) are an error, or ignored if the caller asks for it; positions at an existing boundary (within the stated minimum distance) add nothing, and properties of the divided strip carry over to both parts.',
     ['inputs', 'histories'], 'all sequences of subdivisions of a segment',
     FEW + 'they use few subdivisions at fixed positions.',
     ['objects/aircraft.py'], [('strips', 'WingSegment.add_subdivision, _get_subdiv_at_eta, _get_outer_neighbour_subdiv, add_subdivision_for_control')])
prop('P18', 'Panel book-keeping partitions the panels over the subareas',
     'Every subarea of the aircraft owns one range of panels (and, on a wing with symmetry, one more for its mirror image); the ranges follow each other without gap or overlap from 0 to the total number of panels. '
     'A strip has one spanwise row of panels; the chordwise number is that of the control or the rounded-up share of the segment, and the native lattice kernel gets the quadrilaterals and panel numbers in this very order.',
     ['inputs', 'configurations'], 'all aircraft models, symmetries and panel settings',
     FEW + 'no test reads the book-keeping.',
     ['aero/vlm.py', 'objects/vlm_struct.py'], [('panelling', 'pre_panelling, gen_lattice')])
prop('P19', 'Deflected controls rotate the normals of their own panels only',
     'If a control is deflected, the normals of the panels of its own subareas are rotated by its deflection angle about its hinge axis if normal rotations are switched on, the panels of the mirror image by the mirrored deflection (which applies to the mirrored side) about the mirrored axis; all other normals stay unchanged by deflections. '
     'After that, normals are rotated by the angle of the camber line of the airfoil at the chordwise position of the panel about the local span direction.',
     'inputs', 'all controls, deflections, airfoils, and symmetries about the xy- or xz-plane',
     FEW + 'no stable test looks at the normals.',
     ['aero/vlm.py', 'objects/aircraft.py'], [('normal rotation', 'gen_lattice'), ('axes and angles', 'StripSubdivision')])
prop('P21', 'Undeformed and zero-deformation geometry agree at every point',
     'The geometry of a segment between its four corners is the bilinear interpolation in relative span and chord position, and the deformed geometry adds the interpolated displacement of the deformation field: with a zero displacement both give the same points. '
     'A mirrored deformed wing uses the deformation field of its mirror side.',
     'inputs', 'all segments, positions and deformation fields',
     FEW + 'no stable test uses a deformation.',
     ['objects/aircraft.py'], [('points', 'get_abs_segment_point_coords, WingSegment.get_deformed_segment_point, SegmentStrip.abs_vertices')])
prop('P22', 'Deformation fields are assigned to the wing they name',
     'Every deformation field of a deformation file is attached to exactly the wing it names, or to the mirror side of that wing if the name ends with the mirror suffix "_m"; names of wings that merely contain the suffix elsewhere are not changed. '
     'All positions and displacements of the field are taken over. Entries whose name starts with an underscore are ignored, a missing file is an error, and an empty file leaves the aircraft undeformed.',
     'inputs', 'all deformation files and wing names',
     FEW + 'no stable test loads a deformation file.',
     ['fileio/native/deformation.py'], [('assignment', 'deformation.load')])

# ------------------------------------------------------------------ model io
prop('P23', 'Saving and reloading an aircraft file preserves the model',
     'An aircraft file saved in the native format holds every property of the model that the loader reads (references, wings, symmetry, segments with geometry, vertices, airfoils and panels, controls with position, hinge and panels), each under the key under which the loader expects it. '
     'Loading takes every given property over unchanged into the object with the same identifier; geometry, panels and controls may be left out. A relative airfoil path (airfoils/...) becomes absolute in the project folder when loading, '
     'and copied (blade.) airfoils are saved as files in the airfoils folder.',
     'inputs', 'all aircraft models',
     FEW + 'no stable test saves and reloads a model.',
     ['fileio/native/aircraft.py'], [('serialisation', 'aircraft.save'), ('parsing', 'aircraft.load')])
prop('P24', 'Duplicate or empty identifiers never replace model components',
     'Adding a wing, segment or control with an identifier that is empty is rejected with a definition error, and one that already exists in its parent is rejected with an error, before the model is changed. '
     'An accepted component is stored under its own identifier and linked to its parent, next to the components added before; all of its properties start undefined, and no two components share a container.',
     ['inputs', 'histories'], 'all sequences of component additions',
     FEW + 'they never add the same identifier twice.',
     ['objects/aircraft.py'], [('add methods', 'Aircraft.add_wing, Wing.add_segment, Wing.add_control')])
prop('P25', 'Inconsistent or out-of-range component definitions are rejected',
     'A wing segment is rejected unless its given geometric properties are floating-point numbers with alpha, beta and sweep in [-90, 90], dihedral in [-180, 180] and axis positions in [0, 1] (0.25 if not given), its airfoils are texts and its panel numbers positive integers. The symmetry of a wing is 0, 1, 2 or 3. '
     'A control is rejected unless its device type is slat or flap, its deflection is a number in [-90, 90], its relative vertices and hinge positions are in [0, 1], its panel number is a positive integer, and on one segment it ends further out than it begins. On a wing with symmetry a mirror deflection that is not given equals the deflection, and a given one must be in the same range.',
     'inputs', 'all definitions of segments and controls',
     FEW + 'both models are valid.',
     ['objects/aircraft.py'], [('checks', 'WingSegment.check_*, WingControl.check')])

prop('P20', 'Control surfaces and panels reach exactly the strips they span',
     'A control on one segment occupies its own strips between its inner and outer relative position; a control over several segments occupies the rest of the first, all of the middle and the start of the last segment, and its edge and hinge positions at the joints are interpolated linearly along its length. '
     'After that every segment is divided into its number of equally wide spanwise panels, the strip boundaries of controls being kept.',
     'inputs', 'all aircraft models with all controls and panel numbers',
     FEW + 'the models have controls on one segment only and no test looks at the strips.',
     ['aero/vlm.py', 'objects/aircraft.py'], [('subdivision', 'pre_panelling')])

# ------------------------------------------------------------------ settings, files, outputs
prop('P27', 'Settings: defaults fill gaps, user values win, bad values rejected',
     'Every setting that a settings file leaves out has its documented default and every given one its given value (a section such as plot is given as a whole); values of a wrong type, missing mandatory entries, empty file names and an epsilon outside its range are rejected. '
     'Default values are never shared between two settings objects, and neither saving, plotting nor analysing changes the settings of the user.',
     ['inputs', 'histories'], 'all settings files, and all sequences of operations on settings',
     FEW + 'each creates one settings object and never compares it with its input.',
     ['objects/settings.py', 'objects/utils.py', 'fileio/native/settings.py', 'plot/makeplots.py'],
     [('defaults and checks', 'Settings.update_from_dict, check_dict, get_default_dict'), ('saving', 'settings.save')])
prop('P28', 'Results are saved and plotted only when asked for, each to its own file',
     'Each optional result (panelwise, global, matrix system, aeroperformance) is written when and only when its save switch is on, and each plot is made when and only when it is requested and a plot is to be shown or saved. '
     'Every output of an analysis goes into the result or plot folder of the project and of the state it belongs to.',
     ['configurations', 'inputs'], 'all combinations of save and plot switches',
     FEW + 'they use two of the many combinations.',
     ['fileio/native/results.py', 'plot/makeplots.py', 'objects/settings.py'],
     [('save switches', 'results.save_all, standard_run'), ('plot switches', 'makeplots.make_all')])
prop('P29', 'Cleaning removes only generated output, never user input',
     'Cleaning a project removes the plot and result folders of this project and nothing else: folders with aircraft, airfoils, settings, state and deformation input are never removed. '
     'Creating a template project in a folder that already has one stops with an error and overwrites nothing.',
     ['histories', 'configurations'], 'all projects and all sequences of clean, setup and run',
     FEW + 'the clean test checks one project and the template is created once.',
     ['objects/settings.py', 'stdfun/run.py', 'stdfun/setup.py'],
     [('path groups', 'Settings.generate_paths, Settings.clean'), ('template', 'setup_wkdir')])
prop('P31', 'Every figure that is opened is closed, also if drawing fails',
     'Every matplotlib figure that the program opens is closed on every path out of the function that opened it: after normal completion, and when drawing, saving or showing fails.',
     ['configurations', 'fault_sequences'], 'all plot settings and all drawing, saving and showing failures',
     FEW + 'they plot one model with valid settings, and no test lets drawing fail.',
     ['plot/plottools.py', 'plot/makeplots.py', 'plot/downwash.py'], [('figure context managers', 'plottools.plot2d3d, plot_XYZ'), ('downwash plot', 'view_downwash')])
prop('P39', 'Every file that the program opens is closed on every path',
     'Every text file that the program opens for reading or writing (settings, state, aircraft, deformation, airfoil and result files, templates) is closed on every path out of the function that opened it, also if parsing, formatting or writing its contents fails.',
     ['fault_sequences', 'crash_points'], 'all read, parse, format and write failures',
     FEW + 'no test lets reading or writing fail.',
     ['fileio/', 'objects/settings.py', 'stdfun/setup.py', 'database/tools.py'], [('file handles', 'every call of open')])
prop('P32', 'The command line starts exactly the operation that was asked for',
     'Each command-line option leads to its documented operation and no other: a run, the template, the CPACS conversion or a list of the aircraft of the database. A run gets the settings file and the verbose, debug, quiet, clean and clean-only flags that were given. '
     'Options that make sense only for a run are refused without one. Both installed executables behave alike.',
     ['configurations', 'inputs'], 'all combinations of command-line options',
     FEW + 'they try a handful of option combinations.',
     ['src/bin/_pytornado_exe.py', 'stdfun/run.py'], [('dispatch', 'main')])
prop('P33', 'CPACS files are closed after use, and saved only if the edit succeeded',
     'Every CPACS file that is opened is closed on every path, also if reading or writing fails. '
     'A file opened for modification is saved only if all modifications succeeded, and before it is closed.',
     ['fault_sequences', 'crash_points'], 'all failures while a CPACS file is open',
     'CPACS libraries are not installed where the tests run, so no test opens a CPACS file.',
     ['fileio/cpacs/utils.py', 'fileio/cpacs/aircraft.py', 'fileio/cpacs/state.py', 'fileio/cpacs/results.py'],
     [('handle management', 'open_tixi, open_tigl, modify_cpacs, load')])
prop('P34', 'CPACS performance map: each coefficient and state column under its name',
     'Reading flight states from a CPACS performance map takes each parameter (altitude, Mach number, angle of attack, side slip) from its own column of the map that the tool-specific input names; rotation rates are zero and all columns must have the same length. Writing results puts CL, CD, CC, Cl, Cm, Cn into the columns for lift, drag, side force, roll, pitch and yaw moment, one value per state in the order of the states. '
     'Units and signs are passed on unchanged.',
     'inputs', 'all performance maps and results',
     'CPACS libraries are not installed where the tests run, so no test covers the mapping.',
     ['fileio/cpacs/state.py', 'fileio/cpacs/results.py'], [('mapping', 'state.load, save_aeroperformance_map')])
prop('P35', 'Files written by the program can be read back by the program',
     'Arrays are written to JSON as lists of their values in order, and a file holds the complete data. A state file that is written holds the entries that reading it back takes over, so that writing and reading returns the same flight states. '
     'The text used for file names keeps the letters, digits and allowed characters in their order, and anything that is not a text is rejected.',
     'inputs', 'all data written and all text parsed',
     FEW + 'no test reads an output file back.',
     ['fileio/utils.py'], [('encoder', 'NDArrayEncoder, dump_pretty_json'), ('parser', 'parse_str'), ('state file', 'fileio/native/state.py')])
prop('P36', 'Automatic panelling fills in only the numbers the user left out',
     'If automatic panelling is asked for, only segments and controls without a user-given panel number get one; a given number is never changed. '
     'The automatic spanwise number of a segment is its rounded-up share (segment span / wing span) of the spanwise setting; the automatic chordwise number of segments and controls is the chordwise setting.',
     'inputs', 'all aircraft models and automatic panel settings',
     FEW + 'no test compares panel numbers.',
     ['aero/vlm.py'], [('automatic panelling', 'set_autopanels')])

prop('P37', 'Vertices and geometric properties of a segment describe one quadrilateral',
     'A wing segment may be given by its four vertices, or by one vertex and all geometric properties, or by the edge AD (or BC) and all properties except those of the inner (or outer) end; every other combination is rejected as incomplete before any geometry is computed. '
     'From four vertices, chords, incidence and yaw angles of both edges, span, sweep and dihedral are computed, such that a segment given by these properties and any of these vertices has the same four vertices; given vertices and properties are used unchanged (zero counts as given). '
     'Negative spans and chords and angles beyond 90 degrees swap the vertices concerned, so that A and D are the inner and A and B the front ones.',
     'inputs', 'all segments: which vertices and properties are given, and all their values',
     FEW + 'all of their segments are given by four vertices.',
     ['objects/aircraft.py'], [('geometry of a segment', 'WingSegment.generate, WingSegment.check_vertices')])
prop('P38', 'Sizes, airfoils and control points follow from the segments of the wing',
     'Span and area of a wing are the sums over its segments (spans by magnitude), the area of the aircraft is the sum over its wings, and the positions of a segment on its wing are the fractions of the span before and after it. Every wing and every segment is generated, and the reference values of the aircraft are complete, positive and converted to numbers and arrays each under its own name. '
     'A segment morphs between the airfoil of its inner and that of its outer end, each read from its file or built from its NACA digits. Corner and hinge points of a control lie on the segments of its inner and outer end at its relative positions. The aircraft counts as deformed if any wing has a deformation field on either side.',
     'inputs', 'all aircraft models',
     FEW + 'no test reads these values.',
     ['objects/aircraft.py'], [('measures', 'Wing.span, Wing.area, Aircraft.area, Wing.generate, Aircraft.generate'), ('airfoils', 'WingSegment._import_airfoils'), ('control points', 'WingControl.abs_vertices, abs_hinge_vertices')])

# ------------------------------------------------------------------ not in reach of static analysis
prop('P90', 'Results converge to the exact potential-flow solution',
     'With an increasing number of panels the computed coefficients converge, and for reference cases they agree with published vortex-lattice results within a stated tolerance.',
     'inputs', 'all geometries and panel densities',
     FEW + 'no reference values are compared.',
     ['aero/vlm.py'], [('whole analysis', 'standard_run')])
prop('P91', 'Run time and memory grow as expected with the number of panels',
     'Time and memory of an analysis grow no faster than the cube and the square of the number of panels.',
     'inputs', 'all panel numbers', 'Tests run with a few hundred panels.',
     ['aero/vlm.py'], [('whole analysis', 'standard_run')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as fp:
    for p in P:
        fp.write(json.dumps(p) + '\n')
print(len(P), 'properties')
