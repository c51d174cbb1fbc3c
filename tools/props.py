#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (python3 tools/props.py rewrites both)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SAMPLE = ('The tests compare a fixed set of example meshes with stored results at a handful of output points; '
          'they sample single values of what this statement quantifies over')


def P(id, title, statement, over, text, why, files, mech, observe):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                why_tests_cant=SAMPLE + ': ' + why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None))


PROPS = [
P('P01', 'Each time step is the Yee leapfrog update on the given mesh',
  'In one time step every electric field component becomes alpha times itself plus beta times the discrete curl of the magnetic field, and then every magnetic '
  'field component loses gamma times the discrete curl of the new electric field, where alpha, beta and gamma are the coefficients held at that component. The curls use the actual local '
  'cell lengths of the (possibly non-uniform) mesh: primary edge lengths for the electric differences, distances between cell centres for the magnetic ones. No component anywhere in the '
  'grid is skipped, updated twice or updated from a stale value.',
  ['inputs', 'configurations'], 'all field states, all material coefficients, all mesh line positions, grid shapes',
  'no test varies the initial field, the coefficients of single cells or the spacing of single cells', ['src/grid.c', 'src/vulture.c'],
  [('field updates and edge lengths', 'src/grid.c updateGridEfield, updateGridHfield, initCellEdges')], ['the six field arrays after a time step']),
P('P02', 'PEC, PMC and periodic outer faces are exact walls and wrap-around',
  'On a PEC outer face the tangential electric field stays zero; a PMC face acts as a magnetic wall (fields outside are the mirror image with odd tangential magnetic field); periodic faces '
  'join the two sides so that the far side continues the near side with the same cell sizes. This holds for every combination of these types over the six faces, including edges and corners.',
  ['inputs', 'configurations'], 'all 125 combinations of face types, all field states', 'only a few combinations appear in the example meshes, each from one excitation',
  ['src/grid.c', 'src/surface.c', 'src/boundary.c'], [('ghost updates and outer surfaces', 'src/surface.c, src/grid.c')], ['field arrays']),
P('P03', 'PML faces follow the graded uniaxial PML equations and are loss-free when off',
  'Inside a PML layer of any face the fields obey the stretched (uniaxial) Maxwell update whose conductivity and stretch follow the polynomial profile set by the number of layers, order, '
  'maximum stretch and theoretical reflection given for that face, carrying the medium of the adjoining cells into the layer, with layers of two or three faces multiplying at edges and corners. '
  'With unit theoretical reflection and unit stretch the layer is just more free space, and the back of the layer is a PEC wall.',
  ['inputs', 'configurations'], 'field states, layer parameters, faces', 'tests check one absorption figure for six and twelve identical layers',
  ['src/pml.c', 'src/surface.c', 'src/boundary.c'], [('PML parameters and updates', 'src/pml.c')], ['field arrays in the layers and at their interface']),
P('P04', 'Mur faces apply the first-order absorbing condition to both polarisations',
  'On a Mur outer face both tangential electric components are set, at every time step, from the old and new values on the face and one cell inside by the first-order Mur formula using the '
  'free-space wave speed, the length of the cell at the face and the time step. Edges shared by two Mur faces keep their zero value, and other components are untouched by the condition.',
  ['inputs', 'configurations'], 'faces, field states, spacings', 'two tests use Mur faces, all six at once, in free space',
  ['src/mur.c', 'src/surface.c'], [('Mur coefficients and update', 'src/mur.c')], ['tangential electric field on the face']),
P('P05', 'Material parameters give the documented update coefficients',
  'A simple medium with relative permittivity, conductivity and relative permeability yields alpha=(2e-s*dt)/(2e+s*dt), beta=2dt/(2e+s*dt) and gamma=dt/mu at the cells it fills, free space the vacuum values '
  'and PEC alpha=-1, beta=0. For every non-negative conductivity and every permittivity and permeability of at least one the electric decay factor has magnitude at most one.',
  ['inputs'], 'all medium parameters and time steps', 'tests use fixed media', ['src/medium.c', 'src/grid.c'], [('coefficient calculation', 'src/medium.c calcCoefficients*')],
  ['update coefficient arrays after set-up']),
P('P06', 'Blocks, surfaces and wires paint exactly the components they cover, in order',
  'A material block, material surface or wire changes the medium of exactly the field components lying in its bounding box that its keyword and mask select, and no others; components of '
  'later cards replace those of earlier cards of the same kind. Everything not covered by any card is free space.',
  ['inputs', 'configurations'], 'bounding boxes, orders, masks, media', 'tests place blocks at a few fixed positions', ['src/medium.c', 'src/block.c', 'src/surface.c', 'src/line.c', 'src/grid.c'],
  [('painting', 'src/grid.c setMediumOnGrid, src/bounding_box.c')], ['update coefficients of every component']),
P('P07', 'The time step satisfies the Courant condition of the actual mesh',
  'The time step is the Courant number divided by the speed of light times the root of the sum of squared inverse smallest cell lengths over the three axes, whichever card gave the mesh lines. A uniform edge card and explicit '
  'line cards describing the same mesh give the same lines, time step and fields.',
  ['inputs', 'configurations'], 'mesh lines, Courant numbers', 'tests use fixed meshes', ['src/grid.c', 'src/mesh.c', 'src/simulation.c'], [('time step', 'src/grid.c')], ['time step', 'mesh line coordinates']),
P('P08', 'Every excitation drives the documented component with the documented amplitude',
  'An excitation card of each type adds (soft) or imposes (hard) on exactly the field components of its line, surface or volume that its type names, the waveform value at the time of that component scaled by size '
  'and by the geometry its type documents (current density, total current, dipole moment, voltage, field). The delay of the card shifts the waveform in time; electric sources are evaluated at whole steps and magnetic ones at half steps.',
  ['inputs', 'configurations'], 'source types, boxes, sizes, delays, spacings', 'tests cover hard and soft point sources on one uniform mesh', ['src/source.c'],
  [('source scaling and update', 'src/source.c initSources, updateSources*')], ['fields after a step']),
P('P09', 'Plane wave sources inject the incident wave at the box faces and nowhere else',
  'A plane wave source corrects exactly the field components next to the faces of its box (except faces that its mask excludes) with the incident field of the given angles, polarisation, amplitude and delay; components on a rim shared with an excluded face are left alone unless that face lies on a PMC or periodic wall. '
  'A wave travelling along a grid axis gives zero field outside the box and the pure incident wave inside.',
  ['inputs', 'configurations'], 'angles, polarisations, boxes, amplitudes, waveform samples', 'tests use a few directions', ['src/planewave.c'],
  [('total-field/scattered-field corrections', 'src/planewave.c')], ['fields in and around the box']),
P('P10', 'Debye media follow the auxiliary differential equation update',
  'In a block of a Debye medium each pole current obeys the discretised relaxation equation with the pole residues and frequencies given, and the electric field update uses the sum of the pole '
  'currents, for every number of poles. The pole state of one component never influences another component.',
  ['inputs', 'histories'], 'pole parameters, field states, number of poles, steps', 'one Debye medium in the tests', ['src/debye.c', 'src/medium.c', 'src/block.c'], [('pole update', 'src/debye.c')], ['electric fields']),
P('P11', 'Impedance boundary surfaces relate both faces by their recursive convolution',
  'At a surface impedance sheet the electric field on each side is the impedance matrix applied to the magnetic fields of both sides plus the recursive convolution terms of each pole, for every '
  'normal direction and orientation. The state of one location never influences another.',
  ['inputs', 'configurations', 'histories'], 'surface parameters, orientations, field states', 'two sheets in the tests', ['src/sibc.c', 'src/filter.c', 'src/surface.c'], [('SIBC update', 'src/sibc.c')], ['fields at the sheet']),
P('P12', 'Waveforms have the documented shape, amplitude, width and delay',
  'Each waveform type evaluates to its formula at every time t, scaled by its size and shifted by its delay td, with u=t-td and x=u/width: Gaussian and narrow Gaussian exp(-x^2/2), differentiated Gaussian -x*exp(-x^2/2), '
  'Ricker wavelet (1-x^2)*exp(-x^2/2), modulated Gaussian times sin(2*pi*f*u), compact pulse (10-15cos(pi*x)+6cos(2pi*x)-cos(3pi*x))/32 for 0<x<2 and zero elsewhere, its derivative without the factor pi, its modulated form, and the sinusoid ramped up over one width. '
  'The documented defaults in time steps apply where the card leaves parameters out, and an external waveform is the cubic spline with flat ends through the rows of its file and zero outside it.',
  ['inputs'], 'times, parameters', 'tests run four waveforms with default parameters', ['src/waveform.c'], [('waveform evaluation', 'src/waveform.c')], ['fields at a source', 'recorded excitations']),
P('P13', 'Time-domain observers record the field of the right place at the right step',
  'A time-domain observer writes, for every step in its start/stop/step range and every node in its box with the given stride, the six field components at that node and step, once and in order. The binary '
  'outputs carry headers that agree with the number of records that follow.',
  ['inputs', 'configurations'], 'boxes, strides, time ranges, field values', 'tests use a few fixed observers', ['src/observer.c'], [('observer initialisation and update', 'src/observer.c')], ['output files']),
P('P14', 'Frequency-domain outputs are the discrete Fourier transform of the run',
  'A frequency-domain observer writes, for each of the equally spaced frequencies of the output frequency card (or the documented default ones), the sum over the steps of the output time window of the field times exp(-j*2*pi*f*n*dt), n being the step number, '
  'divided by the same sum of the reference waveform over the whole run; the files of waveform spectra hold the sums of the waveforms. Each node of the observer box, with its strides, gets its own transform, written once and in order.',
  ['inputs', 'configurations', 'histories'], 'field histories, frequencies, boxes', 'tests compare stored numbers', ['src/observer.c'], [('frequency observers', 'src/observer.c')], ['output files']),
P('P15', 'Excitation and header files describe the run that was made',
  'Each waveform file lists one row per time step with the step, the time and the value of the waveform, the excitation file one value of the first waveform per step, and the process file lists the comment, the boxes and strides of the binary observers, the output steps, the frequency range and step and the reference mesh size of the run that was made.',
  ['inputs', 'configurations'], 'meshes, waveforms', 'tests compare few files', ['src/observer.c', 'src/waveform.c', 'src/grid.c'], [('reports', 'src/observer.c')], ['output files']),
P('P16', 'The mesh reader enforces card order, required cards and single cards',
  'A mesh is accepted only if its cards come in the documented sections and order, every required card is present and no singleton card is repeated; otherwise the program stops with an error status and never starts a simulation.',
  ['inputs'], 'sequences of cards', 'a few bad meshes in the tests', ['src/mesh.c'], [('section state machine', 'src/mesh.c')], ['exit status']),
P('P17', 'Out-of-range card parameters are rejected and in-range ones accepted',
  'Every numeric or named parameter of a mesh card outside its documented range - sizes, bounding boxes outside the mesh or of the wrong dimension, unknown names, duplicate tags, orientations, angles, counts - makes the '
  'program stop with an error status; parameters inside the range are accepted and used with the value given.',
  ['inputs'], 'all parameter values', 'tests try a handful of values', ['src/mesh.c', 'src/block.c', 'src/surface.c', 'src/source.c', 'src/observer.c', 'src/boundary.c', 'src/medium.c', 'src/simulation.c', 'src/bounding_box.c'],
  [('card parsers', 'parse* functions')], ['exit status']),
P('P18', 'Comments, blank lines and spacing never change the meaning of a mesh',
  'Removing comments and blank lines or changing leading, trailing or separating white space of a mesh never changes whether it is accepted, nor any field computed from it.',
  ['inputs'], 'placements of comments, blanks and white space', 'tests use one layout', ['src/mesh.c', 'src/util.c'], [('line trimming', 'src/mesh.c, src/util.c')], ['exit status', 'fields']),
P('P19', 'No accepted or rejected mesh makes the program touch memory it does not own',
  'Reading any mesh and running it to the end or to an error performs no out-of-bounds, use-after-free, double-free or uninitialised access and no undefined arithmetic.',
  ['inputs', 'configurations'], 'mesh contents, structure combinations', 'tests run without sanitizers and look only at output files', ['src'], [('allocation and index ranges', 'src/alloc_array.c and every module')], ['process behaviour']),
P('P20', 'The simulated system is linear in its sources',
  'Scaling every source amplitude scales every recorded field by the same factor, and the response to several sources together is the sum of the responses to each alone, whatever media, boundaries and surfaces are present.',
  ['inputs', 'configurations'], 'amplitudes and source sets', 'each test has one amplitude', ['src'], [('linear updates', 'src')], ['fields', 'output files']),
P('P21', 'Results do not depend on how the axes are labelled',
  'Relabelling the x, y and z axes of a mesh cyclically relabels the computed fields in the same way and changes nothing else.',
  ['inputs', 'configurations'], 'meshes and field states under axis permutation', 'tests compare permuted one-dimensional examples only', ['src'], [('per-axis code', 'src')], ['fields']),
P('P22', 'Closed lossless systems conserve discrete energy and lossy ones never gain it',
  'With walls of PEC, PMC or periodic type and lossless media the leapfrog energy is the same after every step from any initial field; adding conductivity never increases it.',
  ['inputs', 'configurations'], 'initial fields, media, meshes', 'no test looks at energy', ['src/grid.c', 'src/medium.c', 'src/surface.c'], [('updates', 'src/grid.c')], ['fields']),
P('P23', 'Reporting options never change the physics or the exit status',
  'Command line options that only ask for reports, dumps or plots leave the computed fields and outputs the same; the options for help, version, mesh only and no simulation do what they say.',
  ['inputs', 'configurations'], 'option combinations', 'tests use one option set', ['src/vulture.c', 'src/grid.c', 'src/gnuplot.c'], [('option parsing', 'src/vulture.c')], ['fields', 'files', 'exit status']),
P('P24', 'The mesh converter output describes exactly the physical model',
  'The geometry file written for viewing contains, for every block, surface, wire, source and observer of the mesh, an element whose corners are at the physical coordinates of its bounding box, and nothing else.',
  ['inputs', 'configurations'], 'meshes', 'no test reads it', ['src/gvulture.c', 'src/gmsh.c'], [('gmsh writer', 'src/gmsh.c')], ['output files']),
P('P25', 'Bounding boxes are classified and combined correctly for all values',
  'For all integer corner values a bounding box is classified as point, line, surface or volume with the right direction, lies within another exactly when all its points do, has the faces and offsets its corners give, '
  'and contains, with any of its faces left out, exactly the field components at its sites. Cards that need a kind of box inside the mesh accept exactly those boxes.',
  ['inputs'], 'all 32-bit corner values', 'no unit test of boxes', ['src/bounding_box.c', 'src/grid.c'], [('box algebra', 'src/bounding_box.c')], ['return values']),
P('P26', 'Multi-dimensional arrays give every index its own storage',
  'For every shape, distinct indices of an allocated array refer to distinct elements inside one block, so that writing one element never changes another, and the memory reported is the memory requested.',
  ['inputs'], 'shapes and indices', 'never tested directly', ['src/alloc_array.c'], [('array allocation', 'src/alloc_array.c')], ['element addresses']),
P('P27', 'Mesh files and physical locations agree with the mesh cards',
  'The line files written for post-processing hold the line coordinates of the mesh in order, and each field component is located at its staggered position between those lines.',
  ['inputs'], 'mesh lines', 'no test reads the line files', ['src/grid.c'], [('line output and locations', 'src/grid.c')], ['output files']),
P('P28', 'Wire cards set exactly the edges along the wire',
  'A thin wire of PEC type keeps the electric field along it zero on exactly the edges of its line during the whole run, for every axis, position, length and combination of wires, and leaves the update of every other component as it was without the wire.',
  ['inputs', 'configurations'], 'wire positions', 'one wire in the tests', ['src/wire.c', 'src/line.c'], [('wire painting', 'src/line.c')], ['fields']),
P('P29', 'The grid dump shows the media the simulation uses',
  'With option -g the files mediaEx.dat to mediaHz.dat show for every field component inside the mesh a point where the component is updated as in free space, a star where it is held as in a perfect conductor and the letter o for any other medium, whatever the size of the cells and the parameters of the medium; rows run from high to low k and j and along a row i ascends.',
  ['inputs', 'configurations'], 'block, surface and wire positions, media, cell sizes', 'no test reads the dump', ['src/grid.c'], [('grid dump', 'src/grid.c')], ['media*.dat']),
P('P30', 'Results do not depend on the sense of the axes',
  'If a mesh and its sources are reflected in an axis, each field component of the run is the reflection of the original one with the parity of a polar (electric) or axial (magnetic) vector, for all walls, media, sources, plane waves, wires, sheets and observers.',
  ['inputs', 'configurations'], 'meshes, field states, source sizes, mirrors', 'tests only permute axes of a few meshes', ['src/mur.c', 'src/pml.c', 'src/planewave.c', 'src/source.c', 'src/surface.c', 'src/sibc.c', 'src/grid.c'], [('low and high faces', 'src/pml.c'), ('Mur faces', 'src/mur.c'), ('plane wave faces', 'src/planewave.c')], ['fields', 'impulse.dat']),
P('P31', 'Neither the length of a run nor what it records changes its earlier history',
  'The fields and records of the first steps of a run are the same when the run is continued for more steps, and when further observers, output windows and output frequencies are asked for.',
  ['inputs', 'configurations', 'histories'], 'runs and continued or observed runs', 'no test compares runs of different length', ['src/simulation.c', 'src/observer.c', 'src/source.c', 'src/waveform.c'], [('time loop', 'src/simulation.c'), ('observers', 'src/observer.c')], ['fields', 'impulse.dat']),
P('P32', 'Fields do not depend on the unit of length',
  'If all lengths and times of a mesh are multiplied by one factor and its conductivities and pole frequencies divided by it, with source sizes converted according to their dimension, every field of the run stays the same and the time step is multiplied by the factor, for all walls, media, sources, sheets and observers.',
  ['inputs', 'configurations'], 'scale factors, meshes, field states, source sizes', 'all tests use cells of similar size', ['src/grid.c', 'src/pml.c', 'src/mur.c', 'src/source.c', 'src/planewave.c', 'src/debye.c', 'src/sibc.c', 'src/filter.c', 'src/waveform.c'], [('grid', 'src/grid.c'), ('sources', 'src/source.c')], ['fields', 'output files']),
P('P33', 'Transfer between any two edges is reciprocal',
  'The voltage that a current source in one edge causes along another edge equals at every step the voltage that the same source in the second edge causes along the first, for all passive reciprocal media, PEC structures, lumped loads, and PEC, PMC, periodic and PML faces.',
  ['inputs', 'configurations', 'histories'], 'pairs of edges, media parameters, loads, steps', 'no test exchanges source and observer', ['src/grid.c', 'src/pml.c', 'src/source.c', 'src/debye.c', 'src/sibc.c', 'src/medium.c'], [('grid update', 'src/grid.c'), ('layer update', 'src/pml.c'), ('current sources', 'src/source.c')], ['fields']),
P('P34', 'Steps create no charge beyond what currents carry',
  'Over a step the magnetic flux out of every mesh cell stays the same, and the electric flux out of the dual cell of every interior node changes exactly by the conduction and source current flowing out of it, for any field state, media and walls.',
  ['inputs', 'configurations', 'histories'], 'field states, media, sources', 'no test checks divergence', ['src/grid.c', 'src/mur.c', 'src/source.c', 'src/medium.c'], [('grid update', 'src/grid.c'), ('current sources', 'src/source.c')], ['fields']),
P('P35', 'Closed conducting surfaces separate the fields on their two sides',
  'Fields inside a closed box or behind a closed plane of PEC surfaces do not depend on the fields, sources and faces on the other side, and the tangential electric field on the surface stays zero.',
  ['inputs', 'configurations', 'histories'], 'box positions, field states on both sides, sources', 'one closed box in the tests', ['src/surface.c', 'src/grid.c', 'src/source.c', 'src/planewave.c'], [('inner surfaces', 'src/surface.c'), ('grid update', 'src/grid.c')], ['fields']),
P('P36', 'The Octave readers return what the observer files hold',
  'The scripts in m/ that read impulse.dat, excite.dat, process.dat, line files and frequency files return exactly the arrays the solver wrote.',
  ['inputs'], 'observer files', 'no test runs the scripts', ['m/tdfdReadImpulseDat3D.m', 'm/tdfdReadExciteDat.m', 'm/tdfdReadProcessDat.m'], [('readers', 'm/tdfdReadImpulseDat3D.m')], ['arrays']),
]

CLAIMED = {
 'P01': 'grid 3x3x3 and shapes down to one cell, one step, all fields, coefficients and mesh increments symbolic',
 'P03': 'each face, edge and corner of layers, 1 to 3 layers, symbolic fields and one symbolic layer parameter at a time, 1 to 2 steps',
 'P04': 'all faces and face combinations on graded grids, symbolic fields and cell lengths, 1 to 2 steps',
 'P05': 'one block of a medium with symbolic permittivity, conductivity, permeability and time step, every component of the grid checked',
 'P06': 'symbolic boxes, masks, media and card orders on small meshes, every component checked',
 'P08': 'all 84 source types; graded meshes up to 3 cells, symbolic position, size, resistance, cell lengths and field state, 1 to 3 steps',
 'P07': 'symbolic Courant number and cell lengths, one axis of explicit lines at a time, up to 5 cells; pairs of runs with symbolic fields over 2 steps',
 'P12': 'every waveform type with symbolic size, delay, width and frequency and every subset of omitted parameters, 1 to 4 steps',
 'P13': 'symbolic boxes, strides, time windows and fields on grids up to 4 cells, runs of 1 to 4 steps',
 'P14': 'runs of 1 to 4 steps with symbolic fields and windows, 1 to 4 frequencies, concrete frequency values',
 'P15': 'runs of 1 to 4 steps, 1 to 3 waveforms and observers, all output windows of 3 steps',
 'P22': 'energy as a quadratic form over all symbolic fields, all 125 wall combinations on grids of 2 to 8 cells, two steps, concrete media',
 'P25': 'all corner values below 2^30 in magnitude; card acceptance on a 3x3x3 mesh with symbolic corners on one axis outside, all inside on the others',
 'P26': 'all shapes of 1 to 5 dimensions with extents up to 4 (9 along one dimension), symbolic contents, pairs of symbolic indices',
 'P28': 'every single wire of meshes of 4 to 6 cells and every pair of wires of a 2 cell mesh, symbolic fields, 2 to 3 steps',
 'P27': 'meshes of 1 to 4 cells per axis with symbolic coordinates, all face types; every node and every component up to one cell outside',
 'P09': 'listed directions, symbolic amplitudes, box positions and waveform samples, cubic, uniform and graded meshes up to 4 cells (11 along one axis), 2 to 9 steps (150 for passing pulses)',
 'P10': '0 to 5 poles, symbolic fields, block positions, masks, meshes of 2 to 3 cells per axis, 3 to 4 steps; coefficients with symbolic parameters',
 'P11': 'single sheets of 1 to 6 faces and up to six meeting sheets, symbolic fields, 0 to 3 poles, 1 to 3 steps; symbolic scattering parameters two at a time',
 'P16': 'symbolic card codes at every position of documents of up to 18 lines; edits at symbolic positions',
 'P18': 'symbolic white space and comment characters at every line and gap of two documents using every card',
 'P20': 'two sources with symbolic amplitudes, 55 combinations of source kinds, walls and media, grids of 3 cells per axis, 3 to 4 steps',
 'P21': 'three labellings of 88 meshes with every kind of card, symbolic fields and sizes, grids of 2 to 4 cells, 2 to 4 steps',
 'P17': 'every card of a mesh of 3x3x3 cells, numbers symbolic over 32 or 64 bits or magnitude 1e12, one symbolic character in names, types and masks',
 'P19': 'two documents with every card: cut anywhere, any character, number, pair of limits or word length in any line; three data files cut anywhere; one step',
 'P23': 'all options in both spellings, pairs of options, symbolic field checks of one run against another',
 'P24': 'every kind of object with symbolic boxes and coordinates on meshes of up to 4 cells, both output formats',
 'P29': 'symbolic positions, media and cell sizes from 1e-6 m to 1e5 m on a 2x2x2 mesh, all walls',
 'P30': 'each mesh against three mirrors and the point reflection, symbolic fields and sizes, meshes of 3 cells per axis, 1 to 4 steps',
 'P31': 'pairs of runs of 1 to 5 steps with symbolic fields or source sizes, meshes of 3 cells per axis',
 'P32': 'three scale factors from 1e-4 to 1e4, symbolic fields and sizes, meshes of 3 cells per axis, 1 to 4 steps',
 'P33': '6 to 18 interior edges per mesh, symbolic media, source size and load, 3 to 5 steps',
 'P34': 'all cells and interior nodes of a 3x3x3 mesh, symbolic fields, one symbolic parameter of a medium, 1 to 2 steps',
 'P35': 'boxes at symbolic positions and planes in a 4x3x3 mesh, symbolic fields on both sides, 2 to 4 steps',
 'P02': 'all 125 combinations, two steps, small graded grids, all fields symbolic',
}

NOT_APPLICABLE = {'P36': 'The scripts are Octave programs: there is no front end here that turns Octave into a form a solver can decide, and no Octave interpreter to replay a counterexample against.'}


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps(p) + '\n')
    m = dict(version=1, setup_cmd='python3-vt -c "import z3, sympy" && clang --version && opt --version',
             checks=[dict(property=p['id'], quick_cmd='python3-vt run.py ' + p['id'],
                          thorough_cmd='VERIF_TIER=thorough python3-vt run.py ' + p['id'],
                          technique='symbolic execution of the clang IR of the real sources, assertions decided by z3',
                          level='model_checking', level_note=CLAIMED[p['id']]) for p in PROPS if p['id'] in CLAIMED],
             not_applicable=[dict(property=p['id'], reason=NOT_APPLICABLE.get(p['id'], 'check under construction')) for p in PROPS if p['id'] not in CLAIMED])
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)


main()
