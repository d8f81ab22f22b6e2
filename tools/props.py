"""Source of properties.jsonl: python tools/props.py writes it."""
import json
import os

P = []


def p(id, title, statement, text, why, files, mech, over=('inputs',), observe=(), state=()):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': list(over), 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': ['rsbeams/' + f for f in files],
                          'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                          'mechanism': [{'name': a, 'where': 'rsbeams/' + b} for a, b in mech],
                          'observe_at': list(observe), 'hook_needed': None}})


S = 'rsdata/SDDS.py'
p('C01', 'Binary SDDS files are read exactly, buffered or not',
  'Reading a binary SDDS file delivers every page, every parameter (fixed values included) and every column row with '
  'exactly the value, string and numeric type that the file holds, in file order. This holds whatever bytes the values '
  'happen to contain and whatever the numbers of pages, rows, parameters and columns are (rows may differ from page to '
  'page and may be zero). Reading with and without buffering gives the same result and never modifies the file.',
  'all well-formed little-endian binary SDDS files with scalar parameters and columns of the types short, long, float, '
  'double and string',
  'The tests read three committed files and compare a few values; row counts, byte patterns, types, string cells, empty '
  'pages and uneven pages are an unbounded space.',
  [S], [('reading of parameter and column records by computed dtypes', S), ('page loop until end of file', S)],
  observe=['readSDDS(path, buffer).read(); .parameters; .columns'])
p('C02', 'ASCII SDDS files are read exactly, buffered or not',
  'Reading an ASCII SDDS file delivers every page, parameter and column row with exactly the values that the text '
  'denotes, including quoted strings with blanks, comments and blank lines between records, several pages, and pages '
  'with none or one row, and text that is not ASCII. Files that declare no row counts end their pages at blank lines, and files with row counts hold '
  'as many rows as the count says. Buffered and unbuffered reading give the same result.',
  'all well-formed ASCII SDDS files with scalar parameters and columns of the types short, long, float, double, string',
  'One committed ASCII file with a single page is tested; layouts, number formats, strings and page structures are not.',
  [S], [('line by line ASCII reader', S), ('no_row_counts handling', S)],
  observe=['readSDDS(path, buffer).read(); .parameters; .columns'])
p('C03', 'Reading selected SDDS pages equals reading all and picking those pages',
  'For every selection of pages, given as any iterable of page numbers, reading a file delivers exactly the selected '
  'pages, in file order and with the content they have when the whole file is read. Pages that are skipped, whatever they '
  'hold, do not change what is delivered. Page selection gives the same result in binary and ASCII, buffered and not.',
  'all page selections of all well-formed files',
  'The tests select one page of one file; the alignment of the reader after skipped pages depends on the content skipped.',
  [S], [('user page selection in the page loop', S)], observe=['readSDDS(...).read(pages)'])
p('C04', 'SDDS header metadata is reported exactly as declared',
  'For every parameter and column in the header the name, type, units, symbol, description, format string and fixed '
  'value that are declared are reported, converted to the declared type, and fields that are not declared are not '
  'invented. Declaration order, quoting, the order of the fields, comments and multi-line declarations do not matter. '
  'The data mode and row count option are recognised in the same way.',
  'all header layouts with comma separated entries',
  'Headers of a few committed files are parsed in the tests; quoting, commas and equal signs in strings, field order and '
  'layouts vary without bound.',
  [S, 'rsdata/datatypes.py'], [('namelist parsing by regular expression', S), ('typed fields', 'rsdata/datatypes.py')],
  observe=['readSDDS(path).parameter_... / column metadata structures'])
p('C05', 'Truncated or malformed SDDS files are refused, never hang or mislead',
  'If an SDDS file is cut off at any byte, reading either raises an exception or delivers exactly the complete pages that '
  'are left, and always terminates (in ASCII files only the very last value may be shortened by the cut). No page with '
  'missing rows, columns or parameters is ever delivered as if it were complete. Files without SDDS version line, '
  'without data section, with a negative row count, with an unknown type or with cells that are missing or not numeric raise an exception.',
  'every prefix of every well-formed file (crash points of the writer), and damaged headers and rows',
  'No test reads an incomplete file; there is one crash point per byte.',
  [S], [('header search limit', S), ('short read detection', S)], over=('crash_points', 'inputs'),
  observe=['readSDDS(path).read() outcome and logical step count'])
p('C06', 'Written SDDS files hold exactly the data given, in ASCII and binary',
  'A file saved from parameters and columns (of type short, long, double, string), read by an independent decoder and by '
  'this package, holds every parameter, fixed value and column with exactly the value, order and type given, '
  'in binary as well as in ASCII. Saving does not modify the data given, '
  'writes no file but the one named, and repeating it produces the same file. Columns of unequal length are refused '
  'before the file is touched.',
  'all sets of parameters and columns, values, and repeated or interleaved save operations on one or several writers',
  'The tests write one small data set; value ranges, types, empty columns and repeated saves are open.',
  [S], [('header and data output', S)], over=('inputs', 'histories'), observe=['writeSDDS.save_sdds and the file on disk'])
p('C07', 'elegant particle files survive writing and reading with correct units',
  'Writing a species in elegant format and reading it back gives the same particles: x and y, the transverse slopes, '
  'time and total momentum p are converted to and from the coordinates (x, ux, y, uy, ct, pt) by the documented '
  'relations, and charge, mass and number of particles are kept. The order of particles is kept, for one particle and '
  'for many, and the species written is not changed.',
  'all finite phase-space distributions, charges and masses',
  'The tests convert one committed bunch; sign, scaling and single particle cases are sampled at one point.',
  ['rsdata/switchyard.py', 'rsptcls/species.py', S], [('elegant reader and writer', 'rsdata/switchyard.py')],
  observe=['Switchyard.read / write', 'file content through an independent decoder'])
p('C08', 'OPAL and Genesis files are converted with correct units and content',
  'Particles read from an OPAL H5 file are those of the selected step (the last one by default), with positions, '
  'momenta, mass and charge as stored, scaled by the documented relations. A Genesis distribution file written from a '
  'species holds for each particle, in order, the columns X PX Y PY T P as x, ux, y, uy, time ct/c relative to its average '
  'and pt, with the number of particles, charge and columns in its header. An OPAL text file holds the number of '
  'particles followed by the coordinates of each.',
  'all OPAL files with any number of steps and particles; all finite species',
  'The tests use one committed H5 file and one Genesis file, at one step number.',
  ['rsdata/switchyard.py'], [('OPAL reader', 'rsdata/switchyard.py'), ('Genesis writer', 'rsdata/switchyard.py')],
  observe=['Switchyard.read / write', 'HDF5 and text files made and parsed independently'])
p('C09', 'Species held by a Switchyard are never overwritten or altered',
  'Every species read into a Switchyard stays available, unchanged, under the name reported for it, however many further '
  'files are read or written; a name requested twice does not replace the species first registered under it. Writing '
  'without naming a species writes the first one registered. Writing a species to any format changes neither its '
  'coordinates nor its charge and mass. Unsupported formats are refused without changing anything.',
  'all histories of read and write operations on a Switchyard',
  'The tests read one or two files; name clashes and longer histories are not reached.',
  ['rsdata/switchyard.py', 'rsptcls/species.py'], [('naming of new species', 'rsdata/switchyard.py')],
  over=('histories', 'inputs'), observe=['Switchyard.species after every operation'])
p('C10', 'Kinematic conversions are consistent for every particle, unit and input',
  'From any one of momentum, velocity, energy, kinetic energy, beta*gamma, Brho, beta or gamma, in any of the supported '
  'units and for any positive mass, the conversion yields all the others such that they describe one and the same '
  'relativistic particle, from slow to ultrarelativistic, to the precision that double arithmetic through beta and gamma '
  'allows for that input, on the command line (as a program and as the installed command) as well as in the API. '
  'The given quantity is returned unchanged, scalars and arrays give the same numbers, results carry the units they are '
  'labelled with, and repeating the conversion gives the same result.',
  'all positive inputs, masses and units for which the conversion is defined, at scalar and array level',
  'The tests convert a handful of values in one unit system.',
  ['rsstats/kinematic.py', 'rsphysics/rsconst.py'], [('chain of conversions', 'rsstats/kinematic.py')],
  observe=['Converter(...)()', 'against 50 digit arithmetic'])
p('C11', 'Six-dimensional beam statistics match their definitions and keep their input',
  'Averages, variances, standard deviations, covariances, correlation, rms emittances and maxima of six-dimensional '
  'particle arrays equal their mathematical definitions, coordinate by coordinate, for any number of particles and any '
  'offset. Functions that shift, scale or remove correlations do exactly this (a beam made to zero mean and unit deviation '
  'has these, a decorrelated beam has none), eigenvalues and eigenvectors diagonalise the matrix given, and '
  'functions that only compute do not modify the array they are given.',
  'all finite six-dimensional particle arrays',
  'The repository tests compare few fixed arrays, and not repeated use of the same array.',
  ['rsstats/stats6d.py'], [('loops over coordinates', 'rsstats/stats6d.py')], observe=['stats6d functions'])
p('C12', 'Inverse-CDF sampling follows the given density and stays in its interval',
  'Samples drawn from a given density have as many points as requested, lie inside of the sampling interval and follow '
  'the distribution: the cumulative distribution evaluated at the samples is uniform (Kolmogorov distance), with '
  'quasi-random sequences at the level of their discrepancy. The tabulated cumulative distribution is that of the density. Halton sequences are flat arrays of points in [0, 1) that reproduce the radical inverse '
  'sequence.',
  'all positive densities, intervals and sample sizes',
  'Tests check a Gaussian with one size.',
  ['rsstats/sample.py'], [('cumulative integration and inverse interpolation', 'rsstats/sample.py')],
  observe=['sampling functions'])
p('C13', 'Generated 6D beams match the requested Twiss parameters exactly',
  'A six-dimensional distribution made for given Twiss parameters (alpha, beta, emittance in each plane) has, computed '
  'from the particles by definition, these rms Twiss parameters and emittances in every plane, zero mean offsets and no '
  'unwanted changes by repeated use, for every distribution shape offered and any sign of alpha. Offsets, where given, '
  'shift the averages by exactly these amounts.',
  'all Twiss parameter sets with beta+gamma below 1e4, distribution types and beam sizes of at least 8 particles',
  'Tests use one set of Twiss parameters.',
  ['rsptcls/RsDistrib6D.py', 'rsptcls/RsPtclBeam6D.py', 'rsptcls/RsTwiss2D.py', 'rsptcls/RsPhaseSpace6D.py',
   'rsstats/stats6d.py'],
  [('normalisation, Twiss matching', 'rsptcls/RsDistrib6D.py'), ('beam assembly', 'rsptcls/RsPtclBeam6D.py')],
  observe=['generated particle arrays'])
p('C14', 'Phase-space containers keep and store particles faithfully',
  'A phase-space object delivers the particle array it was given, coordinate by coordinate, however it was created. '
  'Saving phase spaces and loading them again gives identical arrays. Twiss containers return the values they were '
  'given and a gamma that satisfies beta*gamma - alpha^2 = 1. Arrays of the wrong shape, particle counts that are not '
  'positive and empty file names are refused.',
  'all particle arrays and call sequences',
  'Not tested beyond construction of one object.',
  ['rsptcls/RsPhaseSpace6D.py', 'rsptcls/RsTwiss2D.py'],
  [('array accessors', 'rsptcls/RsPhaseSpace6D.py'), ('npz storage', 'rsptcls/RsPhaseSpace6D.py')], over=('inputs', 'histories'),
  observe=['getters after setters', 'npz files'])
p('C15', 'Standard bunches have the requested emittance, Twiss shape and size',
  'A standard bunch has exactly the requested number of numbered particles with finite coordinates. In a KV bunch every '
  'particle lies on the invariant shell that emittance, beta and alpha define, uniformly distributed; a Gaussian bunch '
  'has in each transverse plane the deviations sqrt(emittance*beta) and sqrt(emittance*gamma). Longitudinal positions and '
  'momentum deviations have the requested deviations. Twiss parameters can be read back and changed one at a time without '
  'affecting the other plane, gamma follows, and non-positive beta is refused.',
  'all positive emittances and betas, all alphas, distribution types, particle numbers and seeds',
  'Tests generate one bunch for each type at one set of parameters.',
  ['rsptcls/bunch.py'], [('shell and transformation', 'rsptcls/bunch.py')], observe=['StandardBunch.particles and properties'])
p('C16', 'Nonlinear bunches are matched to the invariant of the elliptic potential',
  'Each particle of a nonlinear bunch has a value of the integrable-optics invariant H (independently computed from its '
  'coordinates in normalised variables) that its distribution type prescribes: equal to the emittance for KV, at most the '
  'sum of the emittances for waterbag, and at most the cutoff times the emittance for Gaussian. Number of particles, '
  'finiteness and longitudinal deviations are as requested.',
  'all strengths t and apertures c of the supported range, emittances, betas, alphas, seeds',
  'Tests generate bunches at one set of parameters.',
  ['rsptcls/bunch.py'], [('invariant and root finding', 'rsptcls/bunch.py')], observe=['NonlinearBunch.particles'])
p('C17', 'Bunch generation is reproducible by seed and quiet starts are symmetric',
  'The same parameters and seed give bit-for-bit the same bunch, in one process or another, whatever was generated '
  'before or is generated in between, and different seeds give different bunches. A quiet start bunch (KV and all nonlinear '
  'distributions) consists of groups of four consecutive particles, mirror images in normalised coordinates, whose '
  'transverse coordinates cancel, so that all transverse averages vanish. Generating one bunch does not change another.',
  'all parameters, seeds and histories of generation calls',
  'Tests never compare two generations of several kinds, nor intermediate random number use.',
  ['rsptcls/bunch.py'], [('seeding', 'rsptcls/bunch.py'), ('quiet start', 'rsptcls/bunch.py')],
  over=('inputs', 'histories'), observe=['particles after different histories'])
p('C18', 'Decoherence formulas agree with direct averages over the distribution',
  'The centroid motion, decoherence factors and phases that are calculated in closed form equal the numerical averages '
  'over the particle distribution which they stand for, for every turn number, kick, tune dependence (of either sign and '
  'zero) and emittance. At turn zero nothing has decohered. Measured centroids equal the averages of the particles.',
  'all turn numbers, kicks, tune spread coefficients',
  'Only few points are tested, none with vanishing or negative coefficients.',
  ['rsphysics/decoherence.py'], [('closed form expressions', 'rsphysics/decoherence.py')],
  observe=['function values against quadrature'])
p('C19', 'Phase advance and tune of particle motion are recovered',
  'The phase advance between two phase-space points is the angle of rotation between them, in the interval and direction '
  'documented, for any pair of nonzero points. Tunes computed from turn-by-turn data are the frequency of the motion '
  'within the resolution of the method, for any tune, amplitude, phase and number of turns.',
  'all pairs of points and all tunes in (0, 0.5), amplitudes, phases and record lengths',
  'The tests use a single example.',
  ['rsptcls/phases.py'], [('angle computation', 'rsptcls/phases.py'), ('FFT', 'rsptcls/phases.py')], observe=['function values on synthetic motion'])
B = 'rslattice/Beamline.py'
p('C20', 'Beamlines keep element order; length and edges add up',
  'A beamline holds its elements in the order they were added or the position they were inserted, with every reference '
  'to one named element sharing the same object. The length of the beamline is the sum of the lengths of all its elements '
  '(drifts without length count as zero), sublines included, and the edge reported for each element is the sum of the '
  'lengths in front of it.',
  'all sequences of add operations, nested sublines, and lengths',
  'The tests build two small beamlines.',
  [B, 'rslattice/Element.py'], [('element list and dictionary', B)], over=('inputs', 'histories'),
  observe=['Beamline.length, elements and edges against a list model'])
p('C21', 'Editing and saving a beamline changes exactly what was asked for',
  'Editing elements by name or position changes the named parameters of exactly the elements selected, also those '
  'in sublines, and nothing else. Parameter names are found whatever their case. Saving a beamline and loading it again '
  'gives the same elements, types, parameters, order and nested lines.',
  'all beamlines, edit sequences and parameter values',
  'Tests edit one beamline, and do not save and load.',
  [B, 'rslattice/Element.py'], [('edit operations', B), ('YAML representation', B)], over=('inputs', 'histories'),
  observe=['beamline contents against a dictionary model'])
p('C22', 'Beamline transfer matrices are those of the elements in order',
  'The transfer matrices of a beamline equal the ordered product of the exact matrices of its elements (drifts and '
  'quadrupoles, in sublines too), with the strengths and lengths the elements hold at that time, given as numbers or as '
  'named variables, which are arguments of the function returned, in order of appearance. Numeric strength zero gives a '
  'drift. Without concatenation the matrices of all elements are returned in order. Other beamlines are not affected.',
  'all sequences of supported elements, strengths of either sign, lengths and variables',
  'Tests check one FODO cell.',
  [B, 'rslattice/Element.py'], [('symbolic element matrices', B)], observe=['generated matrices against numeric expm'])
p('C23', 'Sirepo JSON import yields the beamline described in the file',
  'Importing a Sirepo lattice gives a beamline whose flattened sequence of elements, with names, types and parameters, is '
  'exactly that of the selected beamline in the file. This includes lines within lines, repeated lines, and reversed '
  'lines, whose elements come in the opposite order.',
  'all element sets, and line nestings with repetitions and reversals',
  'One file is imported in the tests.',
  ['rslattice/Beamline.py', 'rslattice/lte_parser.py', 'rslattice/templates/lattice_importer.py'],
  [('recursive expansion', 'rslattice')], observe=['imported beamline against an independent expansion'])
p('C24', 'elegant lattice files are parsed into the elements and lines they define',
  'Parsing an elegant lattice gives each element with its type and all its parameters, numbers as numbers, and each line '
  'with its members in order, with repetition counts expanded and nested lines kept. Case, white space, continuation '
  'lines, comments, quotation marks and order of parameters do not matter.',
  'all lattices of the supported syntax',
  'The tests parse two lattice files.',
  ['rslattice/lte_parser.py'], [('statement splitting and regular expressions', 'rslattice/lte_parser.py')],
  observe=['parser results against the model that the text was generated from'])
p('C25', 'RPN expressions and variables in lattices evaluate correctly',
  'Reverse Polish expressions in lattice files evaluate to the value that their operators define, for any nesting of '
  'operators and operands. Variables are assigned in the order of the file, may use variables defined before, and are '
  'substituted as whole words where they are used, and only there.',
  'all RPN expressions of the supported operators, and variable definitions',
  'Few expressions are tested.',
  ['rslattice/lte_parser.py'], [('RPN evaluation and substitution', 'rslattice/lte_parser.py')],
  over=('inputs', 'programs'), observe=['values against an independent stack machine'])
p('C26', 'Trace3D and TraceWin lattices are converted element by element',
  'Every element of a Trace3D or TraceWin file is delivered in file order with the type, length and parameters that the '
  'file gives, in the documented units. All number formats (signs, exponents) are kept, comments and empty lines are '
  'ignored, and no element is dropped or duplicated.',
  'all lattices of supported elements and number formats',
  'One example of each is parsed.',
  ['rslattice/trace3d_parser.py'], [('handlers', 'rslattice/trace3d_parser.py')],
  observe=['elements against the model the text was generated from'])
p('C27', 'Nonlinear insert settings follow the Danilov-Nagaitsev definitions',
  'For every length, phase, strength, aperture and number of slices, the positions, beta functions, strengths and '
  'apertures of the slices of a nonlinear insert are those of the analytic optics, the MAD-X elements hold the values of the arrays, the slices together have the length '
  'of the insert, and the outputs are consistent with each other. Setting a parameter again gives the same result as a '
  'new insert with this parameter.',
  'all lengths, phases in (0, 0.5), t, c and slice numbers, and setter sequences',
  'Tests check a single insert.',
  ['rslattice/nonlinear.py'], [('slice computation', 'rslattice/nonlinear.py')], over=('inputs', 'histories'),
  observe=['slice arrays and output against closed forms'])
p('C28', 'Lattices are converted to Warp with correct order, lengths and strengths',
  'The Warp beamline produced from a lattice contains every element in order, with the field and geometry values that '
  'physics prescribes for the beam energy: gradient from the normalised strength times rigidity, bend radius from length '
  'and angle. The written script defines each element once per writing, before it is used.',
  'all lattices of drifts, quadrupoles, bends, sextupoles and beam energies',
  'No test runs the conversion.',
  ['rslattice/formatted_writer.py', 'rslattice/templates/lattice_importer.py', 'pkcli/lattice.py'],
  [('field map and writer', 'rslattice/formatted_writer.py'), ('conversion', 'pkcli/lattice.py')],
  observe=['output script executed with recording stand-ins for Warp'])
p('C29', 'Plots show exactly the data they are given',
  'Plot functions for beams and SDDS files put the requested quantities, correctly scaled and binned, into the figure: '
  'the plotted curves, points and histogram counts equal the ones computed directly from the data, and labels name the '
  'quantity and unit. Plotting never changes the data.',
  'all particle data, columns and options',
  'Plots are not tested.',
  ['rsplot/util.py', 'rsplot/beam_plots.py', 'rsplot/plot_ptcls.py', 'rsplot/RsScatterPS6D.py'],
  [('preparation of data for matplotlib', 'rsplot/util.py')], observe=['artists of the matplotlib figure'])

# what else may go on in the same process without making a difference
INDEPENDENT = {
    'C01': 'What is delivered stays as it is and does not depend on other files that are open or were read before, under '
           'the same name or another.',
    'C02': 'What is delivered does not depend on other files that are open or were read before.',
    'C03': 'Readers of other files or selections, open at the same time, make no difference.',
    'C04': 'What is reported for a file does not depend on other files that are open or were read before.',
    'C06': 'What one writer writes does not depend on other writers.',
    'C08': 'A file that has changed since it was last read is read as it is now.',
    'C15': 'Bunches do not influence each other.',
    'C16': 'Bunches do not influence each other.',
    'C20': 'Several beamlines may be built at the same time, and their lengths follow when elements are added or changed.',
    'C21': 'Other beamlines are not affected.',
    'C23': 'Importing again after the file has changed gives the new content, and earlier imports are not affected.',
    'C24': 'Every file is parsed on its own, as it is now.',
    'C26': 'Every file is parsed on its own, as it is now.',
    'C27': 'Several inserts do not influence each other.',
    'C28': 'Several conversions do not influence each other.',
}
for q in P:
    if q['id'] in INDEPENDENT:
        q['statement'] += ' ' + INDEPENDENT[q['id']]

if __name__ == '__main__':
    for q in P:
        assert len(q['title']) <= 80, q['title']
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for q in P:
            f.write(json.dumps(q) + '\n')
