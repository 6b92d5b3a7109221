#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json.  A property is claimed when rv/props/<id>.py exists."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IO, GR, NV, UT, DB = 'shipgrav/io.py', 'shipgrav/grav.py', 'shipgrav/nav.py', 'shipgrav/utils.py', 'shipgrav/database.toml'
P = []


def p(id, title, statement, over, text, why, files, mech, note, technique):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])), note, technique))


SYN = 'runtime monitor: real code under generated workloads, online oracle at the public boundary'

p('C01', 'Raw ship files reduce to the true free-air anomaly',
  'For any cruise, reading the ship\'s gravity files and navigation files and applying the package\'s latitude, Eotvos and tide corrections recovers the free-air anomaly that was present when the instrument recorded, within the physical accuracy of the corrections (a fraction of a milligal). This holds for every supported ship and meter format, anywhere on the globe, across midnight and month ends, and with the records of gravity and navigation joined by their times.',
  ['inputs', 'configurations'], 'all tracks, speeds, latitudes, dates, ships and meter formats',
  'Tests check each step against one stored number; no test reduces a whole data set whose true anomaly is known.',
  [IO, GR, NV], [('readers', IO), ('corrections', GR + ' wgs_grav, eotvos_full, longman_tide_prediction')],
  'Synthetic cruises whose anomaly is known; independent implementations of normal gravity, Eotvos effect and tides synthesise the observations.', SYN + ' (end-to-end recovery of planted anomalies)')
p('C02', 'Navigation positions are decoded exactly, in every hemisphere',
  'Every valid position fix in a navigation log appears in the navigation series with the latitude and longitude that its degrees, minutes and hemisphere letters stand for, whatever the number of decimals and quadrant, north and east positive. Fixes without a position appear as unknown (NaN), and lines of other talkers, other text or noise contribute nothing. A user-supplied parser gets the lines of the log and its results are used as given.',
  ['inputs'], 'all positions, decimals, dropouts and surrounding chatter, for every supported ship and talker',
  'Tests read one recorded file per ship: one quadrant, one number of decimals, first values only.',
  [IO], [('read_nav', IO + ' read_nav'), ('coordinate decoding', IO + ' _navcoords')],
  'Independent NMEA writer; decoded positions compared within 1e-11 degrees.', SYN)
p('C03', 'Navigation fixes carry their true UTC time',
  'Every fix carries the UTC time at which the position was taken, as seconds since 1970 and as a timezone-aware UTC timestamp that agree with each other, including fractions of seconds of any number of digits. This holds on every calendar day, across midnight, month and year ends and leap days, when the logger stamps a line on the other side of midnight than the fix, and in any local time zone of the computer.',
  ['inputs', 'configurations'], 'all fix times, logger lags under half a day, fraction digits, process time zones',
  'Tests compare the first timestamp of one file per ship, in one time zone, away from midnight.',
  [IO], [('date and clock decoding', IO + ' _clock_time, _fix_rollover, _navdate_*')],
  'Fix times within 2 microseconds of the written ones. Known finding: Thompson fractions are dropped (pinned by a test).', SYN)
p('C04', 'The navigation series is unique, ordered and independent of file order',
  'The navigation series is strictly increasing in time with exactly one row per distinct fix time, keeping the first fix logged for that time, and rows are numbered consecutively. It does not depend on the order in which the logs are listed or on how the fixes are split into files, and decimation by n is equivalent to keeping every n-th fix of the log. Series of any length keep all their fixes.',
  ['inputs', 'histories'], 'all shuffles, repeats, splits, decimations and file orders of a set of fixes',
  'Tests read one ordered file per ship.', [IO], [('read_nav', IO + ' read_nav')],
  'Metamorphic and model-based. Known finding: the sampling argument is ignored.', SYN)
p('C05', 'Longitudes are continuous across the antimeridian and untouched elsewhere',
  'On tracks that cross 180 degrees, any number of times and in either direction, with gaps or dropouts, the longitude series is continuous and equal to the logged longitude up to a multiple of 360 degrees. On tracks that do not cross it, including tracks across Greenwich and with large gaps, longitudes are exactly those logged.',
  ['inputs'], 'all tracks, with any crossings, gaps and dropouts',
  'No test file crosses 180 degrees or has gaps.', [IO], [('wrap-around', IO + ' _clean_180cross')],
  'Congruence modulo 360 and continuity judged on generated tracks.', SYN)
p('C06', 'BGM3 serial records: every count at its time, scaled to gravity',
  'Every record of a BGM3 serial file appears exactly once, in file order, with its counts, its UTC time (to the resolution logged) and a raw gravity equal to counts times the ship\'s scale factor or the one given by the caller. Records of several files are concatenated in the order listed.',
  ['inputs'], 'all counts, times, scale factors and files of the supported ships, and user-supplied parsers',
  'Tests check one value of one file per ship.', [IO, DB], [('read_bgm_raw', IO + ' read_bgm_raw, _bgmserial_*')],
  'Independent writers of the four serial formats.', SYN)
p('C07', 'BGM3 RGS records are read field by field',
  'Every non-blank record of an RGS file appears exactly once, in file order, with date and time of day in UTC and each of its gravity and position fields in the named column, unaltered. This holds on every calendar day and for records of both hemispheres.',
  ['inputs'], 'all field values, dates and files', 'Tests check one value of one file.', [IO], [('read_bgm_rgs', IO + ' read_bgm_rgs')],
  'Every field of every record random and distinct.', SYN)
p('C08', 'Processed DGS records are read field by field for each ship\'s layout',
  'Every record of a processed DGS file appears exactly once, in file order, with its UTC time and each field of the ship\'s layout in the column of that name, unaltered, for every supported ship and any number of files. Records are never dropped, duplicated or reordered.',
  ['inputs'], 'all field values, dates, paddings and files of every supported layout', 'Tests check one value of one file per ship.',
  [IO], [('read_dgs_laptop', IO + ' read_dgs_laptop, _dgs_laptop_*')], 'Every field of every record random and distinct.', SYN)
p('C09', 'Corrupted lines in Langseth DGS logs never corrupt good records',
  'Reading a Langseth DGS log with truncated, joined, binary, blank or comma-laden lines keeps exactly the complete records, in order and with every field in its column, and drops the rest. Corruption of some lines never shifts, alters or loses the good ones around it, in any of several files.',
  ['inputs', 'fault_sequences'], 'all patterns of corrupted lines', 'Tests read one recorded file.', [IO], [('line filter', IO + ' _dgs_laptop_Langseth')],
  'Line-level fault injection with a reference filter.', 'runtime monitor under injected data faults, online oracle')
p('C10', 'Raw DGS serial records are read field by field, with the documented rescaling',
  'Every record of a raw DGS serial file appears exactly once, in file order, with each field in the column of that name, times (where the layout has them) in UTC, and the cross-coupling monitors rescaled as documented only when asked. This holds for every supported ship layout, with the clock of the meter synchronised or not.',
  ['inputs', 'configurations'], 'all field values, dates, layouts and files, with and without rescaling', 'Tests check one value of one file per layout.',
  [IO], [('read_dgs_raw', IO + ' read_dgs_raw, _dgs_raw_*')], 'Every field of every record random and distinct.', SYN)
p('C11', 'Other data feeds are read as their description says',
  'Every record of the requested feed in a log appears exactly once and in order, with each field under the name the feed\'s description gives to it, empty fields left empty, and the text before the tag kept. Records of other feeds and noise contribute nothing, the column information returned is that of the description, and asking for a feed that is not described or not present is refused.',
  ['inputs', 'configurations'], 'all feed descriptions and logs', 'One test reads one feed of one file.', [IO], [('read_other_stuff', IO + ' read_other_stuff')],
  'Invented and shipped feed descriptions. Known finding: descriptions with a direction specifier cannot be read.', SYN)
p('C12', 'Ships, defaults and overrides select the right parser, talker and scale',
  'Each supported ship is read with its own layout and with the shipped default talker and scale factor; values the caller gives override the defaults; a caller\'s parser is used for ships that have none; and one path or a list of paths are equally accepted. Unsupported ships and absent talkers are refused with the documented value -999 and nothing else, and the shipped calibration values (scale factors, biases, talkers) are those published.',
  ['configurations', 'inputs'], 'all combinations of reader, ship, override and form of path', 'Tests exercise one ship at a time with defaults.',
  [IO, DB], [('dispatch', IO + ' read_*'), ('database', DB)], 'Every combination compared to a table of what must happen.', SYN)
p('C13', 'Reading data files changes nothing else',
  'Reading data, navigation, feed or configuration files never writes, deletes or renames a file, never starts a process or opens a network connection, and never executes anything contained in the data; the ini converter writes its one converted file and nothing else. Files, working directory, environment, random state, numeric and locale settings are as before, and no file stays open, also when reading fails.',
  ['inputs', 'configurations'], 'all readers, well-formed and hostile files', 'No test looks at effects besides the returned value.',
  [IO, UT], [('readers', IO), ('feed descriptions', IO + ' read_other_stuff'), ('converter', UT + ' clean_ini_to_toml')],
  'Interpreter audit events and state snapshots around every call.', 'runtime monitor: interpreter audit hook and before/after state snapshots')
p('C14', 'Results do not depend on the computer the data are processed on',
  'Every reader, correction and model gives the same result whatever the local time zone, locale, working directory (relative or absolute paths), hash seed, optimisation flag or environment of the process.',
  ['configurations'], 'all process environments', 'Tests run in one environment.', [IO, GR, NV, UT],
  [('times', IO + ' _navdate_*, ' + GR + ' _convert_datetime_tidetime'), ('database lookup', IO + ' module level')],
  'The same jobs replayed in child processes under different environments, results compared.', 'runtime monitor: differential replay of recorded calls under varied environments')
p('C15', 'Velocities are those of the positions on the WGS84 ellipsoid',
  'North and east velocities computed from a position series at any sampling rate are the time derivatives of position on the WGS84 ellipsoid, in metres per second, with north and east positive, at every interior sample, for all latitudes and containers, and with unknown positions making only neighbouring samples unknown. Series too short or of different lengths are refused.',
  ['inputs'], 'all tracks, sampling rates and latitudes', 'One test checks one value of one track.', [NV], [('latlon_to_EN', NV + ' latlon_to_EN')],
  'Reference implementation, exact polynomial tracks, and chords in earth-fixed coordinates.', SYN)
p('C16', 'Course, speed and rotation into the ship\'s frame are consistent',
  'Course is the direction of motion clockwise from north in degrees and speed its magnitude, for velocities in every quadrant; rotating accelerations by a heading gives the forward and starboard components and preserves magnitude. A ship\'s own velocity rotated by its course is all forward.',
  ['inputs'], 'all velocities, accelerations and headings', 'Tests check one vector.', [NV], [('course', NV + ' ENvel_to_course_heading'), ('rotation', NV + ' rotate_acceleration_EN_to_cl')],
  'Complex-number oracle over all quadrants and axes.', SYN)
p('C17', 'Normal gravity and free-air correction are those of the reference ellipsoid',
  'Normal gravity is that of the WGS84 ellipsoid at every latitude, in mGal, symmetric about the equator, and the second-order free-air correction is the documented change of gravity with height, with its variant through water, for scalars and arrays of latitudes and heights alike.',
  ['inputs'], 'all latitudes and heights, scalars and arrays', 'Tests check one latitude.', [GR], [('wgs_grav', GR + ' wgs_grav'), ('free air', GR + ' free_air_second_order')],
  'Closed formula evaluated independently, and numerical differentiation of the exact field.', SYN)
p('C18', 'Tide predictions are those of the sun and moon at that place and instant',
  'The predicted tide at every sample is the vertical tidal attraction of moon and sun after Longman for that longitude, latitude, altitude and UTC instant, with its lunar and solar parts summing to the total, for any date, place and time zone in which the instant is given. Samples are independent of each other and of their order, and series of unequal lengths are refused.',
  ['inputs', 'configurations'], 'all places, altitudes, instants (1900-2100) and time zones', 'One test compares one number.', [GR],
  [('longman', GR + ' longman_tide_prediction, _convert_datetime_tidetime')], 'Independent Longman implementation plus modern ephemerides at 0.012 mGal.', SYN)
p('C19', 'Eotvos correction: vertical acceleration of motion over the rotating earth',
  'The full Eotvos correction of a track is the vertical acceleration caused by motion over the rotating ellipsoid plus that of changes of height, in mGal, positive for eastward and negative for fast westward motion and zero at rest, with one value per position and at any sampling rate, latitude and axes of the ellipsoid.',
  ['inputs'], 'all tracks, heights, sampling rates and latitudes', 'One test checks one value of one track.', [GR], [('eotvos_full', GR + ' eotvos_full'), ('center_diff', GR + ' center_diff')],
  'Reference implementation, direct differentiation of inertial coordinates, and the textbook formula.', SYN)
p('C20', 'Cross-coupling coefficients are the least-squares fit over all continuous data',
  'The coefficients returned are the least-squares fit of the filtered curvature of gravity to that of the monitors over every continuous section long enough to use, leaving out sections that are too short, and never mixing samples from both sides of a gap. Coefficients planted in a gravity series are recovered, with or without gaps, wherever the gaps lie and in whatever container the series are.',
  ['inputs'], 'all monitors, gaps and containers', 'One test checks one coefficient on data without gaps.', [GR],
  [('cross coupling', GR + ' calc_cross_coupling_coefficients')], 'Reference implementation of the table, optimality and recovery checks; one boundary sample per gap is free.', SYN)
p('C21', 'Platform up-vectors follow the platform\'s response to acceleration',
  'The platform vectors are unit vectors tilted along each axis by the response of a damped platform of the given period to accelerations relative to gravity, both axes alike, level without acceleration and never depending on later samples. Unknown or masked-out accelerations count as zero.',
  ['inputs'], 'all accelerations, masks, periods and dampings', 'One test checks one number.', [GR], [('up_vecs', GR + ' up_vecs, _tilt_filter, _calc_up_vecs')],
  'Reference filter, symmetry, causality, steady-state laws. Accelerations are modified in place (documented cleaning), not judged.', SYN)
p('C22', 'Gravity of relief along a profile is that of Parker\'s series',
  'The gravity of a density contrast across relief along a line, of any length (odd or even) and spacing, is that of the Fourier series of Parker for the padded profile, in mGal at the profile\'s points, proportional to the contrast, dependent only on heights relative to the level, and zero for flat relief. Away from the ends it matches direct integration of the attraction of the relief.',
  ['inputs'], 'all profiles, spacings, levels and contrasts', 'One test checks one number of one profile.', [GR], [('grav1d_padded', GR + ' grav1d_padded')],
  'Independent series, direct two-dimensional integration and metamorphic relations.', SYN)
p('C23', 'Gravity of a surface on a grid is that of Parker\'s series',
  'The gravity of a density contrast across a gridded surface, for any grid size and spacings, with or without folding and any number of terms, is that of Parker\'s series at the grid points, in mGal, proportional to the contrast, consistent under reversal and exchange of axes, and zero for a flat surface. It matches the summed attraction of the relief.',
  ['inputs', 'configurations'], 'all grids, spacings, depths, foldings and numbers of terms', 'One test checks one number of one grid.', [GR], [('grav2d_folding', GR + ' grav2d_folding')],
  'Independent series, direct summation, and metamorphic relations.', SYN)
p('C24', 'Gravity of a layer of varying density is its attraction',
  'The gravity of a flat layer of laterally varying density between two depths is its attraction at the surface in mGal for any grid and spacings, linear in density, additive over layers, and equal to the summed attraction of its parts.',
  ['inputs'], 'all density grids, spacings and depths', 'One test checks one number.', [GR], [('layer', GR + ' grav2d_layer_variable_density, _kvalue')],
  'Independent spectral model and direct summation. Known finding: sign of the first wavenumber beyond Nyquist.', SYN)
p('C25', 'Half-space cooling obeys its closed-form solution',
  'Temperature, seafloor subsidence and isotherm depth of a cooling half space are those of the error-function solution for every distance or age, depth and set of parameters, the same on both sides of the axis and whether distance or age is given. Temperatures and isotherms agree with each other, at age zero too.',
  ['inputs', 'configurations'], 'all ages, depths and parameters', 'Tests check one number per function.', [GR], [('therm_halfspace', GR + ' therm_halfspace, therm_Z_halfspace')],
  'Closed-form oracle and laws.', SYN)
p('C26', 'Plate cooling obeys its series solution and limits',
  'Temperature, subsidence and isotherm depth of a cooling plate are those of the series solution for every distance or age, depth, plate thickness and set of parameters, the same on both sides of the axis and whether distance or age is given, with the base at mantle temperature. Young plates behave as a half space, old ones reach the steady conductive state, and isotherm depths are those at which the field has the temperature.',
  ['inputs', 'configurations'], 'all ages, depths, thicknesses and parameters', 'Tests check one number per function.', [GR], [('therm_plate', GR + ' therm_plate, therm_Z_plate')],
  'Truncated and converged series as bounds, limits.', SYN)
p('C27', 'Crustal thickness is the tapered downward continuation of the gravity residual',
  'The thickness variation computed from a gravity residual on any line or grid is its downward continuation to the given depth divided by the density contrast, with wavelengths above the longer cutoff kept, those below the shorter removed and those between tapered by a cosine, in kilometres, positive residual meaning thinner crust. When recovered gravity is asked for it is the residual with the same taper.',
  ['inputs', 'configurations'], 'all residuals, grid sizes, spacings, depths, contrasts and cutoffs', 'One test checks one number of one grid.', [GR], [('crustal_thickness_2D', GR + ' crustal_thickness_2D')],
  'Independent spectral implementation, sinusoids, linearity. Known finding: with back=True both fields are rotated by one sample.', SYN)
p('C28', 'Gaussian smoothing has unit gain, a symmetric window and linearity',
  'Smoothing a series with the gaussian filter gives at each sample the weighted mean over a window of the stated length with positive symmetric weights that fall off from the centre, is linear, leaves constants unchanged once the window is full, and never lets a sample influence ones before it or beyond its window. Series shorter than the filter are refused.',
  ['inputs'], 'all series and filter lengths', 'One test checks one number.', [UT], [('gaussian_filter', UT + ' gaussian_filter, _gaussian_coeffs')],
  'Reference convolution and impulse responses. Known finding: weights dip at the centre.', SYN)
p('C29', 'Every status word decodes to its flags',
  'Each of the 65536 status words decodes to exactly the flags whose bits are set, whether given as one integer or as a column of a table; tables keep their other columns, rows and labels. Anything else is refused.',
  ['inputs'], 'all 16-bit words, all table layouts', 'One test decodes one word.', [UT], [('status bits', UT + ' decode_dgs_status_bits')],
  'All words enumerated in every run.', SYN)
p('C30', 'Meter configuration files convert to TOML without losing or changing a setting',
  'Converting a meter\'s ini file gives valid TOML next to it with every section and setting, and every value (numbers, booleans, quoted or bare text, with comments, tabs, equals signs, slashes, backslashes) meaning what it meant in the ini file. The ini file itself is unchanged, and converting again gives the same file.',
  ['inputs'], 'all ini files of the meters\' dialect', 'One test converts one file.', [UT], [('clean_ini_to_toml', UT + ' clean_ini_to_toml')],
  'Generated dialect files with known meaning. ', SYN)
p('C31', 'The interactive picker records exactly the picks that were made',
  'After any history of mouse events the picker holds exactly the samples picked by left clicks inside its axis and not undone by right clicks, in order, each the sample nearest in time to the click, and shows them at their positions. Undoing nothing, moving or clicking elsewhere changes no picks, and the data are never altered.',
  ['histories'], 'all histories of mouse events', 'No test uses the picker.', [UT], [('picker', UT + ' _SnappingCursor')],
  'Model-based histories with stand-in plotting objects.', 'runtime monitor: model-based checking of event histories')
p('C32', 'Calculations are pure: repeatable, independent of history and of other threads',
  'Every calculation and reader gives the same result however often, in whatever order and in however many threads at once it is called, leaves its arguments (except where documented cleaning in place) and process-wide settings unchanged, and its results are not affected by later calls or by changing earlier results.',
  ['histories', 'schedules', 'inputs'], 'all histories and thread interleavings of calls', 'Tests call each function once.', [GR, NV, UT, IO],
  [('module state', GR + ' module level; ' + IO + ' module level')], 'Random histories and threads with forced switches compared to fresh results.', 'runtime monitor: histories and thread-schedule stress with injected switches')
p('C33', 'Reading several files equals reading each and joining them',
  'For every gravity reader and ship, reading a list of files gives the records of each file in the order listed, numbered consecutively, exactly as reading each file alone, and a single path equals a list of one.',
  ['inputs', 'histories'], 'all readers, ships, file lists and orders', 'Tests read one file or count rows of two.', [IO], [('concatenation', IO + ' read_*')],
  'Metamorphic over all readers.', SYN)
p('C34', 'Forward and inverse crustal models are consistent',
  'Gravity computed forward for relief on a deep interface, given to the crustal thickness calculation with the same depth and contrast, gives that relief back when its wavelengths are longer than the cutoff and nothing when they are shorter. This holds on lines and grids of any size, direction of relief and spacing.',
  ['inputs'], 'all sinusoidal relief, depths, contrasts and grids', 'No test combines the two.', [GR], [('forward', GR + ' grav1d_padded, grav2d_folding, grav2d_layer_variable_density'), ('inverse', GR + ' crustal_thickness_2D')],
  'Round trip between independent public functions.', SYN)
p('C35', 'Central differences are the derivatives of a series',
  'First and second central differences of a series at any sampling rate are its derivatives at the interior samples, exact for quadratics and cubics respectively, two samples shorter than the series, in the order of the series. Other orders are refused with the documented value.',
  ['inputs'], 'all series, sampling rates and orders', 'No test calls it directly.', [GR], [('center_diff', GR + ' center_diff')],
  'Exact-polynomial and reference oracle.', SYN)

p('C36', 'Arguments mean their values, whatever holds them',
  'Every calculation gives the same result for the same values whether its series are held in arrays of any numeric type, byte order or memory layout, in pandas series with any labels, or (where array_like is documented) in lists and tuples: samples count by position, never by label, and a labelled result carries the labels of its arguments.',
  ['inputs'], 'all containers, numeric types, memory layouts and labels of the series of every calculation',
  'Tests give each function one container with labels that equal positions.', [GR, NV, UT],
  [('calculations', GR), ('velocities', NV), ('smoothing', UT + ' gaussian_filter')],
  'The same call on plain arrays is the oracle for the call on drawn containers.', SYN + ' (differential between containers)')

def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for d, _, _ in P:
            assert len(d['title']) <= 80, d['title']
            f.write(json.dumps(d) + '\n')
    checks, na = [], []
    for d, note, tech in P:
        i = d['id']
        if os.path.exists(os.path.join(ROOT, 'rv', 'props', i.lower() + '.py')):
            checks.append(dict(property=i, quick_cmd='python3 check.py %s' % i, thorough_cmd='VERIF_TIER=thorough python3 check.py %s' % i,
                               technique=tech, level='exploration',
                               level_note='Held on the executions observed (see evidence); not a proof. ' + note))
        else:
            na.append(dict(property=i, reason='monitor not built yet'))
    json.dump(dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=na,
                   notes='Compiler sanitizers and race detectors have nothing to instrument: the package is pure Python without native code; all properties are behavioural monitors. No hooks were added to /repo.'),
              open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'claimed', len(na), 'not')


main()
