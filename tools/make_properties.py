"""Writes /verif/properties.jsonl (the list is kept here in readable form)."""
import json, os
S = 'surfalize/surface.py'; P = 'surfalize/profile.py'; B = 'surfalize/base.py'; A = 'surfalize/abbottfirestone.py'
R = []
def prop(id, title, statement, over, text, why, files, mech, observe=()):
    assert len(title) <= 80, (id, len(title))
    R.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                                                 'observe_at': list(observe), 'hook_needed': None}})

prop('C01', 'Parameters are never stale after any edit',
     'After any sequence of parameter queries and modifications of a surface or profile (item assignment, replacing the data, in-place operations, in-place cropping or filtering), every parameter, derived curve and geometry attribute it reports equals what a newly constructed object with the same heights and spacings reports. The order and the arguments of earlier queries never influence a later result.',
     ['histories', 'inputs'], 'all interleavings of queries (with arguments), edits and in-place operations on surfaces and profiles',
     'The tests query a fresh or module-scoped object once or twice; staleness needs query-edit-query histories with particular method/argument combinations.',
     [B, 'surfalize/cache.py', S, P, A, 'surfalize/autocorrelation.py', 'surfalize/fourier.py'],
     [('per-instance memoisation keyed by method and arguments', 'surfalize/cache.py cache, CachedInstance'), ('cache cleared on every data change', S + ' data.setter, _set_data; ' + B + ' __setitem__')],
     ['public parameter methods'])
prop('C02', 'Operations leave their source alone; inplace equals non-inplace',
     'An operation called without inplace never changes the heights, spacing or later parameter values of the object it is called on, and returns a distinct object whose heights are independent memory: editing either object afterwards never changes the other. Called with inplace it returns the object itself, which then holds exactly the heights and spacing the non-inplace call would have returned, and remains editable.',
     ['inputs', 'histories', 'configurations'], 'every operation of surfaces and profiles with all parameter choices, on all topographies incl. non-measured points',
     'Tests check a few operations for value only; aliasing and source mutation appear only when source and result are both used and edited afterwards.',
     [B, S, P, 'surfalize/filter.py'], [('inplace branches', 'every operation in ' + S + ', ' + B + ', ' + P), ('read-only data view', S + ' data')], ['operation results'])
prop('C03', 'Height parameters equal their ISO definitions',
     'For every surface and profile without missing points Sa, Sq, Sp, Sv, Sz, Ssk, Sku and Ra, Rq, Rt, Rsk, Rku equal the textbook formulas on mean-centred heights, and Rp, Rv, Rz equal the averages over the requested number of consecutive near-equal sections of the whole profile, including sizes not divisible by the number of sections.',
     ['inputs'], 'all finite height fields, sizes, magnitudes, offsets, dtypes and memory layouts; all section counts',
     'Tests compare a single 700x1000 sinusoidal surface with golden numbers.', [S, P], [('height_parameters', S), ('R-parameters and sectioning', P)], ['Sa..Sku', 'Ra..Rku'])
prop('C04', 'Material ratio curve is the exact height distribution',
     'Smr/Smc (and Rmr/Rmc) depend only on the multiset of heights, are monotone decreasing in their argument, map 0 % to the maximum and 100 % to the minimum height, and agree with the empirical height distribution and with each other (as inverse functions) to within the curve resolution. Sxp and Sdc (and the profile versions) are the differences of Smc at their two material ratios for any arguments.',
     ['inputs'], 'all height distributions (skewed, tied, multi-level, tiny), all ratios p and heights c',
     'Tests fix one surface and default p, q.', [A, S, P], [('quantile curve and interpolation', A + ' _get_material_ratio_curve, mr, mc')], ['Smr', 'Smc', 'Sxp', 'Sdc', 'Rmr', 'Rmc', 'Rxp', 'Rdc'])
prop('C05', 'Core, peak, valley and volume parameters follow ISO 25178/13565',
     'Sk, Spk, Svk, Smr1, Smr2, Sak1, Sak2, Spkx, Svkx (and R versions) equal what the standard construction (flattest 40 % secant, least-squares equivalent line, equal-area triangles) gives on the height distribution of any surface or profile. Vm and Vv are the areas above/below the curve at a ratio, monotone in it, related by mean = Smc(p) + Vm(p) - Vv(p), and Vmp, Vmc, Vvc, Vvv are the corresponding differences for any p, q.',
     ['inputs'], 'all height distributions and all p, q', 'One golden surface with default arguments is all the tests see.',
     [A, B, S, P], [('equivalence line', A + ' _calculate_curve'), ('areas', A + ' Vm, Vv, pk, vk')], ['Sk.. Svkx', 'Vmp..Vvv', 'Rk..'])
prop('C06', 'Slope and area parameters equal their definitions',
     'Sdq and Rdq equal the root mean square gradient, the developed surface area equals the sum of the facet areas of the height grid, and Sdr relates it to the projected area, for every grid size and any, also unequal, point spacing in x and y. They do not depend on a height offset and follow the analytic value for inclined planes.',
     ['inputs'], 'all height fields, sizes and spacings', 'Tests only use equal spacing on one surface, so x/y mix-ups cancel.',
     [S, P], [('surface_area, Sdr, Sdq', S), ('Rdq', P)], ['surface_area', 'projected_area', 'Sdr', 'Sdq', 'Rdq'])
prop('C07', 'Autocorrelation equals the direct sum; Sal and Str follow from it',
     'The autocorrelation function of a surface equals the brute-force mean product of overlapping mean-centred heights at every lag, is point symmetric and peaks at zero lag with the height variance. Sal and Str are the shortest decay length to the threshold s and its ratio to the longest one over the central lobe, in physical units, for any s and unequal spacings.',
     ['inputs'], 'all height fields, sizes, spacings and thresholds', 'Golden values of one periodic surface with default s and equal spacing.',
     ['surfalize/autocorrelation.py', S], [('calculate_autocorrelation, _calculate_decay_lengths', 'surfalize/autocorrelation.py')], ['get_autocorrelation_function', 'Sal', 'Str'])
prop('C08', 'Period, orientation and direction of periodic textures are found',
     'For a grating of known wavelength and direction the reported period, dominant wavelength Ssw, x/y periods, orientation (both methods) and texture direction Std agree with the truth within the frequency resolution, for any amplitude, offset, phase, field size and also unequal spacing (the refined orientation for at least ten points per period along both axes and four periods). Aligning a surface of equal spacing makes its texture parallel to the requested axis.',
     ['inputs', 'configurations'], 'all gratings resolvable on the grid', 'Tests use one grating at fixed angles with equal spacing.',
     ['surfalize/fourier.py', S, 'surfalize/mathutils.py', P], [('peak search and frequency axes', 'surfalize/fourier.py'), ('orientation, align, period', S), ('get_period_fft_1d', 'surfalize/mathutils.py')], ['period', 'period_x_y', 'Ssw', 'orientation', 'Std', 'align', 'Profile.period'])
prop('C09', 'Gaussian filter has the ISO transmission characteristic',
     'The low-pass transmits a sinusoid of wavelength w with 2^-((cutoff/w)^2) (50 % at the cutoff) independently per physical direction also for unequal spacing, leaves constants unchanged and is linear; high-pass plus low-pass equals the original, band-pass equals high-pass after low-pass, and "both" returns (high-pass, low-pass). This holds for surfaces and profiles, every end-effect mode, and invalid cutoff combinations are rejected.',
     ['inputs', 'configurations'], 'all height fields, spacings, cutoffs, modes and filter types', 'Tests cover one surface and one cutoff.',
     ['surfalize/filter.py', B], [('sigma from cutoff and spacing', 'surfalize/filter.py sigma, apply'), ('filter', B)], ['filter'])
prop('C10', 'Levelling and detrending are exact least-squares projections',
     'level and detrend_polynomial subtract the least-squares polynomial of the given total degree fitted to the measured points only: trend plus result restores the heights, any polynomial of that degree is removed completely, adding one beforehand changes nothing, and repeating it changes nothing. Non-measured points stay non-measured and do not influence the fit, for every aspect ratio, degree and size.',
     ['inputs'], 'all height fields with and without non-measured points, degrees, non-square sizes; surfaces and profiles', 'Tests use one tilted square-ish surface.',
     [S, P], [('detrend_polynomial', S + ', ' + P)], ['level', 'detrend_polynomial'])
prop('C11', 'Pointwise operations do exactly what they state, also with missing points',
     'center, zero and invert shift or reflect the heights so that mean, minimum and range are as documented; threshold and remove_outliers turn exactly the points outside the stated limits into non-measured points and leave all others bit-identical; fill_nonmeasured leaves measured points untouched and fills missing ones with interpolated values from neighbouring measured points. Existing non-measured points stay so unless filled.',
     ['inputs', 'configurations'], 'all height fields, missing-point patterns, thresholds and methods; surfaces and profiles', 'Tests check few values on complete data.',
     [B, S, P], [('pointwise operations', B), ('fill_nonmeasured', S + ', ' + P)], ['center', 'zero', 'invert', 'threshold', 'remove_outliers', 'fill_nonmeasured'])
prop('C12', 'Cropping, zooming, slicing and rotation keep the geometry consistent',
     'crop, zoom (factor of at least 1) and slicing return exactly the requested block of points with unchanged (or stride-scaled) spacing, and out-of-range boxes are rejected; width and height always equal (points-1) times spacing. rotate returns a rectangle lying wholly inside the rotated original, so no fill values enter and the spacing stays, with the features of an equally spaced surface turned by the given angle at the true scale.',
     ['inputs', 'configurations'], 'all sizes, boxes, factors, slices and angles', 'Tests use a handful of boxes and angles on square data.',
     [S, P], [('crop, zoom, rotate, __getitem__', S), ('crop, zoom', P)], ['crop', 'zoom', 'rotate', 'surface[...]', 'width_um', 'height_um'])
prop('C13', 'Extracted profiles are the surface heights along the requested line',
     'A horizontal or vertical profile at a position contains the heights of the grid line there (mean of the lines requested by averaging), with the spacing and length of that direction, for every position from 0 to the full extent. An oblique profile between any two points of the surface contains the surface heights along the straight line joining them and its length is their distance; positions outside are rejected.',
     ['inputs', 'configurations'], 'all positions, averages, end points, sizes and spacings', 'Only a couple of interior positions are tested.',
     [S], [('get_horizontal_profile, get_vertical_profile, get_oblique_profile', S)], ['get_horizontal_profile', 'get_vertical_profile', 'get_oblique_profile'])
prop('C14', 'Missing points never yield silent numbers',
     'Every parameter or operation that needs complete data raises an error on a surface or profile containing non-measured points, wherever they are, however the object got them and whatever was computed before. The statistics that tolerate them (min, max, mean, median, std and the missing-point indicator) equal those of the measured points only.',
     ['inputs', 'histories'], 'all missing-point patterns, all parameters, histories that introduce missing points after results were cached', 'Tests try one NaN for some methods on fresh objects.',
     [B, S, P, A, 'surfalize/autocorrelation.py', 'surfalize/fourier.py'], [('no_nonmeasured_points and constructor guards', B)], ['all parameter methods'])
prop('C15', 'Saving and loading round-trips the surface',
     'A surface saved to any writable format with any of its options (compression, binary/ASCII, datatype, comment, layers), to a path or a buffer, loads back with the same shape, orientation and spacing, heights equal within the stated resolution of the format, the same non-measured points and, where supported, identical image layers. This holds for every height range, offset, dtype, constant surfaces and surfaces previously loaded from other formats.',
     ['inputs', 'configurations'], 'all surfaces x formats x writer options', 'Tests round-trip one smooth float64 surface with default options.',
     ['surfalize/file/common.py', 'surfalize/file/sur.py', 'surfalize/file/sdf.py', 'surfalize/file/al3d.py', 'surfalize/file/tmd.py', 'surfalize/file/sflz.py'], [('writers', 'write_sur, write_sdf, write_al3d, write_tmd, write_sflz')], ['Surface.save', 'Surface.load'])
prop('C16', 'Every reader decodes its format correctly',
     'A file built according to the published layout of any supported input format (vk4/6/7, plu, plux, zmg, opd, nms, os3d, fits, dat, x3p, xyz, gwy, sdf, sur, al3d, tmd) loads with exactly the encoded heights in micrometres, orientation, lateral spacing, non-measured points, and requested image layers and metadata. This holds for all sizes, units, scalings, datatypes and optional sections the reader accepts.',
     ['inputs'], 'all valid files of each format', 'Most readers have no test file at all; the others one fixed sample.',
     ['surfalize/file'], [('format readers', 'surfalize/file/*.py')], ['Surface.load'])
prop('C17', 'The right format is chosen for reading and writing',
     'The format is taken from the explicit format argument, else from the case-insensitive suffix; when that is missing or does not match the content, the content signature decides, for paths and for buffers (read and written from their current position) alike. A buffer keeps its position after loading, also a failing one, and after saving, and an unsupported format raises the documented error without creating or altering a file.',
     ['configurations', 'inputs'], 'all combinations of path/buffer, suffix, format argument, content and buffer position', 'Tests try matching suffixes and a few magic cases only.',
     ['surfalize/file/common.py'], [('FileHandler.read/write, open_file_like', 'surfalize/file/common.py')], ['Surface.load', 'Surface.save'])
prop('C18', 'Damaged files are rejected or read safely',
     'Truncated, bit-flipped or spliced files of any format, with or without the right suffix, either raise an ordinary exception or load as a well-formed two-dimensional surface; they never hang, exhaust memory disproportionately, or crash the process. A file whose height data are cut short is never returned as a complete surface (except xyz, a plain list of points without a count). Nor is one whose checksum (x3p) or stated size of the heights (sur, sflz, tmd, opd, vk4, dat) contradicts its content.',
     ['inputs', 'fault_sequences'], 'all byte-level mutations of files of all formats', 'No test feeds a damaged file.',
     ['surfalize/file'], [('size and magic checks in the readers', 'surfalize/file/*.py')], ['Surface.load'])
prop('C19', 'Batch results equal doing the same steps by hand',
     'For any files, any chain of operations and parameters (with arguments, custom names, custom functions) and any execution mode, the result table holds for each file exactly the values obtained by loading it and calling the same methods in order (or operations first, when requested), one row per file. Callbacks fire once per file, additional data and filename columns are joined to the right row by the file name, calculation errors of parameters become NaN or raise as requested, and duplicate names are refused.',
     ['programs', 'configurations', 'schedules'], 'all step chains, file sets, argument combinations, sequential and threaded execution', 'Tests run two or three fixed chains over two sample files.',
     ['surfalize/batch.py'], [('_task, step classes, execute', 'surfalize/batch.py')], ['Batch.execute', 'BatchResult'])
prop('C20', 'Filename templates extract exactly the encoded values',
     'For any template built from named typed fields with prefixes, suffixes and separators, and any filename produced from it that has no second reading, extraction returns every field value (text, non-negative integers and decimals, with point or comma) with the right type in its column, in template order after the file column, whatever special characters the fixed text contains; malformed templates raise the parsing error.',
     ['inputs'], 'all templates and matching filenames', 'Tests use a few fixed templates.',
     ['surfalize/batch.py'], [('FilenameParser', 'surfalize/batch.py')], ['extract_from_filename'])
prop('C21', 'Surface arithmetic, equality and hashing are consistent',
     'Sum, difference and product of surfaces and Python numbers in either order, and the quotient of a surface by a surface or number, act pointwise; two surfaces must have equal size and spacing. Equality is reflexive, symmetric, sensitive to any single height (beyond 1e-10 µm), spacing, shape or missing-point difference, false for other types, and equal surfaces have equal hashes.',
     ['inputs'], 'all pairs of surfaces and scalars, with missing points', 'Tests use one pair of surfaces.',
     [S], [('_arithmetic_operation, __eq__, __hash__', S)], ['+ - * /', '==', 'hash'])
prop('C22', 'Step height and cavity volume measure the step',
     'For any two-level structure, whatever the plateau shape, area fraction, offset, sign and moderate noise, the step height equals the difference of the plateau medians, the cavity volume equals depth times area of the points below the threshold, and step levelling removes an added tilt so that the plateaus become flat while keeping the mean height. Results do not depend on previous calls.',
     ['inputs', 'histories'], 'all two-level structures, thresholds and tilts', 'One synthetic step is tested.',
     [S, 'surfalize/mathutils.py'], [('otsu_threshold', 'surfalize/mathutils.py'), ('stepheight, stepheight_level, cavity_volume', S)], ['stepheight', 'stepheight_level', 'cavity_volume'])
prop('C23', 'Depth, aspect ratio and homogeneity describe periodic textures',
     'For periodic textures aligned with an axis the mean depth equals the peak-to-valley height and its deviation the scatter, for any number of profiles, sampling width, size and either alignment; aspect_ratio equals depth over period. Homogeneity lies between 0 and 1, is 1 when all unit cells of the given period are equal, equals one minus the mean Gini coefficient of the parameters over the cells, and rejects disallowed parameters.',
     ['inputs', 'configurations'], 'all axis-aligned periodic textures and arguments', 'One surface with default arguments.',
     [S, 'surfalize/mathutils.py'], [('depth, aspect_ratio, homogeneity', S), ('Sinusoid', 'surfalize/mathutils.py')], ['depth', 'aspect_ratio', 'homogeneity'])
prop('C24', 'Unit conversion is exact and consistent',
     'Converting between any two supported length units, by symbol or name, in any letter case and with any representation of the micro sign (including mis-decoded ones), gives the ratio of the SI factors; conversions compose and invert, and unknown units raise an error.',
     ['inputs'], 'all pairs of unit spellings', 'Tests list some pairs.',
     ['surfalize/file/common.py'], [('get_unit_conversion, fix_decoding_issues', 'surfalize/file/common.py')], ['get_unit_conversion'])
prop('C25', 'The command line does what the library does',
     'Converting a file or folder on the command line writes, for each supported input, a file in the requested format that loads to the same surface, with and without image layers and compression; processing options apply the operations fill, level, center or zero, threshold, outlier removal and filter in this order with the given values, and conflicting options are refused.',
     ['configurations', 'inputs'], 'all option combinations, input formats and target formats', 'The command line has no tests.',
     ['surfalize/cli.py'], [('convert, perform_surface_operations, common_options', 'surfalize/cli.py')], ['surfalize convert', 'surfalize show/report options'])
prop('C26', 'Parameters respect physical symmetries and agree across surface/profile',
     'Scaling all heights, changing the height offset, scaling the lateral spacing, mirroring, transposing or inverting a surface changes every parameter exactly as its unit and definition demand. A profile and the surface made by repeating it have equal height, material ratio and volume parameters, and parameter aliases and the bulk parameter dictionary equal the individual methods.',
     ['inputs'], 'all topographies and symmetry transformations', 'Each test evaluates one surface in one pose.',
     [S, P, B, A], [('parameter methods', S + ', ' + P)], ['all parameter methods', 'roughness_parameters'])
prop('C27', 'Plots show exactly the surface, at its true position and scale',
     'Plots of the topography or an image layer display exactly the heights or pixels (missing ones masked in the given colour) over the width and height in µm, first row on top. Plots of autocorrelation, Fourier transform, angular spectrum, material ratio curve and profiles show the arrays they are computed from on the right axes; the 3D renderer receives every point at its true position, also at a lower level of detail, and the view and vertical scale asked for. Plotting draws only on the given axes, writes the requested file and never changes the surface.',
     ['inputs', 'configurations'], 'all surfaces, layers, plot arguments, and states of other figures', 'The plots have no tests.',
     ['surfalize/plotting.py', S, 'surfalize/image.py', 'surfalize/autocorrelation.py', 'surfalize/fourier.py', A, P],
     [('plot_2d, plot_3d', 'surfalize/plotting.py'), ('FourierTransform.plot, AutocorrelationFunction.plot_autocorrelation, AbbottFirestoneCurve.plot, Profile.plot_2d', 'surfalize')], ['plot_2d', 'plot_3d', 'plot_autocorrelation', 'plot_fourier_transform', 'plot_angular_power_spectrum', 'plot_abbott_curve', 'Profile.plot_2d'])
prop('C28', 'Image layers and archived measurements come out unchanged',
     'Saving or showing an image layer (8- or 16-bit gray, 8-bit RGB) reproduces every pixel, in whatever memory layout, and an image is reported as grayscale exactly when its channels agree in every pixel. Extracting a cag archive writes each measurement byte for byte under its original name into the target folder, and nothing else.',
     ['inputs'], 'all images and archives', 'No test covers images or archives.',
     ['surfalize/image.py', 'surfalize/file/cag.py'], [('Image.save, show, is_grayscale', 'surfalize/image.py'), ('extract_cag', 'surfalize/file/cag.py')], ['Image.save', 'Image.show', 'extract_cag'])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w', encoding='utf-8') as f:
    for r in R:
        f.write(json.dumps(r, ensure_ascii=False) + '\n')
