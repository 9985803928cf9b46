#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand, output is committed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, observe=(), technique='', note=''):
  P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
           anchors=dict(files=['pygeode/' + f for f in files.split()], mechanism=[dict(name=a, where='pygeode/' + b) for a, b in mech],
                        observe_at=list(observe)), technique=technique, note=note))

p('P01', 'Positional indexing agrees with NumPy orthogonal indexing',
  'Indexing a variable or an axis with any mix of integers, slices (any bounds and step sign), index lists (repeated or unordered), an ellipsis and omitted axes yields exactly the elements that applying each index along its own axis of the full array yields. '
  'The axes of the result (values, auxiliary arrays, attributes) are cut the same way, and slicing a slice is the same as composing the indices. Metadata and dtype are unchanged.',
  'inputs histories', 'every index expression, every axis kind and shape, every chain of successive slices, lazy or in memory',
  'slice_test samples fixed expressions on two grids; it covers neither chains, nor time or auxiliary arrays on axes, nor out-of-range bounds.',
  'var.py view.py axis.py tools.py', [('views composed by mapping index lists', 'view.py'), ('Var.__getitem__ / slice', 'var.py'), ('Axis.slice, auxiliary arrays', 'axis.py')],
  ['Var.slice[...]', 'Var[...]', 'Axis.slice', 'Var.get']
  , 'Hypothesis-generated index expressions and chains against numpy orthogonal indexing of permutation data')

p('P02', 'Keyword selection picks exactly the requested coordinates',
  'Selecting by keyword keeps, in order, exactly the points requested: the nearest coordinate for a number on a floating axis, the equal one on an integer axis or field, all points within a closed (lower, upper) range whichever way round it is given, the listed ones with l_, positions with i_, and the complement with n_; date strings mean the instant they name. '
  'Keywords on several axes (by axis name, class or parent class in any case, auxiliary array or calendar field) intersect; m_ additionally averages and s_ squeezes that axis. An unknown keyword is an error unless mismatches are to be ignored.',
  'inputs', 'every axis kind, value order, prefix combination, number of keywords and request value',
  'The unit tests select a handful of ranges on regular grids; they do not combine prefixes, irregular or descending axes, auxiliary arrays, calendar fields and strings.',
  'var.py axis.py timeaxis.py', [('keyword prefixes', 'var.py:Var.__call__'), ('Axis.get_slice / str_as_val', 'axis.py'), ('calendar fields and strings', 'timeaxis.py')],
  ['Var.__call__', 'Axis.__call__', 'Var.get(**kw)'], 'Hypothesis-generated keyword sets against an independent list-based selection model')

p('P03', 'Results do not depend on how the work is cut into chunks',
  'Every computation that walks over its input in memory-limited pieces (reductions, climatologies, smoothing, correlations and regressions, EOFs, writing files, plain retrieval of composed variables) gives the same result, up to rounding, whatever the limit on the size of a piece is. '
  'In particular results that combine pieces (extremum positions, NaN-aware sums, weights, counts) are those of the whole array.',
  'configurations inputs', 'every maximum piece size from one element to unlimited, every input shape, dtype and NaN pattern',
  'The tests use arrays far smaller than the default limit, so the loops over pieces run exactly once.',
  'view.py tools.py reduce.py climat.py stats.py smooth.py eof.py', [('View.loop_mem', 'view.py'), ('loopover', 'tools.py'), ('accumulation in reductions', 'reduce.py')],
  ['MAX_ARRAY_SIZE', 'results of .get()/.load()'], 'differential: the same generated computation at random piece sizes against one piece and numpy')

p('P04', 'Any part of a lazy result equals that part of the whole result',
  'For every operation that returns a variable, retrieving any subset of the result (slices, strides, reversed or repeated index lists, on any axes) gives exactly the corresponding subset of the fully computed result. '
  'The shape, dtype and axes a lazy variable announces are those of the data it delivers.',
  'inputs programs', 'every operation and composition of operations, every sub-selection',
  'Tests retrieve whole results; the part-wise code paths (which each operation implements separately) are hardly run.',
  'var.py view.py varoperations.py concat.py timeutils.py climat.py smooth.py deriv.py diff.py intgr.py interp.py composite.py fft_smooth.py', [('getview of every Var subclass', 'varoperations.py'), ('View.map_to', 'view.py')],
  ['Var.get', 'Var.slice', 'Var.dtype', 'Var.shape'], 'metamorphic: random operation pipelines, sub-selection commutes with evaluation')

p('P05', 'Arithmetic lines variables up by axis, not by position',
  'Element-wise operators and functions between variables match axes by identity whatever their order, broadcast over the axes that only one of them has, cover the smaller set of points where one covers only part of a shared axis (refusing to combine axes that overlap only partly), and agree element by element with the same operation on the aligned arrays. '
  'Operations with plain numbers act on every element and keep the axes.',
  'inputs programs', 'every pair of axis lists (orders, missing axes, partial overlaps), operator, function, dtype and operand side',
  'The tests combine variables with the same few grids; partially overlapping, permuted and reversed-operand cases are sampled at best once.',
  'ufunc.py var.py tools.py axis.py view.py', [('combine_axes / common axes', 'tools.py'), ('UfuncVar', 'ufunc.py'), ('Axis.common_map', 'axis.py')],
  ['Var arithmetic, pygeode.sin etc.'], 'Hypothesis-generated operand pairs against explicit alignment by coordinate dictionaries')

p('P06', 'Reductions agree with the NumPy definition, with weights and NaNs',
  'Sum, mean, variance, standard deviation, minimum, maximum and the positions of extrema over any set of axes (given by name, class, number or object, in any order) equal the textbook definition on the array; the NaN-aware forms skip NaNs and give NaN (sums: zero) only where nothing is left, the plain ones propagate NaN, no integer overflows the type of the data, and variances keep their precision however large the mean is. '
  'Means use the weights of the axes by default (for example the cosine of latitude) and custom or disabled weights on request, and the result keeps exactly the axes not reduced over.',
  'inputs', 'every shape, axis subset and way of naming it, dtype, magnitude of the numbers, memory layout, NaN pattern and weighting',
  'Tests compare a few reductions on one or two fixed arrays, nearly all with float data and without NaNs.',
  'reduce.py tools.py var.py axis.py', [('ReducedVar family', 'reduce.py'), ('getweights', 'var.py'), ('npsum etc.', 'tools.py')],
  ['Var.mean, sum, ...'], 'Hypothesis-generated arrays against an explicit float64 implementation of the definitions')

p('P07', 'Reshaping operations move data and axes together',
  'Transposing, squeezing, extending, sorting, renaming, replacing axes, changing dtype, filling and unfilling values never separate a value from its coordinates: each element of the result is the element of the input that its remaining coordinates identify. '
  'Inverse pairs restore the original (transpose and its inverse permutation, extend then squeeze, unfill then fill), and sorting yields ascending coordinates.',
  'inputs programs', 'every shape, permutation, way of naming axes, and sequence of such operations',
  'Tests apply each operation once on a fixed grid and mostly check shapes.',
  'varoperations.py var.py axis.py', [('TransposedVar, SqueezedVar, ExtendedVar, SortedVar, Replace_axes ...', 'varoperations.py')],
  ['Var methods and pygeode.varoperations'], 'Hypothesis-generated operation sequences against a coordinate-dictionary model')

p('P08', 'Concatenation and ensembles lay the pieces end to end unchanged',
  'Concatenating variables or datasets along an axis gives a variable whose coordinates and data along that axis are those of the pieces in the order given, in the type common to them, and retrieving any part of it gives the matching elements. '
  'Splitting a variable along an axis and concatenating the parts gives the variable back; an ensemble stacks its members, which must share their axes, unchanged along a new first axis.',
  'inputs histories', 'every number and size of pieces, axis kind and position, time units and start dates, sub-selection of the result',
  'Tests concatenate two or three equal pieces and read the whole result.',
  'concat.py ensemble.py axis.py timeaxis.py dataset.py', [('ConcatVar', 'concat.py'), ('Axis.concat', 'axis.py'), ('EnsembleVar', 'ensemble.py')],
  ['pygeode.concat.concat', 'pygeode.ensemble.ensemble'], 'round trip split/concat and part-wise retrieval against numpy concatenation')

p('P09', 'Axis comparison and mapping follow the coordinates within tolerance',
  'Two axes compare equal exactly when they are of the same kind and have the same coordinates up to the tolerance of the axis (times: the same instants, whatever units or start date express them; axes of names: the same names in the same order). '
  'Mapping one axis onto another finds, for each point, a point with the same coordinate, in whatever order the two are stored; the common map of two time axes pairs exactly the dates both have, and sorting or reversing an axis is the matching permutation.',
  'inputs', 'every pair of axes (subset, superset, disjoint, permuted, perturbed within or beyond tolerance; times in any units)',
  'Tests map a few axes with exact subsets; tolerances, permutations and unit changes are not explored.',
  'axis.py timeaxis.py tools.py tools.c timeaxis.c', [('Axis.map_to, is_equivalent, common_map', 'axis.py'), ('map_to, common_map', 'tools.py, tools.c')],
  ['Axis ==', 'Axis.map_to', 'Axis.common_map', 'Axis.sorted'], 'generated axis pairs with known coordinate correspondence against a dictionary model')

p('P10', 'Calendar conversion is exact and invertible in every calendar',
  'Converting between relative time (any unit, any start date) and calendar fields is exact and mutually inverse for the standard (Gregorian), 365-day, 360-day and day-only calendars, for dates before and after the start date. '
  'Standard dates agree with the proleptic Gregorian calendar; the model calendars agree with fixed-length months; building an axis from dates, from values, or by combining fields gives the same instants.',
  'inputs', 'every date in years 1 to 9999, every start date, unit, calendar, ascending or not, whole or fractional units',
  'timeaxis tests convert a few dates of one or two years; leap centuries, negative offsets, sub-daily units and the model calendars are sampled thinly.',
  'timeaxis.py timeaxis.c', [('date_as_val / val_as_date', 'timeaxis.c'), ('CalendarTime construction', 'timeaxis.py')],
  ['StandardTime', 'ModelTime365', 'ModelTime360', 'Yearless'], 'generated dates against Python datetime / explicit day counting; round trip')

p('P11', 'Time formatting, parsing and arithmetic are consistent',
  'A date formatted by a time axis and parsed back is the same instant (to the resolution of the format), and every documented date string form is accepted and means the instant it names. '
  'Differences between times, the spacing of an axis, relative time in other units or from another start date, and restricting an axis to some of its calendar fields all agree with calendar arithmetic; a string that is no date is an error.',
  'inputs', 'every date, calendar, format, unit and start date',
  'Tests format and parse a few dates in one or two formats.',
  'timeaxis.py pygrc timeaxis.c', [('formatvalue / str_as_date', 'timeaxis.py'), ('date_diff, reltime, delta, modify', 'timeaxis.py')],
  ['Time.formatvalue', 'Time.str_as_val', 'pygeode.timeaxis.*'], 'round trip and generated dates against datetime and explicit day counting')

p('P12', 'Climatologies and time averages equal group-by on calendar fields',
  'A climatology (daily, monthly, diurnal ...) or time average (daily, monthly, seasonal, yearly; mean, standard deviation, NaN-aware) holds, for each group of calendar fields, exactly the statistic of the samples whose dates fall in that group, with one output point per group present, in time order, labelled with those fields. '
  'Removing a climatology or trend subtracts exactly that, and neither deviations nor trends lose their precision where the mean is large or the data are in single precision.',
  'inputs', 'every time axis (gaps, irregular steps, partial years, any calendar, reversed or shuffled), position of the time axis, NaN pattern, dtype (complex too), magnitude of the numbers and memory layout',
  'climat tests use complete regular years in one calendar with the time axis first.',
  'climat.py timeaxis.py timeaxis.c tools.py tools.c', [('TimeOp, TimeMean, TimeStdev', 'climat.py'), ('common_map of calendar fields', 'timeaxis.py'), ('partial_sum', 'tools.py')],
  ['pygeode.climatology, monthlymean, ...'], 'generated time series against dictionary group-by in numpy')

p('P13', 'Time-series utilities keep every value with its own date',
  'Removing leap days, splitting a time axis into years (or other fields) and seasons, joining it back and lagging move samples without altering them: every value of the result is the input value at the date its coordinates name, and missing combinations are fill values. '
  'Splitting and joining restores the original series; a lagged series at lag k equals the original shifted by k steps; the interval of a time axis is reported only if its steps are all equal (or the smallest is asked for).',
  'inputs', 'every time axis (calendar, step, gaps, length), lag set, position of the time axis, sub-selection',
  'Tests use a few regular series and mostly check shapes.',
  'timeutils.py timeaxis.py', [('removeleapyears, jointimeaxes, splittimeaxis, lag', 'timeutils.py')],
  ['pygeode.timeutils.*'], 'generated series whose value encodes the date; round trips')

p('P14', 'Derivatives, differences and integrals are the stated finite formulas',
  'Derivatives (any difference scheme) and differences of any order along any axis equal the documented finite-difference formulas on the actual, possibly unequally spaced, coordinates, and are exact for linear (centred, equally spaced: quadratic) data. '
  'Integrals equal the stated quadrature (rectangle or trapezoid, forward or backward), differencing a cumulative sum gives the data back, and the result lives on the documented grid.',
  'inputs', 'every axis spacing and direction, scheme, axis position, order, dtype (integers over the whole range of their type, complex data) and sub-selection',
  'Tests differentiate one smooth function on one regular grid.',
  'deriv.py diff.py intgr.py', [('DerivativeVar', 'deriv.py'), ('DiffVar', 'diff.py'), ('integrate', 'intgr.py')],
  ['Var.deriv', 'Var.diff', 'Var.integrate'], 'generated grids and data against explicit finite-difference and quadrature formulas')

p('P15', 'Smoothing and spectral filtering are the stated linear filters',
  'Smoothing along an axis with a kernel or window equals the direct convolution with the documented edge treatment, preserves constants, and acts on each line along the axis independently. '
  'Fourier smoothing keeps exactly the requested number of harmonics, is idempotent, and leaves data made of retained harmonics unchanged.',
  'inputs', 'every length, kernel, edge option, axis position, dtype, chunking and sub-selection',
  'Tests check shapes and one or two kernels.',
  'smooth.py fft_smooth.py', [('SmoothVar', 'smooth.py'), ('FFTSmoothVar', 'fft_smooth.py')],
  ['Var.smooth', 'fft_smooth'], 'generated series and kernels against direct convolution / numpy FFT')

p('P16', 'Composites and flattening gather the right events and columns',
  'A composite contains, for each event and each offset, exactly the input value at that offset from that event, and the fill value where the window leaves the data. '
  'Flattening axes into one enumerates every combination of the flattened axes once, in order, keeping values unchanged.',
  'inputs', 'every event list and length (overlapping, at the edges), window, axis position, dtype and sub-selection',
  'The composite tests place events in the interior of one series.',
  'composite.py varoperations.py', [('CompositeVar', 'composite.py'), ('FlattenVar', 'composite.py')],
  ['pygeode.composite.*'], 'generated events against explicit gathering')

p('P17', 'Interpolation reproduces data on its own grid and exact functions',
  'Interpolating any variable along any axis (or a pair of coordinate fields) returns the data itself at the original coordinates, is exact for linear data, lies between neighbours for linear interpolation, and agrees with the reference linear and natural/other cubic interpolation in between. '
  'Outside the range of the input coordinates the result is missing unless extrapolation slopes are given; each column is interpolated independently, ascending or descending.',
  'inputs', 'every input and output grid (order, spacing, overlap), axis position, coordinate field, method and sub-selection',
  'Tests interpolate one smooth field on regular pressure levels.',
  'interp.py interp.c', [('Interp getview', 'interp.py'), ('interpolation core', 'interp.c')],
  ['pygeode.interpolate'], 'generated grids against scipy/numpy interpolation and explicit formulas')

p('P18', 'Saving to netCDF and opening it again gives the same dataset',
  'Writing variables or datasets to a netCDF file (classic or version 4, with any documented format, compression, packing, unlimited dimension or group option) and opening it gives back the same variables: dimensions in order, coordinates of every axis kind (kinds that files cannot express come back as plain axes), auxiliary information, values, NaNs and fill values, names, units and attributes. '
  'Packed data agree to within half a packing step, everything else exactly.',
  'inputs configurations', 'every dataset (axis kinds, calendars, dtypes, shapes, missing values, attributes) and combination of save options',
  'Format tests write one or two small files with default options.',
  'formats/netcdf.py formats/netcdf4.py formats/cfmeta.py formats/__init__.py tools.py', [('encode/decode of CF metadata', 'formats/cfmeta.py'), ('netCDF writers and readers', 'formats/netcdf4.py, formats/netcdf.py')],
  ['pygeode.save / open, Dataset.save'], 'round trip of generated datasets; files also read back with the netCDF4 library')

p('P19', 'Opening files applies CF conventions and combines files faithfully',
  'Opening a file decodes packing, fill values, time units and calendars, and axis types as the CF conventions define, and the name, dimension type and decoding options change exactly what they name. '
  'Opening many files as one, in any order and however the record axis is cut, gives the variables a single file would give; the integrity check of such a collection passes when it is complete, and fails when a file is lost, cut short, misdated, unreadable or has other variables.',
  'inputs configurations', 'every CF-attributed file (units, calendars, packing, dtypes), open option and division into files',
  'Tests open a couple of small files; CF decoding is checked for one sample each.',
  'formats/cfmeta.py formats/multifile.py formats/netcdf.py formats/netcdf4.py', [('decode_cf', 'formats/cfmeta.py'), ('open_multi / openall', 'formats/multifile.py')],
  ['pygeode.open, openall, open_multi'], 'files generated with the netCDF4 library, decoded by an independent model')

p('P20', 'Exchange with xarray preserves data and coordinates',
  'Converting a variable or dataset to xarray and back gives the same variables, axes (kinds, values, times) and attributes, and the xarray object has the data, dimension names and dates of the original. '
  'Selecting before or after the conversion gives the same values, and variables converted separately keep their own values when one xarray computation uses several of them.',
  'inputs', 'every axis kind, calendar, dtype, selection',
  'No or few tests exercise this bridge.',
  'ext_xarray.py', [('to_xarray / from_xarray', 'ext_xarray.py')], ['pygeode.ext_xarray'], 'round trip of generated datasets')

p('P21', 'Dataset operations act on each member variable alike',
  'Building a dataset, selecting from it, adding to, removing from, replacing in, renaming, copying and concatenating datasets, and mapping any function or variable method over one act on every variable as the same operation on that variable alone, keep the order and names of the others, and give a dataset whose axes are those of its variables. '
  'Duplicate names of variables or axes get suffixes as documented, keywords that a variable has no axis for leave it whole, and the original dataset is left as it was.',
  'inputs histories', 'every set of variables and sequence of dataset operations',
  'Dataset tests exercise each operation once on a dataset of one or two variables.',
  'dataset.py', [('Dataset', 'dataset.py')], ['pygeode.Dataset'], 'stateful sequences of dataset operations against an ordered-dictionary model')

p('P22', 'EOF analysis yields an orthonormal, variance-ordered decomposition',
  'EOFs of a variable are orthonormal under the weights used, the principal components (along one or more record axes, stored anywhere) are mutually uncorrelated and are the projections of the data, the explained variances are the leading eigenvalues of the weighted covariance in decreasing order, and keeping all of them reconstructs the data. '
  'The singular-value, covariance and iterative solvers agree with one another and with a dense singular value decomposition up to sign, the single-pass guess explains no more than they do, and the outputs are the ones asked for, in that order.',
  'inputs configurations', 'every data set, weights, record axes and their position, number of EOFs, outputs, algorithm and piece size',
  'Tests compute EOFs of one or two synthetic fields.',
  'eof.py eof.c', [('EOF solvers', 'eof.py, eof.c')], ['pygeode.EOF*'], 'generated low-rank data against numpy.linalg.svd')

p('P23', 'Coupled-pattern SVD diagonalises the cross-covariance',
  'The coupled patterns of two variables are orthonormal, ordered by decreasing covariance, and their expansion coefficients are the projections of the data, with covariances equal to the singular values of the weighted cross-covariance (or, on request, cross-correlation) matrix. '
  'The record axis can lie anywhere in either field, and each is left as it was.',
  'inputs', 'every pair of data sets, weights, number of modes, axis order',
  'The tests, if any, run one fixed example.',
  'svd.py svd.c', [('SVD', 'svd.py')], ['pygeode.SVD'], 'generated pairs against numpy.linalg.svd')

p('P24', 'Statistical functions agree with their textbook definitions',
  'Correlation, simple and multiple regression (without a constant term), the Welch test of a difference of means, the paired difference and the test of a mean against zero give the textbook coefficients, standard errors, degrees of freedom, confidence intervals and two-sided p-values of the samples along the axes named (all common axes by default), separately for each point of the other axes, whichever of the variables has those and in whatever order. '
  'Except in multiple regression, missing values are left out (in pairs where samples are paired), and where too few samples remain, or they do not vary, the result is missing; no precision is lost where the mean is large. '
  'Exactly the statistics asked for are returned; a factor on the number of samples divides their number in the degrees of freedom; sampling over an axis not common to both variables is refused.',
  'inputs', 'every shape, order and choice of axes, degrees-of-freedom factor, NaN pattern, output selection, confidence level, limit on the size of pieces',
  'Tests compare one or two cases with saved numbers.',
  'stats.py', [('correlate, regress, multiple_regress, difference, paired_difference, isnonzero', 'stats.py')], ['pygeode.stats'], 'generated samples against explicit two-pass formulas, least squares and t distributions')

p('P25', 'Operations never modify their inputs',
  'Applying any operation to a variable, axis or dataset, evaluating the result fully or in part, or using it again, leaves the data, coordinates and metadata of the inputs as they were, and evaluating the same lazy result twice gives the same values. '
  'Lists, dictionaries and arrays passed as arguments are left alone too, and changing the returned array does not change the variable.',
  'programs histories', 'every operation and composition, every repeated or partial evaluation',
  'Tests use fresh inputs each time and do not look at the inputs afterwards.',
  'var.py axis.py varoperations.py climat.py smooth.py deriv.py eof.py stats.py', [('lazy evaluation through views', 'view.py')], ['Var.get', 'input fingerprints'], 'generated operation histories with fingerprints of every input before and after')

p('P26', 'Grids, weights and longitude rotation are geometrically right',
  'Gaussian latitudes and weights are the Gauss-Legendre nodes and weights (so weighted sums integrate polynomials exactly), and regular latitude and longitude grids are evenly spaced over the globe with the requested number of points, ends and order. '
  'The weights of an axis (cosine of latitude unless others are given) stay with their coordinates through selection, sorting, transposition, dropping of axes and joining of pieces, and are the ones weighted means use. '
  'Rotating longitudes puts them in increasing order from the requested origin, each value keeping its longitude modulo 360 (the first column may be repeated 360 degrees further on).',
  'inputs', 'every grid size, range, origin and selection',
  'Tests construct one or two grids.',
  'axis.py quadrulepy.c quadrule.c varoperations.py var.py', [('gausslat, regularlat, regularlon', 'axis.py'), ('legendre_compute', 'quadrule.c'), ('rotatelon', 'varoperations.py')],
  ['pygeode.gausslat, regularlon ...'], 'generated sizes against numpy Gauss-Legendre; permutation oracle')

p('P27', 'Names, units and attributes propagate by stated rules',
  'Selecting, sorting, reshaping, casting, filling, loading, splitting and rejoining keep the name, units, attributes and plotting attributes of a variable; element-wise operations its units and attributes; reductions, filters, interpolation, lags and composites its name and attributes; derivatives and climatologies its attributes. '
  'Combining variables (arithmetic, sums, concatenation, ensembles) keeps exactly the units, attributes and plotting attributes on which all operands agree; axes keep theirs through selection, sorting and renaming, datasets their global attributes through selection, renaming and mapping. '
  'Setting or deleting metadata of a result (one that is a new object, not the input handed back) never changes that of the input, of another result, or of things made later.',
  'programs histories', 'every operation and composition, every metadata content, every later modification',
  'Tests look at names in passing and never modify metadata afterwards.',
  'var.py axis.py ufunc.py tools.py varoperations.py dataset.py', [('copy_meta, combine_meta', 'var.py')], ['.name .units .atts .plotatts'], 'generated operation sequences with a dictionary model of metadata')

p('P28', 'Plots show the values of a variable at its coordinates',
  'Line plots, contour plots, vector and stream plots, histograms, scatter plots and significance masks show every value of the given variables at its coordinates, scaled by the scale factor and offset in their plotting attributes, whichever way the axes are laid out: the first axis is horizontal unless it is vertical in space, the plot is a map, or a transposition is asked for. '
  'Axis limits are the extreme scaled coordinates in the order and on the scale the axis asks for; labels and titles give the name or title, the units, and the coordinates of axes of length one; contours lie at the levels given, and levels chosen automatically are evenly spaced (or logarithmically, where asked for), round, and span the values. '
  'Panels keep their sizes, order and place in a grid or on pages without overlapping, a colour bar lies on the side asked for, parts of a panel are drawn in the order they were given, and a plot saved to a file and loaded again is the same.',
  'inputs histories', 'every variable, axis kind, metadata, option, grid of panels, sequence of additions',
  'The plotting tests only check that a few plots can be drawn, and compare nothing.',
  'plot/pyg_helpers.py plot/wrappers.py plot/cnt_helpers.py plot/cm.py plot/plot_v1.py', [('vplot, vcontour, vquiver, showvar, showgrid', 'plot/pyg_helpers.py'), ('AxesWrapper, grid, colorbar', 'plot/wrappers.py'), ('contour levels', 'plot/cnt_helpers.py')], ['AxesWrapper.render', 'calls of matplotlib drawing methods', 'figure contents'], 'generated variables and options with a numpy oracle on what matplotlib is given to draw; model-based histories of panels')

p('P29', 'Coordinate labels, time ticks and descriptions',
  'Labels of coordinates show the value in the format asked for or the default of the kind of axis: hemispheres for latitudes and longitudes (wrapped to the circle, split at the given meridian), whole numbers for pressures above the given break, names for axes of names, seasons and years for seasonal axes, with or without the units; tick labels of plots use the plot format. '
  'Ticks of a plotted time axis lie at every calendar time in the view (from its start, with or without its end) that is at a multiple of one unit (years, months, days of the month, hours ...), number about five, whichever views preceded and in whichever direction the axis is drawn, and their labels, with the common label, give those dates in a format fit for the spacing, so that neighbours differ. '
  'Printing an axis, variable or dataset lists its name, units, shape, axes with first and last value and length, attributes, and type.',
  'inputs histories', 'every axis kind, value, format, calendar, start date, unit, sequence of views, metadata',
  'The tests print a few objects and check neither labels nor ticks.',
  'timeticker.py axis.py timeaxis.py var.py dataset.py', [('formatvalue', 'axis.py'), ('AutoCalendarLocator, TickGenerator', 'timeticker.py'), ('Var.__str__', 'var.py'), ('Dataset.__str__', 'dataset.py')], ['Axis.formatvalue', 'Time.locator', 'Time.formatter', 'str'], 'generated values, formats and sequences of views against an independent calendar and formatting oracle')

p('P30', 'Scanned collections of files',
  'Scanning a list or pattern of files returns datasets that together hold every value found in the files and nothing else, with the names, attributes common to all files, kinds and directions of axes and values (or any part of them) of the files, however the files divide the variables and axes; where all variables have the same axes, no dataset is a part of another and whatever block of points is known for some variables together lies in one of them. '
  'A list of what the files hold, kept between scans, is only a shortcut: the datasets are the same whether it is new, extended, spelled with other paths, older or newer than the files, removed, damaged or cut short, and files that have not changed are not scanned again. '
  'Searching such datasets for variables finds those, and only those, that hold all of them and meet the requirement, and the best of them by the given ranking.',
  'inputs histories', 'every division of variables over files, kind of axis, interface, history of scans and changes of files, requirement and ranking',
  'The tests contain none of this.',
  'formats/data_scanner.py', [('from_files', 'formats/data_scanner.py'), ('DataInterface', 'formats/data_scanner.py'), ('AxisManager', 'formats/data_scanner.py')], ['from_files', 'DataInterface.find', 'DataInterface.find_best'], 'generated sets of files and histories of scans against the known contents of the files; metamorphic relation (with and without the list)')

if __name__ == '__main__':
  from importlib.util import find_spec
  have = [q for q in P if os.path.exists(os.path.join(V, 'pbt/props/%s.py' % q['id'].lower()))]
  drop = set(l.split()[0] for l in open(os.path.join(V, 'tools/notready')) if l.strip()) if os.path.exists(os.path.join(V, 'tools/notready')) else set()
  with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for q in P:
      f.write(json.dumps({k: q[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
      assert len(q['title']) <= 80, q['title']
  checks = []; na = []
  for q in P:
    if q in have and q['id'] not in drop:
      checks.append(dict(property=q['id'], quick_cmd='python3 run.py %s --tier quick' % q['id'], thorough_cmd='python3 run.py %s --tier thorough' % q['id'],
                    technique='property-based testing: ' + q['technique'], level='exploration',
                    level_note='generated-input search with an explicit oracle; a failing case is shrunk and written as a JSON replay file'))
    else: na.append(dict(property=q['id'], reason='not claimed: its check has not been built (yet)'))
  m = dict(version=1, setup_cmd='python3 run.py --setup', checks=checks, not_applicable=na)
  with open(os.path.join(V, 'MANIFEST.json'), 'w') as f: json.dump(m, f, indent=1); f.write('\n')
  print(len(checks), 'claimed;', [n['property'] for n in na], 'not')
