# per-property sections: (id, spec/oracle, bounds, reach)
D = [
('C01', 'Invariant per call: group the sub-daily result by calendar day, compare the sum with the daily total (relative 1e-9), require non-negative values, all-missing days for missing totals, zeros for dry days, one 24th for the equal method. Shifted series are compared after undoing the shift.',
 '2500 series (1-800 days) per quick run; equal, master station, cascade hourly and 5-minute with 9, 10, 11 levels, single and level-specific tables, gaps, missing days at the ends.',
 'The tests use one complete year, no gaps, level 9 and no shift.'),
('C02', 'The documented test mode returns the arrays of all branching levels. Tables with one sure outcome per cell make every wet interval predictable: an independent scalar model recomputes position, volume class and split for each interval of each level (exact comparison, ties with the threshold included). Tables with impossible outcomes give a support check; tables with all outcomes possible feed frequency counts per outcome and weight class (7 sigma, npq of at least 30), also for independence of neighbouring draws.',
 '4000 cases, about a million wet intervals; levels 5, 9, 10, 11; one table or one per level.',
 'A wrong table cell, neighbour or threshold keeps all daily sums, which is all the tests look at.'),
('C03', 'Independent recount of every level from the observations (positions, classes, fractions, weight histogram, percentile), weighting, fallback and uniform rules; compared with every number returned.',
 '320 records (quick) of 20-200 days, hourly and 5-minute, several seasons, missing values, percentiles 5-95.',
 'The tests only compare a calibration with its own reloaded copy.'),
('C04', 'Stations with tables of sure outcomes, one table per season: the complete hourly series is predicted by the reference cascade per season and the shift applied to the whole series.',
 '1500 stations; seasons wrapping the year, unsorted months, uncovered months, single-day seasons, shifts -30..30.',
 'The tests use one all-year season.'),
('C05', 'Reference: share of the master hour in the known hours of that day, times the daily total; uniform or zero fill.',
 '2000 pairs of series; missing hours and days at the master, longer masters, gaps.', 'No test uses a master station.'),
('C06', 'Invariants per day whose conditions hold (own and neighbouring values known, not polar, maximum after minimum): maximum at its hour, minimum before it, envelope of the neighbours, mean and range for the mean-preserving methods.',
 '2500 cases, all methods and timing options, function and station.', 'The tests check one place and fixed hours.'),
('C07', 'Full hourly reference course (scalar Python) for every hour outside polar night, with the hours of the extremes derived from an independent solar reference or the sun times given.',
 'as C06, plus single days, missing neighbours, fallback of the maximum hour, early sunrise.', 'Timing options, night-time branch and neighbours are not tested at all.'),
('C08', 'Reference bridge between extremes at 06:00/18:00 and the adjacent normal days; compared for the whole hourly series.',
 '2500 cases at high latitudes (both hemispheres), nights at start, end or throughout.', 'No test reaches polar night.'),
('C09', 'Range invariant for every value; daily mean on days where the uncorrected course plus bias stays within 0-100.',
 '2500 cases; daily means near 0 and 100, missing means, missing hours.', 'The tests use one moderate year.'),
('C10', 'Reference values for every hour from the Magnus formulas and the daily data.', '2500 cases; frost and thaw, both periods of the oscillation, last day, wet and dry class, drizzle, missing precipitation.',
 'The tests only look at the range 0-100.'),
('C11', 'Closed form for equal and cosine; for the random method the factors are transformed to uniform variates and tested (Kolmogorov-Smirnov with threshold 3.5/sqrt(n), repetition, correlation at lags 1 and 24).',
 '1500 cases, amplitudes up to 3.', 'The tests check only that wind is not negative.'),
('C12', 'Reference: daily value times the potential radiation (or mean course) over its daily mean, small values cut; mean and zero hours checked separately.',
 '2000 cases incl. polar places, dark days, missing days, supplied potential radiation.', 'One place at 51 N is tested.'),
('C13', 'Scalar reference of both models with constant or monthly parameters, then the hourly reference of C12.',
 '2000 cases; negative ranges, several months, gaps, last day.', 'The values of these models are not tested.'),
('C14', 'Scalar solar geometry reference for every instant; independence from the other instants by calling on subsets and permutations.',
 '2500 cases; minutes, unsorted lists, slopes, clouds, zenith, poles.', 'The function is only used indirectly in the tests.'),
('C15', 'Scalar reference per day, wrap rules, symmetry.', '3000 cases; whole years, date line, fractional zones, polar night and midnight sun.', 'Not tested.'),
('C16', 'The set of expected time stamps is built day by day and compared with the index of every result.', '1500 records through all functions and stations, gaps, leap days, year ends, dates from 1901 to 2100.', 'Only a complete year is tested.'),
('C17', 'Metamorphic: two runs that differ in one daily value (changed, missing, day removed); all hours outside the day (and direct neighbours for temperature extremes) must be identical.',
 '1500 pairs, up to 800 days.', 'Needs two runs; no test compares runs.'),
('C18', 'Direct statistics of the hours of each calendar day.', '2500 records with partial, missing and absent days, column subsets.', 'Not tested directly.'),
('C19', 'Round trip through a scratch file: every number compared (1e-9), then both sets disaggregate the same record from the same random state.',
 '450 sets; empty, partial, few months, per level, seasons, all percentiles.', 'One full calibration is tested with the default percentile.'),
('C20', 'Deep snapshots of all arguments (values, index names, columns, attributes) before and after every call; snapshots of the parts of station and statistics a call must not change; a second station and its statistics stand by and must stay as they are, and new statistics must have the defaults seen at the start.',
 '500 sequences, about 6600 calls.', 'Side effects on inputs are not tested.'),
('C21', 'History-based: equal keys (call, arguments, relevant state, random state) must have equal results; fixed probes repeated between cases and in a fresh interpreter with another hash seed; families of calls that differ in one argument are run completely, in random order, and the last three results are compared with a copy of the process that never used the library; state of the random generator before and after deterministic calls; new realisations without reseeding.',
 '500 histories, 900 families per quick run.', 'Caches and hidden state need sequences of calls.'),
('C22', 'Count of differing steps and of rows to be cut by a direct scan.', '3000 series.', 'Not tested.'),
('C23', 'Round trip through scratch files and files composed by hand (unit multipliers, no-data values).', '2000 frames.', 'Not tested.'),
('C24', 'Files composed from known values in a scratch directory, read back and compared.', '1500 files or directories of up to 14 files.', 'Not tested.'),
('C25', 'Known measurements must reappear; straight lines between them; reach of the filling.', '2500 cases.', 'Not tested.'),
('C26', 'Direct means of the matching observations.', '900 records.', 'Not tested.'),
('C27', 'Optimality: sum of squares against the closed-form least-squares solution (tolerance 1e-7 of the total), recovery of generating parameters; bias against that of the default parameters for the temperature-range model; grouping of months by fitting each group separately.',
 '460 calibrations, with overcast, sunny and calm days and winds of some hours only.', 'The tests do not look at the parameters.'),
('C28', 'Closed formulas elementwise, inversion of the dew point, monotonicity.', '6000 arrays; the freezing point and its floating-point neighbours, humidities from 0.001 percent.', 'Not tested.'),
('C29', 'Each invalid request must raise; the public state of the station before and after is compared.', '1000 stations with about 25 kinds of invalid request.', 'Not tested.'),
('C30', 'History-based: each stored hourly result equals the function-level result for the data, place and statistics of that moment; sun times against the reference for the present place; every calibration equals that of new statistics with the observations and place of that moment.',
 '700 histories of assignments, in-place edits, calibrations and disaggregations.', 'The tests build a station once and never change it.'),
]
D.append(('C31', 'History-based: a station (or its statistics) is duplicated by deep copy or pickle; then the same seeded operations run on both, one after the other. After each operation the public state of the untouched one must be unchanged, and after both the two states must agree. Equality of cascade statistics is tested against one changed number.',
 '500 pairs of histories.', 'Needs copies and two histories; the tests never copy.'))
