"""Writes /verif/properties.jsonl (source of the property list)."""
import json
import os

P = []


def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = dict(files=['melodist/' + f for f in files],
             mechanism=[dict(name=n, where='melodist/' + w) for n, w in mech],
             observe_at=observe)
    if state:
        a['state'] = state
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a))


p('C01', 'Disaggregated precipitation preserves the daily totals',
  'For every precipitation method (equal, cascade to hourly or 5-minute values at any supported branching level, '
  'master station) the sub-daily amounts of a day are non-negative and add up to that day\'s total up to '
  'floating-point rounding. A dry day yields only zeros, a day with a missing total yields only missing values, '
  'and the equal method gives each hour one 24th of the total. Only days outside every calibrated season, days '
  'of a season that contributes a single day, and amounts pushed over the ends of the series by a shift are exempt.',
  ['inputs', 'configurations'],
  'all daily precipitation series (dry, wet, tiny, huge, missing and absent days, any date range), all methods, '
  'cascade statistics, levels, seasons and shifts',
  'The suite sums one station-year at 51N with typical rain for one cascade set-up; gaps, missing days, single wet '
  'days, extreme amounts, other levels and level-specific statistics are never summed.',
  ['precipitation.py', 'station.py', 'util/util.py'],
  [('cascade redistribution of daily volume', 'precipitation.py:disagg_prec_cascade'),
   ('master-station scaling', 'precipitation.py:precip_master_station'),
   ('equal distribution', 'util/util.py:distribute_equally')],
  'precipitation series returned by the functions and stored in Station.data_disagg')

p('C02', 'The cascade splits every wet interval as its statistics prescribe',
  'When the cascade halves an interval, a dry interval stays dry and a wet one puts everything in the second half, '
  'everything in the first half, or splits it at the centre of one of seven equal weight classes. Outcome and class are '
  'drawn independently for each interval with the probabilities the statistics give for its branching level, '
  'its position (starting, enclosed, ending or isolated with respect to wet neighbours) and its volume class '
  '(above or not above that level\'s threshold). The finest intervals are then added up to hourly (spread evenly over '
  'the quarter hours they cover) or 5-minute (by starting time) amounts.',
  ['inputs', 'configurations', 'histories'],
  'all daily series, probability tables (including degenerate ones), thresholds, averaged and level-specific '
  'statistics, hourly and 5-minute branching to 9, 10 or 11 levels, all random states',
  'Random output has no expected value to compare with, so the tests look at sums only; choosing the wrong table '
  'cell, level or weight keeps every sum intact.',
  ['precipitation.py', 'cascade.py'],
  [('branching loop', 'precipitation.py:disagg_prec_cascade'), ('box types', 'cascade.py:BoxTypes')],
  'per-level arrays and final series of the cascade, frequencies over many draws')

p('C03', 'Cascade calibration reproduces the observed branching frequencies',
  'The cascade statistics derived from observations are, for each aggregation level, position and volume class, the '
  'fractions of wet intervals whose rain fell only in the second, only in the first or in both halves, and the '
  'distribution of the first half\'s share over seven equal classes; the volume threshold is the requested percentile of '
  'the wet interval volumes of that level. Averaged statistics are the mean over the levels weighted by the number of '
  'intervals, missing observations count as dry, and every set of probabilities sums to one. A level with an '
  'unobserved class falls back to the built-in sample statistics and an unobserved weight distribution to the uniform one.',
  ['inputs', 'configurations'],
  'all hourly and 5-minute precipitation records with rain at every level, any season definition, percentile and '
  'averaging mode',
  'The suite compares a single data set with a stored result; positions, ties at the threshold, missing values and '
  'unobserved classes do not occur in it separately.',
  ['precipitation.py', 'cascade.py'],
  [('aggregation statistics', 'precipitation.py:aggregate_precipitation'),
   ('seasons, levels and averaging', 'precipitation.py:build_casc')],
  'statistics objects returned by the calibration')

p('C04', 'Seasonal cascade statistics apply to the days of their own months',
  'A station with seasonal cascade statistics disaggregates each day with the statistics of the season containing its '
  'month, the wet neighbours of an interval being those of the chronological series of that season\'s days. Days in '
  'months of no season, and seasons contributing a single day, stay missing. A shift moves the complete hourly '
  'series by that number of hours, including across season boundaries, filling with missing values at the end that is '
  'opened, and changes nothing else.',
  ['inputs', 'configurations'],
  'all date ranges, season partitions (including ones wrapping the year end or incomplete ones), positive and negative shifts',
  'The suite has one season definition over one year and never shifts.',
  ['station.py', 'precipitation.py'],
  [('season loop and shift', 'station.py:Station.disaggregate_precipitation'),
   ('season selection', 'precipitation.py:seasonal_subset')],
  'Station.data_disagg.precip')

p('C05', 'Master-station disaggregation transfers the master\'s hourly pattern',
  'With a master station, each hour of a day receives the share of the daily total that the master recorded in that '
  'hour of that same day; hours missing at the master stay missing. If the master recorded no rain on a day, the total is '
  'spread uniformly over its 24 hours under the uniform option (and set to zero otherwise).',
  ['inputs', 'configurations'],
  'all daily series and master records covering them (longer records, dry days, missing hours, other dates around)',
  'The suite does not exercise master-station disaggregation.',
  ['precipitation.py', 'station.py'],
  [('relative hourly pattern', 'precipitation.py:precip_master_station')],
  'returned hourly series')

p('C06', 'Temperature disaggregation preserves the quantities each method promises',
  'Sine methods fixing minimum and maximum reproduce a day\'s maximum at the hour of the maximum and its minimum before that hour, and '
  'never leave the range spanned by the minima and maxima of the day and its two neighbours; the mean-course variant reproduces both extremes '
  'within the day. Methods fixing the mean reproduce each day\'s mean and its daily temperature range. This holds outside polar night for every day whose '
  'own and neighbouring values are known and whose hour of the maximum is noon or later and after the hour of the minimum.',
  ['inputs', 'configurations'],
  'all daily temperatures (including zero range, freezing point, jumps between days), locations, dates, time-of-extreme options, '
  'monthly shifts, mean courses and both night-time modes',
  'The suite compares one mid-latitude year with stored or aggregate values; other places, seasons, short series and missing '
  'neighbours are not visited.',
  ['temperature.py', 'station.py'],
  [('sine and mean-course methods', 'temperature.py:disaggregate_temperature')],
  'hourly temperature series')

p('C07', 'Hourly temperature follows the selected diurnal course and timing',
  'The sine methods follow a cosine that peaks at the hour of the maximum (14:00, or solar noon plus two hours, or solar noon plus '
  'the calibrated shift of the month, rounded; falling back to plus two hours if that would precede the minimum), using the '
  'previous day\'s maximum before the hour of the minimum (07:00 or rounded sunrise) and the next day\'s minimum '
  'from the hour of the maximum on. With the night-time option the course reaches the minimum at the hour of the minimum and runs to the maximum '
  'along the steeper daytime branch. The mean-course methods scale the course of the day\'s month, with the first and last day using their own values as neighbours throughout.',
  ['inputs', 'configurations'],
  'all daily temperature frames, sun times, monthly shifts, mean courses and method options',
  'Tests assert sums, extremes or one stored series, none of which determines the hour-by-hour course for other '
  'sunrise times, months or shifts.',
  ['temperature.py'],
  [('time of extremes and course', 'temperature.py:disaggregate_temperature')],
  'hourly temperature series')

p('C08', 'Polar-night temperatures are bridged linearly between the daily extremes',
  'On days with less than three hours of daylight the sine methods place the two daily extremes at 06:00 and 18:00, the '
  'minimum first unless the mean of the extremes falls below that of the day before, and connect them linearly from hour to hour. '
  'The bridge starts at the maximum hour of the last normal day before the polar night and ends at the minimum hour of the first normal day after it; '
  'only hours before the first 06:00 of a series that begins in polar night stay missing.',
  ['inputs', 'configurations'],
  'complete daily temperature series at high latitudes of both hemispheres, any length and transition pattern',
  'The suite only uses a site at 51N, where polar night does not occur.',
  ['temperature.py'],
  [('polar night branch', 'temperature.py:disaggregate_temperature')],
  'hourly temperature series')

p('C09', 'Relative humidity stays between 0 and 100 percent and can keep its mean',
  'Every disaggregated relative humidity is missing or lies between 0 and 100, for every method and any input. With the '
  'mean-preserving option, the daily mean equals the given daily mean on each day where no hour had to be limited to that range and all hours '
  'are defined; a missing daily mean leaves the uncorrected course. The equal method repeats the daily value.',
  ['inputs', 'configurations'],
  'all daily frames, hourly temperatures, methods, regression parameters and correction settings',
  'Range and mean are only checked on one calm data set where limits are hardly reached.',
  ['humidity.py', 'station.py'],
  [('limits and bias correction', 'humidity.py:disaggregate_humidity')],
  'hourly humidity series')

p('C10', 'Humidity methods follow their dew-point, range or climatological model',
  'The dew-point methods yield the ratio of saturation vapour pressure at the dew point to that at the hourly temperature, the dew point '
  'being the daily minimum temperature, its calibrated linear function, or that function running linearly to the next day\'s value '
  'plus the prescribed daily oscillation. The range method maps the daily temperature range linearly onto the daily humidity range, maximum '
  'humidity at minimum temperature. The climatological method returns the calibrated mean for the month, the hour and whether '
  'the day had precipitation; all are then limited to 0-100.',
  ['inputs', 'configurations'],
  'all daily frames with distinct minimum and maximum temperature, all hourly temperatures, parameters and calibrated tables',
  'Tests check ranges or an aggregated error on one year; a wrong day, hour or branch keeps those within limits.',
  ['humidity.py', 'util/util.py'],
  [('humidity models', 'humidity.py:disaggregate_humidity'), ('vapour pressure', 'util/util.py:vapor_pressure')],
  'hourly humidity series')

p('C11', 'Disaggregated wind speed scales with the daily mean as the method states',
  'The equal method repeats the daily mean. The cosine method multiplies it, hour by hour, with the calibrated offset plus amplitude times a '
  '24-hour cosine at the calibrated phase, and the random method with independent non-negative factors of the prescribed exponential '
  'family (the 0.3rd power of a standard exponential variate). A day with zero wind yields zeros and a missing day missing values.',
  ['inputs', 'configurations', 'histories'],
  'all daily wind series, cosine parameters and random states',
  'Only one year with fitted parameters is tested, the random factors not at all.',
  ['wind.py', 'station.py'],
  [('wind methods', 'wind.py:disaggregate_wind')],
  'hourly wind series')

p('C12', 'Disaggregated radiation keeps the daily mean and the clear-sky shape',
  'Hourly global radiation is never negative, is proportional within a day to the potential radiation (or to the month\'s mean course), '
  'and therefore zero whenever that is zero. Its daily mean equals the given daily mean on days with any potential radiation, '
  'apart from hourly values below 0.01 being set to zero. Days without potential radiation get zero if the daily value is known, and '
  'days with a missing daily value stay missing.',
  ['inputs', 'configurations'],
  'all daily radiation series, locations including polar regions, supplied or computed potential radiation, mean courses',
  'Only one mid-latitude year is tested, without polar night, supplied radiation or gaps.',
  ['radiation.py', 'station.py'],
  [('scaling of potential radiation', 'radiation.py:disaggregate_radiation')],
  'hourly radiation series')

p('C13', 'Radiation derived from sunshine or temperature range follows its model',
  'Daily radiation derived from sunshine duration is potential radiation times (a + b times the sunshine fraction of the day '
  'length); derived from temperature range it is potential radiation times A(1 - exp(-B dT^C)), dT being the maximum minus the mean of the '
  'day\'s and next day\'s minimum (not below zero) and B = 0.036 exp(-0.154 times the monthly mean dT). Parameters may be constant or given per '
  'month, in which case each day uses those of its own month. The hourly values of these methods preserve that daily radiation.',
  ['inputs', 'configurations'],
  'all sunshine, temperature and potential-radiation series, constant and monthly parameters, missing values',
  'The tests use constant default parameters for one year and check aggregate sizes only.',
  ['radiation.py', 'station.py'],
  [('sunshine model', 'radiation.py:angstroem'), ('temperature-range model', 'radiation.py:bristow_campbell')],
  'returned daily series and hourly disaggregation')

p('C14', 'Potential radiation agrees with the position of the sun',
  'Potential radiation is never negative and is zero whenever the sun is below the horizon at that place, date and solar time. On flat ground '
  'under clear sky it is the eccentricity-corrected solar constant times the cosine of the zenith angle times a transmissivity of 0.6 plus 0.2 '
  'times that cosine; clouds shift it from the direct to the diffuse part and slopes change only the direct part, through the incidence angle. Total equals direct plus diffuse, and '
  'each instant is computed independently of the other instants requested.',
  ['inputs', 'configurations'],
  'all instants (any minute, leap days, any year), longitudes, latitudes, time zones, slopes, aspects and cloud fractions',
  'The tests never compare potential radiation with a known value and never use slopes, clouds or other places.',
  ['radiation.py'],
  [('solar geometry and transmissivity', 'radiation.py:potential_radiation')],
  'returned potential radiation')

p('C15', 'Sun times describe sunrise, noon, sunset and day length of the place',
  'For each day, solar noon is local clock noon corrected for the longitude difference to the time zone\'s meridian (the short way round '
  'the globe) and the equation of time; sunrise and sunset lie symmetrically around it at half the day length given by latitude and declination. Day length is between 0 and 24 hours, '
  '0 in polar night and 24 under midnight sun, and clock times passing midnight are wrapped by 24 hours.',
  ['inputs', 'configurations'],
  'all dates, longitudes, latitudes and time zones including fractional zones and places near the date line and the poles',
  'Sun times are only used indirectly in the tests, for one place.',
  ['util/util.py', 'station.py'],
  [('sun times', 'util/util.py:get_sun_times')],
  'returned table and Station.sun_times')

p('C16', 'Results cover exactly the sub-daily steps of the given days',
  'Every hourly result has, for each day of the daily input and in chronological order, exactly its 24 hours from 00:00 to 23:00 and nothing else; '
  '5-minute results have exactly 288 steps per day. Days absent from the input are absent from the result of the functions, while a station '
  'first completes an irregular record so that absent days appear as missing. Leap days, year ends and month ends make no difference.',
  ['inputs', 'configurations'],
  'all daily indexes (gaps, single days, leap years, several years, dates before 1970), all variables and methods',
  'The suite uses complete calendar years only.',
  ['util/util.py', 'precipitation.py', 'station.py'],
  [('hourly index', 'util/util.py:hourly_index'), ('5-minute index', 'precipitation.py:fmin_index, sub_level_index'),
   ('record completion', 'station.py:Station.data_daily')],
  'indexes of all results')

p('C17', 'A daily value influences only its own day and its direct neighbours',
  'Changing or removing a daily value changes hourly results only on that day, except that minimum and maximum temperature may also influence the '
  'day before and after outside polar night. A missing daily value makes hours missing on these days only; every other hour keeps its value. '
  'Excepted are the random methods and the temperature-range radiation model.',
  ['inputs', 'configurations'],
  'all deterministic methods and variables, all positions of a changed or missing value (first, last, month and year ends)',
  'Tests run each method once on complete data, so leakage between days cannot show.',
  ['temperature.py', 'humidity.py', 'wind.py', 'radiation.py', 'precipitation.py', 'util/util.py'],
  [('repetition of daily values', 'util/util.py:distribute_equally'),
   ('neighbour handling', 'temperature.py:disaggregate_temperature')],
  'pairs of runs differing in one daily value')

p('C18', 'Aggregating hourly data to daily values follows each variable\'s meaning',
  'Daily values derived from hourly data are means for temperature, humidity, wind and radiation, minimum and maximum for temperature and humidity, '
  'sums for precipitation and sums converted from minutes to hours for sunshine, each from the hours of that calendar day only. Missing hours are '
  'ignored, a day without any value is missing (zero for sums), and only variables present in the input appear.',
  ['inputs', 'configurations'],
  'all hourly frames (any subset of variables, missing hours, partial days, gaps, leap days)',
  'Tests only use the aggregation to prepare complete input data.',
  ['util/util.py'],
  [('daily aggregation', 'util/util.py:daily_from_hourly')],
  'returned daily frame')

p('C19', 'Saving and loading statistics reproduces them and their results',
  'Statistics written to a JSON file and read back equal the original (numbers to at least nine decimals), whichever subset has been '
  'calibrated, for averaged, level-specific and seasonal precipitation statistics and for records not covering all months. A station using the '
  'loaded statistics produces the same hourly results as with the original ones, given the same random state.',
  ['inputs', 'configurations', 'histories'],
  'all calibrations (any subset of variables, season definitions, radiation modes, covered months), repeated round trips',
  'One round trip of one full calibration is compared in the tests.',
  ['stationstatistics.py', 'cascade.py'],
  [('JSON export and import', 'stationstatistics.py:StationStatistics.to_json, from_json'),
   ('cascade statistics from dict', 'cascade.py:CascadeStatistics.from_dict')],
  'loaded statistics and results computed with them')

p('C20', 'Operations leave their inputs and unrelated results untouched',
  'No calibration, disaggregation, aggregation or export changes the data passed to it, including index names, columns and metadata. '
  'A station keeps its own copy of the daily data, and disaggregating one variable changes only that variable\'s hourly results, never the daily data, the '
  'other hourly results or the statistics. Calibrating one variable changes only that variable\'s statistics, and nothing done to one station or its statistics '
  'changes another one or the defaults of new ones.',
  ['inputs', 'configurations', 'histories'],
  'all public operations, all frames (with index names, extra columns), all orders of operations',
  'Tests look at return values and not at what happened to the arguments.',
  ['station.py', 'stationstatistics.py', 'precipitation.py', 'humidity.py', 'temperature.py', 'radiation.py', 'wind.py', 'data_io.py', 'util/util.py'],
  [('station results and copies', 'station.py:Station'), ('calibration', 'stationstatistics.py:StationStatistics')],
  'snapshots of all arguments and of the station before and after each call')

p('C21', 'Equal inputs give equal results, whatever was computed before',
  'The result of an operation depends only on its arguments, the current state of the station and, for the random methods, the state of NumPy\'s '
  'global random generator. Repeating it, or doing other work on this or other stations before, does not change it; without reseeding, random methods '
  'yield a new realisation each time, and deterministic methods do not consume random numbers.',
  ['inputs', 'configurations', 'histories'],
  'all sequences of operations on several stations, all random seeds',
  'Each test runs one operation once in a fresh set-up.',
  ['station.py', 'precipitation.py', 'wind.py', 'temperature.py', 'humidity.py', 'radiation.py', 'stationstatistics.py'],
  [('random draws', 'precipitation.py:disagg_prec_cascade, wind.py:disaggregate_wind'), ('station state', 'station.py:Station')],
  'recorded history of calls with digests of arguments, random state and results')

p('C22', 'Gap detection counts gaps and incomplete days are cut off cleanly',
  'The number of reported gaps is the number of consecutive time stamps whose distance differs from the given time step. Truncation to full days removes '
  'exactly the rows before the first row at the first hour of the day and after the last row at the last hour of the day (both moved by the shift), '
  'so that a result starts and ends with complete days, and keeps all other rows unchanged.',
  ['inputs', 'configurations'],
  'all hourly, daily and sub-hourly frames with gaps, any start and end, all shifts; frames containing at least one day start and one later day end',
  'Neither function is covered by the suite.',
  ['util/util.py'],
  [('gap count', 'util/util.py:detect_gaps'), ('truncation', 'util/util.py:drop_incomplete_days')],
  'returned count and frame')

p('C23', 'SMET files reproduce the data that was written to them',
  'Data written to a SMET file and read back in the same mode has the same time stamps and, to two decimals, the same values under the same names, with '
  'missing values staying missing for any no-data value; columns without data may be omitted on request. The file itself holds the values under the SMET names of the '
  'variables (such as TA, PSUM and RH). Header entries passed in come back as text and the unit multipliers of a file are applied to its columns.',
  ['inputs', 'configurations'],
  'all daily and hourly frames with any subset and order of the known variables, metadata and no-data values',
  'The suite has no test that reads back a written file.',
  ['data_io.py'],
  [('SMET writer and reader', 'data_io.py:write_smet, read_smet')],
  'file contents and read data')

p('C24', 'DWD and KNMI files are read with right time stamps, units and columns',
  'Reading DWD station files yields one row per record at its time stamp, known variables under their own names, temperatures in Kelvin, -999 as missing, with several '
  'hourly files joined on time and the closing line skipped on request. Reading KNMI hourly files yields temperature in Kelvin, precipitation in mm, radiation in W/m2, wind in m/s and sunshine in minutes, trace marks being zero, '
  'stamped with date plus hour; a directory of files is merged chronologically.',
  ['inputs', 'configurations'],
  'all well-formed DWD daily and hourly and KNMI hourly files, file sets and their order',
  'There are no sample files in the repository, so the readers are not tested.',
  ['data_io.py'],
  [('DWD reader', 'data_io.py:read_dwd'), ('KNMI reader', 'data_io.py:read_single_knmi_file, read_knmi_dataset')],
  'returned frames')

p('C25', 'Interpolation passes through the fixed-hour measurements',
  'Interpolating measurements taken at fixed hours yields an hourly series over the days of the station that equals each known measurement at its day and hour. '
  'With the linear method the values between two measurements lie on the straight line connecting them, at most the given number of hours away from a measurement being filled.',
  ['inputs', 'configurations'],
  'all daily frames with measurement columns, any set of hours, missing measurements, methods and limits',
  'The suite does not call the interpolation.',
  ['station.py', 'util/util.py'],
  [('hourly placement', 'util/util.py:prepare_interpolation_data'), ('interpolation', 'station.py:Station.interpolate')],
  'returned hourly series')

p('C26', 'Calibrated daily courses are the means of the matching observations',
  'The mean daily course gives, for each month and hour, the mean of the observations of that month and hour (scaled per month to 0-1 if normalised). The calibrated time '
  'shift of a month is the mean over its days of the hour of the first temperature maximum minus solar noon, and the calibrated humidity of a month, hour and wet/dry class is the mean of the '
  'humidity observed in that month and hour on days with or without rain. Missing observations are ignored.',
  ['inputs', 'configurations'],
  'all hourly observation records (several years, partial months, gaps, missing values) and locations',
  'Calibration results are not compared with anything in the tests except on a stored year.',
  ['util/util.py', 'temperature.py', 'humidity.py', 'stationstatistics.py'],
  [('mean courses', 'util/util.py:calculate_mean_daily_course_by_month'), ('maximum shift', 'temperature.py:get_shift_by_data'),
   ('humidity classes', 'humidity.py:calculate_month_hour_precip_mean')],
  'calibrated statistics')

p('C27', 'Fitted parameters are optimal for the calibration data',
  'The dew-point regression, the wind cosine and the sunshine model parameters are least-squares optimal for the observations (daily mean dew point on daily minimum temperature; hourly wind on daily mean and hour; daily '
  'radiation on potential radiation and sunshine fraction), so parameters that generated the data are recovered. The temperature-range model parameters leave no larger mean bias than the '
  'default ones. For all-year, seasonal and monthly radiation calibration each month gets the parameters fitted to its own group of months.',
  ['inputs', 'configurations'],
  'all observation records with enough variation, missing values, all radiation grouping modes',
  'Tests use fitted parameters only as a step towards disaggregation of the same year.',
  ['humidity.py', 'wind.py', 'radiation.py', 'stationstatistics.py', 'util/util.py'],
  [('regression', 'humidity.py:calculate_dewpoint_regression'), ('cosine fit', 'wind.py:fit_cosine_function'),
   ('radiation fits', 'radiation.py:fit_angstroem_params, fit_bristow_campbell_params'),
   ('grouping', 'stationstatistics.py:StationStatistics.calc_radiation_stats')],
  'calibrated statistics')

p('C28', 'Vapour pressure and dew point follow the Magnus formulas over water and ice',
  'Vapour pressure is the saturation value of the Magnus formula (over water from 273.15 K upwards, over ice below) times relative humidity, elementwise and for scalar '
  'or elementwise humidity. The dew point reproduces that vapour pressure with the formula of the same phase, so it equals the temperature at 100 percent, never exceeds it below, and '
  'rises with humidity. Missing values stay missing and do not affect other elements.',
  ['inputs'],
  'all temperatures between 200 K and 340 K including the freezing point, all humidities, arrays and series of any length',
  'The suite does not call these functions directly.',
  ['util/util.py'],
  [('Magnus formulas', 'util/util.py:vapor_pressure, dewpoint_temperature')],
  'returned values')

p('C29', 'Invalid requests are refused instead of silently producing results',
  'Unknown disaggregation methods, extreme-time options or calibration groupings, missing calibration for a method that needs it, and cascade statistics of the wrong kind or number raise an error. So do daily data that are not sorted daily records or hold minimum or '
  'maximum temperatures below 200 K, and calibration data that are not hourly. A refused request leaves the station\'s daily data, hourly results and statistics as they were.',
  ['inputs', 'configurations'],
  'all public operations with invalid option values, data frames or calibration states',
  'The tests only use valid requests.',
  ['station.py', 'stationstatistics.py', 'precipitation.py', 'humidity.py', 'temperature.py', 'radiation.py', 'wind.py', 'cascade.py'],
  [('daily data validation', 'station.py:Station.data_daily'), ('option checks', 'wind.py, humidity.py, temperature.py, radiation.py, precipitation.py')],
  'raised errors and station state')

p('C30', 'A station\'s results reflect its current data, place and calibration',
  'Hourly results stored by a station are the ones the disaggregation functions give for the station\'s present daily data, location, time zone and statistics, also after any of these was '
  'replaced. Assigning new daily data resets all hourly results, statistics assigned to a station take over its location, and sun times always belong to the present data and place. '
  'Calibrating uses the present observations and place and replaces the parameters calibrated before.',
  ['inputs', 'configurations', 'histories'],
  'all sequences of assigning data, location, time zone and statistics, calibrating and disaggregating, all methods',
  'The tests configure a station once and never change it.',
  ['station.py', 'stationstatistics.py'],
  [('station properties', 'station.py:Station')],
  'Station.data_disagg, Station.sun_times and calibrated statistics')

p('C31', 'Copies of stations and statistics are equal, usable and independent',
  'A deep copy of a station or of its statistics, or one restored from a pickle, has the same data, place, calibration and results as the original, and the same further operations '
  '(assigning, calibrating, disaggregating, with the same random state) give the same results. Nothing done to one of them changes the other. Cascade statistics compare equal exactly '
  'if all their probabilities, weights, thresholds and the percentile agree.',
  ['inputs', 'histories'],
  'all stations and statistics in any state of calibration, copied at any time, all later operations on either',
  'The tests never copy a station or statistics.',
  ['util/bunch.py', 'station.py', 'stationstatistics.py', 'cascade.py'],
  [('parameter sets', 'util/bunch.py:Bunch'), ('equality', 'cascade.py:CascadeStatistics.__eq__')],
  'public state of original and copy')

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + '\n')
import re
for d in P:
    n = len(re.findall(r'[.](\s|$)', d['statement']))
    if n > 3:
        print('sentences', d['id'], n)
print(len(P))
