"""Documented defaults of the public operations: what a call means that leaves an argument out."""

DEFAULTS = {'disaggregate_wind': {'method': 'equal', 'a': None, 'b': None, 't_shift': None},
 'disaggregate_humidity': {'method': 'equal',
                           'temp': None,
                           'a0': None,
                           'a1': None,
                           'kr': None,
                           'month_hour_precip_mean': None,
                           'preserve_daily_mean': False},
 'calculate_dewpoint_regression': {'return_stats': False},
 'disaggregate_temperature': {'method': 'sine_min_max',
                              'min_max_time': 'fix',
                              'mod_nighttime': False,
                              'max_delta': None,
                              'mean_course': None,
                              'sun_times': None},
 'disagg_prec': {'method': 'equal', 'cascade_options': None, 'hourly_data_obs': None, 'zerodiv': 'uniform', 'shift': 0},
 'disagg_prec_cascade': {'hourly': True, 'level': 9, 'shift': 0, 'test': False},
 'aggregate_precipitation': {'hourly': True, 'percentile': 50},
 'seasonal_subset': {'months': 'all'},
 'build_casc': {'hourly': True, 'level': 9, 'months': None, 'avg_stats': True, 'percentile': 50},
 'sub_level_index': {'level': 9, 'fill_gaps': False},
 'fmin_index': {'fill_gaps': False},
 'disaggregate_radiation': {'sun_times': None,
                            'pot_rad': None,
                            'method': 'pot_rad',
                            'angstr_a': 0.25,
                            'angstr_b': 0.5,
                            'bristcamp_a': 0.75,
                            'bristcamp_c': 2.4,
                            'mean_course': None},
 'potential_radiation': {'terrain_slope': 0, 'terrain_slope_azimuth': 0, 'cloud_fraction': 0, 'split': False},
 'write_smet': {'nodata_value': -999, 'mode': 'h', 'check_nan': True},
 'read_dwd': {'mode': 'd', 'skip_last': True},
 'distribute_equally': {'divide': False},
 'hourly_index': {'fill_gaps': False},
 'linregress': {'return_stats': False},
 'detect_gaps': {'print_all': False, 'print_max': 5, 'verbose': True},
 'drop_incomplete_days': {'shift': 0},
 'calculate_mean_daily_course_by_month': {'normalize': False},
 'Station.disaggregate_wind': {'method': 'equal'},
 'Station.disaggregate_humidity': {'method': 'equal', 'preserve_daily_mean': False},
 'Station.disaggregate_temperature': {'method': 'sine_min_max', 'min_max_time': 'fix', 'mod_nighttime': False},
 'Station.disaggregate_precipitation': {'method': 'equal', 'zerodiv': 'uniform', 'shift': 0, 'master_precip': None},
 'Station.disaggregate_radiation': {'method': 'pot_rad', 'pot_rad': None},
 'Station.interpolate': {'method': 'linear', 'limit': 24, 'limit_direction': 'both'},
 'StationStatistics.calc_precipitation_stats': {'months': None, 'avg_stats': True, 'percentile': 50},
 'StationStatistics.calc_radiation_stats': {'data_daily': None, 'day_length': None, 'how': 'all'},
 'StationStatistics.to_json': {'filename': None}}
