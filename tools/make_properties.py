"""Writes /verif/properties.jsonl (the text of the properties lives here, one entry each)."""
import json
import os

CAL, HELP, FET, FIND, STAT, CONF, UTIL = (
    'pyowc/calibration.py', 'pyowc/helper.py', 'pyowc/data/fetchers.py', 'pyowc/core/finders.py',
    'pyowc/core/stats.py', 'pyowc/configuration.py', 'pyowc/utilities.py')
WRA, DASH, PLOTS = 'pyowc/data/wrangling.py', 'pyowc/plot/dashboard.py', 'pyowc/plot/plots.py'
P = []


def prop(pid, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({
        'id': pid, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {'files': files,
                    'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
                    'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
                    'observe_at': list(observe), 'hook_needed': hook}})


prop('C01', 'Mapping a float in instalments gives what one mapping run gives',
     'However the profiles of a float become available - any grouping over successive mapping runs, any order of '
     'arrival, deeper profiles appearing later, runs which fail or are killed and are repeated - the saved mapping '
     'ends up holding the same profile numbers, mapped salinities, errors, noise and signal variances, potential '
     'temperatures and per-profile settings as a single run over all the profiles.  When profiles arrive in '
     'ascending order the list of selected historical points is the same too.',
     ['histories', 'crash_points', 'fault_sequences'],
     'All sequences of source deliveries and mapping runs (in one process or restarted), with and without failed, '
     'killed or interrupted runs in between, over random floats, climatologies and settings.',
     'The suite maps one float once from scratch and once with a complete file; no test adds profiles to an existing '
     'mapping (it crashed at the pinned commit), changes arrival order, or interrupts a run.',
     [CAL, HELP],
     [('missing-profile search and append loop', CAL + ': update_salinity_mapping'),
      ('loading and extending the stored matrices', HELP + ': load_varibales_from_file'),
      ('sort by profile number', HELP + ': sort_numpy_array'),
      ('accumulated selected points', HELP + ': selected_historical_points')],
     [('map_<float>.mat', 'stored mapping, one column per profile', CAL)],
     ['map_<float>.mat after each run'])

prop('C02', 'A later mapping run never alters what earlier runs stored',
     'Once a profile is mapped, later mapping runs leave its stored values and the settings recorded for it exactly '
     'as they were, even if the configuration, the climatology or the depth of newer profiles has changed since.  A '
     'run without new profiles leaves all profiles, columns, settings and selected points of the mapping unchanged, '
     'and no earlier profile or selected historical point ever disappears.',
     ['histories', 'configurations', 'fault_sequences'],
     'All sequences of mapping runs with configuration changes, climatology replacements, source growth, restarts '
     'and failing runs between them.',
     'The tests never run the mapping twice on the same file with something changed in between.',
     [CAL, HELP],
     [('only missing profiles are mapped', CAL + ': update_salinity_mapping'),
      ('padding of stored matrices with NaN rows', HELP + ': load_varibales_from_file'),
      ('per-profile settings lists', CAL + ': update_salinity_mapping')],
     [('map_<float>.mat', 'columns and settings by profile', CAL)], ['map_<float>.mat after each run'])

prop('C03', 'Every mapped column is the estimate for the profile it is stored under',
     'After any history of mapping runs, the mapping lists each profile number of the float exactly once, in '
     'ascending order, and the column stored for a number holds the objective estimate, its error, the signal and '
     'noise variance and the potential temperature computed from that profile, the settings in force and the '
     'climatology readable when it was mapped.  Profiles without a position or without pressures, and levels that '
     'cannot be mapped, are undefined rather than filled with anything else.',
     ['histories', 'inputs', 'fault_sequences'],
     'All histories of deliveries (profile numbers in any order, bad profiles among good ones) and runs, over '
     'random climatologies, settings and transient read faults.',
     'The suite compares one mapping with stored numbers (and that comparison already fails on this tree); column '
     'placement after growth, bad profiles and reordering is not exercised.',
     [CAL, HELP, FET, FIND, WRA, STAT],
     [('column index of the profile being mapped', CAL + ': update_salinity_mapping'),
      ('selection of historical casts', FIND + ': find_besthist'),
      ('objective mapping', WRA + ': map_data_grid'),
      ('variances', STAT + ': signal_variance, noise_variance')],
     [('la_profile_no, la_mapped_sal, la_mapsalerrors, la_ptmp, la_noise_sal, la_signal_sal', 'stored mapping', CAL)],
     ['map_<float>.mat after each run'])

prop('C04', 'A crash at any instant leaves every result file whole: old or new',
     'If the process is killed, or the machine loses power, at any moment of a mapping, calibration-settings or '
     'calibration run, each result file of the float afterwards holds either exactly its previous content (or does '
     'not exist, if it did not) or exactly its complete new content, and any reader sees one of the two at every '
     'moment of the run.  Repeating the run after the restart succeeds and gives the result of an undisturbed run.',
     ['crash_points', 'fault_sequences'],
     'Every file-system operation of the three kinds of run as crash point, process kill or power loss with '
     'unsynced data and unsynced directory changes lost in any legal way, with or without a previous result.',
     'No test kills a run; the tests only see files after an orderly end.',
     [UTIL, CAL, CONF],
     [('write beside, sync, rename over', UTIL + ': savemat'),
      ('saving of the mapping and of the calibration', CAL),
      ('saving of the settings', CONF + ': set_calseries')],
     [('map_, calseries_, cal_<float>.mat', 'durable results', CAL)],
     ['result files after every simulated file-system operation and after restart'])

prop('C05', 'Storage errors surface, damage nothing, and a retry succeeds',
     'When opening, reading, writing, syncing, renaming or closing a float or result file fails (input/output '
     'error, full disk, no permission, short transfer), the run either raises an error or produces exactly the '
     'result of an undisturbed run; it never reports success with anything else.  Earlier results of this and all '
     'other floats stay intact, no partial or temporary file is left after the error, and once the fault is over '
     'the same run, repeated in the same or a new process, gives the undisturbed result.',
     ['fault_sequences', 'histories'],
     'Every file-system operation on sources, settings and results as point of failure, single or persisting '
     'faults, for the mapping, settings and calibration runs, followed by a retry.',
     'No test makes an operation fail; the only negative tests pass missing files.',
     [UTIL, CAL, CONF, HELP],
     [('clean-up and re-raise', UTIL + ': savemat'),
      ('only a missing settings file means new settings', CONF + ': set_calseries'),
      ('only a missing mapping file means a new mapping', HELP + ': load_varibales_from_file')],
     [('map_, calseries_, cal_<float>.mat', 'durable results', CAL)],
     ['exception or return of each run', 'directory contents', 'result files'])

prop('C06', 'Trouble while reading reference data never yields a different mapping',
     'If reading a historical box, the topography or the box table fails, returns less than asked, finds a '
     'truncated file, runs out of memory, or is interrupted by the operator, the mapping run either ends with an '
     'error without storing anything, or stores exactly the undisturbed result; it never goes on with part of the '
     'reference data.  The same process can then repeat the run and obtains the undisturbed result.',
     ['fault_sequences', 'crash_points'],
     'Every read, open or stat of the reference data and every executed line of the mapping code as point of '
     'failure (error, short read, truncation, out of memory, interrupt), followed by a retry in the same process.',
     'Tests read intact files; error paths in the readers were bare "except: pass" and no test could tell.',
     [FET, HELP, CAL],
     [('only a missing box file is skipped', FET + ': get_region_hist_locations, get_region_data'),
      ('cached readers', FET + ': read_mat_ctd, read_mat_bottle, read_mat_argo'),
      ('topography decoder', FET + ': get_topo_grid')],
     [('cached boxes', 'per-process cache of box files', FET)], ['exception or stored mapping'])

prop('C07', 'Historical casts keep their own data, position, date and depth',
     'Whatever mixture of historical boxes a mapping meets - missing files, single stations, single levels, '
     'transposed bottle data, empty or unusable casts, casts deeper than the float, boxes appearing, vanishing or '
     'being replaced between runs, memory of boxes already read being reused or discarded - each cast taken from '
     'them enters the mapping with its own measurements, position, date and ocean depth.  No cast is used twice for '
     'a profile, every selected historical point is the position of a cast in the boxes around the profile, and every '
     'cast used lies within a sixtieth of a degree of a selected point, while no two of these points are that close.',
     ['inputs', 'histories', 'fault_sequences'],
     'All box layouts and all histories of box files changing between processes, over sessions long enough to '
     'evict cached boxes.',
     'Tests use the shipped boxes, which are all well-formed and always present; positional pairing between two '
     'passes over the boxes is checked nowhere.',
     [FET, FIND, CAL, HELP],
     [('station index over the concatenated boxes', FET + ': get_region_data'),
      ('removal of empty casts', FET + ': get_region_data'),
      ('depth of the selected casts', HELP + ': depth_of_casts')],
     [('index of selected casts', 'position in the concatenation of all boxes', CAL)],
     ['data handed out for selected casts', 'map_<float>.mat'])

prop('C08', 'A float is never mapped against its own profiles',
     'When a float is mapped, profiles recorded under its own name in the historical Argo data take no part, and '
     'those of every other float do, no matter which floats were mapped before in the same process, in which order, '
     'or whether earlier runs failed.',
     ['histories', 'fault_sequences'],
     'All orders of mapping several floats which appear in each other\'s historical boxes, with failed runs among '
     'them.',
     'One test excludes one float once; exclusion happens inside a per-process cache, so it depends on history.',
     [FET, CAL],
     [('removal of own profiles', FET + ': read_mat_argo'), ('cache key holds the float name', FET + ': read_mat_argo')],
     [('cached Argo boxes', 'box content without one float', FET)], ['map_<float>.mat, selected points'])

prop('C09', 'Results do not depend on what the process did before',
     'Mapping, setting up and calibrating a float in a process that has already handled other floats, other '
     'configurations, failures or user code touching global numeric state gives exactly what a fresh process gives '
     'for it.  A run changes neither the configuration passed to it nor the results of other floats, and the '
     'default configuration handed out is always the pristine one.',
     ['histories'],
     'All sequences of runs (also failing ones), of changes by the user to configurations obtained earlier and to '
     'global numeric settings, before the run of interest.',
     'Every test calls one function on one float; module-level caches, globals and shared mutable defaults survive '
     'between calls and nothing compares with a fresh process.',
     [FET, STAT, CAL, CONF, HELP],
     [('cached readers return shared arrays', FET), ('fit state in module globals', STAT + ': fit_cond'),
      ('configuration factory', CONF + ': load')],
     [('module globals', 'fit variables, caches', STAT)], ['result files', 'configuration object after each run'])

prop('C10', 'Concurrent workers give the results of sequential work',
     'Any number of processes working at the same time on floats which share the climatology and the result '
     'directories - also two on the same float - leave, under every interleaving of their file operations, the '
     'results sequential runs leave, and none fails because of another.  A worker that is killed or hits an error '
     'affects no float but its own.',
     ['schedules', 'crash_points', 'fault_sequences'],
     'All interleavings, at the granularity of file operations, of 2-4 workers running mapping, settings and '
     'calibration, with one of them optionally killed or failing.',
     'The suite is sequential.',
     [UTIL, CAL, CONF, HELP],
     [('private temporary names and atomic replacement', UTIL + ': savemat'),
      ('per-float file names', CAL + ', ' + CONF)],
     [('shared directories', 'results of all floats', CAL)], ['result files at the end', 'exceptions of workers'])

prop('C11', 'Calibration settings survive re-runs, edits, growth and faults',
     'The settings file of a float lists every profile exactly once in ascending order; re-running the set-up keeps '
     'every flag, bound and break point an operator edited, gives a profile that is new the flag of the profile '
     'before it in the float\'s source, and flags profiles without usable data as excluded.  Running it again '
     'without changes changes nothing, and a file that cannot be read is an error and is never replaced by defaults.',
     ['histories', 'fault_sequences', 'crash_points'],
     'All sequences of set-up runs, operator edits, source growth, restarts, storage faults and crashes.',
     'Tests call the set-up on a missing or a complete file; growth of an existing file crashed at the pinned commit.',
     [CONF],
     [('load, extend, sort, exclude, save', CONF + ': set_calseries')],
     [('calseries_<float>.mat', 'flags, bounds and break points', CONF)], ['calseries_<float>.mat after each run'])

prop('C12', 'Calibration is applied consistently and keeps series apart',
     'In a saved calibration the calibrated conductivity of each profile is its potential conductivity times the '
     'factor fitted for the profile, the calibrated salinity follows from it, excluded profiles stay undefined, and '
     'the factor is constant for an offset, linear in profile number for a trend and piecewise linear with the '
     'reported or prescribed break points otherwise.  Factors of one series depend only on the profiles of that '
     'series, measurements outside the operator\'s bounds have no influence on them, a sensor offset or drift against '
     'the climatology is removed, and this holds through any history of growth, operator edits and repeated or failed '
     'runs.',
     ['histories', 'configurations', 'fault_sequences'],
     'All histories of growth, operator edits of series, break limits and bounds, re-mapping, re-calibration and '
     'failed runs.',
     'Tests calibrate one float with one setting and compare with stored values (failing on this tree).',
     [CAL, STAT, FIND],
     [('loop over series', CAL + ': calc_piecewisefit'), ('fit', STAT + ': fit_cond, brk_pt_fit'),
      ('choice of levels', FIND + ': find_10thetas')],
     [('cal_<float>.mat', 'calibration', CAL)], ['cal_<float>.mat after each run'])

prop('C13', 'Results are reproducible whatever the entropy around the run',
     'Repeating a mapping or a calibration on the same inputs gives the same mapped salinities, errors, selected '
     'points, calibrated salinities and factors whatever the state of the random number generators, the clock (also '
     'if it jumps backwards), the process number, the hash seed or the timing of the file system.',
     ['schedules', 'histories', 'inputs'],
     'All values of the seams for randomness, time, process identity and delays.',
     'Tests run once under one environment.',
     [FIND, CAL, STAT],
     [('seeded selection of random casts', FIND + ': find_besthist'),
      ('fit independent of the Monte Carlo error estimate', STAT + ': fit_cond'),
      ('elapsed time only printed', CAL + ': update_salinity_mapping')],
     [], ['result files'])

prop('C14', 'Ocean depths are those of the topography file or an error is raised',
     'The depths read for any window - also across the Greenwich meridian, the date line or near the poles - are '
     'those the topography file holds at these positions, however the operating system splits the reads.  A file '
     'that is too short, unreadable or fails half way raises an error, leaves no file open, and never yields '
     'invented depths.',
     ['inputs', 'fault_sequences'],
     'All windows and all patterns of short reads, read errors, seek errors and truncations.',
     'Tests read two windows from an intact file.',
     [FET, HELP],
     [('window arithmetic and decoder', FET + ': get_topo_grid'), ('interpolation', HELP + ': topo_interpolator')],
     [('tbase.int', 'topography', FET)], ['returned grid'])

prop('C15', 'Runs write only their own results and never touch inputs',
     'A mapping, settings, calibration or plotting run modifies, creates, renames or removes nothing except the '
     'results of the float it was asked for, below the configured result directories of that float; sources, '
     'climatology, constants and other floats\' results are only read.  This also holds while runs fail, are '
     'interrupted or killed.',
     ['histories', 'fault_sequences', 'crash_points', 'configurations'],
     'All histories of runs under faults, over layouts of result directories.',
     'No test looks at what else a run touches; mappings of floats in sub-directories used to be saved elsewhere.',
     [UTIL, CAL, CONF, DASH, PLOTS],
     [('output paths', CAL + ', ' + CONF + ', ' + PLOTS)],
     [('all files of the world', 'inputs and results', CAL)], ['every mutating file operation'])

prop('C16', 'Diagnostics of a float do not depend on what was plotted before',
     'The curves and points drawn in the diagnostic plots of a float are those of its present results and of this '
     'float only (track and selected points, theta-salinity curves, profiles, correction factors, salinity on theta '
     'levels within the bounds, anomalies), and are the same in a fresh process and after any number of plots of '
     'other floats, also failed ones.  Plotting writes exactly the expected picture files of this float, changes no '
     'result, and reports a failure to write a picture.',
     ['histories', 'fault_sequences'],
     'All sequences of plot runs of several floats in one process, with faults while pictures are written.',
     'Tests draw each plot once and check that a call returns.',
     [DASH, PLOTS],
     [('one figure for each plot', PLOTS), ('copies of the data', DASH + ': plot_diagnostics')],
     [('current figure', 'global state of the plotting library', PLOTS)], ['figures when they are saved', 'files'])

prop('C17', 'Source, mapping, settings and calibration pair by profile number',
     'Whatever order the source lists its profiles in, and whichever profiles the stages know (arrived late, '
     'withdrawn, not yet through a stage), each stage and the plots combine only data of the same profile number: '
     'the result for a profile is that of the same data in ascending order and in step.  What a stage does not have '
     'for a profile is undefined or reported as an error, and is never taken from another profile.',
     ['histories', 'configurations', 'inputs'],
     'All orders and sets of profiles in the source and all histories that leave the stages out of step.',
     'Every file of the tests lists the same profiles in ascending order.',
     [UTIL, CAL, CONF, DASH, PLOTS, HELP],
     [('order and columns by number', HELP + ': sort_profiles, columns_of_profiles'), ('settings', CONF),
      ('calibration', CAL), ('plots', DASH)],
     [('profile numbers', 'source, mapping and calibration files', CAL)], ['outcomes', 'saved files', 'drawn curves'])

prop('C18', 'A calibration is the weighted fit its data prescribe, with honest errors',
     'Through any history of growth, edits, repeated and failed runs, the factors of a calibrated series are the '
     'least-squares fit, weighted with the mapping errors, to the ratios of mapped and measured potential conductivity '
     'on the (at most ten) potential temperatures where salinity varies least among the usable levels of the series; '
     'profiles without usable data take no part, but are calibrated by the fit.  Whether an offset, a trend or break '
     'points are fitted is decided by the small-sample information criterion within the limits of the operator and with '
     'the effective number of degrees of freedom that the correlations between levels and profiles leave; a fit the data '
     'do not determine is left out, not fatal.  The errors of the factors follow from mapping errors and correlations, '
     'and those of the calibrated salinities and conductivities from them.',
     ['histories', 'inputs', 'configurations'],
     'All series, mappings, limits, bounds and scales, over all histories of runs, edits and failures.',
     'Tests fit a few fixed series and compare with values computed once; the choice depends on every value.',
     [CAL, STAT, FIND], [('levels used', FIND + ': find_10thetas'), ('correlations', STAT + ': build_cov, covarxy_pv'),
                         ('weights, criterion, errors', STAT + ': fit_cond, brk_pt_fit'), ('calibrated values', CAL)],
     [('factors, errors and break points', 'cal_<float>.mat', CAL)], ['saved calibrations'])

START = 'start_with_pycharm.py'
prop('C19', 'The starting script gives every float of its list what single runs give',
     'Started with a list of floats, the script leaves for each of them the mapping, settings, calibration and pictures '
     'which runs for that float alone give, whatever the number of processors, the order of the list, the results of '
     'earlier runs and the way in which its workers are scheduled.  If a float cannot be processed or something fails, '
     'the script ends with an error, and what is stored of every float is either what was there before or the whole '
     'result.  Started again once the cause is gone, it completes.',
     ['schedules', 'crash_points', 'histories', 'configurations'],
     'All lists of floats, numbers of processors, schedules of the workers and places of failures.',
     'No test runs the script; what it does depends on the machine and on the scheduling of its workers.',
     [START, CAL], [('workers', START), ('steps per float', CAL + ': update_salinity_mapping, calc_piecewisefit')],
     [('results', 'float_mapped, float_calib, float_plots', START)], ['start_with_pycharm.py'])

# ---- stated, and not decided by this technique (see MANIFEST not_applicable)
prop('N01', 'Covariances are symmetric, within [0, 1] and one at zero distance',
     'The correlation given to two positions is symmetric, lies between zero and one, is one for coincident points '
     'and does not increase when they are moved apart.',
     ['inputs'], 'All pairs of positions and scales.', 'Tests check a few pairs.',
     [STAT], [('covariances', STAT + ': covar_xyt_pv, covarxy_pv, build_cov')])
prop('N02', 'Interpolated climatology lies between the bracketing measurements',
     'A value interpolated to a float level lies between the two neighbouring measurements that bracket the '
     'potential temperature of the level, and is undefined when nothing brackets it.',
     ['inputs'], 'All casts and levels.', 'Tests use a handful of casts.',
     [WRA], [('interpolation', WRA + ': interp_climatology')])
prop('N03', 'The boxes searched are the 25 around the profile',
     'For every position the historical boxes consulted are the 5 by 5 boxes centred on it, wrapping around the '
     'globe in longitude and staying inside it in latitude.',
     ['inputs'], 'All positions.', 'Tests check three positions.',
     [FIND], [('lookup table', FIND + ': find_25boxes')])
prop('N04', 'Calendar dates convert monotonically to decimal years',
     'Later valid dates never convert to smaller decimal years and malformed dates convert to zero.',
     ['inputs'], 'All date stamps.', 'Tests check a few dates.',
     [UTIL], [('conversion', UTIL + ': cal2dec, change_dates')])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
