import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=[observe],hook_needed=None)))
p('C01','Converted samples carry true GPS time, or the data are withheld',
 "Every sample written by a conversion carries the UTC time at which the logger really acquired it, within a few milliseconds (plus what the GPS fixes themselves can resolve), whatever the oscillator drift, counter phase and rollover, reboots, GPS duty cycle, dropouts, outlier fixes or GPS time steps. A file whose fixes cannot support that (no fixes, too few, spanning too little of the file, or with a time discontinuity) is withheld and reported, never emitted with wrong times. A requested time adjustment moves every sample time by exactly that amount.",
 ['fault_sequences','histories','inputs'],"all drift polynomials within oscillator tolerance, counter phases, rollover positions, reboots, GPS duty cycles, dropout / outlier / step faults, all raw format versions and file sequences",
 "Tests convert a few recorded cards whose true acquisition times are unknown; timing correctness over arbitrary drift, rollover phase and GPS faults needs ground truth and many fault sequences.",
 ['gemlog/core.py','gemlog/parsers.pyx'],[('GPS/clock regression','core.py: _calculate_drift, _robust_regress, _detect_step'),('counter unwrapping across rollover and files','core.py: _process_gemlog_data, _read_several'),('piecewise time assignment','core.py: _apply_segments, _interp_time')],
 "start times and sample grids of converted miniSEED files, read_gem()['data']")
p('C02','Waveforms equal the recorded pressure; gaps stay gaps',
 "The converted waveform equals the pressure the logger recorded, evaluated at the output sample times within interpolation and rounding error, in every raw format version and data-line encoding, and the physical scale factor matches the logger's gain setting. No sample is emitted where the logger recorded nothing (beyond a gap of a few sample intervals), and no recorded sample is lost except at the edges of a continuous stretch.",
 ['inputs','fault_sequences','configurations'],"all waveforms within the ADC range, all raw format versions and line encodings, all patterns of lost samples, overruns, missing files and reboots, both gains",
 "A value or gap error shows only for particular difference sizes, encodings, counter phases or gap positions; example recordings exercise one mixture and have no ground truth.",
 ['gemlog/core.py','gemlog/parsers.pyx'],[('line decoding','parsers.pyx: parse_gemfile'),('differencing/integration','core.py: _process_gemlog_data'),('gap detection and interpolation','core.py: _interp_time, _merge_gaps'),('scale','core.py: get_bitweight_info')],
 "sample values, trace boundaries and calibration of converted data")
p('C03','One bad raw file never costs another; every loss is reported',
 "When some raw files on a card are damaged, torn, empty, unreadable, missing or lack usable GPS, every undamaged file with adequate GPS is still converted in full and with unchanged values and times. Every data-bearing file of the requested logger that contributes nothing to the output is named in the problem report or in the error raised.",
 ['fault_sequences','histories','crash_points'],"all sequences of raw files with any subset damaged by any combination of the modelled card, power-loss and GPS faults, any file numbering and block size",
 "Isolation failures depend on which file of which read block is hit and how; a handful of corrupt sample files cannot cover positions, combinations and damage kinds.",
 ['gemlog/core.py','gemlog/parsers.pyx','gemlog/exceptions.py'],[('per-file failure handling','core.py: _read_several, _read_single'),('block skipping','core.py: convert'),('header probing','core.py: read_gem, _read_format_version, _read_SN')],
 "set of time intervals present in the output versus recorded, returned problem list, raised exception, conversion log")
p('C04','Output files partition the recording exactly once, at any chunk size',
 "The output files of a conversion hold each converted sample exactly once: files are aligned to the requested file length, never cross a boundary, never overlap, are named by their own start time and codes, and no two segments share a file name. The union of their samples is the same whatever the output file length, the number of raw files read per block, or restricting the file numbers or the start and stop time (which then cut exactly there).",
 ['configurations','inputs','histories'],"all whole-second file lengths, block sizes, start/stop times, file-number subsets and gap patterns, for any recording",
 "Errors occur only when a gap, block edge, window edge and file edge line up; fixed examples use one length and rarely have gaps there.",
 ['gemlog/core.py'],[('block loop','core.py: convert'),('window writing','core.py: _write_hourlong_mseed, _make_filename_converted'),('joining across blocks','core.py: _merge_gaps')],
 "names, start/end times and samples of the set of output files")
p('C05','Parallel conversion gives the sequential result under any schedule',
 "Converting several loggers with any number of worker processes, under any interleaving of their file-system operations, produces exactly the files, logs and per-logger outcomes that converting them one at a time produces. In particular workers racing to create shared output folders never make a logger fail.",
 ['schedules','configurations'],"all interleavings of the workers' file-system operations, worker counts, task assignments and sets of loggers",
 "The failing window is between a worker's existence check and its directory creation; ordinary runs almost never hit it and cannot be replayed.",
 ['gemlog/gemconvert.py','gemlog/core.py'],[('process pool','gemconvert.py: main, convert_single_SN'),('shared directory creation','core.py: convert'),('numbered log files','core.py: _make_filename')],
 "contents of the output, gps and metadata folders and the conversion log")
p('C06','After any crash or disk failure, rerunning completes the conversion',
 "If a conversion is killed, loses power, is interrupted or hits a full or failing disk at any point, running the same command again once the fault is gone yields exactly the converted files of an undisturbed run (an attempt that had to skip a raw file it could not read may leave converted files of its own). Neither run changes any raw file or any GPS or metadata log of an earlier run, and the highest-numbered GPS and metadata log of each logger is complete.",
 ['crash_points','fault_sequences'],"all positions of a kill, power loss (with loss of unsynced data), interrupt, short write or disk error among the file-system operations of a run, and repeated failures before the final run",
 "Tests never kill a conversion; the recoverability of partial outputs and numbered logs depends on the exact crash point and on what reached the disk.",
 ['gemlog/gemconvert.py','gemlog/core.py'],[('log numbering','core.py: _make_filename'),('output overwrite','core.py: _write_hourlong_mseed'),('driver','gemconvert.py: main')],
 "file system state after the rerun compared with an undisturbed run")
p('C07','No failure is silent: the log records every logger that did not finish',
 "After a conversion command returns, every requested logger whose conversion did not run to its end (worker killed, exit, unreadable card, disk full or error, bad configuration) has an error recorded in the conversion log, and other loggers are unaffected unless their own worker or disk failed. An input error while reading a raw file is never mistaken for the end of that file: the data are complete, or the file is reported.",
 ['fault_sequences','crash_points','schedules'],"all positions and kinds of read, write, directory and process faults, all worker counts and logger sets",
 "Needs system calls to fail at chosen points inside parsers, workers and the pool; no test injects any fault.",
 ['gemlog/gemconvert.py','gemlog/core.py','gemlog/parsers.pyx'],[('worker error handling','gemconvert.py: convert_single_SN, main'),('raw read loop','parsers.pyx: parse_gemfile')],
 "gemconvert_logfile.txt, problem list, exit status and converted files")
p('C08','GPS and state-of-health logs are complete, ordered and exactly-once',
 "Each conversion writes, under a new number, one GPS log and one metadata log per logger that hold every valid fix and every status line of every converted raw file exactly once, in time order, with the values the logger reported and correct times. This holds however the recording is split into raw files and read blocks.",
 ['histories','configurations','fault_sequences'],"all recordings, GPS fault patterns, block splits, file lengths and numbers of previous runs",
 "Duplicates or losses appear only at block edges or with particular fix/status timing; tests do not inspect these logs.",
 ['gemlog/core.py'],[('log writing','core.py: convert'),('fix filtering','core.py: _gps_in_bounds, _find_breaks, _reformat_GPS'),('log numbering','core.py: _make_filename')],
 "contents of the gps and metadata folders")
p('C09','Merging no-GPS raw files preserves the waveform, order and card',
 "Merging a card's raw files so that each merged file has GPS loses, duplicates or alters no pressure sample, fix or status line of the merged files, keeps their order, and leaves the input folder untouched. The merged files convert to the same waveform as the originals, and rerunning after an interruption gives the same merged files as an undisturbed run.",
 ['inputs','crash_points','histories'],"all sequences of files with and without GPS, all raw formats, first-sample values, torn final lines and crash points",
 "The joint between two files is correct only for particular encodings and values; only one notebook exercises it and no test crashes it.",
 ['gemlog/gem_cat.py'],[('joining','gem_cat.py: AppendFile'),('grouping','gem_cat.py: gem_cat')],
 "bytes of the merged raw files and their conversion")
p('C10','GPS summaries use the newest log and locate every logger robustly',
 "Summarising GPS logs gives each selected logger with fixes in its newest log exactly one row whose coordinates lie within GPS scatter of its true position, from its newest log only, restricted to the requested times, despite outlier fixes or short recordings made elsewhere; the derived station inventory has each logger under its assigned codes with those coordinates and covering its recording.",
 ['histories','fault_sequences','inputs'],"all histories of conversion runs, partially failed runs, wild fixes, time limits, inclusion lists and station tables",
 "Depends on the history of conversion runs and fix outliers across loggers; the tests never build such a project.",
 ['gemlog/gem_network.py'],[('newest log choice','gem_network.py: read_gps'),('outlier trimming','gem_network.py: _remove_outliers, summarize_gps'),('inventory','gem_network.py: make_gem_inventory')],
 "summarize_gps() table, output csv and inventory")
p('C11','Renaming and day-merging conserve every sample under the right codes',
 "Renaming converted files writes, for each logger in the station table, all its samples unchanged under its assigned codes and a name matching its start time, and touches nothing else; merging to day files holds every sample of that day and channel once. Neither depends on directory order, neither alters its inputs, and a rerun after a crash completes it.",
 ['inputs','crash_points','schedules'],"all station tables, file sets, gaps, directory orders and crash points",
 "Correctness depends on table/file combinations, gaps and interruption points that no test generates.",
 ['gemlog/gem_network.py'],[('renaming','gem_network.py: rename_files, _get_station_info'),('merging','gem_network.py: merge_files_day')],
 "headers, names and samples of the output files")
p('C12','Results depend only on the raw data and options, not on the host',
 "Converting the same card with the same options gives the same files, logs and report whatever the host's clock (wrong by years, jumping, running backwards), time zone, directory listing order, hash seed, unrelated files on the card, or how often the conversion is repeated. The installation's choice of working folder does not matter either.",
 ['schedules','configurations','fault_sequences'],"all host clocks and jumps, time zones, listing orders, unrelated directory contents and repetition counts",
 "Tests run under one clock, zone and listing order; field laptops have wrong clocks and arbitrary listing orders.",
 ['gemlog/core.py','gemlog/gemconvert.py'],[('time handling','core.py: _make_gps_time, _find_breaks, _trunc_UTCDateTime'),('file discovery','core.py: convert, _find_nonmissing_files; gemconvert.py: main')],
 "converted files, gps/metadata logs, problem list")
p('C13','Single-file conversion is exact with GPS and best-effort only when forced',
 "Converting one raw file gives the same samples and times as converting it as part of a card, and refuses, writing nothing, if its GPS is inadequate. When forced, a file without adequate GPS still gives its complete waveform at the nominal rate, anchored at any fix it has.",
 ['inputs','fault_sequences'],"all raw files, GPS conditions, formats and damage",
 "The forced path only matters for degraded files; there is no test of it.",
 ['gemlog/gemconvert_single.py','gemlog/core.py'],[('single-file path','core.py: _convert_one_file'),('fallback timing','core.py: _calculate_drift')],
 "the written file, or its absence")
p('C14','Independent loggers line up: array lags come out right end to end',
 "For an array of loggers with independent clocks recording one travelling wave, the pipeline from raw cards through conversion, GPS summary and cross-correlation yields inter-station lags equal to the true propagation delays within a sample, closing to zero around the array, and the true backazimuth and slowness. Window times are correct and each window is processed once.",
 ['histories','inputs','configurations'],"all array geometries, wave directions, clock drifts, phases and GPS patterns, window lengths and upsampling ratios",
 "Needs several loggers with known clocks and a known wave; unit tests check the correlation on synthetic aligned traces only.",
 ['gemlog/xcorr.py','gemlog/core.py','gemlog/gem_network.py'],[('correlation windows','xcorr.py: xcorr_all, apply_function_windows, xcorr_function'),('inversion','xcorr.py: invert_for_slowness, get_coordinates')],
 "lag, consistency, backazimuth and slowness columns")
p('C15','The huddle check flags injected malfunctions and only those',
 "Given the converted folder of a huddle test (metadata, gps, mseed), verify_huddle_test completes whatever the loggers did, returns its documented dict of errors, warnings, stats and results, and reports each malfunction against the logger that has it and no other: battery, temperature, A2/A3 flat or out of range, FIFO use, overruns, unused stack and GPS run time beyond the documented limits; start or stop more than 20 minutes apart; temperature more than 1.5 C off the group's median; sample timing that disagrees; dead or clipped waveforms; a GPS location away from the others. A healthy logger gets no error or warning. The latest conversion is what counts, the PDF report shows every error and warning, and a disk error never passes for a finished test.",
 ['fault_sequences','inputs'],"all assignments of modelled malfunctions to loggers in a huddle",
 "Only one healthy sample huddle exists; each malfunction must be injected into an otherwise healthy group.",
 ['gemlog/huddle_test.py'],[('individual and group checks','huddle_test.py: verify_huddle_test')],
 "returned errors/warnings/results")
p('C16','The file database lists exactly the readable files with true statistics',
 "Summarising a folder of converted files, some torn, foreign, unreadable or vanishing during the scan, yields (and saves, if asked) one row per readable file in order of file name with its true station, location, span, extremes and amplitude over all its pieces; it skips the rest with a message and never fails because of one file. The channel statistics derived from it give the true fraction of the requested time each station covers, and the discontinuity listing of a station names every gap and nothing else.",
 ['fault_sequences','inputs'],"all folders of converted files with any subset torn, empty, foreign or vanishing during the scan",
 "Depends on which files are damaged or disappear while scanning; there is no test of these functions on damaged folders.",
 ['gemlog/gemlog_aux.py'],[('scan','gemlog_aux.py: make_db'),('statistics','gemlog_aux.py: calc_channel_stats')],
 "returned table and saved csv")
p('C17','read_gem returns the selected raw files exactly as they were recorded',
 "Reading any selection of one logger's raw files as a library call (file numbers as integer, list, array or all; files in any condition) returns the waveform of every readable selected file at its true times and of no other file; its header row, GPS fixes and status lines are the recorded ones, with the gain of the first selected file that states it; files not used are named among the problems. Requested codes are set, the raw folder and the arguments stay unchanged, and a disk error never silently shortens the result.",
 ['inputs','fault_sequences','configurations'],"all selections, option sets, raw formats, damage patterns and disk errors",
 "Tests read a few fixed files with default options; header figures, selections, forced reading and failing disks are never compared with a known recording.",
 ['gemlog/core.py'],[('reading','core.py: read_gem, _read_several, _read_single'),('timing and header','core.py: _calculate_drift, _assign_times, _interp_time'),('scale','core.py: get_bitweight_info, _read_config')],
 "the returned dict: data, header, metadata, gps, problems")
p('C18','A campaign archive holds what the cards held, coded and located right',
 "Converting the cards of one or several visits, renaming, merging to days, listing, and locating the loggers yields an archive in which every logger's stream carries exactly its station codes and exactly its recorded samples at their true times, the day files hold every one of them once, the file list matches the day files, and the inventory resolves every code to the position its receiver recorded at its newest visit - also when any step was interrupted or met a disk error and was run again.",
 ['histories','crash_points','fault_sequences','configurations'],"all sets of loggers, visits, options and interruptions of any step",
 "Each tool is tested alone on prepared folders; what one hands to the next, a second visit into the same folders, and interrupted steps are never exercised.",
 ['gemlog/gemconvert.py','gemlog/core.py','gemlog/gem_network.py','gemlog/gemlog_aux.py'],[('conversion','gemconvert.py: main; core.py: convert'),('archive','gem_network.py: rename_files, merge_files_day'),('location','gem_network.py: summarize_gps, read_gps, make_gem_inventory'),('list','gemlog_aux.py: make_db')],
 "renamed and day files, inventory, file list")
p('C19','Restored pressures are the pressures at the microphone',
 "Converting a logger's recording and removing the instrument response by any documented way (deconvolve_gem_response on streams or traces, attaching get_gem_response, or an inventory), with the gain the logger was set to, gives the pressure at the microphone in pascals, in amplitude and time, for every serial number, raw format, gain setting and stretch of data, also when the conversion was interrupted and repeated; an unreadable data or response file raises an error and never gives other pressures.",
 ['inputs','configurations','fault_sequences','crash_points'],"all serial numbers, formats, gain settings, waveforms in the passband, custom microphones, and disk errors",
 "Tests call the functions once on data that did not come from a Gem, and compare with a stored number.",
 ['gemlog/gem_network.py','gemlog/core.py','gemlog/gemconvert.py'],[('response','gem_network.py: get_gem_response, deconvolve_gem_response, _read_response'),('inventory','gem_network.py: make_gem_inventory'),('conversion','gemconvert.py: main; core.py: convert')],
 "restored pressure waveforms")
p('N01','Noise spectra and scale lookups are correct',
 "Published self-noise and ambient-noise curves and per-serial-number scale factors equal their reference values for every frequency and serial number.",
 ['inputs'],"all frequencies, noise models, gains and serial numbers","Only sampled at a few points.",
 ['gemlog/gemlog_aux.py','gemlog/core.py'],[('noise','gemlog_aux.py: gem_noise, ims_noise'),('specs','core.py: get_gem_specs')],"returned values")
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
