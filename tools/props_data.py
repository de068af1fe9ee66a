prop('C01', 'Correlation database returns exactly what was stored',
     'After any sequence of adding correlations (single traces, streams, stacks, different tags) and closing and reopening the file, a query for a given combination, time and tag returns exactly the traces that were added under it, with the same samples and the same header (times, coordinates, codes, lag axis, processing notes), and wildcards and time ranges select exactly the matching ones. Adding a correlation whose key (tag, combination, start and end time) exists leaves the stored one unchanged, removing deletes exactly the requested ones, and asking for (A, B) or (B, A) gives the same result. Listing available channels and start times agrees with what is stored.',
     ['histories', 'inputs'],
     'all sequences of add / remove / reopen / query over all station codes, channels, locations, tags and times',
     'Unit tests mock h5py and store one or two traces with friendly codes; they do not explore histories, prefix-related codes, overlapping time ranges or reopening.',
     ['db/corr_hdf5.py', 'correlate/stats.py', 'utils/miic_utils.py'],
     [('hierarchical path built from tag, codes and times', 'db/corr_hdf5.py'), ('recursive wildcard search', 'db/corr_hdf5.py'), ('header conversion', 'db/corr_hdf5.py')],
     ['CorrelationDataBase / DBHandler public methods'],
     technique='model-based history testing against a dict model')
prop('C02', 'A correlation database refuses to mix processing parameters',
     'Opening an existing correlation database in a writing mode with parameters that differ in anything that influences the correlations is refused and leaves the file unchanged, whereas parameters that differ only in settings without influence (e.g. paths, the lists of what and when to read) are accepted. The parameters read back from a database are those it was created with, whatever (nested) processing chain they contain. Opening without parameters or with an explicit override is always accepted; without parameters (and override) the file is read-only, whatever mode is asked for.',
     ['configurations', 'histories'],
     'all pairs of processing configurations, including chains of arbitrary length and repetition of steps',
     'Tests use one or two fixed configurations.',
     ['db/corr_hdf5.py'],
     [('options are normalised, stored as attribute and compared on open', 'db/corr_hdf5.py')],
     technique='property-based metamorphic testing over configuration pairs')
prop('C03', 'Correlations equal their time-domain definition on their lag axis',
     'For any set of equally sampled traces the computed cross-correlation of a pair equals the (optionally normalised) sum of products of the two time series as a function of time shift, at each lag its own header announces, for the requested lag range. Normalised values never exceed one in absolute value, and an autocorrelation is symmetric with its maximum at zero lag. The result for a pair does not depend on which other traces are correlated in the same call or how many.',
     ['inputs'],
     'all sample counts (even, odd, prime), sampling rates, lag lengths, amplitudes, start time offsets, trace counts',
     'Tests compare a handful of sizes against numbers produced by the same FFT procedure.',
     ['correlate/correlate.py'],
     [('FFT correlation with zero padding', 'correlate/correlate.py'), ('start lag bookkeeping', 'correlate/correlate.py')],
     technique='differential testing against a naive time-domain correlator')
prop('C04', 'Pair orientation is canonical and consistent with the lag axis',
     'Whatever order the traces are supplied in, each pair is stored under one canonical (alphabetical) orientation, and swapping the roles of the two traces is the same as reversing the lag axis: sample values, lag axis, codes, coordinates, distance and azimuths all describe the same orientation. The orientation used when computing, when naming combinations and when looking up the database is the same for all codes.',
     ['inputs'],
     'all pairs of network, station, location and channel codes (including ones that are prefixes of each other), all coordinates and lag ranges',
     'Tests use a few codes of equal length.',
     ['correlate/correlate.py', 'db/corr_hdf5.py'],
     [('alphabetical reordering and flip', 'correlate/correlate.py'), ('combination name sorting', 'correlate/correlate.py'), ('lookup key sorting', 'db/corr_hdf5.py')],
     technique='metamorphic testing (swap symmetry) plus naive model')
prop('C05', 'Exactly the requested station/component combinations are formed',
     'For every combination method the set of correlated pairs is exactly the set-theoretic one (autocorrelations only; same-station pairs of different components; pairs of different stations; all unordered pairs; all ordered pairs), each pair once, independent of the order in which traces or stations are listed. If explicit combinations of stations (and optionally channels) are requested, or a maximum interstation distance, exactly the intersection with them is formed, whichever way round they are written. Pairs already present in the output for that time are the only ones skipped.',
     ['configurations', 'inputs'],
     'all sets of traces with repeated stations, components, networks, and all request lists',
     'Tests check fixed four-trace streams.',
     ['correlate/correlate.py'],
     [('combination calculation', 'correlate/correlate.py')],
     technique='differential testing against a set-theoretic model')
prop('C06', 'A correlation run produces the correlations the configuration asks for',
     'Running the correlator on an archive of raw data writes, for each requested combination (of exactly the configured networks, stations and components) and each subdivided time window in which both traces have data left after preprocessing, one correlation whose start and end times are those of the window and whose samples equal the reference computation on exactly that part of the raw data with the configured preprocessing (resampling, detrending, gap handling and tapering, removal of the instrument response and of reversed polarity with the information of that station and time, filters, masks), and writes none for windows without data. Stacks over the read length, if requested, are the normalised mean of exactly the windows of one read increment. This also holds for windows added to an existing database and whether or not components are stored in separate files.',
     ['configurations', 'inputs', 'histories'],
     'all archives (gaps, late starts), read increments, subdivision lengths and increments, combination methods, processing chains',
     'Tests mock the store and patch most of the class.',
     ['correlate/correlate.py', 'trace_data/waveform.py', 'correlate/stream.py'],
     [('window generator', 'correlate/correlate.py'), ('preprocess_stream / sub-windowing', 'correlate/correlate.py'), ('writing', 'db/corr_hdf5.py')],
     technique='end-to-end differential testing against an independent reference pipeline')
prop('C07', 'Interrupted or repeated correlation runs converge to the same database',
     'Running the correlator again over the same period on its own output adds, changes and removes nothing and, if the correlations of the windows are kept, computes none of them again; a run that is aborted by an error while reading or correlating, or between writing two of the (not stacked) correlations, and started again ends with the same correlations as an undisturbed run; working on the period in several pieces in any order gives the same as working on it at once. Traces stored before the interruption remain readable and unchanged. The result does not depend on the number of parallel processes, also if data of some stations cannot be prepared. Stations sampled more coarsely than requested are left out and do not affect the others.',
     ['crash_points', 'histories', 'schedules'],
     'all points at which reading, computing or writing can fail, all splits of the period, numbers of processes',
     'No test runs the correlator twice.',
     ['correlate/correlate.py', 'db/corr_hdf5.py'],
     [('existing data lookup', 'correlate/correlate.py'), ('duplicate omission on write', 'db/corr_hdf5.py')],
     technique='fault injection at generated write points with comparison to the undisturbed run')
prop('C08', 'Time-domain preprocessing does what it states to each trace',
     'Each time-domain preprocessing step acts on every trace of a matrix independently and per its definition: clipping limits amplitudes to the given multiple of the standard deviation, one-bit keeps only signs, detrending removes exactly the best straight line (and is idempotent), temporal normalisation divides by the local envelope, filters and tapers are linear and confined to their band or edges, zero padding only appends zeros and suffices to prevent wrap-around. Number and order of traces never change and, apart from padding, nor does the number of samples.',
     ['inputs'],
     'all matrices (sizes, constant / zero / large / spiky traces), all valid parameters',
     'Tests use a few fixed arrays, mostly checking one property each.',
     ['correlate/preprocessing_td.py'],
     [('row wise operations', 'correlate/preprocessing_td.py')],
     technique='property-based testing with definitions as oracle')
prop('C09', 'Frequency-domain preprocessing keeps what it promises',
     'Spectral whitening gives every non-zero frequency component of every trace the (configured smoothed) amplitude normalisation while keeping its phase, and never lets one dead or defective component or trace affect another one; frequency filters weight each component by the cosine-flanked window that is specified, one inside and zero outside; one-bit normalisation in the frequency domain gives the spectrum of the signs of the time series. All of them act on traces independently and keep array shape.',
     ['inputs'],
     'all complex spectra incl. zero entries, all corner frequencies, smoothing lengths',
     'Tests use random spectra with no zero amplitude.',
     ['correlate/preprocessing_fd.py'],
     [('whitening / FDfilter', 'correlate/preprocessing_fd.py')],
     technique='property-based testing with definitions as oracle')
prop('C10', 'Masking and muting remove exactly the intended samples',
     'Masking by absolute times or by amplitude threshold removes exactly the samples within the given intervals (give or take the neighbouring sample) or above the threshold (plus the declared taper) and leaves every other sample untouched. Gaps are filled linearly if and only if they lie inside the trace and are not longer than the declared maximum, and no data outside gaps (plus the declared taper) is altered. This holds for intervals that start before, end after, or cover the whole trace.',
     ['inputs'],
     'all trace time spans, interval lists (overlapping, covering, outside), thresholds, reverse switches',
     'Tests use intervals strictly inside the trace.',
     ['correlate/preprocessing_td.py', 'correlate/preprocessing_stream.py', 'utils/miic_utils.py'],
     [('mute', 'correlate/preprocessing_td.py'), ('mask at utc', 'correlate/preprocessing_stream.py'), ('interpolate_gaps / gap_handler', 'utils/miic_utils.py')],
     technique='property-based testing against a pointwise sample model')
prop('C11', 'Stream preparation keeps samples at their true time',
     'Resampling, decimating, filtering and cutting of raw streams keep a signal at its true time: a band-limited signal is reproduced at the times of the new samples, traces end up at the requested rate (or unchanged if theirs is lower), parts without data stay marked as such, and exactly the too short or empty traces are discarded. Dividing a record in overlapping windows yields every complete window of the requested length once.',
     ['inputs'],
     'all sampling rates and ratios, sub-sample offsets, record lengths, gap layouts',
     'Tests use fixed rates.',
     ['correlate/stream.py', 'correlate/preprocessing_stream.py', 'utils/miic_utils.py', 'correlate/correlate.py'],
     [('resample_or_decimate', 'utils/miic_utils.py'), ('cos_taper_st', 'correlate/preprocessing_stream.py'), ('window generation', 'correlate/stream.py')],
     technique='property-based testing with analytic signals')
prop('C12', 'Correlation headers are self-consistent and combine losslessly',
     'In every correlation header the derived quantities (end of lag axis, sampling interval, number of samples, distance from coordinates) always agree with the primary ones whatever is changed in whatever order, and derived ones cannot be set directly. Combining the headers of two raw traces keeps both stations\' codes and coordinates in order, the joint time span and whatever both headers have in common, and does not alter the raw headers (which serve for further combinations). Headers survive conversion to and from the array format used for files, including lists and times.',
     ['histories', 'inputs'],
     'all sequences of header assignments, all pairs of raw headers, all header contents',
     'Tests check selected fields of one header.',
     ['correlate/stats.py', 'correlate/stream.py', 'utils/miic_utils.py'],
     [('read-only derived fields', 'correlate/stats.py'), ('header array conversion', 'utils/miic_utils.py')],
     technique='model-based testing of header histories and round trips')
prop('C13', 'Stacking and selecting correlation traces loses or invents nothing',
     'Stacking groups exactly the traces of the same combination whose time lies in the same stack window, yields their (weighted) mean, labels it with the time span of the members, and is independent of the order of the input. Selecting by combination or time, iterating over moving windows, popping times and removing duplicates yield exactly the traces a filter over the list of traces would.',
     ['inputs', 'histories'],
     'all streams of correlation traces with mixed combinations, lengths, times and gaps; all window lengths',
     'Tests use a handful of synthetic traces of one combination.',
     ['correlate/stream.py'],
     [('stack / stack_st', 'correlate/stream.py'), ('slide, select, select_corr_time, pop_at_utcs', 'correlate/stream.py')],
     technique='differential testing against list models')
prop('C14', 'Stream, matrix and file forms of correlations are interchangeable',
     'Converting a stream of correlations of one combination into the matrix form and back gives back the same traces with the same times and headers; slicing and indexing the matrix form selects exactly the rows in the time range; saving it to a file and reading it gives an object with equal data, times, header, processing notes, and on which the same operations can be performed with the same results. Rows are in the order of the stream; a stream whose traces are of other stations, positions or lag axes is refused instead of being mixed into one matrix, and making a matrix that is not meant to replace the stream leaves the stream as it was.',
     ['inputs', 'histories'],
     'all streams (gaps, single trace, changing channel and location codes, any order), all slices',
     'Tests round-trip one fixture with mocked files.',
     ['correlate/stream.py', 'utils/miic_utils.py'],
     [('create_corr_bulk / create_corr_stream', 'correlate/stream.py'), ('save / read_corr_bulk', 'correlate/stream.py')],
     technique='round-trip property testing')
prop('C15', 'Lag-axis operations keep every value at its lag time',
     'Trimming, mirroring, tapering, decimating and resampling along the lag axis keep the data and the header\'s lag axis consistent: for a smooth correlation function, the value found at a lag after the operation is the value at that lag before (or the mean of both sides for mirroring), and exactly the requested lag range is retained. An operation on the matrix does the same to each row as if that row was alone, and keeps the header consistent with the data.',
     ['inputs'],
     'all lag axes (asymmetric, not containing zero, off-grid requests), sampling rates, factors',
     'Tests check array shapes for symmetric axes.',
     ['monitor/post_corr_process.py', 'monitor/trim.py', 'correlate/stream.py'],
     [('corr_mat_trim / mirror / decimate / taper', 'monitor/post_corr_process.py')],
     technique='property-based testing with analytic lag functions')
prop('C16', 'Matrix post-processing computes the definitions row by row',
     'Normalisation, filtering, smoothing, envelope, resampling in calendar time and reference extraction give what they define: unit norm of the window requested, zero-phase linear filtering per row, moving (weighted) averages, the analytic envelope, per-period averages of exactly the rows in each period with empty periods marked as missing, and reference traces that are the mean (or configured statistic) of exactly the selected rows. Missing rows never contaminate other rows (smoothing over time counts missing values as zero, by design).',
     ['inputs'],
     'all matrices with missing rows, constant rows, single rows; all window positions, bin boundaries and percentiles',
     'Tests use complete, small matrices.',
     ['monitor/post_corr_process.py', 'correlate/stream.py', 'monitor/trim.py'],
     [('corr_mat_* functions', 'monitor/post_corr_process.py')],
     technique='property-based testing with definitions as oracle')
prop('C17', 'A velocity change is recovered with the right sign and undone',
     'For a reference correlation and a copy of it stretched by a known factor within the searched range, the stretching estimate is that factor within half a grid step, with a similarity close to one, sign included and independent of amplitude, of the other rows and of which lag window / side is used. Applying the correction for the estimated change restores the reference. Similarities lie in [-1, 1], the reported value and coefficient are those of the maximum of the similarity matrix, and missing rows yield missing values.',
     ['inputs'],
     'all reference functions, stretch factors, search ranges, numbers of steps, lag windows, sides and methods',
     'Tests check one sinusoid with a few factors.',
     ['monitor/stretch_mod.py', 'monitor/post_corr_process.py', 'correlate/stream.py'],
     [('time_stretch_estimate / time_windows_creation / velocity_change_estimate / time_stretch_apply', 'monitor/stretch_mod.py')],
     technique='property-based testing with synthesised changes as oracle')
prop('C18', 'A time shift is recovered with the right sign and undone',
     'For a reference correlation and a copy of it shifted by a known time within the searched range, the shift estimate is that time within the grid step, with one fixed sign per method, for any lag window, side and reference, and applying the correction with the estimated shift restores the reference inside the unaffected lag range; neither alters the matrix it measures nor its header. Similarities lie in [-1, 1] and the reported value and coefficient are those of the maximum of the similarity matrix.',
     ['inputs'],
     'all reference functions, delays (integer and fractional samples), ranges, windows',
     'Tests check a single integer shift.',
     ['monitor/stretch_mod.py', 'monitor/post_corr_process.py', 'correlate/stream.py'],
     [('time_shift_estimate / time_shift_apply', 'monitor/stretch_mod.py')],
     technique='property-based testing with synthesised changes as oracle')
prop('C19', 'Multiple references give the consistent joint estimate',
     'With several references, the joint estimate equals the single-reference estimate when only one is supplied, follows the true change when references differ by known changes, always lies within the searched range with coefficients bounded by one, and depends neither on the order and amplitude of the references nor on repeated or empty ones. The offset between the curves of two references is the mean of their differences weighted by inverse variance. Estimating and combining in one step equals estimating per reference and then combining.',
     ['inputs'],
     'all numbers of references, relative changes, missing rows',
     'Tests use fixed synthetic matrices and compare with stored outcome.',
     ['monitor/stretch_mod.py', 'correlate/stream.py'],
     [('multi_ref_vchange, estimate_reftr_shifts_from_dt_corr', 'monitor/stretch_mod.py')],
     technique='property-based metamorphic testing')
prop('C20', 'Averaging and smoothing of velocity changes is consistent',
     'Averaging several velocity-change results gives the mean of exactly the available similarity values at each time, with value and coefficient taken from the maximum of the averaged similarity, times without any data stay missing, inputs with incompatible axes are left out, and the memory-saving and the direct variant agree. The outcome does not depend on the order of inputs, geographic selection includes exactly the pairs with both stations inside, and shifting results relative to each other changes their values by exactly the shift applied, which is the difference of the levels at the common times and the requested number of times around them.',
     ['inputs', 'histories'],
     'all sets of results with missing times, different availability, coordinates, methods',
     'Tests use two identical objects.',
     ['monitor/monitor.py', 'monitor/dv.py'],
     [('average_components and variants', 'monitor/monitor.py'), ('correct_dv_shift', 'monitor/monitor.py')],
     technique='differential testing of the two variants and a naive model')
prop('C21', 'Results survive being saved and loaded',
     'A velocity-change result or waveform-coherence result that is written to a file and read back is equal in all arrays, times, codes, coordinates, method, axis, availability, statistics and processing notes, and every further operation (averaging, smoothing, aligning, shifting, plotting selection) has the same result on the loaded object as on the original. This holds for results with a single time, missing values and absent optional parts.',
     ['inputs', 'histories'],
     'all results: single or many times, with/without scatter, missing values, averaged headers',
     'Tests round trip one fixture and mock numpy.',
     ['monitor/dv.py', 'monitor/wfc.py', 'utils/miic_utils.py', 'correlate/stats.py'],
     [('save / read_dv / read_wfc', 'monitor/dv.py'), ('header array conversion', 'utils/miic_utils.py')],
     technique='round-trip property testing')
prop('C22', 'Waveform coherence is the declared correlation coefficient',
     'Waveform coherence of a matrix relative to a reference equals the zero-lag correlation coefficient in the requested lag window and side for each time, lies in [-1, 1], is one for rows proportional to the reference and unaffected by positive rescaling of rows. Averages over times and components are means over the available values only.',
     ['inputs'],
     'all matrices, references, windows, missing rows',
     'Tests use constant arrays.',
     ['monitor/wfc.py', 'monitor/stretch_mod.py', 'monitor/monitor.py', 'correlate/stream.py'],
     [('wfc_multi_reftr / compute_wfc', 'monitor/stretch_mod.py')],
     technique='differential testing against a naive coefficient')
prop('C23', 'A monitoring run reports the change contained in the database',
     'Running the monitor on a correlation database in which correlations are stretched by a known history writes for each combination a result whose times are exactly the configured windows, whose values follow the known history where data exist and are missing where they do not, and which equals computing each combination alone. The result does not depend on the order in which correlations were stored, on the amplitudes of single correlations, on other combinations in the folder or on the number of processes. A coherence run writes for each combination, frequency band and lag window the coherence of exactly that band and window, and their averages over the components of a pair. Configured processing and component averages are applied to exactly the selected results.',
     ['configurations', 'histories'],
     'all histories, window lengths/increments, data gaps, component selections',
     'Tests mock the database and the computation.',
     ['monitor/monitor.py', 'monitor/dv.py', 'correlate/stream.py', 'db/corr_hdf5.py'],
     [('compute_velocity_change_bulk, compute_waveform_coherence_bulk, compute_components_average, make_time_list, corr_find_filter', 'monitor/monitor.py')],
     technique='end-to-end property testing with synthesised changes as oracle')
prop('C24', 'Spatial inversion follows the linear least-squares theory',
     'Sensitivity kernels are non-negative, symmetric under exchange of the two stations, and follow the scattering theory expression; the model covariance is symmetric, positive and decays with distance; predicting data from a model is linear; the inverted model equals the closed-form regularised least-squares solution, reproduces zero for zero data, scales with the data and does not depend on the order in which results or stations are supplied. Grid cells correspond to the coordinates they announce, and station-to-cell mapping chooses the nearest cell.',
     ['inputs'],
     'all station geometries, grids, parameters, orders of results, missing values',
     'Tests compare some formulas against mocked pieces on one geometry.',
     ['monitor/spatial.py'],
     [('probability, sensitivity_kernel, compute_cm, DVGrid', 'monitor/spatial.py')],
     technique='property-based testing against closed-form reference')
prop('C25', 'The raw data archive returns the waveforms written to it',
     'Waveforms written to the local archive, split over days and files in any order or with repetitions, are returned unchanged (same samples at same times, no sample lost or doubled, gaps preserved) for any requested time span and location wildcard, and nothing is returned outside the span. Listing of stations, channels that match a wildcard, and start/end of available data, agree with what was written. Station information, once known, is found again and neither lost nor asked for a second time. What was downloaded in bulk, whatever the time span asked for, is read back as completely, and not downloaded again. Reading through a user-described directory layout returns the same data.',
     ['inputs', 'histories'],
     'all sequences of writes and reads, spans across days/years, partial overlaps',
     'Tests mock the file system.',
     ['trace_data/waveform.py'],
     [('Store_Client / FS_Client', 'trace_data/waveform.py')],
     technique='model-based history testing against a sample dictionary')
prop('C26', 'Spectrograms put the energy where it is in time and frequency',
     'Spectrogram series of a record contain one column per complete window of the record, in order of time, each being the power spectral density of exactly that window; windows with missing data are left out (or marked) and never filled with other values. The result depends neither on the order or the size of the pieces in which the record is read nor on the number of processes, and covers the requested span and nothing else. A sinusoid appears at its frequency with its power, and one above the highest frequency does not appear at all.',
     ['inputs'],
     'all record lengths, sampling rates, windows, read increments, gaps',
     'Tests use one short record.',
     ['utils/raw_analysis.py', 'trace_data/waveform.py'],
     [('spct_series_welch', 'utils/raw_analysis.py')],
     technique='differential testing against direct window-wise computation')
prop('C27', 'Figures show the data they were made from',
     'Drawing a velocity change, several of them, correlations (single, streams, matrices), spectrograms, waveform coherences or maps of inverted velocity changes puts every available value of the object at its time, lag, distance, frequency or place with the documented sign and normalisation, leaves missing values empty, honours the requested limits, shows everything if none are given, and does not alter the object. Every documented option works for every valid object (also without similarity matrix or with missing values), and figures with the default name do not replace earlier ones.',
     ['inputs'],
     'all objects with missing values, asymmetric axes and absent parts, all options',
     'No test looks at a figure.',
     ['plot/plot_dv.py', 'plot/plot_multidv.py', 'plot/plot_correlation.py', 'plot/plot_spectrum.py', 'plot/plot_wfc.py'],
     [('plot_technical_dv / plot_fancy_dv', 'plot/plot_dv.py'), ('plot_multiple_dv', 'plot/plot_multidv.py'), ('plot_cst / plot_corr_bulk', 'plot/plot_correlation.py'), ('plot_spct_series', 'plot/plot_spectrum.py'), ('DVGrid.plot', 'monitor/spatial.py')],
     technique='property-based testing of the drawn artists against the data')
