"""What the properties say; tools/gen.py writes properties.jsonl and MANIFEST.json from it.

id: (title, statement, over, quantifier text, why tests cannot settle it,
     files, [(mechanism, where)...])
"""

P = {}


def p(id_, title, statement, over, text, why, files, mech):
    P[id_] = dict(title=title, statement=statement, over=over, text=text, why=why,
                  files=["swprocess/" + f for f in files.split()], mech=mech)


p("C01", "Stacking records gives the stack-count weighted mean",
  "Appending one shot record to another yields, sample by sample, the mean of the two weighted by how many "
  "shots each already holds, and the shot counts add, so any number of records stacked in any order gives the "
  "overall mean. The appended record, the sampling step and the delay stay unchanged. A record that differs in "
  "sampling step, delay, length or (for sensors) position, or is not a record, is refused with ValueError and "
  "leaves the first record unchanged.",
  ["inputs", "histories"], "every pair of records and every order of a history of appends",
  "the tests stack a few fixed records of constant amplitude; unequal counts, long histories and each way of "
  "being incompatible are not sampled",
  "activetimeseries.py sensor1c.py", [("stack_append / _is_similar", "swprocess/activetimeseries.py")])

p("C02", "Trimming keeps exactly the requested window and its time alignment",
  "Trimming a record to a window keeps precisely the contiguous samples from the one nearest the requested "
  "start to the one nearest the requested end, and the record's time axis then starts at the requested start, "
  "also when a record is trimmed repeatedly. A window that starts before the record, is empty or reversed, or "
  "ends after the record is refused with IndexError and changes nothing.",
  ["inputs", "histories"], "every record, delay, step and window, and repeated trims",
  "tests trim a handful of records at sample-aligned times; windows between samples, delayed records and "
  "repeated trims are unbounded",
  "activetimeseries.py", [("trim", "swprocess/activetimeseries.py")])

p("C03", "Zero padding delivers the requested frequency step",
  "Padding a record for a frequency step keeps every original sample first and in order, appends only zeros, "
  "and makes the length the smallest whole multiple of the target length that holds the record, so that the "
  "delivered frequency step equals the requested one whenever that is achievable and otherwise is that of the "
  "nearest whole number of samples. This also holds when a record is padded again with another step. "
  "Non-positive steps are refused with ValueError and change nothing.",
  ["inputs", "histories"], "every record length, step and target, including repeated padding",
  "tests use a few lengths and steps; the divisibility cases and re-padding are not covered",
  "activetimeseries.py", [("zero_pad / df / multiple", "swprocess/activetimeseries.py")])

p("C04", "Cross-correlation alignment finds the best lag and stacks there",
  "Aligning one record to another moves it by the lag at which their correlation is largest over all lags, "
  "filling with zeros and dropping what leaves the window. A cross-stack is the stack-count weighted mean of the "
  "reference and the aligned record with the counts added; neither input is modified, and records with "
  "different sampling steps are refused with ValueError.",
  ["inputs"], "every pair of records within the bound",
  "tests check two shifted pulses; negative lags, ties, unequal lengths and unequal counts are not sampled",
  "activetimeseries.py", [("crosscorr_shift / from_cross_stack", "swprocess/activetimeseries.py")])

p("C05", "Copies of records, sensors and arrays are equal and independent",
  "Copying a record, sensor or array in any state it can reach through trimming, padding and stacking gives an "
  "object with equal samples, sampling step, delay, stack count, positions, source and delivered frequency step. "
  "The copy compares equal to the original, and no later change to one affects the other.",
  ["inputs", "histories"], "every record or array and every short history of operations before the copy",
  "tests copy freshly constructed objects only",
  "activetimeseries.py sensor1c.py array1d.py source.py",
  [("from_activetimeseries / from_sensor1c / from_array1d", "swprocess")])

p("C06", "Record construction, derived axes and equality",
  "A record stores its samples, step, stack count, delay and position unchanged and independent of the caller's "
  "buffers, and its time axis and frequency quantities follow from them (sample i at delay plus i steps). A "
  "stack count below one or a positive delay is refused with ValueError and nothing else is. Two records are "
  "equal exactly when all attributes and samples agree.",
  ["inputs"], "every constructor argument and every pair of records",
  "tests construct a few valid records and two invalid ones",
  "activetimeseries.py sensor1c.py", [("__init__ / _check_input / __eq__", "swprocess/activetimeseries.py")])

p("C07", "File headers are decoded to the right geometry and metadata",
  "Receivers and sources read from SEG2, SU and SEGY traces have the positions the header states: coordinates "
  "scaled by the header's scalar (positive multiplies, negative divides, zero means one), then mapped by the "
  "user's coordinate mapping, with delay in milliseconds and stack counts (zero or missing meaning one) decoded "
  "and each sensor keeping its own samples. Missing or unreadable SEG2 fields fall back to the documented "
  "defaults. Angular coordinate units and unknown formats are refused.",
  ["inputs", "configurations"], "every header content, scalar, mapping and trace order",
  "tests read three recorded files whose scalar and y coordinates are all alike",
  "sensor1c.py array1d.py", [("from_trace and format readers", "swprocess/sensor1c.py"),
                             ("from_files source parsing", "swprocess/array1d.py")])

p("C08", "Writing an array to SU and reading it back preserves it",
  "An array written to an SU file and read back has the same number of sensors, the same samples in the same "
  "order, the same sampling step and stack counts, receiver and source positions to the millimetre and delay to "
  "the millisecond. Unknown file types are refused with ValueError and write nothing.",
  ["inputs"], "every array within the format's ranges",
  "the one round-trip test uses integer coordinates, stack count one and no delay",
  "array1d.py sensor1c.py", [("to_file / from_files", "swprocess/array1d.py")])

p("C09", "Stacking several files pairs traces by position and refuses mismatches",
  "Reading several files of one shot position gives one sensor per receiver position whose samples are the "
  "stack-count weighted mean of the traces recorded at that position, whatever the trace order in each file and "
  "with the user's coordinate mapping and read options applied to every file. A file whose source, receiver "
  "positions, number of traces, sampling step, length or delay differs is refused with ValueError.",
  ["inputs", "configurations"], "every set of files, trace orders and mappings",
  "tests stack identical copies of one file without mapping",
  "array1d.py sensor1c.py", [("from_files", "swprocess/array1d.py")])

p("C10", "Arrays are built sorted, checked and compare by all attributes",
  "An array keeps every sensor given, ordered by increasing position whatever the order supplied and without "
  "changing the list supplied. Sensors sharing a position, or with different sampling steps, lengths or delays, "
  "are refused with ValueError, and nothing else is. Two arrays are equal exactly when their "
  "sources and all their sensors are equal, and equal arrays are similar.",
  ["inputs", "configurations"], "every set of sensors in every order and every pair of arrays",
  "tests build a few arrays in two orders and with one duplicate",
  "array1d.py", [("__init__ / _check_array / __eq__ / is_similar", "swprocess/array1d.py")])

p("C11", "Array geometry: offsets, spacing, resolution, source position",
  "For every array and source, each offset is the distance between that sensor and the source. Positions can be "
  "normalised to start at zero, the array-centre distance is the mean offset, the resolution wavenumber is pi over "
  "the smallest spacing, an even array's spacing is "
  "returned and an uneven one is refused with ValueError, and the source counts as inside exactly when strictly "
  "between the outermost sensors. Ordering traces from near to far keeps each trace with its own offset and "
  "leaves the array unchanged.",
  ["inputs"], "every sensor layout and source position",
  "tests use evenly spaced arrays with a source on one side",
  "array1d.py", [("offsets / spacing / kres / _source_inside / _flipped_tseries_and_offsets", "swprocess/array1d.py")])

p("C12", "Selecting sensors by offset keeps exactly those in range",
  "Limiting an array to a range of offsets keeps exactly the sensors strictly within it, in order and with "
  "their samples, whichever side the source is on. Having no sensor left is refused with ValueError and changes "
  "nothing.",
  ["inputs"], "every layout, source side and pair of limits",
  "tests use a source left of the array only, where offsets happen to increase along the array",
  "array1d.py", [("trim_offsets", "swprocess/array1d.py")])

p("C13", "Muting zeroes outside the signal window and keeps the inside",
  "Muting sets every sample outside the window between the start and end lines to zero, in time measured from "
  "the trigger whatever the delay. Samples inside are unchanged for a rectangular window and only scaled down for "
  "a tapered one, lines reaching beyond the record are accepted, and a side left out does not limit the window "
  "there. Length, delay and other sensors are not affected, and picking the lines interactively gives the same "
  "result whichever axis shows time.",
  ["inputs"], "every record, delay, pair of lines and window shape",
  "tests check one undelayed array with two lines inside the record",
  "array1d.py", [("mute / interactive_mute", "swprocess/array1d.py")])

p("C14", "The sample matrix has one true row per sensor, optionally normalised",
  "The matrix of samples has one row per sensor in position order equal to its samples, with the linear trend "
  "removed when asked. Normalising each trace divides it by its own largest magnitude, normalising all divides "
  "by the largest of the array, unknown modes are refused, and building it never changes the sensors.",
  ["inputs"], "every sample and mode",
  "tests use constant or sine traces with positive peaks",
  "array1d.py", [("timeseriesmatrix / _safe_normalize", "swprocess/array1d.py")])

p("C15", "First-arrival picks point at the first exceedance of each trace",
  "Automatic picking returns one time per sensor in position order: that of the first sample whose deviation "
  "from the leading mean exceeds the threshold, relative to that trace, and including the record's delay. "
  "Manual picking returns the picked distances and times in order for either orientation of the time axis. "
  "Unknown algorithms are refused.",
  ["inputs"], "every record, threshold and delay, and every picking session",
  "tests pick on one synthetic pulse",
  "array1d.py", [("auto_pick_first_arrivals / manual_pick_first_arrivals", "swprocess/array1d.py")])

p("C16", "Dispersion-image axes follow the requested frequencies and velocities",
  "For every transform, the image has one value per velocity and frequency. Velocities are as many as requested, "
  "reach both limits and are evenly spaced, or have a constant ratio when logarithmic. Frequencies are those of the "
  "record's spectrum, start at the one nearest the requested minimum, are one requested step apart after padding, and "
  "end at the last step not beyond the one nearest the requested maximum. Each transform name selects its transform.",
  ["inputs", "configurations"], "every pair of frequency and velocity limits and every padding",
  "tests use one unpadded record with limits on grid points",
  "wavefieldtransforms.py register.py",
  [("_frequency_keep_ids / _create_vector", "swprocess/wavefieldtransforms.py"), ("registry", "swprocess/register.py")])

p("C17", "Phase-shift power is the phase-corrected sum of unit spectra",
  "For every array and trial velocity, phase-shift power is the magnitude of the sum, weighted by sensor spacing "
  "(trapezoidal over offset), of each trace's unit-magnitude spectrum advanced by two pi times frequency times offset "
  "over velocity. It depends on the phases only: rescaling any single trace changes nothing. It holds with the "
  "source on either side.",
  ["inputs"], "every record and source side",
  "tests compare one synthetic image with a stored result",
  "wavefieldtransforms.py", [("PhaseShift.transform", "swprocess/wavefieldtransforms.py")])

p("C18", "Beamforming power is the steered, weighted cross-spectral form",
  "For every array, FDBF power is the real squared magnitude of the sum of the traces' spectra, weighted as asked "
  "(none, offset, or unit amplitude) and steered by the plane or cylindrical (Hankel phase) propagator for that "
  "frequency, velocity and offset. FK is the unweighted plane case whatever beamforming settings are given. "
  "Omitted settings mean no weighting and plane steering, and neither the settings nor the array are modified.",
  ["inputs", "configurations"], "every record, weighting, steering and source side",
  "tests compare one image per option with a stored result and never read the settings back",
  "wavefieldtransforms.py", [("FDBF / FK", "swprocess/wavefieldtransforms.py")])

p("C19", "Slant-stack power is the spectrum of the slope-summed records",
  "For every array and trial velocity, slant-stack power is the Fourier spectrum of the records summed, weighted by "
  "sensor spacing, along the line of slope one over velocity, interpolating linearly between samples and starting "
  "from the near sensor whichever side the source is on, at the frequencies kept.",
  ["inputs"], "every record, source side and set of trial velocities",
  "tests check one slant-stack of a small integer array",
  "wavefieldtransforms.py", [("SlantStack.transform / slant_stack", "swprocess/wavefieldtransforms.py")])

p("C20", "Images do not depend on where the array stands or on which side the source is",
  "Mirroring an array together with its source, or moving both along the line, gives the same dispersion image for "
  "every transform, weighting and steering.",
  ["inputs", "configurations"], "every record and transform",
  "tests have no pair of mirrored or shifted arrays",
  "wavefieldtransforms.py array1d.py",
  [("transform", "swprocess/wavefieldtransforms.py"), ("_flipped_tseries_and_offsets", "swprocess/array1d.py")])

p("C21", "Normalised, peak-picked and plotted power is by magnitude",
  "Normalising an image divides the magnitude of its power by the largest of the whole image, by the largest of each "
  "frequency, or by nothing, whatever was normalised before. Peak picking returns for each frequency "
  "the trial velocity with the largest magnitude, before and after normalising and for complex power. Plotting draws "
  "the image with the normalisation asked for on frequency and velocity axes, with levels that span it, and the peaks at those velocities, "
  "with the formatting asked for. "
  "Unknown modes are refused.",
  ["inputs", "histories"], "every image and sequence of normalisations",
  "tests normalise a small positive image once",
  "wavefieldtransforms.py", [("normalize / find_peak_power / plot", "swprocess/wavefieldtransforms.py")])

p("C22", "Stacking dispersion images gives their mean, each record counted once",
  "Stacking any sequence of images onto a placeholder gives the mean of their powers, and stacking stacks "
  "weights each by the number of images it holds. Counts add, the images given are unchanged, and something "
  "that is not an image is refused with AttributeError changing nothing.",
  ["inputs", "histories"], "every set of images and order of stacking",
  "tests stack two constant images",
  "wavefieldtransforms.py", [("stack / EmptyWavefieldTransform", "swprocess/wavefieldtransforms.py")])

p("C23", "Signal-to-noise ratio is by frequency, on the image's frequencies",
  "The signal-to-noise ratio at each frequency is the mean magnitude of the signal spectra over that of the noise "
  "spectra at that same frequency, and its frequencies are those a dispersion image of an equally padded record has. "
  "Windows of different length are refused with IndexError unless padded.",
  ["inputs", "configurations"], "every signal, noise, pair of frequency limits and padding",
  "tests check one unpadded pair of records",
  "snr.py wavefieldtransforms.py", [("SignaltoNoiseRatio.from_array1ds", "swprocess/snr.py")])

p("C24", "Time-domain workflows apply exactly the documented steps in order",
  "Running the time-domain or single workflow gives the image of the record obtained by stacking the files (the first "
  "file only for single), limiting offsets, detrending, trimming, padding and transforming in that order with the "
  "settings given, and returns that processed record. The signal-to-noise ratio, when asked for, compares the "
  "untrimmed noise window with the processed signal. Coordinate mappings are applied, the "
  "settings are not modified, a source inside the array is refused with ValueError, and unknown names with KeyError.",
  ["inputs", "configurations"], "every set of records and combination of steps",
  "tests run a workflow with mocked steps on fixed files",
  "maswworkflows.py masw.py", [("TimeDomainWorkflow / SingleMaswWorkflow", "swprocess/maswworkflows.py"),
                                ("Masw.run", "swprocess/masw.py")])

p("C25", "The frequency-domain workflow averages the images of the single records",
  "Running the frequency-domain workflow gives the mean of the images the single workflow gives for each file, each "
  "file counted once, on that record's frequencies and velocities, whatever steps are asked for; for one file it is "
  "that file's image. A file with another source or number of sensors is refused with ValueError. The "
  "signal-to-noise ratio is that of the first file, mappings apply to every file, one file name may be given as "
  "a string, and the settings are not modified.",
  ["inputs", "configurations"], "every set of records and combination of steps",
  "tests run the workflow with mocked arrays only",
  "maswworkflows.py wavefieldtransforms.py",
  [("FrequencyDomainMaswWorkflow", "swprocess/maswworkflows.py"), ("stack", "swprocess/wavefieldtransforms.py")])

p("C26", "Workflows mute every record with the lines picked once",
  "When muting is asked for, the two lines are picked once, on the first record after trimming, and every record "
  "processed is muted with those lines and with the window asked for (the default one if none). Without "
  "muting nothing is picked. An unknown mute method is refused with KeyError when muting is asked for.",
  ["inputs", "configurations"], "every set of records, pair of lines and window",
  "tests mock the picking and never look at the muted records",
  "maswworkflows.py array1d.py",
  [("mute", "swprocess/maswworkflows.py"), ("interactive_mute", "swprocess/array1d.py")])

p("C27", "Settings carry every choice given, independently",
  "Every keyword given when creating settings is found at its documented place with the value given, changing one "
  "keyword changes one setting only, settings not given have their documented defaults every time, settings created separately never share state "
  "with each other or with what was given, and settings survive being saved as JSON.",
  ["inputs", "configurations"], "every value of every setting",
  "tests compare one dictionary of settings",
  "masw.py", [("Masw.create_settings_dict", "swprocess/masw.py")])

p("C28", "Peak attributes stay aligned and derived quantities agree",
  "Peaks without a velocity are left out and the others are offered in the order given, with every attribute "
  "(frequency, velocity, azimuth, ellipticity, noise, power) of the same peak at the same place. Slowness, wavelength "
  "and wavenumber are those of each peak's frequency and velocity. Changing the data given, or values returned, "
  "afterwards changes nothing.",
  ["inputs"], "every set of peaks, missing peaks and further attributes",
  "tests use a few complete peaks",
  "peaks.py", [("__init__ / properties", "swprocess/peaks.py")])

p("C29", "Rejecting outside limits removes exactly the peaks beyond them",
  "Limits on any quantity, on one or both sides, reject exactly the peaks left that are below the lower or above the "
  "upper limit; peaks at a limit stay and two absent limits reject nothing. Rejections accumulate, never "
  "bring a peak back, and a suite applies them to every member.",
  ["inputs", "histories"], "every set of peaks, limits and sequence of rejections",
  "tests use integer peaks and limits away from them",
  "peaks.py peakssuite.py", [("reject_limits_outside", "swprocess/peaks.py"), ("reject_limits_outside", "swprocess/peakssuite.py")])

p("C30", "Rejecting inside a box removes exactly the peaks within it",
  "A box on any pair of quantities, its corners in either order, rejects exactly the peaks left that are strictly inside "
  "on both quantities. Boxes accumulate whatever their order, and a suite applies them to every member.",
  ["inputs", "histories"], "every set of peaks, box and sequence of boxes",
  "tests use one box per quantity pair",
  "peaks.py peakssuite.py", [("reject_box_inside", "swprocess/peaks.py"), ("reject_box_inside", "swprocess/peakssuite.py")])

p("C31", "Several peaks per frequency reduce to the strongest one left",
  "Reducing peaks found several per frequency gives, for each frequency with a peak left, the requested quantity of the "
  "peak with the largest power, or of the first left when there is no power; frequencies with none left are omitted. "
  "Peaks one per frequency are given as they are. The peaks themselves do not change.",
  ["inputs"], "every arrangement of missing and rejected peaks, velocity and power",
  "tests reduce one grid with one missing value",
  "peaks.py", [("simplify_mpeaks", "swprocess/peaks.py")])

p("C32", "Peaks and suites survive being saved as JSON",
  "Saving peaks or a suite and reading the file back gives equal peaks in the same order with the same identifiers and "
  "attributes; rejected peaks are kept and stay rejected. Appending keeps what is in the file and refuses an identifier "
  "already there with KeyError, leaving the file unmodified; otherwise the file is replaced. Reading from a dictionary "
  "leaves it unmodified.",
  ["inputs", "histories"], "every set of peaks, rejections and order of writing",
  "tests save and read complete peaks once",
  "peaks.py peakssuite.py", [("to_json / from_json / from_dict", "swprocess/peaks.py"), ("to_json / from_json", "swprocess/peakssuite.py")])

p("C33", "Peaks and suites compare by what they hold",
  "Two peaks objects are equal exactly when identifier, number and names of attributes and all values left agree; "
  "suites exactly when their members are, in order. Equality goes both ways, and anything else is not equal.",
  ["inputs"], "every pair of peaks and suites",
  "tests compare a few pairs differing in one place",
  "peaks.py peakssuite.py", [("__eq__", "swprocess/peaks.py"), ("__eq__", "swprocess/peakssuite.py")])

p("C34", "Reading .max files gives exactly the valid peaks of each window",
  "Reading a .max file gives, for each time window, exactly the lines of the wave type asked for that are marked valid, "
  "with the frequency, inverse slowness, azimuth, ellipticity and power written there, named by window and method. Reading "
  "a single set of peaks gives the first window. Vertical-component files are recognised when Rayleigh peaks are asked "
  "for, several files are read independently, and other software versions or unknown wave types are "
  "refused with ValueError.",
  ["inputs", "configurations"], "every digit in times, frequencies and values, and every arrangement of lines",
  "tests read four files whose times all have the same length and whose lines are all valid",
  "peaks.py peakssuite.py regex.py meta.py",
  [("_parse_peaks / from_max", "swprocess/peaks.py"), ("from_max", "swprocess/peakssuite.py"),
   ("get_peak_from_max / get_all / get_wavetype", "swprocess/regex.py"), ("check_geopsy_version", "swprocess/meta.py")])

p("C35", "A suite holds each set of peaks once, in the order given",
  "A suite holds exactly the peaks appended, in the order appended, found by index, by iteration and by identifier. An "
  "identifier already there is refused with KeyError and anything but peaks with TypeError, leaving the suite "
  "unchanged. Suites built from lists, dictionaries or other suites hold their members in order, are refused in the "
  "same way, and leave what they were built from unchanged.",
  ["inputs", "histories"], "every order of appending and every choice of identifiers",
  "tests append a few peaks with different identifiers",
  "peakssuite.py", [("append / from_peaks / from_dict / from_peakssuite", "swprocess/peakssuite.py")])

p("C36", "Sampling a suite gives one row per member, interpolated in its own peaks",
  "Sampling a suite at given positions returns these positions and one row per member: the value on the straight line "
  "between the neighbouring valid peaks of that member, missing outside the range of its valid peaks. Members "
  "without enough valid peaks around are missing there; with several peaks per frequency the strongest is sampled. The "
  "peaks stay unchanged.",
  ["inputs"], "every set of peaks, order, rejection and sampling position",
  "tests sample two sets at a few positions", "peakssuite.py peaks.py",
  [("to_array", "swprocess/peakssuite.py"), ("simplify_mpeaks", "swprocess/peaks.py")])

p("C37", "Statistics of a suite are those of the values there are",
  "The statistics give, at each position kept, the mean and the sample standard deviation of the values members have "
  "there; positions where fewer members than asked for (or none) have a value are dropped, all others are kept in "
  "order, and a member counts wherever it has a value (one with values at under a hundredth of the positions may be "
  "left out). The correlation is Pearson's between positions kept, with missing values left missing or replaced by the "
  "mean of their position when asked for. Fewer than three members are refused with ValueError.",
  ["inputs"], "every set of values and pattern of missing ones",
  "tests use three members with a few fixed patterns", "peakssuite.py stats.py",
  [("statistics", "swprocess/peakssuite.py"), ("_drop_indices / _mean / _std / _corr", "swprocess/peakssuite.py")])

p("C38", "Resolution limits lie where they say",
  "Every point of a resolution limit drawn or calculated on frequency or wavelength against velocity, slowness or "
  "wavenumber is at the wavelength or wavenumber given; the two limits span the view (or positions) given. Any other "
  "combination is refused with NotImplementedError when calculated and draws nothing.",
  ["inputs", "configurations"], "every limit, view and pair of axes",
  "tests calculate one limit", "peakssuite.py",
  [("calc_resolution_limits / plot_resolution_limits", "swprocess/peakssuite.py")])

p("C39", "Plots show exactly the peaks that are valid, on the axes asked for",
  "Plotting peaks or a suite draws for each pair of quantities, on new axes or those given, each member once as "
  "markers: exactly its valid peaks (or those of the mask) with the quantities asked for, with formatting "
  "common to all or one per member, labels shown once, and axes labelled and scaled for the quantities. "
  "Statistics are drawn as mean with one standard deviation. The formatting given is left unchanged; unknown quantities, unequal "
  "numbers of abscissae, ordinates, axes or masks are refused.",
  ["inputs", "configurations"], "every set of peaks and rejections, pair of quantities and formatting",
  "tests only run the plots without looking at them", "peaks.py peakssuite.py register.py",
  [("plot / _plot / _configure_axes / _prepare_plot_kwargs", "swprocess/peaks.py"), ("plot / plot_statistics", "swprocess/peakssuite.py")])

p("C40", "Interactive trimming removes exactly the boxes confirmed",
  "During interactive trimming, boxes drawn between two corners on one pair of axes pend until an empty box is drawn; "
  "the user is then asked, again when the answer is not understood, whether to keep on, undo or quit. Peaks "
  "strictly inside a pending box are rejected when the answer is to go on or quit, and are kept when it is undo; nothing "
  "else is rejected. Boxes over two axes or outside are drawn again. The view stays as it was and the peaks left are "
  "shown at the end.",
  ["inputs", "histories"], "every history of boxes, misplaced clicks and answers",
  "there are no tests of interaction", "peakssuite.py peaks.py interact.py",
  [("interactive_trimming / _draw_box", "swprocess/peakssuite.py"), ("blitz / reject_inside", "swprocess/peaks.py")])

p("C41", "A picking session returns the points picked, in order, and ends as documented",
  "A picking session returns the last point of every selection, in the order picked, each marked once on the axes. It "
  "starts only after the view is accepted by a key, asks again when nothing was selected, waits for a key after every "
  "point when asked to, and ends after the number of points asked for or when left by a key after a point.",
  ["inputs", "histories"], "every sequence of selections, key presses, clicks and time-outs",
  "tests script two sessions", "interact.py", [("ginput_session", "swprocess/interact.py")])

p("C42", "Extracted time blocks hold exactly the samples of the block",
  "For every row of the table one file is written, named by network, station, array and extension in the folder asked "
  "for (made if needed), that holds, from the hourly files of that station, every sample from the start to the end asked "
  "for, each at its own time, also across days, months and years; gaps within are filled. A block that ends before it "
  "starts is refused with ValueError; a missing hour or a table that cannot be read is refused. "
  "Nothing is written for a block refused.",
  ["inputs"], "every start and end, station and set of hourly files",
  "tests extract three blocks of one day", "utils.py", [("extract_mseed", "swprocess/utils.py")])

p("C43", "Statistics with missing data keep every value where it belongs",
  "Sorting observations only changes their order, those with values at earlier positions first. Regions cover every "
  "position once, start at a value, are at least as dense as asked for and cannot be enlarged. Filling replaces only what is missing "
  "by draws with the mean and deviation of its own position. Dropping leaves exactly the rows and columns that hold "
  "enough values, with their positions. Mean, deviation and density are those of the values there are.",
  ["inputs"], "every matrix and pattern of missing values",
  "tests use a few fixed matrices", "stats.py",
  [("_sort / _identify_regions / _fill_data", "swprocess/stats.py"), ("_drop / _calc_stat / _calc_density", "swprocess/stats.py")])

p("C44", "Least-squares updates and covariances satisfy the normal equations",
  "The updated parameters balance prior and data by their covariances: they solve the normal equations of the weighted "
  "least-squares problem linearised at the last iteration; the posterior precision is the prior precision plus that of "
  "the data. What is handed in stays unchanged.",
  ["inputs"], "every prior, data, derivative and covariance of small size",
  "there are no tests", "inversion.py",
  [("leastsquare_iterativealgorithm", "swprocess/inversion.py"), ("leastsquare_posterioricovmatrix", "swprocess/inversion.py")])

p("C45", "Sources compare by position and names give the classes registered",
  "A source keeps its position, equals exactly the sources at the same place and can be copied. A name in a registry "
  "gives the class registered last under it and instances are made with the arguments given; other names are refused "
  "with KeyError, and the registries of transforms and workflows are separate.",
  ["inputs", "histories"], "every position and order of registering",
  "tests compare three sources", "source.py register.py",
  [("Source", "swprocess/source.py"), ("AbstractRegistry", "swprocess/register.py")])

p("C46", "Drawings show the records, array, ratio and image as they are",
  "The waterfall draws every record once over its time, around its receiver's position, scaled and normalised as asked "
  "for, on the axis asked for, with all of them in view. The schematic draws receivers and source where they are. The "
  "signal-to-noise ratio is drawn over its frequencies and the near-field line at the wavelength asked for. "
  "Drawing leaves records, positions and the formatting given unchanged.",
  ["inputs", "configurations"], "every record, geometry, scale and choice of axes",
  "tests only run the drawings", "array1d.py wavefieldtransforms.py",
  [("waterfall / plot", "swprocess/array1d.py"), ("plot_snr / plot", "swprocess/wavefieldtransforms.py")])

p("C47", "Records of coded sources are correlated with the mean source signal",
  "Reading receiver and source files gives the array of the receiver files with the shot's source, whose signal is the mean "
  "of the chosen channel over the source files, whatever their sample type. Correlating replaces every record by its "
  "cross-correlation with that signal, all from one common lag on, one sample per lag, from about half a second before the fastest "
  "arrival at the nearest receiver to the slowest at the farthest, as far as the records go, with velocities of 50 to 3000 m/s unless "
  "given. Positions, step, stack counts, source and the records handed in stay. The workflow correlates after limiting "
  "offsets, detrending and trimming and before padding and transforming, and leaves the settings unmodified; any other workflow is "
  "refused with NotImplementedError.",
  ["inputs", "configurations"], "every record, source signal, geometry and velocity limits",
  "there are no tests", "array1d.py masw.py maswworkflows.py",
  [("Array1DwSource.from_files / xcorrelate", "swprocess/array1d.py"), ("TimeDomainXcorrMaswWorkflow", "swprocess/maswworkflows.py"),
   ("MaswXcorr.run", "swprocess/masw.py")])

p("C48", "Statistics of a data matrix are those of its values, missing ones drawn",
  "Statistics of a matrix of observations give, for every position with at least three values (or as asked for), mean and sample "
  "deviation of the values there are and, when the values form one dense region, the correlation of the positions. Missing values within are drawn with mean "
  "and deviation of their position, again when mean or variation would change, up to the attempts asked for; then the matrix is "
  "refused with ValueError. A suite's statistics are those of the suite sampled at the positions asked for. The matrix, positions "
  "and suite handed in stay unchanged.",
  ["inputs"], "every matrix and sequence of draws",
  "tests check the steps on fixed matrices, not the whole", "stats.py",
  [("from_data_matrix / from_peakssuite", "swprocess/stats.py")])
