P("C01", "Every light contribution gives Poisson shot noise, and only those do",
  "For each signal contribution recorded for a target, whatever the number of contributions, the reported photon noise of each spectral bin of a channel is the Poisson noise of that contribution in one hour, scaled by the photon-noise gain of the read-out scheme; the photon noise variance entering the budget is the sum over exactly those contributions. Nothing else in the target table or in the output changes.",
  [IN, CF], "all target tables (any number of rows, channels and bins, any non-negative signals and units), any read-out gain",
  "The tests compare one table with two signals; a contribution that is dropped, double counted, taken from another channel's rows or in another unit shows only for other sets of columns.",
  ["exorad/models/noise.py"], [("per contribution photon noise", "exorad/models/noise.py:photon_noise"), ("variance sum", "exorad/models/noise.py:photon_noise_variance")])
P("C02", "Total noise is the full noise budget relative to the star signal",
  "In every bin of every channel the total noise is the square root of dark-current variance, read-noise variance and photon-noise variance (the latter increased by the channel's excess factor, and with the gains of the read-out scheme of that channel), divided by the star signal in the aperture; dark current and read-out noise grow with the number of pixels of the extraction window and follow the channel's frame time. Where the star gives no signal the total noise is undefined rather than a number, and the input table is not changed.",
  [IN, CF], "all target tables, detector descriptions, with or without fixed frame time, multiple reads, excess factor, any set of contributions",
  "One fixed detector is tested; a wrong gain, unit, window factor or missing term is invisible when the tested value happens to be 1 or 0.",
  ["exorad/tasks/noiseHandler.py", "exorad/models/noise.py"], [("noise budget", "exorad/tasks/noiseHandler.py:EstimateNoiseInChannel"), ("gains", "exorad/models/noise.py:multiaccum")])
P("C03", "Custom noise adds in quadrature from every configured source",
  "Each custom noise entry, of the common section and of the channel section, whether single or listed with others, adds in quadrature to the total noise of every bin and is reported in its own column: constants are in parts per million, data files give a relative noise in units of the square root of an hour as a function of wavelength. No entry is lost, applied twice or allowed to alter other columns.",
  [IN, CF], "all combinations of zero, one or several entries in both sections, all values, all noise data files and bin grids",
  "No test configures a data-file noise or several entries at once in both sections.",
  ["exorad/models/noise.py", "exorad/tasks/noiseHandler.py"], [("custom noise", "exorad/models/noise.py:add_custom_noise"), ("sections", "exorad/tasks/noiseHandler.py:EstimateNoiseInChannel")])
P("C04", "Saturation and frame times protect the brightest pixel",
  "The saturation time of each bin is the full well divided by the largest pixel signal of that bin, summed over every light contribution. Unless the channel fixes it, the frame time is the same for all bins of the channel and equals the requested fraction of the shortest saturation time in that channel, so no pixel of the channel exceeds that fraction of its well.",
  [IN, CF], "all tables with any number of channels and bins, any well depth and fraction in any compatible unit, fixed or computed frame times",
  "The tests look at one channel; using another channel's rows, an average instead of the minimum or a per-bin frame time needs particular tables.",
  ["exorad/models/noise.py"], [("frame time", "exorad/models/noise.py:frame_time")])
P("C05", "Read-out gains follow the multi-read formula",
  "The read-noise and photon-noise gains depend only on the number of complete non-destructive reads that fit in a frame, never fewer than two, and on the number of reads averaged per group, whatever the units of time and frequency: read gain 12(n-1)/(n(n+1)m), photon gain 6(n^2+1)/(5n(n+1)). The photon gain is never below one.",
  [IN, CF], "all frame times, read frequencies and group sizes",
  "The test evaluates one frame time; rounding, the two-read floor and the group size act only elsewhere.",
  ["exorad/models/noise.py"], [("gains", "exorad/models/noise.py:multiaccum")])
P("C06", "Largest pixel signal sums every contribution, once",
  "The largest pixel signal reported for each bin is the sum over all recorded per-pixel maxima of the star, the instrument and the foregrounds; each is counted once. Adding it leaves every other column of the target table as it was.",
  [IN, HI], "all target tables with any set of per-pixel maxima columns and any number of bins",
  "The pipeline test never compares the sum.",
  ["exorad/tasks/targetHandler.py"], [("sum of maxima", "exorad/tasks/targetHandler.py:EstimateMaxSignal"), ("table update", "exorad/tasks/targetHandler.py:UpdateTargetTable")])
P("C07", "Transmission is the ordered product over every optical element",
  "The transmission of a channel at each wavelength is the product of the transmissions of all common and all channel elements, common ones first, each taken from the configured column or constant, interpolated linearly, zero outside its data, and zero outside the wavelength limits of the element. The transmission of a spectral bin is the average of that product in the bin, and it is zero outside the channel band exactly when the configuration asks for sharp channel edges.",
  [IN, CF], "all element descriptions (default, constant transmission or reflectivity, both with a choice, data tables), wavelength limits, wavelength grids, element counts and orders up to the stated bound",
  "The tests multiply constant transmissions of a few fixed elements on one grid.",
  ["exorad/models/optics/opticalElement.py", "exorad/models/optics/opticalPath.py", "exorad/models/instruments/instrument.py"],
  [("element transmission", "exorad/models/optics/opticalElement.py:OpticalElement._get_transmission"), ("product", "exorad/models/optics/opticalPath.py:OpticalPath.build_transmission_table"),
   ("binning and edges", "exorad/models/instruments/instrument.py:Instrument._get_transmission")])
P("C08", "Thermal emission of an element is dimmed by everything after it",
  "Each optical element that has a temperature emits its emissivity times the black body of that temperature, multiplied by the transmission of every later element and of no earlier one; elements without a temperature emit nothing. A detector enclosure without a stated emissivity is a black body, other elements default to no emission; whether a slit lies downstream, the kind of position, a custom solid angle and the slit width are carried along correctly.",
  [IN, CF], "all sequences of element kinds up to the stated bound, all temperatures, emissivities, transmissions and grids",
  "The tests check two or three fixed chains without slits or custom solid angles.",
  ["exorad/models/optics/opticalPath.py", "exorad/models/optics/opticalElement.py"],
  [("emission chain", "exorad/models/optics/opticalPath.py:OpticalPath.chain"), ("element parameters", "exorad/models/optics/opticalElement.py:OpticalElement")])
P("C09", "Instrument self-emission signal obeys photometric conversion",
  "The signal of each emitting element is its radiance times quantum efficiency times photons per joule times pixel area and solid angle, integrated over wavelength and multiplied by the extraction window size, with solid angle pi for the detector enclosure, pi minus the beam for the optics box, the beam solid angle for the optical path, or the custom one. Light emitted before a slit is dispersed and spread over the slit width instead of integrated over the whole band; the instrument signal is the sum over all elements and the prepared channel data are not altered.",
  [IN, CF], "all radiances, grids, efficiencies, pixel sizes, focal ratios, windows, elements before or after the slit, up to the stated element count",
  "The tests check the order of magnitude of a couple of elements on one configuration.",
  ["exorad/models/optics/opticalPath.py", "exorad/utils/diffuse_light_propagation.py"],
  [("signal", "exorad/models/optics/opticalPath.py:OpticalPath.compute_signal"), ("integration", "exorad/utils/diffuse_light_propagation.py:integrate_light"),
   ("slit", "exorad/utils/diffuse_light_propagation.py:convolve_with_slit"), ("inputs", "exorad/utils/diffuse_light_propagation.py:prepare")])
P("C10", "Diffuse foregrounds are attenuated by what lies in front and by the optics",
  "The signal of each diffuse foreground is its radiance attenuated by the transmission of every foreground listed after it (closer to the telescope) and by the channel optics, never by its own transmission or by earlier ones, converted to counts exactly as the light of the optical path is, through the slit when the channel has one. Observing leaves the target's foregrounds and the prepared channel data unaltered.",
  [IN, CF], "all numbers and orders of foregrounds up to the stated bound, with and without own transmission, all radiances, grids and channels",
  "The test payload has a single absorbing foreground listed last and no assertion on its attenuation.",
  ["exorad/models/instruments/instrument.py", "exorad/utils/diffuse_light_propagation.py"],
  [("foreground propagation", "exorad/models/instruments/instrument.py:Instrument.propagate_diffuse_foreground")])
P("C11", "Star signal in each bin follows the photometric conversion",
  "The signal of the star in each spectral bin is its flux at the telescope times the collecting area, the efficiency of the channel (quantum efficiency times transmission, each interpolated on the working grid), the transmission of the foregrounds crossed, the fraction of light inside the extraction window, and photons per joule, integrated over the bin. The per-pixel maximum is what the brightest pixel of the detector collects. The target's spectrum and the built channel are left as they were.",
  [IN, CF], "all spectra, grids, efficiencies, areas, bins and windows; photometers and spectrometers; targets with and without foreground transmission",
  "The tests run one star through one payload and compare no value of the signal.",
  ["exorad/models/instruments/photometer.py", "exorad/models/instruments/spectrometer.py", "exorad/models/instruments/instrument.py"],
  [("photometer", "exorad/models/instruments/photometer.py:Photometer.propagate_target"), ("spectrometer", "exorad/models/instruments/spectrometer.py:Spectrometer.propagate_target"),
   ("efficiency", "exorad/models/instruments/instrument.py:Instrument._get_efficiency")])
P("C12", "Spectral bins tile the band of the channel",
  "A photometer has one bin that spans its band. The bins of a spectrometer are contiguous and increasing, start at the lower edge of the band, reach the upper one, and have the width that the required resolving power asks for at the bin (or the native resolution of the detector), a remainder smaller than half a bin at the end of a tabulated resolving power being merged; centre and width are consistent with the edges. The pixel bandwidth follows the wavelength solution and every bin table lists one row per bin.",
  [IN, CF], "all bands, resolving powers and wavelength solutions (fixed resolving power and native modes for all values; tabulated resolving powers within the stated bound)",
  "The tests build two channels; gaps, overlaps or a lost last bin appear for other bands and resolutions.",
  ["exorad/models/instruments/photometer.py", "exorad/models/instruments/spectrometer.py"],
  [("photometer bin", "exorad/models/instruments/photometer.py:Photometer._wavelength_table"), ("spectrometer bins", "exorad/models/instruments/spectrometer.py:Spectrometer._wavelength_table"),
   ("pixel grid", "exorad/models/instruments/spectrometer.py:Spectrometer.builder")])
P("C13", "Resampling averages fine data and interpolates coarse data",
  "Resampling a function on a new wavelength grid returns one value per point of that grid: the plain average of the samples in each bin (bins meet half way between neighbouring grid points) when every step of the source around the new grid (up to a tenth beyond it) is shorter than every step of the grid, otherwise (also for a grid of one point) the linear interpolation of the samples, zero outside them. It does not depend on the order of the samples, a grid given in decreasing order receives the values of the increasing one, and resampling is proportional to the samples, leaves a function on its own grid unchanged, never alters its inputs, keeps the unit and rejects grids in different units.",
  [IN], "all increasing and decreasing grids and all samples, finer or coarser",
  "The tests compare one smooth function within a tolerance; closing bins, windows and units are not exercised.",
  ["exorad/utils/exolib.py"], [("resampling", "exorad/utils/exolib.py:rebin")])
P("C14", "Thermal radiance is Planck's law",
  "The black-body radiance used for every thermal source is Planck's spectral radiance in W m-2 sr-1 um-1, with the CODATA radiation constants to five digits, positive, and increasing with temperature at every wavelength.",
  [IN], "all wavelengths and temperatures for which the exponential does not overflow",
  "The test compares one temperature.",
  ["exorad/utils/exolib.py"], [("black body", "exorad/utils/exolib.py:planck")])
P("C29", "Extraction windows and collected fractions follow the point spread function",
  "The extraction window of each spectrometer bin is its spectral width (pixels the bin covers along the wavelength solution) times its spatial width (twice the Airy radius, or the configured encircled-energy radius at the wavelength of the bin, times cross-dispersion focal ratio, wavelength and scale over the pixel size), each replaced by the configured fixed number of pixels. A photometer's window follows from the configured radius or from the smallest aperture around the image of the point spread function that collects the configured encircled energy, found for every achievable energy; energies no aperture can collect are rejected. The largest pixel share sampled along the spectrum comes from the point spread function convolved with the pixel at that wavelength, with the configured wave-front error.",
  [IN, CF], "all wavelength solutions, encircled-energy tables, bands, pixel sizes, focal ratios, configured overrides and PSF kinds",
  "The tests run one payload and look at the table keys.",
  ["exorad/models/instruments/spectrometer.py", "exorad/models/instruments/photometer.py", "exorad/utils/exolib.py"],
  [("aperture search", "exorad/utils/exolib.py:find_aperture_radius"), ("encircled energy", "exorad/utils/exolib.py:encircled_energy"), ("spectrometer windows", "exorad/models/instruments/spectrometer.py:Spectrometer.builder"), ("photometer window", "exorad/models/instruments/photometer.py:Photometer._windows_size"),
   ("photometer", "exorad/models/instruments/photometer.py:Photometer.builder")])
P("C30", "Detector quantum efficiency comes from the configured table",
  "The quantum efficiency of a channel is the configured constant between the band edge and the cut-off wavelength of the detector, or the data column of the channel, interpolated linearly on the working grid and zero outside the data; the value reported for a bin is its average in the bin. A data file without a wavelength column is rejected.",
  [IN, CF], "all tables, wavelength columns and grids",
  "The tests use one constant efficiency.",
  ["exorad/models/instruments/instrument.py", "exorad/models/utils.py"],
  [("quantum efficiency", "exorad/models/instruments/instrument.py:Instrument._get_qe"), ("bin average", "exorad/models/instruments/instrument.py:Instrument._bin_signal"),
   ("wavelength column", "exorad/models/utils.py:get_wl_col_name")])
P("C15", "Zodiacal light follows the two-temperature model in the target's direction",
  "The zodiacal foreground of a target is the sum of a 5500 K and a 270 K black body with the documented weights on the working wavelength grid, scaled by the coefficient of the map point nearest in right ascension and declination to the pointing when a map is used, otherwise (no map, no pointing, or a map that cannot be used) by the configured factor, or zero when none is given. A configured map replaces the one of the package. It is recorded under its own name and leaves other foregrounds, the star and the description as they were.",
  [IN, CF], "all maps, pointings in any angular unit, factors and wavelength ranges; maps that cannot be read or lack a column",
  "The tests use one map, one pointing and never a failing map.",
  ["exorad/models/foregrounds/zodiacalForeground.py", "exorad/tasks/foregroundHandler.py"],
  [("zodiacal model", "exorad/models/foregrounds/zodiacalForeground.py:ZodiacalFrg"), ("task", "exorad/tasks/foregroundHandler.py:EstimateZodi.execute")])
P("C16", "Stellar spectra are diluted and chosen as configured",
  "The spectrum of a target's star is a black body, the library model nearest in temperature, gravity and metallicity, or the configured file, times the solid angle of the star (black body) or the squared ratio of radius and distance, resampled on the working grid between the limits of the instrument, in W m-2 um-1. Stars the library does not cover fall back to a black body; missing information (for a configured file, radius and distance are enough) or a missing library is rejected. Luminosity, model name and the star's metadata are recorded on the target.",
  [IN, CF], "all stars, model spectra, libraries up to the stated size, wavelength ranges given in either order",
  "The tests load two stars with one source kind each.",
  ["exorad/models/source.py", "exorad/tasks/loadSource.py", "exorad/models/target.py"],
  [("star", "exorad/models/source.py:Star"), ("custom spectrum", "exorad/models/source.py:CustomSed"), ("task", "exorad/tasks/loadSource.py:LoadSource.execute"),
   ("surface gravity", "exorad/models/target.py:Target.calc_logg")])
P("C31", "Sky foregrounds are interpolated and multiply along the line of sight",
  "The radiance and the transmission of a sky foreground are those of its data file interpolated on the working grid, no light and full transparency outside the data. The foregrounds of a target are exactly those configured, in their order, and the transmission that its light crosses is the product of theirs; what an earlier observation left on the target does not matter, and the descriptions are not altered.",
  [IN, CF], "all data tables and grids in any unit; payloads with one to three foregrounds of every mixture of kinds",
  "The tests use one sky foreground on one grid.",
  ["exorad/models/foregrounds/skyForegrounds.py", "exorad/tasks/foregroundHandler.py"],
  [("sky data", "exorad/models/foregrounds/skyForegrounds.py:SkyForeground"), ("all foregrounds", "exorad/tasks/foregroundHandler.py:EstimateForegrounds.execute")])
P("C17", "Tables keep every row, channel and signal when put together",
  "Stacking and merging tables keeps every row in channel order and the values and units of every column; cells a table does not define are filled with zeros or empty text, and the tables put in are neither altered nor shared with the result. The target's table has the same rows, in the same channel order, as the channels of the payload, carries each channel's own values, and one signal column (and per-pixel column) per light source; noise rows are merged by channel and bin. A name that exists already is replaced or left, as asked.",
  [IN, CF], "all tables with any number of rows, any mixture of columns, units and texts; payloads of one to three channels; any set of foregrounds",
  "The tests stack tables with the same columns; aliasing, missing columns, other channel orders and units need other inputs.",
  ["exorad/utils/util.py", "exorad/tasks/targetHandler.py", "exorad/tasks/propagateLight.py", "exorad/tasks/noiseHandler.py", "exorad/tasks/instrumentHandler.py"],
  [("stack", "exorad/utils/util.py:vstack_tables"), ("merge", "exorad/tasks/instrumentHandler.py:MergeChannelsOutput"), ("target table", "exorad/tasks/targetHandler.py:UpdateTargetTable"),
   ("propagation", "exorad/tasks/propagateLight.py:PropagateTargetLight"), ("noise table", "exorad/tasks/noiseHandler.py:EstimateNoise")])
P("C18", "Observing a target does not depend on what was observed before",
  "What is reported for a target depends on the target, the payload and the options alone: observing other targets first, observing the same target again or with another payload before gives the same table, spectrum and foregrounds, and observing never alters the payload or its built channels.",
  [IN, HI], "all payloads, targets and earlier observations (of the same or another target, with the same or another payload)",
  "Each test observes once with a fresh payload; state left behind shows only in the second observation.",
  ["exorad/tasks/targetHandler.py", "exorad/tasks/foregroundHandler.py", "exorad/models/instruments/instrument.py"],
  [("observation", "exorad/tasks/targetHandler.py:ObserveTarget"), ("foregrounds", "exorad/tasks/foregroundHandler.py:EstimateForegrounds"), ("propagation", "exorad/models/instruments/instrument.py:Instrument")])
P("C19", "Every target of the list is observed once, alone or in parallel",
  "The observed list holds exactly one entry per target of the target list, each the result of observing that target, whatever the number of processes and the order in which they finish. A target that cannot be observed is skipped and reported under its name without affecting any other. The pipeline passes the configured payload, list and options to every step and saves what was observed; every option of the command line reaches it.",
  [IN, HI, CF], "all target lists up to the stated size, any subset of failing targets, any number of processes, any completion order",
  "The tests run two targets in one process and none fails.",
  ["exorad/tasks/targetHandler.py", "exorad/exorad.py"],
  [("list", "exorad/tasks/targetHandler.py:ObserveTargetlist"), ("to dictionary", "exorad/tasks/targetHandler.py:pipeline_to_dict"), ("pipeline", "exorad/exorad.py:standard_pipeline"), ("command", "exorad/exorad.py:main")])
P("C20", "Tasks accept exactly their declared parameters",
  "Each task takes the parameters it declares, uses the value given or else the default, and starts every call from the defaults, so no value of an earlier call survives. A parameter that the task does not declare is rejected, for every task of the package.",
  [IN, HI], "all tasks of the package, all parameter names and values, any sequence of calls",
  "The test checks one task and one missing name.",
  ["exorad/tasks/task.py"], [("parameters", "exorad/tasks/task.py:Task")])
P("C21", "Saved output reads back as it was written",
  "Everything stored in an HDF5 file - numbers, flags, texts, lists, arrays, quantities with their units, options, spectra, tables and nested dictionaries of these - reads back with the same names, values and units; the columns of a table can also be read one by one. Groups and files opened again keep what they held, objects that cannot be stored are reported instead of dropped, and storing alters nothing. Built channels read from an earlier run can be observed with.",
  [IN, HI, FS], "all values, units, table and array sizes, nesting up to the stated depth, appending or replacing",
  "The tests write one dictionary and compare few of its entries.",
  ["exorad/output/hdf5/hdf5.py", "exorad/output/hdf5/util.py", "exorad/tasks/instrumentHandler.py", "exorad/models/target.py"],
  [("write", "exorad/output/hdf5/util.py:store_thing"), ("read", "exorad/output/hdf5/util.py:recursively_read_dict_contents"), ("targets", "exorad/models/target.py:Target.write"),
   ("payload", "exorad/tasks/instrumentHandler.py:LoadPayload")])
P("C22", "Option files are read with their values, units and nesting",
  "Loading an option file gives every entry of the file under its name with its value: numbers as numbers (with the unit given, as quantities), True and False as flags, other text unchanged, children nested, entries that repeat a name all kept in the order of the file under their own value. __ConfigPath__ stands for the path given on the call or else for the one written in the file; tables and dictionaries named by an entry are read and attached, and a file that cannot be read is an error. Listing the channels of a kind gives exactly those, in order.",
  [IN, CF], "all numbers, the stated texts and units, up to four entries per level and three levels, one or more channels",
  "The tests load one payload file and look at few entries.",
  ["exorad/tasks/loadOptions.py", "exorad/tasks/instrumentHandler.py"],
  [("loader", "exorad/tasks/loadOptions.py:LoadOptions"), ("channel list", "exorad/tasks/instrumentHandler.py:GetChannelList")])
P("C23", "Target lists give every target its own parameters and units",
  "Every row of a csv, mission (MRS), spreadsheet or table target list becomes one target, in order, whose star and planets carry exactly the numbers of that row in the units of the header (abbreviations and decimal commas included), and names as text; values are never taken from another row, column or unit. Searching a target finds exactly the targets whose star or planet has that name, whatever the case, blanks and dashes. Numbers without units in a table are rejected.",
  [IN, CF], "all numbers; up to three targets, the stated column layouts and units",
  "The tests load single files with one target.",
  ["exorad/models/targetlist.py", "exorad/tasks/targetHandler.py"],
  [("csv", "exorad/models/targetlist.py:CSVTargetList"), ("MRS", "exorad/models/targetlist.py:CSVTargetListMRS"), ("spreadsheet", "exorad/models/targetlist.py:XLXSTargetList"),
   ("table", "exorad/models/targetlist.py:QTableTargetList"), ("task", "exorad/tasks/targetHandler.py:LoadTargetList")])
P("C24", "Signals keep their physical values, units and sizes",
  "A signal (spectrum, radiance, counts, custom) holds the physical values it was given, whatever compatible unit they and the wavelengths or times were given in, in its own unit; quantities of another kind are rejected. Data has one value per wavelength (and per time), anything else is rejected. Moving a signal to another wavelength grid resamples the data on that grid, with undefined values set to zero, and does not alter what the signal was built from.",
  [IN, CF], "all data and grids, with or without units, any compatible or incompatible unit, one or several times",
  "The tests use one spectrum in its own units.",
  ["exorad/models/signal.py"], [("signal", "exorad/models/signal.py:Signal"), ("custom signal", "exorad/models/signal.py:CustomSignal")])
P("C25", "The program starts whatever the update check finds",
  "Checking for a newer version never stops the program, whatever the network or the server answers, unless a newer version exists and stopping was requested. A newer release is announced with its version and with exactly the changes since the current one; nothing is announced when the newest release is the current one or cannot be found out.",
  [IN, CF], "all kinds of network failures and replies listed in the contract; changelogs of up to five releases",
  "The tests feed two changelogs; failures after the connection check are not tested.",
  ["exorad/utils/version_control.py"], [("version check", "exorad/utils/version_control.py:VersionControl")])
P("C26", "Beam solid angle is that of the elliptical cone of the focal ratios",
  "The solid angle of the beam reaching a pixel is that of the cone whose half apertures are one over twice the focal ratios along the two axes, in steradian: Conway's closed form for any two ratios in either order, the circular cone when one ratio is given or both are equal, always below the half sphere and smaller for slower beams.",
  [IN], "all focal ratios",
  "The tests evaluate no solid angle; a swapped axis or factor cancels for circular beams.",
  ["exorad/utils/exolib.py"], [("solid angle", "exorad/utils/exolib.py:OmegaPix")])
P("C27", "Point spread functions are sampled, chosen and integrated on the pixel",
  "The pixel response is the point spread function integrated over a pixel of the given size, whole samples counting fully and the ends by their fraction: without a file the Airy pattern of the focal ratios and wavelength, summing to one; from a FITS file with its own sampling; from a folder the file nearest in wavelength; from a PAOS file the squared amplitude of the last surface, linear in wavelength between the computed ones. Images sampled at pixels are used as they are. The extent returned is that of the image; missing files and wrong units are reported.",
  [IN, CF], "all focal ratios, wavelengths, pixel sizes, images and headers; folders of up to three files, PAOS files of up to three wavelengths",
  "The tests use one PSF file at one wavelength.",
  ["exorad/utils/exolib.py"], [("binned", "exorad/utils/exolib.py:binnedPSF"), ("pixel based", "exorad/utils/exolib.py:pixel_based_psf"), ("PAOS", "exorad/utils/exolib.py:paosPSF"),
   ("interpolation", "exorad/utils/exolib.py:interpolate_paos_psf")])
P("C28", "Inputs that cannot be used are rejected, not guessed",
  "Unknown channel classes, payload and target list formats, optical elements that leave open which efficiency applies or whose table lacks a needed column, spectrometers without wavelength solution or with an unreadable resolution, and folders without stellar models are rejected with an error before anything is built or written. Updating a target with an unsupported object warns and leaves the target as it was. A selection of targets gives exactly the listed numbers and inclusive ranges (written 3-5 or 3:5), and nothing if it cannot be read.",
  [IN, CF], "all payloads and tables with the stated flaws",
  "The tests cover valid inputs.",
  ["exorad/tasks/instrumentHandler.py", "exorad/tasks/targetHandler.py", "exorad/models/optics/opticalElement.py", "exorad/models/target.py", "exorad/utils/util.py"],
  [("channels", "exorad/tasks/instrumentHandler.py:BuildInstrument"), ("payload", "exorad/tasks/instrumentHandler.py:PreparePayload"), ("target list", "exorad/tasks/targetHandler.py:LoadTargetList"),
   ("optical element", "exorad/models/optics/opticalElement.py:OpticalElement"), ("target", "exorad/models/target.py:Target.update_target"), ("selection", "exorad/utils/util.py:parse_range")])
P("C32", "Every configured channel is built once from its own description",
  "Building the channels of a payload gives, in the order of the payload, exactly one instrument per channel, of the configured kind, built once from the description of that channel and the whole payload, which is not altered; a single channel works like several. Preparing a payload also returns the wavelength range of the payload, reads the file only when one is named, and saves payload and channels in the output file, keeping what the file already held.",
  [IN, CF, FS], "all payload values; one to three channels of either kind; with or without new or existing output file",
  "The tests build one payload without output.",
  ["exorad/tasks/instrumentHandler.py", "exorad/models/instruments/instrument.py"],
  [("channels", "exorad/tasks/instrumentHandler.py:BuildChannels"), ("payload", "exorad/tasks/instrumentHandler.py:PreparePayload"), ("instrument", "exorad/models/instruments/instrument.py:Instrument")])
P("C33", "Lengths in option files mean the same in any unit",
  "Wavelength limits, slit widths, pixel sizes, wavelength columns of tables and stellar wavelength ranges may be written in any unit of length, also different ones in the same description: transmission, emission, photometer and spectrometer windows and bins, pixel responses, collected signals and foregrounds are those of the same lengths written in micron.",
  [IN, CF], "all values of the lengths, written in nanometre or millimetre instead of micron, in each description separately",
  "All option files of the tests write lengths in micron, where a missing or doubled conversion is invisible.",
  ["exorad/models/instruments/instrument.py", "exorad/models/instruments/photometer.py", "exorad/models/instruments/spectrometer.py", "exorad/models/optics/opticalElement.py", "exorad/utils/exolib.py",
   "exorad/models/foregrounds/skyForegrounds.py"],
  [("optical path", "exorad/models/instruments/instrument.py:Instrument.build_optical_path"), ("photometer", "exorad/models/instruments/photometer.py:Photometer"),
   ("spectrometer", "exorad/models/instruments/spectrometer.py:Spectrometer"), ("optical element", "exorad/models/optics/opticalElement.py:OpticalElement"), ("pixel response", "exorad/utils/exolib.py:pixel_based_psf")])
P("C34", "Plots show the computed tables and change nothing",
  "Every signal of a table is drawn against wavelength as it is, every noise relative to the signal of the star in the aperture unless it already is, and every channel is marked from its lowest to its highest bin edge, on the axis too when asked. The efficiency figure shows, for every channel, transmission, quantum efficiency and their product. Drawing changes neither tables nor channels; asking for plots, with or without an output directory, changes neither which targets are observed nor their results, and every observed target has its own figure. Plotting a saved output draws exactly the selected targets.",
  [IN, CF, FS], "all tables (any bins, values, listed kinds of signals and noises), any samplings of transmission and efficiency, every subset of failing targets up to the stated bound",
  "No test looks at a plot.",
  ["exorad/utils/plotter.py", "exorad/tasks/targetHandler.py", "exorad/exorad.py"],
  [("curves", "exorad/utils/plotter.py:Plotter.plot_table"), ("bands", "exorad/utils/plotter.py:Plotter.plot_bands"), ("efficiency", "exorad/utils/plotter.py:Plotter.plot_efficiency"),
   ("plots of a run", "exorad/tasks/targetHandler.py:pipeline_to_dict"), ("plots of an output", "exorad/utils/plotter.py:main")])
