"""The properties and their checks; tools/gen.py writes properties.jsonl and MANIFEST.json from this list."""
P = []

def prop(id, title, statement, over, text, why, files, mech, level_note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, level_note=level_note, observe=observe or []))

prop('C01', 'Raw frames decode to exactly what their bytes encode',
     "Reading a well-formed frame of any supported raw format (DRX, DRX8, TBX, COR, DR spectrometer, VDIF) returns every header field, identifier, time tag, frequency and sample value exactly as the bytes encode it, for every field value, sample code, frame geometry and both sample types (complex floats and 8-bit integers). A read consumes exactly one frame and reports the end of the file after the last one. Functions that survey a file (sample rate, frame size, channel, beam and frame counts) report what the file holds and leave the file position where it was.",
     ['inputs', 'histories'], 'all frames of all formats: every header field value, all sample codes, every geometry (stands x channels, spectrometer formats, VDIF bit depths), and sequences of files read in one process',
     'Tests read one sample file per format and look at a few values; the field and code space, mixed geometries and unequal spectrometer fills are never varied.',
     ['lsl/reader/drx.py', 'lsl/reader/drx8.py', 'lsl/reader/tbx.py', 'lsl/reader/cor.py', 'lsl/reader/drspec.py', 'lsl/reader/vdif.py', 'lsl/reader/drx.cpp', 'lsl/reader/drx8.cpp', 'lsl/reader/tbx.cpp', 'lsl/reader/cor.cpp', 'lsl/reader/drspec.cpp', 'lsl/reader/vdif.cpp'],
     [('C++ frame decoders and look-up tables', 'lsl/reader/*.cpp'), ('Python frame classes', 'lsl/reader/*.py')],
     'Generated frames from an independent encoder are compared field by field and sample by sample; all 4+4 and 8+8 bit codes are enumerated. Trusts the encoders in vlib/formats.py, written from the format documents.')

prop('C02', 'Damaged raw data are rejected cleanly, without memory errors',
     "For any bytes whatever, reading a frame of any raw format either returns a frame or raises the documented end-of-file or synchronization error (or a plain Python error for impossible parameters); it never crashes, hangs or touches memory outside of its buffers. A truncated frame gives the end-of-file error and a wrong sync word gives the synchronization error. A good frame that follows damage is still read correctly.",
     ['inputs', 'fault_sequences'], 'all byte strings: truncations at every length, corrupted sync words and header fields, noise, files with good and bad frames mixed',
     'Tests only cut or corrupt one frame per format at one place, and run without a sanitizer, so an over-read or a double release goes unseen.',
     ['lsl/reader/drx.cpp', 'lsl/reader/drx8.cpp', 'lsl/reader/tbx.cpp', 'lsl/reader/cor.cpp', 'lsl/reader/drspec.cpp', 'lsl/reader/vdif.cpp', 'lsl/reader/errors.py'],
     [('size and sync-word validation before decoding', 'lsl/reader/*.cpp'), ('error translation', 'lsl/reader/*.py')],
     'Structured fuzzing of the readers built with AddressSanitizer; exploration only, of frames up to a few kB.')

prop('C03', 'Frame times are exact and agree in every representation',
     "A frame time built from a clock count, from seconds, from a day and milliseconds, or from a day, second and fraction denotes that instant to within one tick of the 196 MHz clock, and gives the clock count back exactly. Its UNIX, MJD, JD, TAI, day-second-fraction, datetime and astropy views all denote that same instant, with seconds of the day in [0, 86400) and fractions in [0, 1). Differences, sums and order comparisons of times agree with integer arithmetic on the clock count, and the day/millisecond conversions of the observatory are exact inverses.",
     ['inputs'], 'all clock counts from 1972 to 2100, midnights, second boundaries and single-tick differences included',
     'Tests use a handful of instants; boundary instants (midnight, last tick of a second) are where carries go wrong.',
     ['lsl/reader/base.py', 'lsl/common/mcs.py'],
     [('two-part astropy time with integer seconds and fraction', 'lsl/reader/base.py FrameTimestamp'), ('MJD/MPM conversion', 'lsl/common/mcs.py')],
     'Exact rational arithmetic as oracle; days with leap seconds are excluded from the exact comparisons.')

prop('C04', 'Frame buffers reorder streams and account for every frame',
     "Whatever the order, losses and repetitions of the incoming frames, a frame buffer returns one set of frames per time, in increasing time order and only once enough later times have arrived: each expected frame exactly once, received ones unchanged, missing ones as zero frames marked invalid with the right identity and time. Frames for times already returned are refused and never resurface, and a final flush returns everything accepted and not yet returned. The counts of full and partial sets, missing and dropped (late or repeated) frames always match the history.",
     ['histories'], 'all histories of appends (in any order, with duplicates, losses and late frames), gets, peeks, flushes and resets, for every format and buffer depth',
     'Tests feed the buffers one clean sample file in nearly ordered form; late, duplicate and missing frames in combination are never generated.',
     ['lsl/reader/buffer.py'],
     [('ring of time segments with a done marker', 'lsl/reader/buffer.py append/get/flush'), ('zero-filled replacement frames', 'lsl/reader/buffer.py create_fill')],
     'Random operation sequences against a reference model, checked after each step.')

prop('C05', 'Capture files read back every sample once, in order, at its time',
     "Reading a DRX, DRX8, TBX, COR or spectrometer capture through the file objects with any sequence of chunk lengths, offsets and resets returns every sample exactly once, in order and in the right channel, together with the true time of the first sample and the duration actually read, until the end-of-file error. Lost frames and short gaps appear as zeros so that later samples stay at their time, and a gap too long to fill is an error, never silently closed. An offset moves by the amount it reports, which is within a frame or two of the amount asked for, the reported metadata match the file, and a file opened without naming its format is opened as what it is.",
     ['inputs', 'histories'], 'all captures (rate, tunings, polarizations, geometry, losses, gaps, reordering, leading junk, truncated ends) and all sequences of read, offset and reset',
     'Tests read a few hundred frames of one clean file per format with one chunk length; gaps, losses, partial tunings and offsets after reads are not covered.',
     ['lsl/reader/ldp.py', 'lsl/reader/buffer.py', 'lsl/config.py'],
     [('buffered read with time tag tracking and zero filling', 'lsl/reader/ldp.py read'), ('iterative seek', 'lsl/reader/ldp.py offset')],
     'Synthetic captures with a full model of their samples; offsets near the end of a file, where the search itself meets the end, are outside of the domain.')

prop('C06', 'A capture split into parts reads like the original file',
     "For any way of cutting a file into parts, empty parts included, reads, seeks from the start, the current position or the end, and position queries on the split-file wrapper give the same bytes and positions as on the original file. Parts given out of order are sorted by name when asked for. A capture opened through the wrapper has the same metadata and data as the whole file.",
     ['inputs', 'histories'], 'all contents, all cut points and all sequences of reads and seeks',
     'The tests cut one file in two or four equal parts and read frames in sequence only.',
     ['lsl/reader/utils.py', 'lsl/reader/ldp.py'],
     [('offset table and re-opening of parts', 'lsl/reader/utils.py SplitFileWrapper')],
     'Differential test against an in-memory file over generated operation sequences.')

prop('C08', 'Spectra are the exact averaged power of the samples given',
     "SpecMaster returns, for each signal on its own, the mean over consecutive non-overlapping blocks of the squared modulus of the windowed (or 4-tap filter-bank) Fourier transform divided by the transform length, at the right channel frequencies, for every sample type, memory layout, transform length and window. Blocks holding a sample at or above the clip level are left out, and only those. StokesMaster gives I, Q, U and V of the same transforms of each stand's X and Y signals (U and V being twice the real and imaginary parts of X times conjugate Y), and the filter-bank functions equal the definition of a uniform DFT filter bank.",
     ['inputs'], 'all sample types (8 to 64 bit integers, floats, complex, CI8), transform lengths (odd ones too), window functions, clip levels, memory layouts and numbers of signals and samples',
     'Tests compare a few even-length cases in contiguous memory and hardly touch clipping, odd lengths with left-over samples, or the filter bank values.',
     ['lsl/correlator/fx.py', 'lsl/correlator/spec.cpp', 'lsl/correlator/stokes.cpp', 'lsl/correlator/filterbank.py'],
     [('threaded FFTW spectrometer', 'lsl/correlator/spec.cpp'), ('Stokes spectrometer', 'lsl/correlator/stokes.cpp')],
     'Generated signals against a double precision numpy reference written from the definitions; single precision tolerance.')

prop('C09', 'Visibilities are the delay-corrected mean cross products of each baseline',
     "For every polarization product, phase center, overlap, window and clip level, FXMaster returns for each baseline (i, j) with i at or before j the mean over the blocks unclipped in both of F_i times conjugate F_j, where F is the transform of the signal advanced by its cable delay minus its geometric delay, so a source at the phase center has zero phase. FXStokes returns I, Q, U and V formed from the same transforms, XMaster and XStokes do the same for frequency-domain data, gain correction divides out each antenna's cable gain, and the baseline list returned names the antennas of each row. The input arrays are left unchanged.",
     ['inputs'], 'all arrays of stands, cables and delays (X and Y of a stand differing too), sample types, transform lengths, overlaps, clip levels and phase center types',
     'Tests only compare numbers for arrays with all delays set to zero; delays, overlap, gains and clipping are run but their results are not checked.',
     ['lsl/correlator/fx.py', 'lsl/correlator/core.cpp', 'lsl/correlator/stokes.cpp'],
     [('F engine with integer and fractional delays', 'lsl/correlator/core.cpp FEngine, PFBEngine'), ('X engines', 'lsl/correlator/core.cpp, stokes.cpp'), ('delay and gain bookkeeping', 'lsl/correlator/fx.py')],
     'Generated arrays and signals against a double precision numpy reference, and plane waves from the phase center as an independent physical oracle.')

prop('C10', 'Baselines and uvw coordinates follow the array geometry',
     "Baselines are numbered in a fixed order, and conversion between baseline numbers and antenna pairs is a bijection in both directions, with or without auto-correlations. For every site, hour angle, declination and frequency, in any of the accepted angle types, the uvw of a baseline is its separation in wavelengths projected on the east, north and phase-center directions. The uv track is the closed curve which those coordinates trace over a sidereal day, without undefined points.",
     ['inputs'], 'all arrays, site latitudes, hour angles, declinations and frequency arrays, and all accepted types of angle',
     'Tests check array shapes and a few numbers at one pointing.',
     ['lsl/correlator/uvutils.py'], [('coordinate rotation', 'lsl/correlator/uvutils.py compute_uvw, compute_uv_track'), ('baseline numbering', 'lsl/correlator/uvutils.py get_baselines')],
     'Vector geometry written independently as oracle, and the relation between track and uvw.')

prop('C11', 'Beams are formed from the good antennas with the phases of the pointing',
     "The beam delay of each antenna is its cable delay minus its geometric delay toward the pointing, relative to the array center of stands 1 to 256, and pointings outside 0-360 degrees of azimuth or 0-90 degrees of altitude are refused. phase_and_sum returns per polarization the mean over the antennas with good status of the data times the phase of that delay, for scalar and vector frequencies and every sample type, leaving out a polarization with no good antenna. A plane wave from the pointing comes out at full strength, and conversion to circular polarization conserves power.",
     ['inputs'], 'all arrays, antenna states, polarization mixes, pointings, frequencies and data types and lengths',
     'Tests check that the functions run and a few simple results for one station.',
     ['lsl/misc/beamformer.py', 'lsl/misc/beamformer.cpp'], [('delay model', 'lsl/misc/beamformer.py calc_delay'), ('blocked sum', 'lsl/misc/beamformer.cpp BEngine')],
     'Generated arrays and data against a numpy reference and the plane-wave relation.')

prop('C07', 'Written DRX and VDIF frames read back as the frames asked for',
     "A simulated DRX frame with any beam, tuning, polarization, decimation, offset, time tag, flags and data (complex values rounded and limited to -8 to 7) is written as exactly those fields, a frame read from a file and written again is the same bytes, and frames with a wrong beam, tuning, data length or data type are refused and never written. The basic DRX signal holds every beam, tuning and polarization in order at the right time tags, with its tones at plus and minus a quarter and a third of the sample rate. A VDIF frame written with any station, time, bit depth, sample rate and real or complex data reads back with that station, that time, that sample rate and those samples, all header and extended fields of VDIF frames are reported as they were stored, and the frame size, thread count, frame rate and sample rate found for a VDIF file are those of the file.",
     ['inputs'], 'all field values and time tags, all 4-bit and complex data, all half-year epochs, frame numbers, bit depths and sample rates',
     'Tests write a few fixed frames; rounding of times to frame numbers, half-years after leap seconds and most fields are not covered.',
     ['lsl/sim/drx.py', 'lsl/sim/ndp.py', 'lsl/writer/vdif.py', 'lsl/reader/vdif.py'],
     [('DRX frame packing', 'lsl/sim/drx.py frame_to_frame'), ('VDIF epoch and frame number', 'lsl/writer/vdif.py _set_epoch'), ('VDIF time', 'lsl/reader/vdif.py FrameHeader.time')],
     'Independent encoder and the reader as oracles; days with a leap second excluded.')

prop('C13', 'Visibility files read back as the observation that was written',
     "Visibilities written with any of the writers (FITS-IDI, its AIPS and extended forms, UVFITS, Measurement Set, virtual) come back through the matching reader with the same values on the same baselines, polarizations, channels and spectral windows, the same times (mid-points for Measurement Sets), integration times, frequencies, stand numbers and antenna positions, and, where the format keeps them, weights, whatever the order in which data sets and baselines were given. The uvw coordinates are those of the baseline for the phase center at that time (zenith or a source), and the phase center read back is the one written. Reader selections (integrations, autocorrelations, sorting, uv range) return exactly the data asked for.",
     ['inputs', 'histories'], 'all sites, arrays, stand numbers within the limits of the format, channel set-ups, polarization sets, times, phase centers, weights, baseline orders and subsets',
     'Tests write one zenith integration with one polarization in a fixed order and look at the tables; several orders, sources, windows, large stand numbers and absolute positions are not looked at.',
     ['lsl/writer/fitsidi.py', 'lsl/writer/uvfits.py', 'lsl/writer/measurementset.py', 'lsl/writer/virtual.py', 'lsl/imaging/utils.py', 'lsl/imaging/data.py'],
     [('table writers with sorted baselines and computed uvw', 'lsl/writer/*.py write'), ('readers', 'lsl/imaging/utils.py CorrelatedData*')],
     'Round trip of generated observations with an independent geometry (PyEphem positions and plain vectors, 3e-4 of the baseline length as tolerance for uvw); one position is kept for each source, so moving bodies are compared with any of their positions in the file.')

prop('C14', 'SDFITS files hold every spectrum once, under its own labels',
     "Every spectrum added to an SDFITS file is in the file exactly once, with its values in channel order, under its beam, polarization, date and time, exposure and frequency axis, with scan numbers in the order of time, whatever the order in which data sets, beams and polarizations were added and however close or many the integrations are. Polarization codes and names map one to one onto each other. An existing file is not overwritten unless that is asked for.",
     ['inputs', 'histories'], 'all beam numbers, polarization sets, channel set-ups, times, integration times and orders of adding data sets',
     'Tests write two integrations in one order and look at one or two values.',
     ['lsl/writer/sdfits.py'], [('single dish table', 'lsl/writer/sdfits.py write'), ('polarization numbering', 'lsl/writer/sdfits.py')],
     'Round trip of generated observations read with astropy.io.fits; ascending uniform frequencies and days without leap second.')

prop('C15', 'Visibility data sets keep every value with its baseline through all edits',
     "Through any sequence of append, extend, sort, copy, pop, item assignment, uv range selection (minimum included, maximum not, at the middle channel) and antenna selection (by index or by stand number), every value stays with its own baseline, weight, mask and uvw; copies are independent, and duplicate times, duplicate polarizations and wrong shapes are refused. Rephasing multiplies each value by the phase of the geometric difference between the two phase centers and sets the matching uvw, so a point source at the new center is flat, going back restores the data, and a new center below the horizon is refused with the data unchanged.",
     ['inputs', 'histories'], 'all baseline lists and orders, channel set-ups, masks and weights, and all sequences of edits and phase centers',
     'Tests sort, prune and rephase one data set from a file and look at shapes or a few numbers.',
     ['lsl/imaging/data.py'], [('sorting and selection', 'lsl/imaging/data.py VisibilityDataSet'), ('rephasing', 'lsl/imaging/data.py rephase')],
     'Model-based histories against a plain dictionary of rows, and an independent geometry for the phases.')

prop('C16', 'Polarization conversion follows the definitions of the Stokes parameters',
     "Conversion gives I = XX+YY, Q = XX-YY, U = XY+YX, V = i(XY-YX) from linear data, the inverse from Stokes data, and RR = I+V, LL = I-V, RL = Q+iU, LR = Q-iU for circular data, so that going there and back restores the data, whichever of the products are present. Only the products which can be formed are formed, with the mean of the weights and the union of the masks of the two they come from, and data from which none can be formed are refused. Baselines, uvw, times, frequencies and phase centers are kept and the input is left unchanged.",
     ['inputs'], 'all sets of polarization products, values, weights and masks, of one data set or several',
     'Tests convert one simulated data set in each direction with all products present and a tolerance on values only.',
     ['lsl/imaging/utils.py'], [('polarization conversion', 'lsl/imaging/utils.py convert_to_stokes, convert_to_linear, convert_to_circular')],
     'Direct formulas as oracle, Jones vectors of polarized waves as a second one, and round trips.')

prop('C17', 'Images are the dirty images of the visibilities, on the right coordinates',
     "An image made from visibilities is, up to the gridding error, the sum over all integrations and the selected channels of the visibilities times the phase of each pixel's direction, w term included, and the beam is the same sum of the weights, whatever images of other sizes or data were made before in the process; visibilities beyond the uv plane are left out. Natural, uniform, Briggs and local weighting and tapers scale the gridded uv cells as defined and leave the gridded data unchanged. The right ascension, declination, azimuth and altitude of each pixel and the WCS agree with the projection about the phase center, for every type of phase center.",
     ['inputs', 'histories'], 'all visibilities, uvw, image sizes, resolutions, numbers of w planes, weightings, tapers and phase centers, and all sequences of images',
     'Tests grid one data set, compare a few flags, and check the coordinates of one image.',
     ['lsl/imaging/utils.py', 'lsl/imaging/gridder.cpp'], [('w-projection gridder', 'lsl/imaging/gridder.cpp'), ('image, weighting and coordinates', 'lsl/imaging/utils.py ImgWPlus')],
     'Direct Fourier sum as oracle, 20 % rms and 10 % of scale in the inner half of the image (the error of the gridding kernel); weights formula by cell.')

prop('C18', 'Simulated visibilities follow the measurement equation',
     "The visibility simulated for each baseline, channel and polarization is the sum over the sources above the horizon of flux times beam response times the phase of the baseline for the source relative to the phase center, with source shape when asked for, for the selected channels only, and with the (u,v,w) of the phase center; every polarization has values of its own, a sky with everything below the horizon is an error, the sources are left unchanged and repeating the simulation gives the same data. scale_data multiplies each visibility by g_i times conj(g_j) for the baseline's antennas in every integration, shift_data gives the (u,v,w) of the new positions at the time of each integration, and add_baseline_noise adds noise of sqrt(SEFD_i SEFD_j)/efficiency/sqrt(2 bandwidth time) per baseline; none of them change their input.",
     ['inputs', 'histories'], 'all arrays, sources, times, channels, phase centers, gains, position shifts and SEFDs',
     'Tests run the simulator for one array and a fixed source list and compare shapes or a few hard-coded values.',
     ['lsl/sim/vis.py', 'lsl/misc/beamformer.py'], [('simulation of visibilities', 'lsl/sim/vis.py build_sim_data'), ('scale, shift and noise', 'lsl/sim/vis.py scale_data, shift_data, add_baseline_noise')],
     'Independent evaluation of the measurement equation with ephem positions; statistical bounds for the noise.')

prop('C19', 'Session definition files say what was asked for',
     "A session definition file contains exactly the project, session and observations that were set up, with start times, durations, angles and frequencies given in any of the accepted forms, and reading it back gives the same project, session, observations, steps, and FEE, ASP, MIB and spectrometer settings; writing it again gives the same file. A session is valid exactly when every setting is within its limits, the targets are above the horizon, the observations do not overlap or mix incompatible modes and the data volume fits; a file is never written for an invalid session and an existing file is not overwritten. Start and stop times of observations are those asked for.",
     ['inputs', 'histories'], 'all sessions of any observation modes, settings at and beyond their limits, and all accepted input forms',
     'Tests write a handful of fixed sessions and check a few keywords and a few invalid settings.',
     ['lsl/common/sdf.py', 'lsl/common/_sdf_utils.py'], [('observations and sessions', 'lsl/common/sdf.py'), ('time parsing', 'lsl/common/_sdf_utils.py parse_time'), ('reading', 'lsl/common/sdf.py parse_sdf')],
     'Text is single-line, trimmed ASCII; cases within 0.02 rad of the horizon or 1 MB of the volume limit are rejected.')

prop('C20', 'Interferometer definition files say what was asked for and match at all stations',
     "An interferometer definition file contains exactly the project, run and scans that were set up, with times, durations, angles and frequencies in any of the accepted forms, and reading it back gives the same run, stations, correlator set-up, scans, proper motions and alternate phase centers; writing it again gives the same file. A run is valid exactly when every setting is within its limits, targets and alternate phase centers are above the horizon at all of its stations, alternate phase centers are within the beam, the filter is the same in all scans, scans do not overlap and the data volume fits; nothing is written for an invalid run and existing files are not overwritten. The session definition files generated from a run have, for every station, the same start times, durations, tunings, filters and gains, the pointing moved to the epoch by the proper motion, and the correlator set-up and alternate phase centers in the comments.",
     ['inputs', 'histories'], 'all runs of any scan modes, stations and settings, at and beyond their limits, and all accepted input forms',
     'Tests write a handful of fixed runs and check a few keywords and a few invalid settings.',
     ['lsl/common/idf.py'], [('scans and runs', 'lsl/common/idf.py'), ('SDF generation', 'lsl/common/idf.py Project.generate_sdfs'), ('reading', 'lsl/common/idf.py parse_idf')],
     'Text is single-line, trimmed ASCII; proper motions are multiples of 0.1 mas/yr as in the file; |dec| < 89 deg.')

prop('C21', 'MCS and NDP values, C structures, and MIB entries are converted exactly',
     "Frequencies become the closest tuning word and words become their frequency; delays and gains become 16-bit words (12.4 bits of samples, 15 bits of gain, in the byte order of NDP or of MCS) and come back unchanged from every word; the DRX filter response is symmetric, within 0 to 1, the magnitude of its FIR taps and zero outside of the band; MJD and MPM agree with the time in any time zone, to the millisecond. A C structure declaration gives the size, alignment and values C gives it, for every type, up to four dimensions, macros and their overrides, either endianness and both character modes, and flat arrays become nested ones in C order. Pointing corrections are right-handed rotations about the axis, and undone by the opposite rotation, and MIB entries give their value with the right type, index, names and update time; branches, truncated and unknown entries are refused.",
     ['inputs'], 'all words, values, times, structure declarations, rotations and MIB entries',
     'Tests convert a handful of values and read one MIB file.',
     ['lsl/common/mcs.py', 'lsl/common/ndp.py'], [('words and filter', 'lsl/common/ndp.py'), ('structures, MIB, pointing correction', 'lsl/common/mcs.py')],
     'Delays of 0 to 4096 samples and gains of 0 to 1, which is what the words can hold.')

prop('C22', 'Meta-data tarballs give what is in them and never touch other files',
     "Every getter for a meta-data tarball gives exactly the session, observations (with steps, beams and selection by number), commands, meta-data, session definition, dynamic MIB, ASP configuration, host name, minimum delay and station that were packed in it, whatever the compression, the order of the members and the name of the file, and after the file has been replaced by another of the same name it gives the contents of the new one. Missing members give None, 'unknown' or RuntimeError as documented; files which are cut short or corrupted, or that have more steps than allowed, are refused, and is_valid is False for them. No tarball, whatever names or links are in it, makes a reader (or the Measurement Set reader) change or read files outside of its temporary directory, and that directory is gone afterwards.",
     ['inputs', 'histories', 'faults'], 'all contents, member orders, names and links of tarballs, corruptions, and sequences of tarballs',
     'Tests read one tarball of real data.',
     ['lsl/common/metabundle.py', 'lsl/common/_metabundle_utils.py', 'lsl/common/sdm.py', 'lsl/imaging/utils.py'],
     [('readers', 'lsl/common/metabundle.py'), ('extraction', 'lsl/common/_metabundle_utils.py'), ('dynamic MIB', 'lsl/common/sdm.py')],
     'Own packing of the C structures as oracle. Hostile names resolve inside of a scratch tree.')

prop('C23', 'Stations are what their SSMIF says, at the right place, and copies are the same',
     "A station read from a SSMIF, as text or in binary, by name or from an open file, has exactly the stands, antennas, FEEs, cables, ARX channels, digitizers, ASP attenuations and gain it describes, documented defaults for what is left out, nothing for unused entries, and its antennas in order of the digitizers; unknown versions and kinds of files are refused. Cable delay, attenuation and gain follow the cable model with stretch, clock offset and ASP attenuation; ARX responses are those of the board, channel and filter asked for; geodetic and geocentric positions, the ECI transforms, positions of stands, and offset, direction and distance to other places agree with the WGS84 ellipsoid. Pickled and copied stations are the same as the original and independent of it, and replaced antennas belong to the station.",
     ['inputs', 'histories'], 'all SSMIF contents, cables, frequencies, positions on Earth, and edits of stations',
     'Tests read the three SSMIFs that come with the code and compare a few attributes.',
     ['lsl/common/stations.py'], [('SSMIF', 'lsl/common/stations.py parse_ssmif'), ('cables, stands, ARX', 'lsl/common/stations.py Cable, Stand, ARX'), ('geometry', 'lsl/common/stations.py LWAStation')],
     'Text and binary files are written from one model; the geometry is an independent WGS84 implementation.')

prop('C24', 'Angles, calendar dates, time scales and sidereal times convert exactly',
     "Angles in degrees, radians, dms and hms convert into each other with the sign and the carry right (hours wrap at 24), add up, compare by value, and stay within their ranges; settings outside of them are refused. Calendar dates, Julian days, modified Julian days, Unix times, dates in other time zones and days of the week agree with each other for every instant since 1972, and text dates load exactly or are refused without changing the date; copies are the same. Leap seconds, UTC, TAI, TT and TDB convert into each other by the IERS table (also on days that end in a leap second), and mean, apparent and local sidereal times are those of the Earth rotation.",
     ['inputs'], 'all angles, dates, offsets and times from 1972 to today',
     'Tests convert a few fixed angles and five fixed dates.',
     ['lsl/astro.py'], [('angles', 'lsl/astro.py dms, hms, _float_to_sexa, add_hms'), ('calendar', 'lsl/astro.py date, zonedate, get_julian_day'), ('time scales', 'lsl/astro.py leap_secs, utc_to_tai, tt_to_tdb, get_apparent_sidereal_time')],
     'Exact rational and datetime arithmetic, the table of leap seconds and the IAU expressions as oracle; 0.1 ms where a Julian day is a double.')

prop('C25', 'Sky and ground positions convert between coordinate systems correctly',
     "Horizontal, equatorial, galactic, ecliptic, rectangular and geodetic positions convert into each other, precess and convert between B1950 and J2000 as spherical trigonometry, the IAU precession and the WGS84 ellipsoid say, apparent positions include aberration and proper motion, separations and position angles are those on the sphere, and conversions can be chained and undone. Positions keep what they are given, refuse what is out of range, cannot be changed when they were computed, and copies behave like the original. The next rise, set and transit of stars and solar system bodies are found for every observer and time, None is returned exactly when the horizon is not crossed, and names are resolved to the position, proper motion and distance of the service or refused.",
     ['inputs'], 'all positions, observers and times from 1973 to 2023, all answers of the name service',
     'Tests convert a few fixed positions at five fixed times for one observer.',
     ['lsl/astro.py'], [('positions', 'lsl/astro.py equ_posn, hrz_posn, gal_posn, ecl_posn, geo_posn'), ('transformations', 'lsl/astro.py get_hrz_from_equ, get_apparent_posn, get_equ_prec'), ('rise and set', 'lsl/astro.py get_object_rst')],
     "ERFA, ephem and our own trigonometry as oracle; astropy's built-in ephemeris is used because the default one is a download; the name service is simulated.")

prop('C26', 'Time and position objects keep their value in every representation',
     "A transform.Time set from any format and time system gives the same instant in every other one, to the precision of that format (DP samples, MJD/MPM pairs and datetimes come back exactly and within their ranges), orders and hashes by instant, and refuses values of the wrong type. A CelestialPosition or GeographicalPosition set from any format gives the right position in every other, independent of the object it was made from. A PointingDirection gives the azimuth, altitude, direction cosines and next rise, set and transit of its source, fixed or in the solar system, for every site and time, and misuse is refused.",
     ['inputs', 'histories'], 'all times, formats, positions, sites and sources',
     'Tests set a few fixed times and positions and compare them with the astro module.',
     ['lsl/transform.py'], [('times', 'lsl/transform.py Time'), ('positions', 'lsl/transform.py CelestialPosition, GeographicalPosition, PlanetaryPosition'), ('pointing', 'lsl/transform.py PointingDirection')],
     'Exact integer arithmetic on microseconds; ERFA, ephem and our own trigonometry.')

prop('C27', 'Command-line values mean what they say or are refused',
     "Every conversion function for command-line arguments returns the number, frequency, wavelength, range, date, time, angle, or list of integers, baselines or hosts its text describes, with units, prefixes, wavelengths for frequencies, ranges in either order, MJD or calendar dates, MPM or clock times, and blank or trailing list items handled. Text that is not of that form, is out of range, or is not a number is refused. No text whatsoever makes a function fail with anything but an ArgumentTypeError or return a value of another type.",
     ['inputs'], 'all strings',
     'Tests convert a few fixed strings for each function.',
     ['lsl/misc/parser.py'], [('conversions', 'lsl/misc/parser.py')],
     'Text is generated from the value; arbitrary token strings and text for the refusal. Ranges of billions of items are excluded.')

prop('C28', 'Robust statistics, spectral kurtosis and the runs test give their defined values',
     "The robust mean, biweight mean, standard deviation, half-sample mode and fit quality are those of their definitions (the AstroIDL resistant mean, bisquare weights and shortest half) for every data set, axis, mask and data type, whatever the order of the data, and outliers do not move them; distributions that are too strange are refused. Robust line and polynomial fits of any order return the polynomial of the data in numpy's order, for exact, noisy, masked and contaminated data. Spectral kurtosis follows its definition along any axis with its exact mean, variance and third moment, its limits leave the stated probability of a Pearson type VI distribution and do not change numpy's error handling, and the runs test gives the probability for its number of runs.",
     ['inputs'], 'all data sets, axes, masks and parameters',
     'Tests compare one fixed data set with the output of IDL, and one set of limits.',
     ['lsl/statistics/robust.py', 'lsl/statistics/kurtosis.py', 'lsl/statistics/stattests.py'],
     [('robust', 'lsl/statistics/robust.py'), ('kurtosis', 'lsl/statistics/kurtosis.py'), ('runs test', 'lsl/statistics/stattests.py')],
     'Models written from the definitions; exact rational Dirichlet moments for the kurtosis.')

prop('C29', 'Mathematical helpers and antenna gain conversions follow their formulas',
     "Downsampling, regridding (linear and spline, extrapolation only if allowed), smoothing, polar and rectangular complex numbers, decibels, the non-uniform Fourier transform and gaussians (values and estimated parameters) follow their definitions for all lengths, shapes and data types, keep the length of the data where they should, do not change their input, and refuse unknown methods and windows. Spherical harmonic sums and fits use the documented order and normalization, for complex and real data. Antenna gains, areas, system equivalent flux densities and powers convert between dBi, dBd, K/Jy, m^2, Jy and dBm, with or without units, and back, and too few parameters are refused.",
     ['inputs'], 'all values, array shapes, types and units',
     'Tests run each function on one array, some without looking at the result.',
     ['lsl/misc/mathutils.py', 'lsl/misc/rfutils.py'],
     [('mathematics', 'lsl/misc/mathutils.py'), ('antennas', 'lsl/misc/rfutils.py')],
     'Direct formulas as oracle. The swapped angles of the spherical harmonics are a listed finding.')

prop('C30', 'Dedispersion and scattering removal follow the cold plasma law',
     "The delay of a frequency is that of the cold plasma dispersion law for its DM, relative to the highest of several frequencies, and incoherent dedispersion moves every channel by exactly the nearest whole number of integrations, wrapping around or filling as asked, for every number of channels, data type, mask and sign of the DM, without changing its input. Coherent dedispersion undoes the dispersion of a voltage stream, with the previous and next data in place of what is missing at the ends, for every DM, sampling rate and band, including those which are too small to matter, and refuses data that do not fit. The scattering screens are causal and of unit area with the documented shapes, and removing scattering from a profile gives the pulse back at its place with its flux and the scattering time, or RuntimeError if there is no good solution.",
     ['inputs'], 'all data, frequencies, DMs, sampling rates and scattering times',
     'Tests run each function on one data set and look at its shape.',
     ['lsl/misc/dedispersion.py', 'lsl/misc/scattering.py'],
     [('dispersion', 'lsl/misc/dedispersion.py'), ('scattering', 'lsl/misc/scattering.py')],
     'Signals are dispersed exactly in the frequency domain; 12 % rms for windows of 64 or more samples; profiles within 4 bins and 5 % of the flux.')

prop('C31', 'Text headers come back as they were written, laid out as asked',
     "Everything put into a comment, box or plain text header of automatic width with key_value, section, namespace, columns, line, timestamp and lsl_version comes back from parse_header with the same values, types and nesting, and free-form lines under '_freeform' of their section, for every comment string, indent and content (JSON values with comment characters, colons or any Unicode included), from text, lists of lines, or a file where data follow. Every line of a header starts with the comment, boxes are closed and of one width, blank lines and rules are where they were put, and a fixed width is never exceeded and loses nothing but blanks at the breaks. Timestamps have the requested precision and time zone, and widths without room or lists of different lengths are refused.",
     ['inputs', 'histories'], 'all headers, values, comment strings, indents and widths',
     'Tests write a few small headers.',
     ['lsl/common/header.py'], [('writing', 'lsl/common/header.py _BaseHeader'), ('parsing', 'lsl/common/header.py parse_header')],
     'The dictionary of what was put in is the oracle. Free-form lines have a letter and no colon; names are unique within a section and have no colon.')

prop('C32', 'Locks exclude each other, caches keep their files, and downloads are complete',
     "File and memory locks are held by one thread of one process at a time, can be taken again by their owner without being lost when the inner one is released, give up when not blocking or after the timeout, and in directories that cannot be written are allowed with one warning. Caches on disk and in memory behave like a directory of files for every history of writing, appending, reading, iterating, removing and asking for sizes and times, whatever happens while a file is open, and a limited cache removes exactly the files which were modified the longest time ago (never the one being written) until it fits. A download gives exactly the file on the server (or the range asked for) or zeros, and data files come from the installation, the server or its backup, are replaced only when something newer is there, and are never incomplete after a failed or interrupted transfer.",
     ['inputs', 'histories', 'schedules', 'faults'], 'all histories of a cache, threads and processes on a lock, answers of the server, and interruptions',
     'Tests write and read two files, and never use two threads or a server.',
     ['lsl/misc/file_lock.py', 'lsl/misc/file_cache.py', 'lsl/common/data_access.py'],
     [('locks', 'lsl/misc/file_lock.py'), ('caches', 'lsl/misc/file_cache.py'), ('downloads', 'lsl/common/data_access.py')],
     'A dictionary as the model of a cache; a lock-protected counter in real threads and forked processes; a HTTP server on the loopback interface that also cuts, corrupts and drops its answers.')

prop('C33', 'Configuration values are kept within a session and across sessions',
     "Every configuration parameter, read directly or through the view of a section, is its default until it is set, then exactly what it was last set to, with its type, in this session and, after saving, in every later one; nothing is written if nothing changed. Values of the wrong type and unknown parameters and sections are refused, and temporary values are gone afterwards whatever exception is raised meanwhile, which stays the same exception. Files edited by hand load what they say, ignore what they do not, keep parameters of others, are not overwritten if they changed on disk, and a save that is interrupted leaves the old or the new values.",
     ['inputs', 'histories', 'faults'], 'all histories of setting, saving and loading, file contents and interruptions',
     'Tests set one parameter and set it back.',
     ['lsl/config.py'], [('container', 'lsl/config.py LSLConfigContainer'), ('views', 'lsl/config.py LSLConfigSubContainer')],
     'A dictionary as the model. Text values are one trimmed line that does not look like a number or a truth value.')

prop('C34', 'Self-calibration recovers the gains, delays and phases of the antennas',
     "If the data of an image are those of a model seen through antennas with gains, delays and phases, then phase_only, delay_only and delay_and_phase, with or without amplitudes, return the gains, the delays in nanoseconds and the phases of the antennas relative to the reference antenna, for every number of antennas, reference antenna and polarization. The corrected data equal the model in every channel and polarization that was asked for, with the weights and masks of the data, the inputs are unchanged, and whether the solution converged is reported. A polarization that is missing from the data or the model and an unknown reference antenna are refused.",
     ['inputs'], 'all arrays, models, antenna errors, polarizations and solution types',
     'No test runs a self-calibration with known antenna errors.',
     ['lsl/imaging/selfcal.py'], [('solving', 'lsl/imaging/selfcal.py'), ('applying', 'lsl/imaging/selfcal.py')],
     'Data are corrupted exactly; antenna errors within the range where the solution is unique (phases and delays that do not wrap within a channel).')

prop('C35', 'Catalogs have the sources of their files and sky maps the sky they model',
     "Every catalog holds exactly the sources of its file with their names, J2000 positions (precessed from B1950 where the file is of B1950) and other names, all of which find the source, for every file in the format of the catalog; unknown names are None, False or KeyError, sources without a usable position are left out of the pulsar catalog, malformed lines of the others are refused with RuntimeError, and a catalog is read once per session. A sky map at a frequency within its surveys is the sum of its component maps with the weights and the scale interpolated in the logarithm of the frequency, and a frequency outside is refused. The map projected for a site and a time has every pixel at its altitude and azimuth, shows exactly those above the horizon with their coordinates, power and direction cosines, and weighs the power of each by its part of the whole sky.",
     ['inputs'], 'all catalog files, survey maps, frequencies, sites and times',
     'Tests load each catalog and map and look up three sources.',
     ['lsl/catalog.py', 'lsl/skymap.py'], [('catalogs', 'lsl/catalog.py'), ('sky maps', 'lsl/skymap.py')],
     'Generated files and those of the package read independently; ERFA gives the directions (0.003 degrees); B1950 within 0.001 degrees.')

prop('C36', 'Antenna models respond as their files describe, and NEC files are read right',
     "For every antenna model, polarization product, frequency and direction (a scalar or an array, in degrees, radians, astropy or ephem angles), beam_response and mueller_matrix are the products and the Mueller matrix of the fields of the model, normalized to their peak and interpolated linearly in its files; unknown models and polarizations are refused with ValueError. Impedances, mismatch efficiencies, radiation patterns and antenna excitation patterns read from the output of NEC are those of the file at each azimuth and altitude, and changing the frequency changes only that field of the FR card. NEC is run again only if there is no output within half a percent of the frequency, and what cannot be found is refused with RuntimeError or ValueError.",
     ['inputs'], 'all models, NEC files, frequencies, polarizations and directions',
     'Tests evaluate one direction of a few models and read one NEC file.',
     ['lsl/sim/beam.py', 'lsl/sim/necutils.py'], [('beams', 'lsl/sim/beam.py'), ('NEC files', 'lsl/sim/necutils.py')],
     'Generated model and NEC files served in place of those of the package; fields and Mueller matrices written out from the definitions.')

prop('C37', 'Magnetic field, pierce points and TEC are those of the models and maps',
     "For every place, height and time from 1900 on, the magnetic field in ECEF or (north, east, up) is the one of the IGRF coefficients, linear in time between models and with the secular change of the last one after it (RuntimeError before the first), and declination and inclination are its angles, the declination NaN where the horizontal field is below 100 nT. The ionospheric pierce point of a site, azimuth and elevation (degrees or angles) lies at the given height on that line of sight. TEC values and their RMS (5 percent of the TEC without an RMS map) are interpolated linearly in time between the two neighboring maps of the day and in place within the map, whatever values elsewhere are missing and however the longitude is written, for IGS, JPL, EMR, UQR, CODE, US-TEC and GloTEC files; maps come from the cache, else the server or its mirror, final ones before rapid ones, failed downloads leave nothing behind, and unknown sources or days are refused with ValueError.",
     ['inputs', 'histories', 'faults'], 'all places, times, sites, directions, map files and server contents',
     'Tests compute one field and one pierce point, and skip the TEC maps without a network.',
     ['lsl/misc/ionosphere'], [('field, pierce point, TEC', 'lsl/misc/ionosphere/__init__.py'), ('IONEX maps and cache', 'lsl/misc/ionosphere/_utils.py'), ('US-TEC', 'lsl/misc/ionosphere/_ustec.py'), ('GloTEC', 'lsl/misc/ionosphere/_glotec.py')],
     'The field is the numerical gradient of the IGRF potential (0.02 nT, 8 nT within 0.002 degrees of the poles); generated maps in the cache or on a HTTP server on the loopback interface.')

prop('C38', 'Backgrounds, point sources and deconvolved images follow the image',
     "The background estimated for an image of any size, type and units is finite, of the shape of the image, and within the noise of its smooth background right up to the edges, is not pulled by isolated bright pixels or spoiled by NaN ones, and scales, shifts and transposes with the image. Point source detection returns each isolated source above the threshold exactly once, with its intensity-weighted center (first axis first), its peak in the image, and the sharpness and roundness of the background-subtracted source, and nothing else, with those out of the shape limits left out. CLEAN of an image of point sources anywhere in the sky, at 0h, the poles and near the horizon included, for every image size, resolution, polarization and channel selection, keeps each source at its pixel and flux and removes its side lobes, clean_sources takes only the listed sources that are up out of the residuals and returns their components, the least squares deconvolution goes back to the iteration before when the residuals rise, all of them scale with the image, and none changes its input.",
     ['inputs'], 'all images, sizes, window sizes, source positions and shapes, arrays, times, resolutions and channels',
     'Tests estimate one background, look for three bright sources at pixel centers, and run a few iterations of each deconvolution without looking at the result.',
     ['lsl/imaging/analysis.py', 'lsl/imaging/deconv.py'], [('background and point sources', 'lsl/imaging/analysis.py'), ('CLEAN and least squares', 'lsl/imaging/deconv.py')],
     'Deconvolution is asked of beams at least 5 pixels across and of one or two sources 0.6 direction cosines apart; fluxes within 5 percent for one source and about half for two.')

prop('C39', 'The command line tools do what their options ask for',
     "splitDRX cuts a file at the first whole capture at the offset into pieces of the length asked for, consecutive ones with -r, named by their own start time with -d, and splitSession gives each observation, in any order in the metadata, exactly the frames of the DRX or TBS file from its start to that of the next, leaves the rest out and keeps existing files unless it is told to overwrite them, both byte for byte. drxSpectra, drSpecSpectra and tbxSpectra plot, for each tuning, polarization, product or antenna under its own name and at its own frequencies, the average over exactly the time asked for with the window, stands and cable correction asked for, and correlateTBX writes the visibilities of exactly the good antennas, products, times and decimated channels. getIonosphericRM and driftcurve compute for the site, times, source, data product, sky map, polarization and dipole model of their options, and inspectTarball reports the start, end, mode, setup and files of the session as they are in the metadata.",
     ['inputs'], 'all files, offsets, lengths, options, sites, sessions and observations',
     'Tests lint the scripts and do not run them.',
     ['scripts/splitDRX.py', 'scripts/splitSession.py', 'scripts/drxSpectra.py', 'scripts/drSpecSpectra.py', 'scripts/tbxSpectra.py', 'scripts/correlateTBX.py', 'scripts/getIonosphericRM.py', 'scripts/driftcurve.py', 'scripts/inspectTarball.py'],
     [('splitting', 'scripts/splitDRX.py'), ('sessions', 'scripts/splitSession.py'), ('spectra', 'scripts/drSpecSpectra.py'), ('correlation', 'scripts/correlateTBX.py'), ('ionosphere', 'scripts/getIonosphericRM.py'), ('drift curves', 'scripts/driftcurve.py'), ('metadata', 'scripts/inspectTarball.py')],
     'The scripts run in the process of the check, in a scratch directory; the metadata, the TEC values, the sky maps and the clock are stand-ins. Files that end within 32 frames of the offset, single-channel correlations, and the interactive tools are not asked for.')

prop('C40', 'Progress bars, coloured text, logs and usage records say what happened',
     "Coloured text shows exactly the text with the colours and styles of the tags around each character, braces that are no tags included, and uncolorfy gives the text back; progress and download bars keep their width and have marks, a percentage, and a time left or rate in proportion to the amount after every history of changes, and busy indicators end with Done or Failed, pass exceptions on and leave no thread behind. Log messages reach exactly the console, file and queue whose level and filters let them through, captured warnings without their colours. Usage tracking never changes the results, exceptions or names of what it tracks, records exactly the calls, modules and scripts used while it is on, neither records nor sends anything while it is disabled (in every later session) or ignored (in this one), and sends records only after a week and removes them only when the server has accepted them.",
     ['inputs', 'histories', 'faults'], 'all texts and nested tags, histories of bars and indicators, sets of handlers, levels and messages, histories of tracked calls and server answers',
     'Tests make one bar and one indicator, and log and track nothing.',
     ['lsl/common/color.py', 'lsl/common/progress.py', 'lsl/common/busy.py', 'lsl/logger.py', 'lsl/misc/telemetry/__init__.py'],
     [('coloured text', 'lsl/common/color.py'), ('progress bars', 'lsl/common/progress.py'), ('busy indicators', 'lsl/common/busy.py'), ('logging', 'lsl/logger.py'), ('usage tracking', 'lsl/misc/telemetry/__init__.py')],
     'A terminal emulator reads the colours back; usage tracking runs in processes of its own with a scratch configuration and a server on the loopback interface.')

prop('C41', 'Overlays are drawn at the pixels of what they stand for',
     "For every site, time, image size, resolution and type of phase center, the marks and labels of sources are at the pixels where the sources are at the time of the image, for exactly the sources that are above the horizon. The horizon, at the altitude asked for, and every line of the (azimuth, altitude) and (right ascension, declination of date) grids is drawn in full at the pixels of its points and nowhere else, with labels, if asked for, on or beside the line they name. The image is drawn with the phase center at the reference pixel of its WCS, nothing drawn changes the image or leaves the antenna array at another time, and what is no image is refused with TypeError.",
     ['inputs'], 'all sites, times, phase centers, images and sources',
     'Tests call each function and do not look at what was drawn.',
     ['lsl/imaging/overlay.py', 'lsl/imaging/utils.py'], [('overlays', 'lsl/imaging/overlay.py'), ('images and WCS', 'lsl/imaging/utils.py')],
     'What is drawn is read from matplotlib axes; expected places come from PyEphem and spherical trigonometry, within 0.002 direction cosines.')
