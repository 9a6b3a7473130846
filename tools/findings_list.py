KNOWN = [
    dict(id='C01-COR-CHANNELS', property='C01',
         what='after a COR file with 33, 72 or 112 channels per frame, the first frame of a file with more channels per frame is decoded with the smaller channel count (the frame does not carry its size and the reader remembers the last one)',
         input='history: read one frame of a 72-channel COR file, then one of a 192-channel COR file, in one process'),
    dict(id='C29-SPH-ANGLES', property='C29',
         what="sphfit() and sphval() swap the polar angle and the azimuth with scipy 1.15 or newer, so that a function on the sky is not recovered from its harmonics (the repository's own test_sphfit has the angles swapped in the same way, and fails with a repair)",
         input='sphval([0, 0, 1, 0], az=[[0.3]], alt=[[0.4]]) gives sqrt(3/4pi)*cos(az) instead of sqrt(3/4pi)*cos(alt+pi/2)'),
]
FIXED = [
    ('C01', 'TBX channel_freqs used', 'channel_freqs and get_first_channel(frequency=True) of any TBX frame raised NameError'),
    ('C02', 'TBX read_frame_ci8 raised', 'a TBX frame with a wrong sync word raised NameError from read_frame_ci8'),
    ('C01', 'TBX reader reported end of file', 'the last complete frames of a TBX file with a smaller geometry than the last one read gave EOFError'),
    ('C01', 'read_frame_i8 of complex VDIF', 'complex VDIF data read as integers were garbage from reinterpreted memory'),
    ('C02', 'VDIF and DR spectrometer readers released', 'a bad VDIF or spectrometer frame released its buffers twice'),
    ('C02', 'DR spectrometer reader read past', 'a spectrometer header with an unsupported format code made the reader read past its buffer'),
    ('C04', 'flush() of a frame buffer did not', 'flush() returned out-of-order segments in order of arrival'),
    ('C04', "'from lsl.reader.buffer import *'", 'star import of the buffer module raised AttributeError'),
    ('C04', 'append() of a frame buffer returned', 'append() returned True for late frames which it dropped'),
    ('C04', 'a duplicate frame in a frame buffer', 'with one frame repeated and one missing, the repeated one was returned twice and the missing one not filled'),
    ('C03', 'FrameTimestamp.pulsar_mjd could', 'at midnight of some days the second of the day was 86400, and fractions could reach 1'),
    ('C06', 'SplitFileWrapper.read() stopped', 'a read over three or more parts returned too few bytes'),
    ('C06', 'SplitFileWrapper.seek() from the end', 'seek(-n, 2) went n bytes past the end'),
    ('C05', 'DRSpecFile could not open', 'a spectrometer file of one frame could not be opened'),
    ('C05', 'CORFile.read() without a duration', 'CORFile.read() raised UnboundLocalError'),
    ('C05', 'CORFile.read() rejected files', 'an integration time of 0.29 s and others were refused as time tag errors'),
    ('C05', 'TBXFile.read() after offset()', 'after offset() a read returned less than the file holds, or nothing'),
    ('C05', 'TBXFile and CORFile offset() after a read()', 'offset() after read() moved from the wrong place, or raised AttributeError'),
    ('C05', 'TBXFile.read() did not fill gaps', 'gaps in data with a step of 7840 ticks were refused and not filled'),
    ('C05', 'DRXFile and DRX8File filled gaps only', 'gaps in files without tuning 1, polarization X were refused and not filled'),
    ('C05', 'DRXFile and DRX8File could not open', 'files between one checkpoint (1, 2, ... MiB) and one frame more could not be opened'),
]
FIXED += [
    ('C08', 'spectrometer read past the end', 'spectra of complex data with an odd number of channels read (and moved) half a value past the row'),
    ('C09', 'correlator read past the end of the data when', 'an overlap of 3 with 64 channels made the F engine read past the end of the data and count extra transforms'),
    ('C09', 'FXMaster and FXStokes failed when', 'cross products of X and Y with different cable lengths raised RuntimeError for some data lengths'),
    ('C09', 'FXStokes normalized clipped data', 'with clipping, I, Q, U and V were divided by a wrong number of transforms'),
    ('C09', 'FXStokes and XStokes calibrated', 'gain_correct of FXStokes corrected only four baselines, and both used the X delay or gain of one stand and the Y one of the other for all products'),
    ('C10', 'antennas_to_baseline returned', 'the baseline number of an auto-correlation was that of a cross-correlation'),
    ('C10', 'compute_uv_track returned NaN', 'the ends of about half of the tracks were NaN'),
]
FIXED += [
    ('C07', 'VDIF writer gave the first frame', 'the first frame of some seconds was written with a frame number equal to the frame rate, one second early'),
    ('C07', 'frame_to_frame lost the tuning word', 'DRX frames read and written again had a tuning word of zero'),
    ('C07', 'version in the NRAO extended', 'the version field of NRAO extended user data was formatted from floats and wrong'),
    ('C07', 'VDIF times were half a second late', 'all VDIF times in the half-years starting after a leap second (2006 H1, 2009 H1, 2012 H2, 2015 H2, 2017 H1) were 0.5 s late from noon of the first day on'),
]
FIXED += [
    ('C13', 'stand numbers above 999', 'stands 1000 and up came back modulo 1000 from FITS-IDI and UVFITS files'),
    ('C13', 'writers took J2000 source positions', 'uvw coordinates of sources were off by the precession since 2000 (0.3 degrees by 2020) in all writers'),
    ('C13', 'writers mixed up baselines', 'data sets with their baselines in another order (or another set of the same size) than the first one were written to the wrong baselines; in Measurement Sets also after a change of the number of baselines'),
    ('C13', 'dates in UVFITS files', 'the DATE parameter of UVFITS files was uninitialized memory, so that times could be anything'),
    ('C13', 'Measurement Sets of two or three', 'reading a Measurement Set with fewer than four antennas raised ValueError'),
    ('C13', 'antenna positions in Measurement Sets', 'the station centre was added twice to the antenna positions'),
    ('C13', 'uvw of the virtual writer', 'the hour angle was given in degrees where hours are expected'),
    ('C13', 'virtual writer dropped', 'data sets of the virtual writer had no int_time'),
    ('C13', 'virtual writer refused', 'adding a second polarization for the same time raised ValueError'),
    ('C13', 'Measurement Sets with three or more', 'reading more than two spectral windows raised RuntimeError or ValueError'),
    ('C13', 'writing zenith data failed now and then', 'about one zenith integration in 2500 could not be written (ValueError from the source table)'),
    ('C13', 'sources of Measurement Sets were mixed up', 'a source after two zenith integrations with the same name was read back as the zenith'),
]
FIXED += [('C13', 'extended FITS-IDI files could not', 'writing stands 32768 to 65535 raised OverflowError')]
FIXED += [
    ('C14', 'SDFITS polarization code -4', 'LR spectra were labelled RL'),
    ('C14', 'SDFITS mixed up polarizations', 'integrations less than 26 ms apart were merged, with spectra lost or under the wrong polarization'),
    ('C14', 'SDFITS scan numbers', 'files of more than 32767 integrations could not be written'),
    ('C15', 'visibilities could not be appended', 'PolarizationDataSet.append raised an error for valid data'),
    ('C15', 'VisibilityData created from a tuple', 'a VisibilityData made from a tuple could not be changed and one made from a list changed the caller\'s list'),
    ('C15', 'selecting antennas of a VisibilityData', 'get_antenna_subset by stand number selected by index'),
    ('C15', 'selecting antennas by index', 'get_antenna_subset by index failed without an antenna array'),
    ('C17', 'images had the wrong scale', 'a cached correction for another image size was applied'),
    ('C17', 'gridding data in a single w plane', 'images of data in one w plane were empty or NaN'),
    ('C17', 'gridding with more than 1024', 'heap overflow with more than 1024 w planes'),
    ('C17', 'gridding baselines beyond', 'visibilities beyond the uv plane were written outside of the plane'),
    ('C17', 'images of several integrations', 'only the last integration was in the image'),
    ('C17', 'imaging with uniform or Briggs', 'making an image with uniform or Briggs weighting changed the gridded data, so that the second image was different'),
    ('C17', 'the u and v tapers', 'tapers were applied to the wrong axes'),
    ('C17', 'images with an equ_posn', 'the WCS of images with an equ_posn phase center could not be made'),
]
FIXED += [
    ('C18', 'scale_data used the baselines', 'scale_data scaled the wrong baselines when the integrations have different baseline orders'),
    ('C18', 'simulated visibilities were NaN', 'sources where the beam has no response gave NaN visibilities'),
    ('C18', 'polarizations simulated with a flat', 'all polarizations of a flat response were the same array'),
    ('C18', 'baseline noise failed', 'noise for subsets of antennas raised an error and later integrations used the baselines of the first'),
    ('C18', 'shift_data did not follow', 'shift_data used the phase center position of one time for all integrations'),
    ('C19', 'times less than half', 'start times with microseconds of 999500 and more raised an error'),
    ('C19', 'astropy times were refused', 'astropy Time start times raised an error'),
    ('C19', 'time zone offsets with', 'offsets like -7:00 were misread'),
    ('C19', 'durations of observations could', 'Quantity durations raised UnboundLocalError'),
    ('C19', 'observations with an invalid declination', 'NameError instead of ValueError'),
    ('C19', 'observation frequencies and step', 'Quantity and Angle arguments raised an error'),
    ('C19', 'steps were checked for visibility', 'valid stepped observations were refused'),
    ('C19', 'stepped observations with the maximum', 'the maximum number of steps was refused'),
    ('C19', 'validating a stepped observation', 'ZeroDivisionError for a stepped observation without steps'),
    ('C19', 'validating a step outside', 'AttributeError when validating a step that is not in an observation'),
    ('C19', 'lists of observations with a wrong type', 'observations were dropped without an error'),
    ('C19', 'FEE power settings of a single', 'FEE power off for one polarization of all stands was not in the file'),
    ('C19', 'session comments grew', 'rendering twice gave different files'),
    ('C19', 'log and station flags', 'a flag of 0 was read as true'),
    ('C19', 'settings of one observation were', 'gain, beam-dipole mode, FEE and ASP settings of one observation appeared in the next'),
    ('C19', 'custom delays and gains of a step', 'delays and gains of one step appeared in the next'),
    ('C19', 'projects could not be auto-filled', 'Project.autofilled raised an error'),
    ('C19', 'observations on days with a leap', 'start times on days with a leap second were read back late'),
    ('C20', 'durations and frequencies of scans', 'Quantity arguments raised an error'),
    ('C20', 'scans on days with a leap', 'start times on days with a leap second were read back late'),
    ('C20', 'settings of one scan were', 'a scan without alternate phase centers after one with them could not be read; gain, ASP filter and proper motion were carried over'),
    ('C20', 'proper motions of one alternate', 'the proper motion of an alternate phase center appeared in the next'),
    ('C20', 'run comments grew', 'rendering twice gave different files'),
    ('C20', 'validating an alternate phase center', 'AttributeError when validating an alternate phase center that is not in a scan'),
    ('C20', 'session definition files could not be generated from scans', 'TypeError in generate_sdfs for scans without comments'),
    ('C20', 'session definition files could not be generated without', 'IndexError in generate_sdfs for projects without project office comments'),
    ('C20', 'session definition files could not be generated for proper', 'ValueError in generate_sdfs for right ascensions near 0 h'),
    ('C20', 'the ASP filter of scans', 'SCAN_ASP_FLT had no effect'),
    ('C20', 'validating a scan with alternate', 'ZeroDivisionError in validate'),
]
FIXED += [
    ('C21', 'numbers in MIB entries', 'integer and float MIB values with a zero byte were read as 0'),
    ('C21', 'update times of MIB', 'the microseconds of update times were added twice or lost'),
    ('C21', 'truncated MIB entries', 'memory past the end of a truncated MIB entry was read'),
    ('C21', 'some delays changed', 'delay words came back as the word before'),
    ('C22', 'subsystem status entries', 'str() of a subsystem status raised an error'),
    ('C22', 'the intervals of DR5', 'DR5 was missing from MIB intervals'),
    ('C22', 'tarballs could write to', 'members with .., absolute names or links escaped the temporary directory'),
    ('C22', 'Measurement Set tarballs could write', 'members with .., absolute names or links escaped the temporary directory'),
    ('C22', 'tarballs without any meta-data', 'is_valid was True for a tarball without meta-data'),
    ('C22', 'the minimum beamformer delay could', 'mindelay.txt was read as the session definition file'),
    ('C22', 'meta-data tarballs which have changed', 'a replaced tarball gave the contents of the old one'),
    ('C23', 'digitizers of stations from binary', 'binary SSMIFs with 32 inputs per board gave digitizers up to 1024, and 256 stands for any number of stands'),
    ('C23', 'labels of ARX inputs', 'ARX labels from binary SSMIFs ended in nulls'),
    ('C23', 'AT3 settings of single', 'ASP_AT3[n] took the value of the last ASP_AT1 or raised an error'),
    ('C23', 'ARX power ports', 'ARB_PORT replaced ARB_RACK'),
    ('C23', 'values in SSMIFs kept', 'labels kept trailing blanks; a commented station ID was unknown'),
    ('C23', 'default ASP attenuations', 'attenuation of stand n went to cable n'),
    ('C23', 'unused digitizer inputs', 'a zero antenna number overwrote the last antenna'),
    ('C23', 'copies of stations and cables', 'pickled or copied cables and stations lost attributes'),
    ('C23', 'the 20 MHz high pass', 'filter 7 of revision I boards gave the response of filter 4'),
    ('C23', 'stations could not have a range', 'station[a:b] = antennas raised AttributeError'),
    ('C23', 'SSMIFs with unidentified ARX', 'the documented default ARB_ID of UNK raised ValueError'),
]

FIXED += [
    ('C24', 'astro.add_hms did not', 'the sum of two hms objects had the hours of the first'),
    ('C24', 'angles split into sexagesimal', '-286.15 degrees became 286d 9m 60s less one minute'),
    ('C24', 'astro.deg_to_hms gave', '-15 degrees became 1 h; 360 degrees raised ValueError; sums past 24 h failed'),
    ('C24', 'astro.range_hours returned 24', 'range_hours(-24) was 24'),
    ('C24', 'astro.leap_secs was fractional', 'leap_secs at noon on 2016-12-31 was 36.5'),
    ('C24', 'astro.get_day_of_week was wrong', 'every second day was off by one at midnight'),
    ('C24', 'astro.tt_to_tdb treated', 'TDB was 32.184 s off'),
    ('C24', 'time zone conversions were', '59.9996 s became the next second plus 0.9996 s'),
    ('C24', 'astro.date.load failed', 'NameError for seconds of 60'),
    ('C25', 'ecliptic positions could not', 'get_ecl_from_rect raised TypeError'),
    ('C25', 'angular separations and position', 'get_angular_separation raised ValueError for plain positions'),
    ('C25', 'galactic longitudes could not', 'gal_posn with a dms longitude failed in every conversion'),
    ('C25', 'positions lost their astropy frame', 'pickled apparent positions were taken as J2000 ones'),
    ('C25', 'apparent positions did not include', 'proper motion was ignored by get_apparent_posn'),
    ('C25', 'the distance of a resolved source', 'parallax of 546 mas gave 546 pc'),
    ('C25', 'rise, set and transit times were missing', 'None or IndexError for southern observers; transits off by up to a minute'),
    ('C25', 'equatorial positions computed from', 'hrz_posn.to_equ().to_hrz() raised TypeError'),
    ('C26', 'transform.Time misplaced DP', 'DP samples below a second were taken as seconds'),
    ('C26', 'transform.Time could give a MPM', 'MPM of 86400000 just before midnight'),
    ('C26', 'PointingDirection.rst ignored', 'rise of the Moon was hours off'),
    ('C27', 'empty lists of hours or degrees', "csv_hours_list('') raised IndexError"),
    ('C27', 'dates that are not a valid MJD', 'date() of a huge number raised OverflowError'),
    ('C27', 'NaN was taken as a positive', "positive_float('nan') was accepted"),
]

FIXED += [
    ('C28', 'robust.mode() never', 'the mode of 0, 10, 20, 21 was 5 instead of 20.5; of 0, 3, 4 it was 3 instead of 3.5; equal values raised UnboundLocalError'),
    ('C28', 'robust.polyfit() of order zero', 'a robust fit of order zero gave about 0 instead of the level of the data'),
    ('C28', 'a poor first fit in robust.polyfit', 'NameError from robust.polyfit for 10000 or more points when the first fit is poor'),
    ('C28', 'robust.biweight_mean() of one value', 'ZeroDivisionError for one value'),
    ('C28', 'the number of spectra for the spectral', 'spectral kurtosis along any axis but the first, or of all of a 2-D array, used the wrong number of spectra'),
    ('C28', 'kurtosis.get_limits() left numpy', 'after a failed get_limits() numpy raised an exception for every later underflow or division by zero'),
    ('C29', 'smooth() returned one value less', 'a straight line was bent at both ends, and n values with a window of n gave n-1 values'),
    ('C29', 'cpolar() failed for lists', 'TypeError for a list or tuple'),
    ('C29', 'crect() failed for arrays', 'ValueError for a 2-D array of values'),
    ('C29', 'ndft() truncated', 'integer times gave frequencies of zero'),
    ('C29', 'gaussparams() failed for 2-D', 'UFuncTypeError for 2-D integer data'),
    ('C29', 'dBi_to_dBd() was not', 'import * did not give dBi_to_dBd'),
    ('C29', 'sphval() gave wrong values for real', 'real-only evaluation of the harmonics dropped half of the odd and imaginary terms'),
    ('C29', 'sphfit() of complex data left', 'complex fits were not normalized'),
]

FIXED += [
    ('C30', 'unscatter() returned the profile shifted', 'the pulse was half of the window away from its place'),
    ('C30', 'unscatter() raised KeyError', 'KeyError if no scattering time gives a good solution'),
    ('C30', 'unscatter() failed for thick', 'thick and uniform screens failed when the last point of the profile is its peak'),
    ('C30', 'coherent dedispersion with a small', 'a DM of zero raised ZeroDivisionError and a small one returned zeros'),
    ('C30', 'coherent dedispersion left the end', 'the last part of the data was zero in spite of the next data being given'),
    ('C30', 'a single sample of previous', 'previous data of one sample were repeated to fill the window'),
    ('C30', 'incoherent dedispersion with a negative', 'negative DMs wrapped the data with boundary=fill'),
    ('C30', 'incoherent dedispersion failed for one', 'one channel raised TypeError; long delays overflowed'),
    ('C30', 'coherently dedispersed data were up to', 'the output was shifted by up to a quarter of a sample'),
]

FIXED += [('C03', 'DP timetags of timestamps on days', 'from_dp_timetag(15427238400085944).dp_timetag was one tick more, up to 2268 ticks on days with a leap second')]

FIXED += [
    ('C31', 'the timespec of header', 'timestamp(timespec=...) always had seconds'),
    ('C31', 'parse_header() lost sections', 'a section after a key was flattened; free-form lines after a key changed its value or raised TypeError; "#fff" came back as "fff"'),
]

FIXED += [
    ('C32', 'file locks were not exclusive', 'a second thread with the same FileLock was let in at once; releasing an inner lock unlocked the outer one'),
    ('C32', 'memory locks acquired twice', 'locked() was False after an inner release'),
    ('C32', 'file locks in read-only', 'UnboundLocalError in a directory that cannot be written, also from import lsl'),
    ('C32', 'cached files in memory could only', 'iteration gave one line'),
    ('C32', 'cached files in memory opened for', 'appending overwrote the start of the file'),
    ('C32', 'the modification time of cached', 'getmtime of a MemoryCache raised TypeError'),
    ('C32', 'reading a missing file', 'an empty file was created'),
    ('C32', 'a file cache stayed locked', 'opening a missing file left the lock held'),
    ('C32', 'the size limit of a file cache', 'a file opened for appending was deleted when it was the oldest; a subdirectory made it hang'),
    ('C32', 'seek() of cached files', 'seek returned None'),
    ('C32', 'an empty cached file in memory', 'modification time of zero'),
    ('C32', 'incomplete downloads were', 'a connection closed early gave a short file that was accepted; chunked answers raised TypeError'),
    ('C32', 'check_url() did not', 'the modification time was text'),
    ('C32', 'interrupted downloads left', 'after an interrupted download the incomplete file was used from then on; a failed update deleted the old file; a newer file on the server was replaced by the old local one'),
    ('C33', 'configuration views did not', 'setting a parameter by its full name through a view raised ValueError'),
    ('C33', 'a KeyError raised while', 'KeyError in the body of set_temp became ValueError: Unknown parameter'),
    ('C33', 'optional configuration parameters set', 'igs_mirror set to None was the default again in the next session'),
    ('C33', 'changes to the configuration were', 'the second save of a session dropped its changes'),
    ('C33', 'an interrupted save', 'a cut line made import lsl fail with ValueError'),
    ('C33', 'configuration changes between equal', 'a change from 1 to True was not saved'),
    ('C34', 'self-calibration with amplitudes lost', 'phases and delays of earlier iterations were thrown away and gains of the result were of the last iteration'),
    ('C34', 'self-calibration stopped when', 'iteration ended when the amplitudes had converged although the phases had not'),
    ('C34', 'self-calibration for delays and phases drifted', 'delay and phase fit in turn diverged from the solution'),
    ('C35', 'catalog entries were not found', "lookup('3C133') in PKS and PKS90 found nothing"),
    ('C35', 'a pulsar with a malformed', 'RAJ of one field raised ValueError or used the position of the pulsar before'),
    ('C35', 'the power of a projected sky map', 'visible power was pi squared too large, and for other map sizes wrong by the number of pixels'),
    ('C35', 'the last digits of the positions', 'right ascensions of 791 sources lost their last digits (up to 1.5 arcseconds)'),
    ('C36', 'the altitude of a beam response', 'ephem.Angle altitudes were taken for degrees'),
    ('C36', 'the Stokes V response', 'V of the dipole models was always zero'),
    ('C36', 'the dipole models were normalized', 'responses were scaled by the field of the largest real part, phase included'),
    ('C36', 'the phase of complex NEC', 'phases in degrees were converted with the inverse factor'),
    ('C36', 'the frequency of a NEC card', 'FR cards with blanks after the commas got the frequency in another field'),
    ('C36', 'a NEC pattern without an output', 'UnboundLocalError without an output file and with rerun=False'),
    ('C37', 'the time of day was lost', 'the field did not change within a day'),
    ('C37', 'the magnetic field more than five', 'IndexError from 2030 on'),
    ('C37', 'ionospheric pierce points', 'azimuths outside 0-360 gave points far off the line of sight, sites at high latitudes ValueError'),
    ('C37', 'TEC values between maps', 'hourly maps were interpolated over four hours; the value at a map was not the map'),
    ('C37', 'TEC values at longitudes', 'longitudes from 180 to 360 gave the value at 180'),
    ('C37', 'the exponent of the values', 'EXPONENT of -2 gave values ten times too large'),
    ('C37', 'IONEX longitude grids', 'longitude step 0.1 or 0.7 gave one longitude more than values'),
    ('C37', 'TEC files that could not', 'a login page instead of a .Z file raised CalledProcessError and stayed in the cache'),
    ('C37', 'the USTEC uncertainties', 'uncertainties of maps that are wider than tall were zero in the eastern part'),
    ('C37', 'the GloTEC file of the next', 'FileNotFoundError within half a second of midnight'),
    ('C37', 'missing values of a TEC map', 'one 9999 made values of half the map NaN'),
    ('C37', 'the declination of a magnetic', 'declination of a field due south was 0 instead of 180'),
    ('C38', 'the background of an image whose', 'a flat image gave NaN'),
    ('C38', 'the background of integer', 'a background of 10.7 counts was 10'),
    ('C38', 'the background around the edges', 'an image at level 100 had a background of -251 in its corner'),
    ('C38', 'the background of an image depended', 'the same image in other units had another background; TypeError for images of fewer than 4 by 4 tiles'),
    ('C38', 'the background of an image was displaced', 'half a pixel times the gradient'),
    ('C38', 'the x and y offsets', 'a source at (40.4, 61) was found at (40, 61.4)'),
    ('C38', 'the shapes and centers', 'sources on a high background had a sharpness of zero and were dropped'),
    ('C38', 'the restored sources', 'a source at pixel (46, 38) was restored at (47, 39)'),
    ('C38', 'deconvolution failed for images', 'res=0.25'),
    ('C38', 'CLEAN failed for peaks', 'ValueError and TypeError from the fit'),
    ('C38', 'CLEAN removed the beam', 'RAs on both sides of 0h were averaged to 12h; NaN next to the horizon'),
    ('C38', 'the CLEAN components', 'no listed source above the horizon'),
    ('C38', 'the least squares deconvolution', 'the model of the failed iteration was returned'),
    ('C38', 'the width of a beam', 'cannot convert float NaN to integer'),
    ('C17', 'the 0,0 point of an image', 'image(center=(10, 0)) put it at -10; images with an odd number of pixels were a pixel off'),
    ('C39', 'splitDRX.py could not name', 'ValueError: format code d for a float'),
    ('C39', 'splitDRX.py started with the second', 'the first frame of the first capture was lost'),
    ('C39', 'splitDRX.py could not recursively', 'ValueError: math domain error'),
    ('C39', 'splitSession.py could not sort', 'TypeError: list.sort() takes no positional arguments'),
    ('C39', 'splitSession.py left out', 'the observation started one frame late'),
    ('C39', 'the OVRO-LWA option', 'the latitude was a string and the longitude that of LWA1'),
    ('C39', 'getIonosphericRM.py used the location', '--lwana'),
    ('C39', 'drSpecSpectra.py put most', 'YY of tuning 1 was plotted at the frequencies of tuning 2'),
    ('C39', 'drSpecSpectra.py plotted the chunks', 'the flag was used the wrong way around'),
    ('C39', 'tbxSpectra.py squared', 'the power of -8-8j was -128'),
    ('C39', 'driftcurve.py swapped', '--empirical gave the model without the corrections'),
    ('C39', 'splitSession.py could not work with TBS', 'SyncError'),
    ('C39', 'inspectTarball.py did not know', 'TBS sessions had a DRX beam'),
    ('C39', 'tbxSpectra.py left out antennas', '112 of 128 antennas'),
    ('C39', 'drSpecSpectra.py failed for files', 'ValueError from add_subplot'),
    ('C39', 'splitSession.py gave all', 'recording started after two of the observations'),
    ('C05', 'short TBX and COR files', 'a file of less than 8256 bytes'),
    ('C39', 'splitSession.py compared times', 'TypeError for every file'),
    ('C39', 'splitSession.py failed for TBS', 'RuntimeError: Unable to determine a frame size'),
    ('C40', 'take the text of colorfy() literally', 'a backslash or a line break in the text of a tag'),
    ('C40', 'let colorfy() take braces', 'any { or } in the text gave a ValueError'),
    ('C40', 'keep telemetry written in the same second', 'records of two processes in the same second overwrote each other'),
    ('C40', 'do nothing when a BusyIndicatorPlus', 'stop() without start() gave an AttributeError'),
    ('C40', 'make telemetry.ignore() stop', 'usage was recorded after ignore()'),
    ('C25', 'refuse names with RuntimeError', 'an answer that is not XML or has no numbers gave a TypeError or ParseError'),
]
