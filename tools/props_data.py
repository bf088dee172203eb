NOT_APPLICABLE = []
TESTED = 'The existing tests only print results for one input file. '

prop('C01', 'Time conversions are exact and mutually inverse on every date',
     'For every instant between 1980 and 2099 the conversions between calendar '
     'date, day of year, text, week and time-of-week of GPS/Galileo/BeiDou '
     'time, BeiDou time, GLONASS time-of-day and UTC give the correct instant '
     'and are mutually inverse, across leap seconds, leap days, week and year '
     'boundaries and for time-of-week values outside one week. Adding, '
     'differencing and comparing instants is exact to the nanosecond and '
     'never alters its arguments. A time known only modulo a day or week is '
     'resolved to the candidate nearest to the reference instant.',
     ['inputs'], 'all instants 1980-2099 with fractional seconds, all leap '
     'second steps, all offsets (positive, negative, beyond a week)',
     TESTED+'A handful of epochs cannot expose an error at one of 18 leap '
     'second steps, a leap day or a week boundary.',
     ['gnss.py'],
     [('calendar and week conversions', 'gnss.py'),
      ('leap second table', 'gnss.py')],
     'runtime monitor: differential oracle (datetime/Fraction) over generated '
     'instants',
     'Sampled instants with boundary-biased generator; trusts Python datetime '
     'and the published leap second list.')

prop('C02', 'Satellite identifiers map one-to-one onto satellite numbers',
     'Every satellite of every supported constellation has its own internal '
     'number; converting constellation and PRN to the number and back, or '
     'RINEX identifier to the number and back, returns the original, and the '
     'numbers fill the range without gaps. Unknown constellation letters and '
     'numbers beyond the range are reported as unknown.',
     ['inputs'], 'all 233 satellites of the seven constellations and all '
     'constellation letters',
     TESTED+'Only one satellite identifier appears in them.',
     ['gnss.py'], [('numbering functions', 'gnss.py')],
     'runtime monitor: exhaustive enumeration against an independent table',
     'Complete enumeration of the satellite numbering space.')

prop('C03', 'Observation codes and carrier frequencies follow RINEX',
     'Every observation code that RINEX 3/4 defines for a constellation is '
     'accepted, prints back unchanged, compares equal and hashes equal only to '
     'itself, and can be re-typed or re-attributed without changing the '
     'original. A tracking attribute RINEX does not define for that '
     'constellation and band is rejected. Carrier frequency and wavelength '
     'are those of the interface documents, including the GLONASS FDMA '
     'channels.',
     ['inputs'], 'all constellations x types x bands x attributes, FDMA '
     'channels -7..13',
     'The existing test prints a few codes and does not compare them with '
     'anything.',
     ['gnss.py'], [('RINEX signal representation', 'gnss.py')],
     'runtime monitor: exhaustive enumeration against the RINEX code tables',
     'Complete enumeration; the reference table was written from the RINEX '
     '3.05/4.00 tables (a few legacy attributes the library tolerates are '
     'not judged).')

prop('C04', 'Coordinate transformations are exact inverses with no side effect',
     'Geodetic and Cartesian positions convert into each other within a '
     'millimetre anywhere from 10 km below ground to geostationary altitude, '
     'including poles and date line, and local east/north/up frames are '
     'orthonormal and right-handed. Azimuth, elevation and the range with '
     'Earth-rotation correction agree with the geometry for every satellite '
     'direction, zenith included. None of these operations alters the arrays '
     'passed in, and decimal degrees split into degrees/minutes/seconds '
     'without loss.',
     ['inputs'], 'all positions and directions, radians or degrees',
     TESTED+'Poles, zenith and aliasing of caller data are never exercised.',
     ['gnss.py'], [('frame conversions', 'gnss.py')],
     'runtime monitor: geometric reference model + argument mutation monitor',
     'Sampled positions with boundary-biased generator; closed-form '
     'ellipsoid geometry as oracle.')

prop('C05', 'Broadcast messages give the satellite state of the interface documents',
     'For every broadcast ephemeris (GPS/QZSS/Galileo/BeiDou/NavIC legacy and '
     'CNAV types, BeiDou GEO/IGSO/MEO, GLONASS) and SBAS ephemeris and '
     'almanac (Yuma included) the computed position, velocity, clock and '
     'relativistic term are those of the interface document, at every instant '
     'of the validity interval, including week rollover. The velocity is the '
     'derivative of the position, and computing a state never alters the '
     'ephemeris.',
     ['inputs'], 'all physically plausible ephemerides of every constellation '
     'and type, all times within validity, week boundaries',
     TESTED+'One satellite at one time is printed; nothing checks harmonic '
     'terms, velocities, GEO rotation or rollover.',
     ['ephemeris.py', 'gnss.py'],
     [('orbit and clock models', 'ephemeris.py')],
     'runtime monitor: independent reference model over generated ephemerides',
     'Sampled ephemerides; reference written from the ICDs with a converged '
     'Kepler solution and its own integrator.')

prop('C06', 'The right broadcast record is used for every satellite and epoch',
     'Among the records of a satellite the one of the requested type (legacy '
     'or CNAV) whose reference time is nearest is used, the later one '
     'superseding an equal one, only within the validity of its '
     'constellation, and the record with the requested issue of data if one '
     'is given; otherwise none. The states computed for an epoch of '
     'observations refer to the transmission time of each satellite, carry '
     'the health of the record, and are zero and flagged unhealthy for a '
     'satellite without valid record. Observations and navigation data are '
     'left unchanged and repeating the computation gives the same result.',
     ['inputs', 'histories'], 'all navigation data sets and observation '
     'epochs of all constellations',
     TESTED+'One fixed data set cannot show stale, superseded, unhealthy or '
     'missing records.',
     ['ephemeris.py'], [('record selection', 'ephemeris.py'),
                        ('transmission time', 'ephemeris.py')],
     'runtime monitor: reference selection and orbit model over generated '
     'record sets, state-mutation monitor',
     'Sampled record sets and epochs.')

prop('C07', 'SSR corrections are applied only when consistent, with right sign',
     'A satellite state is corrected only if orbit, clock, mask issue and '
     'broadcast issue of data match (the current or the previous correction '
     'set), and the satellite is excluded if they do not or a correction is '
     'missing or invalid. The corrected position and clock are those of the '
     'service document: radial/along/cross frame or Earth-fixed, sign, rate, '
     'high-rate clock and group delay per service. Applying corrections never '
     'alters the stored corrections, the ephemeris or the observations.',
     ['inputs', 'histories'], 'all services, constellations and combinations '
     'of issue numbers and invalid values',
     TESTED+'Inconsistent issues, previous correction sets and invalid values '
     'do not occur in the sampled epochs.',
     ['ephemeris.py', 'cssrlib.py'],
     [('correction application', 'ephemeris.py'),
      ('correction store', 'cssrlib.py')],
     'runtime monitor: reference application over generated correction '
     'stores, state-mutation monitor',
     'Sampled stores; acceptance rule of issue numbers written per service.')

prop('C08', 'RINEX observation files are read and written without loss',
     'Every observation of a RINEX 3/4 file (pseudorange, phase, Doppler, '
     'signal strength, loss of lock) of the selected signals is returned '
     'under its satellite and signal at its epoch, missing ones as zero, for '
     'any number of signals, satellites, epochs and continuation lines, and '
     'event records never appear as observations. Signals are selected by '
     'constellation exactly as requested, an equivalent tracking of the same '
     'signal standing in for a missing one if asked for. Decoded observations written by '
     'the encoder and read again are the same.',
     ['inputs'], 'all header layouts, signal selections, gaps, event records '
     'and blank fields of RINEX 3.0x/4.0x',
     TESTED+'The sample file has one fixed header and no events or blanks.',
     ['rinex.py'], [('observation decoder', 'rinex.py'),
                    ('observation encoder', 'rinex.py')],
     'runtime monitor: files of an independent formatter, decoded records '
     'compared with the generating values, encode/decode round trip',
     'Sampled files; format implemented from the RINEX 3.05/4.01 documents.')

prop('C09', 'RINEX navigation files are read and written without loss',
     'Every navigation record of a RINEX 3/4 file of any constellation and '
     'message type is returned with the satellite, message type, reference '
     'times in system time, issue of data, health, accuracy and parameters '
     'in the units of the RINEX definition, independent of the order of the '
     'records, and auxiliary records (ionosphere, system time, earth '
     'orientation) do not disturb them. Ephemerides written by the encoder '
     'and read again are the same, and each new ephemeris is written exactly '
     'once.',
     ['inputs', 'histories'], 'all message types, values, blank fields and '
     'orders of records',
     TESTED+'The sample file has only a few message types and no blanks.',
     ['rinex.py', 'gnss.py'], [('navigation decoder', 'rinex.py'),
                               ('navigation encoder', 'rinex.py')],
     'runtime monitor: files of an independent formatter, decoded records '
     'compared with the generating values, encode/decode round trip',
     'Sampled records; GLONASS CDMA transmission time is not judged.')

prop('C10', 'Rover and base epochs are paired only when simultaneous',
     'Two observation streams are paired so that every returned pair refers '
     'to the same epoch within the tolerance of the nominal sampling, in '
     'order, and no common epoch is lost, whatever epochs are missing in '
     'either file. At the end of either file the pairing ends without '
     'looping or raising.',
     ['inputs', 'schedules'], 'all pairs of streams with any gaps and offsets '
     'of the start and end',
     TESTED+'Both sample files are complete and start together.',
     ['rinex.py'], [('synchronisation', 'rinex.py')],
     'runtime monitor: pairing log of generated streams against the set of '
     'common epochs, CPU-time watchdog',
     'Sampled streams.')

prop('C11', 'Precise orbits and clocks reproduce the products they were read from',
     'Satellite orbits and clocks interpolated from SP3 and Clock-RINEX files '
     'agree with the product at its epochs and with the smooth orbit between '
     'them, with the standard deviations of the file in metres, and nothing '
     'is returned for satellites, epochs and data that the product does not '
     'contain. An SP3 file written and read again gives the same orbits.',
     ['inputs'], 'all products with any satellites, rates, gaps and flags',
     TESTED+'One product with all satellites and epochs present is tested.',
     ['peph.py', 'rinex.py', 'ephemeris.py'],
     [('SP3 reader and writer', 'peph.py'),
      ('interpolation', 'peph.py'), ('clock reader', 'rinex.py')],
     'runtime monitor: products of simulated analytic orbits, interpolated '
     'states compared with the analytic orbit and the product',
     'Sampled products; velocity records of SP3 (EP/EV) are not covered.')

prop('C12', 'Antenna phase centre corrections follow the calibration and geometry',
     'The calibration used is the one of the antenna type or satellite valid '
     'at the epoch, never another one, and none outside of its validity. '
     'Range corrections of transmitting and receiving antennas are the '
     'projection of the calibrated offset of the signal (or its documented '
     'substitute band) on the line of sight plus the variation interpolated '
     'at the nadir or zenith angle, relative to the reference signals of the '
     'orbit; the offset of the centre of mass is the same vector, and an '
     'uncalibrated signal gives no number.',
     ['inputs'], 'all ANTEX/NGS files, antennas, epochs, signals, geometries',
     TESTED+'Two antennas and one epoch are tested; validity, substitution '
     'and geometry are not.',
     ['peph.py'], [('ANTEX/NGS readers', 'peph.py'),
                   ('antModelTx/antModelRx/apc2com', 'peph.py')],
     'runtime monitor: generated calibration files and geometries, vector '
     'oracle, Sun direction from PyEphem, state-mutation monitor',
     'Azimuth dependent variations are not modelled by the library.')

prop('C13', 'Signal biases are those of the satellite, signal and validity',
     'A bias of a Bias-SINEX file is returned with its standard deviation '
     'exactly for its satellite, signal (reference signal) and half-open '
     'validity interval including open bounds, and nothing is returned '
     'otherwise. Station biases and GLONASS biases of other sites are never '
     'used.',
     ['inputs'], 'all bias files, satellites, signals and epochs',
     TESTED+'One day of one file is read; bounds are not probed.',
     ['peph.py'], [('Bias-SINEX reader and retrieval', 'peph.py')],
     'runtime monitor: generated files, retrieval at and around all interval '
     'bounds against the generating records',
     'Bias slopes are not used by the library.')

prop('C14', 'Earth, Sun, Moon and relativistic effects agree with their models',
     'Sun and Moon directions and distances, sidereal time and the rotation '
     'between inertial and Earth-fixed frames agree with astronomical '
     'ephemerides at any epoch, and both implementations agree with each '
     'other. Solid tide displacements agree with the IERS conventions (apart '
     'from the permanent tide in the simple model), phase windup with the '
     'crossed-dipole rotation tracked continuously, and the relativistic '
     'delay with the path integral.',
     ['inputs', 'histories'], 'all epochs 2000-2036, sites and satellite '
     'passes',
     TESTED+'Only a single epoch with a tolerance of 3 percent is tested.',
     ['ppp.py', 'peph.py'], [('tides, windup, Sun/Moon', 'ppp.py'),
                             ('frame rotation', 'peph.py')],
     'runtime monitor: PyEphem, pysolid and independent precession/nutation '
     'as oracles over random epochs, sites and passes',
     'Tolerances: Sun 0.02 deg, Moon 0.45 deg, frame 4e-7 rad, simple tide '
     '12 mm.')

prop('C15', 'Atmospheric delay models follow their published definitions',
     'Zenith delays and mapping functions of the Saastamoinen/Niell, SBAS MOPS '
     'and Hopfield models and the Klobuchar ionospheric delay equal their '
     'published definitions at any site, height, day of year, elevation and '
     'coefficient set, on both hemispheres. The ionospheric pierce point is '
     'where the line of sight crosses the shell, and its slant factor is the '
     'obliquity there. Models switched off return zero, and no input is '
     'altered.',
     ['inputs'], 'all epochs, sites -400 m to 12 km, directions above 1 '
     'degree, coefficient sets',
     TESTED+'One site and one epoch is evaluated.',
     ['gnss.py', 'pntpos.py'],
     [('tropmodel/tropmapf/ionppp', 'gnss.py'), ('ionmodel', 'pntpos.py')],
     'runtime monitor: independent implementations of the published models, '
     'ray/sphere intersection',
     'Sampled inputs.')

prop('C16', 'Estimation steps are statistically exact and never lose information',
     'The dilution of precision equals the covariance of the unweighted '
     'position solution of the satellites above the mask and never grows when '
     'a satellite is added. A Kalman measurement update gives the weighted '
     'least squares combination of prior and measurements with a symmetric '
     'positive semi-definite covariance, leaves inactive states alone, and a '
     'sequence of updates equals the batch solution.',
     ['inputs', 'histories'], 'all geometries, linear Gaussian systems and '
     'sequences of updates', TESTED+'None of them checks a covariance.',
     ['gnss.py', 'pppssr.py'], [('dops, kfupdate', 'gnss.py'),
                                ('kfupdate', 'pppssr.py')],
     'runtime monitor: information-form and pseudo-inverse oracles on random '
     'systems',
     'Sampled systems up to 12 states and 14 measurements.')

prop('C17', 'Ambiguity resolution returns the best integer candidates',
     'For any positive definite covariance and float ambiguities, the two '
     'returned candidates are integer vectors, are the closest and second '
     'closest in the metric of the covariance, and come with their true '
     'squared distances and a success rate that never exceeds its theoretical '
     'bound. Results follow integer shifts and permutations of the '
     'ambiguities, for ambiguities of any magnitude. Partial resolution fixes '
     'everything when the required success rate is met and keeps the float '
     'solution when it fixes nothing.',
     ['inputs'], 'all covariances and float vectors of 1 to 16 ambiguities',
     TESTED+'Two published data sets are tested.',
     ['mlambda.py'], [('LAMBDA reduction and search', 'mlambda.py')],
     'runtime monitor: independent LLL/enumeration solver, brute force, '
     'metamorphic shift and permutation',
     'parmode 3 (undocumented, incomplete) is not covered.')

prop('C18', 'Standalone positioning recovers position, clock and geometry',
     'From pseudoranges of at least four healthy satellites above the mask, '
     'in any constellation mix, the standalone solution gives the true '
     'position and receiver clock through clock jumps and motion, uses '
     'exactly the healthy satellites above the mask and reports their '
     'dilution of precision. The ionosphere-free combination removes any '
     'ionosphere, carrier smoothing is the average over the arc and restarts '
     'after slips, gaps and invalid data; with too few satellites the '
     'solution is left alone and the observations are never altered.',
     ['inputs', 'histories'], 'all receiver positions, epochs, constellation '
     'mixes, clock histories and data faults',
     TESTED+'None of them computes a standalone position.',
     ['pntpos.py', 'ephemeris.py', 'pppssr.py'],
     [('stdpos process/csmooth', 'pntpos.py')],
     'runtime monitor: simulated observations with exact light time and '
     'published atmosphere, truth comparison',
     'Simulated observations; the Galileo E1 group delay of I/NAV records is '
     'not applied by the library and not simulated.')

prop('C19', 'RTK positions are right whenever they are reported as fixed',
     'For any pair of receivers, the position relative to the base '
     'converges to the true one, and every solution reported as fixed is at '
     'the true position, through cycle slips, outages and bad satellites at '
     'either receiver, static or moving, with or without estimated '
     'troposphere and ionosphere. Processing leaves the base position and '
     'the observations untouched.',
     ['inputs', 'histories'], 'all baselines, constellation mixes and '
     'fault histories', TESTED+'One minute of one data set, without slips of '
     'either receiver, is processed and not compared to a reference.',
     ['rtk.py', 'pppssr.py', 'mlambda.py'],
     [('rtkpos', 'rtk.py'), ('pppos.process', 'pppssr.py')],
     'runtime monitor: simulated base/rover pairs with injected slips, '
     'outages and noise, truth comparison',
     'GLONASS ambiguities are estimated but not fixed; noise-free slips '
     'below the geometry-free threshold need the loss-of-lock flag.')

prop('C20', 'PPP models every effect of the selected correction service',
     'For every correction service (broadcast only, precise products, SSR, '
     'HAS, MADOCA, CLAS, B2b, SouthPAN), the residuals at the true position '
     'contain nothing but the estimated quantities: geometry, clocks, '
     'relativity, tides, atmosphere, windup, antennas and signal biases are '
     'removed with the right sign, size and reference signals. The position '
     'converges through slips, outages, bad health, weak signals and '
     'exclusions with exactly the eligible satellites in use. Instances are '
     'independent and neither corrections, observations nor configuration '
     'are altered.',
     ['inputs', 'histories'], 'all services, sites, epochs, constellation '
     'mixes and fault histories', TESTED+'None of them runs PPP.',
     ['pppssr.py', 'ephemeris.py'],
     [('zdres/sdres/udstate/process', 'pppssr.py')],
     'runtime monitor: simulated observations containing every effect, '
     'residual and truth comparison, mutation monitors',
     'Tide, Sun and windup values are the ones of the functions decided by '
     'C14; the gridded atmosphere of CLAS is decided separately.')

prop('C21', 'RTCM 3 streams: frames, MSM observations, station messages',
     'From any byte stream exactly the undamaged RTCM 3 frames are accepted, '
     'and every MSM1-7 message of GPS, GLONASS, Galileo, SBAS, QZSS and '
     'BeiDou yields the transmitted epoch, satellites, signals, pseudoranges, '
     'carrier phases in cycles and signal strengths, with zero for anything '
     'marked invalid or not transmitted. Loss of lock and half-cycle '
     'ambiguity are flagged exactly when the lock indicator of the signal '
     'drops or says so, across epochs. Station position, antenna, receiver, '
     'GLONASS bias, text and network residual messages give the transmitted '
     'values.', ['inputs', 'histories'],
     'all messages, masks, values, lock histories and stream damage',
     TESTED+'None of them reads an RTCM stream.',
     ['rtcm.py'], [('rtcm.checksum/decode/decode_msm', 'rtcm.py')],
     'runtime monitor: independent RTCM encoder, history model of lock '
     'indicators, injected damage',
     'GLONASS CDMA signals other than L3 and NavIC MSM are not supported by '
     'the library; GLONASS day "unknown" is not sent.')

prop('C22', 'RTCM ephemeris messages give the transmitted orbit and clock',
     'Every GPS, QZSS, Galileo (F/NAV and I/NAV), BeiDou, NavIC, GLONASS and '
     'SBAS ephemeris message yields exactly the transmitted satellite, '
     'orbit, clock, group delay, health and issue-of-data values in SI units. '
     'Reference times are resolved to the week (or day) nearest to the '
     'receive time, across week, day and 1024-week rollovers.',
     ['inputs'], 'all field values, satellites and receive times',
     TESTED+'Only RINEX ephemerides are tested.',
     ['rtcm.py'], [('decode_*_eph', 'rtcm.py')],
     'runtime monitor: independent encoder from the field tables of the '
     'standard', 'The obsolete BeiDou message number 63 is not covered.')

prop('C23', 'RTCM and IGS SSR messages give the transmitted corrections',
     'For any history of RTCM SSR, SSR test-number and IGS SSR messages of '
     'all systems, the store holds exactly the orbit, clock, high-rate clock, '
     'URA, code and phase bias corrections of the latest epoch of each kind, '
     'in SI units, per satellite and per signal, with unavailable values as '
     'NaN. Epoch, IOD, provider, solution, datum, update interval and '
     'reference times are those of the messages.', ['inputs', 'histories'],
     'all messages, satellites, signals, values and message histories',
     TESTED+'None of them decodes an SSR message.',
     ['rtcm.py', 'cssrlib.py'], [('decode_cssr_*/decode_igsssr', 'rtcm.py')],
     'runtime monitor: independent encoder and correction store model',
     'Reserved signal numbers are not sent; ionosphere coefficients are '
     'skipped by the library, not stored.')

prop('C24', 'CLAS Compact SSR streams give exactly the broadcast corrections',
     'For any history of Compact SSR messages (mask, orbit, clock, code and '
     'phase bias, combined, URA, STEC, grid and atmospheric corrections; '
     'global or per network; any satellite and signal mask), the store holds '
     'exactly the latest corrections of each kind per satellite, signal and '
     'network in SI units, "not available" as NaN, with their reference '
     'times, IODs and status. Network corrections of another mask (IOD SSR) '
     'and foreign messages change nothing. L6 frames are joined to sub '
     'frames only when all five frames of one facility arrived.',
     ['inputs', 'histories'],
     'all message histories, masks, values and frame losses',
     TESTED+'None of them decodes a Compact SSR message.',
     ['cssrlib.py'], [('cssr.decode_cssr/decode_l6msg', 'cssrlib.py')],
     'runtime monitor: independent encoder and correction store model, '
     'injected frame loss',
     'SBAS and NavIC masks and the merging of two channels are not covered; '
     'losses hiding each other across a sub frame border (frames carry no '
     'number) are not sent.')

prop('C25', 'Network atmosphere corrections are those of the user location',
     'For every position the network of the nearest grid point is used; '
     'troposphere and STEC are the broadcast polynomial plus the residuals '
     'interpolated with normalised inverse-distance weights of the '
     'surrounding grid points (that point alone within 5 km). PPP-RTK '
     'residuals at the true position then contain receiver clock and '
     'ambiguity only, and the position converges to the truth.',
     ['inputs'], 'all grid definitions, positions, correction contents and '
     'measurement situations',
     TESTED+'PPP-RTK and grid interpolation are not tested.',
     ['cssrlib.py', 'pppssr.py', 'ppprtk.py'],
     [('find_grid_index/get_trop/get_stec', 'cssrlib.py'),
      ('pppos.zdres', 'pppssr.py')],
     'runtime monitor: independent interpolation and simulated observations',
     'Grids across the date line and grid files with one point only are not '
     'covered.')

prop('C26', 'Galileo HAS messages are recovered and decoded exactly',
     'From any sufficient set of received pages, in any order, with '
     'duplicates, dummy, foreign and unusable pages in between, the HAS '
     'message that was transmitted is recovered, never another one. Its '
     'orbit, clock (full and subset), code and phase bias blocks yield '
     'exactly the transmitted corrections in metres for the satellites and '
     'signals of the referenced mask; messages of an unknown mask or with '
     'invalid header change nothing.', ['inputs', 'histories'],
     'all page subsets and orders, masks, values and message histories',
     TESTED+'None of them reads a Galileo HAS page.',
     ['cssr_has.py', 'cssrlib.py'],
     [('cnav_msg.decode_cnav', 'cssr_has.py'),
      ('cssr_has.decode_cssr', 'cssr_has.py')],
     'runtime monitor: independent RS(255,32) encoder over GF(256), message '
     'encoder and store model',
     'The generator matrix of the ICD is an input of the library; the check '
     'generates one.')

prop('C27', 'BeiDou PPP-B2b corrections are decoded exactly and kept consistent',
     'After every message the store holds, for the satellites of the PRN '
     'mask in force, exactly the broadcast orbit, clock, code bias and '
     'accuracy values with their IODs and epochs (not-available values as '
     'such). Messages of another SSR or mask issue, of satellites outside '
     'the mask, without a mask or of other types change nothing; a mask of '
     'a new issue drops the old corrections and a clock of a new IOD keeps '
     'the previous one.', ['inputs', 'histories'],
     'all masks, values and message histories',
     TESTED+'None of them reads a PPP-B2b message.',
     ['cssr_bds.py', 'cssrlib.py'],
     [('cssr_bds.decode_cssr', 'cssr_bds.py')],
     'runtime monitor: independent encoder and correction store model',
     'The slot numbering of the clock part of message type 6, reserved '
     'signals and the reserved value -(2^(n-1)-1) are not sent.')

prop('C28', 'SBAS L1 messages are decoded exactly and applied as specified',
     'After every message the fast, long-term and mixed corrections, UDREI, '
     'degradation, GEO state and almanac, service and covariance data in '
     'store are exactly those broadcast, for the satellites the PRN mask '
     'position refers to; messages of another mask issue and before a mask '
     'change nothing, satellites that left the mask lose their corrections. '
     'Applied to broadcast orbits of the referenced IODE they shift position '
     'and clock as DO-229 prescribes.', ['inputs', 'histories'],
     'all masks, values, reception times and message histories',
     TESTED+'None of them reads an SBAS message.',
     ['sbas.py', 'ephemeris.py'],
     [('sbasDec.decode_cssr', 'sbas.py'), ('satposs', 'ephemeris.py')],
     'runtime monitor: independent encoder and correction store model',
     'Message types 0, 12 and the alarm rules of IODF are not covered, nor '
     'the largest value of signed fields (treated as not available).')

prop('C29', 'DFMC SBAS and PVS corrections are decoded and applied exactly',
     'Satellite mask, clock-ephemeris corrections with covariance, the three '
     'forms of integrity messages, SBAS ephemeris and almanac yield exactly '
     'the transmitted values for the right satellite, with times resolved to '
     'the nearest day; integrity messages of another mask change nothing. '
     'Compressed SISNeT text lines expand to the message sent. '
     'Corrections (with rates from the broadcast time of applicability) are '
     'applied to the broadcast ephemeris of the referenced IOD only.',
     ['inputs', 'histories'],
     'all masks, values, reception times and message histories',
     TESTED+'None of them reads a DFMC SBAS or PVS message.',
     ['sbas.py', 'cssr_pvs.py', 'ephemeris.py'],
     [('sbasDec.decode_cssr', 'sbas.py'),
      ('cssr_pvs.decode_cssr', 'cssr_pvs.py'), ('satposs', 'ephemeris.py')],
     'runtime monitor: independent encoder and correction store model',
     'Message type 37 (OBAD parameters) and QZSS TVS framing are not covered.')

prop('C30', 'SBAS ionospheric delay is that of the broadcast grid in force',
     'For pierce points up to 75 degrees of latitude the slant delay is the '
     'four-point, or inside a triangle three-point, interpolation of the '
     'broadcast delays at the grid points around the pierce point times the '
     'obliquity factor; grid points that are not monitored or not to be used '
     'never contribute, and a new grid mask makes older delays void. Without '
     'enough points no SBAS delay is used.', ['inputs', 'histories'],
     'all grid masks, delays, message histories and pierce points',
     TESTED+'None of them uses an SBAS grid.', ['sbas.py', 'pntpos.py'],
     [('ionoSBAS/searchIGP', 'sbas.py'), ('ionmodel', 'pntpos.py')],
     'runtime monitor: independent grid, pierce point and interpolation',
     'Larger fallback cells and the polar caps are not covered.')

prop('C31', 'QZSS SLAS (DGPS) corrections are decoded and applied exactly',
     'After every L1S message the satellite mask, IODs, the corrections of '
     'every reference station, station locations and health are exactly '
     'those broadcast; messages of another mask or issue change nothing and '
     'corrections without a valid IOD are not used. The nearest station is '
     'selected, and single point positioning with its corrections removes '
     'the errors common to the station and the receiver.',
     ['inputs', 'histories'],
     'all masks, stations, values, message histories and positions',
     TESTED+'None of them reads a SLAS message.',
     ['dgps.py', 'pntpos.py'],
     [('dgpsDec.decode_cssr', 'dgps.py'), ('stdpos.process', 'pntpos.py')],
     'runtime monitor: independent encoder, store model and simulated errors',
     'Message types 43 and 44 are subject of C37; use of base station '
     'observations is not implemented by stdpos.')

prop('C32', 'Galileo OSNMA authenticates exactly the signed navigation data',
     'Navigation data are reported as authenticated only if a tag over '
     'exactly these data verifies with a chain key disclosed afterwards that '
     'descends from a root key signed by a trusted public key; data, tags, '
     'keys, root keys or public keys that were altered, forged, outdated or '
     'replayed are never accepted. Every genuine tag whose sub-frames were '
     'received is used, in every configuration, and receivers are '
     'independent of each other.', ['inputs', 'histories', 'fault_sequences'],
     'all configurations, keys, data, sub-frame sequences, page losses and '
     'attacks on any part of the messages',
     TESTED+'None of them runs OSNMA.', ['osnma.py'],
     [('osnma.decode', 'osnma.py'), ('osnma.decode_hk', 'osnma.py')],
     'runtime monitor: independent transmitter, attackers and acceptance '
     'model',
     'Byte sized tags and P-256 signatures; chain renewal and revocation, '
     'alert messages, MACLT 28 and 37 are not covered.')
prop('C33', 'QZNMA authenticates exactly the navigation messages that were signed',
     'A QZSS LNAV, CNAV or CNAV2 message, or a GPS LNAV/CNAV or Galileo '
     'F/NAV, I/NAV message loaded before, is counted as authenticated when, '
     'and only when, the signature sent for it (LNAV/CNAV/CNAV2 pages, or L6 '
     'for GPS and Galileo) verifies over exactly its signed bits with the '
     'public key of the key ID sent. Altered, mixed, forged, replayed or '
     'incompletely received messages and signatures are never counted, '
     'unsigned bits do not matter, and losses, unknown keys, week rollover '
     'or other satellites do not disturb what follows.',
     ['inputs', 'histories', 'fault_sequences'],
     'all messages, keys, losses, alterations and interleavings of satellites',
     TESTED+'None of them runs QZNMA.', ['qznma.py'],
     [('qznma.decode', 'qznma.py'), ('qznma.gen_rds', 'qznma.py')],
     'runtime monitor: independent signer, attackers and acceptance model',
     'GPS CNAV2 over L6 and repeated IODs with new contents are not covered.')
prop('C34', 'Raw navigation messages yield exactly the ephemeris that was sent',
     'From a stream of sub-frames, pages or strings of several satellites '
     '(GPS/QZSS LNAV, CNAV, CNAV2; Galileo I/NAV, F/NAV; BeiDou D1, D2, '
     'B-CNAV1-3; NavIC LNAV and L1; GLONASS FDMA and CDMA; SBAS type 9) an '
     'ephemeris is returned only when all its parts of one data set are '
     'present, and its elements, clock, group delays, health, accuracy, '
     'weeks and times are exactly those sent, also over the week rollover. '
     'Losses, other satellites, messages of another kind and data set '
     'changes never yield a mixed ephemeris. A receiver decoder opens and '
     'closes the files of its enabled options, and its SBAS file repeats '
     'each message with time, satellite and type.',
     ['inputs', 'histories', 'fault_sequences'],
     'all field values, message orders, losses, data set changes and weeks',
     TESTED+'One recorded ephemeris per few message types is checked.',
     ['rawnav.py'],
     [('RawNav.decode_*', 'rawnav.py'), ('rcvDec', 'rawnav.py')],
     'runtime monitor: independent transmitter per message type and '
     'reception model',
     'GLONASS CDMA strings are those of the implemented layout and of one '
     'data set; frames across the week boundary are sent for CNAV only.')
prop('C35', 'MADOCA-PPP area ionosphere corrections are decoded and used exactly',
     'After every MADOCA-PPP message the Compact SSR store, the coverage '
     'areas and the STEC polynomials of every area are exactly those '
     'broadcast. For every position on earth the area that contains it is '
     'selected, none when none does, the offset and slant TEC are those of '
     'the polynomial of this area, and PPP residuals of a receiver in the '
     'area then contain receiver clock and ambiguity only.',
     ['inputs', 'histories'],
     'all areas, polynomials, message histories and positions',
     TESTED+'None of them uses MADOCA-PPP.', ['cssr_mdc.py', 'pppssr.py'],
     [('cssr_mdc.decode_cssr/find_grid_index/get_stec', 'cssr_mdc.py'),
      ('pppos.zdres', 'pppssr.py')],
     'runtime monitor: independent encoder, geometry and simulated '
     'observations',
     'Positions next to the border of circles are left open; withdrawal of '
     'areas, alerts and IOD mismatch have no defined effect in the code.')

prop('C36', 'RTCM SSR messages that are encoded carry exactly the corrections',
     'Orbit, clock, high-rate clock, combined, code bias, phase bias and URA '
     'corrections of GPS, Galileo, BeiDou and QZSS, regional troposphere and '
     'ionosphere corrections, grid definitions of type 0 and 1 and the empty '
     'metadata message are encoded into valid RTCM frames whose every field '
     'has the layout of the SSR messages (as the decoder of the library reads '
     'them) and the value of the store rounded to the nearest unit, '
     'unavailable values being marked as such. Header, number and order of '
     'satellites, signals and points always match the content, also if '
     'corrections of other systems are stored or some corrections are '
     'missing, so that decoding the frame returns the corrections of the '
     'store to half a unit. The mapping between message numbers and (system, '
     'correction type) is consistent in both directions.',
     ['inputs', 'configurations'], 'random correction stores of one to four '
     'systems with missing rates, biases, yaw angles and invalid values; '
     'networks with arbitrary grid points; all residual options',
     'No test encodes an SSR message.',
     ['rtcm.py', 'cssrlib.py'],
     [('SSR message encoder rtcme', 'rtcm.py'),
      ('grid, troposphere and ionosphere message decoders', 'rtcm.py')],
     'runtime monitor: bit-exact comparison with independently built frames '
     'and decoding of the encoded frames',
     'Excluded: GLONASS (time of day), MSM, integrity and satellite antenna '
     'messages, grid type 2, URA between two grid values.')

prop('C37', 'Disaster reports in QZSS messages are decoded and dated correctly',
     'Every field of the JMA reports of all twelve categories and of the '
     'common alert messages (hazard, severity, duration, guidance, main and '
     'secondary ellipse, position of the hazard, details of every hazard, '
     'extension with areas) has the value that was transmitted, whatever was '
     'received before. Report, event, arrival and onset times are the dates '
     'meant by the sender also when the message is received after the turn '
     'of a day, week, month or year; pages of texts are assembled in any '
     'order and not mixed with other messages. Unknown categories, classes, '
     'hazards, regions and municipalities are refused or skipped without '
     'changing what was received before.',
     ['inputs', 'histories'], 'random reports of every category and hazard, '
     'reception times around all turns of the calendar, page orders',
     'No test decodes these messages.',
     ['ewss.py', 'dgps.py'],
     [('JMA and CAMF message decoders', 'ewss.py'),
      ('dgpsDec.decode_mt43/decode_mt44', 'dgps.py')],
     'runtime monitor: independent encoder and calendar; decoded attributes '
     'and log compared',
     'Text tables are stand-ins (the official ones are not part of the '
     'repository); reserved values are not sent.')

prop('C38', 'Filters start as configured and use only valid data and integers',
     'Every filter (PPP, PPP-RTK, RTK; static and kinematic; with and without '
     'estimated troposphere and ionosphere) starts with the states, variances '
     'and process noise that its configuration prescribes, is predicted with '
     'the constant-velocity or the static model, and initialises or restarts '
     'states of satellites exactly when they are new or slipped. An '
     'observation is used exactly if its satellite is healthy, not excluded, '
     'above the mask, with orbit and clock, and has code, phase, sufficient '
     'C/N0, no loss-of-lock flag and no geometry-free jump on the used '
     'frequencies, at rover and base. If ambiguities are resolved the fixed '
     'position is the float solution conditioned on the integers that were '
     'accepted by the ratio test, and held integers constrain the filter to '
     'these values only.',
     ['inputs', 'configurations', 'histories'], 'random configurations of '
     'the three engines, satellites with every kind of defect, random float '
     'solutions with correlated ambiguities',
     TESTED+'No test changes the configuration or delivers defective data.',
     ['pppssr.py', 'ppprtk.py', 'rtk.py'],
     [('pppos.__init__/udstate/qcedit/resamb_lambda/holdamb', 'pppssr.py'),
      ('ppprtkpos', 'ppprtk.py'), ('rtkpos', 'rtk.py')],
     'runtime monitor: reference model of set-up, prediction, editing and '
     'conditional mean',
     'Jumps within 1 mm of the threshold and slips that happen while the '
     'satellite is unusable may be noticed or not.')

prop('C39', 'A session processed from its files gives the positions it was made of',
     'Observations, ephemerides, orbits, clocks, biases, antenna offsets and '
     'settings written to RINEX, SP3, SINEX, ANTEX and YAML files and '
     'processed with the driver as in the tutorials (standalone, relative '
     'and precise positioning) give, for every epoch that both receivers '
     'have and for no other, the position of the antenna within the accuracy '
     'of the data, also if signals are substituted, an antenna is not '
     'calibrated, records are missing, or the session spans a turn of the '
     'week. The output file names the observation file, receiver, antenna, '
     'available and selected signals, and has one line per epoch with its '
     'time, position, local offset and solution mode; the series kept for '
     'the figures are the same, relative to the start of the half minute.',
     ['inputs', 'configurations', 'histories'], 'simulated sessions of three '
     'kinds with random constellations, signal choices, rates, dates, '
     'movements, gaps, antennas and settings',
     'The tests process one or two recorded sessions whose results are '
     'compared with nothing; reading and processing are never compared with '
     'a known truth.',
     ['utils.py', 'rinex.py', 'peph.py', 'pntpos.py', 'rtk.py', 'pppssr.py'],
     [('process driver', 'utils.py'), ('rnxdec, sync_obs', 'rinex.py'),
      ('peph, biasdec, atxdec', 'peph.py'), ('stdpos', 'pntpos.py'),
      ('rtkpos', 'rtk.py'), ('pppos', 'pppssr.py')],
     'runtime monitor: end-to-end simulation with independent writers of all '
     'files; positions, output file and series compared with the truth',
     'Sessions with SSR streams as correction source are covered from the '
     'decoded corrections on (C20, C25) and up to them (C22, C23).')

prop('C40', 'A receiver fed by a correction stream is positioned with it',
     'A receiver which decodes the corrections of a service (RTCM SSR, IGS '
     'SSR, MADOCA on L6E, Galileo HAS, BDS B2b-PPP, SouthPAN PVS) as they '
     'arrive and processes its observations with the same store uses, at '
     'every epoch, exactly the satellites for which a valid orbit, clock and '
     'bias set of the present or preceding mask and the ephemeris of the '
     'matching issue and message kind are at hand, and no other. Orbit and '
     'clock corrections are applied with their rates from their reference '
     'time, and biases with the sign and signal of the service, so that at '
     'the true position the residuals contain nothing but the unmodelled '
     'effects, whatever messages were lost or damaged, however late they '
     'come, also when masks, issues of data and ephemerides change and when '
     'the hour, day, or week turns. Expired corrections are not applied.',
     ['inputs', 'histories'], 'simulated sessions of six services with '
     'independently encoded streams, losses, damage, latencies, mask, issue '
     'and ephemeris changes, and times around hour, day and week turns',
     'The tests decode single messages and position nothing; the samples '
     'cover one undamaged record per service. Decoder and engine share a '
     'store whose bookkeeping (masks, issues, reference times) only matters '
     'in particular histories of both.',
     ['ephemeris.py', 'pppssr.py', 'rtcm.py', 'cssrlib.py', 'cssr_has.py',
      'cssr_bds.py', 'cssr_pvs.py'],
     [('satposs, satpos, findeph', 'ephemeris.py'),
      ('pppos.process', 'pppssr.py'), ('rtcm.decode', 'rtcm.py'),
      ('cssr.decode_cssr, decode_l6msg', 'cssrlib.py'),
      ('cssr_has.decode_cssr', 'cssr_has.py'),
      ('cssr_bds.decode_cssr', 'cssr_bds.py'),
      ('cssr_pvs.decode_cssr, check_validity', 'cssr_pvs.py')],
     'runtime monitor: encoder, lossy channel and constellation simulated '
     'together; the satellites used and the residuals at the true position '
     'compared with a model of the receiver at every epoch',
     'CLAS and HAS IDD sessions are covered from the decoded corrections '
     'on (C25, C20).')

prop('C41', 'Figures show exactly the given epochs and satellites',
     'The position figure shows every epoch with a position once in each '
     'panel, at its time and value, marked with its solution mode (none, '
     'standalone, DGPS, float, fix) by the same color and legend entry, with '
     'the limits asked for, and the zenith delay in centimetres. The elevation '
     'and sky plots show every satellite of the list (by default all that '
     'have a number) with its track in minutes and degrees, north up and '
     'east to the right, and return the number of satellites above the mask '
     'per epoch and system; stacked satellite numbers, rectangles and '
     'circles of warning areas have the size given. Positions and angles of '
     'visibility computed from two-line elements are those of the satellites '
     'named in the list, in its order, at the given times.',
     ['inputs', 'configurations'], 'random series, modes, gaps, masks, '
     'satellite lists, areas, and two-line element sets',
     'No test draws a figure or reads two-line elements; a figure that drops '
     'points looks fine.',
     ['plot.py', 'tlesim.py', 'utils.py'],
     [('plot_enu, plot_mode, plot_elv, skyplot, plot_nsat', 'plot.py'),
      ('draw_rect, draw_circle', 'plot.py'),
      ('loadname, loadTLE, tleorb', 'tlesim.py'),
      ('process.plot', 'utils.py')],
     'runtime monitor: artists recorded from a non-interactive canvas are '
     'compared with the data as multisets; orbits with an independent '
     'propagation',
     'Colors, fonts and layout are not judged beyond one color per mode.')

prop('C42', 'Integrity messages and text reports of RTCM streams match the messages',
     'Every RTCM SC-134 integrity message (status, parameters, overbounds, '
     'areas, alerts, SSR masks, flags and alarms, test numbers included) is '
     'decoded to the values sent for each satellite and constellation, and SSR '
     'integrity messages encoded from a store decode to it. With '
     'monitoring on, the report of each message names its type, time, source '
     'and update interval and lists the content of that message and of no '
     'other: integrity parameters by meaning and unit, and for SSR messages '
     'of all dialects the orbit, clock, high-rate clock, URA, code and phase '
     'bias values of the satellites of that constellation in the units of '
     'the headings; for regional messages the grid, troposphere and '
     'ionosphere parameters of the network in the message, wherever the '
     'last grid definition was.',
     ['inputs', 'histories'], 'random messages of all types, constellations, '
     'masks and field values in sequence through one decoder',
     'No test decodes an integrity message or reads a report; a swapped or '
     'mislabelled value looks plausible.',
     ['rtcm.py'],
     [('decode_integrity_*, decode_sv_mask', 'rtcm.py'),
      ('encode_integrity_ssr', 'rtcm.py'),
      ('out_log, out_log_ssr_*, out_log_integ_*', 'rtcm.py')],
     'runtime monitor: the content of independently encoded messages is '
     'compared with the decoded values and with the parsed report',
     'Reserved indicator values and the ambiguous test message 3 are not '
     'judged.')

prop('C43', 'Reports of Compact SSR decoders list exactly the corrections of each message',
     'With monitoring on, each decoded CLAS, Galileo HAS, PPP-B2b and MADOCA '
     'message adds to the text report, in the order of the messages and '
     'blocks, one entry per reported message or block (clock subsets and '
     'several messages of one buffer included) that names its type and time '
     'and lists every satellite of the store once with the orbit, clock, '
     'code bias or phase bias values in the columns of the heading. '
     'MADOCA entries list the areas of the region, and the coefficients of '
     'the area under the column that names them. Unusable values are left '
     'out and rejected messages add no values of their own.',
     ['inputs', 'histories'], 'random message histories of the four services '
     'with mask changes, rejected messages and buffers of several messages',
     'No test reads a report; a missing or mislabelled entry looks plausible.',
     ['cssrlib.py', 'cssr_has.py', 'cssr_bds.py', 'cssr_mdc.py'],
     [('out_log', 'cssrlib.py'), ('decode_cssr', 'cssr_has.py'),
      ('decode_cssr', 'cssr_bds.py'), ('out_log', 'cssr_mdc.py')],
     'runtime monitor: the text added by each decoder call is parsed and '
     'compared with the content the independent encoder put into the message',
     'The reported time of MADOCA coverage and STEC messages is not judged.')

prop('C44', 'Processing logs of the positioning engines are faithful and change no result',
     'A PPP or RTK engine that writes a log, at any monitoring level, '
     'computes exactly the states, covariances and statuses of one that '
     'writes none. Every line carries the time of the epoch processed. For '
     'each satellite received but not used the log gives the reason (and '
     'signal, elevation or C/N0), and none for satellites used; it lists '
     'each reset and initialisation of an ambiguity or ionospheric state '
     'with its value, and at higher levels the residuals, indices, states '
     'and standard deviations of each satellite pair as computed.',
     ['inputs', 'histories'], 'all kinds of corrections, constellations, '
     'levels, edited observations, outages and slips',
     'No test opens a log; a processing step made conditional on the '
     'monitoring level or a mislabelled line is not noticed.',
     ['pppssr.py', 'rtk.py', 'ppprtk.py'],
     [('qcedit', 'pppssr.py'), ('udstate', 'pppssr.py'),
      ('sdres', 'pppssr.py'), ('resamb_lambda', 'pppssr.py')],
     'runtime monitor: twin engines with and without log compared epoch by '
     'epoch; each log line parsed and compared with the state and the '
     'defects put into the observations',
     'The numbering of rows of large post-fit residuals is not judged.')
