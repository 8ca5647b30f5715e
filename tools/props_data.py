prop("C01", "Gregorian date to Modified Julian Date, all years",
 "For every valid Gregorian date from year -4699 on, the returned Modified Julian Date is the exact day count from 1858 November 17, so consecutive calendar days give consecutive MJDs. Years before -4699 and months outside 1-12 are refused with their own status and leave the output untouched; a day outside the month is reported but still converted as an offset from the first of the month. The century-defaulting variant maps years 0-49 to 2000-2049 and 50-99 to 1950-1999 and otherwise behaves identically.",
 "every (year, month, day) with year in -4800..12000 plus remote years up to the integer limits, every month -1..14, every day -2..34", ONE % "leap centuries, invalid fields, remote years, defaulted centuries",
 ["cldj.cc", "caldj.cc", "slalib.h"], [("day-count arithmetic", "cldj.cc"), ("leap-year day validation and century defaulting", "caldj.cc")])
prop("C02", "Modified Julian Date to Gregorian date, all accepted days",
 "Every MJD in the accepted range converts to the one Gregorian date (and fraction of day) whose day count it is, and MJDs outside the range are refused. The rounded variant gives the date and decimal fraction of the MJD rounded to the requested number of decimals (exact halves away from zero), carrying into the next day, month and year, with the fraction always below ten to that number of decimals.",
 "every integer MJD of the accepted range (1e9 days), fractional MJDs at rounding boundaries, all decimal counts 0..9", ONE % "rounding carries, range limits, far past and future",
 ["djcl.cc", "djcal.cc"], [("inverse day-count arithmetic", "djcl.cc"), ("rounding before decomposition", "djcal.cc")])
prop("C03", "Gregorian date to year and day-in-year",
 "For every valid Gregorian date the returned year is that year and the returned day is 1 for January 1 and increases by one per calendar day up to 365 or 366 according to the Gregorian leap rule. Invalid years and months are refused with their status; an invalid day is flagged but the day number is still computed as an offset. The century-defaulting variant behaves identically after mapping 0-49 and 50-99.",
 "every (year, month, day) with year in -4800..12000 plus remote years, months -1..14, days -2..34", ONE % "century leap years, invalid fields",
 ["clyd.cc", "calyd.cc", "slalib.cc"], [("day-in-year arithmetic", "clyd.cc"), ("century defaulting", "calyd.cc")])
prop("C04", "Sexagesimal decomposition is exactly rounded, with carries",
 "Days or radians decompose into sign, hours or degrees, minutes, seconds and a decimal fraction that represent the input rounded to the requested resolution (exact halves away from zero), with minutes and seconds always 0-59 and the fraction below ten to the number of decimals. Carries propagate through every field, so no field ever shows 60 or an overflowed fraction. The sign is '-' exactly for negative inputs.",
 "angles and intervals at and next to every carry boundary, multiples of every unit, decimal counts from negative up to nine, both precisions", ONE % "59.9999 carries, negative decimals, signs of zero",
 ["dd2tf.cc", "cd2tf.cc", "dr2af.cc", "cr2af.cc", "dr2tf.cc", "cr2tf.cc"], [("scaled rounding and field split", "dd2tf.cc")])
prop("C05", "Sexagesimal assembly: values and field validation",
 "Hours/degrees, minutes and seconds inside their documented ranges are accepted and give exactly the corresponding days or radians, to rounding. Any field outside its range is reported with the status of a bad field, and the value is still the arithmetic sum of the fields.",
 "all combinations of hours/degrees -3..362, minutes -3..62 and seconds at and around the limits, both precisions", ONE % "each field at its limits",
 ["daf2r.cc", "caf2r.cc", "dtf2d.cc", "ctf2d.cc", "dtf2r.cc", "ctf2r.cc"], [("field validation and assembly", "dtf2d.cc")])
prop("C06", "Angle normalisation lands in range and preserves the angle",
 "Normalising any finite angle to plus or minus pi, or to zero to two pi, returns a value inside that interval that differs from the input by a whole number of turns. Angles already inside the interval come back unchanged.",
 "angles around every multiple of pi to many turns, tiny and large magnitudes, both signs, both precisions", ONE % "end points, signed zero, tiny negatives, many turns",
 ["range.cc", "drange.cc", "ranorm.cc", "dranrm.cc"], [("reduction modulo two pi", "dranrm.cc")])
prop("C07", "TAI-UTC, TT-UTC and delta-T step functions",
 "The TAI-UTC offset equals the published leap-second history at every UTC instant, changing exactly at each announced 0h UTC and nowhere else, with the pre-1972 linear drift segments before that; TT-UTC is the same plus 32.184 s from 1972 on. The historical delta-T follows its published piecewise parabolas in each era.",
 "every UTC day 1950-2100 and instants at and next to each step, epochs across every era boundary", ONE % "each of the 41 steps, both sides of each boundary",
 ["dat.cc", "dtt.cc", "dt.cc"], [("leap-second table", "dat.cc"), ("era parabolas", "dt.cc")])
prop("C08", "Besselian and Julian epochs: definitions and round trips",
 "Besselian and Julian epochs and Modified Julian Dates convert by their defining linear relations and invert each other to rounding over the whole usable range. Converting an epoch between the two systems goes through the date, same-system conversion leaves the value unchanged, and the type codes are case-insensitive.",
 "epochs and dates over many millennia; all pairs of type codes in either case", ONE % "type code combinations, remote epochs",
 ["epb.cc", "epb2d.cc", "epj.cc", "epj2d.cc", "epco.cc"], [("linear epoch relations", "epj.cc"), ("type dispatch", "epco.cc")])
prop("C09", "Greenwich mean sidereal time",
 "For every UT1 the Greenwich mean sidereal time follows the IAU 1982 expression and lies in zero to two pi. Supplying the date in two parts gives the same result for every split of the same instant, to rounding.",
 "dates over several centuries and all fractions of day, all splits of a date into two parts in either order", ONE % "splits of the date, wraparound, distant dates",
 ["gmst.cc", "gmsta.cc"], [("IAU 1982 polynomial", "gmst.cc"), ("two-part date handling", "gmsta.cc")])
prop("C10", "Relativistic clock correction TDB-TT series",
 "The TDB-TT correction equals the published Fairhead and Bretagnon series plus the topocentric terms for every date, time of day and observer position. Its magnitude stays within the 1.7 ms annual term plus microsecond diurnal terms.",
 "dates from 1900 to 2100 (and remote ones) times time of day times observer coordinates", ONE % "each term's contribution at other dates and sites",
 ["rcc.cc"], [("series tables and topocentric terms", "rcc.cc")])
prop("C11", "Spherical and Cartesian coordinates convert and invert",
 "Converting a direction to Cartesian form gives its unit vector, and converting any vector back gives its direction with longitude within plus or minus pi and latitude within plus or minus half pi, including the documented zero results at the poles and for the null vector. Position-velocity forms convert consistently: the velocity is the time derivative of the position, and the two conversions invert each other; a null position takes the direction of its velocity.",
 "longitudes and latitudes on special values and grids, vectors of all octants and scales, six-vectors with all rate components, both precisions", ONE % "poles, null vectors, axes, negative distances",
 ["cs2c.cc", "dcs2c.cc", "cc2s.cc", "dcc2s.cc", "cs2c6.cc", "ds2c6.cc", "cc62s.cc", "dc62s.cc"], [("trigonometric conversion", "dcs2c.cc"), ("derivative formulae and pole handling", "dc62s.cc")])
prop("C12", "Rotations, matrix and vector algebra",
 "Every rotation matrix built from an axial vector or from up to three successive axis rotations is the proper orthogonal matrix of that rotation, and the axial vector is recovered from the matrix. Matrix products, matrix-vector and inverse matrix-vector products, dot and cross products and normalisation equal their definitions, also when the output is one of the inputs. A null vector normalises to the null vector.",
 "axial vectors of all directions and magnitudes; all 4^3 and longer rotation-axis orders; all 3x3 matrices over a three-letter alphabet with every aliasing pattern; both precisions", ONE % "aliased outputs, null vectors, repeated axes, half turns",
 ["av2m.cc", "dav2m.cc", "m2av.cc", "dm2av.cc", "euler.cc", "deuler.cc", "mxm.cc", "dmxm.cc", "mxv.cc", "dmxv.cc", "imxv.cc", "dimxv.cc", "vn.cc", "dvn.cc", "vdv.cc", "dvdv.cc", "vxv.cc", "dvxv.cc"], [("Rodrigues matrix", "dav2m.cc"), ("axis sequence", "deuler.cc"), ("working copies for aliased outputs", "dmxm.cc")])
prop("C13", "Angular separation, bearing and position angle",
 "The separation of two directions is their great-circle distance, accurate at every scale from coincident to antipodal, never negative, symmetric and independent of vector length. The bearing or position angle of one direction from another is the angle east of north within plus or minus pi, and is zero for coincident directions.",
 "pairs of directions across the sphere, at separations from 1e-16 to pi, vectors of any length including null, both precisions", ONE % "coincident, nearly coincident, antipodal and polar pairs",
 ["dsep.cc", "sep.cc", "dsepv.cc", "sepv.cc", "dbear.cc", "bear.cc", "dpav.cc", "pav.cc"], [("vector formulation", "dsepv.cc"), ("four-quadrant bearing", "dbear.cc")])
prop("C14", "Hour angle/declination and azimuth/elevation",
 "Equatorial-to-horizon and horizon-to-equatorial conversions are the rotation by the observer's latitude and invert each other, with azimuth in zero to two pi (north zero, east quarter turn) and elevation, declination within half pi. Zenith distance and parallactic angle agree with the same geometry, including at the zenith and the poles.",
 "hour angle x declination x latitude and azimuth x elevation x latitude on special values and grids, neighbourhoods of the zenith, both precisions", ONE % "zenith, poles, meridian, horizon",
 ["de2h.cc", "e2h.cc", "dh2e.cc", "h2e.cc", "zd.cc", "pa.cc"], [("frame rotation", "de2h.cc"), ("azimuth range", "de2h.cc")])
prop("C15", "Altazimuth mount positions, velocities and accelerations",
 "Azimuth, elevation and parallactic angle for an altazimuth mount are those of the horizon geometry, in their documented ranges. The velocities and accelerations are the first and second derivatives of those angles with respect to hour angle.",
 "hour angle x declination x latitude on special values and grids", ONE % "quadrants, southern sites, near-zenith tracks",
 ["altaz.cc"], [("analytic derivatives", "altaz.cc")])
prop("C16", "Hour angle from azimuth or from parallactic angle",
 "For given latitude, declination and azimuth (or parallactic angle), each hour angle flagged valid really has that azimuth (or parallactic angle), and every hour angle having it is returned and flagged valid. When no such hour angle exists neither is flagged.",
 "latitude x declination x azimuth or parallactic angle on special values and grids, both solution slots", ONE % "no-solution regions, double solutions, polar cases",
 ["pda2h.cc", "pdq2h.cc"], [("two-candidate solution and validity tests", "pda2h.cc")])
prop("C17", "Tangent-plane (gnomonic) projection and its inverse",
 "Projecting a direction onto the tangent plane gives its gnomonic standard coordinates (east and north positive) whenever it is less than a quarter turn from the tangent point, with the status telling apart stars too far from the axis and antistars on either hemisphere. Deprojecting standard coordinates gives the one direction in front of the tangent point that projects there; the spherical and Cartesian forms agree, also at the poles.",
 "tangent points and stars over the sphere, standard coordinates from 0 to many radians, both forms, both precisions", ONE % "antistars, the 90-degree limit, polar tangent points",
 ["s2tp.cc", "ds2tp.cc", "tp2s.cc", "dtp2s.cc", "v2tp.cc", "dv2tp.cc", "tp2v.cc", "dtp2v.cc"], [("projection and star classification", "ds2tp.cc"), ("deprojection", "dtp2s.cc")])
prop("C18", "Recovery of the tangent point from a star",
 "Given a star's direction and its standard coordinates, every tangent point returned really projects that star to those coordinates, and the number of solutions returned (0, 1 or 2) is the number that exist. Spherical and Cartesian forms agree.",
 "star directions over the sphere times standard coordinates over all magnitudes, including no-solution and over-the-pole geometries, both precisions", ONE % "no-solution cases, two solutions near the pole",
 ["tps2c.cc", "dtps2c.cc", "tpv2c.cc", "dtpv2c.cc"], [("quadratic for the tangent point declination", "dtps2c.cc")])
prop("C19", "Galactic, supergalactic and FK4 frames",
 "Conversions between equatorial J2000, FK4 B1950, galactic and supergalactic coordinates are the published fixed rotations (with E-terms and epoch handling for B1950), keep longitudes in zero to two pi and latitudes within half pi, and each pair inverts each other.",
 "directions over the whole sphere, special values and grids, every conversion and composition of a conversion with its inverse", ONE % "poles of each frame, nodes, wraparound",
 ["eqgal.cc", "galeq.cc", "galsup.cc", "supgal.cc", "eg50.cc", "ge50.cc"], [("fixed rotation matrices", "eqgal.cc"), ("E-terms in the old frame", "eg50.cc")])
prop("C20", "Nutation, obliquity and ecliptic coordinates",
 "At every date the nutation components follow their published series and the nutation matrix is the rotation through mean obliquity, nutation in longitude and true obliquity. Ecliptic coordinates of date are the rotation by precession and mean obliquity, the two directions invert each other, and the equation of the equinoxes is the published expression.",
 "dates over several centuries (grid, special and remote) times directions over the sphere", ONE % "each series term at other dates, poles, wraparound",
 ["nut.cc", "nutc.cc", "nutc80.cc", "ecmat.cc", "ecleq.cc", "eqecl.cc", "eqeqx.cc"], [("nutation series", "nutc.cc"), ("ecliptic rotation", "ecmat.cc")])
prop("C21", "Precession matrices and precession of coordinates",
 "For every pair of epochs the precession matrix is the proper rotation given by the published angles (IAU 1976 for FK5, Bessel-Newcomb for FK4, Simon et al. for the long-term version); precessing forth and back restores the direction, and an unknown system is flagged without a usable result. Precession-nutation is the product of the two matrices.",
 "pairs of epochs over centuries and millennia times directions, all system codes in either case", ONE % "reversed epochs, poles, bad system names",
 ["prec.cc", "precl.cc", "prebn.cc", "preces.cc", "prenut.cc"], [("precession angle polynomials", "prec.cc"), ("system dispatch", "preces.cc")])
prop("C22", "E-terms of aberration and proper motion",
 "Adding E-terms displaces a mean place by the published vector for the equinox and subtracting undoes it, for every direction and date. Applying proper motion moves the star along its space-velocity, including parallax and radial velocity, from one epoch to the other; and a zero interval leaves it where it was.",
 "directions over the sphere times equinoxes times proper motions, parallaxes, radial velocities and epoch pairs", ONE % "poles, negative and zero parallax, large motions",
 ["etrms.cc", "addet.cc", "subet.cc", "pm.cc"], [("E-term vector", "etrms.cc"), ("space motion", "pm.cc")])
prop("C23", "Observer position, velocity and polar motion",
 "The observer's geocentric position is that of the reference spheroid at the given latitude and height, rotated by sidereal time, and its velocity is the time derivative of that position. Polar motion maps mean terrestrial longitude and latitude to true ones by the pole rotation, with the azimuth correction consistent with it and every result finite at every site, the poles included.",
 "latitudes, heights, sidereal times; sites x pole coordinates, including sites brought exactly onto the pole", ONE % "poles, negative heights, large pole offsets",
 ["geoc.cc", "pvobs.cc", "polmo.cc"], [("spheroid", "geoc.cc"), ("pole rotation", "polmo.cc")])
prop("C24", "Atmospheric refraction, dispersion and air mass",
 "For every zenith distance and set of meteorological conditions the refraction equals the ray integral through the documented two-layer atmosphere, within the requested accuracy, with out-of-range parameters replaced by their documented limits and the sign following the zenith distance. The A and B constants, the quick constants, the change of wavelength and the application of the constants to zenith distances or vectors follow their published formulae, and the air mass follows Young's polynomial up to its limiting zenith distance.",
 "zenith distance x height x temperature x pressure x humidity x wavelength x latitude x lapse rate x accuracy; wavelengths either side of the optical/radio switch; constants A, B x zenith distances and directions incl. below the horizon", ONE % "radio wavelengths, parameter limits, low elevations, below the horizon, dry or zero-pressure air",
 ["refro.cc", "refco.cc", "refcoq.cc", "refz.cc", "refv.cc", "atmdsp.cc", "airmas.cc"], [("ray integration through troposphere and stratosphere", "refro.cc"), ("two-constant model and low-elevation blending", "refz.cc")])
prop("C25", "Linear equations: solution, inverse, determinant, singularity",
 "For every non-singular square matrix the solver returns the solution of the equations, the inverse matrix and the determinant, each to rounding scaled by the condition of the matrix, and reports success. Exactly singular matrices that elimination reduces to a null pivot are reported as singular with a zero determinant.",
 "all matrices over small alphabets for orders 1 to 3, all row permutations up to order 7, graded and rank-deficient matrices, both precisions", ONE % "pivoting orders, singular matrices, determinant sign, graded scales",
 ["dmat.cc", "smat.cc"], [("Gaussian elimination with partial pivoting", "dmat.cc")])
prop("C26", "Singular value decomposition and least squares",
 "For every matrix with at least as many rows as columns, the decomposition reproduces the matrix as U W V-transposed with orthonormal columns in U (for non-zero singular values) and V and non-negative W, whatever the rank and whatever the declared array dimensions. The solution built from it is the least-squares solution with null singular values dropped, and the covariance matrix is V W^-2 V-transposed over the non-null singular values.",
 "all small matrices over small alphabets with every shape up to 4x3, graded and rank-deficient matrices, polynomial design matrices, padded arrays", ONE % "rank-deficient matrices, zero rows and columns, padded arrays",
 ["svd.cc", "svdsol.cc", "svdcov.cc"], [("Householder reduction and QR iteration", "svd.cc"), ("back substitution", "svdsol.cc")])
prop("C27", "Plate fits and linear plate models",
 "Fitting expected to measured positions returns the least-squares model of the requested kind: six free coefficients, or four (the better of the two with and without reversal), and refuses too few or degenerate samples with their documented status. Applying a model, inverting it and decomposing it into zero points, scales, perpendicularity and orientation are mutually consistent, and the residuals and RMS are those of the predicted positions.",
 "all samples of 2 to 4 points on lattices, up to 40 points with rotations, scales, reversal and noise, all six-coefficient models over an alphabet including singular ones", ONE % "reversed axes, collinear or coincident points, singular models",
 ["fitxy.cc", "pxy.cc", "xy2xy.cc", "invf.cc", "dcmpf.cc"], [("normal equations for the 4- and 6-coefficient models", "fitxy.cc"), ("model inversion", "invf.cc")])
prop("C28", "Pincushion/barrel distortion and its removal",
 "Distorting moves a tangent-plane point along its radius to r(1+cr^2). Removing distortion returns a point on the same radius that distorts back to the given one, choosing the solution that moves the point least when several exist, and leaves the point alone for zero radius or zero coefficient.",
 "distortion coefficients of both signs and many magnitudes times points over the plane, including the radius where barrel solutions merge", ONE % "barrel distortion with three solutions, the merging radius, zero coefficient",
 ["pcd.cc", "unpcd.cc"], [("cubic solution", "unpcd.cc")])
prop("C29", "Combinations and permutations are generated completely",
 "Starting from the documented marker, successive calls return every subset (or every permutation) exactly once, in the documented order, and then report the end; invalid sizes are refused without touching the lists. Each generator depends only on the caller's own lists, so interleaved generators do not disturb each other.",
 "every subset size of every set up to 16 items, every set up to 9 items for permutations, all interleavings of up to 8 calls on three generators", ONE % "whole cycles, restarts, interleaved generators", 
 ["combn.cc", "permut.cc"], [("lexicographic successor", "combn.cc"), ("factorial counter", "permut.cc")], over=("histories", "inputs"))
prop("C30", "Earth ephemeris and the light-time and velocity corrections",
 "For every year, day and fraction the approximate heliocentric position and velocity of the Earth equal those of the documented low-precision theory (mean equator and equinox of date, Julian-style calendar aligned with 1900-2100), agree with the accurate ephemeris within the stated errors, and change continuously over day and year boundaries. The radial velocity and light-time corrections toward any direction are the projections of that velocity and position on it, with their documented signs and units.",
 "every day of every year 1900-2100, distant years, fractions of day, directions over the sphere", ONE % "year boundaries, leap years, dates outside 1900-2100, all directions",
 ["earth.cc", "ecor.cc"], [("low-precision Sun theory", "earth.cc"), ("projection on the line of sight", "ecor.cc")])
prop("C31", "Moon ephemerides: position and velocity, both theories",
 "For every date the approximate and the full lunar ephemeris equal the sums of their published series, so the approximate one stays within its stated error in direction of the full one. The velocity returned by each is the time derivative of the position it returns, over day and year boundaries included.",
 "every day of 1900-2100, distant years, fractions of day, each series term projected out separately", ONE % "every term of the series, day and year boundaries, dates far from the tested ones",
 ["moon.cc", "dmoon.cc"], [("abridged Meeus theory", "moon.cc"), ("full Meeus theory", "dmoon.cc")])
prop("C32", "Barycentric and heliocentric Earth, fast and accurate",
 "For every date the two Earth ephemerides equal the published theories they implement, for barycentre and Sun, position and velocity, and each agrees with the other within the documented accuracy. The equinox argument of the fast one rotates the result by precession from the date to that equinox, and a non-positive equinox leaves it of date.",
 "every day 1900-2100 and fixed points over centuries, equinoxes including zero, negative and tiny ones", ONE % "all terms of the series, equinox handling, dates far from J2000",
 ["evp.cc", "epv.cc"], [("Stumpff series and equinox rotation", "evp.cc"), ("simplified VSOP series", "epv.cc")])
prop("C33", "Radial velocity components of the observer",
 "For every direction the velocity components due to Galactic rotation, motion in the Local Group and the two Local Standards of Rest equal the projection of the published solar motion on that direction, in km/s and with receding positive as documented, so opposite directions give opposite values. The Earth-rotation component equals the projection of the observer's diurnal velocity for every latitude, direction and sidereal time.",
 "directions over the whole sphere; latitude x direction x sidereal time", ONE % "signs in every octant, poles, apex and antapex",
 ["rverot.cc", "rvgalc.cc", "rvlg.cc", "rvlsrd.cc", "rvlsrk.cc"], [("projection of the solar motion", "rvlsrd.cc"), ("diurnal velocity", "rverot.cc")])
prop("C34", "Observing stations: numbering, lookup and the no-match answer",
 "Calling with 0, 1, 2 and so on returns every listed station once, with its identifier, name, west-positive longitude, latitude and height, and then false. With a negative number the first station whose identifier starts with the given text is returned, case-sensitively; when there is none, or the number is beyond the list, the answer is false with question marks and zeros whatever the structure held before, and the version number and version text describe the same version.",
 "all station numbers including the ends of the integer range; every prefix of every identifier with every one-character edit, and every string of up to three (five) characters", ONE % "number just past the list, identifiers longer than any listed, empty and null identifiers",
 ["obs.cc", "veri.cc", "vers.cc"], [("lookup by number or by identifier prefix", "obs.cc")])
prop("C35", "Random deviates: range, seeding, reproducibility, distribution",
 "Uniform deviates always lie in [0,1) and normal deviates are finite, proportional to the requested standard deviation. In a fresh process the uniform stream is determined by the seed of the first call alone, later seeds are ignored, and neither generator disturbs the other in any interleaving of calls. The streams have the uniform and the normal distribution, without correlation between successive draws.",
 "all histories of calls up to length 5 (6), long histories, and every state the generators can reach (2^31-2)", ONE % "generator states that give 0 or 1, interleaved use, second and later seeds",
 ["random.cc", "gresid.cc"], [("seeding at the first call", "random.cc"), ("Box-Muller pairs", "gresid.cc")], over=("histories", "inputs"),
 technique="exhaustive enumeration of call histories and of all generator states on the real code", note="Histories are executed to the stated length in fresh processes; the state sweep visits every state of the period.")
prop("C36", "Every call depends on its arguments alone",
 "Except for the two random generators and the pause, the result of every function is determined by its arguments: it does not depend on which calls were made before, nor on what the result objects or the stack held. Calls do not modify their input arguments, write nothing but their results, and leave the floating-point environment alone.",
 "every ordered pair of calls out of an alphabet covering all functions and nearly all their branches, every triple of calls of one function, six initial memory contents", "Tests run each function a few times in one fixed order with fresh objects; caching, stale or uninitialised state shows only in particular histories of calls or memory contents.",
 ["evp.cc", "refro.cc", "nutc.cc", "obs.cc", "svd.cc", "fitxy.cc", "deuler.cc"], [("all functions are stateless", "slalib.h"), ("constant tables in static storage", "nutc.cc")], over=("histories", "inputs"),
 technique="stateless exhaustive exploration of bounded call histories on the real code, compared with the result of the same call in a fresh process",
 note="All ordered pairs over the step alphabet and all same-function triples are executed; longer histories mixing three different functions are not.")
prop("C37", "Thread safety of the whole interface",
 "Compiled for multi-threaded use (SLALIB_THREAD_SAFE), any two functions may run concurrently in different threads on different objects without a data race, and each returns what it returns when run alone. The random generators keep a separate stream per thread, so the deviates a thread draws do not depend on the scheduling of the others.",
 "all pairs of functions and of argument variations, all schedules of their conflicting accesses up to two preemptions, all short sequences of generator calls per thread", "Tests are single-threaded; a race needs two particular calls in a particular interleaving.",
 ["slalib.h", "random.cc", "gresid.cc", "dat.cc", "obs.cc", "nutc.cc"], [("thread-local generator state", "random.cc"), ("thread-local generator state", "gresid.cc"), ("thread-safe configuration", "slalib.h")], over=("schedules", "histories"),
 technique="controlled-scheduler model checking of the real code: instrumented memory accesses, happens-before race detection, all schedules of dependent events up to a preemption bound",
 note="Two threads, up to three calls each, preemption bound two; the library is rebuilt with compiler-inserted access callbacks and SLALIB_THREAD_SAFE=1.")
prop("C38", "Memory safety for every shape, size and string",
 "No call reads or writes outside the objects it is given, its own storage and the library's tables, or executes arithmetic the language leaves undefined: for every array shape and declared dimension, every number of samples, every identifier or axis-order string, every station number, and extreme values of every argument.",
 "every operation with one- and two-argument variations and extremes; all matrix shapes up to 6x6 (9x9) with padding; 0 to 8 samples; all strings up to five characters over ten", "An access a few bytes outside an array gives a correct result in an ordinary test run; it needs the right size together with exact-size storage to show.",
 ["svd.cc", "svdsol.cc", "svdcov.cc", "dmat.cc", "smat.cc", "fitxy.cc", "pxy.cc", "combn.cc", "permut.cc", "obs.cc", "deuler.cc", "dat.cc"], [("index arithmetic over caller-dimensioned arrays", "svd.cc"), ("table lookup", "dat.cc")],
 technique="exhaustive enumeration of bounded inputs on the real code under an address and undefined-behaviour monitor",
 note="Argument arrays are heap blocks of exactly the documented size; every execution in the stated domains is monitored by the compiler's address and undefined-behaviour instrumentation.")
prop("C39", "The pause lasts the requested seconds despite interruptions",
 "The pause returns when the requested time, rounded to the nearest whole second, has passed: never earlier, however often and whenever signal handlers interrupt the underlying sleep, and not noticeably later. Zero, negative and sub-half-second requests return at once.",
 "durations from -10 s to 2e9 s with every rounding boundary, all sequences of up to 3 (5) sleep outcomes, up to 200 successive interruptions", "The tests cannot afford to wait and never deliver a signal during a sleep; early return needs an interruption at a particular point.",
 ["wait.cc"], [("sleep with restart after interruption", "wait.cc")], over=("histories", "inputs"),
 technique="fault-injecting exploration of the real code on a virtual clock: all sequences of sleep outcomes up to a bound",
 note="Clock and sleep primitives are replaced by a virtual clock; all outcome sequences within the bound are executed.")
prop("C40", "Result and argument holders keep what is stored in them",
 "Every value stored in a direction, position-velocity, mount, conversion-result or fit-coefficient holder is read back unchanged under every documented name and view of that field (longitude = right ascension = hour angle, hours = degrees, element, array and triplet views of the fit coefficients), leaves every other field alone, keeps position and velocity apart, and survives copying. The 3x3 form of the equation solver gives what the general form gives, and the version number and version text agree.",
 "all sequences of up to 3 stores (4 for the sign) over every store name and a value alphabet incl. signed zeros and infinity; both precisions", "The tests read results back through one accessor each and never interleave stores under different names.",
 ["slalib.h", "veri.cc", "vers.cc"], [("accessors and views", "slalib.h"), ("version composition", "veri.cc")], over=("histories", "inputs"),
 technique="explicit-state exploration of the real holder classes: all operation sequences up to a depth against a model state, every reader checked in every state",
 note="All operation sequences within the bound are executed on the real classes and compared with a plain array model in every state.")
