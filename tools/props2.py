"""Property texts, second part: geometry, dead reckoning, derived attributes, state, facts."""
from props1 import p, AI, D7, REC, TRUST

DR = "opendis/DeadReckoning.py"
RC = "opendis/RangeCoordinates.py"
ALG = AI + "; algebraic normal forms (polynomials over sin/cos, quotients, square roots, atan2 directions)"
EXACT = ("Decided as identities between exact expressions (numeric constants read as the rationals written), so floating-point rounding is outside "
         "the claim. Rewrites whose normal form the algebra cannot reach are listed as undecided, never reported. ")

p("C18", "Each dead reckoning model computes the standard's extrapolation",
  "For every initial position, velocity, acceleration, orientation, angular velocity and time step, drm_static, drm_fpw, drm_fvw, drm_rpw, drm_rvw, drm_rpb, "
  "drm_rvb, drm_fpb and drm_fvb return the position and Euler angles (psi, theta, phi) of their dead reckoning model: position held or "
  "P0+V*dt or P0+V*dt+A*dt^2/2; in body models the velocity and acceleration are rotated into world "
  "axes by the initial orientation, body to world being Rz(psi)Ry(theta)Rx(phi); rotating models advance the "
  "Euler angles by the Euler rates of the body angular velocity times dt, and hold them finite at pitch +-90 degrees.",
  ["inputs"], "all nine models, every vector argument (list, tuple or array) and time step",
  "Numeric tests at a few attitudes cannot separate an exact formula from one that is right at zero, small or axis-aligned angles only.",
  [DR], [("drm_* functions", DR), ("rotation and Euler-rate helpers", DR)], ALG, EXACT)

p("C19", "Dead reckoning never modifies or hands back the caller's vectors",
  "Calling a dead reckoning function leaves every argument as it was, and the arrays it returns are the caller's to change: none of them is, or shares "
  "storage with, an argument, a default, a module-level object or another call's result.",
  ["inputs", "histories"], "all dead reckoning functions, every vector argument whether list, tuple or array; every sequence of calls",
  "An in-place update or an alias changes the entity's last known state only on the next call, with data a single-call test never looks at again.",
  [DR], [("drm_* functions", DR)], AI + "; heap reachability and effects", TRUST)

p("C20", "Coordinate conversions are the exact WGS 84 and local-frame rotations",
  "For every point: lla2ecef is the WGS 84 closed form; ecef2ned is the rotation of the difference to the origin into the origin's "
  "north-east-down frame and ned2ecef its inverse; ecef2pae and ned2pae give range, azimuth and elevation of that vector; "
  "ecefvec2nedvec is the rotation matrix of the frame; lla2gcc and transpose agree with them, and rotate_3x3 is the rotation about the given unit axis. lla is in the "
  "units documented per function (degrees in and out of lla2ecef and ecef2lla). The answer is that of this call's arguments, also on a GPS object used "
  "before with other numbers, even in the same lists or arrays; the arguments are left as they were.",
  ["inputs", "histories"], "every conversion function of GPS but the UTM ones, every argument, after any earlier call of it",
  "Sign, axis and transposition mistakes cancel at special points (equator, meridian, origin equal to the point) and in round trips; tests use a few positions with tolerances of metres.",
  [RC], [("GPS conversions", RC)], ALG, EXACT + "The origin's geodetic coordinates are those ecef2lla returns, an uninterpreted function here (see C23).")

p("C21", "llarpy2ecef and ecef2llarpy are exact inverse attitude conversions",
  "For every latitude, longitude, altitude, roll, pitch and yaw (radians), llarpy2ecef returns the WGS 84 position and the Euler angles psi, theta, phi of the same "
  "attitude in world axes, and ecef2llarpy returns roll, pitch, yaw of the same attitude in the local north-east-down frame (angles as "
  "directions modulo a full turn; gimbal lock excepted).",
  ["inputs"], "every position and attitude", "A round trip at a few attitudes passes with quadrant or sign errors that cancel, and with angles small enough that axes decouple.",
  [RC], [("GPS.llarpy2ecef, GPS.ecef2llarpy", RC)], ALG, EXACT)

p("C22", "UTM conversion gives the right zone, band, easting and northing",
  "For every latitude from -80 to 84 degrees and every longitude, lla2utm gives the UTM zone (60 six-degree zones, "
  "longitudes wrapped, with the exceptions for south-west Norway and Svalbard), the latitude band letter, and the easting and northing "
  "of Snyder's transverse Mercator series about that zone's central meridian with scale 0.9996, false easting 500 km and, in the south, false northing 10000 km. utmLetterDesignator "
  "gives each latitude its band letter and 'Z' outside the grid; ecef2utm is lla2utm of ecef2lla.",
  ["inputs"], "every latitude and longitude (decided on the cells between all zone, band and comparison boundaries)",
  "There are 60 zones, 20 bands and nine exceptional rectangles, each with boundary cases; a test samples a couple of points.",
  [RC], [("GPS.lla2utm, utmLetterDesignator, ecef2utm", RC)], ALG + "; interval cells of the gates", EXACT)

p("C23", "ecef2lla iterates to, and returns, the exact geodetic coordinates",
  "For every point, the geodetic latitude and height are a fixed point of ecef2lla's iteration; it stops only when consecutive iterates "
  "agree within its tolerance (by default, and as its callers use it, at most 1e-7 radians); what it returns there is exactly latitude and longitude in degrees and altitude in metres; on the polar axis it returns latitude "
  "+-90 and the height above the semiminor axis, and it refuses the centre, which has no such coordinates, with an exception.",
  ["inputs"], "every point outside the Earth's centre; every iteration", "Numeric comparisons with a tolerance pass with a slightly wrong eccentricity or a loop left one iteration early, and never sit on the polar axis or at great heights.",
  [RC], [("GPS.ecef2lla", RC)], ALG + "; loop summarised as a map, fixed point checked", EXACT + "That the iteration converges, and how fast, is not claimed (C30).")

p("C24", "Angle helpers, distance and the WGS 84 constants are the published ones",
  "deg2rad and rad2deg multiply by pi/180 and 180/pi, euclideanDistance is the Euclidean norm of the difference (of its first argument when given "
  "alone), each WGS84 constant has its published value, and g0 is the documented surface-gravity formula of latitude.",
  ["inputs"], "every argument; every constant", "Results off in the eighth digit pass metre-level tolerances.",
  [RC], [("deg2rad, rad2deg, euclideanDistance", RC), ("class WGS84", RC)], ALG, EXACT)

p("C25", "Derived counts and lengths always follow the lists they describe",
  "Whatever list of a PDU or record the caller assigns, extends or empties, its number-of-... attribute reads as the current number of elements, and a derived length attribute "
  "as the current size of the data or record it describes (antenna pattern, modulation parameters, data bits); the list an attribute hands out is the instance's own, so appending "
  "to it changes what is encoded.",
  ["inputs", "histories"], "the 96 derived count and length attributes; every list length; before and after the list is changed in place",
  "Counts cached at construction are right for every test that builds a PDU and encodes it at once.",
  [D7] + REC, [("@property number*/count/length getters", f"{D7}, opendis/record/**")], AI + "; getters evaluated on changed heaps",
  "Oracle: oracle/derived.txt. " + TRUST)

p("C26", "An entity marking holds its text, cut at eleven characters and zero-padded",
  "For every ASCII text, setString on an EntityMarking leaves exactly eleven character codes: those of the first eleven characters, then "
  "zeros, whatever the marking held before; charactersString gives the stored text back.",
  ["inputs", "histories"], "every text of every length and every earlier content", "Texts longer than eleven characters, or shorter than the one before, are where stale or missing characters show.",
  [D7], [("EntityMarking", D7)], AI + "; one case per text length, contents symbolic", TRUST)

p("C27", "No operation leaves state behind in the package or the process",
  "Constructing, encoding, decoding, measuring or reading any PDU or record, using the factory, dead reckoning or coordinate functions changes no class attribute, module "
  "global or other object shared by the package, returns no such object for the caller to change, and changes no process-wide setting and leaves no file it opened open, even when it fails, so every "
  "call gives the same result whatever was called before or is running in another thread on other objects.",
  ["histories", "schedules"], "every public operation of the package, every input, every order of calls",
  "Leaked state shows only in a second call with particular data, or under threads; tests make one call per fresh object.",
  ["opendis/PduFactory.py", DR, RC, D7] + REC, [("all methods and functions", "opendis/**")], AI + "; effect analysis",
  "Caches that cannot change a result are allowed (they are listed as undecided when the analyser cannot tell). " + TRUST)

p("C28", "The bit-field factory lays fields out most significant bit first",
  "For every list of named bit widths adding up to 8, 16 or 32 bits, bitfield() gives a type of exactly that size whose first field occupies the most significant bits and each next field the "
  "following ones, encoding and decoding alike and whatever other types were made before; lists that do not add up to whole bytes or exceed 32 bits, empty lists, widths outside 1 to 32 or not integers, and unknown field types are refused with an exception.",
  ["inputs"], "all ways to write 8 (up to 4 parts, thorough 8), 16 (2, thorough 3) and 32 (2) as ordered sums, and some longer ones; every field value",
  "Tests use a few layouts with hand-picked values; byte order, offsets and overlapping fields depend on the width list.",
  ["opendis/record/bitfield.py"], [("bitfield factory", "opendis/record/bitfield.py")], AI + "; bit-slice terms per width list",
  "The layout of ctypes.BigEndianStructure is part of the trusted model. " + TRUST)

p("C29", "The standard's symbolic constants have their Table 25 values",
  "Each constant of opendis.record.symbolic_names has the value IEEE 1278.1-2012 Table 25 gives it.",
  ["programs"], "the 134 named constants", "No test reads them; a changed time-out or wildcard identifier only shows in interoperation.",
  ["opendis/record/symbolic_names.py"], [("module constants", "opendis/record/symbolic_names.py")], "constant evaluation of the module body; comparison with a table",
  "Oracle: oracle/constants.txt, taken over from the repository (the standard's text is not available here).")

p("C33", "Radio parameter records are chosen by their discriminators",
  "Decoding a Transmitter PDU gives modulation parameters None when their length is zero, else a SimpleIntercomRadio or GenericRadio for radio system 1 "
  "(major modulation zero or not), BasicHaveQuickMP for 2, 3 and 4, CCTTSincgarsMP for 6 and an UnknownRadio keeping the bytes for every other system; "
  "and an antenna pattern None when its length is zero, else a BeamAntennaPattern for pattern type 1 and an UnknownAntennaPattern keeping the bytes otherwise.",
  ["inputs"], "every radio system, major modulation, pattern type and both lengths of a datagram",
  "Tests decode one or two radios; the choice depends on four fields and most combinations are never sampled.",
  [D7], [("TransmitterPdu.parse", D7)], "abstract interpretation of parse; case evaluation of the symbolic choice over the constants the code compares with", TRUST)

p("C34", "New records announce their own record type and length",
  "A newly constructed record of a standard record type carries, in its attribute and in its encoding, the record type number SISO-REF-010 assigns to that "
  "record, and where the record has a fixed length that length.",
  ["programs"], "the fifteen record classes with a record type of their own",
  "Round-trip tests agree with themselves whatever number is used; only a foreign receiver notices a wrong one.",
  [D7] + REC, [("recordType, recordLength class attributes", f"{D7}, opendis/record/**")],
  "abstract interpretation of construction and encoding; comparison of the constant prefix with a table",
  "Oracle: oracle/record_types.txt (SISO-REF-010 numbers; lengths as the repository declares them). " + TRUST)

p("C35", "Results depend on the arguments alone",
  "No function of the package consults or reaches anything but its arguments and the data or file it is given: not the clock, random numbers, environment variables, the "
  "platform's byte order or sizes, the locale, object addresses or hashes, the network, other processes or the console. The same calls give the same bytes and "
  "values at any time, on any machine, in any process.",
  ["inputs", "histories"], "every function, method and import of the package, on every machine and at every time",
  "A test runs on one machine at one time in one process; a dependence on any of them does not show.",
  ["opendis/PduFactory.py", "opendis/stream.py", DR, RC, D7] + REC, [("all functions", "opendis/**")],
  "lint over the syntax tree with names resolved through the imports; effect sources",
  "Names reached through getattr or importlib with computed names are not resolved.")

p("C36", "An integer a field cannot hold is refused, never altered",
  "For every PDU and record: when an attribute written as an integer, or the length of a list written as a count, is outside what its field on the wire can hold "
  "(65536 in a 16-bit field, a negative number in an unsigned field, 4 in a 2-bit field, 256 entries under an 8-bit count), encoding, or already the assignment, raises an exception. The value is "
  "never masked, wrapped, clamped, rounded or cut to something the field can hold. Padding, and the reserved bits of a beam status, may be ignored.",
  ["inputs"], "every class, every integer attribute and counted list, every value outside its field",
  "Tests encode values that fit; a value that does not fit is then sent as a different one, or as a count that does not match what follows, without a trace.",
  [D7, "opendis/stream.py"] + REC, [("serialize methods", f"{D7}, opendis/record/**"), ("write_* primitives", "opendis/stream.py"),
                                   ("bitfield()", "opendis/record/bitfield.py")],
  AI + "; evaluation of each encoded expression outside the field's range",
  "Values are taken at the boundaries of each field and of every constant the expression compares with, and at larger powers of two, not at all integers. " + TRUST)

p("C37", "The example programs run on the package's API and name what they show",
  "The programs under examples use the package as it is: sending, receiving a PDU of any type (also one the factory does not know) and the dead reckoning demonstration run without a missing name, "
  "attribute or argument. dis_sender puts each component of the position and orientation that llarpy2ecef returns into the field of its name; dis_receiver converts exactly the position and orientation "
  "it received and prints each of latitude, longitude, altitude, roll, pitch and yaw after its own name.",
  ["inputs"], "every PDU class, every position and orientation",
  "The test of the examples lets one sender meet one receiver and looks at no value; a receiver that meets another type or swaps two angles fails only on live traffic.",
  ["examples/dis_receiver.py", "examples/dis_sender.py", "examples/dis_dead_reckoning.py", RC, "opendis/PduFactory.py"],
  [("recv", "examples/dis_receiver.py"), ("send", "examples/dis_sender.py"), ("run_demo", "examples/dis_dead_reckoning.py"),
   ("GPS.llarpy2ecef, GPS.ecef2llarpy", RC), ("createPdu", "opendis/PduFactory.py")],
  AI + "; identity of symbolic values from the conversions to the PDU and from the PDU to the printed line",
  "Sockets are opaque. What createPdu makes of a datagram is C04's part: the receiver is interpreted on one instance of each class and on None. " + TRUST)

NA = []


def na(id, title, statement, over, text, why, files, mech, reason):
    NA.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                    anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])), reason))


na("C30", "ecef2lla converges for every point outside the Earth's core",
   "From every point at least a few tens of kilometres from the Earth's centre, ecef2lla terminates after a small bounded number of iterations, with an error of less than a millimetre.",
   ["inputs"], "every point", "Convergence depends on the point; tests try a few near the surface.", [RC], [("GPS.ecef2lla", RC)],
   "Bounding the contraction rate of a floating-point iteration over all points needs validated numerics (running the code over intervals), not static analysis of the source; C23 decides the part that is structural.")
na("C31", "Conversions round-trip to within a stated floating-point error",
   "lla2ecef followed by ecef2lla, and each other pair of inverse conversions, returns the start point to within a millimetre in IEEE double arithmetic.",
   ["inputs"], "every point and attitude", "Rounding and cancellation are worst at particular points.", [RC, DR], [("conversions", RC)],
   "Rounding-error bounds quantify over runtime values of library sin, cos, atan2 and numpy products that no static argument in reach can bound; C20-C23 decide the exact identities.")
na("C32", "Decoding keeps up with the traffic of a busy exercise",
   "Decoding a PDU takes time proportional to its size, with a constant small enough for thousands of PDUs per second.",
   ["inputs"], "every datagram", "Timing in a test depends on the machine.", [D7, "opendis/PduFactory.py"], [("createPdu", "opendis/PduFactory.py")],
   "A throughput is a measured quantity of a machine and interpreter; C13 decides the structural part (work bounded by the input).")
