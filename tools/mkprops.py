"""Writes properties.jsonl (kept as code so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

CURVE = ("The 33 reference satellites only sample a handful of orbits per regime, all with one gravity model, "
         "one sidereal-time expression and one compatibility mode; the quantifier is over a continuous "
         "9-dimensional input space cut by branch thresholds that those orbits never sit near.")

p("C01", "Near-earth predictions equal the SGP4 near-earth theory",
  "For every near-earth orbit (mean motion above 2π/225 rad/min), drag term, gravity model and time, whenever the published SGP4 near-earth theory yields a position and velocity, propagation returns those values up to floating-point rounding. This holds in every drag regime (perigee below 98 km, 98–156 km, 156–220 km, above 220 km), for circular and eccentric orbits, at every inclination including exactly 0° and 180°, and forwards and backwards in time.",
  ["inputs"], "all orbital elements with mean motion > 2π/225 rad/min, all drag terms (zero, positive, negative), all geopotentials, all finite times",
  CURVE + " Low-perigee drag bands, eccentricity at the 1e-4 switch and 180° inclination are not covered at all.",
  ["src/lib.rs", "src/near_earth.rs", "README.md"],
  [("perigee-dependent drag parameters", "src/lib.rs Constants::new"), ("secular drag series", "src/near_earth.rs"), ("Kepler solution and short-period terms", "src/lib.rs propagate_from_state")],
  ["Constants::new + propagate / propagate_afspc_compatibility_mode on an explicit Orbit"])

p("C02", "Non-resonant deep-space predictions equal SDP4 with lunisolar terms",
  "For every deep-space orbit (mean motion at most 2π/225 rad/min) outside the two resonance bands, every epoch, gravity model and time, whenever the published SDP4 theory (secular and periodic Sun and Moon perturbations, low-inclination Lyddane modification) yields a position and velocity, propagation returns those values up to floating-point rounding, in both the default and the AFSPC compatibility mode. Outside the low-inclination case (perturbed inclination below 0.2 rad) the two modes give the same prediction.",
  ["inputs", "configurations"], "all deep-space non-resonant elements, epochs (lunar/solar phases), times, compatibility modes",
  CURVE + " Lunar and solar geometry depends on the epoch, of which the tests have a few; the default mode's predictions are never compared with anything.",
  ["src/deep_space.rs", "src/third_body.rs", "src/lib.rs"],
  [("third-body secular rates and long-period periodics", "src/third_body.rs"), ("Lyddane branch and compatibility mode", "src/deep_space.rs deep_space_orbital_elements")],
  ["Constants::new + propagate / propagate_afspc_compatibility_mode"])

p("C03", "Resonant deep-space predictions equal the SDP4 resonance integration",
  "For every orbit in the one-day band (0.0034906585 < n < 0.0052359877 rad/min) or the half-day band (8.26e-3 ≤ n ≤ 9.24e-3 rad/min with eccentricity at least 0.5), every epoch, sidereal-time expression and time, whenever the published SDP4 theory with the 720-minute resonance integrator yields a position and velocity, propagation returns those values up to floating-point rounding, forwards and backwards in time. Band edges and the eccentricity breakpoints of the half-day coefficients (0.65, 0.7, 0.715) are honoured exactly as in the README.",
  ["inputs"], "all resonant elements incl. exact band edges and breakpoints, epochs, sidereal functions, times of either sign incl. exact multiples of the step",
  CURVE + " The eccentricity pieces, band edges, and backwards integration over many steps are mostly unreached.",
  ["src/deep_space.rs", "README.md"],
  [("resonance coefficients", "src/deep_space.rs constants"), ("resonance integrator", "src/deep_space.rs ResonanceState::integrate")],
  ["Constants::new + propagate / propagate_afspc_compatibility_mode"])

p("C04", "Element-based constructors apply exactly their documented models",
  "For every valid set of TLE or OMM elements, the default constructor yields predictions of the theory with WGS84, IAU sidereal time and the accurate epoch, and the AFSPC constructor those with WGS72, AFSPC sidereal time and AFSPC epoch, the degrees and revolutions per day being converted and every field used for its own purpose. Building the orbit and the constants by hand, with any gravity model and any caller-supplied sidereal-time function (which is evaluated at the given epoch), gives the same result as the matching convenience constructor, and the two propagate convenience methods select the compatibility mode their name says.",
  ["inputs", "configurations"], "all elements x {default, AFSPC} constructor x {default, AFSPC} propagation x explicit construction with arbitrary gravity model and sidereal function",
  "Tests compare predictions only for the AFSPC constructor with AFSPC propagation; a wrong constant or function wired into the default path, or mixed gravity models, passes every test.",
  ["src/lib.rs", "src/model.rs"],
  [("constructors", "src/lib.rs Constants::from_elements*"), ("gravity constants", "src/model.rs WGS72, WGS84")],
  ["Constants::from_elements, from_elements_afspc_compatibility_mode, new, propagate*"])

p("C05", "Reusing a resonance state never changes a prediction",
  "For every resonant orbit and every sequence of times that moves monotonically away from the epoch (repeated times, arbitrary gaps, both signs, mid-sequence errors, copied states), propagating through one reused state gives at each time the same result as propagating to that time from a fresh state. A request the state cannot serve (back towards the epoch past the integrator time, across the epoch, or where the state is missing or the orbit has none) is refused by a panic or answered correctly, never answered wrongly, and leaves the state usable. Only resonant orbits have a state; its reported time is always a multiple of 720 minutes on the requested side of the epoch, at most 720 minutes short of the last requested time.",
  ["histories", "inputs"], "all histories of propagation requests against one state, and all resonant orbits",
  "Tests propagate each case through one fixed increasing list of times and never compare with a fresh state, never go non-monotonic, never copy a state; the property quantifies over call histories.",
  ["src/deep_space.rs", "src/lib.rs"],
  [("monotonicity guard and step loop", "src/deep_space.rs ResonanceState::integrate"), ("initial_state", "src/lib.rs")],
  ["Constants::initial_state, propagate_from_state, ResonanceState::t"],
  [dict(name="resonance state", meaning="integrator time, mean motion and longitude after the last request", where="src/deep_space.rs ResonanceState")])

p("C06", "Kozai to Brouwer conversion is exact and passes other elements through",
  "For every gravity model and every Kozai element set with positive mean motion, the resulting orbit's mean motion is the Brouwer mean motion of the published expression up to rounding, and inclination, right ascension, eccentricity, argument of perigee and mean anomaly are unchanged bit for bit. A zero or negative Kozai mean motion, or a conversion whose result is zero or negative, is reported by its own distinct error and never yields an orbit.",
  ["inputs"], "all gravity models, inclinations, eccentricities in [0,1), mean motions of either sign",
  "No test inspects the converted orbit; the shift is about 1e-3 relative so errors in higher-order terms hide inside the single end-to-end tolerance at a few points.",
  ["src/lib.rs"], [("Kozai conversion", "src/lib.rs Orbit::from_kozai_elements")], ["Orbit::from_kozai_elements"])

p("C07", "Divergence and invalid elements are reported as the right error",
  "An eccentricity outside [0, 1) at epoch is always refused with that value; during propagation the library reports, with the offending eccentricity and the requested time, a mean eccentricity outside [-0.001, 1), a third-body-perturbed eccentricity outside [0, 1], or a negative semi-latus rectum exactly when the published theory's own test fails (the last also when the theory yields no finite state), checked in that order. It never reports an error where the theory yields a prediction, and the error's message shows the same values.",
  ["inputs"], "all element sets and times driven to divergence by drag, third-body perturbation or long propagation, and all invalid epoch elements",
  "Tests contain one or two diverging times of fixed satellites and do not check thresholds, payloads or the near side of each threshold.",
  ["src/lib.rs", "src/gp.rs", "src/near_earth.rs", "src/deep_space.rs"],
  [("eccentricity range tests", "src/near_earth.rs, src/deep_space.rs"), ("semi-latus rectum test", "src/lib.rs propagate_from_state"), ("error types", "src/gp.rs")],
  ["Err values of Constants::new, from_elements*, propagate*"])

p("C08", "Parsing and propagating any element set always ends in a sane result",
  "For every element set expressible in a TLE or OMM and every time up to 1e8 minutes either side of the epoch, and also for NaN or infinite times, construction and propagation terminate without panicking and return either an error or a prediction whose six components are all finite numbers. Text containing non-finite or overflowing numbers is never accepted as elements.",
  ["inputs"], "all byte strings given to the TLE and OMM parsers; all representable elements however unphysical; all f64 times with |t| <= 1e8 or non-finite",
  "Tests only use healthy satellites and healthy times; absence of panics, hangs and NaN results is universally quantified.",
  ["src/tle.rs", "src/lib.rs", "src/deep_space.rs"],
  [("range checks returning errors", "src/near_earth.rs, src/deep_space.rs, src/lib.rs"), ("number parsing", "src/tle.rs"), ("integrator loop exit", "src/deep_space.rs")],
  ["Elements::from_tle, serde_json deserialization, Constants::from_elements*, propagate*"])

p("C09", "Every TLE field decodes to exactly the value written",
  "For every well-formed TLE, parsing succeeds and each field equals the number or text its columns denote: catalogue number, classification, designator with century rule (57–99 → 19xx, 00–56 → 20xx) or none when blank, epoch year by the same rule and fractional day to within 10 nanoseconds, both derivatives, drag term, and all others, including negative values, explicit signs, leading blanks, day 366, and fields filling all their columns. The supplied object name is kept verbatim.",
  ["inputs"], "all well-formed line pairs: every value of every field and every blank/sign/zero-padding variant",
  "Three literal TLEs are decoded by the tests; column boundaries (off by one) are invisible when neighbouring columns are blank, and century and year-end cases are absent.",
  ["src/tle.rs"], [("column slices and number decoding", "src/tle.rs Elements::from_lines"), ("century rule and epoch split", "src/tle.rs")],
  ["Elements::from_tle public fields"])

p("C10", "Corrupted TLEs are rejected, naming the fault and its columns",
  "A line pair is accepted only if both lines have 69 characters, start with their line numbers, have blanks in the separator columns, carry the same catalogue number, a known classification and a correct modulo-10 checksum (digits plus one per minus sign) on each line, and every field is a number of its kind. A pair with a single fault is rejected with the error kind, line and column range of that fault, and no byte sequence of any length or encoding makes the parser panic.",
  ["inputs", "fault_sequences"], "all single faults injected into well-formed TLEs at every column, all multi-byte mutations, and arbitrary bytes",
  "No test feeds an invalid TLE.",
  ["src/tle.rs"], [("validation sequence", "src/tle.rs Elements::from_lines"), ("error type", "src/tle.rs Error, ErrorWhat, ErrorLine")],
  ["Elements::from_tle Err value, its Display and Debug text"])

p("C11", "Multi-TLE text parses to exactly its satellites in order, or an error",
  "For every list of element groups, joined with LF or CRLF line ends and with or without a final line end, the two-line and three-line parsers return one element set per complete group, in order, each equal to parsing that group alone; the three-line parser attaches each title line verbatim and the two-line parser none. If any complete group is invalid, parsing fails with the error of the first invalid group; lines after the last complete group are left out.",
  ["inputs"], "all lists of groups of any length including empty, any titles (blank, unicode, digit-led, repeated), any position of invalid groups",
  "Tests parse two well-formed groups and only count them.",
  ["src/tle.rs"], [("line grouping", "src/tle.rs parse_2les, parse_3les")], ["parse_2les, parse_3les results"])

p("C12", "OMM JSON fields decode exactly, in number or string form",
  "For every valid OMM object, with each numeric field given as a JSON number or as a string, keys in any order and unknown keys present, deserialization succeeds and every field equals the value written; null or absent name and designator become none. A missing required field, a wrongly typed field, or a number that does not fit its field is an error, never silently another value.",
  ["inputs", "configurations"], "all OMM objects: values, number/string form per field, key order, extra keys, optional fields, single faults; alone and in arrays",
  "Three literal OMMs are parsed; mixed forms, out-of-range integers, negative and exponent forms, faults are absent.",
  ["src/tle.rs"], [("number-or-string deserializers", "src/tle.rs u64_or_string, u8_or_string, f64_or_string"), ("key mapping", "src/tle.rs Elements serde attributes")],
  ["serde_json::from_str::<Elements>"])

p("C13", "Serialization round trips preserve values and behaviour",
  "Every elements, orbit, gravity model, prediction and propagator-constants value that is serialized and deserialized comes back with the same value in every field. Constants restored this way yield the same predictions, errors and initial resonance state as the original for all times, and serialized elements are themselves a valid OMM object.",
  ["inputs"], "all values of the serializable types, in every propagation regime, and all times",
  "No test serializes anything.",
  ["src/propagator.rs", "src/third_body.rs", "src/model.rs", "src/tle.rs"], [("serde derives", "src/propagator.rs, src/third_body.rs, src/model.rs, src/tle.rs")],
  ["serde_json to_value/from_value/to_string/from_str, propagate"])

p("C14", "UTC epochs convert to Julian years since J2000",
  "For every UTC date and time between 1900-03-01 and 2100-02-28, including leap days, year ends, any nanosecond and the second 60 of a leap second (counted as the one after 59), both epoch expressions equal the exact elapsed time since 2000-01-01 12:00 divided by 365.25 days, up to the rounding inherent in each (about 1e-13 years for the accurate one, 5e-12 for the AFSPC one). The elements' epoch methods agree with the free functions on the elements' date.",
  ["inputs"], "all datetimes in the calendar range, nanosecond resolution",
  "Three dates are checked; calendar arithmetic fails on specific months, leap days and years.",
  ["src/tle.rs"], [("calendar expressions", "src/tle.rs julian_years_since_j2000*")], ["julian_years_since_j2000*, Elements::epoch*"])

p("C15", "Datetime and minutes-since-epoch conversions are mutually inverse",
  "For all element epochs and all datetimes within range, the minutes since epoch equal the exact signed difference up to one rounding, and converting back gives the same datetime up to the resolution of the minutes value (one nanosecond for spans up to a hundred days). Differences or results that do not fit, and minutes that are not a number, are reported as errors, never as a wrapped, clamped or default value and never as a panic.",
  ["inputs"], "all pairs of datetimes (chrono's whole range) and all f64 minutes",
  "No test calls either conversion.",
  ["src/tle.rs"], [("nanosecond conversions with overflow checks", "src/tle.rs datetime_to_minutes_since_epoch, minutes_since_epoch_to_datetime")],
  ["Elements::datetime_to_minutes_since_epoch, minutes_since_epoch_to_datetime"])

p("C16", "Sidereal-time functions follow their formulas and stay within one turn",
  "For every epoch within two centuries of J2000, the IAU and AFSPC expressions equal their published formulas modulo a full turn, up to the rounding of the formula, and both return a value in [0, 2π]. The two agree with each other to within 1e-5 rad between 1957 and 2057.",
  ["inputs"], "all epochs in years since J2000, of either sign, including whole days and near-midnight values",
  "Sidereal time is never tested directly, and enters predictions only for resonant orbits, of which the tests use the AFSPC expression at a few epochs.",
  ["src/model.rs"], [("sidereal expressions", "src/model.rs")], ["iau_epoch_to_sidereal_time, afspc_epoch_to_sidereal_time"])

p("C17", "All feature configurations parse and predict alike",
  "For every TLE and time, the crate built without the standard library's mathematics, without allocation or without serialization parses to the same fields, accepts and rejects the same inputs with the same errors, and yields the same predictions, states and propagation errors as the default build, up to the rounding differences of the mathematics library. With serialization enabled, OMM parsing agrees too; without allocation elements have no name or designator and the designator columns are not decoded.",
  ["configurations", "inputs"], "{std, libm, libm+alloc, libm+alloc+serde} x all TLE/OMM inputs and times",
  "Tests run the reference cases on two configurations and never compare configurations with each other; the configuration-specific code paths (Euclidean remainder, no-allocation parser) are barely reached.",
  ["Cargo.toml", "src/lib.rs", "src/tle.rs", "src/model.rs", "src/deep_space.rs"], [("cfg-gated code", "src/*.rs"), ("feature definitions", "Cargo.toml")],
  ["separate worker binaries, one per configuration"])

p("C18", "Near-earth predictions obey the symmetries of the zonal theory",
  "For every near-earth orbit: rotating the right ascension by any angle rotates position and velocity about the polar axis by that angle; adding whole turns to any angle changes nothing; the epoch and the sidereal-time function change nothing. Without drag, time reversal combined with reflection across the xz-plane (Ω→π−Ω, ω→π−ω, M→−M, t→−t) maps predictions onto each other, and scaling the Earth radius scales positions and velocities by the same factor.",
  ["inputs"], "all near-earth orbits and times, all rotation angles, whole turns, epochs and scale factors",
  "These are relations between two runs; example tests only look at single runs.",
  ["src/lib.rs", "src/near_earth.rs"], [("orbit-frame to TEME rotation", "src/lib.rs propagate_from_state"), ("secular and periodic zonal terms", "src/lib.rs, src/near_earth.rs")],
  ["Constants::new + propagate on related inputs"])

p("C19", "Results do not depend on call history, order or thread",
  "Parsing, construction and propagation are pure: for every interleaving of calls over any set of satellites, times and modes, on one thread or shared across many, each call returns bit for bit what it returns when made alone. Neither the elements nor the constants change by being used.",
  ["schedules", "histories", "inputs"], "all interleavings of calls over several satellites and times across threads",
  "Tests are sequential and compare against absolute values at a coarse tolerance; they never repeat a call or share constants between threads.",
  ["src/lib.rs", "src/propagator.rs", "src/deep_space.rs"], [("immutable constants, explicit state", "src/propagator.rs Constants, src/deep_space.rs ResonanceState")],
  ["all public functions, Debug text before and after"])

p("C20", "Every error says what went wrong and with which values",
  "For every failure the error's message names its kind and shows its values: for a TLE the fault, the line and the columns; for propagation which eccentricity (before or after third-body terms) or the semi-latus rectum, the value and the minutes since epoch; for elements the epoch eccentricity or which mean motion; for conversions the two datetimes, the minutes, or the datetime and duration. An error about elements reads exactly like the cause it wraps and converting a cause into it keeps kind and value. Every error is a standard error that can be cloned and sent to another thread without its message changing.",
  ["inputs"], "all error kinds and payloads, raised through every fallible public function or made by hand",
  "Tests unwrap results; no test looks at an error's message or conversion.",
  ["src/gp.rs", "src/lib.rs", "src/tle.rs"], [("messages and conversions", "src/gp.rs Error, src/lib.rs KozaiElementsError, OutOfRangeEpochEccentricity, ElementsError, src/tle.rs Error and datetime errors")],
  ["Display, Debug, Clone, From of every error type"])

p("C21", "The same satellite given as TLE or as OMM predicts alike",
  "For every satellite written both as a TLE and as an OMM object with the same values, in any order of keys and with numbers or strings, the two parse to the same elements: the same name, designator, numbers and classification, floating-point fields up to their last digits and epochs within 10 nanoseconds. Constants built from either by the same constructor give the same predictions and errors at every time, up to floating-point rounding.",
  ["inputs"], "all satellites expressible in a TLE x all forms of the OMM x both constructors and modes x times",
  "Tests parse unrelated TLEs and OMMs and never compare the two readings of one satellite.",
  ["src/tle.rs", "src/propagator.rs"], [("two front ends to one type", "src/tle.rs Elements::from_tle, Elements serde attributes")],
  ["Elements::from_tle, serde_json::from_str::<Elements>, predictions from both"])

p("C22", "Trajectories are smooth and obey elementary orbital mechanics",
  "For every orbit with perigee above 200 km, eccentricity up to 0.8, mean motion of at least 0.003 rad/min, inclination at least 0.25 rad away from both 0 and π and |B*| up to 1e-4, a prediction exists at every time within ten days of the epoch. Its velocity is the rate of change of the predicted position to within 0.5 %, also across 720-minute integrator steps and the epoch; its energy is that of the orbit's semi-major axis to within 0.5 % of μ/r, its distance lies between perigee and apogee to within 2 %, and its plane keeps the orbit's inclination to within 0.02 rad.",
  ["inputs"], "all such orbits, both published gravity models, both modes, times within ten days, in particular on and next to integrator steps",
  "Tests compare isolated states with tables; relations between neighbouring times and between position and velocity are not looked at.",
  ["src/lib.rs", "src/near_earth.rs", "src/deep_space.rs"], [("position and velocity from the elements", "src/lib.rs propagate_from_state"), ("resonance integrator", "src/deep_space.rs")],
  ["Constants::new + propagate at neighbouring times"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
