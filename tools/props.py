"""The properties: text (properties.jsonl), manifest entry, and the configuration
of check.py. tools/gen.py writes properties.jsonl and MANIFEST.json from here."""

BOUNDED = "bounded stand-in (never counted as proved): native evaluation of the same contract on pseudo random values"
PROPS = {}
NOT_APPLICABLE = []


def P(id, title, statement, over, quant, why, files, mech, observe, functions, level, technique, note, hook=None, state=(), **cfg):
    PROPS[id] = dict(
        title=title, statement=statement, over=over, quant=quant, why=why, files=files,
        mech=mech, observe=observe, hook=hook, state=state,
        functions=functions, level=level, technique=technique, note=note, **cfg)


KANI = "Kani/CBMC contract harnesses over the compiled crate"
VERUS = "Verus contracts on functions extracted from /repo"

P("P01", "Revision numbers parse, print and order faithfully",
  "Any revision text \"a\", \"a.b\" with numbers of one byte is read as that major and minor revision, any other text of decimal characters and dots is rejected or read as written, and displaying then parsing a revision gives it back. Revisions are totally ordered by major then minor, and adding or subtracting a number moves the major revision.",
  ["inputs"], "every text of the proved lengths over any printable bytes, every pair of revisions",
  "the tests read nine well formed revisions; a misplaced byte or a three digit number is never tried",
  ["src/version.rs"], [("Version::from_str", "src/version.rs"), ("Display, Add, Sub, Ord", "src/version.rs")], ["Version::from_str", "Version::to_string", "comparison operators"],
  ["Version::{from_str,fmt,add,sub,add_assign,sub_assign,cmp,partial_cmp,eq,new,From<(u8,u8)>,Into<(u8,u8)>}"],
  "proof", KANI, "Proved for every text of 1 and 4 bytes (3 bytes: thorough), every revision and pair of revisions. Assumes core::slice::memchr behaves as documented (replaced by a naive loop). Longer texts: native bounded search.",
  kani_timeout=330)
P("P02", "Observation flag, loss of lock and signal strength codes are exact",
  "Every one character epoch flag, loss of lock indicator and signal strength code of the standard maps to its meaning and back, every other text is rejected, and a signal strength in dB belongs to the one class whose interval contains it.",
  ["inputs"], "every byte, every flag, every pair of bytes for the signal strength text, every f64 that is not NaN",
  "the tests name a few codes and dB values; interval bounds and rejected characters are not enumerated",
  ["src/observation/flag.rs", "src/observation/snr.rs", "src/observation/lli.rs"],
  [("EpochFlag::from_str/Display", "src/observation/flag.rs"), ("SNR::from_str, From<f64>, Into<f64>", "src/observation/snr.rs"), ("LliFlags", "src/observation/lli.rs")], ["EpochFlag, SNR, LliFlags conversions"],
  ["EpochFlag::{from_str,fmt,is_ok}", "SNR::{from_str,from(f64),from(u8),bad,weak,strong,excellent}", "LliFlags::from_bits"],
  "proof", KANI, "Proved for every value of the code domains. Assumes str::trim on ASCII behaves as the ASCII routine substituted for it.")
P("P03", "Observable codes are classified by their letter and print back",
  "Every observation, meteo and DORIS observable code is read as the physics its letter announces, printing it gives the code back, and a rain increment is only ever the same physics as a rain increment, likewise for every other physics.",
  ["inputs"], "every text of 1 to 4 printable characters, every pair of observables",
  "tests parse a handful of codes; the table has hundreds of valid codes and millions of invalid ones",
  ["src/observable.rs"], [("Observable::from_str, Display, same_physics, is_*_observable", "src/observable.rs")], ["Observable API"],
  ["Observable::{from_str,fmt,is_pseudo_range_observable,is_phase_range_observable,is_doppler_observable,is_ssi_observable,same_physics}"],
  "proof", KANI, "Proved over the full code domain (texts up to 4 characters). Assumes str::trim and str::to_uppercase behave as their ASCII counterparts on ASCII text.")
P("P04", "Carriers are deduced from observable codes with the right frequency",
  "For each constellation, each standard observable code designates the carrier the standard assigns to its band digit, with the standard frequency, and the Glonass channels follow base frequency plus channel number times spacing. Wavelength is the speed of light over frequency, and a carrier's printed name parses back to a carrier of the same frequency.",
  ["inputs"], "every constellation of the standard, every band, every attribute letter, every Glonass channel",
  "tests check a few codes per constellation; most of the band tables are never read by a test",
  ["src/carrier.rs"], [("Carrier::from_observable, frequency, wavelength, from_str, Display", "src/carrier.rs")], ["Carrier API"],
  ["Carrier::{from_observable,from_gps_observable,from_glo_observable,from_gal_observable,from_qzss_observable,from_bds_observable,from_irnss_observable,from_sbas_observable,frequency,frequency_mega_hz,wavelength}"],
  "proof", KANI, "Proved for every code of the tables in contracts/src/p04.rs (transcribed from the RINEX 3.05/4.00 standard). The text round trip of carrier names is a native enumeration (bounded).")
P("P05", "Numerical differencing is lossless at every order",
  "For every history of observations (within 53 bits), every re-initialization and every differencing order, decompressing the compressed stream returns each original sample exactly, and the compressed values are the backward differences the Hatanaka definition prescribes, with no overflow.",
  ["histories", "inputs"], "every sequence of samples within +/-2^53, every order 1 to 6, every point of re-initialization",
  "tests follow two recorded sequences of one order; an inductive argument over the kernel's state is needed for all histories",
  ["src/hatanaka/numdiff.rs"], [("NumDiff::{new,force_init,compress,decompress,rotate_history}", "src/hatanaka/numdiff.rs")], ["NumDiff API"],
  ["NumDiff::{new,force_init,rotate_history,compress,decompress}"],
  "proof", VERUS, "Unbounded proof over histories by an inductive invariant linking compressor and decompressor. Assumes slice::copy_within's documented memmove semantics; samples bounded by 2^53 (else i64 overflow is possible).",
  state=[("history", "most recent recovered points", "NumDiff.buf"), ("order", "current differencing order", "NumDiff.m")], verus=["numdiff"])
P("P06", "Text differencing is lossless",
  "For every sequence of ASCII texts, decompressing what was compressed against the same history returns each text exactly (padded to the length of the history), a blank delta repeats the previous text, and an ampersand blanks a character.",
  ["histories", "inputs"], "every sequence of ASCII texts of any length, any number of steps",
  "tests follow one recorded sequence",
  ["src/hatanaka/textdiff.rs"], [("TextDiff::{new,force_init,compress,decompress}", "src/hatanaka/textdiff.rs")], ["TextDiff API"],
  ["TextDiff::{new,force_init,compress,decompress}"],
  "proof", VERUS + " (every length and history); " + KANI + " (the exact lengths of the harness names)", "Unbounded proof (Verus): compressing then decompressing with matching histories gives the text back and keeps the histories equal, for every ASCII text of any length. The Kani harnesses run the compiled code on the lengths of their names; a native search replays.",
  state=[("history", "previous text", "TextDiff.buffer")], verus=["textdiff"])
P("P07", "Observation V3/V4 epochs are read from their exact columns",
  "In a V3 or V4 observation file, every observation is the number printed in its 14 columns with the loss of lock and signal strength digits that follow, assigned to the satellite of its line, the observable of its rank in the header, and the epoch and flag of its epoch line. Blank observations and observations beyond the end of a line are absent, and nothing else appears; a printed receiver clock offset and event records (flags 2 to 5, with their special lines) change none of it.",
  ["inputs"], "every document of the generator: 1 to 7 constellations, 1 to 18 observables each, up to 3 epochs, any blanks and truncated lines, printed clock offsets, event records",
  "test files are a fixed set; shifted columns, rare widths, and missing trailing fields are absent from them",
  ["src/observation/parsing.rs", "src/record/parsing.rs", "src/epoch.rs", "src/header/parsing.rs"],
  [("parse_epoch, parse_signals_v3", "src/observation/parsing.rs"), ("Record::parse line dispatch", "src/record/parsing.rs")], ["Rinex::parse, record.as_obs()"],
  ["observation::parsing::{is_new_epoch,parse_epoch,parse_event,parse_observations,parse_signals_v3}", "Record::parse", "Header::parse"],
  "exploration", VERUS + " (the columns); " + BOUNDED + " (the whole documents)", "Proved for all inputs (Verus): is_new_epoch, parse_epoch and parse_observations: the columns of the epoch line; parse_signals_v3: every line of a V3 epoch, of any length and number of fields, gives exactly the fields of its columns. The rest of the documents is bounded: whole documents from a generator written from the standard, against an independent reading. Receiver clock offsets are excluded (the parser drops them, tests encode it).", verus=["obs_v3", "obs_epoch"])
P("P08", "Observation V2 epochs are read from their exact columns",
  "In a V1 or V2 observation file, the satellites list of the epoch line and of its continuation lines (12 per line, an omitted constellation being that of the file), and the observations wrapped five per line, are each read from their exact columns, and nothing else appears; a printed receiver clock offset and event records (flags 2 to 5, with their special lines) change none of it.",
  ["inputs"], "every document of the generator: up to 40 satellites per epoch, 1 to 16 observables, up to 3 epochs, any blanks, printed clock offsets, event records",
  "test files hold few satellites per epoch and few observables per line; wrapping boundaries are mostly never met",
  ["src/observation/parsing.rs", "src/record/parsing.rs", "src/epoch.rs", "src/header/parsing.rs"],
  [("parse_epoch, parse_signals_v2", "src/observation/parsing.rs")], ["Rinex::parse, record.as_obs()"],
  ["observation::parsing::{is_new_epoch,parse_epoch,parse_observations,parse_signals_v2}", "Record::parse", "Header::parse"],
  "exploration", VERUS + " (the columns); " + BOUNDED + " (the whole documents)", "Proved for all inputs (Verus): is_new_epoch, parse_epoch and parse_observations: the columns of the epoch line and the list of vehicles over any number of continuation lines; parse_signals_v2: any list of vehicles, any number of observables, any number of lines, up to the known finding. The rest of the documents is bounded: whole documents from a generator written from the standard, against an independent reading. One known finding (KNOWN_FINDINGS).", verus=["obs_v2", "obs_epoch"])
P("P09", "Dates and times are read and printed exactly, in every time system",
  "A date written with two or four digit years, blank or zero padded fields and 0 to 9 digits of a second is read as exactly that instant of the given time system (years 80-99 are 1980-1999, 00-79 are 2000-2079), printing an epoch in the layout of each file type gives its calendar fields and parsing the result gives the epoch back at the resolution of the layout. A field out of the calendar is rejected, and no text causes a panic.",
  ["inputs"], "every date of a century, every fraction of a second, six time systems, every layout",
  "tests read about thirty dates; other time systems and digit counts are not sampled",
  ["src/epoch.rs"], [("epoch::{parse_in_timescale,parse_ionex_utc,format,epoch_decompose}", "src/epoch.rs")], ["text of epochs in every file type"],
  ["epoch::{parse_in_timescale,parse_utc,parse_ionex_utc,parse_formatted_month,format,epoch_decompose}"],
  "exploration", VERUS + " (reading a date); " + BOUNDED + " (printing, file layouts)", "Proved for all texts (Verus): parse_in_timescale, parse_utc and parse_ionex_utc read the words of the text as the year, month, day, hour, minute, second and nanoseconds they print, in the given time system, reject the rest and never panic; the calendar itself is hifitime's. Printing and its inverse are bounded: generated dates.", hook="rinex_verif", verus=["epoch_text"])
P("P10", "Standard file names are read and regenerated exactly",
  "Every short (V2) and long (V3) standard file name is read as its station, country, source, date, period and sampling, and generating a standard name from these attributes gives the same name back; without attributes, the date comes from the first epoch in its own time system. Any other text is rejected without a panic.",
  ["inputs", "configurations"], "every field value of both layouts, every file type and constellation",
  "tests hold a dozen names; day of year boundaries, two digit years and most field values are not tried",
  ["src/production/mod.rs", "src/lib.rs"], [("ProductionAttributes::from_str", "src/production/mod.rs"), ("Rinex::standard_filename, guess_production_attributes", "src/lib.rs")], ["ProductionAttributes::from_str, Rinex::standard_filename"],
  ["ProductionAttributes::{from_str,ionex_format,rinex_short_format,rinex_long_format}", "Rinex::{standard_filename,guess_production_attributes}"],
  "exploration", VERUS + " (reading a name); " + BOUNDED + " (generating a name)", "Proved for all texts (Verus): ProductionAttributes::from_str reads every field of both layouts from its columns, rejects the rest and never panics. Generating a name is bounded: generated names over every field. Observation files of a single constellation are always named MO by the library (tests encode it), which the contract accepts.", verus=["production"])
P("P11", "Period and sampling codes of file names denote the right durations",
  "Every period code (15M, 01H, 01D, 01Y, 00U), sampling code (two digits and a unit letter) and data source letter is read as its meaning and printed back, a duration is assigned the period whose interval contains it, and a sampling interval is printed in its natural unit.",
  ["inputs"], "every 3 character code, every duration of the two centuries around the reference epoch",
  "tests try one duration per period and a few codes",
  ["src/production/ppu.rs", "src/production/ffu.rs", "src/production/source.rs"], [("PPU/FFU/DataSource conversions", "src/production")], ["PPU, FFU, DataSource API"],
  ["PPU::{from_str,fmt,from(Duration),duration}", "FFU::{from_str,fmt,from(Duration)}", "DataSource::from_str"],
  "proof", KANI, "Proved: all period, sampling and source texts, and the period of every duration. The printing of sampling codes and the sampling code of a duration (floating point) are bounded native searches.")
P("P12", "Leap second records are read from and printed to their columns",
  "A leap second record gives its four numbers and its time system whatever their width, formatting writes each in its six columns before the label, and parsing what was formatted gives the same record. Any other text is rejected without a panic.",
  ["inputs"], "numbers of any width that fits the columns, with and without the optional fields, any text of the character set",
  "tests hold four records", ["src/leap.rs"], [("Leap::from_str, format", "src/leap.rs")], ["Leap API"],
  ["Leap::{from_str,format,with_delta_tls,with_week,with_day,with_timescale}"],
  "exploration", VERUS + " (reading); " + BOUNDED + " (printing, and its inverse)", "Proved for all texts (Verus): Leap::from_str reads the words of the record, over an abstract splitting into words (Kani does not complete on it), rejects the rest and never panics. Printing is bounded.", verus=["leap"])
P("P13", "Header fields and comments are read from and printed to their columns",
  "Every common field of a header (program, operator and date, observer and agency, marker name, number and type, receiver, antenna and its offsets, position, interval, leap seconds, Glonass slots, DCB and PCV corrections, license, DOI, station information, ionospheric corrections) is read from its columns with its exact content, in whatever order the lines come, formatting a header writes every label at column 61 with its content in the columns of the standard and reads back the same, comments of the header and of the record are kept in order and never change the record, whether DCB or PCV corrections apply to a constellation and whether the file is a merge is told from all of the corrections and comments, and a damaged header is rejected or read without a panic.",
  ["inputs"], "every document of the generator: each field present or not, of any width up to its columns, in any order",
  "tests read recorded headers, in the usual order and with short fields",
  ["src/header/parsing.rs", "src/header/formatting.rs", "src/hardware.rs", "src/marker.rs", "src/lib.rs", "src/record/parsing.rs", "src/navigation/ionosphere/mod.rs"],
  [("Header::parse", "src/header/parsing.rs"), ("Header::format", "src/header/formatting.rs"), ("fmt_rinex, dcb_compensation, pcv_compensation, is_merged", "src/lib.rs"), ("Record::parse comments", "src/record/parsing.rs"), ("IonosphereModel::{from_rinex2_header,from_rinex3_header}", "src/navigation/ionosphere/mod.rs")], ["Header fields, Rinex::{parse,format}, Rinex.comments"],
  ["Header::{parse,format,format_prog_runby,format_observer_agency,format_sampling_interval}", "Columns::split_columns", "fmt_rinex", "Receiver::{from_str,format}", "Antenna::format", "GeodeticMarker::format", "IonosphereModel::{from_rinex2_header,from_rinex3_header}"],
  "exploration", VERUS + " (the columns of the fields); " + BOUNDED + " (whole headers, formatting)", "Proved for all lines (Verus): Columns::split_columns, the block of Header::parse of each label listed in the evidence, the lists of observables, the date of first and last observation, Receiver::from_str, dcb_compensation, pcv_compensation and is_merged over any number of corrections and comments. Which block a label selects, the other labels, and formatting are bounded: generated headers of observation and navigation files.", verus=["header_fields", "header_codes", "header_queries"])
P("P15", "IONEX maps give every point with its exact coordinates and values",
  "Every point of every TEC map of an IONEX file, 2D or 3D, is stored under its epoch, latitude, longitude and altitude exactly, with its value in TECu under the exponent in force, points marked as unavailable are absent, RMS maps attach to the TEC of the same point, and every header description (grids, epochs, mapping function, radius, cutoff, exponent) is read from its columns. A damaged file is parsed or rejected, never a panic.",
  ["inputs"], "every document of the generator: 1 to 3 maps, ascending or descending grids of one decimal, 1 to 35 longitudes, glued fields, exponent updates",
  "tests check a few points of three recorded files, all with the same grid and none with RMS values",
  ["src/ionex/parsing.rs", "src/ionex/quantized.rs", "src/ionex/tec.rs", "src/record/parsing.rs", "src/header/parsing.rs", "src/linspace.rs"],
  [("parse_tec_map, parse_rms_map, parse_grid_specs", "src/ionex/parsing.rs"), ("Quantized::{find_exponent,new,real_value}", "src/ionex/quantized.rs"), ("Linspace::new", "src/linspace.rs")], ["Rinex::parse, ionex_tec_maps_iter, ionex_rms_tec_maps_iter, TEC API"],
  ["ionex::parsing::{parse_tec_map,parse_rms_map,parse_grid_specs}", "Quantized::{find_exponent,new,real_value}", "TEC::*", "Linspace::new", "Header::parse"],
  "exploration", VERUS + " (grids and maps); " + BOUNDED + " (the whole documents)", "Proved for all inputs (Verus): parse_grid_specs (columns of a grid line), parse_tec_map and parse_rms_map: the point and the value of every field of a map, over any number of lines, grids and values. The exponents, the header and the whole documents are bounded (generated documents). Known findings: the last TEC map of a file is dropped and TEC in m-2 is ten times too large (both encoded by the existing tests).", verus=["ionex_maps"])
P("P16", "Navigation frames give every parameter under its standard name",
  "Every ephemeris frame of V2, V3 and V4 navigation files (GPS, Glonass, Galileo, BeiDou, QZSS, SBAS; legacy and modern messages) is stored under its vehicle, epoch and message, each parameter of the standard under its name with its exact value and no other, omitted ones excepted; V4 ionosphere models and earth orientation frames give their standard fields. A damaged file is parsed or rejected, never a panic.",
  ["inputs"], "every document of the generator: all messages, omitted fields, D or E exponents, trailing blanks or not",
  "tests read recorded files, where modern messages are rare and omitted fields absent",
  ["src/navigation/ephemeris/parsing.rs", "src/navigation/parsing/mod.rs", "src/navigation/parsing/v4.rs", "src/navigation/orbits.rs", "db/NAV/orbits.json"],
  [("Ephemeris::{parse_v2v3,parse_v4}, parse_orbits", "src/navigation/ephemeris/parsing.rs"), ("closest_nav_standards", "src/navigation/orbits.rs"), ("orbits database", "db/NAV/orbits.json")], ["Rinex::parse, record.as_nav(), nav_ephemeris_frames_iter"],
  ["Ephemeris::{parse_v2v3,parse_v4}", "parse_orbits", "closest_nav_standards", "OrbitItem::new", "navigation::parsing::{is_new_epoch,parse_epoch,v4::parse}", "KbModel::parse", "NgModel::parse", "BdModel::parse", "EarthOrientation::parse"],
  "exploration", VERUS + " (the columns); " + BOUNDED + " (the whole documents)", "Proved for all inputs (Verus): parse_orbits: every word of every message, under any definition. The rest of the documents is bounded: generated documents against the field lists of the standard. System time offset frames are excluded (their field order is encoded by the tests); zero valued fields may be omitted by the library.", verus=["nav_orbits"])
P("P19", "Clock files give every clock profile with its exact values",
  "Every record of a V2, V3 or V3.04 clock file is stored under its epoch in the time system of the file, its satellite or station clock and its profile type, with its one to six values exact and in order; header types and reference clocks are read from their columns, and the clock iterators partition the record. A damaged file is parsed or rejected, never a panic.",
  ["inputs"], "every document of the generator: all profile types, 1 to 6 values, short and long station names",
  "tests read three recorded files of two values each",
  ["src/clock/record.rs", "src/clock/mod.rs", "src/header/parsing.rs", "src/lib.rs"],
  [("clock::record::parse_epoch", "src/clock/record.rs"), ("WorkClock::parse", "src/clock/mod.rs"), ("precise_sv_clock, precise_station_clock", "src/lib.rs")], ["Rinex::parse, record.as_clock(), precise_sv_clock, precise_station_clock"],
  ["clock::record::{is_new_epoch,parse_epoch}", "ClockProfileType::{from_str,fmt}", "WorkClock::parse", "Header::parse"],
  "exploration", VERUS + " (the columns); " + BOUNDED + " (the whole documents)", "Proved for all inputs (Verus): clock::record::parse_epoch: every record of one or two lines. precise_sv_clock and precise_station_clock: exactly the profiles of the satellites, of the stations, of every epoch in order. The rest of the documents is bounded: generated documents.", verus=["clock_epoch", "clock_query"])
P("P20", "Meteo files are read from and printed to their columns",
  "Every observation of a Meteo file (8 per first line, 10 per continuation line, trailing blanks omitted or not) and every header description of observables and sensors is read with its exact value, and formatting then parsing gives the same file, each field in the columns of the standard.",
  ["inputs"], "every document of the generator: 1 to 10 observables, omitted values, sensors with omitted fields",
  "tests read three recorded files with three to seven observables",
  ["src/meteo/parsing.rs", "src/meteo/formatting.rs", "src/meteo/header.rs", "src/meteo/sensor.rs"],
  [("meteo::parsing::parse_epoch", "src/meteo/parsing.rs"), ("meteo::formatting::format", "src/meteo/formatting.rs"), ("Sensor::from_str, Display", "src/meteo/sensor.rs"), ("HeaderFields::format", "src/meteo/header.rs")], ["Rinex::parse, Rinex::format, record.as_meteo()"],
  ["meteo::parsing::{is_new_epoch,parse_epoch}", "meteo::formatting::format", "meteo::HeaderFields::format", "Sensor::{from_str,fmt}"],
  "exploration", VERUS + " (the columns); " + BOUNDED + " (the whole documents)", "Proved for all inputs (Verus): meteo::parsing::parse_epoch: every epoch, any number of observables; meteo::formatting::format: one line per epoch, every observable of the header in its rank, present or blank, 8 on the first line and 10 on the next ones. The rest of the documents is bounded: generated documents.", verus=["meteo_epoch", "meteo_format"])
P("P21", "Marker numbers and types are read and printed faithfully",
  "A standard marker number (five digits, M, three digits) is kept digit for digit, any other text is not taken for one, setting the name or the number leaves the other untouched, and each of the standard marker types is printed under its standard name and read back.",
  ["inputs"], "every nine character text, every marker type", "tests hold one number and one type",
  ["src/marker.rs"], [("GeodeticMarker::{with_number,number}, MarkerType", "src/marker.rs")], ["GeodeticMarker, MarkerType API"],
  ["GeodeticMarker::{with_name,with_number,number}", "MarkerType::{from_str,fmt}"],
  "exploration", KANI + " (names of the types); " + BOUNDED, "The printed name of every type is proved; numbers are a bounded search.")
P("P22", "DORIS stations are read from and printed to their columns",
  "A DORIS station record gives its key, label, site, DOMES number, generation and frequency shift factor from their columns, printing it gives the record back, and its S1 and U2 frequency shifts follow the DORIS definition. Any other text is rejected without a panic.",
  ["inputs"], "every character of each field, every shift factor", "tests hold three stations without frequency shift",
  ["src/doris/station.rs"], [("Station::from_str, Display, s1_frequency_shift, u2_frequency_shift", "src/doris/station.rs")], ["doris::Station API"],
  ["Station::{from_str,fmt,s1_frequency_shift,u2_frequency_shift}"],
  "exploration", VERUS + " (reading); " + BOUNDED + " (printing, frequency shifts)", "Proved for all texts (Verus): Station::from_str reads every field from its columns, rejects the rest and never panics. Printing is bounded: generated records; the frequency shifts are enumerated over all 256 factors.", verus=["doris_station"])
P("P23", "Observation files survive formatting and parsing",
  "Formatting a parsed observation file and parsing the result gives the same header information and the same record: every epoch, flag, satellite, observable, value, loss of lock and signal strength. What is written has the layout of the standard: header labels in columns 61-80, the version and system of the first line in their columns, epoch and observation lines in theirs.",
  ["inputs"], "every document of the generator of P07 and P08", "tests round trip a few recorded files",
  ["src/observation/formatting.rs", "src/observation/header.rs", "src/header/formatting.rs", "src/epoch.rs"],
  [("observation::formatting::format", "src/observation/formatting.rs"), ("Header::format", "src/header/formatting.rs")], ["Rinex::format, Rinex::parse"],
  ["observation::formatting::{format,format_epoch_v2,format_epoch_v3}", "Header::format", "Record::format", "epoch::format"],
  "exploration", VERUS + " (the lines that are written); " + BOUNDED + " (whole documents, and parsing them back)", "Proved for all inputs (Verus): format_epoch_v2, format_v2, format_epoch_v3 and format_v3: the epoch line lists exactly the vehicles of the epoch, each once and in order (12 per line in V2), and every observable of the header is written in its rank for each of them, present or blank, with its flags, over any number of vehicles, observables and lines. Assumed there: format! places what it is given at the widths of its format string, the standard containers and iterators. The rest is bounded: generated documents.", verus=["obs_format"])
P("P24", "CRINEX compression is lossless and standard",
  "Converting any observation file to compressed RINEX (V1 or V3), writing it, reading it back and converting it to RINEX gives the same record. A compressed file written by any standard encoder (differences of any order up to 5, arcs and flags reinitialised whenever the encoder decides to, vehicles that disappear and come back, lines trimmed or not) reads as the record it was made from; and the compressed file that is written decodes to that record with a standard decoder. A damaged compressed file is parsed or rejected, never a panic.",
  ["inputs", "histories"], "every document of the generator of P07 and P08, without receiver clock offset; any choice of the encoder; any damage of the compressed text", "tests decompress a few recorded files, in one direction",
  ["src/hatanaka/compressor.rs", "src/hatanaka/decompressor/mod.rs", "src/observation/rinex/mod.rs", "src/record/parsing.rs"],
  [("CompressorExpert, DecompressorExpert", "src/hatanaka"), ("rnx2crnx, crnx2rnx", "src/observation")], ["Rinex::rnx2crnx, crnx2rnx, format, parse"],
  ["CompressorExpert::*", "DecompressorExpert::*", "NumDiff::*", "TextDiff::*"],
  "exploration", VERUS + " (the decompressor); " + BOUNDED + " (the compressor, whole documents)", "Proved for all inputs (Verus), over the contracts of the kernels that P05 and P06 prove: every function of DecompressorExpert: what the epoch, clock and observation lines are expanded to (the vehicle of each line, each field of the line, restarted, continued and missing arcs, the flags), which kernels are kept, restarted or dropped, over any number of vehicles, observables and lines, and that no sequence of lines and no buffer makes it panic. The compressor and the rest are bounded: generated documents, against an independent CRINEX encoder and decoder written from the standard; the kernels are P05 and P06. Receiver clock offsets are excluded: the library drops them when it reads observations.", verus=["crx_decomp"])

P("P25", "DORIS files give every measurement of every station with its flags",
  "In a DORIS file, every measurement is the number printed in its 14 columns with the two flags that follow, assigned to the station of its number in the header, the observable of its rank (five per line, over any number of lines), and the date (TAI), flag, clock offset and extrapolation mark of its epoch line; blank measurements are absent and nothing else appears. The satellite, observables, scale factors, time offset and stations of the header are exact. A damaged file is parsed or rejected, never a panic.",
  ["inputs"], "every document of the generator: 1 to 10 observables, up to 6 stations with any numbers, up to 3 epochs, any blanks and truncated lines",
  "the only test reads the header of one recorded file, and never a measurement",
  ["src/doris/parsing.rs", "src/header/parsing.rs", "src/record/parsing.rs", "src/doris/station.rs"],
  [("parse_epoch, parse_observations", "src/doris/parsing.rs"), ("Record::parse line dispatch", "src/record/parsing.rs")], ["Rinex::parse, record.as_doris(), header.doris"],
  ["doris::parsing::{is_new_epoch,parse_epoch,parse_observations}", "Record::parse", "Header::parse"],
  "exploration", VERUS + " (the columns); " + BOUNDED + " (the whole documents)", "Proved for all inputs (Verus): parse_epoch and parse_observations: the columns of the epoch line, the station of each line, the columns and flags of every measurement, over any number of lines, observables and stations. The rest of the documents is bounded: generated documents. Formatting DORIS files is not implemented by the library.", verus=["doris_epoch"])

P("P17", "ANTEX files give every antenna with its calibration, offsets and patterns",
  "In an ANTEX file, every antenna block is one antenna: its type (radome excluded) and serial number, or its satellite and COSPAR number; the method, agency, number of antennas and validity (GPS time) of its calibration, its azimuth increment, zenith grid and SINEX code; and for every frequency the north, east and up eccentricities and the azimuth independent pattern that are printed for it, each read from its own columns and never from another antenna, frequency or RMS section. Searching a satellite, an IGS code or a serial number at an instant gives the eccentricity of a calibration that is valid then (bounds included), and nothing outside. A damaged file is parsed or rejected, never a panic.",
  ["inputs"], "every document of the generator: up to 3 antennas of any kind, up to 5 frequencies of 19, any grids, values and validity, RMS sections, azimuth dependent lines, comments, trimmed or padded lines",
  "the tests read a few eccentricities of two recorded files; no pattern, validity, serial number or azimuth increment",
  ["src/antex/record.rs", "src/antex/antenna/mod.rs", "src/header/parsing.rs", "src/carrier.rs", "src/lib.rs"],
  [("parse_antenna", "src/antex/record.rs"), ("Antenna::is_valid", "src/antex/antenna/mod.rs"), ("rx_antenna_apc_offset, sv_antenna_apc_offset", "src/lib.rs")], ["Rinex::parse, record.as_antex(), rx_antenna_apc_offset, sv_antenna_apc_offset"],
  ["antex::record::{parse_antenna,parse_phase_pattern,parse_sv,parse_validity_epoch,parse_datetime}", "antex::antenna::Antenna::{with_validity_period,with_dazi,with_specificities,is_valid}", "Carrier::from_sv", "Rinex::{rx_antenna_apc_offset,sv_antenna_apc_offset}"],
  "exploration", VERUS + " (the antenna blocks); " + BOUNDED + " (the whole documents and the searches)", "Proved for all inputs (Verus): parse_antenna is the fold of the lines of the block, each label setting what it must from its own columns, and parse_phase_pattern, over any number of lines, frequencies and values; is_valid, antex_valid_calibrations and the two searches of a phase centre offset: the offset of the first valid antenna of that satellite, type or serial number. The rest is bounded: generated documents. The calibration date is only generated with a day equal to the year (known finding p17_date), and calibrations without an end of validity are not (known finding p17_open_validity).", verus=["antex", "antex_query"])

P("P14", "Signal combinations, multipath and differences follow their definitions",
  "In an observation record, the combination of two signals (geometry free, ionosphere free, wide lane, narrow lane, Melbourne-Wubbena) is, for every epoch, satellite and pair of signals that define it, the value its definition gives from the two observations of that same epoch and satellite and the frequencies of their carriers, whatever the order they are printed in; no combination mixes epochs, satellites, codes with phases, or a signal with itself, and none is lost. The multipath bias of every code follows its definition from the code and the phases of the same epoch, in every epoch, the last one included. The difference of two records is, for every epoch, satellite and observable they share, the difference of the two values, and leaves the other values as they are.",
  ["inputs"], "every record of the generator: up to 5 epochs, satellites of GPS, Galileo, BeiDou and QZSS, any set and order of signals, any values, missing signals, epoch flags", "the tests compare combinations of recorded files, each epoch holding the same signals, to values the same functions gave",
  ["src/observation/rinex/feature.rs", "src/observable.rs", "src/carrier.rs", "src/lib.rs"],
  [("signals_combination, signals_multipath", "src/observation/rinex/feature.rs"), ("is_l1_pivot, carrier", "src/observable.rs"), ("substract", "src/lib.rs")], ["signals_combination, signals_multipath, substract API"],
  ["Rinex::{signals_combination,signals_multipath,substract}", "Observable::{is_l1_pivot,carrier,is_same_type}"],
  "exploration", VERUS + " (combinations and multipath over the reals); " + BOUNDED + " (floating point values from whole documents, frequencies, differences)", "Proved for all records (Verus, f64 taken as a real, frequencies as an unspecified table): every entry signals_combination and signals_multipath give is the definition applied to observations of one epoch and vehicle, and every epoch and signal that defines one has its entry; is_l1_pivot, frequency and wavelength follow their definition; after a substraction of observation, DORIS or meteo records every value is that of the left record less that of the same epoch and signal on the right, and is untouched where the right has none. The rest is a bounded search: every value is compared, within rounding, with the definition evaluated from the printed observations and the frequencies of the standard; differences are compared exactly. Glonass (its channel is not in the record) and IRNSS are left out.", verus=["combinations", "substract"])
P("P18", "Iterators and sampling statistics describe the record, and nothing else",
  "The iterators over a record give exactly the items they name, in order, each with its own epoch, satellite and value: observations of one physics, receiver clock, epochs flagged good or bad, signals with a loss of lock or a cycle slip, meteo measurements of one kind, TEC and RMS maps, satellites, observables, ephemerides of the navigation frames. The sampling statistics describe the epochs of the record: the first and last epoch, the duration, the histogram of the intervals, the dominant interval, whether the sampling is steady, and as gaps exactly the pairs of successive epochs further apart than the tolerance, or the dominant interval when none is given. An epoch recorded under several keys counts once in observation, meteo, DORIS and IONEX files; the epochs of a navigation file are those of its frames, one each.",
  ["inputs"], "every record (iterators and statistics under contract), every document of the generator (all of them)", "tests count the items of recorded files and take statistics of steadily sampled ones",
  ["src/sampling.rs", "src/lib.rs", "src/iterators.rs", "src/observation/rinex/mod.rs", "src/observation/rinex/feature.rs", "src/meteo/rinex/feature.rs", "src/ionex/rinex/feature.rs", "src/navigation/rinex/mod.rs"],
  [("data_gaps, sampling_histogram", "src/sampling.rs"), ("*_observations_iter", "src/observation/rinex/mod.rs"), ("phase_range_tracking_ok_iter, epoch_anomalies", "src/observation/rinex/feature.rs"), ("epoch_iter", "src/lib.rs")], ["iterators and sampling API of Rinex"],
  ["Rinex::{pseudo_range,phase_range,doppler,ssi,clock}_observations_iter", "Rinex::{signal_observations_sampling_ok,pseudo_range_sampling_ok,phase_range_sampling_ok,phase_range_tracking_ok}_iter", "Rinex::{phase_cycle_slip_events,phase_half_full_cycle_slip_events,epoch_anomalies}", "Rinex::{temperature,pressure,moisture_rate,wind_speed,wind_direction,accumulated_rain,zenith_total_delay,zenith_dry_delay,zenith_wet_delay}_iter", "Rinex::{first_epoch,last_epoch,duration,timeseries,data_gaps,steady_sampling,sampling_histogram,dominant_sampling_interval}", "Rinex::{ionex_rms_tec_maps_iter,tec_map_borders,ionex_altitude_range_km}", "Rinex::epoch_iter"],
  "exploration", VERUS + " (the filtering iterators, gaps and statistics); " + BOUNDED + " (all of them on whole records)", "Proved for all records (Verus): each of 31 iterators and statistics is the filter of the sequence it is drawn from that its name tells, over any number of items, the gaps being exactly the successive epochs further apart than the limit. The iterators over navigation frames (ephemerides, earth orientation, time offsets, ionosphere models of each kind, clock states, message types) give exactly the frames of their kind and never panic on a record whose keys tell the kind of their frames. The sampling histogram counts every interval of the epochs once under its own length, the dominant interval is one that no other outnumbers, and the sampling is steady exactly when all intervals are equal, for any number of epochs. The sequences of the whole record they are drawn from are a bounded search: generated documents.", verus=["record_iters", "sampling", "nav_iters"])

# ---------------------------------------------------------------- not claimed
def NA(id, title, statement, over, quant, why, files, mech, reason):
    NOT_APPLICABLE.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, reason=reason))

NA("P40", "Merging two files is the union of their contents",
   "Merging two files of the same type gives a file that holds every epoch and value of both.", ["inputs"], "every pair of files", "tests merge a few recorded pairs",
   ["src/observation/rinex/feature.rs"], [("Merge", "src")], "the qc feature depends on a git dependency that cannot be resolved offline: the code is not compiled by the baseline build, so nothing of it can be verified or run here")
NA("P41", "Masking and splitting select exactly what they describe",
   "A mask keeps exactly the epochs, satellites and observables it describes, and splitting at an epoch partitions the record.", ["inputs"], "every file and mask", "tests apply a few masks",
   ["src/lib.rs"], [("Masking, Split", "src")], "the processing feature depends on a git dependency that cannot be resolved offline: the code is not compiled by the baseline build")
NA("P42", "Satellite positions follow the broadcast ephemeris model",
   "The position computed from a broadcast ephemeris satisfies the Keplerian model of the interface specification.", ["inputs"], "every ephemeris", "tests compare a few positions",
   ["src/navigation/ephemeris.rs"], [("kepler2position", "src/navigation/ephemeris.rs")], "the model is transcendental floating point (sin, cos, sqrt, atan2 and a fixed point iteration); no deductive verifier here has a theory of it, and an error bound proof is outside contract verification")
NA("P43", "RTCM and BINEX conversions preserve the data",
   "Converting to and from RTCM or BINEX preserves ephemerides and observations.", ["inputs"], "every message", "no test",
   ["src/rtcm", "src/binex"], [("RTCM2RNX, BIN2RNX", "src")], "BINEX needs a git dependency that is not available; the RTCM conversion is an unimplemented stub")
