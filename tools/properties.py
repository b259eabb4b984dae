"""Single source of properties.jsonl and MANIFEST.json (python3 tools/properties.py)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
U = "src/pyuvdata/uvdata/uvdata.py"
ALL = []


def p(pid, title, statement, over, text, why, files, mech, technique, note, observe=()):
    assert len(title) <= 80, (pid, len(title))
    ALL.append(dict(
        row={
            "id": pid, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
            "anchors": {
                "files": files,
                "mechanism": [{"name": a, "where": b} for a, b in mech],
                "observe_at": list(observe), "hook_needed": None,
            },
        },
        technique=technique, note=note,
    ))


NOTE = ("Generated-input search with a fixed seed; says nothing about inputs outside the "
        "generator's grammar. Trusts numpy, astropy, h5py, Hypothesis and the reference "
        "model in /verif/vp.")

p("C01", "UVData selection keeps exactly what the criteria describe",
  "Selecting on any combination of antennas, baselines, times, LSTs, frequencies, "
  "polarizations, phase centers or baseline-time indices leaves exactly the records that "
  "satisfy every given criterion, in their original order, with every data value and every "
  "piece of per-record, per-channel and per-antenna metadata still attached to the same "
  "physical record. All counts and axis-order metadata describe the result, unselected axes "
  "are untouched, a selection that matches nothing is refused, and a selection that is not "
  "in place does not change the original.",
  ["inputs", "configurations"],
  "every data set (layout, antenna numbering, windows, polarisations, phase centers) and "
  "every combination of selection criteria",
  "Tests select on a few fixed files with a handful of criteria; interactions of criteria "
  "with layouts, flex-pol and optional arrays are not reached.",
  [U, "src/pyuvdata/utils/bls.py", "src/pyuvdata/utils/times.py"],
  [("criteria to indices", U + " _select_preprocess"),
   ("index application over all parameters", U + " _select_by_index")],
  "property-based testing, brute-force mask oracle", NOTE, ["UVData.select"])

p("C02", "Splitting a UVData object and recombining it gives it back",
  "If a data set is split along the baseline-time, frequency or polarization axis (or two of "
  "them) into parts and the parts are combined with the addition or the concatenation method in any "
  "order, the result holds exactly the original records: each data, flag and sample value "
  "and each piece of metadata at the same (time, baseline, frequency, polarization). "
  "Combining does not change the inputs, and adding parts that contain the same record "
  "twice or have incompatible metadata is refused.",
  ["inputs", "histories", "configurations"],
  "every data set, every partition along one or two axes, every order of combination",
  "Tests split a few files into two fixed halves; interleavings, uneven parts, several "
  "windows and combination orders are not enumerated.",
  [U], [("union of axes", U + " __add__"), ("concatenation", U + " fast_concat"),
        ("catalog merge", U + " _consolidate_phase_center_catalogs")],
  "property-based testing, split/recombine round trip", NOTE,
  ["UVData.__add__", "UVData.__iadd__", "UVData.fast_concat"])

p("C03", "Reordering and conjugating UVData loses nothing and achieves the order",
  "Reordering the baseline-time, frequency or polarization axis changes only the order: every "
  "record keeps its data, flags, sample counts and metadata, and the resulting order is the "
  "one that was asked for and recorded. Conjugating baselines swaps the antennas, negates "
  "the uvw, conjugates the data and exchanges the cross-polarizations of data, flags and "
  "sample counts for exactly the requested baselines, so conjugating twice is the identity.",
  ["inputs", "configurations", "histories"],
  "every data set and every supported ordering, channel/window order and conjugation option",
  "Tests check a few orders on regular files; shuffled, irregular or multi-window layouts "
  "and flags that differ between polarisations are not reached.",
  [U], [("blt ordering", U + " reorder_blts"), ("frequency ordering", U + " reorder_freqs"),
        ("polarization ordering", U + " reorder_pols"),
        ("conjugation", U + " conjugate_bls")],
  "property-based testing, permutation-invariant canonical form as oracle", NOTE,
  ["UVData.reorder_blts", "UVData.reorder_freqs", "UVData.reorder_pols",
   "UVData.conjugate_bls"])

p("C04", "Keyed access to UVData is correct after any history of changes",
  "Asking a data set for the data, flags, sample counts, times or LSTs of a baseline (and "
  "polarization) always returns exactly the matching records currently in the object, "
  "conjugated when only the opposite baseline direction is stored, whatever sequence of "
  "operations and earlier lookups came before. Writing values through the keyed setters "
  "changes exactly those records, and later lookups return what was written.",
  ["histories", "inputs"],
  "every sequence of lookups, setters, selections, reorderings, conjugations and additions "
  "on every data set",
  "Tests look up keys on freshly read files; stale cached indices or layout metadata only "
  "show up after a history.",
  [U], [("key lookup and caches", U + " _key2inds, antpair2ind"),
        ("slicing", "src/pyuvdata/utils/tools.py")],
  "stateful property-based testing against a dictionary model", NOTE,
  ["UVData.get_data", "UVData.set_data", "UVData.antpair2ind"])

p("C05", "Phasing is invertible, path independent and geometrically consistent",
  "Phasing data to any phase center and back to its original phase centers (or unprojecting "
  "it) restores the visibilities and uvws, and the result of phasing depends only on the final "
  "phase center, not on the ones visited before. The w-terms applied to the data are those of "
  "the uvw change, amplitudes, flags and sample counts never change, and the uvws equal those "
  "computed from the antenna positions for the current phase center.",
  ["inputs", "histories"],
  "every data set, subset of records and chain of phase centers (sidereal in any frame, "
  "ephemeris, driftscan, unprojected)",
  "Tests phase a few files to one or two positions; chains, mixed phase-center types and "
  "partial phasing are not enumerated.",
  [U, "src/pyuvdata/utils/phasing.py", "src/pyuvdata/utils/phasing.pyx"],
  [("phasing", U + " phase"), ("uvw from antenna positions", U + " set_uvws_from_antenna_positions"),
   ("uvw rotation", "src/pyuvdata/utils/phasing.py calc_uvw"),
   ("apparent coordinates", U + " _set_app_coords_helper")],
  "metamorphic property-based testing plus an independent uvw model", NOTE,
  ["UVData.phase", "UVData.unproject_phase", "UVData.set_uvws_from_antenna_positions"])

p("C06", "Phase center catalogs stay consistent under every catalog operation",
  "Whatever sequence of catalog operations (phasing, renaming, splitting, merging, renumbering, "
  "clearing unused entries, selecting, adding data sets) is applied, every record points at a "
  "catalog entry describing the same position it had before the bookkeeping operation. "
  "No entry is lost while in use, no two entries are conflated, and the recorded number of "
  "phase centers equals the size of the catalog.",
  ["histories", "inputs"],
  "every sequence of catalog operations on every catalog",
  "Tests exercise each operation on one prepared catalog.",
  [U, "src/pyuvdata/utils/phase_center_catalog.py"],
  [("catalog operations", U + " _add_phase_center, rename_phase_center, split_phase_center, "
    "merge_phase_centers, _update_phase_center_id"),
   ("catalog lookup", "src/pyuvdata/utils/phase_center_catalog.py look_in_catalog, look_for_name")],
  "stateful property-based testing with a per-record model", NOTE,
  ["UVData.phase_center_catalog", "UVData.rename_phase_center", "UVData.split_phase_center",
   "UVData.merge_phase_centers"])

p("C07", "Time resampling conserves the weighted data it averages or splits",
  "Averaging in time yields, for every baseline, records whose visibilities are the "
  "(sample-count and integration-time weighted) means of the unflagged inputs they cover, whose integration times add "
  "up to those of the inputs and whose times lie inside the covered span; splitting in time "
  "conserves total integration time and copies the data. No record is used "
  "twice or lost except trailing partial ones the caller asked to drop, and baselines that "
  "need no resampling are unchanged.",
  ["inputs", "configurations"],
  "every data set, target integration time or factor and option",
  "Tests average a few regular files by two; varying integration times, gaps and partial "
  "groups are not enumerated.",
  [U], [("downsample", U + " downsample_in_time"), ("upsample", U + " upsample_in_time"),
        ("both", U + " resample_in_time")],
  "property-based testing against an independent averaging model", NOTE,
  ["UVData.downsample_in_time", "UVData.upsample_in_time", "UVData.resample_in_time"])

p("C08", "Frequency averaging equals the mean over the channels it merges",
  "Averaging channels by a factor merges, within each spectral window separately, consecutive "
  "channels into one whose visibility is the mean of the unflagged inputs (all inputs when all "
  "are flagged, weighted or summed as the options say), whose "
  "frequency is the mean and whose width is the total of the merged channels. Flags, sample "
  "counts and partial groups at the end follow the documented rules, and nothing is averaged "
  "across windows.",
  ["inputs", "configurations"],
  "every data set, factor and option",
  "Tests average one or two files with fixed factors.",
  [U], [("frequency_average", U + " frequency_average")],
  "property-based testing against an independent averaging model", NOTE,
  ["UVData.frequency_average"])

p("C09", "Redundant baseline groups partition the array and compression inverts",
  "The redundant groups computed for an array contain every baseline exactly once, members of "
  "a group agree with the group vector within the tolerance after the reported conjugations, and "
  "relabelling or reordering antennas gives the same partition. Compressing to groups "
  "by selection or averaging and inflating again reproduces redundant data on all original "
  "baselines, with averages equal to the weighted mean of the group.",
  ["inputs", "configurations"],
  "every antenna layout, tolerance, conjugation choice and data set",
  "Tests use two array layouts.",
  [U, "src/pyuvdata/utils/redundancy.py"],
  [("grouping", "src/pyuvdata/utils/redundancy.py"),
   ("compress", U + " compress_by_redundancy"), ("inflate", U + " inflate_by_redundancy")],
  "property-based testing, partition invariants and round trip", NOTE,
  ["utils.redundancy", "UVData.compress_by_redundancy", "UVData.inflate_by_redundancy"])

p("C10", "UVH5 files give back what was written, whole or in pieces",
  "Writing a data set to a UVH5 file (any data type precision that holds the values, "
  "compression or chunking) and "
  "reading it back yields an equal data set, metadata and phase centers included. "
  "Initialising a file and writing it in parts in any order gives the same content as writing "
  "it at once, fast metadata access reports the same values as a full read, and a write "
  "without permission to overwrite never changes an existing file.",
  ["inputs", "histories", "configurations"],
  "every data set and write option, every split of the data into parts and order of writing",
  "Tests round-trip fixed files.",
  ["src/pyuvdata/uvdata/uvh5.py", "src/pyuvdata/utils/io/hdf5.py"],
  [("writer", "src/pyuvdata/uvdata/uvh5.py write_uvh5, write_uvh5_part"),
   ("metadata reader", "src/pyuvdata/uvdata/uvh5.py FastUVH5Meta")],
  "property-based testing, write/read round trip", NOTE,
  ["UVData.write_uvh5", "UVData.read", "UVData.write_uvh5_part", "FastUVH5Meta"])

p("C11", "UVFITS files give back what was written",
  "Writing a data set that the format can hold to a UVFITS file and reading it back yields the same visibilities, flags, "
  "sample counts, times, uvws, baselines, frequencies, polarizations, antenna table and phase "
  "centers for every record, up to the precision the format stores.",
  ["inputs", "configurations"], "every data set that UVFITS can hold",
  "Tests round-trip fixed files.",
  ["src/pyuvdata/uvdata/uvfits.py", "src/pyuvdata/utils/io/fits.py"],
  [("writer", "src/pyuvdata/uvdata/uvfits.py write_uvfits"),
   ("reader", "src/pyuvdata/uvdata/uvfits.py read_uvfits")],
  "property-based testing, write/read round trip", NOTE,
  ["UVData.write_uvfits", "UVData.read"])

p("C12", "MIRIAD files give back what was written",
  "Writing a data set that the format can hold to a MIRIAD dataset and reading it back yields the same visibilities, flags, "
  "sample counts, times, uvws, baselines, frequencies, polarizations, antenna table and phase "
  "centers for every record, up to the precision the format stores.",
  ["inputs", "configurations"], "every data set that MIRIAD can hold",
  "Tests round-trip fixed files.",
  ["src/pyuvdata/uvdata/miriad.py", "src/pyuvdata/uvdata/aipy_extracts.py"],
  [("writer", "src/pyuvdata/uvdata/miriad.py write_miriad"),
   ("reader", "src/pyuvdata/uvdata/miriad.py read_miriad")],
  "property-based testing, write/read round trip", NOTE,
  ["UVData.write_miriad", "UVData.read"])

p("C13", "Measurement sets give back what was written",
  "Writing a data set that the format can hold to a CASA measurement set and reading it back yields the same visibilities, "
  "flags, sample counts, times, uvws, baselines, frequencies, polarizations, antenna table and "
  "phase centers for every record, up to the precision the format stores.",
  ["inputs", "configurations"], "every data set that a measurement set can hold",
  "Tests round-trip fixed files.",
  ["src/pyuvdata/uvdata/ms.py", "src/pyuvdata/utils/io/ms.py"],
  [("writer", "src/pyuvdata/uvdata/ms.py write_ms"),
   ("reader", "src/pyuvdata/uvdata/ms.py read_ms")],
  "property-based testing, write/read round trip", NOTE, ["UVData.write_ms", "UVData.read"])

p("C14", "Reading part of a file equals reading it all and selecting",
  "For every file format that supports partial reads, reading a file with selection criteria "
  "(for UVH5 with any multidimensional indexing choice or data threshold) gives the same data set as reading the "
  "whole file and then selecting with the same criteria. Reading only the metadata and then "
  "the data gives the same as reading both at once, and reading several files equals combining "
  "them.",
  ["inputs", "configurations"],
  "every file, selection and read option",
  "Tests compare a few selections on fixed files.",
  ["src/pyuvdata/uvdata/uvh5.py", "src/pyuvdata/uvdata/uvfits.py", U,
   "src/pyuvdata/utils/io/hdf5.py", "src/pyuvdata/uvdata/miriad.py"],
  [("partial hdf5 reads", "src/pyuvdata/uvdata/uvh5.py _get_data"),
   ("hdf5 slicing", "src/pyuvdata/utils/io/hdf5.py _index_dset"),
   ("partial uvfits reads", "src/pyuvdata/uvdata/uvfits.py _get_data")],
  "differential property-based testing, partial read against read-then-select", NOTE,
  ["UVData.read"])

p("C15", "Equality, copies and non-in-place operations respect value semantics",
  "An object equals its copy, equality is symmetric, and changing any one element of any "
  "required attribute beyond its tolerance makes the two objects unequal, while differences "
  "below tolerance do not. Copies share no mutable state, and an operation that is not in "
  "place leaves its inputs exactly as they were.",
  ["inputs", "histories"],
  "every object of the four main classes, every single-attribute change, every non-in-place operation",
  "Tests alter a few attributes of one object.",
  ["src/pyuvdata/uvbase.py", "src/pyuvdata/parameter.py"],
  [("equality", "src/pyuvdata/uvbase.py __eq__"),
   ("parameter equality", "src/pyuvdata/parameter.py __eq__"),
   ("copy", "src/pyuvdata/uvbase.py copy")],
  "property-based mutation of generated objects", NOTE, ["UVBase.__eq__", "UVBase.copy"])

p("C16", "UVData objects stay valid and consistent under any operation sequence",
  "After any sequence of public operations that each succeed, the data set passes its own "
  "consistency check, all counts and array shapes agree with each other, and any "
  "axis-order or rectangularity metadata it records is true. The data "
  "of every surviving record is what an independent per-record model of the same "
  "operations predicts.",
  ["histories"],
  "every finite sequence of select, reorder, conjugate, phase, add, concatenate, copy, frequency "
  "averaging, catalog, file and attribute-setting operations",
  "Tests apply one operation at a time to clean inputs.",
  [U], [("all public operations", U), ("consistency check", U + " check")],
  "stateful property-based testing against a record-level model", NOTE,
  ["UVData public methods", "UVData.check"])

p("C17", "UVCal selection, combination, reordering and conversion keep every solution",
  "Selecting, splitting and recombining (in any order), and reordering calibration solutions "
  "leaves every gain, delay, flag and quality value attached to the same antenna, "
  "time, frequency or window and Jones element. Converting delays to gains produces the gains "
  "those delays mean, and non-matching or conflicting solutions are refused.",
  ["inputs", "histories", "configurations"],
  "every calibration object (gain, delay, wide-band, unflagged, multi-window) and operation",
  "Tests use a few fixed files and halves.",
  ["src/pyuvdata/uvcal/uvcal.py"],
  [("select", "src/pyuvdata/uvcal/uvcal.py select"), ("add", "src/pyuvdata/uvcal/uvcal.py __add__"),
   ("fast_concat", "src/pyuvdata/uvcal/uvcal.py fast_concat"),
   ("reorder", "src/pyuvdata/uvcal/uvcal.py reorder_*"),
   ("convert_to_gain", "src/pyuvdata/uvcal/uvcal.py convert_to_gain")],
  "property-based testing against a keyed dictionary model", NOTE, ["UVCal"])

p("C18", "Calibration files give back what was written",
  "Writing calibration solutions that the format can hold to calfits, calh5 or measurement-set "
  "calibration files and "
  "reading them back, whole or with a selection, yields the same solutions, flags, qualities "
  "and metadata as the original (after the same selection).",
  ["inputs", "configurations"], "every calibration object each format can hold",
  "Tests round-trip fixed files.",
  ["src/pyuvdata/uvcal/calfits.py", "src/pyuvdata/uvcal/calh5.py", "src/pyuvdata/uvcal/ms_cal.py"],
  [("calfits", "src/pyuvdata/uvcal/calfits.py"), ("calh5", "src/pyuvdata/uvcal/calh5.py"),
   ("ms", "src/pyuvdata/uvcal/ms_cal.py")],
  "property-based testing, write/read round trip", NOTE, ["UVCal.read", "UVCal.write_calfits",
                                                          "UVCal.write_calh5", "UVCal.write_ms_cal"])

p("C19", "Applying calibration and flags touches each visibility exactly right",
  "Calibrating a data set divides each visibility by the first antenna's gain and the conjugate of the second antenna's (or multiplies, as the gain convention and undo option say) taken at its own time, "
  "frequency and polarization, propagates flags as documented and leaves all else unchanged, "
  "so calibrating and undoing it restores the data. Applying a flag object "
  "sets exactly the union of flags on the matching records.",
  ["inputs", "configurations"],
  "every pair of data and calibration objects with compatible axes, every option",
  "Tests check one or two visibilities of fixed files.",
  ["src/pyuvdata/utils/uvcalibrate.py", "src/pyuvdata/utils/apply_uvflag.py"],
  [("uvcalibrate", "src/pyuvdata/utils/uvcalibrate.py"),
   ("apply_uvflag", "src/pyuvdata/utils/apply_uvflag.py")],
  "property-based testing against a per-visibility model", NOTE,
  ["utils.uvcalibrate", "utils.apply_uvflag"])

p("C20", "Flag objects keep flags and metrics attached to their records",
  "Selecting, splitting and recombining, reordering, converting between waterfall, baseline and antenna "
  "types and between flag and metric modes, and collapsing polarizations gives, at every time, "
  "baseline or antenna, frequency and polarization, exactly the flag, metric or weight that the "
  "documented rule (copy, union, threshold, weighted mean) prescribes.",
  ["inputs", "histories", "configurations"], "every flag object and sequence of operations",
  "Tests use a few fixed objects.",
  ["src/pyuvdata/uvflag/uvflag.py", "src/pyuvdata/utils/array_collapse.py"],
  [("conversions", "src/pyuvdata/uvflag/uvflag.py to_waterfall, to_baseline, to_antenna"),
   ("select/add", "src/pyuvdata/uvflag/uvflag.py select, __add__")],
  "property-based testing against a keyed dictionary model", NOTE, ["UVFlag"])

p("C21", "Flag files give back what was written",
  "Writing a flag object of any type and mode to a file and reading it back yields an equal "
  "object, and a write without permission to overwrite never changes an existing file.",
  ["inputs", "configurations"], "every flag object and write option",
  "Tests round-trip a few objects.",
  ["src/pyuvdata/uvflag/uvflag.py"],
  [("read/write", "src/pyuvdata/uvflag/uvflag.py read, write")],
  "property-based testing, write/read round trip", NOTE, ["UVFlag.read", "UVFlag.write"])

p("C22", "Beam selection, combination and files keep every beam value",
  "Selecting from and splitting and recombining beams (in any order), and writing them to beam "
  "FITS files and reading them back (whole or with a selection), keeps every value attached to the same axis, feed or "
  "polarization, frequency and sky position, with all counts and metadata describing the "
  "result.",
  ["inputs", "histories", "configurations"],
  "every beam (E-field, power, regular grid, HEALPix) and operation",
  "Tests use fixed files and halves.",
  ["src/pyuvdata/uvbeam/uvbeam.py", "src/pyuvdata/uvbeam/beamfits.py"],
  [("select/add", "src/pyuvdata/uvbeam/uvbeam.py select, __add__"),
   ("files", "src/pyuvdata/uvbeam/beamfits.py")],
  "property-based testing, brute-force selection and round trips", NOTE, ["UVBeam"])

p("C23", "Beam interpolation and conversions agree with the sampled beam",
  "Interpolating a beam at its own sample points returns the samples, results do not depend on "
  "how query points are grouped, ordered or on reuse of earlier interpolation state, and smooth beams are "
  "reproduced between samples. Converting E-fields to power and normalising follow their "
  "definitions at every sample.",
  ["inputs", "histories"], "every beam, interpolation option and set of query points",
  "Tests interpolate a few beams at fixed points.",
  ["src/pyuvdata/uvbeam/uvbeam.py"],
  [("interp", "src/pyuvdata/uvbeam/uvbeam.py interp"),
   ("efield_to_power", "src/pyuvdata/uvbeam/uvbeam.py efield_to_power"),
   ("peak_normalize", "src/pyuvdata/uvbeam/uvbeam.py peak_normalize")],
  "property-based testing with analytic beams as oracle", NOTE, ["UVBeam.interp"])

p("C24", "Coordinate, baseline-number and polarization conversions are exact inverses",
  "Converting positions between geocentric, geodetic, local and rotated frames and back, baselines "
  "between antenna pairs and baseline numbers, and polarizations and Jones elements "
  "between numbers and names returns the starting value for every valid input. The map from antenna pairs to baseline numbers "
  "is one to one within a numbering convention (the convention used for an array of pairs follows from its largest "
  "antenna number), baseline numbers of every convention decode to their pair, also when mixed in one array, and "
  "inputs outside the valid range are refused. Decoding, positions, names and sidereal times do not depend on "
  "whether values are given one at a time or in arrays, repeated or in what order.",
  ["inputs"], "every valid position, antenna pair, polarisation and frame",
  "Tests check a few reference values.",
  ["src/pyuvdata/utils/coordinates.py", "src/pyuvdata/utils/bls.py", "src/pyuvdata/utils/pol.py",
   "src/pyuvdata/utils/coordinates.pyx", "src/pyuvdata/utils/bls.pyx", "src/pyuvdata/utils/times.py"],
  [("coordinates", "src/pyuvdata/utils/coordinates.py"), ("baselines", "src/pyuvdata/utils/bls.py"),
   ("polarizations", "src/pyuvdata/utils/pol.py"), ("LST", "src/pyuvdata/utils/times.py")],
  "property-based testing, inverse pairs and independent formulas", NOTE, ["pyuvdata.utils"])

p("C25", "Flexible-polarization and flexible-Jones conversion loses no data",
  "Converting a data set or calibration object between the representation with one "
  "polarization per spectral window and the one with a full polarization axis keeps every "
  "value, flag and sample count at its polarization, window and frequency. Converting there "
  "and back gives the original.",
  ["inputs", "configurations"], "every data set or calibration object and assignment of polarisations to windows",
  "Tests convert one or two files.",
  [U, "src/pyuvdata/uvcal/uvcal.py"],
  [("data", U + " convert_to_flex_pol, remove_flex_pol"),
   ("cal", "src/pyuvdata/uvcal/uvcal.py convert_to_flex_jones, remove_flex_jones")],
  "property-based testing, round trip and keyed model", NOTE,
  ["UVData.remove_flex_pol", "UVCal.remove_flex_jones"])

p("C26", "Visibility arithmetic and equalisation follow their definitions",
  "Summing or differencing two data sets gives the element-wise sum or difference and leaves everything "
  "else as in the first; data sets that describe different records or carry different flags are refused unless the "
  "difference is explicitly overridden, and then the first object's values are kept. Removing equalisation coefficients and "
  "normalising by autocorrelations scale each visibility by exactly the factors of its own two "
  "antennas, frequency and time, and normalising then undoing it (where provided) restores the data.",
  ["inputs", "configurations"], "every pair of data sets and coefficients",
  "Tests check single files.",
  [U], [("sum and difference", U + " sum_vis, diff_vis, __sub__"),
        ("equalisation", U + " remove_eq_coeffs"),
        ("autos", U + " normalize_by_autos")],
  "property-based testing against element-wise models", NOTE,
  ["UVData.sum_vis", "UVData.diff_vis", "UVData.remove_eq_coeffs", "UVData.normalize_by_autos"])

p("C27", "Objects built from scratch contain exactly what was asked for",
  "A telescope, data set, calibration or beam object built from arrays contains each given value at the "
  "record it was given for, whatever the order and form (lists, arrays, dictionaries, outer products) in which it was given, and "
  "passes its own check. Derived quantities (LSTs, baseline numbers, counts) match independent "
  "computation, and inconsistent input is refused.",
  ["inputs", "configurations"], "every constructor argument combination",
  "Tests build a few objects.",
  ["src/pyuvdata/uvdata/initializers.py", "src/pyuvdata/telescopes.py",
   "src/pyuvdata/uvcal/initializers.py", "src/pyuvdata/uvbeam/initializers.py"],
  [("UVData.new", "src/pyuvdata/uvdata/initializers.py"),
   ("Telescope.new", "src/pyuvdata/telescopes.py")],
  "property-based testing, constructor model", NOTE, ["UVData.new", "Telescope.new", "UVCal.new",
                                                     "UVBeam.new"])

p("C28", "MIR metadata tables answer queries and edits like a relational table",
  "Selecting, sorting, indexing, updating and combining MIR metadata tables gives exactly the "
  "rows and values that a plain relational model gives, and undoing an edit restores the original. "
  "Packing visibility data into the file format and unpacking it again returns the values up to the "
  "format's precision.",
  ["inputs", "histories"], "every table content and sequence of queries and edits",
  "Tests use one file's tables.",
  ["src/pyuvdata/uvdata/mir_meta_data.py", "src/pyuvdata/uvdata/mir_parser.py"],
  [("tables", "src/pyuvdata/uvdata/mir_meta_data.py MirMetaData"),
   ("packing", "src/pyuvdata/uvdata/mir_parser.py")],
  "stateful property-based testing against a list-of-rows model", NOTE, ["MirMetaData"])


def built(pid):
    return os.path.exists(os.path.join(HERE, "props", pid.lower() + ".py"))


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for a in ALL:
            f.write(json.dumps(a["row"]) + "\n")
    checks, na = [], []
    for a in ALL:
        pid = a["row"]["id"]
        if built(pid):
            checks.append({
                "property": pid, "quick_cmd": f"./check {pid}",
                "thorough_cmd": f"./check {pid} --tier thorough",
                "evidence_file": f"evidence/{pid}.json", "technique": a["technique"],
                "level": "exploration", "level_note": a["note"],
            })
        else:
            na.append({"property": pid, "reason": "check not built yet"})
    man = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo. ./check <id> --replay <file> replays one case."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
