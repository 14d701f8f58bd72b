#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))

NB = "The repository's own tests for this part only use a few sample files (and cannot even be built without the code-table submodules); "

# ---------------------------------------------------------------- container
prop("C01", "Opening a GRIB2 stream indexes exactly the sections it contains",
 "Opening any well-formed GRIB2 byte stream lists exactly its sections, in order, each with its number, absolute byte offset and size, and exactly its submessages, each numbered (message, submessage) and associated with the section contents that govern it: its own Sections 4-7, its message's Sections 0 and 1, and the most recent Sections 2 and 3 of that message. Bytes before, between or after messages that do not contain the start marker are skipped without disturbing this.",
 ["inputs"], "every sequence of messages, each with any number of submessages that repeat or inherit Sections 2 and 3, any section payload contents and sizes, any filler of any length between messages",
 NB + "they use at most two concatenated messages and never long filler, so search-window boundaries and inheritance across submessages are not reached.",
 ["src/reader.rs", "src/parser.rs", "src/context.rs"],
 [("section stream with running offset", "src/reader.rs Grib2SectionStream"), ("submessage index stream", "src/parser.rs Grib2SubmessageIndexStream"), ("start-marker search window", "src/reader.rs read_sect0")],
 ["Grib2::sections", "Grib2::iter"])

prop("C02", "Only section sequences in the order GRIB2 allows are accepted",
 "A sequence of sections is accepted exactly when every message is Section 0, Section 1, then one or more groups of optional 2 (followed by 3), optional 3, then 4, 5, 6, 7 with a grid definition seen before the first 4, and a final Section 8; anything else is an error, reported after the complete submessages that precede it. No submessage is ever assembled from sections that are out of order, missing, or taken from another message.",
 ["inputs", "histories"], "every sequence of section numbers 0-8 and of upstream read errors, both as an abstract section stream and as real bytes",
 "The unit tests list about a dozen hand-picked sequences; acceptance is a property of all sequences of arbitrary length.",
 ["src/parser.rs"], [("section order state machine", "src/parser.rs Grib2SubmessageValidator")], ["Grib2SubmessageStream", "Grib2::read"])

prop("C03", "A truncated GRIB2 stream is reported, never silently accepted",
 "Cutting a well-formed stream anywhere inside a message after its 16-byte indicator makes opening it fail with an error. Cutting at a message boundary, or inside the next message's indicator, yields exactly the messages that are complete.",
 ["crash_points", "inputs"], "every cut position of every generated multi-message stream (each interrupted download or partial write)",
 "The tests cut one file at two or three positions; the claim is about every byte position and every layout.",
 ["src/reader.rs", "src/parser.rs"], [("short read checks", "src/reader.rs check_size!"), ("unexpected end of data", "src/parser.rs new_unexpected_end_of_data_err")], ["from_slice", "from_reader"])

prop("C04", "Results do not depend on how the underlying reader delivers bytes",
 "Parsing and decoding give the same sections, submessages and values whatever sizes the underlying reader returns per call, whether or not it reports interruptions to be retried, and whatever buffering is put in front of it. If the reader is first positioned after leading bytes, the result is the same with every offset being the absolute position in the stream.",
 ["schedules", "inputs", "fault_sequences"], "every legal read-size schedule (including one byte at a time and interruptions), every buffer capacity and every start position, over generated streams",
 "The tests read from an in-memory cursor or a file that always fills the buffer; other legal delivery schedules never occur.",
 ["src/reader.rs"], [("reads of section headers and indicators", "src/reader.rs SeekableGrib2Reader"), ("initial position", "src/reader.rs reset_pos")], ["from_reader", "Grib2SubmessageDecoder"])

prop("C05", "An I/O error while parsing or decoding is always reported",
 "If the underlying reader fails at any point while a stream is opened or a submessage is loaded for decoding, that operation returns an error; it never panics and never returns a result built from incomplete data. After a failed load, retrying with a working reader gives the correct values.",
 ["fault_sequences"], "a fault at every read and every seek position of the open and load operations, over generated streams",
 "No test injects an I/O fault.",
 ["src/reader.rs", "src/parser.rs", "src/decoder.rs"], [("io::Error to ParseError conversion", "src/error.rs"), ("payload reads", "src/reader.rs read_sect_payload_as_slice")], ["from_reader", "Grib2SubmessageDecoder::from"])

prop("C06", "Arbitrary bytes never crash parsing or any metadata accessor",
 "For every byte sequence, opening it returns success or an error without panicking or looping forever, and if it succeeds, every accessor, description and grid query on every submessage also returns normally. Section lengths and template contents that contradict each other are reported or yield absent values.",
 ["inputs"], "every byte string: random bytes, and valid streams with bytes overwritten, inserted, removed or length fields made inconsistent",
 "Tests feed valid files; malformed lengths and short templates are an unbounded space.",
 ["src/reader.rs", "src/parser.rs", "src/context.rs", "src/datatypes/sections.rs", "src/grid.rs"], [("payload length checks", "src/datatypes/sections.rs from_payload"), ("template parsing", "src/datatypes/sections.rs TryFrom<&GridDefinition>")], ["from_slice", "SubMessage accessors"])

prop("C07", "Submessage iteration behaves as a standard iterator over all submessages",
 "Iterating yields every submessage exactly once in stream order with its index; advancing by any mix of single steps, skips and clones lands where the same operations on a list of the submessages would, the remaining-length estimate is exact at all times, and an exhausted iterator stays exhausted; submessages taken stay usable while others are taken. The submessage count agrees with it, and the template listing is the sorted set of distinct templates in use.",
 ["histories", "inputs"], "every sequence of iterator operations over streams with any number of submessages",
 "The tests step an iterator once or use nth from a fresh iterator; sequences of mixed operations are not exercised.",
 ["src/context.rs"], [("iterator position", "src/context.rs SubmessageIterator"), ("template set", "src/context.rs get_templates")], ["Grib2::iter", "Grib2::list_templates", "Grib2::len"])

prop("C08", "A submessage's values do not depend on access order or history",
 "Loading and decoding a submessage gives the same values whichever other submessages were loaded, decoded, partly consumed or found undecodable before it, in any order and however often. Values belong to the submessage asked for, even when submessages share sections.",
 ["histories"], "every interleaving of load / decode / partial consumption / repeat operations over the submessages of one open stream, decodable and not",
 "The reader is shared and seekable, so its position is state left by history; tests decode one submessage from a fresh reader.",
 ["src/reader.rs", "src/context.rs", "src/decoder.rs"], [("absolute seeks per payload", "src/reader.rs read_sect_payload_as_slice"), ("shared reader", "src/context.rs SubMessage")], ["Grib2SubmessageDecoder"])

prop("C09", "Opening and describing a stream needs memory in proportion to its size",
 "Whatever lengths and counts a byte sequence states, opening it and asking every submessage for its metadata allocates no more memory at a time than a fixed multiple of the octets that are really there. A section that claims more octets than the stream holds is reported without the claimed amount being set aside first.",
 ["inputs"], "streams with a section length anywhere up to 4 GiB inside a message with room for it, with the data going on or stopping at any point, valid streams of any shape and mutated ones",
 NB + "none measures memory, and all sample files are well-formed.",
 ["src/reader.rs", "src/parser.rs", "src/context.rs"], [("section payload reads", "src/reader.rs read_sect_payload_as_slice")], ["from_slice", "from_reader"])

prop("C10", "Packed data are read only when a submessage is loaded",
 "Opening a stream does not read the packed data of its Sections 7, and describing submessages or listing templates and sections reads nothing further. Loading a submessage for decoding reads no more than a small multiple of its own Sections 5, 6 and 7, however large the rest of the stream is.",
 ["inputs", "histories"], "streams of any number of messages and submessages with packed data of any size, and any submessages loaded in any order",
 "Whether the bulk of a file was read does not show in any result that the tests compare.",
 ["src/reader.rs", "src/context.rs", "src/decoder.rs"], [("sections 5 to 7 on demand", "src/decoder.rs from"), ("skipping of data sections", "src/reader.rs read_sect_body")], ["from_reader", "Grib2SubmessageDecoder::from"])

prop("C11", "A refused stream is reported with its first fault and where it is",
 "When opening or parsing fails, the one error given names the first fault met in the stream: another edition or an unknown section number with that number, a wrong end marker, a section out of order or a Section 4 without a grid definition with that section's position, a stream that stops between sections with the position of its last section, and a read error where it stops inside one. Nothing follows that error, and its text states the number it carries.",
 ["inputs"], "every sequence of sections and upstream errors, and every well-formed stream with one octet field made wrong or cut at any position",
 "The unit tests compare the errors of a dozen hand-picked sequences, mostly with one message.",
 ["src/parser.rs", "src/reader.rs", "src/error.rs"], [("fault positions", "src/parser.rs Grib2SubmessageValidator"), ("read faults", "src/reader.rs SeekableGrib2Reader"), ("texts", "src/error.rs Display")], ["from_slice", "Grib2SubmessageStream"])

prop("C12", "Streams and positions beyond four gigabytes are handled exactly",
 "Messages and streams larger than 4 GiB, and streams read from a position beyond it, are opened like small ones: every section has its exact absolute position and size, total lengths are exact, submessages are complete and in order, and those that lie beyond 4 GiB are loaded and decoded to their own values. A stream that ends within a section of gigabytes is reported.",
 ["inputs"], "streams with Sections 7 of any size up to 4 GiB at any places, from any position up to 2^62, with and without a buffer",
 "The test data are files of a few hundred kilobytes, so no position in them needs more than 32 bits.",
 ["src/reader.rs", "src/context.rs", "src/decoder.rs"], [("positions", "src/reader.rs Grib2SectionStream"), ("seeks", "src/reader.rs SeekableGrib2Reader"), ("sections loaded later", "src/decoder.rs from")], ["from_reader", "sections", "Grib2SubmessageDecoder::from"])

prop("C13", "Streams can be taken apart anywhere and contents read again",
 "Taking any number of sections from a section stream and then its reader leaves the reader right behind the last section taken. A new stream opened wherever a reader stands gives what a stream over only the rest of the bytes would give, with absolute positions; at the start or end of a message these are the sections that follow. The contents of any of Sections 1-7 can be read again, in any order and as often as wanted, and are exactly its octets, or an error where the stream is cut within them.",
 ["inputs", "histories"], "histories of partial streams, contents read again and jumps on generated streams, whole or cut, with any buffer",
 "Tests read two files from the start to the end once.",
 ["src/reader.rs"], [("section stream", "src/reader.rs Grib2SectionStream"), ("contents read again", "src/reader.rs read_sect_payload_as_slice")], ["Grib2SectionStream", "Grib2Read"])

prop("C14", "Threads that read and decode at the same time do not disturb each other",
 "Several threads that at the same time open streams of their own, decode the same loaded submessage or different ones, and compute grid coordinates, indices and descriptions all get exactly the values and texts that one thread alone gets, whatever the others do in between.",
 ["schedules", "inputs"], "schedules of up to five threads with all packings and grids",
 "The tests decode in one thread at a time.",
 ["src/decoder.rs", "src/context.rs", "src/grid.rs"], [("loaded submessages", "src/decoder.rs Grib2SubmessageDecoder"), ("grids", "src/grid/gaussian.rs compute_gaussian_latitudes")], ["Grib2SubmessageDecoder::dispatch", "SubMessage::latlons"])

# ---------------------------------------------------------------- decoding
prop("D01", "Simple packing decodes to the values that were encoded",
 "For every reference value, binary and decimal scale factor (positive or negative) and bit width from 0 to 32, each decoded value equals (R + X * 2^E) / 10^D for the packed integer X at that position, to single precision; zero bit width gives the constant R / 10^D at every point.",
 ["inputs"], "all packing parameters and all packed integer sequences, including widths that straddle bytes and sequences that end mid-byte",
 "The tests decode one or two sample files with one width each.",
 ["src/decoder/simple.rs", "src/decoder/stream.rs", "src/decoder/param.rs"], [("bit stream reader", "src/decoder/stream.rs NBitwiseIterator"), ("scaling", "src/decoder/simple.rs SimplePackingDecodeIterator")], ["Grib2SubmessageDecoder::dispatch"])

prop("D02", "Complex packing decodes every group layout to the encoded values",
 "For every way of splitting the data into groups (any reference values, widths including zero, lengths, bit sizes of the group descriptors and last-group length), decoding returns each group's reference plus packed increment, scaled as for simple packing, in order. With missing-value management, primary and secondary missing markers decode to NaN and nothing else does.",
 ["inputs"], "all group layouts, descriptor bit sizes and the three missing-value modes over generated integer fields",
 NB + "each has a single fixed layout.",
 ["src/decoder/complex.rs", "src/decoder/complex/missing.rs", "src/decoder/param.rs", "src/decoder/stream.rs"], [("group decoding", "src/decoder/complex.rs ComplexPackingValueDecodeIterator")], ["Grib2SubmessageDecoder::dispatch"])

prop("D03", "Spatial differencing is inverted exactly for both orders",
 "For first- and second-order spatial differencing with extra descriptors of one to four octets and any sign of the minimum and initial values, decoding recovers the original integer field exactly before scaling. Missing points stay NaN and do not take part in the differencing.",
 ["inputs"], "all integer fields, orders, descriptor sizes, group layouts and missing-value placements",
 "The unit tests cover one sequence per order; sign-magnitude minimums of each size, and missing points between differenced values, are unbounded combinations.",
 ["src/decoder/complex/diff.rs", "src/decoder/complex.rs", "src/helpers.rs"], [("difference integration", "src/decoder/complex/diff.rs"), ("sign-magnitude integers", "src/helpers.rs grib_int_from_bytes")], ["Grib2SubmessageDecoder::dispatch"])

prop("D04", "Run-length packing decodes to the encoded level values",
 "For every bit width up to 16, maximum level and level table, run-length packed data decode to the representative value of each point's level, with level zero decoding to NaN, for every run length and every legal way of writing the runs. Data whose expansion disagrees with the stated point count, starts with a run, or uses an undefined level is an error.",
 ["inputs"], "all level sequences, run splittings, bit widths, level tables and decimal scales",
 "The tests hold one hand-made sequence and one sample file.",
 ["src/decoder/run_length.rs"], [("run expansion", "src/decoder/run_length.rs rleunpack")], ["Grib2SubmessageDecoder::dispatch"])

prop("D05", "PNG packing decodes to the encoded values at every bit depth",
 "For every bit width a PNG image can carry (1, 2, 4, 8, 16, 24, 32) and every image width and height, the decoded values are the pixel integers in row order, scaled as for simple packing.",
 ["inputs"], "all pixel fields, image shapes (including widths that do not fill whole bytes), depths and scale factors",
 "Only one 16-bit sample file is tested; the code itself warns that other widths are untested.",
 ["src/decoder/png.rs"], [("pixel extraction", "src/decoder/png.rs decode")], ["Grib2SubmessageDecoder::dispatch"])

prop("D06", "JPEG 2000 packing decodes to the encoded values",
 "A single-component lossless JPEG 2000 code stream of any shape, bit depth and tiling decodes to its sample integers in row order, scaled as for simple packing. A code stream with several components, a damaged header, or samples that do not cover the image is an error or fewer values, never values read from elsewhere.",
 ["inputs"], "all sample fields, image shapes, depths, resolution levels, subsampling factors and truncations of the code stream",
 "One sample file is tested.",
 ["src/decoder/jpeg2000.rs", "src/decoder/jpeg2000/ext.rs"], [("code stream decoding", "src/decoder/jpeg2000.rs decode_jp2"), ("memory stream callbacks", "src/decoder/jpeg2000/ext.rs")], ["Grib2SubmessageDecoder::dispatch"])

prop("D07", "Bitmaps place values exactly and decoding yields one value per grid point",
 "Decoding yields exactly as many values as the grid definition states, whatever padding ends the packed data or the bitmap; with a bitmap, points marked absent are NaN and points marked present take the packed values in order. The remaining-length estimate equals the number of values still to come at every step.",
 ["inputs"], "all bitmaps, grid sizes (multiples of eight or not), packing methods and amounts of trailing padding, observed after every step of consumption",
 "The existing bitmap test builds an expectation whose result is never asserted, and only whole bytes are tried.",
 ["src/decoder/bitmap.rs", "src/decoder.rs"], [("bitmap merging", "src/decoder/bitmap.rs BitmapDecodeIterator")], ["Grib2DecodedValues"])

prop("D08", "Damaged data sections give errors or fewer values, never a crash",
 "For any contents of the data representation, bitmap and data sections, loading and decoding return an error or a finite sequence no longer than the grid, without panicking. Cutting packed data short never changes a value before the cut and never invents one after it.",
 ["inputs", "crash_points"], "every corruption of valid representation, bitmap and data sections (overwrites, truncation, extension, contradictory counts) for every packing method",
 "Tests decode intact files only.",
 ["src/decoder.rs", "src/decoder/simple.rs", "src/decoder/complex.rs", "src/decoder/complex/diff.rs", "src/decoder/run_length.rs", "src/decoder/png.rs", "src/decoder/bitmap.rs", "src/decoder/param.rs"], [("parameter parsing", "src/decoder/param.rs"), ("length checks", "src/decoder/bitmap.rs new")], ["Grib2SubmessageDecoder"])

prop("D09", "Encodings the library cannot decode are refused, not misread",
 "A representation template other than simple, complex, complex with spatial differencing, JPEG 2000, PNG and run-length packing, a bitmap indicator other than 'present' and 'none', an original field type that is not floating point, and unsupported group splitting, missing-value or differencing modes each produce an error and no values; so do bit widths over 32 (over 16 or zero for run-length packing) and, for PNG, other than the image's.",
 ["inputs"], "all 65536 template numbers, all 254 other bitmap indicators and all other field-type, splitting, missing-management, differencing-order and descriptor-size codes",
 "Tests decode supported files; refusal of the rest is not sampled.",
 ["src/decoder.rs", "src/decoder/param.rs", "src/decoder/complex.rs", "src/decoder/complex/diff.rs"], [("template dispatch", "src/decoder.rs dispatch"), ("bitmap indicator", "src/decoder.rs from")], ["Grib2SubmessageDecoder"])

prop("D10", "Loading and decoding needs memory in proportion to data and points",
 "Loading and decoding any submessage, valid or damaged, allocates no more memory at a time than a fixed multiple of its octets plus a fixed multiple of the numbers of grid points and encoded values it states. Image sizes, run lengths, group counts and group lengths claimed inside the packed data do not add to that.",
 ["inputs"], "all packings with valid and damaged sections, JPEG 2000 and PNG images of other sizes than stated, runs and groups of any length and number",
 NB + "none measures memory, and the images and groups in sample files have the sizes they should have.",
 ["src/decoder/jpeg2000.rs", "src/decoder/png.rs", "src/decoder/run_length.rs", "src/decoder/complex.rs"], [("image size check", "src/decoder/jpeg2000.rs decode"), ("lazily expanded groups", "src/decoder/complex.rs ComplexPackingDecodeIterator")], ["Grib2SubmessageDecoder::dispatch"])

# ---------------------------------------------------------------- metadata
prop("M01", "Indicator and identification fields are reported as encoded",
 "Discipline, total length, centre, sub-centre, table versions, reference-time significance, production status and data type are exactly those encoded. The reference time is the encoded UTC instant when it is a real date and time, and an error otherwise.",
 ["inputs"], "all field values, including every out-of-range date and time component and leap days",
 "Tests read one or two real headers.",
 ["src/datatypes/sections.rs"], [("identification accessors", "src/datatypes/sections.rs Identification"), ("date validation", "src/datatypes/sections.rs create_date_time")], ["Identification", "Indicator"])

prop("M02", "Product category, number and process are read at each template's position",
 "For every product definition template the library supports, parameter category, parameter number and generating process type are the octets at the positions the WMO manual gives that template, and the coordinate count and template number are as encoded. For an unsupported template these fields are absent.",
 ["inputs"], "all 65536 template numbers with arbitrary template contents",
 "Tests cover template 4.0 and a few others from sample files.",
 ["src/datatypes/sections.rs", "src/codetables/old.rs"], [("per-template offsets", "src/datatypes/sections.rs ProdDefinition"), ("supported template list", "src/codetables/old.rs")], ["ProdDefinition"])

prop("M03", "Forecast time carries the encoded unit and value",
 "For every product template that has a forecast time at a fixed position, the reported forecast time has exactly the encoded 32-bit value and the unit named by Code Table 4.4, or the raw code when the table has no name for it; its textual forms show the same value and unit. Other templates report none.",
 ["inputs"], "all template numbers, all 256 unit codes, all values",
 "Tests check a handful of units.",
 ["src/datatypes/sections.rs", "src/datatypes/product_attributes.rs", "src/codetables/grib2.rs"], [("forecast time position", "src/datatypes/sections.rs forecast_time"), ("unit table", "src/codetables/grib2.rs Table4_4")], ["ProdDefinition::forecast_time", "ForecastTime"])

prop("M04", "Fixed surfaces carry the encoded type, scale and value",
 "For every product template with fixed surfaces at a fixed position, both surfaces report the encoded type, sign-magnitude scale factor and sign-magnitude scaled value; the numeric value is scaled value / 10^scale, missing codes are reported as missing, and unit and description follow the surface type. Other templates report none.",
 ["inputs"], "all template numbers, surface types, scale factors and scaled values, including both signs and the all-ones missing patterns",
 "Tests check two or three surfaces.",
 ["src/datatypes/sections.rs", "src/datatypes/product_attributes.rs", "src/helpers.rs"], [("surface position", "src/datatypes/sections.rs fixed_surfaces"), ("scaling", "src/datatypes/product_attributes.rs FixedSurface")], ["ProdDefinition::fixed_surfaces", "FixedSurface"])

prop("M05", "Parameter identity and description match discipline, category and number",
 "A submessage's parameter carries its discipline, centre, table versions, category and number; it is identical to a named external code exactly when discipline, category and number equal that code's, and its description is the Code Table 4.2 entry for them or absent when there is none.",
 ["inputs"], "all discipline / category / number triples",
 "Tests compare a few known parameters; identity must fail for all other 16 million triples, including ones that collide after packing.",
 ["src/context.rs", "src/datatypes/product_attributes.rs", "src/codetables/external.rs"], [("packed code", "src/datatypes/product_attributes.rs as_u32"), ("code conversion", "src/codetables/external.rs")], ["SubMessage::parameter", "Parameter"])

prop("M06", "Code table lookups return the definition's text for exactly that code",
 "For every published code table and every code, a lookup returns the text of the table definition the library was built from for exactly that table and code, and reports an unimplemented code where the definition has none beyond its last entry or the table is unsupported. Template and submessage descriptions show those same texts with the submessage's own field values.",
 ["inputs", "configurations"], "every table, every code 0-65535, for generated table definitions; descriptions of generated submessages",
 "Tests look up a few codes of a few tables.",
 ["src/codetables/old.rs", "src/context.rs", "build.rs", "gen/src/lib.rs"], [("table selection", "src/codetables/old.rs ArrayLookup"), ("description", "src/context.rs describe")], ["codetables", "SubMessage::describe", "TemplateInfo::describe"])

prop("M07", "Sections built from octets are checked, compared and read by their octets alone",
 "A section built directly from contents is accepted exactly when they have the octets its fixed part needs, and refused with their number otherwise. It holds exactly those octets and is the section a stream with these contents has; two are equal exactly when their octets are the same, and then hash equally. Every field is the same whatever follows its octets and is absent, never made up, when they are not all there.",
 ["inputs"], "contents of Sections 1-5 of every length around the least one and around the ends of templates",
 "Tests build a few sections of the right length.",
 ["src/datatypes/sections.rs", "src/context.rs"], [("size checks", "src/datatypes/sections.rs from_payload"), ("fields of templates", "src/datatypes/sections.rs template_part")], ["Identification::from_payload", "GridDefinition::from_payload", "ProdDefinition::from_payload", "ReprDefinition::from_payload"])

# ---------------------------------------------------------------- grids
prop("G01", "Grid indices visit every point once in the order the scanning mode states",
 "For every supported grid template, shape and scanning mode, the grid index sequence visits each (i, j) exactly once, with the fastest-varying direction and row alternation the scanning mode states and an exact remaining-length estimate, and the grid shape is the encoded (Ni, Nj). Hence the k-th decoded value and the k-th coordinate belong to the k-th index.",
 ["inputs", "configurations"], "all shapes including single rows and columns, all 16 supported scanning modes, all four grid templates",
 "Tests cover a few shapes of one template.",
 ["src/grid.rs", "src/context.rs", "src/datatypes/sections.rs"], [("index iteration", "src/grid.rs GridPointIndexIterator")], ["SubMessage::ij", "SubMessage::grid_shape"])

prop("G02", "Regular latitude/longitude grids have evenly spaced points between corners",
 "On a regular latitude/longitude grid, point (i, j) lies i steps of equal size in longitude and j steps in latitude from the first grid point, reaching the last grid point at the far corner, going eastward or westward as the scanning mode states and wrapping through 360 degrees when needed. Coordinates come in the grid's scanning order and are accurate to 0.0003 degrees.",
 ["inputs", "configurations"], "all corner positions (positive and negative longitudes, grids crossing the date line or Greenwich), shapes including a single row or column, and scanning modes",
 "Tests use a handful of corner pairs.",
 ["src/grid/latlon.rs", "src/grid/helpers.rs"], [("even spacing and wraparound", "src/grid/helpers.rs evenly_spaced_longitudes")], ["SubMessage::latlons"])

prop("G03", "Gaussian grids use the Gaussian latitudes for their number of rows",
 "On a global regular Gaussian grid (n = 2N rows), the row latitudes are the n arcsines of the roots of the Legendre polynomial of degree n, north to south or south to north as scanned, symmetric about the equator, with longitudes evenly spaced as on a regular grid.",
 ["inputs", "configurations"], "every row count from 1 into the thousands, all scanning modes and longitude extents",
 "Tests compare tables for two or three row counts; convergence of the root finder is a claim about every count.",
 ["src/grid/gaussian.rs", "src/grid/helpers.rs"], [("Newton iteration on Legendre polynomials", "src/grid/gaussian.rs legendre_roots_iterator")], ["SubMessage::latlons"])

prop("G04", "Lambert conformal grids are placed by their projection parameters",
 "Projecting the returned coordinates of a Lambert conformal grid with its own standard parallels, origin and Earth shape gives a rectangular lattice that starts at the first grid point, has the encoded spacing in metres in each direction with the signs the scanning mode states, and follows the scanning order.",
 ["inputs", "configurations"], "all secant and tangent cones in both hemispheres, Earth shapes, spacings, first points and scanning modes",
 "One sample definition is tested, to a few points.",
 ["src/grid/lambert.rs", "src/grid/helpers.rs", "src/grid/earth.rs"], [("projection definition", "src/grid/lambert.rs latlons"), ("lattice", "src/grid/helpers.rs latlons_from_projection_definition_and_first_point")], ["SubMessage::latlons"])

prop("G05", "Polar stereographic grids are placed by their projection parameters",
 "Projecting the returned coordinates of a polar stereographic grid with its own latitude of true scale, orientation, pole and Earth shape gives a rectangular lattice that starts at the first grid point, has the encoded spacing with the signs the scanning mode states, and follows the scanning order.",
 ["inputs", "configurations"], "both poles, all orientations, true-scale latitudes, Earth shapes, spacings, first points and scanning modes",
 "One sample definition is tested.",
 ["src/grid/polar_stereographic.rs", "src/grid/helpers.rs", "src/grid/earth.rs"], [("projection definition", "src/grid/polar_stereographic.rs latlons")], ["SubMessage::latlons"])

prop("G06", "Earth radii follow the shape-of-the-Earth code",
 "For every shape-of-the-Earth code the library supports, the radii in metres are those Code Table 3.2 gives or, where the producer specifies them, scaled value / 10^scale factor in the stated unit; unknown codes give none.",
 ["inputs"], "all 256 codes with all scale factors and scaled values for radius and axes",
 "One sample Earth shape is tested.",
 ["src/grid/earth.rs"], [("radii", "src/grid/earth.rs EarthShapeDefinition")], ["EarthShapeDefinition::radii"])

prop("G07", "Inconsistent or unsupported grids are refused rather than approximated",
 "Index and coordinate queries return an error when the shape disagrees with the stated number of points, when the scanning mode uses unsupported flags, when the latitudes run against the scanning direction, when the grid carries a list of row lengths, when a Gaussian grid has other than 2N rows, or when the template or Earth shape is unsupported; they never return a sequence whose length differs from the stated number of points.",
 ["inputs"], "all template numbers, scanning modes, point counts and corner orders",
 "Tests cover one mismatch.",
 ["src/context.rs", "src/datatypes/sections.rs", "src/grid.rs", "src/grid/latlon.rs", "src/grid/gaussian.rs"], [("point count check", "src/context.rs ij / latlons"), ("unsupported flags", "src/grid.rs has_unsupported_flags")], ["SubMessage::ij", "SubMessage::latlons"])

prop("G08", "Grid definition fields are read with their encoded values and signs",
 "For each supported grid template, every published field of the parsed definition (shape, corner and origin angles with sign-magnitude signs, spacings, flags, Earth shape parameters, parallels) equals the encoded octets, independent of all other octets.",
 ["inputs"], "arbitrary octets in every template position for the four supported templates",
 "Tests parse one real definition per template, so fields that are zero or positive there are not distinguished.",
 ["src/datatypes/sections.rs", "src/grid/latlon.rs", "src/grid/gaussian.rs", "src/grid/lambert.rs", "src/grid/polar_stereographic.rs", "src/grid/earth.rs", "src/helpers.rs"], [("template parsing", "src/grid/*.rs from_buf"), ("sign-magnitude integers", "src/helpers.rs as_grib_int")], ["GridDefinitionTemplateValues"])

prop("G09", "Coordinate and index sequences behave as standard iterators",
 "The sequences of grid indices and coordinates of any supported grid give, under any mix of single steps, skips, strides, copies, counting and exhaustion, what the same operations on the list of their items would give. Their size estimates are exact at all times, copies are independent of the original, and exhausted sequences stay exhausted.",
 ["histories", "inputs"], "every history of iterator operations on the index and coordinate sequences of grids of every kind, size and scanning mode",
 "The tests collect a sequence once from its start; copies in mid-row and mixed operations are never made.",
 ["src/grid/helpers.rs", "src/grid.rs", "src/grid/latlon.rs", "src/grid/gaussian.rs", "src/grid/lambert.rs", "src/grid/polar_stereographic.rs"], [("index iterator", "src/grid.rs GridPointIndexIterator"), ("coordinate iterators", "src/grid.rs GridPointIterator")], ["SubMessage::latlons", "SubMessage::ij"])

prop("G10", "Without projection support only projected coordinates are refused",
 "Built without its optional projection support, the library answers coordinate queries on Lambert conformal and polar stereographic grids with an error saying that this is not supported, never with coordinates. Everything else - opening, descriptions, grid shapes and indices, decoded values, coordinates of other grids, and errors - is exactly as in the build with it.",
 ["configurations", "inputs"], "both build configurations on the same generated inputs: grids of every template, valid, damaged and random streams, fields of all packings",
 "The tests run in one configuration at a time and nothing compares the two.",
 ["src/datatypes/sections.rs", "src/grid/lambert.rs", "src/grid/polar_stereographic.rs", "src/grid/helpers.rs", "Cargo.toml"], [("feature switch", "src/datatypes/sections.rs GridDefinitionTemplateValues::latlons")], ["SubMessage::latlons", "GridDefinitionTemplateValues::latlons"])

# ---------------------------------------------------------------- build-time
prop("B01", "Generated code tables map each code to its CSV meaning",
 "For every code table CSV, the generated array holds at each index the meaning of exactly that code, with ranges expanded and reserved or missing codes left blank; a table with undefined gaps before a defined code is left empty rather than shifted. Codes after the last defined one are absent.",
 ["inputs", "programs"], "all sequences of single codes, ranges, reserved entries, comment rows and gaps, with arbitrary texts",
 "The tests use six small CSV files.",
 ["gen/src/lib.rs", "gen/src/cct_csv.rs", "gen/src/grib2_codeflag_csv.rs"], [("table expansion", "gen/src/lib.rs CodeTable::to_vec"), ("code ranges", "gen/src/lib.rs CodeRange")], ["CodeDB::export", "CodeDB Display"])

prop("B02", "Generated code table source is valid Rust with one constant per table",
 "For any set of loaded CSV files, in any order, the generated source is valid Rust that defines exactly one string-slice constant per table, named after its section, number, discipline and category, whose string literals evaluate to the CSV texts character for character. Loading a table again replaces it, and exporting an unknown table yields an empty array.",
 ["inputs", "histories", "programs"], "all sets and orders of table files, all texts including quotes, backslashes, control characters and non-ASCII",
 "The tests compare four files with plain ASCII text against fixed output.",
 ["gen/src/lib.rs", "gen/src/cct_csv.rs", "gen/src/grib2_codeflag_csv.rs"], [("source export", "gen/src/lib.rs CodeTable::export"), ("naming", "gen/src/*.rs get_variable_name")], ["CodeDB Display", "CodeDB::export"])

prop("B03", "Subtitles select the table by discipline and category",
 "A code table CSV's rows are filed under the discipline and parameter category its subtitle names, or under neither when the subtitle is empty, for every number 0-255 and any wording after the numbers (in the discipline name, any without commas); a subtitle of another form, or with a number out of range, makes loading fail rather than file the rows elsewhere.",
 ["inputs"], "all discipline and category numbers, descriptive texts, and malformed subtitles",
 "One subtitle string is tested.",
 ["gen/src/grib2_codeflag_csv.rs"], [("subtitle parsing", "gen/src/grib2_codeflag_csv.rs OptArg")], ["CodeDB::load", "OptArg"])

prop("B04", "Malformed definition files fail the build-time load and change nothing",
 "Loading a definition file that is missing or unreadable, has rows but lacks a required column, has a row of the wrong length or is not valid text returns an error and leaves previously loaded tables as they were; a file whose name does not denote a known table is ignored.",
 ["inputs", "histories", "fault_sequences"], "all single-defect variants of generated CSV files and file names, in sequences of loads",
 "Only well-formed files are tested.",
 ["gen/src/cct_csv.rs", "gen/src/grib2_codeflag_csv.rs"], [("CSV deserialisation", "gen/src/*.rs parse_file"), ("file name dispatch", "gen/src/*.rs load")], ["CodeDB::load"])

prop("B05", "Parameter code enums map every table code to its named variant",
 "For every well-formed parameter table with distinct codes, the enum generated from it has one variant per distinct name whose discriminant is that name's first code, converts every listed code to its name's variant, and rejects every code that is not listed.",
 ["inputs", "programs"], "all parameter tables: names shared by several codes, hyphens and leading digits in names, any field texts, any order",
 "Two small tables are tested.",
 ["codegen/src/param_codes.rs", "codegen/src/lib.rs"], [("alias remapping", "codegen/src/param_codes.rs Wgrib2Table"), ("variant generation", "codegen/src/param_codes.rs enum_variants")], ["parameter_codes macro output"])

prop("B06", "Unusable parameter tables or enums are compile errors",
 "The parameter enum attribute fails compilation when the table cannot be read, when any line of it is malformed (missing fields or numbers out of range), when the annotated item is not an enum or already has variants, or when its argument is not a path; it never generates a partial enum.",
 ["inputs", "programs"], "all single-defect variants of generated tables and annotated items",
 "Three compile-fail cases are tested, none with a malformed table.",
 ["codegen/src/param_codes.rs", "codegen/src/lib.rs"], [("table parsing", "codegen/src/param_codes.rs from_str_impl"), ("argument parsing", "codegen/src/lib.rs ParameterCodesArgs")], ["compiler diagnostics"])

prop("B07", "Generated source does not depend on load order or file layout",
 "Loading the same code table files in another order, from another directory, with another quoting, column order or line ending, or some of them a second time gives the same generated source octet for octet, so that builds are reproducible. Writing it out repeatedly gives the same text, and a table exported on its own is its part of the whole.",
 ["inputs", "histories", "configurations"], "all sets of table files, orders of loading, layouts and repeated loads",
 "The tests load files in one order and compare with fixed output.",
 ["gen/src/lib.rs", "gen/src/cct_csv.rs", "gen/src/grib2_codeflag_csv.rs"], [("table order", "gen/src/*.rs CodeDB data"), ("source export", "gen/src/lib.rs CodeTable::export")], ["CodeDB Display", "CodeDB::export"])

# ---------------------------------------------------------------- CLI
prop("L01", "The decode command exports exactly the library's values",
 "For any decodable submessage, the command line's flat binary export holds the decoded values bit for bit in the requested byte order and grid order, one per grid point, and its text output has one row per point with that point's coordinates and value. The submessage exported is the one named by the index argument.",
 ["inputs", "configurations"], "all submessages of generated files, both byte orders and the text form, over all packings and grids",
 "The tests compare a few sample files.",
 ["cli/src/commands/decode.rs", "cli/src/cli.rs"], [("binary export", "cli/src/commands/decode.rs write_output"), ("index selection", "cli/src/cli.rs CliMessageIndex")], ["gribber decode"])

prop("L02", "The list, info and inspect commands report the file's actual structure",
 "For any well-formed file, list shows one line per submessage with its index, forecast time, surfaces and point counts, info shows each message's identification once, and inspect shows every section with its byte range, every submessage with its section numbers and templates, and the template set; all as the file encodes them.",
 ["inputs", "configurations"], "all generated files and all option combinations",
 "The tests compare fixed output of a few sample files.",
 ["cli/src/commands/list.rs", "cli/src/commands/info.rs", "cli/src/commands/inspect.rs"], [("listing", "cli/src/commands/list.rs"), ("inspection", "cli/src/commands/inspect.rs")], ["gribber list", "gribber info", "gribber inspect"])

prop("L03", "The command line turns every bad input into a clean error exit",
 "For any file contents and any index argument, every command either succeeds or exits with status 1 (or the usage-error status) and a message on standard error; it never panics or is killed by a signal, and asking for a submessage that does not exist writes no export.",
 ["inputs"], "damaged, empty, truncated and non-GRIB files, malformed, huge and absent indices, across all commands",
 "The tests try a missing file, an empty file and two bad indices.",
 ["cli/src/main.rs", "cli/src/cli.rs", "cli/src/commands/decode.rs", "cli/src/commands/list.rs"], [("error reporting", "cli/src/main.rs"), ("index parsing", "cli/src/cli.rs")], ["gribber exit status"])

prop("L04", "Command lines mean the same however their options are spelt and placed",
 "Short, long, joined and equals-sign spellings of an option, combined flags, and options before, between or after the file and index give the same status, output and exported octets. A command line with an unknown command or option, a missing or surplus argument, an option without its value or both byte orders at once is refused with the usage-error status before anything is printed or written, and the input file is never changed.",
 ["inputs"], "all commands with all their options in every spelling and placement, unusual file names, and every kind of unusable command line",
 "The tests use one spelling and placement of each option.",
 ["cli/src/cli.rs", "cli/src/main.rs", "cli/src/commands/decode.rs", "cli/src/commands/list.rs", "cli/src/commands/inspect.rs"], [("command line definition", "cli/src/cli.rs, cli/src/commands/*.rs cli()")], ["gribber"])

prop("L05", "Long output goes to a pager, and a terminal shows the same text",
 "On a terminal, list, inspect and textual decode call the pager exactly when their output has more lines than the terminal has rows (`less -R` where less is installed, otherwise $PAGER or more, none with NOPAGER), and what is shown is, apart from colours, the text written to a pipe. Output that does not go to a terminal is never paged and has no escape sequences.",
 ["inputs", "configurations"], "all files and commands, terminal sizes at and around the number of lines of output, and pager settings",
 "The tests never run on a terminal.",
 ["cli/src/cli.rs", "cli/src/commands/list.rs", "cli/src/commands/inspect.rs", "cli/src/commands/decode.rs"], [("paging decision", "cli/src/cli.rs display_in_pager"), ("predicted lines", "num_lines of each view")], ["gribber on a pseudo-terminal"])

prop("L06", "Output that cannot be delivered ends a command with an error, not a crash",
 "When the standard output or the export file cannot take all of the output, the command exits with status 1 and a message, and what was written is a beginning of the full output. When the reader of the output or the pager ends early, the command ends quietly.",
 ["inputs", "crash_points"], "all commands, with a full device, files limited to any size, readers and pagers that end after any amount, and export paths where no file can be",
 "The tests always read all output and have room for it.",
 ["cli/src/cli.rs", "cli/src/commands/decode.rs", "cli/src/commands/info.rs", "cli/src/commands/completions.rs"], [("standard output", "cli/src/cli.rs print"), ("export file", "cli/src/commands/decode.rs write_output")], ["gribber exit status and output"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert p["statement"].count(". ") <= 2, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
