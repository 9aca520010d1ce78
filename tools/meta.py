#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after editing; both outputs are committed)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, tech=None, note="", na=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                           **({"observe_at": observe} if observe else {})}, _tech=tech, _note=note, _na=na))


IO = "cpp/src/io/"
INC = "cpp/include/copc-lib/"

prop("C01", "COPC write then read returns every node's points unchanged",
     "For every point format 6-8, scale, offset, extra-byte layout and set of nodes, reading a finished COPC file returns exactly the nodes that were added, and for each node the same points in the same order with every field equal (coordinates to the stored precision). It holds for every way of adding a node (point objects, raw records, compressed records), for streams and files, and for every way of reading it back (by key, by node, raw, compressed, all points).",
     ["inputs", "configurations", "histories"], "all formats, scales/offsets, extra-byte layouts, trees of nodes, page assignments and point contents; all pairs of write and read calls",
     "The tests write a handful of fixed points into a few fixed keys; extra bytes, record lengths and attribute extremes are not combined.",
     [IO + "copc_writer_public.cpp", IO + "copc_writer_internal.cpp", IO + "copc_reader.cpp", IO + "laz_base_writer.cpp", INC + "laz/compressor.hpp", INC + "laz/decompressor.hpp", "cpp/src/las/points.cpp", "cpp/src/las/point.cpp"],
     [("node chunks", IO + "laz_base_writer.cpp WriteChunk"), ("record packing", "cpp/src/las/point.cpp Pack/Unpack"), ("node lookup", IO + "copc_base_io.cpp")],
     "round-trip property-based testing against an independent record encoder; libFuzzer in the thorough tier")
prop("C02", "The hierarchy follows every history of node additions and page moves",
     "After any history of adding nodes to pages and moving nodes between pages, the writer's own lookups and the finished file agree with a simple model: every node exactly once, in the page it was last assigned to, with the location first reported; a page exists exactly while it holds a node (the root page always), and every page hangs under its nearest existing ancestor page.",
     ["histories"], "all sequences of add and move operations over keys up to depth 12, interleaved with lookups",
     "The tests use a few fixed sequences; moving twice, emptying intermediate pages or moving into an ancestor of another page is not exercised.",
     [IO + "copc_writer_public.cpp", IO + "copc_writer_internal.cpp", IO + "copc_base_io.cpp", INC + "hierarchy/internal/hierarchy.hpp"],
     [("page moves", IO + "copc_writer_public.cpp ChangeNodePage"), ("page tree", IO + "copc_writer_internal.cpp ComputePageHierarchy/WritePageTree")],
     "stateful model-based testing of writer histories, oracle: map model + independent file parser")
prop("C03", "Every finished COPC file is structurally valid",
     "Whatever was written, the finished file obeys the LAS 1.4 and COPC layouts byte for byte: header fields, VLRs and their order, point data offset, chunk table, EVLRs and hierarchy pages describe exactly the file's contents with no gap, overlap or dangling offset. Every chunk belongs to exactly one node and every page entry points to a page record of that size.",
     ["histories", "configurations"], "all histories of additions and moves times all configurations (format, extra bytes, WKT, extended statistics)",
     "The tests read back with the same library, which cannot see errors both sides share; other readers depend on the bytes.",
     [IO + "copc_writer_internal.cpp", IO + "laz_base_writer.cpp", "cpp/src/las/header.cpp", "cpp/src/las/vlr.cpp"],
     [("offset arithmetic", IO + "copc_writer_internal.cpp OffsetToPointData"), ("closing sequence", IO + "copc_writer_internal.cpp Close")],
     "generated histories; the bytes are parsed by an independent LAS/COPC parser and checked against the model")
prop("C04", "All file metadata survives writing and reading",
     "Every metadata value a writer's configuration can hold - identifiers and text fields, dates, encodings, bounds, scale and offset, points by return, WKT, extra-byte descriptions, COPC info (cube, spacing, GPS time range) and per-dimension extents with statistics - is returned unchanged when the finished file is read, whether it was set before or after points were written. Derived values (point count, record length, point offset, version, hierarchy location) are the true ones.",
     ["configurations", "inputs"], "all representable values of every metadata field, including full-width text and extreme numbers, for COPC and LAZ",
     "The tests set a few fields to round values in one configuration.",
     ["cpp/src/las/header.cpp", "cpp/src/copc/info.cpp", "cpp/src/copc/extents.cpp", "cpp/src/copc/copc_config.cpp", "cpp/src/las/laz_config.cpp", IO + "base_reader.cpp", IO + "copc_reader.cpp"],
     [("header mapping", "cpp/src/las/header.cpp ToLazPerf/FromLazPerf"), ("VLR writing", IO + "copc_writer_internal.cpp WriteHeader")],
     "round-trip property-based testing against a metadata model, cross-checked in the bytes")
prop("C05", "Valid COPC and LAZ files from other producers are read correctly",
     "Any file that conforms to the COPC specification is read correctly regardless of how its producer laid it out: VLR order and unknown VLRs, metadata stored as VLR or EVLR, padding, chunk order, page order and placement, nodes without points, and missing optional records. Reading returns the nodes, points, WKT, extra-byte descriptions and extents that the bytes describe.",
     ["inputs"], "all conforming layouts a producer may choose",
     "The tests only read files made by this library and two downloaded samples.",
     [IO + "base_reader.cpp", IO + "copc_reader.cpp", IO + "copc_base_io.cpp"],
     [("VLR discovery", IO + "base_reader.cpp ReadVlrHeaders"), ("page reading", IO + "copc_reader.cpp ReadPage")],
     "independent file builder generating conforming layouts; reader compared with what was built")
prop("C06", "Query results do not depend on the order of queries",
     "Every query on an open file (node lookup, children of a page, page list, point data, spatial and resolution queries) returns the same answer whatever queries were made before it, on the same reader or on a fresh one.",
     ["histories"], "all sequences of queries over files with nested pages",
     "Pages are loaded lazily, so answers could depend on what earlier queries loaded; the tests ask each question once, in one order.",
     [IO + "copc_base_io.cpp", IO + "copc_reader.cpp", INC + "hierarchy/internal/hierarchy.hpp"],
     [("lazy page loading", IO + "copc_base_io.cpp FindNode/LoadPageHierarchy"), ("stream repositioning", IO + "copc_reader.cpp")],
     "stateful testing: random query sequences against a model of the whole file")
prop("C07", "Spatial queries return exactly what their definition selects",
     "For every box and resolution, the nodes reported as within (intersecting) the box are exactly those whose octree cell lies within (intersects) it at or above the depth of that resolution, and the points reported are exactly the points of cells within the box plus those points of intersecting cells that lie within it. Nothing is missing, duplicated or altered.",
     ["inputs"], "all files, boxes (degenerate, touching, infinite, disjoint) and resolutions",
     "The tests use one sample file with a few boxes.",
     [IO + "copc_reader.cpp", "cpp/src/hierarchy/key.cpp", "cpp/src/geometry/box.cpp", "cpp/src/las/point.cpp", "cpp/src/las/points.cpp"],
     [("box predicates", "cpp/src/geometry/box.cpp"), ("queries", IO + "copc_reader.cpp GetNodesWithinBox/GetNodesIntersectBox/GetPointsWithinBox")],
     "differential testing against brute force over the generated file model")
prop("C08", "Resolution queries select the depth the spacing implies",
     "For every file and requested resolution, the selected depth is the smallest one whose point spacing (root spacing halved per level) is at most the request, capped at the deepest level present; a request of zero or less selects the deepest level. Node and point queries by resolution return exactly the nodes at, respectively up to, that depth.",
     ["inputs"], "all hierarchies, spacings and requested resolutions, including exact powers of two, NaN and negatives",
     "The tests probe a few resolutions of one file.",
     [IO + "copc_reader.cpp"], [("depth selection", IO + "copc_reader.cpp GetDepthAtResolution")],
     "differential testing against a brute-force depth model")
prop("C09", "Spatial bounds validation says valid exactly when the file is",
     "Validation succeeds exactly when every node's cell intersects the header bounds, every point lies within the header bounds and every point lies within its own node's cell; verbose mode returns the same answer.",
     ["inputs"], "files whose points and bounds are inside, on the edge of, and just outside their cells",
     "The tests check three hand-made files.",
     [IO + "copc_reader.cpp", "cpp/src/geometry/box.cpp"], [("validation", IO + "copc_reader.cpp ValidateSpatialBounds")],
     "generated boundary-biased files against a direct evaluation of the definition")
prop("C10", "Point records have the LAS byte layout",
     "Packing a point produces exactly the bytes the LAS 1.4 specification gives for formats 6, 7 and 8 followed by its extra bytes, and unpacking any record bytes yields a point with exactly those field values, so that unpacking and packing again returns the same bytes. A record that is cut off is refused.",
     ["inputs"], "all field values and all record bytes, for each format and extra-byte length",
     "The tests pack a few points and compare with the library's own unpacking.",
     ["cpp/src/las/point.cpp", "cpp/src/las/points.cpp", INC + "las/utils.hpp"], [("packing", "cpp/src/las/point.cpp Pack/Unpack")],
     "differential testing against an independent record encoder/decoder")
prop("C11", "Point fields are independent and range checked",
     "Setting any field of a point changes that field (and the documented views of it, such as bit fields and scan-angle degrees) and nothing else, and reading returns what was set. A value that does not fit the field is refused with an error and leaves the point unchanged.",
     ["inputs", "histories"], "all sequences of setter calls with in-range and out-of-range values on all formats",
     "Packed bit fields share bytes; the tests set a few values one field at a time.",
     [INC + "las/point.hpp", "cpp/src/las/point.cpp"], [("bit-field accessors", INC + "las/point.hpp")],
     "stateful setter sequences against a field model")
prop("C12", "Coordinate quantisation is exact on stored values and honest otherwise",
     "For every scale, offset and stored integer, converting to a coordinate and back returns the integer; converting a coordinate gives the nearest representable step, and a coordinate (or NaN) that does not fit 32 bits is refused rather than stored as something else.",
     ["inputs"], "all int32 values, scales, offsets and doubles",
     "The tests convert a few values with one scale.",
     [INC + "las/utils.hpp", "cpp/src/las/utils.cpp", INC + "las/header.hpp", INC + "las/points.hpp"], [("scaling", INC + "las/utils.hpp ApplyScale/RemoveScale")],
     "property-based testing of the scaling functions and packing with exact arithmetic oracles")
prop("C13", "Converting between point formats keeps all shared fields",
     "Converting a point, a point container or a header between formats 6, 7 and 8 keeps every field that both formats have, with extra bytes intact, and sets only the newly available fields to their defaults (or to what a point held there before an earlier conversion hid it); the original is untouched.",
     ["inputs", "histories"], "all points, formats and chains of conversions",
     "The tests convert a few default points.",
     ["cpp/src/las/point.cpp", "cpp/src/las/points.cpp", "cpp/src/las/header.cpp"], [("format change", "cpp/src/las/point.cpp ToPointFormat")],
     "metamorphic and model-based testing of conversion chains")
prop("C14", "The point container behaves as a list of points of one format",
     "Under any history of operations (adding points or containers, assigning slices and columns, converting, filtering by box, copying), the container agrees with a plain list: same size, order and field values, every point of the container's format and record length. Points or columns of the wrong shape, and records longer than a record length can say, are refused and change nothing.",
     ["histories"], "all sequences of container operations with valid and invalid arguments",
     "The tests run short fixed sequences.",
     [INC + "las/points.hpp", "cpp/src/las/points.cpp"], [("shape checks", "cpp/src/las/points.cpp AddPoint/AddPoints")],
     "stateful model-based testing against a list model")
prop("C15", "Octree keys obey the octree's algebra",
     "Parent, child, ancestor-at-depth, ancestor list and descendant tests are mutually consistent for every valid key at every depth and agree with integer halving of the coordinates; invalid keys are recognised and never treated as related. Equality and hashing agree, and text form identifies the key.",
     ["inputs"], "all keys to depth 31, valid and invalid, and pairs of them",
     "The tests check a few shallow keys.",
     ["cpp/src/hierarchy/key.cpp", INC + "hierarchy/key.hpp"], [("bisection and ancestry", "cpp/src/hierarchy/key.cpp")],
     "property-based testing against integer arithmetic")
prop("C16", "Boxes and octree cells satisfy their geometric definitions",
     "Contains, crosses, intersects and within are exactly the interval relations they name for every pair of boxes, points and cells; a key's cell is the sub-cube of the root cube its coordinates name, so siblings tile their parent, and box resolution and text forms are consistent. Boxes with minimum above maximum are refused.",
     ["inputs"], "all boxes, points, keys and header cubes, including shared faces, degenerate and infinite boxes",
     "The tests use a handful of integer boxes.",
     ["cpp/src/geometry/box.cpp", INC + "geometry/box.hpp", "cpp/src/hierarchy/key.cpp"], [("predicates", "cpp/src/geometry/box.cpp"), ("cell bounds", "cpp/src/geometry/box.cpp Box(key, header)")],
     "property-based testing against interval definitions, with coordinates drawn from a shared small pool so that faces coincide")
prop("C17", "Vector arithmetic is component-wise",
     "Every vector operation (sums, differences, products and quotients with vectors and scalars, in both forms, equality, conversion to and from lists, text) acts on each component independently and gives what scalar arithmetic gives; operators do not modify operands they should not.",
     ["inputs"], "all vectors and scalars, including negative zero, infinities and huge values",
     "The three existing tests check one vector per operator.",
     [INC + "geometry/vector3.hpp"], [("operators", INC + "geometry/vector3.hpp")],
     "property-based testing against scalar arithmetic")
prop("C18", "Every dimension keeps its own extent",
     "For every point format and number of extra-byte dimensions, each named extent and each extra-byte extent occupies its own slot in the documented order through accessors, bulk assignment, conversion between formats, copying, and the extents and extended-statistics records; conversions never share or mix up values. Wrong numbers of extents and invalid extents are refused.",
     ["inputs", "configurations"], "all formats, extra-byte counts and extent values",
     "The tests set a few extents in format 7.",
     ["cpp/src/copc/extents.cpp", INC + "copc/extents.hpp", "cpp/src/las/vlr.cpp"], [("slot layout", INC + "copc/extents.hpp")],
     "model-based testing of accessors, conversions and record mapping")
prop("C19", "LAZ files written chunk by chunk read back as one sequence",
     "For every format, configuration and sequence of point chunks (as points or compressed), a finished LAZ file read back yields all points in writing order and all metadata, any number of times; its header, chunk table and WKT record describe exactly its bytes.",
     ["histories", "configurations"], "all sequences of chunks, formats, extra bytes and WKT",
     "The tests write a few chunks and read once.",
     [IO + "laz_writer.cpp", IO + "laz_reader.cpp", IO + "laz_base_writer.cpp", IO + "base_reader.cpp"], [("chunking", IO + "laz_base_writer.cpp"), ("sequential reading", IO + "laz_reader.cpp")],
     "round-trip histories with an independent parser")
prop("C20", "Compressed point data can be copied between files without change",
     "Decompressing the compression of any record array returns it, with every public form of compress and decompress agreeing; raw compressed chunks read from one file and added to another of the same format, in any order or page layout, give a file with the same points, counts and bytes per node.",
     ["inputs", "histories"], "all record arrays, formats and extra-byte lengths; chains of copies",
     "The tests copy one sample file.",
     [INC + "laz/compressor.hpp", INC + "laz/decompressor.hpp", IO + "copc_reader.cpp", IO + "copc_writer_public.cpp"], [("stream forms", INC + "laz/decompressor.hpp")],
     "round-trip and differential testing of all forms and of copy chains")
prop("C21", "Writers own their configuration; overrides replace exactly what they name",
     "A writer created from an existing configuration with any combination of overridden point format, scale, offset, WKT, extra bytes and extended statistics writes a file with exactly the named values replaced (with record length and extents adjusted to match) and everything else as in the source; neither the source configuration nor any other writer is affected by what a writer's own configuration is later set to, and a configuration or extents copied from another, by construction or by assignment, is independent of it from then on.",
     ["configurations", "histories"], "all combinations of overrides and all source configurations, including those read from files",
     "The tests try one override at a time.",
     [IO + "copc_writer_public.cpp", "cpp/src/copc/copc_config.cpp", "cpp/src/las/laz_config.cpp", "cpp/src/copc/extents.cpp", "cpp/src/las/header.cpp"],
     [("override handling", IO + "copc_writer_public.cpp InitWriter"), ("deep copies", INC + "copc/copc_config.hpp")],
     "generated override combinations checked against a configuration model and the bytes")
prop("C22", "Requests that cannot be honoured are refused and leave no trace",
     "Invalid writer requests - invalid keys, pages that are not ancestors, empty or misshapen point data, wrong formats, unrepresentable coordinates, non-positive compressed counts, moves of absent nodes, any write after closing, unsupported configurations - raise an error, and the file finally written is the same as if they had never been made.",
     ["histories", "inputs"], "all invalid requests at all points of all histories",
     "The tests check a few errors, never the file produced after one.",
     [IO + "copc_writer_public.cpp", IO + "laz_writer.cpp", IO + "laz_base_writer.cpp", "cpp/src/las/laz_config.cpp"], [("argument checks", IO + "copc_writer_public.cpp")],
     "histories with injected invalid requests, oracle: the same history without them")
prop("C23", "No input file can crash or hang the readers",
     "For every byte string offered as a file, opening it and running every query either returns a result or raises an error; it never crashes, reads outside its buffers, recurses without end or runs without bound, and after an error the reader can be discarded safely.",
     ["inputs"], "all byte strings, in particular corrupted versions of valid files (counts, offsets, sizes, cyclic pages, truncation)",
     "The tests only open well-formed files.",
     [IO + "base_reader.cpp", IO + "copc_reader.cpp", IO + "copc_base_io.cpp", IO + "laz_reader.cpp", "cpp/src/las/vlr.cpp"], [("input checks", IO + "copc_reader.cpp"), ("page recursion", IO + "copc_base_io.cpp")],
     "structured mutation of generated files plus coverage-guided fuzzing under sanitizers with time and memory limits")
prop("C24", "Files that are not COPC or not supported are refused on opening",
     "Opening fails with an error for every file that lacks a required COPC record, has the info record anywhere but directly after the header, is not LAS 1.4 with formats 6-8, or is empty or unreadable; it succeeds for the corresponding conforming file.",
     ["inputs"], "all single non-conformities applied to all conforming layouts",
     "The tests open one non-COPC file.",
     [IO + "copc_reader.cpp", IO + "base_reader.cpp", "cpp/src/las/header.cpp", "cpp/src/las/laz_config.cpp"], [("required records", IO + "copc_reader.cpp InitCopcReader/ReadCopcInfoVlr")],
     "conforming files with one generated non-conformity")
prop("C25", "Parallel reading visits every selected node once with the right results",
     "The Python parallel reader applies the caller's function to every selected node exactly once, whichever nodes or resolution are selected, however many worker processes are used and in whatever order they finish; every returned result is paired with its node, per-node results are passed to the callback, errors raised by the function reach the caller, and concatenated or mapped results equal the sequential computation.",
     ["schedules", "inputs", "configurations"], "all node sets, functions, argument combinations, chunk sizes and completion orders",
     "The tests run two functions over one file with one process setting.",
     ["python/copclib/mp/read.py", "python/copclib/mp/utils.py"], [("task dispatch", "python/copclib/mp/read.py read"), ("concatenation", "python/copclib/mp/read.py read_concat_*/read_map_*")],
     "property-based testing with generated schedules: the process pool and the compiled module are replaced by deterministic stand-ins, completion order is drawn")
prop("C26", "Parallel transformation writes exactly the transformed nodes",
     "The Python parallel transformer writes, for every selected node exactly once, the result of the caller's function applied to that node's points, in the same node and page, for any completion order; nodes that become empty are dropped, callbacks see every processed node, and updated bounds equal the true minimum and maximum of what was written. Points that are not in the writer's format, and errors raised by the caller's function, are reported as errors.",
     ["schedules", "inputs", "configurations"], "all node sets, transform functions, output formats and completion orders",
     "The tests transform one file with one function.",
     ["python/copclib/mp/transform.py", "python/copclib/mp/utils.py"], [("task dispatch and writing", "python/copclib/mp/transform.py")],
     "property-based testing with generated schedules over stand-ins, oracle: sequential transformation")
prop("C27", "Opening, closing and destroying are safe in every order",
     "Closing is idempotent, destroying an unclosed writer finalises the file exactly as closing would, file and stream writers (and readers) produce the same results, closed readers release their file, and a failed open raises an error without leaking a file handle or memory.",
     ["histories"], "all orders of open, use, close and destroy, for readers and writers, on good and bad paths",
     "The tests close everything in the standard order.",
     [IO + "copc_writer_public.cpp", INC + "io/copc_reader.hpp", INC + "io/laz_reader.hpp", INC + "io/laz_writer.hpp", INC + "io/internal/copc_writer_internal.hpp"], [("closing", IO + "copc_writer_internal.cpp Close"), ("ownership", INC + "io/copc_reader.hpp")],
     "stateful lifecycle sequences, oracle: byte-identical output, open-descriptor count and leak accounting")
prop("C28", "Header helpers are consistent with the header's values",
     "Bounds, span, scaling and unscaling helpers and text setters of the header compute what their names say for every value, over-long text is refused, and conversion to and from the binary header loses nothing that the binary header stores.",
     ["inputs"], "all header contents",
     "The tests check one header.",
     ["cpp/src/las/header.cpp", INC + "las/header.hpp"], [("conversion", "cpp/src/las/header.cpp"), ("helpers", INC + "las/header.hpp")],
     "property-based testing against direct formulas and an independent header encoder")
prop("C29", "Pickling preserves values",
     "Every Python object that can be pickled (byte vectors, keys, nodes, 3-vectors and headers) is restored equal, with every attribute preserved, including text and identifier fields that are not valid UTF-8.",
     ["inputs"], "all picklable values, built directly, from configurations and from the headers of files",
     "The tests pickle a few default objects.",
     ["python/bindings.cpp"], [("pickle support", "python/bindings.cpp")],
     "property-based testing: generated values pickled and restored through the repository's real bindings")
prop("C30", "A failed write is reported",
     "If the underlying stream or file stops accepting data at any point, some write or the close reports an error; a first close that returns normally means every byte reached the stream. Reporting an error never terminates the process, and a writer that failed can be closed again and destroyed.",
     ["fault_sequences"], "a failure at every byte position of every write sequence, for streams and files",
     "The tests never make a write fail.",
     [IO + "laz_base_writer.cpp", IO + "copc_writer_internal.cpp", IO + "copc_writer_public.cpp", INC + "io/laz_writer.hpp"], [("write checks", IO + "laz_base_writer.cpp WriteChunk/Close")],
     "fault injection: generated histories over a stream buffer that fails after a drawn number of bytes or at a drawn operation")
prop("C31", "A file whose writing was interrupted is never taken for a complete one",
     "If writing stops after any prefix of the operations the writer performs on its stream, the bytes left behind either are the complete file or are refused on opening; they are never opened as a file with missing points or metadata.",
     ["crash_points"], "every prefix of the sequence of stream operations (and every prefix of the final write) of every history",
     "The tests never interrupt a writer.",
     [IO + "copc_writer_internal.cpp", IO + "laz_base_writer.cpp"], [("header written last", IO + "copc_writer_internal.cpp Close")],
     "crash-point exploration over recorded stream operations of generated histories")
prop("C32", "Format tables and field packing match the LAS specification",
     "Record sizes, dimension counts, and colour and near-infrared support of every point format and the size of every extra-byte type are those of the LAS specification, unsupported formats are refused, and little-endian packing and unpacking of every integer and floating-point type is exact.",
     ["inputs"], "all format ids, extra-byte item lists and field values",
     "The tests query a few formats.",
     [INC + "las/utils.hpp", "cpp/src/las/utils.cpp", "cpp/src/las/vlr.cpp", INC + "utils.hpp"], [("tables", "cpp/src/las/utils.cpp"), ("extra-byte sizes", "cpp/src/las/vlr.cpp")],
     "property-based testing against tables transcribed from the specification")
prop("C33", "Independent objects do not influence one another",
     "What a reader, writer, point container, compressor or value object does depends only on its own inputs and history: using any other objects between its calls, or at the same time in other threads, changes none of its results and none of its files. Distinct objects may be used from different threads without synchronisation.",
     ["schedules", "histories"], "all sets of programs over separate objects (COPC and LAZ readers and writers, codecs, containers, keys, boxes), all interleavings of their steps in one thread, and concurrent runs in several threads",
     "The tests use one object after the other in one thread; a shared scratch buffer or cache shows only when two are in use.",
     ["cpp/src/io/copc_reader.cpp", "cpp/src/io/copc_writer_internal.cpp", "cpp/src/las/points.cpp", INC + "laz/compressor.hpp"],
     [("state is per object, nothing mutable is global", "cpp/src, cpp/include"), ("hierarchy state per reader or writer", INC + "io/copc_base_io.hpp")],
     "metamorphic property-based testing: generated programs alone, interleaved by a generated schedule, and concurrently under the thread sanitizer")
prop("C34", "Value types compare, copy, hash and serialise by value",
     "Keys, entries, nodes, pages, points, extents, headers' records and extra-byte items are equal exactly when all their attributes are equal, copies are independent and equal, extents converted to another point format keep those that both formats have, equal keys hash equally, and hierarchy entries survive packing and unpacking with their 32-byte layout.",
     ["inputs"], "all pairs of values differing in any single attribute",
     "The tests compare a few pairs.",
     [INC + "hierarchy/entry.hpp", INC + "hierarchy/key.hpp", INC + "hierarchy/node.hpp", INC + "hierarchy/page.hpp", "cpp/src/las/point.cpp", INC + "copc/extents.hpp"], [("comparison operators", INC + "hierarchy/entry.hpp")],
     "property-based testing of single-attribute perturbations")
prop("C35", "The Python classes give the library's results",
     "Each attribute of a Python class reads and writes the member it names and no other, out-of-range and wrongly typed values are refused, and each function or constructor passes positional, keyword and default arguments to the parameters they name. Points behave as a Python sequence (negative indices, slices with steps, slice assignment, iteration), refuse points of another shape, and files written and read through Python contain what was put in.",
     ["inputs", "histories"], "all classes of the Python module, attribute assignments, argument forms, sequence operations and COPC/LAZ files",
     "The tests touch each attribute with one value, often the default, and most slices and argument forms not at all; two attributes swapped, or a slice assigned wrongly, would go unnoticed.",
     ["python/bindings.cpp", "python/copclib/__init__.py"],
     [("attribute and argument binding", "python/bindings.cpp"), ("sequence protocol", "python/bindings.cpp Points __getitem__/__setitem__")],
     "property-based and stateful testing of the repository's real bindings against Python models")

prop("C36", "Recognisable damage is reported, and only where it is needed",
     "A damaged file is never read as if it were whole: hierarchy pages with invalid entries, pages that list themselves, an ancestor, a key outside themselves or one page twice, pages and compressed node data that extend past the end of the file, truncated or overlong metadata records, invalid or miscounted extents and impossible record lengths raise an error whenever they are read. Queries that do not need the damaged place still give the right answer, before and after such an error, and asking again fails again.",
     ["inputs", "histories"], "all single damages of these kinds in all layouts, and all sequences of queries on the damaged file",
     "The tests only open well-formed files.",
     [IO + "copc_reader.cpp", IO + "base_reader.cpp", IO + "copc_base_io.cpp", "cpp/src/copc/extents.cpp", INC + "hierarchy/entry.hpp"],
     [("page checks", IO + "copc_base_io.cpp ReadAndParsePage"), ("entry checks", IO + "copc_reader.cpp ReadPage"), ("record checks", IO + "base_reader.cpp ReadVlrHeaders"), ("extents checks", "cpp/src/copc/extents.cpp")],
     "stateful testing: generated damage and query sequences; oracle: which pages and chunks each query needs")

prop("C37", "Read errors are reported, and leave no trace",
     "Errors while reading are reported, never papered over. When the input stream cannot deliver some bytes, because a place can't be read or because a read or a repositioning fails (once or from then on, with a short count or with an exception), opening the file, or the query under way, either raises an error or gives the right answer: metadata, nodes, pages and points other than the file's are never handed out. An operation all of whose reads succeed gives the right answer, whatever failed before it on the same reader; once the stream works again, everything can be read from the same reader, or opened on the same stream.",
     ["inputs", "faults", "histories"], "all files, all places and moments of read errors while opening and in sequences of queries, COPC and LAZ",
     "The tests only read from streams that work.",
     [IO + "copc_reader.cpp", IO + "base_reader.cpp", IO + "laz_reader.cpp", IO + "copc_base_io.cpp", "cpp/src/las/vlr.cpp", INC + "laz/decompressor.hpp"],
     [("metadata reads", IO + "base_reader.cpp InitReader, copc_reader.cpp InitCopcReader"), ("page reads", IO + "copc_reader.cpp ReadPage"), ("point reads", IO + "copc_reader.cpp GetPointData, laz_reader.cpp GetPointData")],
     "stateful testing with injected read and seek faults against a stream buffer of the harness; oracle: the built file, and a reader of the intact bytes")

have = set()
for d, e in (("harness/props", ".cpp"), ("python/props", ".py")):
    p = os.path.join(HERE, d)
    if os.path.isdir(p):
        have |= {f[:-len(e)] for f in os.listdir(p) if f.endswith(e) and f[0] == "C"}

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")

CPP = "Sampled evidence, not proof: no violation in the generated cases. Real copc-lib sources from the working tree under ASan+UBSan; laz-perf (not installed here) is replaced by a lossless stand-in with the same interface, so the entropy coder itself is outside the check."
PYN = "Sampled evidence, not proof. The real Python modules run over pure-Python stand-ins for the compiled module and the process pool."
PYC = "Sampled evidence, not proof. The repository's bindings.cpp and library are compiled, unchanged, against a small stand-in for pybind11 (not installed here) and the lossless laz-perf stand-in."
m = {"version": 1, "setup_cmd": "python3 check.py --build", "checks": [], "not_applicable": []}
for p in P:
    i = p["id"]
    if i in have:
        py = os.path.exists(os.path.join(HERE, "python/props/%s.py" % i))
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": p["_tech"], "level": "exploration",
                            "level_note": (CPP.replace("ASan+UBSan", "TSan") if i == "C33" else PYC if i in ("C29", "C35") else PYN if py else CPP) + (" " + p["_note"] if p["_note"] else "")})
    else:
        m["not_applicable"].append({"property": i, "reason": p["_na"] or "check not built yet"})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(m["checks"]), "claimed;", [x["property"] for x in m["not_applicable"]], "not claimed")
