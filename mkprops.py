import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    P.append(d)
tg=["tg.c","tg.h"]
p("R01","Rectangle and point algebra is exact",
"For all finite coordinates, rectangle intersection, rectangle-point intersection and point-rectangle intersection agree exactly with the closed-interval definition, expansion by a rectangle or point yields the smallest rectangle containing both inputs, and the bounding rectangle of a point or segment is the smallest one that contains it. These operations depend on nothing but their arguments and change nothing else.",
["inputs"],"all finite double coordinates, all well-formed rectangles",
"Tests sample a handful of rectangles; the comparisons are per-axis and per-side, so a fault on one side or for touching edges needs the exact values on that side.",
tg,[("rect/point/segment primitives","tg.c: tg_rect_*, tg_point_*, tg_segment_rect, segment_fill_rect, rect_inflate*")],observe=["return values of the tg_rect_*, tg_point_* and tg_segment_rect functions"])
p("R02","Segment intersection is exact on integers and never contradicts its bounds",
"Whether two segments intersect is reported exactly whenever the coordinates are small integers, including collinear overlap, shared endpoints, T-junctions and zero-length segments, and does not depend on the order of the two segments or of their endpoints. For all finite coordinates, segments whose bounding rectangles are disjoint are reported as not intersecting and segments sharing an endpoint are reported as intersecting.",
["inputs"],"all pairs of segments with small integer coordinates; the bounds and endpoint clauses over all finite doubles",
"The test suite has a few dozen hand-drawn segment pairs; the case split over orientation, collinearity and endpoint order has thousands of combinations.",
tg,[("segment predicates","tg.c: tg_segment_intersects_segment, collinear, point_on_segment, tg_segment_covers_*")])
p("I01","Indexing never changes an answer",
"Building a line, ring or polygon with no index, a natural index of any spread, or a y-stripes index gives the same result for every spatial predicate, every segment search and every point query over finite coordinates. The index option affects speed and memory only.",
["inputs","configurations"],"all geometries, all index kinds and spreads, all query geometries",
"Tests run a few fixed shapes through each index kind; a pruning error shows only for a query that touches one particular stripe or index rectangle.",
tg,[("natural index","tg.c: process_points, fill_in_upper_index_levels, index_search, ring_ring_ix, index_pip_counter, tg_rect_to_ixrect"),("y-stripes","tg.c: process_ystripes, ystripes_pip"),("plain scan","tg.c: standard_pip, tg_ring_search")],
[("index levels","each index rectangle covers every segment below it","struct index / struct ystripes")])
p("I02","Index structure covers its segments and options are clamped",
"Every indexed line or ring reports an index whose level sizes are exactly those implied by its spread and segment count, and in which each rectangle covers every rectangle or segment grouped under it. Index options combine a kind with a spread that is clamped to the documented range and decoded unchanged, and setting an out-of-range environment spread or unknown default kind changes nothing.",
["inputs","configurations"],"all point series, spreads and index options",
"Tests print the levels of a few shapes; the grouping arithmetic has boundary cases at every multiple of every spread.",
tg,[("index sizing","tg.c: calc_num_keys, calc_num_levels, calc_index_size, fill_index_struct, fill_in_upper_index_levels"),("options","tg.c: tg_index_with_spread, tg_index_extract_spread, tg_env_set_index, tg_env_set_index_spread"),("accessors","tg.c: index_level_num_rects, index_level_rect")])
p("L01","Lines, rings and polygons hold exactly what they were given",
"A constructed line or ring reports exactly the given points in order, the segments joining them (closing a ring only when the last point differs from the first), the smallest rectangle enclosing the points (two or more), and for small-integer rings the exact area, and for simple ones the exact winding direction and convexity. A polygon reports its exterior and holes in the given order, and point or segment requests outside the valid range return zero values and never read out of bounds.",
["inputs"],"all point counts and finite coordinates, all index values",
"The construction loop has eight hand-specialised copies selected by index use, position and concavity; the samples do not exercise the hand-over between them at each position.",
tg,[("series construction","tg.c: series_new, process_points, num_segments, calc_series_size"),("accessors","tg.c: tg_ring_point_at, tg_ring_segment_at, tg_ring_num_*, tg_line_*, tg_poly_*")])
p("L02","Point-in-polygon is exact",
"For simple polygons with small-integer coordinates, a polygon covers a point exactly when the point lies in the exterior ring's closed region and not strictly inside a hole, and contains it exactly when it lies in the interior of the polygon. Points on any edge or vertex are boundary points, whatever their relation to other edges, horizontal runs or collinear vertices.",
["inputs"],"all simple polygons and query points on a small integer grid",
"Ray casting fails at specific vertex/ray alignments; tests cover a few shapes and points.",
tg,[("ray casting","tg.c: raycast, pip_eval_seg, pip_eval_seg_slow, standard_pip, tg_ring_contains_point, poly_contains_point, point_intersects_geom")])
p("S01","Segment-pair search reports each crossing pair exactly once",
"Searching two lines or rings for crossing segments reports every intersecting pair of segments, in the caller's argument order with the correct segment indexes, no non-intersecting pair, and no pair twice, for any combination of indexes on the two inputs. When the callback returns false nothing more is reported.",
["inputs","configurations"],"all pairs of series, all index combinations, all stopping points",
"Tests check a few shapes; the recursive descent has four cases depending on the relative heights of the two indexes.",
tg,[("search","tg.c: tg_ring_ring_search, ring_ring_ix, ring_ring_iter, tg_ring_search, index_search, tg_line_line_search, tg_ring_line_search")])
p("S02","Nearest-segment iteration is complete and in order",
"With callbacks that return consistent distances, nearest-segment iteration reports every segment of the series exactly once, in non-decreasing order of distance, each with its own index, endpoints and distance, whether or not the series is indexed. It stops as soon as the callback returns false, and returns false only when memory ran out.",
["inputs","fault_sequences"],"all series, index kinds, distance functions and stopping points; allocation failures",
"Queue overflow past its initial capacity, ties and multi-level indexes need sizes and distance patterns the tests do not enumerate.",
tg,[("priority queue","tg.c: nqueue_push, nqueue_pop, nqcompare, nqswap"),("kNN","tg.c: tg_ring_nearest_segment, tg_line_nearest_segment")])
p("S03","Child search of collections is exact",
"Searching a multi-geometry or collection with a rectangle calls back exactly the direct children whose bounding rectangle intersects it, each once with its own child index, for any number of children, and stops when the callback returns false. For a geometry that is not a collection nothing is called back.",
["inputs"],"all collections including those large enough to be indexed, all rectangles",
"Collections are indexed only from 64 children on, in a space-filling order; only a few such collections appear in tests.",
tg,[("multi index","tg.c: geom_new_multi, multi_geom_inflate_index, tg_point_hilbert, tg_geom_search, index search helpers")])
p("G01","Spatial predicates obey their defining laws",
"For all geometries: disjoint is the negation of intersects, within and coveredby are contains and covers with the arguments exchanged, intersects does not depend on argument order, and equals implies mutual covers; a null or empty geometry relates to nothing. Every predicate terminates.",
["inputs"],"all pairs of geometries of all types, nulls and empties",
"The tests enumerate fixed pairs; a fault in one cell of the type-by-type dispatch, or a non-terminating walk, needs a particular type pair and shape.",
tg,[("dispatch","tg.c: tg_geom_intersects, tg_geom_covers, tg_geom_contains, tg_geom_touches, tg_geom_equals, tg_geom_within, tg_geom_coveredby, tg_geom_disjoint and the *_geom helpers"),("line walk","tg.c: tg_line_covers_line")])
p("G04","Intersects is exact on the integer grid",
"For valid geometries whose coordinates are small integers, intersects is true exactly when the two point sets share a point, for every pair of geometry types, every internal representation, every index and either argument order.",
["inputs","configurations"],"all pairs of valid geometries with small integer coordinates",
"Touching at a vertex, along an edge, or inside a hole differs for each of the type-by-type algorithms; tests contain a few of each.",
tg,[("predicates","tg.c: tg_geom_intersects, tg_poly_intersects_*, tg_line_intersects_*, tg_ring_intersects_*, ring_intersects_segment, raycast")])
p("G02","Wrapping a geometry does not change its relations",
"A geometry given as a bare line, ring or polygon, as the equivalent point, line or polygon geometry (with or without extra coordinates or feature wrapping), or as the only member of a collection gives the same answer to intersects, covers, contains and touches queries against every other geometry in either argument position, where both forms are defined to be the same shape. Querying with a rectangle or with x and y gives the answer for the corresponding polygon or point.",
["inputs"],"all representations of the same shape against all other geometries",
"There are five internal representations and seven types; tests mix only some.",
tg,[("representation dispatch","tg.c: *_geom and *_base_geom dispatch functions, tg_geom_intersects_rect, tg_geom_intersects_xy")])
p("A01","Geometry accessors are total and bounds-checked",
"Every accessor is defined for every geometry, null and index: counts are those of the geometry's own type and zero otherwise, items come back in construction order, and any index outside the valid range yields a zero value or null without reading memory outside the geometry. Extra-dimension accessors return exactly what was supplied, the bounding rectangle of a polygon is that of its exterior ring, and that of a multi-geometry or collection is the smallest one containing those of its children (an empty child counts as the zero rectangle).",
["inputs"],"all geometries, representations and index values",
"Accessors are tested with valid indexes; the invalid neighbourhood of every bound of every type is not.",
tg,[("accessors","tg.c: tg_geom_*_at, tg_geom_num_*, tg_geom_point/line/poly, tg_geom_z/m/dims, tg_geom_extra_coords, tg_geom_rect, tg_geom_is_*")])
p("A02","Full-dimension bounds are exact",
"The full bounding box of a geometry reports the number of its coordinate dimensions and exact per-dimension minima and maxima over all its points, including z and m values, for every geometry type and nesting. The bounds of polygons in x and y are those of their exterior rings, and the first two dimensions equal the bounding rectangle of the geometry when it has no empty part.",
["inputs"],"all geometries with and without z and m",
"Tests check a few geometries; extra coordinates are walked by separate code per type and dimension.",
tg,[("fullrect","tg.c: tg_geom_fullrect, geom_foreach")])
p("M01","Ownership and sharing are balanced",
"After any sequence of create, clone, copy, parse and free calls in which every owned geometry is freed exactly once in any order, all memory is released and none is released early: components kept by another owner stay valid. A deep copy is indistinguishable from its original and independent of it.",
["histories"],"all sequences of clone/copy/free over all geometry types",
"Tests free in one fixed order per geometry; reference counts fail only for particular sharing and freeing orders.",
tg,[("reference counts","tg.c: rc_init, rc_retain, rc_release, tg_*_free, tg_*_clone"),("copies","tg.c: tg_geom_copy, geom_copy, tg_ring_copy, tg_poly_copy, boxed_point_copy")],
[("rc","number of owners","struct head")])
p("M02","Allocation failure is reported cleanly",
"When any allocation fails, every constructor, copy and parser returns null (or the documented failure value) without leaking memory, corrupting its inputs or crashing. The same call made again with memory available succeeds.",
["fault_sequences"],"every allocation point of every constructor, copier and parser",
"The chaos tests fail allocations at random; the rare allocation in a rarely used branch is not reached reliably.",
tg,[("failure paths","tg.c: fail/cleanup labels of constructors, parse_* and *_copy functions, def_vec append, nqueue_push")])
p("B01","Binary parsing is memory-safe and total",
"For every byte string of every length, parsing WKB, hex or GeoBIN, and reading a GeoBIN's bounds or point without parsing, terminates and reads only the given bytes. The result is null on memory exhaustion or empty input, or a geometry, or an error geometry with a message; nothing leaks.",
["inputs"],"all byte strings of all lengths",
"Malformed inputs are sampled; length arithmetic fails only for particular 32-bit counts.",
tg,[("WKB","tg.c: parse_wkb*, read_uint32, read_posn"),("GeoBIN","tg.c: parse_geobin*, tg_geobin_fullrect, tg_geobin_rect, tg_geobin_point"),("hex","tg.c: parse_hex")])
p("B02","WKB and hex round-trip losslessly",
"Writing any geometry (no feature attributes) as WKB or hex and parsing it back gives a geometry of the same type, dimensions, structure and bit-identical coordinates, and writing that again gives identical bytes; empty geometries are two-dimensional and empty parts of multi-geometries are left out. Big-endian and little-endian encodings, and upper- or lower-case hex, of the same geometry parse to the same geometry.",
["inputs"],"all geometries of all types, dimensions, nestings and coordinate bit patterns",
"Tests round-trip a list of small geometries; per-type per-dimension writer and reader code is only sampled.",
tg,[("writers","tg.c: write_geom_wkb, write_*_wkb, tg_geom_hex"),("readers","tg.c: parse_wkb*, parse_hex, read_double, read_uint32/64")])
p("B03","GeoBIN round-trips and its header agrees with the geometry",
"Writing any geometry as GeoBIN and parsing it back preserves its type and coordinates, whether it is a feature or feature collection, and the extra JSON of the geometry and of each feature. For geometries without empty parts the bounds, dimension count and point (its centre when it is no plain point) read directly from the bytes equal those of the parsed geometry, as long as the centre does not overflow. The layout is that of the published format.",
["inputs"],"all geometries including features and feature collections",
"Tests check a few shapes; header and body are produced and consumed by separate code.",
tg+["docs/GEOBIN.md"],[("GeoBIN","tg.c: write_geom_geobin, write_*_geobin, parse_geobin*, tg_geobin_*")])
p("T01","Text parsing is memory-safe and total",
"For every byte string of every length, with or without a terminator, parsing it as GeoJSON or WKT, or with automatic format detection, terminates and reads only the given bytes. The result is null on memory exhaustion or empty input, or a geometry, or an error geometry with a message; nothing leaks.",
["inputs"],"all byte strings of all lengths",
"Malformed inputs are sampled; scanners go wrong at particular truncation points.",
tg+["deps/json.c"],[("JSON","tg.c/deps/json.c: v* validators, count_*, take_*, peek_any, json_*"),("WKT","tg.c: wkt_* scanners, parse_wkt*"),("GeoJSON","tg.c: parse_geojson*")])
p("T02","Exactly the valid JSON texts are accepted as JSON",
"A text is taken as JSON exactly when it is a single JSON value by RFC 8259 with valid UTF-8, within the documented nesting limit; anything else is an error. Extra members kept from GeoJSON are themselves valid JSON and come back unchanged when the geometry is written as GeoJSON.",
["inputs"],"all byte strings",
"The grammar is decided by hand-unrolled scanners; tests sample valid and invalid documents.",
tg+["deps/json.c"],[("validator","tg.c/deps/json.c: json_validn_ex, vpayload, vany, vobject, varray, vstring, vesc, vutf8, vnumber"),("extra members","tg.c: parse_geojson, tg_geom_extra_json, write_geom_geojson")])
p("T03","Text output parses back to the same geometry",
"Writing a valid geometry as WKT or GeoJSON and parsing it back gives the same type, structure, dimensions and coordinate values for all finite coordinates, and writing again gives the same text (empty geometries are two-dimensional, and in GeoJSON a lone m is read as z). Coordinates print in a shortest form that reads back to the same double, in both printing modes.",
["inputs","configurations"],"all geometries with finite coordinates; both float printing modes",
"Decimal conversion is right for sampled values; errors appear at particular exponents and mantissas.",
tg+["deps/fp.c"],[("writers","tg.c: write_geom_wkt, write_geom_geojson, write_string_double"),("numbers","tg.c/deps/fp.c: fp_dtoa, fp_atod, d2s, s2d_n")])
p("W01","Writers honour the buffer and report the full length",
"Every writer returns the length of the complete output whatever buffer it is given, never writes outside the given buffer, and stores exactly the longest prefix that fits. Text output is always terminated inside a non-empty buffer, and a null buffer of size zero is allowed.",
["inputs"],"all geometries, all five output formats, all buffer sizes",
"Tests write into large-enough buffers or a few sizes; truncation must be right at every cut of every geometry.",
tg,[("writer","tg.c: write_byte, write_nullterm, write_string*, tg_geom_wkt, tg_geom_geojson, tg_geom_wkb, tg_geom_hex, tg_geom_geobin")],
[("writer","dst, capacity n, running count","struct writer")])
p("D01","Format detection picks the right parser",
"Automatic parsing of any input gives the same result as calling the parser of the format the documented rule selects from its leading bytes: GeoJSON, WKT, hex, GeoBIN or WKB. Geometries produced by any writer are detected as that format.",
["inputs"],"all byte strings, all index options",
"Tests feed one or two inputs per format; detection depends on leading bytes and white space.",
tg,[("detection","tg.c: tg_parse, tg_parse_ix")])
p("D02","Nesting is bounded the same way everywhere",
"Nesting up to one fixed maximum depth of 1024 parses in every format (parentheses in WKT, values in GeoJSON, geometries below the outermost in WKB, hex and GeoBIN), and anything deeper is rejected with an error instead of exhausting the stack. The limit does not depend on what stands beside the nesting.",
["inputs"],"all nesting depths in WKT, GeoJSON, WKB, hex and GeoBIN",
"Tests try one depth on either side for some formats.",
tg,[("depth checks","tg.c: parse_wkb, parse_geobin, parse_wkt_geometrycollection, parse_geojson_geometrycollection, wkt depth check, JSON_MAXDEPTH")])
p("C01","Sharing geometries between threads is safe",
"Any number of threads may read, clone and free shared geometries at the same time, as long as each frees only what it owns, and get the same results as one thread would, with every object released exactly once.",
["schedules"],"all interleavings of clone, free and read operations",
"Tests are single-threaded.",
tg,[("atomic counts","tg.c: rc_retain, rc_release")])
p("G03","Predicates equal the OGC definitions for all valid geometries",
"For all pairs of valid geometries, intersects, covers, contains, touches and equals give the answers of the OGC Simple Features (DE-9IM) definitions.",
["inputs"],"all pairs of valid geometries",
"Tests compare fixed pairs with GEOS results.",
tg,[("predicates","tg.c: tg_poly_covers_poly, tg_poly_touches_poly, tg_ring_contains_segment, tg_line_covers_line and others")])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
