"""Which bounded executable-contract harnesses serve which property, and the level each property is reported at."""
TRUSTED = [
    "CBMC 6.11.0 (goto-cc front end, dynamic-frame contract instrumentation, SAT back end MiniSat; cvc5 1.1.2 / z3 where named)",
    "C semantics and x86-64 LP64 data model as implemented by CBMC; IEEE-754 round-to-nearest",
    "gcc -E of /repo/tg.c plus the stated extraction transforms",
    "library models in the unit prelude: nextafterf and nexttoward as the next representable value",
    "clang 18 + AddressSanitizer/UBSan for the bounded executable contracts",
]


def H(harness, bound, quick=10, thorough=120, **kw):
    return dict(harness=harness, bound=bound, quick=quick, thorough=thorough, **kw)


_gen = "generated geometries of all types, nested to 3 levels, up to 150 parts or points, "
NATIVE = {
    "R01": [H("r01", "rectangles and points over a 7-value lattice incl. extremes (exhaustive for pairs on the integer lattice), plus random doubles", 6, 60)],
    "R02": [H("r02", "all segment pairs on a 4x4 integer grid, random integer pairs to 2^20 and random doubles for the bounds clauses", 10, 90)],
    "I01": [H("i01", "random rings, lines and polygons of up to a few hundred points under 12 index options against the unindexed object", 20, 150)],
    "I02": [H("i02", "series of up to a few thousand points, all spreads 0..20 and out-of-range options", 12, 100)],
    "L01": [H("l01", "series of up to ~100 points over integer and extreme doubles, all index options, concavity placed at every position", 15, 100)],
    "L02": [H("l02", "simple integer polygons with holes on grids up to 12x12, every half-integer query point", 15, 120)],
    "S01": [H("s01", "pairs of series of up to ~200 segments, all index combinations, all stopping points of small ones", 15, 120)],
    "S02": [H("s02", "series of up to ~400 segments, random consistent distance functions, ties, every stopping point, every failing allocation", 12, 100)],
    "S03": [H("s03", "collections of up to ~300 children, random and degenerate rectangles", 12, 100)],
    "G01": [H("g01", "pairs from valid integer geometries (related shapes, all representations and indexes), nulls and empties", 20, 150)],
    "G02": [H("g02", "pairs from valid integer geometries in all representations and wrappings", 20, 150)],
    "G04": [H("g04", "pairs of valid integer geometries (grids up to ~12x12) against an exact rational oracle", 20, 150)],
    "A01": [H("a01", _gen + "indexes -2^31..2^31-1 sampled around every bound", 15, 100)],
    "A02": [H("a02", _gen + "all dimension mixes", 10, 80)],
    "M01": [H("m01", "random clone/copy/free histories of up to ~60 steps over up to 40 live objects", 12, 90),
            H("m01", "the same built with TG_NOATOMICS", 6, 45, extra=("-DTG_NOATOMICS",))],
    "M02": [H("m02", "every allocation (first 60 and a sample above) failing once and from then on, for generated inputs of every constructor, copier and parser", 20, 150)],
    "B01": [H("b01", "all strings of 1 byte, half a million mutated, truncated or count-inflated encodings up to ~20 kB", 20, 180)],
    "B02": [H("b02", _gen + "any non-NaN bit pattern, both endians and mixed", 12, 90)],
    "B03": [H("b03", _gen + "features and feature collections", 12, 90)],
    "T01": [H("t01", "all strings of 1 byte, pairs of ~60 tokens in 4 contexts, every truncation of generated documents, random mutations", 20, 180)],
    "T02": [H("t02", "all 2- and 3-byte strings over a 46-byte alphabet, all 2-byte UTF-8 prefixes, generated and damaged JSON values", 15, 120)],
    "T03": [H("t03", "every power of two and ten with neighbours, -110..110 in hundredths, random doubles and decimals; " + _gen.rstrip(", "), 20, 150)],
    "W01": [H("w01", _gen + "every buffer size up to 600 and a sample above", 15, 100)],
    "D01": [H("d01", "all 1- and 2-byte inputs, hex prefixes up to 24, each writer's output with white space and mutations", 12, 100)],
    "D02": [H("d02", "nestings of 1..2100 in every format, with and without siblings, all of 1014..1032", 20, 100)],
}
LEVEL = {"R01": "proof"}     # every clause discharged; everything else is "other": part proved, part bounded
NOTE = {}
NA = {
    "C01": "the contract verifiers here (CBMC contracts) have no concurrency semantics; a contract over one call cannot state an interleaving property",
    "G03": "the DE-9IM result over all valid geometry pairs has no contract within reach: its specification is a topological definition over unbounded point sets and the code is approximate floating point by design",
}
