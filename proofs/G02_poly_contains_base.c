//@ property G02 G01
//@ covers poly_contains_base_geom
//@ remove tg_poly_contains_point tg_poly_contains_line tg_poly_contains_poly poly_contains_geom
//@ ghost int g_k; _Bool g_seen, g_krel;
//@ nloops poly_contains_base_geom 1
//@ loop poly_contains_base_geom 0
__CPROVER_assigns(i, g_seen, contains)
__CPROVER_loop_invariant(0 <= i && i <= geom->multi->ngeoms && g_seen == 0 && contains == 1)
__CPROVER_loop_invariant(!(g_k < i) || g_krel)
__CPROVER_decreases(geom->multi->ngeoms - i)
//@ end
//@ use dispatch
#define WITNESS 0
#define MEMBERS ALL_MEMBERS
CONTENT(poly, contains)
