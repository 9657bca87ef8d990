//@ property G02 G01
//@ covers line_intersects_base_geom
//@ remove tg_line_intersects_point tg_line_intersects_line tg_line_intersects_poly line_intersects_geom
//@ ghost int g_k; _Bool g_seen, g_krel;
//@ nloops line_intersects_base_geom 1
//@ loop line_intersects_base_geom 0
__CPROVER_assigns(i, g_seen)
__CPROVER_loop_invariant(0 <= i && i <= geom->multi->ngeoms && g_seen == 0)
__CPROVER_loop_invariant(!(g_k < i) || !g_krel)
__CPROVER_decreases(geom->multi->ngeoms - i)
//@ end
//@ use dispatch
#define WITNESS 1
#define MEMBERS ANY_MEMBER
CONTENT(line, intersects)
