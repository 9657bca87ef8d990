//@ property G02 G01
//@ covers point_intersects_base_geom
//@ remove tg_point_intersects_point tg_point_intersects_line tg_point_intersects_poly point_intersects_geom
//@ ghost int g_k; _Bool g_seen, g_krel;
//@ nloops point_intersects_base_geom 1
//@ loop point_intersects_base_geom 0
__CPROVER_assigns(i, g_seen)
__CPROVER_loop_invariant(0 <= i && i <= geom->multi->ngeoms && g_seen == 0)
__CPROVER_loop_invariant(!(g_k < i) || !g_krel)
__CPROVER_decreases(geom->multi->ngeoms - i)
//@ end
//@ use dispatch
#define WITNESS 1
#define MEMBERS ANY_MEMBER
CONTENT(point, intersects)
