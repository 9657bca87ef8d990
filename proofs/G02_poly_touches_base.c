//@ property G02 G01
//@ covers poly_touches_base_geom
//@ remove tg_poly_touches_point tg_poly_touches_line tg_poly_touches_poly poly_touches_geom poly_intersects_geom
//@ ghost int g_k; _Bool g_seen, g_krel, g_irel, g_cross;
//@ nloops poly_touches_base_geom 1
//@ loop poly_touches_base_geom 0
__CPROVER_assigns(i, g_seen, touches, g_cross)
__CPROVER_loop_invariant(0 <= i && i <= geom->multi->ngeoms && g_cross == 0)
__CPROVER_loop_invariant(touches ? touches == 1 && g_seen == 1 : g_seen == 0)
__CPROVER_loop_invariant(!(g_k < i) || (g_krel ? g_seen == 1 : !g_irel))
__CPROVER_loop_invariant(i > 1 || !touches || (i == 1 && (g_k != 0 || g_krel)))
__CPROVER_decreases(geom->multi->ngeoms - i)
//@ end
#define EXTRA_STUB static bool poly_intersects_geom(struct tg_poly *s, const struct tg_geom *g) { bool n; bool r = (g == g_kid ? g_irel : n) ? 1 : 0; if (r) g_cross = 1; return r; }
#define INIT_EXTRA g_cross = 0;
//@ use dispatch
#define WITNESS 1
#define MEMBERS TOUCH_MEMBERS
CONTENT(poly, touches)
