//@ property G02 G01
//@ covers line_covers_base_geom
//@ remove tg_line_covers_point tg_line_covers_line tg_line_covers_poly line_covers_geom
//@ ghost int g_k; _Bool g_seen, g_krel;
//@ nloops line_covers_base_geom 1
//@ loop line_covers_base_geom 0
__CPROVER_assigns(i, g_seen)
__CPROVER_loop_invariant(0 <= i && i <= geom->multi->ngeoms && g_seen == 0)
__CPROVER_loop_invariant(!(g_k < i) || g_krel)
__CPROVER_decreases(geom->multi->ngeoms - i)
//@ end
//@ use dispatch
#define WITNESS 0
#define MEMBERS ALL_MEMBERS
CONTENT(line, covers)
