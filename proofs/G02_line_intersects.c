//@ property G02 G01
//@ plain
//@ covers line_intersects_geom
//@ remove tg_line_intersects_point tg_line_intersects_line tg_line_intersects_poly line_intersects_base_geom
//@ use dispatch
DISPATCH(line, intersects)
