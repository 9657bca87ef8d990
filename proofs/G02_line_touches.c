//@ property G02 G01
//@ plain
//@ covers line_touches_geom
//@ remove tg_line_touches_point tg_line_touches_line tg_line_touches_poly line_touches_base_geom
//@ use dispatch
DISPATCH(line, touches)
