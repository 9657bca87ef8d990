//@ property G02 G01
//@ plain
//@ covers line_contains_geom
//@ remove tg_line_contains_point tg_line_contains_line tg_line_contains_poly line_contains_base_geom
//@ use dispatch
DISPATCH(line, contains)
