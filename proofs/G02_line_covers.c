//@ property G02 G01
//@ plain
//@ covers line_covers_geom
//@ remove tg_line_covers_point tg_line_covers_line tg_line_covers_poly line_covers_base_geom
//@ use dispatch
DISPATCH(line, covers)
