//@ property G02 G01
//@ plain
//@ covers poly_covers_geom
//@ remove tg_poly_covers_point tg_poly_covers_line tg_poly_covers_poly poly_covers_base_geom
//@ use dispatch
DISPATCH(poly, covers)
