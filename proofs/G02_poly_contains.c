//@ property G02 G01
//@ plain
//@ covers poly_contains_geom
//@ remove tg_poly_contains_point tg_poly_contains_line tg_poly_contains_poly poly_contains_base_geom
//@ use dispatch
DISPATCH(poly, contains)
