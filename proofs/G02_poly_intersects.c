//@ property G02 G01
//@ plain
//@ covers poly_intersects_geom
//@ remove tg_poly_intersects_point tg_poly_intersects_line tg_poly_intersects_poly poly_intersects_base_geom
//@ use dispatch
DISPATCH(poly, intersects)
