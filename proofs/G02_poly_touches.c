//@ property G02 G01
//@ plain
//@ covers poly_touches_geom
//@ remove tg_poly_touches_point tg_poly_touches_line tg_poly_touches_poly poly_touches_base_geom
//@ use dispatch
DISPATCH(poly, touches)
