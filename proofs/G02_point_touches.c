//@ property G02 G01
//@ plain
//@ covers point_touches_geom
//@ remove tg_point_touches_point tg_point_touches_line tg_point_touches_poly point_touches_base_geom
//@ use dispatch
DISPATCH(point, touches)
