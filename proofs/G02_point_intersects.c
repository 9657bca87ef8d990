//@ property G02 G01
//@ plain
//@ covers point_intersects_geom
//@ remove tg_point_intersects_point tg_point_intersects_line tg_point_intersects_poly point_intersects_base_geom
//@ use dispatch
DISPATCH(point, intersects)
