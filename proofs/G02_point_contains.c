//@ property G02 G01
//@ plain
//@ covers point_contains_geom
//@ remove tg_point_contains_point tg_point_contains_line tg_point_contains_poly point_contains_base_geom
//@ use dispatch
DISPATCH(point, contains)
