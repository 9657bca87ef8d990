//@ property G02 G01
//@ plain
//@ covers point_covers_geom
//@ remove tg_point_covers_point tg_point_covers_line tg_point_covers_poly point_covers_base_geom
//@ use dispatch
DISPATCH(point, covers)
