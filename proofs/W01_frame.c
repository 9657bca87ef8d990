//@ property W01
//@ opaque writer write_nullterm write_byte write_posn_wkb write_posn_wkb_3 write_posn_wkb_4 write_ring_points_wkb write_ring_points_wkb_3 write_ring_points_wkb_4 write_string_double write_base_geom_geojson tg_geom_geojson tg_geom_wkt tg_geom_wkb tg_geom_geobin
//@ note every text and binary writer not listed in a W01 unit is shown independent of the buffer by leaving struct writer incomplete while compiling it
