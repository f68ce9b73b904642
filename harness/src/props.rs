props!("C01" c01_mem, "C02" c02_loadstore, "C03" c03_access, "C04" c04_shuffle, "C05" c05_compare, "C06" c06_arith, "C07" c07_trans, "C08" c08_convert, "C09" c09_geom, "C10" c10_interp, "C11" c11_quat, "C12" c12_matrix, "C13" c13_build, "C14" c14_view, "C15" c15_xform, "C16" c16_plane, "C17" c17_contain, "C18" c18_intersect, "C19" c19_ray, "C20" c20_create, "C22" c22_ops, "C23" c23_pure, "C24" c24_total);
