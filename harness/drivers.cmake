vdriver(p01_sched scipp-units)
vdriver(p01_seq scipp-units)
vdriver(p04_dict scipp-core)
vdriver(p05_element_array scipp-core)
vdriver(p03_shapes scipp-core)
vdriver(p02_iter scipp-core)
vdriver(p06_numeric scipp-core)
vdriver(p07_spatial scipp-variable)
vdriver(p09_views scipp-variable)
vdriver(p11_reduce scipp-dataset)
vdriver(p12_shape scipp-dataset)
vdriver(p16_events scipp-dataset)
vdriver(p18_hist scipp-dataset)
vdriver(p19_groupby scipp-dataset)
vdriver(p15_labelled scipp-dataset)
vdriver(p20_records scipp-dataset)
vdriver(p13_meta scipp-dataset)
vdriver(p21_equality scipp-dataset)
vdriver(p17_bins scipp-dataset)
