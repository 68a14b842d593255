vcg::prop!("C04", "../h/c04.rs");
