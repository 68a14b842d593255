vcg::prop!("C05", "../h/c05.rs");
