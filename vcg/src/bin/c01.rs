vcg::prop!("C01", "../h/c01.rs");
