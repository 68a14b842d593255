vcg::prop!("C16", "../h/c16.rs");
