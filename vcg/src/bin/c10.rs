vcg::prop!("C10", "../h/c10.rs");
