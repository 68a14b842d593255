vcg::prop!("C12", "../h/c12.rs");
