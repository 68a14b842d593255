vcg::prop!("C13", "../h/c13.rs");
