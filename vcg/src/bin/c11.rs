vcg::prop!("C11", "../h/c11.rs");
