vcg::prop!("C07", "../h/c07.rs");
