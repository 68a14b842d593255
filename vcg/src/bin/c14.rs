vcg::prop!("C14", "../h/c14.rs");
