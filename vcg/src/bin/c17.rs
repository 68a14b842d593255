vcg::prop!("C17", "../h/c17.rs");
