vcg::prop!("C06", "../h/c06.rs");
