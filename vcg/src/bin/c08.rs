vcg::prop!("C08", "../h/c08.rs");
