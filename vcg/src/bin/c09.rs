vcg::prop!("C09", "../h/c09.rs");
