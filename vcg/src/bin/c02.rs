vcg::prop!("C02", "../h/c02.rs");
