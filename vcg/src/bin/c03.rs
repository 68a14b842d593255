vcg::prop!("C03", "../h/c03.rs");
