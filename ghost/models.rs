// Ghost models: only the number of symbols and a digest of the coding history.
#[derive(Debug, Clone)]
pub struct ArithmeticModel {
    pub(crate) symbols: u32,
    pub(crate) hist: u64,
}

impl ArithmeticModel {
    pub fn new(symbols: u32, _compress: bool, init_table: &[u32]) -> Self {
        if symbols < 2 || (symbols > (1 << 11)) {
            panic!("Invalid number of symbols");
        }
        let mut hist = 7u64;
        for v in init_table {
            hist = crate::verif_api::mix(hist, *v as u64);
        }
        Self { symbols, hist }
    }

    pub(crate) fn push(&mut self, sym: u32) {
        self.hist = crate::verif_api::mix(self.hist, sym as u64 + 1);
    }

    #[allow(dead_code)]
    pub fn update(&mut self) {}
}

#[derive(Debug, Copy, Clone)]
pub struct ArithmeticBitModel {
    pub(crate) hist: u64,
}

impl ArithmeticBitModel {
    pub fn new() -> Self {
        Self::default()
    }

    pub(crate) fn push(&mut self, sym: u32) {
        self.hist = crate::verif_api::mix(self.hist, sym as u64 + 1);
    }

    #[allow(dead_code)]
    pub fn update(&mut self) {}
}

impl Default for ArithmeticBitModel {
    fn default() -> Self {
        Self { hist: 3 }
    }
}

pub struct ArithmeticModelBuilder<'a> {
    symbols: u32,
    compress: bool,
    init_table: &'a [u32],
}

impl<'a> ArithmeticModelBuilder<'a> {
    pub fn new(symbols: u32) -> Self {
        Self { symbols, compress: false, init_table: &[] }
    }

    #[allow(dead_code)]
    pub fn with_compression(&mut self, state: bool) -> &'_ mut Self {
        self.compress = state;
        self
    }

    pub fn build(&self) -> ArithmeticModel {
        ArithmeticModel::new(self.symbols, self.compress, self.init_table)
    }
}
