#[derive(Clone, Copy, PartialEq, Eq)]
pub enum FeatType { LoCardCat, HiCardCat, Numerical }
pub struct Data {
    pub max_nbins: usize,
    pub names: Vec<String>,
    pub nfeatures: usize,
    pub nexamples: usize,
    pub features: Vec<Vec<f32>>,
    pub limits: Vec<(f32, f32)>,
    pub ftypes: Vec<FeatType>,
    pub cards: Vec<usize>,
}
impl Data {
    pub fn empty(config: &crate::config::Config, nfeatures: usize, nexamples: usize) -> Data { unimplemented!() }
    pub fn set_feature_data(&mut self, feat_id: usize, column: &[f32], is_categorical: bool) -> Result<(), String> { unimplemented!() }
    pub fn get_feature(&self, feat_id: usize) -> &[f32] { unimplemented!() }
    pub fn get_target(&self) -> &[f32] { unimplemented!() }
    pub fn feat_type(&self, feat_id: usize) -> FeatType { unimplemented!() }
    pub fn nfeatures(&self) -> usize { unimplemented!() }
    pub fn max_nbins(&self, feat_id: usize) -> usize { unimplemented!() }
    pub fn feat_card(&self, feat_id: usize) -> usize { unimplemented!() }
    pub fn feat_limits(&self, feat_id: usize) -> (f32, f32) { unimplemented!() }
    pub fn nexamples(&self) -> usize { unimplemented!() }
    pub fn from_csv(config: &crate::config::Config, csv: &str) -> Result<Data, String> { unimplemented!() }
    pub fn from_csv_path<P>(config: &crate::config::Config, path: P) -> Result<Data, String> { unimplemented!() }
    pub fn from_csv_reader<R>(config: &crate::config::Config, reader: R) -> Result<Data, String> { unimplemented!() }
}
