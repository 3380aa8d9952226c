pub struct Config {
    pub train: String, pub test: String, pub objective: String, pub metrics: Vec<String>, pub metric_frequency: usize,
    pub csv_has_header: bool, pub csv_delimiter: u8, pub categorical_features: Vec<usize>, pub niterations: usize,
    pub learning_rate: f32, pub reg_lambda: f32, pub min_examples_leaf: u32, pub min_gain: f32, pub huber_alpha: f32,
    pub max_nbins: usize, pub discr_nbits: usize, pub max_tree_depth: usize, pub compression_threshold: f32,
    pub binary_gradient_bound: f32, pub random_seed: u64, pub feature_fraction: f32, pub example_fraction: f32, pub sample_freq: usize,
}
impl Config {
    pub fn new() -> Config { unimplemented!() }
    pub fn parse_record<'a>(&mut self, name: &'a str, value: &'a str) -> Result<(), String> { unimplemented!() }
}
