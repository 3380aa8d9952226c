use crate::config::Config; use crate::data::*; use crate::csv;
use std::io::Read;

/// a category is a whole number that fits the category type
pub fn category(value: f32) -> Result<(), String> {
    if value.round() != value || value < 0.0 || value >= 4294967296.0 { Err(String::new()) } else { Ok(()) }
}
pub fn path<P: AsRef<std::path::Path>>(config: &Config, path: P) -> Result<Data, String> {
    match std::fs::File::open(path) { Err(_) => Err(String::new()), Ok(f) => Data::from_csv_reader(config, f) }
}
pub fn reader(config: &Config, mut reader: std::fs::File) -> Result<Data, String> {
    let mut text = String::new();
    match reader.read_to_string(&mut text) { Err(_) => Err(String::new()), Ok(_) => Data::from_csv(config, &text) }
}
/// every record contributes one value per column, in order
pub fn from_csv(config: &Config, text: &str) -> Result<Data, String> {
    let mut width = 0;
    let mut count = 0;
    let mut features = Vec::<Vec<f32>>::new();
    let mut limits = Vec::new();
    let mut ftypes = Vec::new();
    let mut cards = Vec::new();
    let mut record = csv::StringRecord::new();
    let mut reader = csv::ReaderBuilder::new().has_headers(config.csv_has_header).delimiter(config.csv_delimiter).from_reader(text.as_bytes());
    loop {
        match reader.read_record(&mut record) {
            Err(_) => return Err(String::new()),
            Ok(false) => break,
            Ok(true) => {}
        }
        if count == 0 {
            width = record.len();
            features.resize(width, Vec::new());
            limits.resize(width, (f32::INFINITY, f32::NEG_INFINITY));
            ftypes.resize(width, FeatType::Numerical);
            for &c in config.categorical_features.iter() { if c < width { ftypes[c] = FeatType::LoCardCat; } }
            cards.resize(width, 0);
        }
        for i in 0..width {
            let value = match record.get(i) { None => return Err(String::new()), Some(x) => match x.parse::<f32>() { Ok(v) => v, Err(_) => return Err(String::new()) } };
            features[i].push(value);
            limits[i] = (f32::min(limits[i].0, value), f32::max(limits[i].1, value));
            if ftypes[i] == FeatType::LoCardCat {
                if category(value).is_err() { return Err(String::new()); }
                cards[i] = cards[i].max(1 + value as u32 as usize);
            }
        }
        count += 1;
    }
    if count == 0 { return Err(String::new()); }
    for j in 0..width { if cards[j] > config.max_nbins { ftypes[j] = FeatType::HiCardCat; } }
    let mut names = vec![String::new(); width];
    if config.csv_has_header {
        match reader.headers() {
            Err(_) => return Err(String::new()),
            Ok(h) => for i in 0..h.len() { names[i].push_str(h.get(i).unwrap()); },
        }
    }
    Ok(Data { max_nbins: config.max_nbins, names, nfeatures: width - 1, nexamples: count, features, limits, ftypes, cards })
}
/// all columns present, numerical and zero
pub fn empty(config: &Config, nfeatures: usize, nexamples: usize) -> Data {
    let n = nfeatures + 1;
    Data { max_nbins: config.max_nbins, names: Vec::new(), nfeatures, nexamples, features: vec![vec![0.0; nexamples]; n],
           limits: vec![(0.0, 0.0); n], ftypes: vec![FeatType::Numerical; n], cards: vec![0; n] }
}
/// the column's values, limits, cardinality and kind are those of the new values
pub fn set_feature_data(d: &mut Data, id: usize, values: &[f32], categorical: bool) -> Result<(), String> {
    if values.len() != d.nexamples || d.features[id].len() != d.nexamples { panic!(); }
    d.limits[id] = (f32::INFINITY, f32::NEG_INFINITY);
    d.cards[id] = 0;
    for i in 0..d.nexamples {
        let value = values[i];
        d.features[id][i] = value;
        d.limits[id] = (f32::min(d.limits[id].0, value), f32::max(d.limits[id].1, value));
        if categorical {
            if category(value).is_err() { return Err(String::new()); }
            d.cards[id] = d.cards[id].max(1 + value as u32 as usize);
        }
    }
    d.ftypes[id] = if !categorical { FeatType::Numerical } else if d.cards[id] > d.max_nbins { FeatType::HiCardCat } else { FeatType::LoCardCat };
    Ok(())
}
pub fn max_nbins(d: &Data, id: usize) -> usize {
    if d.ftypes[id] != FeatType::LoCardCat { return d.max_nbins; }
    match d.cards[id] { 1 => 0, 2 => 1, n => n }
}
pub fn nfeatures(d: &Data) -> usize { d.nfeatures }
pub fn nexamples(d: &Data) -> usize { d.nexamples }
pub fn target_id(d: &Data) -> usize { d.nfeatures }
pub fn feat_limits(d: &Data, id: usize) -> (f32, f32) { d.limits[id] }
pub fn feat_type(d: &Data, id: usize) -> FeatType { d.ftypes[id] }
pub fn feat_card(d: &Data, id: usize) -> usize { d.cards[id] }
pub fn feat_name(d: &Data, id: usize) -> &str { &d.names[id] }
pub fn get_feature(d: &Data, id: usize) -> &[f32] { &d.features[id] }
pub fn get_target(d: &Data) -> &[f32] { &d.features[d.nfeatures] }
