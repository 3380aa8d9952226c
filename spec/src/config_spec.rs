use crate::config::Config; use std::str::FromStr;

/// comma separated, trimmed, in order; empty text is the empty list; one bad item spoils the list
fn list<T: FromStr>(value: &str) -> Option<Vec<T>> {
    let mut out = Vec::new();
    if value.is_empty() { return Some(out); }
    for item in value.split(',') {
        match item.trim().parse::<T>() { Ok(x) => out.push(x), Err(_) => return None }
    }
    Some(out)
}
pub fn list_usize(value: &str) -> Option<Vec<usize>> { list::<usize>(value) }
pub fn list_string(value: &str) -> Option<Vec<String>> { list::<String>(value) }
pub fn one_f32(value: &str) -> Option<f32> { value.parse::<f32>().ok() }
pub fn one_usize(value: &str) -> Option<usize> { value.parse::<usize>().ok() }
pub fn one_u64(value: &str) -> Option<u64> { value.parse::<u64>().ok() }
pub fn one_u32(value: &str) -> Option<u32> { value.parse::<u32>().ok() }
pub fn one_u8(value: &str) -> Option<u8> { value.parse::<u8>().ok() }
pub fn one_bool(value: &str) -> Option<bool> { value.parse::<bool>().ok() }
pub fn one_string(value: &str) -> Option<String> { value.parse::<String>().ok() }
/// name, "=", value; both trimmed; the value is everything after the first "="
pub fn record(config: &mut Config, line: &str) -> Result<(), String> {
    match line.split_once('=') {
        None => Err(String::new()),
        Some((name, value)) => match config.parse_record(name.trim(), value.trim()) { Ok(()) => Ok(()), Err(e) => Err(e) },
    }
}
/// all records, in order, on top of the defaults; the first bad one is the result
pub fn records<'a, I: Iterator<Item = &'a str>>(lines: I) -> Result<Config, String> {
    let mut config = Config::new();
    for line in lines {
        let r = match line.split_once('=') {
            None => return Err(String::new()),
            Some((name, value)) => config.parse_record(name.trim(), value.trim()),
        };
        if let Err(e) = r { return Err(e); }
    }
    Ok(config)
}
