//! the command line program
use crate::boost::Booster; use crate::config::Config; use crate::data::Data; use crate::dataset::Dataset; use crate::metric::*; use crate::objective::*;
use crate::tree::{learner::*, tree::*};

type Res<T> = Result<T, String>;
fn bad<T>() -> Res<T> { Err(String::new()) }
fn arguments() -> Res<Vec<String>> {
    let mut out = Vec::new();
    for a in std::env::args_os() { match a.into_string() { Ok(s) => out.push(s), Err(_) => return bad() } }
    Ok(out)
}
fn load(config: &Config) -> Res<(Data, Option<Data>)> {
    let train = Data::from_csv_path(config, config.train.as_str());
    let test = if config.test.is_empty() { None } else { Some(Data::from_csv_path(config, config.test.as_str())) };
    let train = match train { Ok(x) => x, Err(_) => return bad() };
    if train.nfeatures() == 0 { return bad(); }
    match test {
        None => Ok((train, None)),
        Some(Err(_)) => bad(),
        Some(Ok(t)) => if t.nfeatures() < train.nfeatures() { bad() } else { Ok((train, Some(t))) },
    }
}
fn show(values: &[f32]) { for v in values { print!("{}", v); } }
fn evaluate(metrics: &[Box<dyn Metric>], train: &Data, test: Option<&Data>, on_train: &[f32], on_test: Option<&Vec<f32>>) {
    for m in metrics {
        let a = m.eval(train.get_target(), on_train);
        match (test, on_test) {
            (Some(t), Some(p)) => { let b = m.eval(t.get_target(), p); print!("{} {}", a, b); }
            _ => print!("{}", a),
        }
    }
}
/// as `config_spec::records`, in the form that is closest to the program's
fn options<'a, I: Iterator<Item = &'a str>>(lines: I) -> Res<Config> {
    let mut config = Config::new();
    for line in lines {
        let mut parts = line.splitn(2, '=');
        let name = match parts.next() { Some(x) => x, None => return bad() };
        let value = match parts.next() { Some(x) => x, None => return bad() };
        config.parse_record(name.trim(), value.trim())?;
    }
    Ok(config)
}
pub fn main() -> Res<()> {
    let args = arguments()?;
    if args.len() < 2 { return bad(); }
    let mode = args[1].as_str();
    if mode != "tree" && mode != "boost" && mode != "boost_and_predict_raw" { return bad(); }
    let config = options(args[2..].iter().map(|x| x.as_str()))?;
    let mut objective = match objective_from_name(&config.objective) { Some(x) => x, None => return bad() };
    let metrics = match metrics_from_names(&config.metrics) { Some(x) => x, None => return bad() };
    let (train, test) = load(&config)?;
    if mode == "tree" {
        let target = train.get_target();
        objective.initialize(&config, target);
        objective.update(target);
        let mut dataset = Dataset::new(&config, &train);
        dataset.update(&config, objective.gradients(), objective.bounds());
        let mut context = TreeLearnerContext::new(&config, &train);
        let supercats = dataset.get_supercats().clone();
        let mut tree = TreeLearner::new(&mut context, &dataset, supercats, objective.as_mut()).train();
        tree.set_bias(objective.bias());
        let a = tree.predict(&train);
        let b = test.as_ref().map(|t| tree.predict(t));
        evaluate(&metrics, &train, test.as_ref(), &a, b.as_ref());
    } else {
        let model = Booster::new(&config, &train, objective.as_mut(), &metrics).train();
        let a = model.predict(&train);
        let b = test.as_ref().map(|t| model.predict(t));
        if mode == "boost" { evaluate(&metrics, &train, test.as_ref(), &a, b.as_ref()); }
        else {
            show(&a);
            if let Some(b) = &b { show(b); }
        }
    }
    Ok(())
}
