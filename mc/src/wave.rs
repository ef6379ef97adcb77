//! Read back a waveform file, strictly.
use std::path::Path;

#[derive(Clone, Debug, PartialEq)]
pub struct Wave {
    pub names: Vec<String>,
    pub units: Vec<String>,
    /// time, then one value per column after Time
    pub rows: Vec<(f64, Vec<f64>)>,
}

pub fn parse(text: &str) -> Result<Wave, String> {
    if !text.ends_with('\n') {
        return Err("waveform file doesn't end with a complete row".to_string());
    }
    let mut lines = text.lines();
    let names: Vec<String> = lines.next().ok_or("no header")?.split('\t').map(|s| s.to_string()).collect();
    let units: Vec<String> = lines.next().ok_or("no units row")?.split('\t').map(|s| s.to_string()).collect();
    if units.len() != names.len() {
        return Err(format!("{} names but {} units", names.len(), units.len()));
    }
    let mut rows = vec![];
    for (k, l) in lines.enumerate() {
        let mut v = vec![];
        for f in l.split('\t') {
            v.push(f.parse::<f64>().map_err(|_| format!("row {}: '{}' is not a number", k, f))?);
        }
        if v.len() != names.len() {
            return Err(format!("row {} has {} fields, the header has {}", k, v.len(), names.len()));
        }
        rows.push((v[0], v[1..].to_vec()));
    }
    Ok(Wave { names, units, rows })
}

pub fn load(path: &Path) -> Result<Wave, String> {
    parse(&std::fs::read_to_string(path).map_err(|e| format!("{}: {}", path.display(), e))?)
}
