//! Stand-in for `glob`: patterns of the form folder/name.*
use std::path::{Path, PathBuf};
pub fn glob(p: &str) -> Result<std::vec::IntoIter<Result<PathBuf, std::io::Error>>, std::io::Error> {
    let p = Path::new(p.strip_suffix('*').unwrap());
    let start = p.file_name().unwrap().to_string_lossy().to_string();
    let mut v: Vec<PathBuf> = std::fs::read_dir(p.parent().unwrap()).map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect()).unwrap_or_default();
    v.retain(|x| x.file_name().unwrap().to_string_lossy().starts_with(&start));
    v.sort();
    Ok(v.into_iter().map(Ok).collect::<Vec<_>>().into_iter())
}
