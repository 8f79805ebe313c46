pub fn which(name: &str) -> Result<std::path::PathBuf, ()> {
    std::env::split_paths(&std::env::var_os("PATH").ok_or(())?).map(|d| d.join(name)).find(|p| p.is_file()).ok_or(())
}
