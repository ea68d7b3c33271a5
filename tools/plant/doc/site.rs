//! The documentation of a project of one file.
pub fn make(text: &str) -> std::path::PathBuf {
    let dir = std::env::current_dir().unwrap().join("project");
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::write(dir.join("a.dme"), "#include \"a.dm\"\n").unwrap();
    std::fs::write(dir.join("a.dm"), text).unwrap();
    let exe = std::env::current_exe().unwrap().with_file_name("dmdoc");
    let out = std::process::Command::new(exe).args(["-e", "a.dme"]).current_dir(&dir).output().unwrap();
    println!("{}", String::from_utf8_lossy(&out.stdout));
    println!("{}", String::from_utf8_lossy(&out.stderr));
    dir.join("dmdoc")
}
