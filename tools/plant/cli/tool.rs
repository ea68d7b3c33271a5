//! The map tool, run in a folder of its own which holds these files.
pub fn run(files: &[(&str, &str)], args: &[&str]) -> (String, std::path::PathBuf) {
    let dir = std::env::current_dir().unwrap().join("project");
    std::fs::create_dir_all(&dir).unwrap();
    for (name, text) in files {
        std::fs::write(dir.join(name), text).unwrap();
    }
    let exe = std::env::current_exe().unwrap().with_file_name("dmm-tools");
    let out = std::process::Command::new(exe).args(args).current_dir(&dir).output().unwrap();
    println!("{}", String::from_utf8_lossy(&out.stderr));
    let text = String::from_utf8_lossy(&out.stdout).into_owned();
    println!("{}", text);
    (text, dir)
}
