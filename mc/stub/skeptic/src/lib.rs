//! Stand-in for the skeptic build dependency of /repo: documentation tests are not needed here.

pub fn generate_doc_tests<T: AsRef<std::path::Path>>(_docs: &[T]) {
    // tests/skeptic.rs includes this file, but only when /repo's own tests are built
    if let Ok(out) = std::env::var("OUT_DIR") {
        let _ = std::fs::write(std::path::Path::new(&out).join("skeptic-tests.rs"), "");
    }
}

pub fn markdown_files_of_directory(_dir: &str) -> Vec<std::path::PathBuf> {
    Vec::new()
}
