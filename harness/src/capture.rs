//! Capturing what the library prints to standard output (file descriptor 1 of this process).
use std::io::{Read, Seek, SeekFrom, Write};
use std::os::unix::io::AsRawFd;

/// Runs `f` with descriptor 1 redirected to a scratch file; returns its result and the output.
/// Only valid while no other thread prints.
pub fn capture<T>(f: impl FnOnce() -> T) -> (T, String) {
    let dir = std::env::var("VH_WORK").map(std::path::PathBuf::from).unwrap_or_else(|_| std::env::temp_dir());
    let path = dir.join(format!("cap-{}", std::process::id()));
    let mut file = std::fs::OpenOptions::new()
        .read(true)
        .write(true)
        .create(true)
        .truncate(true)
        .open(&path)
        .unwrap();
    std::io::stdout().flush().unwrap();
    let saved = unsafe { libc::dup(1) };
    unsafe { libc::dup2(file.as_raw_fd(), 1) };
    let r = crate::runner::guard(f);
    let _ = std::io::stdout().flush();
    unsafe {
        libc::dup2(saved, 1);
        libc::close(saved);
    }
    let mut s = Vec::new();
    file.seek(SeekFrom::Start(0)).unwrap();
    file.read_to_end(&mut s).unwrap();
    let _ = std::fs::remove_file(&path);
    match r {
        Ok(t) => (t, String::from_utf8_lossy(&s).into_owned()),
        Err(m) => panic!("{}", m),
    }
}
