//! File trees in a scratch directory.
use serde_json::Value;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};

/// A scratch directory, removed at the end.
pub struct Scratch(pub PathBuf);
static COUNT: AtomicUsize = AtomicUsize::new(0);
impl Scratch {
    pub fn new() -> Scratch {
        let n = COUNT.fetch_add(1, Ordering::SeqCst);
        let p = std::env::temp_dir().join(format!("vh-{}-{}", std::process::id(), n));
        std::fs::create_dir_all(&p).expect("scratch");
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// The bytes of a file: lines, then how it ends.
pub fn bytes(f: &Value) -> Vec<u8> {
    let mut plain = Vec::new();
    for l in f["lines"].as_array().map(|x| x.as_slice()).unwrap_or(&[]) {
        plain.extend_from_slice(l.as_str().unwrap().as_bytes());
        plain.push(b'\n');
    }
    let end = f["end"].as_str().unwrap_or("eof");
    if end == "utf8" {
        plain.extend_from_slice(b"12 \xff\xfe zugggg wuggg\n13 vuzzzz vozzzz late\n");
    }
    if end == "nonl" {
        plain.pop();
    }
    if f["gz"].as_bool() == Some(true) {
        let level = flate2::Compression::new(f["level"].as_u64().unwrap_or(6) as u32);
        let mut enc = flate2::write::GzEncoder::new(Vec::new(), level);
        enc.write_all(&plain).unwrap();
        match end {
            "trunc" => {
                // what is before is decodable
                enc.flush().unwrap();
                let keep = enc.get_ref().len();
                enc.write_all(b"14 vuzzzz vozzzz vyzzzz incomplete tail of the file").unwrap();
                let mut all = enc.finish().unwrap();
                all.truncate(keep);
                all
            }
            "crc" => {
                let mut all = enc.finish().unwrap();
                let n = all.len();
                all[n - 6] ^= 0x55;
                all
            }
            _ => {
                let mut all = enc.finish().unwrap();
                if let Some(n) = f["cut"].as_u64() {
                    all.truncate(n as usize);
                }
                all
            }
        }
    } else {
        plain
    }
}

pub fn make(root: &Path, files: &Value) {
    use std::os::unix::fs::PermissionsExt;
    std::fs::create_dir_all(root).unwrap();
    for f in files.as_array().unwrap() {
        let path = root.join(f["path"].as_str().unwrap());
        if let Some(p) = path.parent() {
            std::fs::create_dir_all(p).unwrap();
        }
        match f["kind"].as_str().unwrap_or("file") {
            "file" => {
                std::fs::write(&path, bytes(f)).unwrap();
                if f["end"] == "open" {
                    std::fs::set_permissions(&path, std::fs::Permissions::from_mode(0)).unwrap();
                }
            }
            "dir" => {
                std::fs::create_dir_all(&path).unwrap();
                if f["end"] == "open" {
                    std::fs::set_permissions(&path, std::fs::Permissions::from_mode(0)).unwrap();
                }
            }
            "link" => std::os::unix::fs::symlink(root.join(f["to"].as_str().unwrap()), &path).unwrap(),
            "fifo" => {
                let c = std::ffi::CString::new(path.to_str().unwrap()).unwrap();
                unsafe { libc::mkfifo(c.as_ptr(), 0o644) };
            }
            "sock" => drop(std::os::unix::net::UnixListener::bind(&path).unwrap()),
            k => panic!("kind {}", k),
        }
    }
}

/// Run as an unprivileged user: the credentials of this thread only.
pub fn unprivileged<T>(f: impl FnOnce() -> T) -> T {
    unsafe {
        if libc::syscall(libc::SYS_setresuid, -1i32, 65534i32, -1i32) != 0 {
            eprintln!("can't change the user");
            std::process::exit(3);
        }
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    unsafe {
        if libc::syscall(libc::SYS_setresuid, -1i32, 0i32, -1i32) != 0 {
            std::process::exit(3);
        }
    }
    match r {
        Ok(x) => x,
        Err(e) => std::panic::resume_unwind(e),
    }
}
