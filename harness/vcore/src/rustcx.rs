//! Compiles (and runs) generated programs against the library that the check was built with.
use crate::runner::harness_error;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::OnceLock;

struct Setup {
    rlib: PathBuf,
    deps: PathBuf,
    scratch: PathBuf,
}

/// The library as cargo built it for this harness; cargo only reports where it is.
fn setup(manifest_dir: &str) -> &'static Setup {
    static S: OnceLock<Setup> = OnceLock::new();
    S.get_or_init(|| {
        let out = Command::new("cargo")
            .args(["build", "--offline", "-q", "-p", "tclifford", "--message-format=json"])
            .current_dir(manifest_dir)
            .stderr(Stdio::null())
            .output();
        let out = match out {
            Ok(o) if o.status.success() => o.stdout,
            _ => harness_error("cargo does not report the library"),
        };
        let mut rlib = None;
        for l in String::from_utf8_lossy(&out).lines() {
            let v: serde_json::Value = match serde_json::from_str(l) {
                Ok(v) => v,
                Err(_) => continue,
            };
            if v["reason"] == "compiler-artifact" && v["target"]["name"] == "tclifford" {
                for f in v["filenames"].as_array().into_iter().flatten() {
                    if let Some(f) = f.as_str().filter(|f| f.ends_with(".rlib")) {
                        rlib = Some(PathBuf::from(f));
                    }
                }
            }
        }
        let rlib = match rlib {
            Some(r) if r.exists() => r,
            _ => harness_error("the library was not found"),
        };
        let target = PathBuf::from(std::env::var("CARGO_TARGET_DIR").unwrap_or_else(|_| harness_error("CARGO_TARGET_DIR is not set")));
        let scratch = target.join("programs").join(std::process::id().to_string());
        if std::fs::create_dir_all(&scratch).is_err() {
            harness_error("no place for the programs");
        }
        Setup {
            rlib,
            deps: target.join("debug").join("deps"),
            scratch,
        }
    })
}

fn fresh(s: &Setup) -> PathBuf {
    static N: AtomicU64 = AtomicU64::new(0);
    let d = s.scratch.join(N.fetch_add(1, Ordering::Relaxed).to_string());
    if std::fs::create_dir_all(&d).is_err() {
        harness_error("no place for a program");
    }
    d
}

fn rustc(s: &Setup, dir: &PathBuf, text: &str, emit: &str) -> Result<(), Vec<String>> {
    let src = dir.join("program.rs");
    if std::fs::write(&src, text).is_err() {
        harness_error("a program cannot be written");
    }
    let out = Command::new("rustc")
        .args(["--edition", "2021", "--crate-type", "bin", "--crate-name", "program", "--error-format=json", "--cap-lints=allow"])
        .args(["-C", "debuginfo=0", "-C", "codegen-units=1"])
        .arg(format!("--emit={emit}"))
        .arg("--out-dir")
        .arg(dir)
        .arg("-L")
        .arg(format!("dependency={}", s.deps.display()))
        .arg("--extern")
        .arg(format!("tclifford={}", s.rlib.display()))
        .arg(&src)
        .output();
    let out = match out {
        Ok(o) => o,
        Err(e) => harness_error(&format!("rustc does not start: {e}")),
    };
    if out.status.success() {
        return Ok(());
    }
    if out.status.code() != Some(1) {
        harness_error(&format!("rustc ended with {:?}", out.status));
    }
    let mut errors = vec![];
    for l in String::from_utf8_lossy(&out.stderr).lines() {
        if let Ok(v) = serde_json::from_str::<serde_json::Value>(l) {
            if v["level"] == "error" {
                let code = v["code"]["code"].as_str().unwrap_or("");
                // a missing crate or a lack of space is not a verdict
                if ["E0460", "E0461", "E0462", "E0463", "E0464", "E0514"].contains(&code) {
                    harness_error(&format!("rustc: {}", v["message"]));
                }
                errors.push(format!("{} {}", code, v["message"].as_str().unwrap_or("")));
            }
        }
    }
    if errors.is_empty() {
        harness_error("rustc failed without an error message");
    }
    Err(errors)
}

/// Whether the program passes the type checker; the error messages otherwise.
pub fn compiles(manifest_dir: &str, text: &str) -> Result<(), Vec<String>> {
    let s = setup(manifest_dir);
    let dir = fresh(s);
    let r = rustc(s, &dir, text, "metadata");
    let _ = std::fs::remove_dir_all(&dir);
    r
}

/// Standard output of the program, or why there is none.
pub fn runs(manifest_dir: &str, text: &str) -> Result<String, String> {
    let s = setup(manifest_dir);
    let dir = fresh(s);
    let r = match rustc(s, &dir, text, "link") {
        Err(e) => Err(format!("does not compile: {}", e.join("; "))),
        Ok(()) => match Command::new(dir.join("program")).output() {
            Err(e) => harness_error(&format!("the program does not start: {e}")),
            Ok(o) if !o.status.success() => Err(format!("the program failed: {}", String::from_utf8_lossy(&o.stderr).trim())),
            Ok(o) => Ok(String::from_utf8_lossy(&o.stdout).into_owned()),
        },
    };
    let _ = std::fs::remove_dir_all(&dir);
    r
}

/// Removes the scratch directory of this process.
pub fn cleanup() {
    if let Ok(t) = std::env::var("CARGO_TARGET_DIR") {
        let _ = std::fs::remove_dir_all(PathBuf::from(t).join("programs").join(std::process::id().to_string()));
    }
}
