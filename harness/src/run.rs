//! Parent and worker process: a crash or a hang of the code under test is found and attributed.
use crate::ctx::*;
use crate::util::*;
use std::path::PathBuf;
use std::time::Duration;

pub type Check = fn(&'static Ctx);

/// `case_limit`: seconds one case may take; `total`: seconds the worker may take.
pub fn main(checks: &[(&str, Check)]) -> ! {
    let prop = std::env::args().nth(1).expect("property id");
    let f = checks.iter().find(|c| c.0 == prop).unwrap_or_else(|| panic!("unknown property {}", prop)).1;
    if std::env::var("LAPEXMON_WORKER").is_ok() {
        std::process::exit(worker(&prop, f));
    }
    std::process::exit(parent(&prop));
}

fn worker(prop: &str, f: Check) -> i32 {
    let ctx: &'static Ctx = Box::leak(Box::new(Ctx::new(prop)));
    let _ = std::fs::create_dir_all(&ctx.work);
    crate::glue::quiet_panics();
    ctx.watch(Duration::from_secs(if ctx.thorough { 240 } else { 60 }));
    // deep recursion in the generator must show as itself, not as a small thread stack
    let r = std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(move || match crate::glue::guard(|| f(ctx)) {
            Ok(()) => None,
            Err(p) => Some(p),
        })
        .unwrap()
        .join();
    match r {
        Ok(None) => {}
        Ok(Some(p)) => {
            eprintln!("the check itself failed: {}", p);
            return 77;
        }
        Err(_) => return 77,
    }
    ctx.finish()
}

fn parent(prop: &str) -> i32 {
    let verif = PathBuf::from(std::env::var("LAPEXMON_VERIF").unwrap_or_else(|_| "/verif".into()));
    let work = verif.join("work").join(prop);
    let _ = std::fs::remove_dir_all(&work);
    std::fs::create_dir_all(&work).expect("work directory");
    let _ = std::fs::remove_file(verif.join("evidence").join(format!("{}.json", prop)));
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let me = std::env::current_exe().expect("own path");
    let start = |only: Option<&str>| {
        let mut r = Run::new(&me)
            .arg(prop)
            .env("LAPEXMON_WORKER", "1")
            .env("LAPEXMON_WORK", &work.to_string_lossy())
            .env("RUST_BACKTRACE", "0")
            .wall()
            .timeout(if thorough { 3000 } else { 780 });
        if let Some(o) = only {
            r = r.env("LAPEXMON_ONLY", o).timeout(200);
        }
        r.run().expect("worker process")
    };
    let mut out = start(None);
    if matches!(out.code, Some(0) | Some(1)) {
        print!("{}", out.out_text());
        eprint!("{}", out.err_text());
        let _ = std::fs::remove_dir_all(&work);
        return out.code.unwrap();
    }
    // it crashed or hung: which case was it?
    let mut suspects = Vec::new();
    if let Ok(rd) = std::fs::read_dir(&work) {
        for e in rd.flatten() {
            let n = e.file_name().to_string_lossy().into_owned();
            if n == "hang" || n.starts_with("journal-") {
                if let Ok(t) = std::fs::read_to_string(e.path()) {
                    let (label, desc) = t.split_once('\n').unwrap_or((t.as_str(), ""));
                    suspects.push((n != "hang", label.to_string(), desc.to_string()));
                }
            }
        }
    }
    suspects.sort();
    for (_, label, desc) in &suspects {
        let again = start(Some(label));
        if matches!(again.code, Some(0)) {
            continue;
        }
        if again.code == Some(1) {
            print!("{}", again.out_text());
            return 1;
        }
        let what = if again.code == Some(EXIT_HANG) || again.timed_out {
            "the code under test does not end on this case".to_string()
        } else {
            format!("the code under test crashes on this case ({})", again.describe())
        };
        let p = write_replay(
            &verif,
            prop,
            label,
            &what,
            &format!("case {}\n{}\n\nstandard error:\n{}", label, desc, again.err_text()),
        );
        println!("VIOLATION property={} replay={}", prop, p.display());
        println!("  {}", what);
        return 1;
    }
    eprint!("{}", out.err_text());
    eprintln!("the worker ended without a verdict ({}) and no case reproduces it", out.describe());
    out.stdout.clear();
    70
}
