#![allow(dead_code, deprecated)]
mod checks;
mod env;
mod explore;
mod lock;
mod mocks;
mod refcfg;
mod refm;
mod refmath;
mod svm;
mod worlds;

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn open(p: *const u8, flags: i32) -> i32;
}
/// the program's framework prints rejected keys to stdout; keep them out of the report
pub fn quiet<T>(f: impl FnOnce() -> T) -> T {
    use std::io::Write;
    let _ = std::io::stdout().flush();
    let (old, null) = unsafe { (dup(1), open(b"/dev/null\0".as_ptr(), 1)) };
    if std::env::var("DBCMC_LOUD").is_err() {
        unsafe { dup2(null, 1) };
    }
    let r = f();
    let _ = std::io::stdout().flush();
    unsafe { dup2(old, 1) };
    r
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    std::panic::set_hook(Box::new(|_| {}));
    mocks::init();
    let usage = || -> ! {
        eprintln!("usage: dbcmc check <ID> [quick|thorough] | replay <file>");
        std::process::exit(2)
    };
    let (id, thorough, filter) = match a.as_slice() {
        [_, "check", id] => (id.to_string(), false, None),
        [_, "check", id, tier] => (id.to_string(), *tier == "thorough", None),
        [_, "replay", f] => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(f).unwrap_or_else(|e| {
                eprintln!("{f}: {e}");
                std::process::exit(2)
            }))
            .unwrap();
            let path = v["path"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
            (v["property"].as_str().unwrap().to_string(), v["tier"] == "thorough", Some(explore::Filter { scn: v["scenario"].as_str().unwrap().into(), path }))
        }
        [_, "list"] => {
            for c in checks::ALL {
                println!("{}", c.0);
            }
            return;
        }
        _ => usage(),
    };
    let Some((id, f)) = checks::ALL.iter().find(|c| c.0 == id) else { usage() };
    let cx = explore::Cx::new(id, thorough, filter);
    quiet(|| checks::run(id, *f, &cx));
    std::process::exit(cx.finish(&root, checks::ASSUMPTIONS));
}
