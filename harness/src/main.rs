#![allow(dead_code)]
mod diffx;
mod report;
mod cgen;
mod c01;
mod c03;
mod c04;
mod c02;
mod explore;
mod mainx;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c14;
mod c13;
mod proj;
mod c10;
mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
mod c23;
mod c24;
mod c25;
mod c26;
mod c16;
mod c17;
mod c15;
use report::Report;

/// Location and message of the last panic, for the report of an uncaught one.
static LAST_PANIC: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

extern "C" {
    fn signal(n: i32, handler: usize) -> usize;
}

fn main() {
    // programs under test start with default signal handling, however the check was started (nohup, &)
    for n in [1, 2, 3, 6, 11, 14, 15, 17] { unsafe { signal(n, 0) }; }
    let a: Vec<String> = std::env::args().collect();
    let prop = a.get(1).cloned().unwrap_or_default();
    let tier = a.get(2).cloned().unwrap_or_else(|| "quick".into());
    if prop.starts_with('C') && std::env::var_os("MC_CHILD").is_none() {
        supervise(&prop, &tier);
    }
    let loud = std::env::var("MC_PANIC").is_ok();
    let default_hook = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let text = info.to_string();
        if let (Ok(mut last), false) = (LAST_PANIC.lock(), text.contains("a scoped thread panicked")) {
            *last = text;
        }
        if loud {
            default_hook(info);
        }
    }));
    let mut rep = Report::new(&prop, &tier);
    match prop.as_str() {
        "explore" => return explore::run(&a[2..]),
        "worker-total" => return c08::worker(),
        "worker-verify" => return c19::worker(),
        _ => {}
    }
    report::watch(&prop, &tier);
    // A panic that no check expects comes from the code under test
    if report::guard(|| check(&prop, &mut rep)).is_err() {
        let what = LAST_PANIC.lock().map(|l| l.clone()).unwrap_or_default();
        if what.contains("harness/src/report.rs") || what.contains("src/report.rs") {
            eprintln!("cannot run: {what}");
            std::process::exit(2);
        }
        rep.violation("panic", &format!("a panic during the check: {what}"), serde_json::json!({ "panic": what }));
    }
    rep.finish()
}

/// Run the check in a child process: whatever ends that process before it could answer
/// (stack overflow, abort, exit) was done by the code under test.
fn supervise(prop: &str, tier: &str) -> ! {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().expect("own path");
    let st = std::process::Command::new(exe).args([prop, tier]).env("MC_CHILD", "1").status();
    let st = match st {
        Ok(st) => st,
        Err(e) => {
            eprintln!("cannot run: {e}");
            std::process::exit(2)
        }
    };
    match (st.code(), st.signal()) {
        (Some(c @ 0..=2), _) => std::process::exit(c),
        (None, Some(9 | 15 | 2)) => std::process::exit(2),
        _ => {
            let mut rep = Report::new(prop, tier);
            rep.violation("process", &format!("the code under test ended the checking process: {st}"), serde_json::json!({ "status": st.to_string() }));
            rep.finish()
        }
    }
}

fn check(prop: &str, rep: &mut Report) {
    match prop {
        "C01" => c01::run(rep),
        "C02" => c02::run(rep),
        "C03" => c03::run(rep),
        "C04" => c04::run(rep),
        "C05" => c05::run(rep),
        "C06" => c06::run(rep),
        "C07" => c07::run(rep),
        "C08" => c08::run(rep),
        "C09" => c09::run(rep),
        "C10" => c10::run(rep),
        "C11" => proj::run11(rep),
        "C12" => proj::run12(rep),
        "C13" => c13::run(rep),
        "C14" => c14::run(rep),
        "C15" => c15::run(rep),
        "C16" => c16::run(rep),
        "C17" => c17::run(rep),
        "C18" => c18::run(rep),
        "C19" => c19::run(rep),
        "C20" => c20::run(rep),
        "C21" => c21::run(rep),
        "C22" => c22::run(rep),
        "C23" => c23::run(rep),
        "C24" => c24::run(rep),
        "C25" => c25::run(rep),
        "C26" => c26::run(rep),
        _ => {
            eprintln!("unknown property {prop}");
            std::process::exit(2);
        }
    }
}
