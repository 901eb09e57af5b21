//! Runs one harness natively on a recorded list of input values.
//!
//!     replay HARNESS v1,v2,...        (prints one line of JSON)
//!     replay --batch < lines of "HARNESS v1,v2,..."
use harness::sym::imp;
use std::io::BufRead;
use std::panic;

fn js(s: &str) -> String {
    format!("{:?}", s).replace("\\'", "'").replace("\\u{", "u{")
}

thread_local!(static PANIC: std::cell::RefCell<(String, String)> = Default::default());

fn one(name: &str, vals: &str) -> String {
    let f = harness::table()
        .into_iter()
        .find(|(n, _)| *n == name)
        .unwrap_or_else(|| {
            eprintln!("no harness {name}");
            std::process::exit(3)
        })
        .1;
    let inputs: Vec<u64> = vals
        .split(',')
        .filter(|s| !s.trim().is_empty())
        .map(|s| s.trim().parse().expect("number"))
        .collect();
    imp::RUN.with(|r| {
        *r.borrow_mut() = imp::Run { inputs, digest: imp::FNV, ..Default::default() }
    });
    PANIC.with(|p| *p.borrow_mut() = Default::default());
    let res = panic::catch_unwind(f);
    imp::RUN.with(|r| {
        let r = r.borrow();
        let end = match &res {
            Ok(()) => "ok",
            Err(e) if e.is::<imp::AssumeFailed>() => "assume",
            Err(e) if e.is::<imp::BadInput>() => "badinput",
            Err(_) => "panic",
        };
        let (msg, loc) = PANIC.with(|p| p.borrow().clone());
        let list = |v: &Vec<String>| {
            format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(","))
        };
        format!(
            "{{\"harness\":{},\"end\":\"{}\",\"digest\":\"{}\",\"failed\":{},\"marks\":{},\"panic_ok\":{},\"panic\":{},\"location\":{},\"used\":{}}}",
            js(name), end, r.digest, list(&r.failed), list(&r.marks), r.panic_ok, js(&msg), js(&loc), r.next
        )
    })
}

fn main() {
    panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = (msg, loc));
    }));
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.first().map(|s| s.as_str()) == Some("--batch") {
        for line in std::io::stdin().lock().lines() {
            let line = line.unwrap();
            let mut it = line.splitn(2, ' ');
            let (h, v) = (it.next().unwrap(), it.next().unwrap_or(""));
            println!("{}", one(h, v));
        }
    } else {
        println!("{}", one(&args[0], args.get(1).map(|s| s.as_str()).unwrap_or("")));
    }
}
