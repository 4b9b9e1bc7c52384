use std::io::{BufRead, Write};
thread_local! { static LAST: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); }
fn main() {
    let mut args = std::env::args().skip(1);
    let tab = cvh::table();
    match args.next().as_deref() {
        Some("list") => {
            for h in tab {
                println!("{}\t{}\t{}", h.name, h.covers, h.doc.trim().replace(['\n', '\t'], " "));
            }
        }
        Some("run") => {
            std::panic::set_hook(Box::new(|i| {
                let m = i.payload().downcast_ref::<String>().cloned()
                    .or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                LAST.with(|l| *l.borrow_mut() = format!("{} at {}", m.replace('\n', " "), i.location().map(|l| l.to_string()).unwrap_or_default()));
            }));
            let out = std::io::stdout();
            for line in std::io::stdin().lock().lines() {
                let line = line.unwrap();
                let mut w = line.split_whitespace();
                let name = match w.next() { Some(n) => n.to_string(), None => continue };
                let vals: Vec<u64> = w.map(|x| x.parse().unwrap()).collect();
                let h = match tab.iter().find(|h| h.name == name) {
                    Some(h) => h,
                    None => { println!("NOHARNESS {}", name); continue }
                };
                cvh::nd::start(&vals);
                let r = std::panic::catch_unwind(|| (h.f)());
                let mut o = out.lock();
                match r {
                    Ok(()) => {
                        let ob: Vec<String> = cvh::nd::observed().iter().map(|x| x.to_string()).collect();
                        writeln!(o, "OK {}", ob.join(" ")).unwrap();
                    }
                    Err(_) => {
                        let m = LAST.with(|l| l.borrow().clone());
                        if m.starts_with("ASSUME") { writeln!(o, "ASSUME").unwrap() } else { writeln!(o, "PANIC {}", m).unwrap() }
                    }
                }
                o.flush().unwrap();
            }
        }
        _ => std::process::exit(2),
    }
}
