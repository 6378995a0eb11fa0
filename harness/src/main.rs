use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};
use weedle_pbt::engine::*;
use weedle_pbt::props;

#[global_allocator]
static ALLOC: Counting = Counting;

fn out_dir() -> String {
    std::env::var("PBT_OUT").unwrap_or_else(|_| "/verif".into())
}
fn config() -> Config {
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let cases = std::env::var("PBT_CASES").ok().and_then(|s| s.parse().ok());
    Config { seed, thorough, out_dir: out_dir(), cases }
}
fn prop(id: &str) -> &'static Prop {
    match props::all().into_iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("no property {}", id);
            std::process::exit(2)
        }
    }
}

/// Does evaluating the case end the process by a signal?
fn crashes(path: &str) -> bool {
    let me = std::env::current_exe().unwrap();
    Command::new(me)
        .args(["eval1", path])
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status()
        .map_or(false, |s| s.signal().is_some())
}

/// The worker process died: find the case that does it, cut it down, report it.
fn crashed(p: &'static Prop, cfg: &Config, slots: &str) -> i32 {
    let mut bad = None;
    for w in 0..THREADS {
        let f = format!("{}/{}", slots, w);
        if crashes(&f) {
            bad = read_replay(&f).map(|x| x.1);
            break;
        }
    }
    let Some(mut c) = bad else {
        eprintln!("{}: the worker died and no case does it again: error of this check", p.id);
        return 2;
    };
    let msg = "parsing ends the whole process (stack overflow or abort)";
    let tmp = format!("{}/shrink", slots);
    let _ = std::fs::create_dir_all(&tmp);
    let mut runs = 0;
    for i in 0..c.texts.len() {
        let mut k = c.texts[i].chars().count() / 2;
        while k >= 1 && runs < 300 {
            let mut at = 0;
            loop {
                let cs: Vec<char> = c.texts[i].chars().collect();
                if at >= cs.len() || runs >= 300 {
                    break;
                }
                let e = (at + k).min(cs.len());
                let mut d = c.clone();
                d.texts[i] = cs[..at].iter().chain(&cs[e..]).collect();
                runs += 1;
                if crashes(&write_replay(&tmp, p.id, &d, "", cfg.seed)) {
                    c = d;
                } else {
                    at = e;
                }
            }
            k /= 2;
        }
    }
    let path = write_replay(&cfg.out_dir, p.id, &c, msg, cfg.seed);
    let mut st = Stats { evaluations: runs + 1, notes: vec![msg.into()], ..Default::default() };
    write_evidence(p, cfg, &mut st, 1, 0.0);
    println!("{}: {} {:?}\n{}", p.id, c.kind, c.texts, msg);
    println!("VIOLATION property={} replay={}", p.id, path);
    1
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map_or("", |s| s.as_str());
    let code = match arg(1) {
        "check" => {
            let p = prop(arg(2));
            let slots = std::env::temp_dir().join(format!("pbt-{}-{}", p.id, std::process::id()));
            let _ = std::fs::create_dir_all(&slots);
            let slots = slots.to_str().unwrap().to_string();
            let st = Command::new(std::env::current_exe().unwrap())
                .args(["work", p.id])
                .env("PBT_SLOTS", &slots)
                .status();
            let code = match st {
                Ok(s) => match s.code() {
                    Some(c) => c,
                    None => crashed(p, &config(), &slots),
                },
                Err(e) => {
                    eprintln!("cannot start the worker: {}", e);
                    2
                }
            };
            let _ = std::fs::remove_dir_all(&slots);
            code
        }
        "work" => run(prop(arg(2)), &config()),
        // evaluates one recorded case
        "eval1" | "replay" => {
            let path = arg(2).to_string();
            let loud = arg(1) == "replay";
            if !loud {
                std::panic::set_hook(Box::new(|_| {}));
            }
            let h = std::thread::Builder::new().stack_size(STACK).spawn(move || {
                let Some((id, c)) = read_replay(&path) else {
                    eprintln!("cannot read {}", path);
                    return 2;
                };
                match (prop(&id).eval)(&c) {
                    Verdict::Pass { label, .. } => {
                        println!("{} holds on this case ({})", id, label);
                        0
                    }
                    Verdict::Fail(m) => {
                        println!("{}: {} {:?}\n{}", id, c.kind, c.texts, m);
                        println!("VIOLATION property={} replay={}", id, path);
                        1
                    }
                    Verdict::Broken(m) => {
                        eprintln!("{}", m);
                        2
                    }
                }
            });
            h.unwrap().join().unwrap_or(2)
        }
        // parses the standard input on a stack of the given size
        "stack" => {
            let mib: usize = arg(2).parse().unwrap_or(8);
            let mut t = String::new();
            let _ = std::io::Read::read_to_string(&mut std::io::stdin(), &mut t);
            let h = std::thread::Builder::new().stack_size(mib << 20).spawn(move || {
                let _ = weedle::parse(&t);
            });
            h.unwrap().join().map_or(2, |_| 0)
        }
        // parses texts from the standard input (number of bytes, newline, text), one line of result each
        "brief" => {
            let mut b = vec![];
            let _ = std::io::Read::read_to_end(&mut std::io::stdin(), &mut b);
            std::panic::set_hook(Box::new(|_| {}));
            let h = std::thread::Builder::new().stack_size(STACK).spawn(move || {
                for t in props::history::unpack(&b) {
                    println!("{}", props::history::fingerprint(&t));
                }
            });
            h.unwrap().join().map_or(2, |_| 0)
        }
        "list" => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: pbt check <ID> | replay <file> | list");
            2
        }
    };
    std::process::exit(code);
}
