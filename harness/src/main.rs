//! Concrete counterpart of the proofs: evaluates the postcondition of a property
//! on real executions, to replay a verifier's finding as a failing input and to
//! confront the trusted contracts of dependencies with the real libraries.
mod props;
mod rng;

use std::cell::RefCell;
use std::fs;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

thread_local! {
    pub static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

/// Runs code of the system; Err carries the panic message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

pub struct Family {
    pub name: &'static str,
    /// indices 0..fixed are enumerated first; random ones (when `random`) follow
    pub fixed: u64,
    pub random: bool,
    pub run: fn(u64) -> Result<(), String>,
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}

fn run_case(f: &Family, idx: u64) -> Result<(), String> {
    match guard(|| (f.run)(idx)) {
        Ok(r) => r,
        Err(p) => Err(format!("panicked: {}", p)),
    }
}

fn silence_stdout() {
    unsafe {
        let fd = libc::open(b"/dev/null\0".as_ptr() as *const libc::c_char, libc::O_WRONLY);
        libc::dup2(fd, 1);
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", m.chars().take(300).collect::<String>(), l));
    }));
    match a.get(1).map(|s| s.as_str()) {
        Some("run") => {
            silence_stdout();
            let code = run(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap(), &a[5], a.get(6).map(|x| x.parse().unwrap()).unwrap_or(4));
            std::process::exit(code);
        }
        Some("case") => {
            silence_stdout();
            let fams = props::families(&a[2]);
            let f = fams.iter().find(|f| f.name == a[3]).expect("family");
            let r = run_case(f, a[4].parse().unwrap());
            match r {
                Ok(()) => {
                    eprintln!("holds");
                    std::process::exit(0)
                }
                Err(e) => {
                    eprintln!("violated: {}", e);
                    std::process::exit(1)
                }
            }
        }
        Some("list") => {
            for f in props::families(&a[2]) {
                println!("{} {} {}", f.name, f.fixed, f.random);
            }
        }
        _ => {
            eprintln!("vh run PROP SEED SECONDS OUTDIR [THREADS] | vh case PROP FAMILY INDEX | vh list PROP");
            std::process::exit(2);
        }
    }
}

struct Found {
    family: String,
    index: u64,
    what: String,
}

fn run(prop: &str, seed: u64, seconds: f64, out: &str, threads: usize) -> i32 {
    let fams: Arc<Vec<Family>> = Arc::new(props::families(prop));
    let stop = Arc::new(AtomicBool::new(false));
    let found: Arc<Mutex<Option<Found>>> = Arc::new(Mutex::new(None));
    let counts: Arc<Vec<AtomicU64>> = Arc::new(fams.iter().map(|_| AtomicU64::new(0)).collect());
    let cur: Arc<Vec<Mutex<Option<(usize, u64, Instant)>>>> = Arc::new((0..threads).map(|_| Mutex::new(None)).collect());
    // the fixed cases of all families, dealt out by a shared counter
    let mut fixed: Vec<(usize, u64)> = vec![];
    let most = fams.iter().map(|f| f.fixed).max().unwrap_or(0);
    for i in 0..most {
        for (k, f) in fams.iter().enumerate() {
            if i < f.fixed {
                fixed.push((k, i));
            }
        }
    }
    let fixed = Arc::new(fixed);
    let next = Arc::new(AtomicU64::new(0));
    let t0 = Instant::now();
    let mut hs = vec![];
    for t in 0..threads {
        let (fams, stop, found, counts, cur, fixed, next) =
            (fams.clone(), stop.clone(), found.clone(), counts.clone(), cur.clone(), fixed.clone(), next.clone());
        let curfile = format!("{}/cur.{}", out, t);
        hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            let random: Vec<usize> = (0..fams.len()).filter(|k| fams[*k].random).collect();
            let mut n: u64 = 0;
            let mut file = fs::File::create(&curfile).unwrap();
            loop {
                if stop.load(Ordering::Relaxed) {
                    break;
                }
                let i = next.fetch_add(1, Ordering::Relaxed);
                let (k, idx) = if (i as usize) < fixed.len() {
                    fixed[i as usize]
                } else {
                    if random.is_empty() || t0.elapsed().as_secs_f64() > seconds {
                        break;
                    }
                    n += 1;
                    let k = random[(n % random.len() as u64) as usize];
                    // random indices lie above the enumerated ones
                    let mut r = rng::R::new(seed.wrapping_mul(1_000_003).wrapping_add(i));
                    (k, (1u64 << 40) | (r.u64() >> 24))
                };
                *cur[t].lock().unwrap() = Some((k, idx, Instant::now()));
                {
                    use std::io::Seek;
                    let _ = file.seek(std::io::SeekFrom::Start(0));
                    let _ = file.write_all(format!("{} {}                              \n", fams[k].name, idx).as_bytes());
                }
                let r = run_case(&fams[k], idx);
                *cur[t].lock().unwrap() = None;
                counts[k].fetch_add(1, Ordering::Relaxed);
                if let Err(w) = r {
                    let mut g = found.lock().unwrap();
                    if g.is_none() {
                        *g = Some(Found { family: fams[k].name.into(), index: idx, what: w });
                    }
                    stop.store(true, Ordering::Relaxed);
                }
            }
            drop(file);
            let _ = fs::remove_file(&curfile);
        }).unwrap());
    }
    // watchdog: a call that never returns is reported with the case that caused it
    let mut hang: Option<Found> = None;
    loop {
        if hs.iter().all(|h| h.is_finished()) {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
        for c in cur.iter() {
            let g = *c.lock().unwrap();
            if let Some((k, idx, at)) = g {
                if at.elapsed() > Duration::from_secs(120) {
                    hang = Some(Found { family: fams[k].name.into(), index: idx, what: "no result within 120 s".into() });
                }
            }
        }
        if hang.is_some() {
            break;
        }
    }
    let f = hang.or_else(|| found.lock().unwrap().take());
    let mut j = String::from("{\"families\":{");
    for (k, fam) in fams.iter().enumerate() {
        if k > 0 {
            j.push(',');
        }
        j.push_str(&format!("\"{}\":{}", fam.name, counts[k].load(Ordering::Relaxed)));
    }
    j.push_str(&format!("}},\"wall_s\":{:.3}", t0.elapsed().as_secs_f64()));
    if let Some(f) = &f {
        j.push_str(&format!(",\"found\":{{\"family\":\"{}\",\"index\":{},\"what\":\"{}\"}}", f.family, f.index, esc(&f.what)));
    }
    j.push('}');
    fs::write(format!("{}/result.json", out), j).unwrap();
    if f.is_some() { 1 } else { 0 }
}
