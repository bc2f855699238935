//! Executes operation sequences on the real calculators and records what is observable after each operation.
//!
//! usage: harness IN OUT [HANDLE]
//!
//! IN holds scenarios as lines of words:
//!     S <id> <flags>
//!     <op> <handle> <args...>
//!     E
//! OUT receives a line "S <id>" for each scenario and after it a JSON object for each operation, written as soon as the
//! operation returns.  Numbers are 16-digit hexadecimal bit patterns.
//! Flags: R  after every calculation, repeat it on a new calculator given the same inputs
//!        Z  the same, with a stored density of zero
//!        T  run the operations of each handle on a thread of its own, all at once
//!        M  run every operation on a new thread, moving the calculator there and back
//! Operation on has the operations after it run on the given thread (0: the main thread), moving calculators there.
//! Operation move puts the calculator at another place in memory, in turn with earlier ones.
//! Operation scale multiplies a field by a number.
//! Operation spin repeats an operation (all: four in turn; setx: with the current composition), and tells whether all
//! repetitions after the first gave the same.
//! Operation swing goes to and fro between two temperatures (t) or compositions (x: the reverse), with a calculation each
//! time, and tells the same.
//! Operation drift repeats a small change of two fractions (x) or of the temperature (t), each with a pressure
//! calculation.
//!
//! With HANDLE, only the operations of that handle are executed (each calculator on its own).
use aga8::composition::{Composition, CompositionError};
use aga8::detail::Detail;
use aga8::gerg2008::Gerg2008;
use aga8::DensityError;
use std::collections::BTreeMap;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Barrier, Mutex};
use std::time::{Duration, Instant};

enum Calc {
    D(Box<Detail>),
    G(Box<Gerg2008>),
}
use Calc::{D, G};

const NF: usize = 18;
const FIELDS: [&str; NF] = [
    "t", "p", "d", "z", "mm", "dp_dd", "d2p_dd2", "d2p_dtd", "dp_dt", "u", "h", "s", "cv", "cp", "w", "g", "jt",
    "kappa",
];

macro_rules! fields {
    ($c:expr, $f:ident) => {
        match $c {
            D(c) => $f!(c),
            G(c) => $f!(c),
        }
    };
}

impl Calc {
    fn new(k: &str) -> Calc {
        match k {
            "D" => D(Box::new(Detail::new())),
            "G" => G(Box::new(Gerg2008::new())),
            _ => panic!("kind {k}"),
        }
    }
    fn kind(&self) -> &'static str {
        match self {
            D(_) => "D",
            G(_) => "G",
        }
    }
    fn state(&self) -> [f64; NF] {
        macro_rules! get {
            ($c:expr) => {
                [
                    $c.t, $c.p, $c.d, $c.z, $c.mm, $c.dp_dd, $c.d2p_dd2, $c.d2p_dtd, $c.dp_dt, $c.u, $c.h, $c.s,
                    $c.cv, $c.cp, $c.w, $c.g, $c.jt, $c.kappa,
                ]
            };
        }
        fields!(self, get)
    }
    fn field(&mut self, name: &str) -> &mut f64 {
        macro_rules! ptr {
            ($c:expr) => {
                match name {
                    "t" => &mut $c.t,
                    "p" => &mut $c.p,
                    "d" => &mut $c.d,
                    "z" => &mut $c.z,
                    "mm" => &mut $c.mm,
                    "dp_dd" => &mut $c.dp_dd,
                    "d2p_dd2" => &mut $c.d2p_dd2,
                    "d2p_dtd" => &mut $c.d2p_dtd,
                    "dp_dt" => &mut $c.dp_dt,
                    "u" => &mut $c.u,
                    "h" => &mut $c.h,
                    "s" => &mut $c.s,
                    "cv" => &mut $c.cv,
                    "cp" => &mut $c.cp,
                    "w" => &mut $c.w,
                    "g" => &mut $c.g,
                    "jt" => &mut $c.jt,
                    "kappa" => &mut $c.kappa,
                    _ => panic!("field {name}"),
                }
            };
        }
        fields!(self, ptr)
    }
    fn x(&self) -> [f64; 21] {
        let mut r = [0.0; 21];
        match self {
            D(c) => r.copy_from_slice(&c.x),
            G(c) => r.copy_from_slice(&c.x[1..]),
        }
        r
    }
    fn rawx(&mut self, v: &[f64; 21]) {
        match self {
            D(c) => c.x.copy_from_slice(v),
            G(c) => c.x[1..].copy_from_slice(v),
        }
    }
    /// A new calculator with the same inputs as this one.
    fn fresh(&self, zero: bool) -> Calc {
        let mut c = Calc::new(self.kind());
        let s = self.state();
        c.rawx(&self.x());
        *c.field("t") = s[0];
        *c.field("p") = s[1];
        *c.field("d") = if zero { 0.0 } else { s[2] };
        c
    }
    fn run(&mut self, op: &str, a: &[String]) -> String {
        match (op, self) {
            ("setx" | "compact", D(c)) => verdict(c.set_composition(&comp(&nums(a)))),
            ("setx" | "compact", G(c)) => verdict(c.set_composition(&comp(&nums(a)))),
            ("rawx", c) => {
                c.rawx(&nums(a));
                String::new()
            }
            ("raw", c) => {
                *c.field(&a[0]) = num(&a[1]);
                String::new()
            }
            ("scale", c) => {
                *c.field(&a[0]) *= num(&a[1]);
                String::new()
            }
            ("mm", D(c)) => hex(c.molar_mass()),
            ("mm", G(c)) => {
                c.molar_mass();
                hex(c.mm)
            }
            ("pressure", D(c)) => hex(c.pressure()),
            ("pressure", G(c)) => hex(c.pressure()),
            ("density", D(c)) => outcome(c.density()),
            ("density", G(c)) => outcome(c.density(a[0].parse().unwrap())),
            ("drift", c) => {
                let (i, j, by, n): (usize, usize, f64, usize) =
                    (a[1].parse().unwrap(), a[2].parse().unwrap(), num(&a[3]), a[4].parse().unwrap());
                for _ in 0..n {
                    if a[0] == "t" {
                        *c.field("t") *= 1.0 + by;
                    } else {
                        let mut x = c.x();
                        x[i] += by;
                        x[j] -= by;
                        let x: Vec<String> = x.iter().map(|v| hex(*v)).collect();
                        c.run("setx", &x);
                    }
                    c.run("pressure", &[]);
                }
                String::new()
            }
            ("spin", c) => {
                let n: usize = a[0].parse().unwrap();
                let mut seen: Option<(String, [f64; NF])> = None;
                let mut same = true;
                for i in 0..n {
                    let op = if a[1] == "all" { ["pressure", "props", "mm", "density"][i % 4] } else { a[1].as_str() };
                    let args: Vec<String> =
                        if op == "setx" { c.x().iter().map(|v| hex(*v)).collect() } else { vec!["0".to_string()] };
                    let ret = c.run(op, &args);
                    if a[1] == "all" || i == 0 {
                        continue;
                    }
                    let now = c.state();
                    match &seen {
                        None => seen = Some((ret, now)),
                        Some((r, f)) => {
                            same &= alike(r, &ret) && f.iter().zip(&now).all(|(a, b)| close(*a, *b));
                        }
                    }
                }
                if same { "same" } else { "differs" }.to_string()
            }
            ("swing", c) => {
                let n: usize = a[0].parse().unwrap();
                let (t, x) = (c.state()[0], c.x());
                let other = num(&a[2]);
                let mut seen: [Option<(String, [f64; NF])>; 2] = [None, None];
                let mut same = true;
                for i in 0..2 * n {
                    let there = i % 2 == 0;
                    if a[1] == "t" {
                        *c.field("t") = if there { other } else { t };
                    } else {
                        let mut y = x;
                        if there {
                            y.reverse();
                        }
                        let y: Vec<String> = y.iter().map(|v| hex(*v)).collect();
                        c.run("setx", &y);
                    }
                    let ret = c.run(&a[3], &["0".to_string()]);
                    let mut now = c.state();
                    if a[3] == "pressure" {
                        now[3] = 0.0; // judged by what was returned
                    }
                    match &seen[i % 2] {
                        None if i < 2 => {}
                        None => seen[i % 2] = Some((ret, now)),
                        Some((r, f)) => same &= alike(r, &ret) && f.iter().zip(&now).all(|(a, b)| close(*a, *b)),
                    }
                }
                if same { "same" } else { "differs" }.to_string()
            }
            ("props", D(c)) => {
                c.properties();
                hex(c.p)
            }
            ("props", G(c)) => hex(c.properties()),
            _ => panic!("operation {op}"),
        }
    }
}

fn num(s: &str) -> f64 {
    assert!(s.len() == 16, "number {s}");
    f64::from_bits(u64::from_str_radix(s, 16).unwrap())
}
fn nums(a: &[String]) -> [f64; 21] {
    let v: Vec<f64> = a.iter().map(|s| num(s)).collect();
    v.try_into().expect("21 numbers")
}
fn hex(v: f64) -> String {
    format!("{:016x}", v.to_bits())
}
/// Whether two repetitions of a calculation agree.
fn close(a: f64, b: f64) -> bool {
    a == b || a.is_nan() && b.is_nan() || (a - b).abs() <= 1e-9 * (1.0 + a.abs().max(b.abs())) && (a == 0.0) == (b == 0.0)
}
fn alike(a: &str, b: &str) -> bool {
    a == b || a.len() == 16 && b.len() == 16 && close(num(a), num(b))
}
fn verdict(r: Result<(), CompositionError>) -> String {
    match r {
        Ok(()) => "ok",
        Err(CompositionError::Empty) => "empty",
        Err(CompositionError::BadSum) => "badsum",
        Err(_) => "other",
    }
    .to_string()
}
fn outcome(r: Result<(), DensityError>) -> String {
    match r {
        Ok(()) => "ok",
        Err(DensityError::IterationFail) => "fail",
        Err(DensityError::PressureTooLow) => "low",
        Err(_) => "other",
    }
    .to_string()
}
fn comp(v: &[f64; 21]) -> Composition {
    Composition {
        methane: v[0],
        nitrogen: v[1],
        carbon_dioxide: v[2],
        ethane: v[3],
        propane: v[4],
        isobutane: v[5],
        n_butane: v[6],
        isopentane: v[7],
        n_pentane: v[8],
        hexane: v[9],
        heptane: v[10],
        octane: v[11],
        nonane: v[12],
        decane: v[13],
        hydrogen: v[14],
        oxygen: v[15],
        carbon_monoxide: v[16],
        water: v[17],
        hydrogen_sulfide: v[18],
        helium: v[19],
        argon: v[20],
    }
}
fn uncomp(c: &Composition) -> [f64; 21] {
    [
        c.methane, c.nitrogen, c.carbon_dioxide, c.ethane, c.propane, c.isobutane, c.n_butane, c.isopentane,
        c.n_pentane, c.hexane, c.heptane, c.octane, c.nonane, c.decane, c.hydrogen, c.oxygen, c.carbon_monoxide,
        c.water, c.hydrogen_sulfide, c.helium, c.argon,
    ]
}

struct Op {
    op: String,
    h: String,
    a: Vec<String>,
}
struct Scenario {
    id: String,
    flags: String,
    ops: Vec<Op>,
}

fn parse(text: &str) -> Vec<Scenario> {
    let mut out: Vec<Scenario> = Vec::new();
    for line in text.lines() {
        let w: Vec<&str> = line.split_whitespace().collect();
        match w.as_slice() {
            [] | ["E"] => {}
            ["S", id, rest @ ..] => out.push(Scenario {
                id: id.to_string(),
                flags: rest.first().unwrap_or(&"").to_string(),
                ops: Vec::new(),
            }),
            [op, h, rest @ ..] => out.last_mut().expect("scenario").ops.push(Op {
                op: op.to_string(),
                h: h.to_string(),
                a: rest.iter().map(|s| s.to_string()).collect(),
            }),
            _ => panic!("line {line}"),
        }
    }
    out
}

fn jarr<S: AsRef<str>>(v: impl IntoIterator<Item = S>) -> String {
    let s: Vec<String> = v.into_iter().map(|e| format!("\"{}\"", e.as_ref())).collect();
    format!("[{}]", s.join(","))
}
fn bits_differ(a: &[f64], b: &[f64]) -> bool {
    a.iter().zip(b).any(|(x, y)| x.to_bits() != y.to_bits())
}

struct Live {
    since: Instant,
    busy: bool,
}
type Shared = Arc<Mutex<Live>>;

fn guard<R>(f: impl FnOnce() -> R) -> Result<R, ()> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| ())
}

fn is_calc(op: &str) -> bool {
    matches!(op, "mm" | "pressure" | "density" | "props")
}

/// Threads that stay alive and execute what they are given.
type Task = Box<dyn FnOnce() + Send>;
struct Pool {
    to: Vec<std::sync::mpsc::Sender<Task>>,
    current: usize,
    places: Vec<Calc>,
}
impl Pool {
    fn new(n: usize) -> Pool {
        let to = (0..n)
            .map(|_| {
                let (tx, rx) = std::sync::mpsc::channel::<Task>();
                std::thread::spawn(move || rx.into_iter().for_each(|f| f()));
                tx
            })
            .collect();
        Pool { to, current: 0, places: Vec::new() }
    }
    /// The operation on the calculator, on the current thread of the pool.
    fn run(&self, mut c: Calc, op: &str, a: &[String]) -> (Calc, Result<String, ()>) {
        let (tx, rx) = std::sync::mpsc::channel();
        let (op, a) = (op.to_string(), a.to_vec());
        let task: Task = Box::new(move || {
            let res = guard(|| c.run(&op, &a));
            let _ = tx.send((c, res));
        });
        self.to[self.current - 1].send(task).unwrap();
        rx.recv().unwrap()
    }
}

/// One operation on the calculator with handle op.h; returns the event.
fn step(calcs: &mut BTreeMap<String, Calc>, pool: &mut Pool, o: &Op, flags: &str, live: Option<&Shared>) -> String {
    if let Some(l) = live {
        *l.lock().unwrap() = Live { since: Instant::now(), busy: true };
    }
    let others: Vec<(String, [f64; NF], [f64; 21])> =
        calcs.iter().filter(|(h, _)| **h != o.h).map(|(h, c)| (h.clone(), c.state(), c.x())).collect();
    let before_x = calcs.get(&o.h).map(|c| c.x());
    let mut ret = String::new();
    let mut fl = "";
    let mut reference = String::new();
    let mut xs: Vec<String> = Vec::new();
    match o.op.as_str() {
        "new" => match guard(|| Calc::new(&o.a[0])) {
            Ok(c) => {
                calcs.insert(o.h.clone(), c);
            }
            Err(()) => fl = "panic",
        },
        "free" => {
            calcs.remove(&o.h);
        }
        "note" | "sym" | "null" => {}
        "move" => {
            // The oldest place that a calculator of this kind has left, when there are some.
            let c = calcs.get_mut(&o.h).expect("handle");
            let left: Vec<usize> = (0..pool.places.len()).filter(|i| pool.places[*i].kind() == c.kind()).collect();
            let mut to = if left.len() > 1 { pool.places.remove(left[0]) } else { Calc::new(c.kind()) };
            match (&mut *c, &mut to) {
                (D(a), D(b)) => std::mem::swap(&mut **a, &mut **b),
                (G(a), G(b)) => std::mem::swap(&mut **a, &mut **b),
                _ => unreachable!(),
            }
            pool.places.push(std::mem::replace(c, to));
        }
        "on" => {
            pool.current = o.a[0].parse().unwrap();
            while pool.to.len() < pool.current {
                pool.to.append(&mut Pool::new(1).to);
            }
        }
        "check" => match guard(|| verdict(comp(&nums(&o.a)).check())) {
            Ok(v) => ret = v,
            Err(()) => fl = "panic",
        },
        "sum" => match guard(|| hex(comp(&nums(&o.a)).sum())) {
            Ok(v) => ret = v,
            Err(()) => fl = "panic",
        },
        "norm" => {
            let mut c = comp(&nums(&o.a));
            match guard(|| verdict(c.normalize())) {
                Ok(v) => ret = v,
                Err(()) => fl = "panic",
            }
            xs = uncomp(&c).iter().map(|v| hex(*v)).collect();
        }
        op => {
            let c = calcs.get_mut(&o.h).expect("handle");
            let twin = is_calc(op) && (flags.contains('R') || flags.contains('Z'));
            let r = if twin {
                let zero = flags.contains('Z');
                guard(|| {
                    let mut f = c.fresh(zero);
                    let ret = f.run(op, &o.a);
                    (ret, f.state())
                })
                .ok()
            } else {
                None
            };
            let res = if pool.current > 0 {
                let (back, res) = pool.run(calcs.remove(&o.h).unwrap(), op, &o.a);
                calcs.insert(o.h.clone(), back);
                res
            } else if flags.contains('M') {
                let mut moved = calcs.remove(&o.h).unwrap();
                let (back, res) = std::thread::scope(|s| {
                    s.spawn(move || {
                        let res = guard(|| moved.run(op, &o.a));
                        (moved, res)
                    })
                    .join()
                    .unwrap()
                });
                calcs.insert(o.h.clone(), back);
                res
            } else {
                guard(|| c.run(op, &o.a))
            };
            match res {
                Ok(v) => ret = v,
                Err(()) => fl = "panic",
            }
            if twin {
                reference = match r {
                    Some((ret, f)) => format!(",\"rret\":\"{}\",\"rf\":{}", ret, jarr(f.iter().map(|v| hex(*v)))),
                    None => ",\"rret\":\"panic\",\"rf\":[]".to_string(),
                };
            }
        }
    }
    let changed: Vec<String> = others
        .iter()
        .filter(|(h, s, x)| match calcs.get(h) {
            Some(c) => bits_differ(s, &c.state()) || bits_differ(x, &c.x()),
            None => true,
        })
        .map(|(h, _, _)| h.clone())
        .collect();
    let mut kind = "-";
    let mut f: Vec<String> = Vec::new();
    if let Some(c) = calcs.get(&o.h) {
        kind = c.kind();
        f = c.state().iter().map(|v| hex(*v)).collect();
        let x = c.x();
        if before_x.map_or(true, |b| bits_differ(&b, &x)) {
            xs = x.iter().map(|v| hex(*v)).collect();
        }
    }
    let ev = format!(
        "{{\"op\":\"{}\",\"h\":\"{}\",\"k\":\"{}\",\"a\":{},\"ret\":\"{}\",\"f\":{},\"xs\":{},\"oth\":{},\"fl\":\"{}\"{}}}",
        o.op, o.h, kind, jarr(&o.a), ret, jarr(f), jarr(xs), jarr(changed), fl, reference
    );
    if let Some(l) = live {
        l.lock().unwrap().busy = false;
    }
    ev
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&args[1]).expect("input");
    let only = args.get(3).cloned();
    std::panic::set_hook(Box::new(|_| {}));
    let mut out = std::io::BufWriter::new(std::fs::File::create(&args[2]).expect("output"));
    let live: Shared = Arc::new(Mutex::new(Live { since: Instant::now(), busy: false }));
    {
        // An operation that does not return within 10 s ends the run with status 3.
        let live = live.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(250));
            let l = live.lock().unwrap();
            if l.busy && l.since.elapsed() > Duration::from_secs(10) {
                std::process::exit(3);
            }
        });
    }
    for s in parse(&text) {
        let wanted = |o: &&Op| only.as_ref().map_or(true, |h| *h == o.h);
        writeln!(out, "S {}", s.id).unwrap();
        out.flush().unwrap();
        if s.flags.contains('T') && only.is_none() {
            let mut handles: Vec<&str> = Vec::new();
            for o in s.ops.iter() {
                if !handles.contains(&o.h.as_str()) {
                    handles.push(&o.h);
                }
            }
            let gate = Barrier::new(handles.len().max(1));
            let (there, all) = (AtomicUsize::new(0), handles.len());
            *live.lock().unwrap() = Live { since: Instant::now(), busy: true };
            let parts: Vec<Vec<String>> = std::thread::scope(|sc| {
                let hs: Vec<_> = handles
                    .iter()
                    .map(|h| {
                        let (ops, gate, flags, there) = (&s.ops, &gate, &s.flags, &there);
                        sc.spawn(move || {
                            let (mut calcs, mut pool) = (BTreeMap::new(), Pool::new(0));
                            gate.wait();
                            // and once more, closer together
                            there.fetch_add(1, Ordering::SeqCst);
                            for n in 0..20000 {
                                if there.load(Ordering::SeqCst) == all {
                                    break;
                                }
                                if n % 64 == 63 {
                                    std::thread::yield_now();
                                } else {
                                    std::hint::spin_loop();
                                }
                            }
                            ops.iter().filter(|o| o.h == *h).map(|o| step(&mut calcs, &mut pool, o, flags, None)).collect()
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
            live.lock().unwrap().busy = false;
            for e in parts.iter().flatten() {
                writeln!(out, "{e}").unwrap();
            }
        } else {
            let mut calcs: BTreeMap<String, Calc> = BTreeMap::new();
            let mut pool = Pool::new(0);
            for o in s.ops.iter().filter(wanted) {
                let e = step(&mut calcs, &mut pool, o, &s.flags, Some(&live));
                writeln!(out, "{e}").unwrap();
                out.flush().unwrap();
            }
        }
    }
    out.flush().unwrap();
    let _ = FIELDS;
}
