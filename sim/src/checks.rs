//! The properties: how a scenario is drawn, how it is executed under the
//! simulator, and what has to be true of it.

use crate::docgen::*;
use crate::observe::*;
use crate::reader::*;
use crate::rng::{hash_bytes, mix, Rng};
use crate::rt::{self, Plan, Stop, TaskFn};
use dockerfile_parser::{Dockerfile, Error, Span, Splicer};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::rc::Rc;

pub trait Check {
    const ID: &'static str;
    const QUICK: u64;
    const THOROUGH: u64;
    const RULE: &'static str;
    type Sc: Serialize + DeserializeOwned + Clone;
    fn gen(r: &mut Rng, index: u64, thorough: bool) -> Self::Sc;
    fn plan(sc: &Self::Sc) -> &Plan;
    /// processor time a run may take
    fn cpu_secs(_: &Self::Sc) -> i64 {
        crate::runner::RUN_CPU_SECS
    }
    /// runs in a process of its own; returns (non-trivial?, one-line summary)
    fn run(sc: Self::Sc) -> (bool, String);
}

type Res = Result<Dockerfile, Error>;

/// generous upper bound on the steps a call over n bytes may take
pub fn budget(n: usize) -> u64 {
    2_000_000 + 5_000 * n as u64
}

fn load(data: &Rc<Vec<u8>>, s: &Stream) -> (Res, Vec<ErrSpec>) {
    let mut rd = SimReader::new(data.clone(), s);
    let extra = 64 * rd_events(s);
    let released = std::cell::Cell::new(false);
    let r = rt::must_b("loading", budget(data.len()) + extra, || dst_calls::load(dst_calls::Handed { reader: &mut rd, released: &released }));
    rt::stat("op.load", 1);
    check_released(released.get());
    check_nested("a reader", &rd.nested);
    (r, rd.failed)
}

/// whether the property under test says what becomes of a reader
static READERS_MATTER: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

fn check_released(released: bool) {
    if !released && READERS_MATTER.load(std::sync::atomic::Ordering::SeqCst) {
        rt::violation("reader-kept", "loading returned, but the reader it was given was never let go");
    }
}

/// A library call made while the library is waiting for its reader or sink.
/// There are 4000 different ones.
pub fn nested(what: u32) -> String {
    let i = what as usize / 8;
    let text = || {
        let mut t = variant_text(&format!("ARG V={}\n", i), i);
        t.push_str(&format!("FROM lib/x{}:$V\nRUN [\"a\\u00e9\", 'b']\n", i));
        if i % 7 == 0 {
            t = format!("{}{}", t, "RUN abc \\\n # c\n  def\n".repeat(i));
        }
        t
    };
    match what % 8 {
        0 => canon(&parse(&text())),
        1 => canon(&parse(&format!("{}FROM\n", text()))),
        2 => {
            let t = text();
            let mut b = t.as_bytes();
            let n = b.len();
            let released = std::cell::Cell::new(false);
            let r = canon(&rt::must_b("loading", budget(n), || dst_calls::load(dst_calls::Handed { reader: &mut b, released: &released })));
            check_released(released.get());
            r
        }
        3 => {
            let t = text().into_bytes();
            let err = ErrSpec { kind: "Other".into(), style: "custom".into(), code: i as i32 };
            let s = Stream { chunks: vec![5], faults: vec![(i % t.len(), Fault::Fail { err })], latency: 0, own: 0 };
            canon(&load(&Rc::new(t), &s).0)
        }
        4 => {
            let s = format!("r{}.io/a/b{}@sha256:{}", i, i, HEX64);
            let im = rt::must("ImageRef::parse", || dockerfile_parser::ImageRef::parse(&s));
            format!("{} / {}", image_ref(&im), rt::must("Display", || im.to_string()))
        }
        5 => exec_call(
            &Call::Substitute {
                s: format!("$A-{}-${{B}}", i),
                vars: vec![("A".into(), format!("a{}$B", i)), ("B".into(), format!("b{}", i))],
                depth: 4,
            },
            &Rc::new(vec![]),
        ),
        6 => match parse(&text()) {
            Err(e) => canon(&Err(e)),
            Ok(d) => {
                let mut sp = rt::must("splicer", || d.splicer());
                for ins in d.instructions.iter().take(6) {
                    let span = ins.span();
                    rt::must("splice", || sp.splice(&span, &format!("X{}", i)));
                }
                sp.content
            }
        },
        _ => match parse(&text()) {
            Err(e) => canon(&Err(e)),
            Ok(d) => {
                let dbg = rt::must("Debug", || format!("{:?}", d));
                format!("{} {}", queries(&d), dbg)
            }
        },
    }
}

/// The answers must not depend on where the calls were made.
fn check_nested(who: &str, made: &[(u32, String)]) {
    for (what, got) in made {
        let want = nested(*what);
        if *got != want {
            rt::violation(
                "nested-call-differs",
                &format!("call {} made by {} while the library was using it answered differently: {}", what, who, diff_text(&want, got)),
            );
        }
    }
}

fn rd_events(s: &Stream) -> u64 {
    s.faults
        .iter()
        .map(|f| match f.1 {
            Fault::Interrupt { n } => n as u64,
            _ => 1,
        })
        .sum()
}

fn parse(text: &str) -> Res {
    rt::stat("op.parse", 1);
    rt::must_b("parsing", budget(text.len()), || Dockerfile::parse(text))
}

fn outcome_event(what: &'static str, c: &str) {
    let h = hash_bytes(3, c.as_bytes());
    rt::event(h, || format!("{}: {}", what, c.lines().next().unwrap_or("").chars().take(160).collect::<String>()));
}

fn count_outcome(r: &Res) {
    let k = match r {
        Ok(_) => "outcome.ok".to_string(),
        Err(e) => format!("outcome.{}-error", err_kind(e)),
    };
    rt::stat(&k, 1);
}

fn one_task(f: impl FnOnce() + 'static) {
    rt::run_tasks(vec![Box::new(f)]);
}

fn text_of(r: &mut Rng) -> String {
    match r.below(9) {
        0 => String::new(),
        1 => "x".into(),
        2 => "alpine:3.12".into(),
        3 => "日本語🚀".into(),
        4 => "\n".into(),
        5 => " \\\n  y".into(),
        6 => "a b c d e f g h i j k l m n o p".into(),
        7 if r.pct(8) => "W".repeat(*r.pick(&[32768, 32767, 40000, 65535, 65536, 70000, 131100])),
        7 => "Z".repeat(r.range(1, 3000)),
        _ => {
            let n = r.range(1, 12);
            (0..n).map(|_| (b'a' + r.below(26) as u8) as char).collect()
        }
    }
}

/// sizes that matter to buffered reading
fn sized_doc(r: &mut Rng, index: u64, thorough: bool) -> Doc {
    let mut d = Doc::any(r);
    if index % 8192 == 17 {
        // past every power of two a buffer or a limit is likely to have
        d.grow(r, if thorough { 40_000_000 } else { 17_500_000 });
        return d;
    }
    if thorough && index % 8192 == 18 {
        d.pad(r, 68_000_000);
        return d;
    }
    match r.below(100) {
        0..=9 => {
            let b = *r.pick(&[32usize, 4096, 8192, 8192, 16384, 65536, 131072]);
            let n = (b + r.below(41)).saturating_sub(20);
            d.grow(r, n);
        }
        10 if index % 3 == 0 => {
            let n = r.range(600_000, 2_500_000);
            d.grow(r, n);
        }
        _ => {}
    }
    d
}

// =====================================================================  C01

pub struct C01;

#[derive(Serialize, Deserialize, Clone)]
pub struct Sc01 {
    pub doc: Doc,
    pub damage: Vec<Damage>,
    pub tasks: Vec<Stream>,
    pub plan: Plan,
}

impl Check for C01 {
    const ID: &'static str = "C01";
    const QUICK: u64 = 5000;
    const THOROUGH: u64 = 400_000;
    const RULE: &'static str = "one run = one generated (possibly damaged, valid UTF-8) file delivered through 1-4 simulated readers, loading concurrently under a seeded schedule; non-trivial if at least one short read, interrupt, stall or clock jump actually fired; distinct = different hash of the whole event trace (faults, task switches, outcomes)";
    type Sc = Sc01;
    fn gen(r: &mut Rng, index: u64, thorough: bool) -> Sc01 {
        let doc = sized_doc(r, index, thorough);
        let text = doc.text();
        let mut damage = vec![];
        if r.pct(25) && text.len() < 300_000 {
            for _ in 0..r.range(1, 3) {
                damage.push(gen_damage(r, text.len(), false));
            }
        }
        if r.pct(4) {
            damage = vec![Damage::Insert { at: 0, text: "\u{feff}".into(), times: 1 }];
        }
        let n = if text.len() > 1_000_000 { 1 } else { *r.pick(&[1, 1, 2, 2, 3, 4]) };
        let mut tasks: Vec<Stream> = (0..n).map(|_| gen_benign(r, text.as_bytes())).collect();
        if text.len() > 1_000_000 {
            tasks[0].faults.retain(|f| !matches!(f.1, Fault::Interrupt { n } if n > 20));
        }
        if text.len() < 1_000_000 {
            for t in tasks.iter_mut() {
                if r.pct(12) {
                    t.faults.push((gen_offset(r, text.as_bytes()), Fault::End {}));
                }
            }
        }
        let plan = rt::gen_plan(r, n);
        Sc01 { doc, damage, tasks, plan }
    }
    fn plan(sc: &Sc01) -> &Plan {
        &sc.plan
    }
    fn cpu_secs(sc: &Sc01) -> i64 {
        // a megabyte takes about a second in all, on an idle processor
        crate::runner::RUN_CPU_SECS + (sc.doc.text().len() / 200_000) as i64
    }
    fn run(sc: Sc01) -> (bool, String) {
        READERS_MATTER.store(true, std::sync::atomic::Ordering::SeqCst);
        let mut bytes = apply_damage(sc.doc.text().into_bytes(), &sc.damage);
        if std::str::from_utf8(&bytes).is_err() {
            bytes = sc.doc.text().into_bytes();
        }
        let data = Rc::new(bytes);
        let n = data.len();
        let want = Rc::new(RefCell::new((String::new(), String::new())));
        {
            let (want, data) = (want.clone(), data.clone());
            one_task(move || {
                let text = std::str::from_utf8(&data).unwrap();
                let r = parse(text);
                let a = canon(&r);
                if let Ok(d) = &r {
                    check_content(d, &data);
                }
                let r2: Res = rt::must_b("FromStr", budget(text.len()), || text.parse::<Dockerfile>());
                let b = canon(&r2);
                if a != b {
                    rt::violation("entry-points-differ", &format!("parse() and FromStr disagree: {}", diff_text(&a, &b)));
                }
                outcome_event("parse", &a);
                *want.borrow_mut() = (a, b);
            });
        }
        let mut tasks: Vec<TaskFn> = vec![];
        for s in sc.tasks.iter().cloned() {
            // a stream may end before the reader runs out of things to say
            let end = s.faults.iter().filter(|f| f.1 == Fault::End {}).map(|f| f.0).min().filter(|e| *e < n);
            let mut s = s;
            let mut mine = data.clone();
            let own = Rc::new(RefCell::new(None));
            if let Some(mut e) = end {
                while data[e] & 0xC0 == 0x80 {
                    e -= 1;
                }
                s.faults.retain(|f| f.1 != Fault::End {});
                s.faults.push((e, Fault::End {}));
                mine = Rc::new(data[..e].to_vec());
                let (own, mine) = (own.clone(), mine.clone());
                one_task(move || {
                    *own.borrow_mut() = Some(canon(&parse(std::str::from_utf8(&mine).unwrap())));
                });
            }
            let (want, data) = (want.clone(), data.clone());
            tasks.push(Box::new(move || {
                let (r, failed) = load(&data, &s);
                if !failed.is_empty() {
                    rt::harness_error("benign stream failed");
                }
                count_outcome(&r);
                if let Ok(d) = &r {
                    check_content(d, &mine);
                }
                let c = canon(&r);
                outcome_event("load", &c);
                let want = want.borrow();
                let own = own.borrow();
                let w = own.as_ref().unwrap_or(&want.0);
                if *w != c {
                    rt::violation(
                        "delivery-changes-outcome",
                        &format!("the same {} bytes, delivered by a reader: {}", mine.len(), diff_text(w, &c)),
                    );
                }
            }));
        }
        if tasks.is_empty() {
            return (false, String::new());
        }
        let k = tasks.len();
        rt::run_tasks(tasks);
        let fired = rt::stat_value("fault.interrupt")
            + rt::stat_value("fault.stall")
            + rt::stat_value("fault.short-read")
            + rt::stat_value("fault.clock-jump");
        (fired > 0, format!("{} bytes, {} readers, {} damages, {} delivery faults fired; outcome {}", n, k, sc.damage.len(), fired, first_line(&want.borrow().0)))
    }
}

fn first_line(s: &str) -> String {
    s.lines().next().unwrap_or("").chars().take(90).collect()
}

fn check_content(d: &Dockerfile, data: &[u8]) {
    if d.content.as_bytes() != data {
        let at = d.content.as_bytes().iter().zip(data.iter()).position(|(a, b)| a != b);
        rt::violation(
            "content-differs",
            &format!(
                "{} bytes were delivered, the document holds {} (first difference at {:?})",
                data.len(),
                d.content.len(),
                at
            ),
        );
    }
}

// =====================================================================  C02

pub struct C02;

#[derive(Serialize, Deserialize, Clone)]
pub struct Load02 {
    pub doc: Doc,
    /// (offset, bytes that are not UTF-8)
    pub bad: Vec<(usize, Vec<u8>)>,
    pub stream: Stream,
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Sc02 {
    pub tasks: Vec<Load02>,
    pub plan: Plan,
}

const BAD: &[&[u8]] = &[
    &[0x80], &[0xff], &[0xc3], &[0xe2, 0x82], &[0xf0, 0x9f, 0x9a], &[0xc0, 0x80], &[0xed, 0xa0, 0x80],
    &[0xf5, 0x80, 0x80, 0x80], &[0xfe, 0xfe], &[0xe9], &[0xbf, 0xbf], &[0xff, 0xfe],
];

impl Check for C02 {
    const ID: &'static str = "C02";
    const QUICK: u64 = 9000;
    const THOROUGH: u64 = 600_000;
    const RULE: &'static str = "one run = 1-3 concurrent loads, each of a stream that fails (any error kind, errno or payload, at any byte including before the first and after the last) or carries bytes that are not UTF-8, followed by a clean retry; non-trivial if a hard read error or an invalid byte sequence was actually delivered; distinct = different event-trace hash";
    type Sc = Sc02;
    fn gen(r: &mut Rng, index: u64, thorough: bool) -> Sc02 {
        let n = *r.pick(&[1, 1, 1, 2, 3]);
        let mut tasks = vec![];
        for _ in 0..n {
            let doc = sized_doc(r, index, thorough);
            let text = doc.text();
            let mut stream = gen_benign(r, text.as_bytes());
            if text.len() > 1_000_000 {
                stream.faults.clear();
            }
            let mut bad = vec![];
            let mode = r.below(10);
            let huge = text.len() > 1_000_000;
            if mode < 6 || mode == 9 {
                for _ in 0..*r.pick(&[1, 1, 1, 2]) {
                    let at = if huge { text.len() - r.below(3) } else { gen_offset(r, text.as_bytes()) };
                    stream.faults.push((at, Fault::Fail { err: ErrSpec::gen(r) }));
                }
            }
            if mode >= 6 {
                for _ in 0..*r.pick(&[1, 1, 2]) {
                    let at = if huge { text.len() - r.below(3) } else { gen_offset(r, text.as_bytes()) };
                    bad.push((at, r.pick(BAD).to_vec()));
                }
            }
            tasks.push(Load02 { doc, bad, stream });
        }
        let plan = rt::gen_plan(r, n);
        Sc02 { tasks, plan }
    }
    fn plan(sc: &Sc02) -> &Plan {
        &sc.plan
    }
    fn run(sc: Sc02) -> (bool, String) {
        READERS_MATTER.store(true, std::sync::atomic::Ordering::SeqCst);
        let mut tasks: Vec<TaskFn> = vec![];
        for l in sc.tasks.iter().cloned() {
            tasks.push(Box::new(move || {
                let text = l.doc.text();
                let mut bytes = text.clone().into_bytes();
                for (at, b) in &l.bad {
                    let at = (*at).min(bytes.len());
                    bytes.splice(at..at, b.iter().copied());
                }
                let invalid = std::str::from_utf8(&bytes).is_err();
                let data = Rc::new(bytes);
                let (r, failed) = load(&data, &l.stream);
                if invalid {
                    rt::stat("fault.not-utf8", 1);
                }
                count_outcome(&r);
                let what = match (&failed[..], invalid) {
                    ([], false) => None,
                    ([f, ..], _) => Some(format!("the reader failed with {:?}", f.make())),
                    _ => Some("the stream is not valid UTF-8".to_string()),
                };
                if let Some(what) = what {
                    match &r {
                        Err(Error::ReadError { source, .. }) => {
                            let why = failed.first().map(|f| f.mismatch(source));
                            let is_utf8 = invalid && source.kind() == std::io::ErrorKind::InvalidData;
                            match why {
                                Some(None) => {}
                                _ if is_utf8 => {}
                                Some(Some(w)) => rt::violation("error-replaced", &format!("{}, but the caller was told: {}", what, w)),
                                None => rt::violation("error-replaced", &format!("{}, but the caller was told {:?}", what, source)),
                            }
                            // the error chain must lead to the cause
                            let e = r.as_ref().err().unwrap();
                            let shown = rt::must("Display of the error", || e.to_string());
                            if !shown.contains(&source.to_string()) {
                                rt::violation("error-hidden", &format!("{}, but the message says only {:?}", what, shown));
                            }
                            let src = std::error::Error::source(e).map(|s| s.to_string());
                            if src.as_deref() != Some(&source.to_string()) {
                                rt::violation("error-hidden", &format!("{}, but source() is {:?}", what, src));
                            }
                        }
                        Err(e) => rt::violation("wrong-error", &format!("{}, but the caller was told: {}", what, clip(&err_text(e)))),
                        Ok(d) => rt::violation(
                            "failure-swallowed",
                            &format!("{}, but a document of {} bytes and {} instructions was returned", what, d.content.len(), d.instructions.len()),
                        ),
                    }
                } else if !failed.is_empty() || matches!(r, Err(Error::ReadError { .. })) {
                    rt::violation("invented-error", &format!("nothing failed, but: {}", clip(&canon(&r))));
                }
                outcome_event("load", &canon(&r));
                // the fault is gone: the same bytes load as if nothing had happened
                if data.len() < 200_000 {
                    let clean = Rc::new(text.clone().into_bytes());
                    let (r2, _) = load(&clean, &Stream::default());
                    let a = canon(&parse(&text));
                    let b = canon(&r2);
                    if a != b {
                        rt::violation("no-recovery", &format!("retry after a failed read: {}", diff_text(&a, &b)));
                    }
                }
            }));
        }
        if tasks.is_empty() {
            return (false, String::new());
        }
        let k = tasks.len();
        rt::run_tasks(tasks);
        let hard = rt::stat_value("fault.read-error.os")
            + rt::stat_value("fault.read-error.simple")
            + rt::stat_value("fault.read-error.custom");
        let bad = rt::stat_value("fault.not-utf8");
        (hard + bad > 0, format!("{} loads, {} hard read errors, {} invalid streams; first stream {:?} faults", k, hard, bad, sc.tasks[0].stream.faults.iter().take(3).collect::<Vec<_>>()))
    }
}

fn clip(s: &str) -> String {
    s.chars().take(300).collect()
}

// =====================================================================  C03

pub struct C03;

#[derive(Serialize, Deserialize, Clone)]
pub struct Load03 {
    pub doc: Doc,
    pub damage: Vec<Damage>,
    pub stream: Stream,
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Sc03 {
    pub tasks: Vec<Load03>,
    #[serde(default)]
    pub growth: Vec<Growth>,
    pub plan: Plan,
}

/// Strings made of the characters that mean something to the parser, in places
/// where they are not expected.
pub fn odd(r: &mut Rng, alphabet: &[&str]) -> String {
    let n = *r.pick(&[0usize, 1, 1, 2, 2, 3, 3, 4, 5, 6, 9]);
    let mut s = String::new();
    for _ in 0..n {
        let t = *r.pick(alphabet);
        s.push_str(t);
        if r.one_in(60) {
            s.push_str(&t.repeat(*r.pick(&[20usize, 60, 130, 300])));
        }
    }
    s
}

const HEX64: &str = "0123456789abcdef0123456789ABCDEF0123456789abcdef0123456789abcdef";
const HEX63: &str = "0123456789abcdef0123456789ABCDEF0123456789abcdef0123456789abcde";
const IMG: &[&str] = &[
    ":", ":", "@", "@", "/", "/", "a", "a", ".", "-", "_", "$", "{", "}", "$a", "${a}", "${", "$}", "sha256:",
    HEX64, HEX64, HEX63, "localhost", "localhost:5000", "x.y", "0", "scratch", "A",
];
const ANYTOK: &[&str] = &[
    "a", "b", "=", "=", "\"", "'", "\\", "\\\\", "[", "]", ",", "--", "-", "#", "$", "${", "}", ":", "/", "@", "é", "日", "🚀",
    "\u{301}", "\u{2028}", "\u{a0}", "\u{feff}", "\u{85}", "İ", "ß", "\u{0}", "\u{1f}", "\u{b}", "\u{c}", "\\n", "\\u00e9", "\\ud800", "\\U0001F680",
    "\\U00110000", "\\U0001F60", "\\u12", "\\x41", "\\0", "\\q", "\\é", "\\\n", "\\\r\n", "\\ \n", " ", "\t", "  ", "0", "A", "_", "`", "''", "\"\"", "\"a\"", "'b'",
];

/// what may stand in a string of either kind
const STR: &[&str] = &[
    "a", "=", "b c", "#", "$a", "\u{e9}", "\u{65e5}", "\u{1f680}", "\u{301}", "\u{a0}", "\u{b}", "\\\\", "\\n", "\\t", "\\u00e9", "\\ud800",
    "\\udfff", "\\U0001F680", "\\U00110000", "\\U0001F60", "\\u12", "\\x41", "\\0", "\\q", "\\\u{e9}", "\\\n", "\\\r\n", "\\'", "\\\"", "\\v", "\\a", "`",
];

pub fn odd_image(r: &mut Rng) -> String {
    odd(r, IMG)
}

/// an instruction with odd arguments; may or may not be accepted
fn odd_item(r: &mut Rng) -> Item {
    let mut t = String::new();
    let gap = |r: &mut Rng| r.pick(&[" ", " ", " ", "  ", "\t", " \\\n", " \\\n# c\n", " \\\r\n  ", " \\\n\n"]).to_string();
    let quoted = |r: &mut Rng| {
        let q = *r.pick(&["\"", "'"]);
        if r.pct(6) {
            // long, and perhaps with a malformed escape somewhere
            let bad = *r.pick(&["", "\\ud800", "\\q", "\\U00110000", "\\x41", "\\\n"]);
            let (a, b) = (long_text(r), long_text(r));
            return if r.pct(50) { format!("{}{}{}{}", q, a, bad, q) } else { format!("{}{}{}{}{}", q, a, bad, b, q) };
        }
        format!("{}{}{}", q, odd(r, ANYTOK), q)
    };
    match r.below(18) {
        16 | 17 => {
            // a well-formed line around a string that the grammar takes,
            // decodable or not
            let q = *r.pick(&["\"", "'"]);
            let mut c = String::new();
            for _ in 0..*r.pick(&[1, 1, 2, 3]) {
                c.push_str(&if r.pct(20) { long_text(r) } else { odd(r, STR) });
            }
            let q = format!("{}{}{}", q, c, q);
            t = match r.below(6) {
                0 => format!("ARG a={}", q),
                1 => format!("LABEL {}={}", r.pick(&["a", "'b'", "\"c\\x\""]), q),
                2 => format!("LABEL {}=a", q),
                3 => format!("ENV a={} b=c", q),
                4 => format!("ENV a {}", q),
                _ => format!("{} [{}{}]", r.pick(&["RUN", "CMD", "ENTRYPOINT"]), r.pick(&["", "'a', ", "\"\", "]), q),
            };
        }
        14 | 15 => {
            // text that goes on over several lines, comments anywhere in it
            // and at its end
            t.push_str(r.pick(&["RUN ", "CMD ", "ENTRYPOINT ", "ENV k ", "ENV  k\t", "ENV k \\\n ", "USER ", "VOLUME  ", "SHELL\t"]));
            let nl = *r.pick(&["\n", "\n", "\r\n"]);
            t.push_str(&odd(r, ANYTOK).replace('\n', " "));
            for _ in 0..r.range(0, 4) {
                t.push_str(r.pick(&["\\", "\\", "\\", " \\", "\\ ", "\\\t"]));
                t.push_str(nl);
                for _ in 0..*r.pick(&[0, 0, 1, 1, 2]) {
                    t.push_str(r.pick(&["", " ", "\t", "   "]));
                    t.push('#');
                    t.push_str(r.pick(&["", " note", " a \\", "\u{e9}\u{1F680}", " \\\\", "!"]));
                    t.push_str(nl);
                }
                match r.below(5) {
                    0 => {}
                    1 => t.push_str(r.pick(&[" ", "  ", "\t", "x", "\u{301}"])),
                    _ => t.push_str(&odd(r, ANYTOK).replace('\n', " ")),
                }
            }
            if r.pct(50) {
                t.push_str("\\");
                t.push_str(nl);
                t.push_str(r.pick(&[" ", "", "\t"]));
                t.push_str("# last");
                t.push_str(nl);
            }
        }
        0..=3 => {
            t.push_str("FROM");
            for _ in 0..*r.pick(&[0, 0, 0, 1, 2]) {
                t.push_str(&gap(r));
                t.push_str(&format!("--{}={}", odd(r, &["a", "b", "Z"]), odd(r, ANYTOK)));
            }
            t.push_str(&gap(r));
            t.push_str(&odd_image(r));
            if r.pct(30) {
                t.push_str(&gap(r));
                t.push_str(r.pick(&["as", "AS", "As", "a"]));
                t.push_str(&gap(r));
                t.push_str(&odd(r, &["a", "B", "-", "_", "0", "a", "é", "."]));
            }
        }
        4 => {
            t.push_str("ARG");
            t.push_str(&gap(r));
            t.push_str(&odd(r, &["a", "B", "_", "0", "A"]));
            if r.pct(70) {
                t.push('=');
                let v = if r.pct(40) { quoted(r) } else { odd(r, ANYTOK) };
                t.push_str(&v);
            }
        }
        5 | 6 | 7 => {
            t.push_str(r.pick(&["LABEL", "ENV"]));
            for _ in 0..r.range(1, 3) {
                t.push_str(&gap(r));
                let k = if r.pct(30) { quoted(r) } else { odd(r, ANYTOK) };
                t.push_str(&k);
                t.push_str(r.pick(&["=", "=", "=", " ", "", "=="]));
                let v = if r.pct(45) { quoted(r) } else { odd(r, ANYTOK) };
                t.push_str(&v);
            }
        }
        8 => {
            t.push_str("COPY");
            for _ in 0..*r.pick(&[0, 0, 1, 2]) {
                t.push_str(&gap(r));
                t.push_str(&format!("--{}={}", odd(r, &["a", "b", "Z"]), odd(r, ANYTOK)));
            }
            for _ in 0..r.range(1, 4) {
                t.push_str(&gap(r));
                t.push_str(&odd(r, ANYTOK));
            }
        }
        9 | 10 => {
            t.push_str(r.pick(&["RUN", "CMD", "ENTRYPOINT"]));
            t.push_str(&gap(r));
            t.push('[');
            for i in 0..r.below(4) {
                if i > 0 {
                    t.push_str(r.pick(&[",", ", ", " ,", ",,", ""]));
                }
                let q = quoted(r);
                t.push_str(&q);
                if r.pct(20) {
                    t.push_str(&gap(r));
                }
            }
            t.push_str(r.pick(&["]", "]", "]", "", "] x", "]\\\n"]));
        }
        11 => {
            t.push_str(r.pick(&["RUN", "CMD", "ENTRYPOINT"]));
            t.push_str(&gap(r));
            for _ in 0..r.range(1, 3) {
                t.push_str(&odd(r, ANYTOK));
                t.push_str(&gap(r));
            }
        }
        12 => {
            t.push_str(r.pick(&["USER", "x", "Expose", "MAINTAINER", "FROMX", "RUNS", "ENVa", "LABELx"]));
            t.push_str(&odd(r, ANYTOK));
        }
        _ => t.push_str(&odd(r, ANYTOK)),
    }
    Item {
        id: 700_000,
        indent: String::new(),
        body: Body::Ins { kind: "Odd".into(), pieces: vec![Piece::L(t)], derived: vec![] },
        trail: String::new(),
        eol: "\n".into(),
        times: 1,
    }
}

/// build arguments that refer to each other, and images that use them
fn arg_maze(r: &mut Rng) -> Vec<Item> {
    let n = r.range(1, 20);
    let k = r.range(1, 7);
    let chain = r.pct(60);
    let mut lines = vec![];
    for i in 0..n {
        let mut v = String::new();
        for _ in 0..if chain { k } else { r.below(k + 1) } {
            let to = if chain { i + 1 } else { r.below(n + 1) };
            v.push_str(&if r.pct(50) { format!("${{v{}}}", to) } else { format!("$v{}-", to) });
        }
        lines.push(format!("ARG v{}={}", i, v));
    }
    if r.pct(80) {
        lines.push(format!("ARG v{}={}", n, r.pick(&["", "x", "\"\"", "é", "$v0", "a:b", "@", "1.2"])));
    }
    if r.pct(50) {
        r.shuffle(&mut lines);
    }
    for _ in 0..r.range(1, 3) {
        lines.push(r.pick(&["FROM $v0", "FROM a:${v0}", "FROM $v0/$v1:$v2", "FROM x@$v0", "FROM $v0$v0$v0", "FROM $"]).to_string());
    }
    lines
        .into_iter()
        .map(|t| Item {
            id: 700_100,
            indent: String::new(),
            body: Body::Ins { kind: "Odd".into(), pieces: vec![Piece::L(t)], derived: vec![] },
            trail: String::new(),
            eol: "\n".into(),
            times: 1,
        })
        .collect()
}

/// puts an item somewhere into the document
fn insert_item(r: &mut Rng, doc: &mut Doc, it: Item) {
    let at = r.below(doc.items.len() + 1);
    if at == doc.items.len() {
        if let Some(l) = doc.items.last_mut() {
            if l.eol.is_empty() {
                l.eol = "\n".into();
            }
        }
    }
    doc.items.insert(at, it);
}

/// (start, repeated part, end)
const DEEP: &[(&str, &str, &str)] = &[
    ("RUN x", " \\\n y", ""),
    ("RUN x", " \\\n # c\n y", " z"),
    ("ENV a x", "\\\ny", ""),
    ("WORKDIR a", "\\\n b", ""),
    ("CMD a", " \\\r\n b", ""),
    ("ENTRYPOINT a", "\\\n#c\n b", ""),
    ("LABEL a=b", " \\\n c=d", ""),
    ("LABEL a=b", " \\\n# c\n\n c=\"d\"", ""),
    ("ENV a=b", " \\\n c=d", ""),
    ("COPY a", " \\\n b", " c"),
    ("RUN [", "\"a\", \\\n", "\"b\"]"),
    ("RUN [\"", "\\n", "\"]"),
    ("CMD [\"", "a\\\\", "\"]"),
    ("ARG a=\"", "\\t", "\""),
    ("LABEL a=\"", "\\\n", "\""),
    ("LABEL \"", "\\\"", "\"=x"),
    ("FROM a", "/b", ""),
    ("FROM ", "$x", ":${y}"),
    ("FROM --a=b", " --c=d", " e"),
    ("FROM \\\n", "# c\n\n", " x"),
    ("RUN \\\n", "\n", " x"),
    ("COPY", " \\\n\n # x\n", " a b"),
    ("LABEL a=b \\\n", "# c\n", ""),
    ("MAINTAINER ", "\\", "x"),
    ("RUN ", "\\ ", "x"),
    ("RUN a \\\n", "# c\n", ""),
    ("RUN [", "[", "]"),
    ("ENV ", "a=b ", ""),
    ("ENV a=", "'", ""),
    ("CMD ", "\"", ""),
    ("#", "\\\n", ""),
    ("COPY \\\n", "# c\n", " a b"),
    ("COPY a \\\n", "\n", " b"),
    ("COPY --from=x \\\n", " # c\n\n", "a b"),
    ("ENV \\\n", "# c\n", " a=b"),
    ("ENV \\\n", "\n", " a=b"),
    ("ENV a \\\n", "# c\n", " b"),
    ("LABEL \\\n", "# c\n", " a=b"),
    ("LABEL a \\\n", "\n", " b"),
    ("ARG \\\n", "# c\n", " a=b"),
    ("FROM a \\\n", "\n", " AS b"),
    ("FROM a AS \\\n", "# c\n", " b"),
    ("RUN [\"a\", \\\n", "# c\n", " \"b\"]"),
    ("CMD [ \\\n", "\n", " \"b\"]"),
    ("CMD \\\n", "# c\n", " b"),
    ("ENTRYPOINT \\\n", "\n", " b"),
    ("USER \\\n", "# c\n", " b"),
    ("WORKDIR a \\\n", "\n", " b"),
    ("RUN ", "# c \\\n", " b"),
    ("RUN a", " \\\n#\n#\n b", ""),
    ("ENV a='", "\\'", "'"),
    ("ENV a=\"", "é", "\""),
    ("ARG a=", "${b}", ""),
    ("FROM x AS ", "a-", "b"),
    ("FROM ", "a:", "b"),
    ("FROM ", "a@", "b"),
    ("", "ARG a=$a\n", "FROM $a"),
    ("", "FROM a AS a\n", "FROM a"),
    ("", "FROM x\nARG a\n", ""),
    ("", "# c\n", ""),
    ("", "\n", ""),
    ("", "RUN x\n", "RUN y"),
    ("", "\r", ""),
    ("", " \t", ""),
];

fn deep_item(r: &mut Rng) -> Item {
    // many continued lines, optionally with comments, in every instruction that allows it
    let mut n = 1usize << r.below(15);
    let (head, line, tail) = *r.pick(DEEP);
    if line.contains("FROM") {
        n = n.min(1024);
    }
    Item {
        id: 800_000,
        indent: String::new(),
        body: Body::Ins { kind: "Deep".into(), pieces: vec![Piece::L(head.into()), Piece::L(line.repeat(n)), Piece::L(tail.into())], derived: vec![] },
        trail: String::new(),
        eol: "\n".into(),
        times: 1,
    }
}

/// The same construct 1, 2 and 4 times as often must take 1, 2 and 4 times the work.
#[derive(Serialize, Deserialize, Clone)]
pub struct Growth {
    pub head: String,
    pub unit: String,
    pub tail: String,
    /// repetitions in the smallest of the three files
    pub n: usize,
}

/// the unit over and over; `%n` and `%p` count (this one, the one before)
fn repeated(unit: &str, n: usize) -> String {
    if !unit.contains("%n") {
        return unit.repeat(n);
    }
    (1..=n).map(|i| unit.replace("%n", &i.to_string()).replace("%p", &(i - 1).to_string())).collect()
}

/// constructs that mention ever new names
const COUNTED: &[(&str, &str, &str)] = &[
    ("FROM x AS s0\n", "FROM s%p AS s%n\n", ""),
    ("FROM x AS s0\n", "FROM s%p AS s%n\nRUN a\n", ""),
    ("", "FROM x%n AS s%n\n", ""),
    ("", "FROM x%n\n", ""),
    ("", "FROM s%n AS s%p\n", ""),
    ("", "FROM x AS S%n\nFROM s%n\n", ""),
    ("", "ARG a%n=x\n", "FROM $a1"),
    ("ARG a0=x\n", "ARG a%n=$a%p\n", "FROM $a9"),
    ("", "ARG a%n\n", "FROM $a1"),
    ("FROM x\n", "ARG a%n=1\n", ""),
    ("FROM x\n", "LABEL l%n=%p\n", ""),
    ("FROM x\nLABEL", " l%n=%p", ""),
    ("FROM x\nENV", " \\\n # c\n l%n=%p", ""),
    ("FROM x\n", "COPY --from=s%n a%n b\n", ""),
    ("FROM x\n", "INS a%n\n", ""),
    ("ARG a=b\nFROM ", "$a", ""),
    ("ARG a=b\nFROM ", "${a}-", ":$a"),
    ("ARG a\nFROM ", "$a", ""),
    ("ARG a=$b\nARG b=cc\nFROM ", "x$a/", "y"),
    ("FROM ", "a@$a:", "x"),
];

fn gen_growth(r: &mut Rng) -> Growth {
    if r.pct(15) {
        let (a, b, c) = *r.pick(COUNTED);
        let mut n = (*r.pick(&[600usize, 2000, 6000]) / b.len()).max(2);
        if r.pct(10) {
            n = 4096;
        }
        return Growth { head: a.into(), unit: b.into(), tail: c.into(), n };
    }
    let (head, unit, tail) = match r.below(4) {
        0 => {
            let (a, b, c) = *r.pick(DEEP);
            let pre = *r.pick(&["", "", "FROM x\n", "ARG a=b\n", "# c\n"]);
            (format!("{}{}", pre, a), b.to_string(), c.to_string())
        }
        1 => {
            // something well-formed over and over
            let d = Doc::small(r);
            let t = d.text();
            (String::new(), if t.ends_with(['\n', '\r']) { t } else { t + "\n" }, String::new())
        }
        2 => {
            let t = (0..r.range(1, 4)).map(|_| odd_item(r)).map(|i| Doc { items: vec![i] }.text()).collect::<String>();
            (r.pick(&["", "FROM x\n"]).to_string(), t, String::new())
        }
        _ => {
            let head = r.pick(&["LABEL ", "LABEL a ", "LABEL a=b ", "ENV ", "ENV a=b ", "ENV a ", "COPY ", "COPY --f=x ", "FROM ", "FROM --a=b ", "RUN ", "RUN [", "RUN [\"a\",", "CMD [", "ARG a=", "ARG a=\"", "FROM x AS ", "USER ", "# ", "", "ENV a='", "LABEL \""]).to_string();
            let unit = odd(r, ANYTOK) + *r.pick(&["", " ", " \\\n", ",", "\n", "=b "]);
            (head, if unit.is_empty() { "x".into() } else { unit }, r.pick(&["", "\n", "]", "\"", "'", " b", "\nRUN x"]).to_string())
        }
    };
    let n = (*r.pick(&[600usize, 2000, 2000, 6000]) / unit.len()).max(2);
    Growth { head, unit, tail, n }
}

const ASKED: [&str; 10] =
    ["parsing", "Debug", "clone", "comparing", "relative_span", "splice", "get_global_arg", "stages", "looking a stage up", "resolving an image"];

fn check_growth(g: &Growth) {
    // steps and bytes moved, for every question, for the three sizes
    let mut work = [[(0u64, 0u64); 3]; ASKED.len()];
    let mut accepted = 0;
    for k in 0..3 {
        let text = format!("{}{}{}", g.head, repeated(&g.unit, g.n << k), g.tail);
        let mut at = 0;
        let mut before = rt::moved();
        let mut took = |n: u64| {
            work[at][k] = (n, rt::moved() - before);
            before = rt::moved();
            at += 1;
        };
        let r = parse(&text);
        took(rt::last_call_steps());
        count_outcome(&r);
        if let Ok(d) = &r {
            accepted += 1;
            rt::set_question_budget(question_budget(d));
            rt::must("Debug", || {
                struct Nowhere;
                impl std::fmt::Write for Nowhere {
                    fn write_str(&mut self, _: &str) -> std::fmt::Result {
                        Ok(())
                    }
                }
                let _ = std::fmt::write(&mut Nowhere, format_args!("{:?}", d));
            });
            took(rt::last_call_steps());
            let c = rt::must("clone", || d.clone());
            took(rt::last_call_steps());
            rt::must("comparing", || c == *d);
            took(rt::last_call_steps());
            rt::must("dropping", move || drop(c));
            let last = d.instructions.last().map(|i| i.span()).unwrap_or(dockerfile_parser::Span::new(0, 0));
            let _ = rt::must("relative_span", || last.relative_span(d));
            took(rt::last_call_steps());
            rt::must("splice", || d.splicer().splice(&last, "x"));
            took(rt::last_call_steps());
            rt::must("get_global_arg", || d.get_global_arg("nobody").is_some());
            took(rt::last_call_steps());
            let st = rt::must("stages", || d.stages());
            took(rt::last_call_steps());
            rt::must("Stages::get", || st.get("nobody").is_some());
            took(rt::last_call_steps());
            if let Some(f) = d.instructions.iter().rev().find_map(|i| i.as_from()) {
                rt::must("resolve_vars", || f.image_parsed.resolve_vars(d));
                took(rt::last_call_steps());
            }
        }
        rt::must("dropping", move || drop(r));
    }
    rt::event(hash_bytes(3, format!("{:?}", work).as_bytes()), || format!("{:?} x {}: {:?} (steps, bytes)", g.unit, g.n, work));
    rt::stat("probe.growth-measured", 1);
    rt::stat("probe.growth-accepted", (accepted == 3) as u64);
    for (i, what) in ASKED.iter().enumerate() {
        let w = &work[i];
        // nothing is asked of a file that is not accepted, whatever its size
        if i > 0 && w.iter().any(|x| x.0 == 0) {
            continue;
        }
        let (a, b) = (w[1].0.saturating_sub(w[0].0), w[2].0.saturating_sub(w[1].0));
        // twice the work is expected; four times would be quadratic. Buffers
        // grow in leaps, so bytes get more room: 16 times would be quadratic.
        if b > 5 * a / 2 + 10_000 || w[2].1 > 10 * w[0].1 + (1 << 20) {
            rt::violation(
                "work-grows-faster",
                &format!("{}: {:?}, then {} / {} / {} times {:?}, then {:?}: {:?} (steps, bytes moved)", what, clip(&g.head), g.n, 2 * g.n, 4 * g.n, clip(&g.unit), clip(&g.tail), w),
            );
        }
    }
}

impl Check for C03 {
    const ID: &'static str = "C03";
    const QUICK: u64 = 36000;
    const THOROUGH: u64 = 600_000;
    const RULE: &'static str = "one run = 1-2 concurrent loads, on threads with the default 2 MiB stack, of a file damaged by lost, duplicated, flipped, zeroed, swapped, torn or inserted bytes and/or instructions continued over up to 16384 lines, through a reader that may interrupt, stall or fail; step budget 2e6 + 5e3 per byte per call; or loads of the same construct repeated n, 2n and 4n times, whose work must grow in proportion; non-trivial if the bytes were damaged, deep or repeated; distinct = different event-trace hash";
    type Sc = Sc03;
    fn gen(r: &mut Rng, _index: u64, thorough: bool) -> Sc03 {
        let n = *r.pick(&[1, 1, 1, 2]);
        let mut tasks = vec![];
        for _ in 0..n {
            let mut doc = Doc::any(r);
            if r.pct(30) {
                let mut it = deep_item(r);
                it.id += tasks.len();
                insert_item(r, &mut doc, it);
            }
            if r.pct(6) {
                let mut l = arg_maze(r);
                l.append(&mut doc.items);
                doc.items = l;
            } else if r.pct(55) {
                for _ in 0..*r.pick(&[1, 1, 1, 2, 4]) {
                    let mut it = odd_item(r);
                    it.id += tasks.len();
                    insert_item(r, &mut doc, it);
                }
            }
            let text = doc.text();
            let mut damage = vec![];
            if r.pct(if doc.items.iter().any(|i| i.id >= 700_000 && i.id < 800_000) { 25 } else { 85 }) {
                for _ in 0..*r.pick(&[1, 1, 2, 3, 6]) {
                    let wild = thorough || r.pct(30);
                    damage.push(gen_damage(r, text.len(), wild));
                }
            }
            let mut stream = gen_benign(r, text.as_bytes());
            if text.len() > 20_000 {
                stream.chunks.clear();
            }
            if r.pct(8) {
                let at = gen_offset(r, text.as_bytes());
                stream.faults.push((at, Fault::Fail { err: ErrSpec::gen(r) }));
            }
            tasks.push(Load03 { doc, damage, stream });
        }
        let mut growth = vec![];
        if r.pct(8) {
            tasks.clear();
            growth = (0..r.range(1, 3)).map(|_| gen_growth(r)).collect();
        }
        let plan = rt::gen_plan(r, n);
        Sc03 { tasks, growth, plan }
    }
    fn plan(sc: &Sc03) -> &Plan {
        &sc.plan
    }
    fn run(sc: Sc03) -> (bool, String) {
        let mut tasks: Vec<TaskFn> = vec![];
        let total = Rc::new(RefCell::new(0usize));
        for l in sc.tasks.iter().cloned() {
            let total = total.clone();
            tasks.push(Box::new(move || {
                let data = Rc::new(apply_damage(l.doc.text().into_bytes(), &l.damage));
                *total.borrow_mut() += data.len();
                let (r, _) = load(&data, &l.stream);
                count_outcome(&r);
                if let Err(e) = &r {
                    outcome_event("load", &err_text(e));
                }
                if let Ok(d) = &r {
                    // everything a caller may ask of the result must come back as well
                    rt::set_question_budget(question_budget(d));
                    let ns = nodes(d);
                    let q = queries(d);
                    outcome_event("load", &format!("OK {} nodes {}", ns.len(), q));
                    let dbg = rt::must("Debug", || format!("{:?}", d).len());
                    rt::event(dbg as u64, || "debug".into());
                    if let Some(i) = d.instructions.last() {
                        let s = i.span();
                        rt::must("relative_span", || s.relative_span(d));
                        rt::must("splice", || d.splicer().splice(&s, "x"));
                    }
                    rt::must("clone", || d.clone());
                }
                rt::must("dropping", move || drop(r));
            }));
        }
        if tasks.is_empty() {
            let g = sc.growth.clone();
            let what = format!("work growing with the file: {:?}", g.iter().map(|g| clip(&g.unit)).collect::<Vec<_>>());
            if !g.is_empty() {
                one_task(move || g.iter().for_each(check_growth));
            }
            return (!sc.growth.is_empty(), what);
        }
        let k = tasks.len();
        rt::run_tasks(tasks);
        let hurt = sc.tasks.iter().any(|t| !t.damage.is_empty() || t.doc.items.iter().any(|i| i.id >= 700_000 && i.id < 900_000));
        for t in &sc.tasks {
            for d in &t.damage {
                let k = format!("{:?}", d);
                let k = k.split(' ').next().unwrap().to_lowercase();
                rt::stat(&format!("fault.bytes-{}", k), 1);
            }
        }
        let total = *total.borrow();
        (hurt, format!("{} loads, {} bytes, damages {:?}, longest call {} steps", k, total, sc.tasks[0].damage.iter().take(2).map(|d| clip(&format!("{:?}", d))).collect::<Vec<_>>(), rt::max_call_steps()))
    }
}

// =====================================================================  C04

pub struct C04;

#[derive(Serialize, Deserialize, Clone)]
pub struct Sc04 {
    pub doc: Doc,
    pub damage: Vec<Damage>,
    pub stream: Stream,
    pub plan: Plan,
}

impl Check for C04 {
    const ID: &'static str = "C04";
    const QUICK: u64 = 90000;
    const THOROUGH: u64 = 900_000;
    const RULE: &'static str = "one run = one load of a file whose stored bytes were damaged 0-3 times (sparse damage, so that about half are still accepted), then a full consistency audit of the reported document; non-trivial if damage was applied and the file was still accepted; distinct = different event-trace hash";
    type Sc = Sc04;
    fn gen(r: &mut Rng, _index: u64, _thorough: bool) -> Sc04 {
        let mut doc = Doc::any(r);
        if r.one_in(250) {
            doc.tall(r);
        }
        let mut p = 85;
        if r.pct(35) {
            let it = odd_item(r);
            insert_item(r, &mut doc, it);
            p = 25;
        }
        let text = doc.text();
        let mut damage = vec![];
        if r.pct(p) {
            for _ in 0..*r.pick(&[1, 1, 1, 2, 3]) {
                damage.push(gen_damage(r, text.len(), false));
            }
        }
        let stream = gen_benign(r, text.as_bytes());
        Sc04 { doc, damage, stream, plan: rt::gen_plan(r, 1) }
    }
    fn plan(sc: &Sc04) -> &Plan {
        &sc.plan
    }
    fn run(sc: Sc04) -> (bool, String) {
        let data = Rc::new(apply_damage(sc.doc.text().into_bytes(), &sc.damage));
        let n = data.len();
        let ok = Rc::new(RefCell::new(0usize));
        let ok2 = ok.clone();
        let s = sc.stream.clone();
        one_task(move || {
            let (r, _) = load(&data, &s);
            count_outcome(&r);
            outcome_event("load", &canon(&r));
            if let Ok(d) = &r {
                check_content(d, &data);
                crate::audit::audit(d);
                // reading the same text once more reports the same thing
                let a = canon(&r);
                let b = canon(&parse(&d.content));
                if a != b {
                    rt::violation("reparse-differs", &diff_text(&a, &b));
                }
                *ok2.borrow_mut() = 1 + d.instructions.len();
            }
        });
        let acc = *ok.borrow();
        for d in &sc.damage {
            let k = format!("{:?}", d);
            let k = k.split(' ').next().unwrap().to_lowercase();
            rt::stat(&format!("fault.bytes-{}", k), 1);
        }
        if acc > 0 && !sc.damage.is_empty() {
            rt::stat("probe.damaged-but-accepted", 1);
        }
        (acc > 1 && !sc.damage.is_empty(), format!("{} bytes, {:?}: {}", n, sc.damage, if acc > 0 { format!("accepted, {} instructions audited", acc - 1) } else { "rejected".into() }))
    }
}

// =====================================================================  C05 / C06

#[derive(Serialize, Deserialize, Clone)]
pub struct Edit {
    /// which of the eligible spans
    pub pick: u64,
    pub text: String,
    /// which splicer
    pub splicer: usize,
    /// not 0: the edit asks for a span that does not exist, and fails
    #[serde(default)]
    pub fail: u64,
    /// how the replacement relates to what it replaces (0: not at all)
    #[serde(default)]
    pub like: u8,
}

impl Edit {
    fn replacement(&self, old: &str) -> String {
        match self.like {
            1 => old.to_string(),
            2 => old.to_uppercase(),
            // as many characters, more bytes
            3 => old.chars().enumerate().map(|(i, c)| if i == 0 { '\u{e9}' } else { c }).collect(),
            // as many bytes, other characters
            4 => "y".repeat(old.len()),
            5 => old.chars().rev().collect(),
            6 => format!("{}{}", self.text, old),
            7 => format!("{}{}", old, self.text),
            8 => old.chars().skip(1).collect(),
            9 => old.repeat(2),
            // as many characters, fewer bytes
            10 => "z".repeat(old.chars().count()),
            _ => self.text.clone(),
        }
    }
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Sc05 {
    pub doc: Doc,
    /// cut points (per mille) that add plain byte ranges to the eligible spans
    pub cuts: Vec<u32>,
    /// use only the byte ranges between cuts: every byte belongs to an edit
    pub partition: bool,
    pub tasks: Vec<Ops>,
    pub plan: Plan,
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Ops {
    pub ops: Vec<Edit>,
}

fn boundary(s: &str, mut i: usize) -> usize {
    i = i.min(s.len());
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i
}

fn eligible(d: &Dockerfile, cuts: &[u32], partition: bool) -> Vec<(usize, usize)> {
    let mut v: Vec<(usize, usize)> = vec![];
    if !partition {
        for n in nodes(d) {
            if n.s != NOPOS && n.s < n.e && n.e <= d.content.len() && d.content.is_char_boundary(n.s) && d.content.is_char_boundary(n.e) {
                v.push((n.s, n.e));
            }
        }
    }
    let len = d.content.len();
    let mut c: Vec<usize> = cuts.iter().map(|x| boundary(&d.content, len * (*x as usize) / 1000)).collect();
    if partition {
        c.push(0);
        c.push(len);
    }
    c.sort();
    c.dedup();
    for w in c.windows(2) {
        v.push((w[0], w[1]));
    }
    v.sort();
    v.dedup();
    v
}

fn assemble(orig: &str, edits: &[((usize, usize), String)]) -> String {
    let mut e: Vec<&((usize, usize), String)> = edits.iter().collect();
    e.sort_by_key(|x| x.0);
    let mut out = String::new();
    let mut pos = 0;
    for ((s, t), text) in e {
        out.push_str(&orig[pos..*s]);
        out.push_str(text);
        pos = *t;
    }
    out.push_str(&orig[pos..]);
    out
}

fn gen_edits(r: &mut Rng, n: usize, hot: u64, splicers: usize) -> Vec<Edit> {
    (0..n)
        .map(|_| Edit {
            pick: if hot > 0 && r.pct(75) { r.next() % hot } else { r.next() % 100_000 },
            text: text_of(r),
            splicer: r.below(splicers),
            fail: 0,
            like: if r.pct(25) { 1 + r.below(10) as u8 } else { 0 },
        })
        .collect()
}

fn with_failures(r: &mut Rng, mut e: Vec<Edit>) -> Vec<Edit> {
    if r.pct(25) {
        for x in e.iter_mut() {
            if r.pct(20) {
                x.fail = 1 + r.next() % 1_000_000;
            }
        }
    }
    e
}

fn apply_splice(sp: &Rc<RefCell<Splicer>>, span: (usize, usize), text: &str) {
    rt::stat("op.splice", 1);
    let mut s = sp.borrow_mut();
    let sp = Span::new(span.0, span.1);
    match rt::lib(budget(text.len() + s.content.len()), || s.splice(&sp, text)) {
        Ok(()) => {}
        Err(Stop::Panicked(m)) => rt::violation("panic", &format!("splice({}..{}, {:?}) panicked: {}", span.0, span.1, clip(text), m)),
        Err(_) => rt::harness_error("injected panic in splice"),
    }
}

fn disjoint(a: (usize, usize), b: (usize, usize)) -> bool {
    if a.0 == a.1 || b.0 == b.1 {
        // insertions: which side of a neighbour they are on must be clear
        a.1 < b.0 || b.1 < a.0
    } else {
        a.1 <= b.0 || b.1 <= a.0
    }
}

/// An editor that goes wrong: it asks for a span that is not there, panics and
/// is caught by its caller. Nothing may come of it.
fn failed_splice(sp: &Rc<RefCell<Splicer>>, orig: &str, touched: &[(usize, usize)], pick: u64, text: &str) {
    let len = orig.len();
    let k = (pick >> 3) as usize;
    let (a, b) = match pick % 5 {
        0 => (k % (len + 1), len + 1 + k % 50),
        1 => (len + 1 + k % 7, len + 8 + k % 50),
        2 => (len + 1, usize::MAX / 4),
        3 => {
            // the end comes before the start, in a place nobody has edited
            let s = 1 + k % len.max(1);
            if touched.iter().any(|t| t.0 <= s && s - 1 <= t.1) {
                return;
            }
            (s, s - 1)
        }
        _ => {
            // half a character, in a place nobody has edited
            let mid: Vec<usize> = (1..len).filter(|i| !orig.is_char_boundary(*i) && touched.iter().all(|t| t.1 < *i || *i < t.0)).collect();
            match mid.get(k % mid.len().max(1)) {
                Some(m) if k % 2 == 0 => (*m, (*m + 1..=len).find(|x| orig.is_char_boundary(*x)).unwrap()),
                Some(m) => ((0..*m).rev().find(|x| orig.is_char_boundary(*x)).unwrap(), *m),
                None => return,
            }
        }
    };
    let before = sp.borrow().content.clone();
    {
        let mut s = sp.borrow_mut();
        let span = Span::new(a, b);
        match rt::lib(budget(text.len() + len), || s.splice(&span, text)) {
            Ok(()) => rt::stat("probe.bad-span-ignored", 1),
            Err(Stop::Panicked(_)) => rt::stat("fault.edit-panics", 1),
            Err(Stop::Injected) => rt::harness_error("injected panic in splice"),
        }
    }
    let after = sp.borrow().content.clone();
    rt::event(hash_bytes(6, after.as_bytes()), || format!("failing splice {}..{}", a, b));
    if before != after {
        rt::violation("failed-edit", &format!("a failed edit of {}..{} in a text of {} bytes changed the text", a, b, len));
    }
}

fn run_edits(sc: Sc05, reedit: bool) -> (bool, String) {
    let text = sc.doc.text();
    let slot: Rc<RefCell<Option<(Rc<Dockerfile>, String, Vec<(usize, usize)>)>>> = Rc::new(RefCell::new(None));
    {
        let (slot, text) = (slot.clone(), text.clone());
        let (cuts, partition) = (sc.cuts.clone(), sc.partition);
        one_task(move || {
            if let Ok(d) = parse(&text) {
                let c = nodes(&d);
                let mut s = String::new();
                c.iter().for_each(|n| push_node(&mut s, n));
                let mut el = eligible(&d, &cuts, partition);
                if !reedit {
                    // insertions, at empty fields and anywhere else
                    for c in cuts.iter().filter(|c| *c % 2 == 0) {
                        let at = boundary(&d.content, d.content.len() * (*c as usize) / 1000);
                        el.push((at, at));
                    }
                    el.extend(c.iter().filter(|n| n.s == n.e && n.s <= d.content.len()).map(|n| (n.s, n.e)));
                }
                *slot.borrow_mut() = Some((Rc::new(d), s, el));
            }
        });
    }
    let Some((doc, before, spans)) = slot.borrow_mut().take() else {
        return (false, "document not accepted".into());
    };
    if spans.is_empty() {
        return (false, "nothing to edit".into());
    }
    let nsp = 2;
    let splicers: Vec<Rc<RefCell<Splicer>>> = (0..nsp).map(|_| Rc::new(RefCell::new(doc.splicer()))).collect();
    // per splicer: live edits, in model order
    type Live = Vec<((usize, usize), String)>;
    let model: Rc<RefCell<Vec<(Live, Vec<(usize, usize)>)>>> = Rc::new(RefCell::new(vec![(vec![], vec![]); nsp]));
    let spans = Rc::new(spans);
    let done = Rc::new(RefCell::new(0u64));
    let mut tasks: Vec<TaskFn> = vec![];
    let many = sc.tasks.len();
    for (me, t) in sc.tasks.iter().cloned().enumerate() {
        let (doc, splicers, model, spans, done) = (doc.clone(), splicers.clone(), model.clone(), spans.clone(), done.clone());
        tasks.push(Box::new(move || {
            for e in &t.ops {
                let k = e.splicer % nsp;
                let span = spans[(e.pick % spans.len() as u64) as usize];
                let text = e.replacement(&doc.content[span.0..span.1]);
                rt::lock(k);
                {
                    let mut m = model.borrow_mut();
                    let (live, touched) = &mut m[k];
                    let fine = if reedit {
                        // same span again, apart, or a container of what was edited
                        touched.iter().all(|t| *t == span || disjoint(*t, span) || (span.0 <= t.0 && t.1 <= span.1))
                    } else {
                        touched.iter().all(|t| disjoint(*t, span))
                    };
                    if e.fail > 0 {
                        let t = touched.clone();
                        drop(m);
                        failed_splice(&splicers[k], &doc.content, &t, e.fail, &e.text);
                        rt::unlock(k);
                        continue;
                    }
                    if !fine {
                        drop(m);
                        rt::unlock(k);
                        continue;
                    }
                    if touched.contains(&span) {
                        rt::stat("probe.same-span-again", 1);
                        if live.iter().any(|l| l.0 == span && l.1.is_empty()) {
                            rt::stat("probe.refill-after-delete", 1);
                        }
                    } else if touched.iter().any(|t| !disjoint(*t, span)) {
                        rt::stat("probe.container-after-inner", 1);
                    }
                    live.retain(|l| disjoint(l.0, span));
                    live.push((span, text.clone()));
                    touched.push(span);
                    if span.0 == span.1 {
                        rt::stat("probe.insertion", 1);
                    }
                }
                // the call may be preempted anywhere; others wait for the lock or use another splicer
                apply_splice(&splicers[k], span, &text);
                *done.borrow_mut() += 1;
                let got = splicers[k].borrow().content.clone();
                let want = assemble(&doc.content, &model.borrow()[k].0);
                rt::event(hash_bytes(5, got.as_bytes()), || format!("editor {} splice {:?} {:?}", me, span, clip(&text)));
                if got != want {
                    let hist: Vec<(usize, usize)> = model.borrow()[k].1.clone();
                    let at = got.bytes().zip(want.bytes()).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
                    let ctx = |s: &str| {
                        let a = boundary(s, at.saturating_sub(20));
                        let b = boundary(s, at + 30);
                        format!("{:?}", &s[a..b])
                    };
                    rt::violation(
                        "edit-misplaced",
                        &format!(
                            "after editing the spans {:?} in this order, the text near byte {} reads {} but should read {}",
                            hist.iter().rev().take(8).rev().collect::<Vec<_>>(), at, ctx(&got), ctx(&want)
                        ),
                    );
                }
                rt::unlock(k);
            }
        }));
    }
    if tasks.is_empty() {
        return (false, String::new());
    }
    rt::run_tasks(tasks);
    // the document the edits came from is untouched, and so are fresh splicers
    {
        let (doc, text) = (doc.clone(), text.clone());
        one_task(move || {
            if doc.content != text {
                rt::violation("document-changed", "editing through a splicer changed the document's own text");
            }
            let mut s = String::new();
            nodes(&doc).iter().for_each(|n| push_node(&mut s, n));
            if s != before {
                rt::violation("document-changed", &diff_text(&before, &s));
            }
            let fresh = rt::must("splicer", || doc.splicer());
            if fresh.content != text {
                rt::violation("splicer-not-fresh", "a new splicer does not start from the document's text");
            }
        });
    }
    let n = *done.borrow();
    (n >= 2, format!("{} edits by {} editors over {} spans of a {}-byte file", n, many, spans.len(), text.len()))
}

pub struct C05;

impl Check for C05 {
    const ID: &'static str = "C05";
    const QUICK: u64 = 90000;
    const THOROUGH: u64 = 900_000;
    const RULE: &'static str = "one run = 1-5 concurrent editors applying up to 60 (sometimes 900) replacements (shrinking, growing, deleting, multi-byte) of pairwise disjoint non-empty spans through two shared splicers in schedule order, compared after every call with a reference text; non-trivial if at least two edits were applied; distinct = different event-trace hash (order of edits, switches, resulting texts)";
    type Sc = Sc05;
    fn gen(r: &mut Rng, _i: u64, _t: bool) -> Sc05 {
        let mut doc = Doc::any(r);
        let n = *r.pick(&[1, 2, 2, 3, 3, 4, 5]);
        if r.pct(2) {
            // a long session: hundreds of edits of a larger file
            let len = r.range(3000, 12_000);
            doc.grow(r, len);
            let cuts = (0..r.range(200, 900)).map(|_| r.below(1001) as u32).collect();
            let tasks = (0..n)
                .map(|_| {
                    let k = r.range(60, 900) / n;
                    let mut ops = gen_edits(r, k, 0, 1);
                    ops.iter_mut().for_each(|o| o.text.truncate(if o.text.is_ascii() { 60 } else { usize::MAX }));
                    Ops { ops: with_failures(r, ops) }
                })
                .collect();
            return Sc05 { doc, cuts, partition: r.pct(70), tasks, plan: rt::gen_plan(r, n) };
        }
        if r.one_in(150) {
            doc.tall(r);
        }
        let partition = r.pct(30);
        let cuts = if partition || r.pct(40) { (0..r.range(1, 25)).map(|_| r.below(1001) as u32).collect() } else { vec![] };
        let tasks = (0..n)
            .map(|_| {
                let k = r.range(1, 14);
                let sp = *r.pick(&[1, 1, 2]);
                let ops = gen_edits(r, k, 0, sp);
                Ops { ops: with_failures(r, ops) }
            })
            .collect();
        Sc05 { doc, cuts, partition, tasks, plan: rt::gen_plan(r, n) }
    }
    fn plan(sc: &Sc05) -> &Plan {
        &sc.plan
    }
    fn run(sc: Sc05) -> (bool, String) {
        run_edits(sc, false)
    }
}

pub struct C06;

impl Check for C06 {
    const ID: &'static str = "C06";
    const QUICK: u64 = 90000;
    const THOROUGH: u64 = 900_000;
    const RULE: &'static str = "one run = 1-4 concurrent editors revisiting a small set of spans (the same span again, refilling a deleted one, a container after what is inside it) through two shared splicers in schedule order, compared after every call with a last-write-wins reference; non-trivial if a span was edited again or a container replaced; distinct = different event-trace hash";
    type Sc = Sc05;
    fn gen(r: &mut Rng, _i: u64, _t: bool) -> Sc05 {
        let mut doc = if r.pct(80) { Doc::small(r) } else { Doc::any(r) };
        if r.one_in(150) {
            doc.tall(r);
        }
        let n = *r.pick(&[1, 1, 2, 2, 3, 4]);
        let long = r.pct(2);
        let partition = r.pct(15);
        let cuts = if partition || r.pct(25) { (0..r.range(1, 12)).map(|_| r.below(1001) as u32).collect() } else { vec![] };
        // a small pool of hot spans, shared by all editors
        let hot: Vec<u64> = (0..r.range(1, 6)).map(|_| r.next() % 100_000).collect();
        let tasks = (0..n)
            .map(|_| {
                let k = if long { r.range(60, 900) / n } else { r.range(2, 12) };
                let sp = *r.pick(&[1, 1, 1, 2]);
                let mut ops = gen_edits(r, k, 0, sp);
                if long {
                    ops.iter_mut().for_each(|o| o.text.truncate(if o.text.is_ascii() { 60 } else { usize::MAX }));
                }
                for o in ops.iter_mut() {
                    if r.pct(80) {
                        o.pick = *r.pick(&hot);
                    }
                    if r.pct(25) {
                        o.text = String::new();
                    }
                }
                Ops { ops: with_failures(r, ops) }
            })
            .collect();
        Sc05 { doc, cuts, partition, tasks, plan: rt::gen_plan(r, n) }
    }
    fn plan(sc: &Sc05) -> &Plan {
        &sc.plan
    }
    fn run(sc: Sc05) -> (bool, String) {
        let (_, s) = run_edits(sc, true);
        let n = rt::stat_value("probe.same-span-again") + rt::stat_value("probe.container-after-inner");
        (n > 0, format!("{}; {} revisits", s, n))
    }
}

// =====================================================================  C07

pub struct C07;

#[derive(Serialize, Deserialize, Clone)]
pub enum Change {
    /// replace one leaf field
    Field { kind: String, path: String, old: String, raw: String, val: String, derived: Option<String> },
    /// replace the whole instruction
    Replace { body: Body },
    /// remove the instruction
    Delete {},
}

#[derive(Serialize, Deserialize, Clone)]
pub struct ModelEdit {
    pub id: usize,
    pub change: Change,
}

#[derive(Serialize, Deserialize, Clone)]
pub struct EditorOps {
    pub ops: Vec<ModelEdit>,
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Session {
    /// failing attempts to load before the one that works
    pub attempts: Vec<Stream>,
    pub stream: Stream,
    pub tasks: Vec<EditorOps>,
    /// crash after this many disk operations of the save (large: no crash)
    pub crash_after: usize,
    pub write_chunks: Vec<u32>,
    /// the disk refuses a write this often before it works again
    pub disk_errors: usize,
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Sc07 {
    pub doc: Doc,
    pub sessions: Vec<Session>,
    pub plan: Plan,
}

/// A disk: only what was synced survives a crash; renames are atomic.
#[derive(Default, Clone)]
struct Disk {
    durable: std::collections::BTreeMap<String, Vec<u8>>,
    cached: std::collections::BTreeMap<String, Vec<u8>>,
    ops: usize,
    crash_after: usize,
}

impl Disk {
    /// true: the machine went down before this operation took effect
    fn op(&mut self) -> bool {
        self.ops += 1;
        self.ops > self.crash_after
    }
    fn write(&mut self, f: &str, b: &[u8]) -> bool {
        if self.op() {
            return true;
        }
        self.cached.entry(f.into()).or_default().extend_from_slice(b);
        false
    }
    fn sync(&mut self, f: &str) -> bool {
        if self.op() {
            return true;
        }
        let b = self.cached.get(f).cloned().unwrap_or_default();
        self.durable.insert(f.into(), b);
        false
    }
    fn rename(&mut self, a: &str, b: &str) -> bool {
        if self.op() {
            return true;
        }
        let v = self.durable.remove(a).unwrap_or_default();
        self.durable.insert(b.into(), v);
        self.cached.clear();
        false
    }
    fn restart(&mut self) {
        self.cached.clear();
        self.durable.remove("Dockerfile.tmp");
        self.ops = 0;
        self.crash_after = usize::MAX;
    }
}

fn gen_change(r: &mut Rng, it: &Item, st: &Style) -> Option<Change> {
    let Body::Ins { pieces, kind, .. } = &it.body else { return None };
    let mut g = Gen::with_style(r, st.clone(), 0);
    if it.trail.is_empty() && g.r.pct(12) {
        // same end-of-line style, no swallowed whitespace at the end
        g.st.trailing = false;
        let k = g.r.below(9);
        let body = g.instruction(k).body;
        return Some(Change::Replace { body });
    }
    if g.r.pct(6) {
        return Some(Change::Delete {});
    }
    let fields: Vec<(&String, &String)> = pieces
        .iter()
        .filter_map(|p| match p {
            Piece::F { p, raw, .. } if !raw.is_empty() => Some((p, raw)),
            _ => None,
        })
        .collect();
    if fields.is_empty() {
        return None;
    }
    let (path, old) = *g.r.pick(&fields);
    let (raw, val, derived) = g.replacement(path, old)?;
    Some(Change::Field { kind: kind.clone(), path: path.clone(), old: old.clone(), raw, val, derived })
}

/// An edit was prepared against what an earlier save should have left behind; if
/// that save was lost in a crash, the client sees another line and gives up.
fn fits(it: &Item, c: &Change) -> bool {
    match (&it.body, c) {
        (Body::Ins { kind: k, pieces, .. }, Change::Field { kind, path, old, .. }) => {
            k == kind && pieces.iter().any(|p| matches!(p, Piece::F { p, raw, .. } if p == path && raw == old))
        }
        (Body::Ins { .. }, Change::Replace { .. }) => it.trail.is_empty(),
        (Body::Ins { .. }, Change::Delete {}) => true,
        _ => false,
    }
}

fn apply_change(it: &mut Item, c: &Change) {
    match c {
        Change::Delete {} => it.body = Body::Blank,
        Change::Replace { body } => it.body = body.clone(),
        Change::Field { path, raw, val, derived, .. } => {
            if let Body::Ins { pieces, derived: ds, .. } = &mut it.body {
                for p in pieces.iter_mut() {
                    if let Piece::F { p: pp, raw: rr, val: vv } = p {
                        if pp == path {
                            *rr = raw.clone();
                            *vv = val.clone();
                        }
                    }
                }
                if let Some(x) = derived {
                    ds.retain(|d| d.0 != "ref");
                    ds.push(("ref".into(), x.clone()));
                }
            }
        }
    }
}

impl Check for C07 {
    const ID: &'static str = "C07";
    const QUICK: u64 = 40000;
    const THOROUGH: u64 = 700_000;
    const RULE: &'static str = "one run = 1-4 sessions over one simulated disk: load (after 0-2 failed attempts, through a faulty reader), concurrent editors changing fields, replacing or deleting instructions through one splicer in schedule order, save by write-sync-rename with short writes and transient disk errors, crash after an arbitrary disk operation, restart, reload; after every load every reported value and position is compared with an independent model; non-trivial if an edit was applied and a fault or crash fired; distinct = different event-trace hash";
    type Sc = Sc07;
    fn gen(r: &mut Rng, _i: u64, _t: bool) -> Sc07 {
        let n = r.range(1, 9);
        let (doc, st) = {
            let mut g = Gen::new(r);
            let d = g.doc(n);
            (d, g.st.clone())
        };
        let mut doc = doc;
        if r.one_in(100) {
            doc.tall(r);
        }
        let mut cur = doc.clone();
        let mut sessions = vec![];
        let mut most = 1;
        for _ in 0..r.range(1, 4) {
            let text = cur.text();
            let nt = *r.pick(&[1, 1, 2, 2, 3, 4]);
            most = most.max(nt);
            let mut tasks: Vec<EditorOps> = (0..nt).map(|_| EditorOps { ops: vec![] }).collect();
            let mut seen: Vec<(usize, String)> = vec![];
            for _ in 0..r.range(0, 10) {
                if cur.items.is_empty() {
                    break;
                }
                let i = r.below(cur.items.len());
                let it = cur.items[i].clone();
                if it.times > 1 {
                    continue;
                }
                if let Some(ch) = gen_change(r, &it, &st) {
                    let key = match &ch {
                        Change::Field { path, .. } => path.clone(),
                        _ => "*".to_string(),
                    };
                    let clash = seen.iter().any(|(id, k)| *id == it.id && (key == "*" || k == "*" || *k == key));
                    if clash {
                        continue;
                    }
                    seen.push((it.id, key));
                    apply_change(&mut cur.items[i], &ch);
                    let t = r.below(nt);
                    tasks[t].ops.push(ModelEdit { id: it.id, change: ch });
                }
            }
            let mut attempts = vec![];
            if r.pct(30) {
                for _ in 0..r.range(1, 2) {
                    let mut s = gen_benign(r, text.as_bytes());
                    let at = gen_offset(r, text.as_bytes());
                    s.faults.push((at, Fault::Fail { err: ErrSpec::gen(r) }));
                    attempts.push(s);
                }
            }
            let stream = if r.pct(50) { gen_benign(r, text.as_bytes()) } else { Stream::default() };
            sessions.push(Session {
                attempts,
                stream,
                tasks,
                crash_after: if r.pct(45) { r.below(12) } else { 1_000_000 },
                write_chunks: gen_chunks(r, text.len().max(2_000)).into_iter().map(|c| c.max(16)).collect(),
                disk_errors: if r.pct(20) { r.range(1, 3) } else { 0 },
            });
        }
        Sc07 { doc, sessions, plan: rt::gen_plan(r, most) }
    }
    fn plan(sc: &Sc07) -> &Plan {
        &sc.plan
    }
    fn run(sc: Sc07) -> (bool, String) {
        // what the disk durably holds, as a model and as bytes
        let mut model = sc.doc.clone();
        let mut disk = Disk { crash_after: usize::MAX, ..Default::default() };
        disk.durable.insert("Dockerfile".into(), model.text().into_bytes());
        let mut edits = 0usize;
        let mut crashes = 0usize;
        let load_checked = |disk: &Disk, model: &Doc, s: Option<&Session>, when: &'static str| -> Rc<Dockerfile> {
            let data = Rc::new(disk.durable.get("Dockerfile").cloned().unwrap_or_default());
            let want = model.render();
            let s = s.cloned();
            let slot: Rc<RefCell<Option<Rc<Dockerfile>>>> = Rc::new(RefCell::new(None));
            let slot2 = slot.clone();
            one_task(move || {
                if let Some(s) = &s {
                    for a in &s.attempts {
                        let (r, failed) = load(&data, a);
                        count_outcome(&r);
                        if !failed.is_empty() && !matches!(r, Err(Error::ReadError { .. })) {
                            rt::violation("failure-swallowed", &format!("a load whose reader failed returned {}", clip(&canon(&r))));
                        }
                    }
                }
                let st = s.map(|s| s.stream).unwrap_or_default();
                let (r, _) = load(&data, &st);
                count_outcome(&r);
                match r {
                    Err(e) => rt::violation(
                        "reload-failed",
                        &format!("{}: the file the clients wrote no longer loads: {}", when, clip(&err_text(&e))),
                    ),
                    Ok(d) => {
                        check_content(&d, want.text.as_bytes());
                        let got = nodes(&d);
                        if let Some(x) = diff(&want.nodes, &got) {
                            rt::violation("model-differs", &format!("{}: {}", when, x));
                        }
                        outcome_event("load", &canon(&Ok(d.clone())));
                        *slot2.borrow_mut() = Some(Rc::new(d));
                    }
                }
            });
            let d = slot.borrow_mut().take();
            d.unwrap_or_else(|| rt::harness_error("no document"))
        };
        for (si, s) in sc.sessions.iter().enumerate() {
            let doc = load_checked(&disk, &model, Some(s), "loading the saved file");
            // ---- concurrent editing; spans come from what the library reported
            let reported = Rc::new(RefCell::new(vec![]));
            {
                let (doc, reported) = (doc.clone(), reported.clone());
                one_task(move || *reported.borrow_mut() = nodes(&doc));
            }
            let rendered = model.render();
            let splicer = Rc::new(RefCell::new(doc.splicer()));
            let new_model = Rc::new(RefCell::new(model.clone()));
            let touched: Rc<RefCell<Vec<(usize, usize)>>> = Rc::new(RefCell::new(vec![]));
            let count = Rc::new(RefCell::new(0usize));
            let owner = Rc::new(rendered.owner.clone());
            let mut tasks: Vec<TaskFn> = vec![];
            for t in s.tasks.iter().filter(|t| !t.ops.is_empty()).cloned() {
                let (reported, splicer, new_model, touched, count, owner) =
                    (reported.clone(), splicer.clone(), new_model.clone(), touched.clone(), count.clone(), owner.clone());
                tasks.push(Box::new(move || {
                    for e in &t.ops {
                        let Some(k) = owner.iter().position(|o| *o == e.id) else { continue };
                        let pre = format!("{:06}.", k);
                        let span = {
                            let rep = reported.borrow();
                            let hit = rep.iter().find(|n| {
                                n.s != NOPOS
                                    && n.path.starts_with(&pre)
                                    && match &e.change {
                                        Change::Field { path, .. } => {
                                            n.path[7..].split_once('.').map(|x| x.1) == Some(path.as_str())
                                        }
                                        _ => !n.path[7..].contains('.'),
                                    }
                            });
                            match hit {
                                Some(n) if n.s < n.e => (n.s, n.e),
                                _ => continue,
                            }
                        };
                        rt::lock(0);
                        let free = touched.borrow().iter().all(|t| disjoint(*t, span));
                        let text = {
                            let mut m = new_model.borrow_mut();
                            match m.items.iter_mut().find(|i| i.id == e.id) {
                                Some(it) if free && fits(it, &e.change) => {
                                    apply_change(it, &e.change);
                                    Some(match &e.change {
                                        Change::Field { raw, .. } => raw.clone(),
                                        Change::Delete {} => String::new(),
                                        Change::Replace { body } => {
                                            Doc { items: vec![Item { id: 0, indent: String::new(), body: body.clone(), trail: String::new(), eol: String::new(), times: 1 }] }.text()
                                        }
                                    })
                                }
                                _ => None,
                            }
                        };
                        if let Some(text) = text {
                            touched.borrow_mut().push(span);
                            apply_splice(&splicer, span, &text);
                            *count.borrow_mut() += 1;
                            let got = splicer.borrow().content.clone();
                            rt::event(hash_bytes(5, got.as_bytes()), || format!("splice {:?} {:?}", span, clip(&text)));
                            let want = new_model.borrow().text();
                            if got != want {
                                let at = got.bytes().zip(want.bytes()).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
                                rt::violation("edit-misplaced", &format!("editing {:?} at {:?} spoiled the text at byte {}", clip(&text), span, at));
                            }
                        }
                        rt::unlock(0);
                    }
                }));
            }
            if !tasks.is_empty() {
                rt::run_tasks(tasks);
            }
            edits += *count.borrow();
            // ---- save, possibly crashing
            let new = splicer.borrow().content.clone().into_bytes();
            disk.ops = 0;
            disk.crash_after = s.crash_after;
            let mut committed = false;
            'save: for attempt in 0..=s.disk_errors {
                disk.cached.remove("Dockerfile.tmp");
                let mut pos = 0;
                let mut c = 0;
                if new.is_empty() && disk.write("Dockerfile.tmp", b"") {
                    break 'save;
                }
                while pos < new.len() {
                    let n = if s.write_chunks.is_empty() { new.len() } else { s.write_chunks[c % s.write_chunks.len()].max(1) as usize };
                    c += 1;
                    let e = (pos + n).min(new.len());
                    if e < new.len() {
                        rt::stat("fault.short-write", 1);
                    }
                    if attempt < s.disk_errors && e == new.len() {
                        rt::stat("fault.disk-error", 1);
                        continue 'save;
                    }
                    if disk.write("Dockerfile.tmp", &new[pos..e]) {
                        break 'save;
                    }
                    pos = e;
                }
                if disk.sync("Dockerfile.tmp") {
                    break 'save;
                }
                if disk.rename("Dockerfile.tmp", "Dockerfile") {
                    break 'save;
                }
                committed = true;
                break;
            }
            if disk.ops > disk.crash_after {
                crashes += 1;
                rt::stat("fault.crash-during-save", 1);
                rt::event(0x77, || format!("session {}: crash after {} disk operations", si, s.crash_after));
            }
            disk.restart();
            if committed {
                model = new_model.borrow().clone();
                rt::stat("probe.save-committed", 1);
            }
            rt::event(committed as u64, || format!("session {}: committed={}", si, committed));
        }
        // faults have stopped: the file loads and is exactly what was last committed
        load_checked(&disk, &model, None, "final reload");
        let faults = crashes as u64
            + rt::stat_value("fault.short-read")
            + rt::stat_value("fault.interrupt")
            + rt::stat_value("fault.stall")
            + rt::stat_value("fault.short-write")
            + rt::stat_value("fault.disk-error")
            + rt::stat_value("fault.read-error.os")
            + rt::stat_value("fault.read-error.simple")
            + rt::stat_value("fault.read-error.custom");
        (edits > 0 && faults > 0, format!("{} sessions, {} edits, {} crashes, {} faults, {} items", sc.sessions.len(), edits, crashes, faults, sc.doc.items.len()))
    }
}

// =====================================================================  C08 / C09

#[derive(Serialize, Deserialize, Clone)]
pub enum Call {
    /// parse document k
    Parse { k: usize },
    /// load document k (+ damage) through a stream
    Load { k: usize, damage: Vec<Damage>, stream: Stream },
    /// load from a reader that panics; the caller catches it
    LoadPanic { k: usize, at: usize },
    /// questions about the shared, already parsed document k
    Query { k: usize },
    /// edit a private splicer of the shared document k
    Splice { k: usize, ops: Vec<Edit> },
    /// the stand-alone functions
    Image { s: String },
    Substitute { s: String, vars: Vec<(String, String)>, depth: u8 },
    /// parse document k that many times
    Many { k: usize, n: usize },
    /// parse n different small variants of document k
    Variants { k: usize, n: usize },
}

#[derive(Serialize, Deserialize, Clone)]
pub struct CallList {
    pub calls: Vec<Call>,
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Sc08 {
    pub docs: Vec<Doc>,
    pub tasks: Vec<CallList>,
    pub plan: Plan,
    /// hash seed and clock of the processes the calls are repeated in, alone
    pub ref_plan: Plan,
}

type Shared = Rc<Vec<(String, Option<Rc<Dockerfile>>)>>;

fn exec_call(c: &Call, docs: &Shared) -> String {
    match c {
        Call::Parse { k } => {
            let Some(d) = docs.get(*k) else { return String::new() };
            canon(&parse(&d.0))
        }
        Call::Load { k, damage, stream } => {
            let Some(d) = docs.get(*k) else { return String::new() };
            let data = Rc::new(apply_damage(d.0.clone().into_bytes(), damage));
            let (r, _) = load(&data, stream);
            count_outcome(&r);
            canon(&r)
        }
        Call::LoadPanic { k, at } => {
            let Some(d) = docs.get(*k) else { return String::new() };
            let data = Rc::new(d.0.clone().into_bytes());
            let s = Stream { chunks: vec![], faults: vec![(*at, Fault::Panic {})], latency: 0, own: 0 };
            let mut rd = SimReader::new(data.clone(), &s);
            let released = std::cell::Cell::new(false);
            let r = rt::lib(budget(data.len()), || dst_calls::load(dst_calls::Handed { reader: &mut rd, released: &released }));
            check_released(released.get());
            match r {
                Err(Stop::Injected) => "reader panicked".into(),
                Err(Stop::Panicked(m)) => rt::violation("panic", &format!("loading panicked: {}", m)),
                Ok(r) => canon(&r),
            }
        }
        Call::Query { k } => {
            let Some((_, Some(d))) = docs.get(*k) else { return String::new() };
            let mut s = String::new();
            nodes(d).iter().for_each(|n| push_node(&mut s, n));
            s.push_str(&queries(d));
            if let Some(i) = d.instructions.last() {
                let sp = i.span();
                let (l, r) = rt::must("relative_span", || sp.relative_span(d));
                s.push_str(&format!("line {} {}..{}", l, r.start, r.end));
            }
            let dbg = rt::must("Debug", || format!("{:?}", d));
            let eq = rt::must("clone", || (**d).clone() == **d);
            s.push_str(&format!("debug {:016x} {}", hash_bytes(5, dbg.as_bytes()), eq));
            s
        }
        Call::Splice { k, ops } => {
            let Some((_, Some(d))) = docs.get(*k) else { return String::new() };
            let spans = eligible(d, &[], false);
            if spans.is_empty() {
                return String::new();
            }
            let sp = Rc::new(RefCell::new(rt::must("splicer", || d.splicer())));
            let mut touched: Vec<(usize, usize)> = vec![];
            for e in ops {
                let s = spans[(e.pick % spans.len() as u64) as usize];
                if touched.iter().all(|t| disjoint(*t, s)) {
                    touched.push(s);
                    apply_splice(&sp, s, &e.replacement(&d.content[s.0..s.1]));
                }
            }
            let s = sp.borrow().content.clone();
            s
        }
        Call::Image { s } => {
            let i = rt::must("ImageRef::parse", || dockerfile_parser::ImageRef::parse(s));
            format!("{} / {}", image_ref(&i), rt::must("Display", || i.to_string()))
        }
        Call::Substitute { s, vars, depth } => {
            let r = rt::must("substitute", || {
                let map: std::collections::HashMap<&str, &str> =
                    vars.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
                let mut used = std::collections::HashSet::new();
                let r = dockerfile_parser::substitute(s, &map, &mut used, *depth);
                let mut u: Vec<String> = used.into_iter().collect();
                u.sort();
                (r, u)
            });
            format!("{:?}", r)
        }
        Call::Many { k, n } => {
            let Some(d) = docs.get(*k) else { return String::new() };
            for _ in 0..*n {
                let _ = parse(&d.0);
            }
            "ok".into()
        }
        Call::Variants { k, n } => {
            let Some(d) = docs.get(*k) else { return String::new() };
            for i in 0..*n {
                let t = format!("{}# {}\nARG v{}={}\n", if d.0.ends_with('\n') { d.0.clone() } else { format!("{}\n", d.0) }, i, i, i);
                let r = parse(&t);
                if let Ok(x) = &r {
                    rt::must("stages", || x.stages().stages.len());
                }
            }
            "ok".into()
        }
    }
}

fn comparable(c: &Call) -> bool {
    !matches!(c, Call::Many { .. } | Call::Variants { .. })
}

/// Names that one scenario's calls share, so that the same thing is asked
/// about in several spellings, from several threads and in several orders.
struct Family {
    names: Vec<String>,
    regs: Vec<String>,
    vars: Vec<String>,
    tails: Vec<String>,
}

impl Family {
    fn gen(r: &mut Rng) -> Family {
        let base = *r.pick(&["app", "alpine", "a", "node", "x1", "\u{e9}t\u{e9}"]);
        let mut names = vec![base.to_string()];
        for _ in 0..r.range(0, 3) {
            let b = r.pick(&names).clone();
            names.push(match r.below(7) {
                0 => b.to_uppercase(),
                1 => format!("{}{}", b, r.below(3)),
                2 => format!("{}/{}", b, base),
                3 => format!("lib/{}", b),
                4 => format!("library/{}", b),
                5 => format!("{}-{}", b, base),
                _ => b.chars().take(1).collect(),
            });
        }
        let mut regs = vec![];
        for i in 0..r.range(1, 4) {
            regs.push(match r.below(6) {
                0 => "localhost".to_string(),
                1 => format!("{}.io", base),
                2 => format!("r{}.example.com", i),
                3 => format!("{}:{}", base, 5000 + i),
                4 => base.to_string(),
                _ => "docker.io".to_string(),
            });
        }
        // first components alike in length and ends, only one of them a registry
        if r.pct(35) {
            let plain = if r.pct(20) { "localtest".to_string() } else { names[0].replace('/', "-") };
            let at: Vec<usize> = plain.char_indices().map(|c| c.0).skip(1).collect();
            if at.len() > 1 && plain.is_ascii() {
                let at = at[r.below(at.len() - 1)];
                let mut host = plain.clone();
                host.replace_range(at..at + 1, if r.pct(80) { "." } else { ":" });
                regs.push(if plain == "localtest" && r.pct(60) { "localhost".into() } else { host });
                regs.push(plain);
            }
        }
        let vars = (0..r.range(1, 4)).map(|i| r.pick(&["V", "v", "TAG", "app", "A_1", "X"]).to_string() + if i == 3 { "2" } else { "" }).collect::<Vec<String>>();
        let known = r.pct(40);
        let vars = vars.into_iter().map(|v| if known && r.pct(70) {
            let n = 1 + r.below(rt::NAMES.len());
            rt::NAMES[r.below(n)].to_string()
        } else { v }).collect();
        let tails = (0..r.range(1, 4))
            .map(|i| match r.below(6) {
                0 => ":latest".to_string(),
                1 => format!(":{}", i),
                2 => format!(":{}", base),
                3 => format!("@sha256:{:064x}", i),
                4 => format!("@sha256:{:064X}", 0xabcdu64 + i as u64),
                _ => format!(":1.{}-{}", i, base),
            })
            .collect();
        Family { names, regs, vars, tails }
    }

    fn image(&self, r: &mut Rng) -> String {
        let mut s = String::new();
        if r.pct(45) {
            s.push_str(r.pick(&self.regs));
            s.push('/');
        }
        if r.pct(12) {
            s.push_str(&format!("${}", r.pick(&self.vars)));
        } else {
            s.push_str(r.pick(&self.names));
        }
        if r.pct(50) {
            s.push_str(r.pick(&self.tails));
        }
        if r.pct(15) {
            s.push_str(&format!("{}${{{}}}", r.pick(&["", ":", "-"]), r.pick(&self.vars)));
        }
        s
    }

    fn value(&self, r: &mut Rng) -> String {
        match r.below(7) {
            0 => self.image(r),
            1 => r.pick(&self.names).clone(),
            2 => format!("${}", r.pick(&self.vars)),
            3 => format!("${{{}}}x", r.pick(&self.vars)),
            4 => String::new(),
            5 => r.pick(&self.tails).clone(),
            _ => format!("{}-${}", r.below(3), r.pick(&self.vars)),
        }
    }

    /// a short document about these names
    fn doc(&self, r: &mut Rng) -> Doc {
        let mut items = vec![];
        let mut line = |t: String| {
            items.push(Item {
                id: items.len(),
                indent: String::new(),
                body: Body::Ins { pieces: vec![Piece::L(t)], kind: String::new(), derived: vec![] },
                trail: String::new(),
                eol: "\n".into(),
                times: 1,
            });
        };
        for _ in 0..r.range(0, 2) {
            let (a, v) = (r.pick(&self.vars).clone(), self.value(r));
            line(if r.pct(70) { format!("ARG {}={}", a, v) } else { format!("ARG {}", a) });
        }
        for _ in 0..r.range(1, 4) {
            let i = self.image(r);
            line(if r.pct(60) { format!("FROM {} AS {}", i, r.pick(&self.names).replace('/', "_").replace('\u{e9}', "e")) } else { format!("FROM {}", i) });
            for _ in 0..r.range(0, 3) {
                let n = r.pick(&self.names).clone();
                let v = r.pick(&self.vars).clone();
                let x = self.value(r);
                line(match r.below(9) {
                    0 => format!("RUN {} {}", n, x),
                    1 => format!("RUN [\"{}\", \"{}\"]", n, x),
                    2 => format!("CMD {}", n),
                    3 => format!("ENTRYPOINT [\"{}\"]", n),
                    4 => format!("ENV {}=\"{}\"", v, x),
                    5 => format!("ENV {} {}{}", v, n, x),
                    6 => format!("LABEL {}='{}' {}={}", v, x, v, n),
                    7 => format!("COPY --from={} {} {}", n, n, v),
                    _ => format!("EXPOSE {} {}", n, r.below(3)),
                });
            }
        }
        Doc { items }
    }
}

fn gen_docs(r: &mut Rng, fam: &Family) -> Vec<Doc> {
    let n = r.range(1, 4);
    let mut docs: Vec<Doc> = vec![];
    for _ in 0..n {
        if r.pct(30) {
            docs.push(fam.doc(r));
        } else if !docs.is_empty() && r.pct(50) {
            let b = r.pick(&docs).clone();
            docs.push(sibling(r, &b));
        } else {
            docs.push(if r.pct(80) { Doc::small(r) } else { Doc::any(r) });
        }
    }
    docs
}

fn gen_call(r: &mut Rng, docs: &[Doc], fam: &Family, faults: bool) -> Call {
    let k = r.below(docs.len());
    let len = docs[k].text().len();
    match r.below(if faults { 12 } else { 9 }) {
        0 | 1 | 2 => Call::Parse { k },
        3 | 4 => {
            let text = docs[k].text();
            let mut stream = gen_benign(r, text.as_bytes());
            let mut damage = vec![];
            if r.pct(35) {
                damage.push(gen_damage(r, len, false));
            }
            if r.pct(20) {
                let at = gen_offset(r, text.as_bytes());
                stream.faults.push((at, Fault::Fail { err: ErrSpec::gen(r) }));
            }
            Call::Load { k, damage, stream }
        }
        5 => Call::Query { k },
        6 => {
            let n = r.range(1, 5);
            Call::Splice { k, ops: gen_edits(r, n, 0, 1) }
        }
        7 => Call::Image {
            s: if r.pct(80) {
                fam.image(r)
            } else {
                r.pick(&["alpine:3.12", "a/b/c@sha256:00", "localhost/x", "h:1/y:z", "$A/${B}:$C", "\u{e9}", "", "/", "a:b:c", "x.y/z"]).to_string()
            },
        },
        8 => {
            let mut vars = vec![];
            for nme in fam.vars.iter() {
                if r.pct(60) {
                    vars.push((nme.clone(), fam.value(r)));
                }
            }
            let mut s = String::new();
            for _ in 0..r.range(0, 3) {
                s.push_str(&fam.value(r));
            }
            Call::Substitute { s, vars, depth: *r.pick(&[0, 1, 2, 3, 8, 16]) }
        }
        9 => Call::LoadPanic { k, at: r.below(len + 1) },
        10 => Call::Many { k, n: if r.pct(4) { 1 << r.range(6, 9) } else { 1 << r.below(6) } },
        _ => Call::Variants { k, n: 1 << r.below(7) },
    }
}

/// `alone`: every comparable call repeated as the only call of a new process
fn references(tasks: &[CallList], docs: &[Doc], plan: &Plan) -> Vec<Vec<Option<String>>> {
    let mut cache: std::collections::BTreeMap<String, String> = Default::default();
    let mut out = vec![];
    for t in tasks {
        let mut row = vec![];
        for c in &t.calls {
            if !comparable(c) {
                row.push(None);
                continue;
            }
            let key = serde_json::to_string(c).unwrap();
            if !cache.contains_key(&key) {
                let texts: Vec<String> = docs.iter().map(|d| d.text()).collect();
                let c2 = c.clone();
                let bytes = rt::fresh(plan, move || {
                    // only the document a call needs has been parsed in this process
                    let need = match &c2 {
                        Call::Query { k } | Call::Splice { k, .. } => Some(*k),
                        _ => None,
                    };
                    let sh: Shared = Rc::new(
                        texts
                            .iter()
                            .enumerate()
                            .map(|(i, t)| (t.clone(), if need == Some(i) { parse(t).ok().map(Rc::new) } else { None }))
                            .collect(),
                    );
                    exec_call(&c2, &sh).into_bytes()
                });
                cache.insert(key.clone(), String::from_utf8(bytes).unwrap_or_default());
            }
            row.push(cache.get(&key).cloned());
        }
        out.push(row);
    }
    out
}

fn run_calls(sc: Sc08, preparsed: bool) -> (usize, usize) {
    let refs = references(&sc.tasks, &sc.docs, &sc.ref_plan);
    let texts: Vec<String> = sc.docs.iter().map(|d| d.text()).collect();
    let need: Vec<bool> = (0..texts.len())
        .map(|i| {
            preparsed
                && sc.tasks.iter().any(|t| {
                    t.calls.iter().any(|c| matches!(c, Call::Query { k } | Call::Splice { k, .. } if *k == i))
                })
        })
        .collect();
    let slot: Rc<RefCell<Option<Shared>>> = Rc::new(RefCell::new(None));
    {
        let slot = slot.clone();
        one_task(move || {
            let v = texts
                .iter()
                .zip(need)
                .map(|(t, n)| (t.clone(), if n { parse(t).ok().map(Rc::new) } else { None }))
                .collect();
            *slot.borrow_mut() = Some(Rc::new(v));
        });
    }
    let docs = slot.borrow_mut().take().unwrap_or_else(|| rt::harness_error("no docs"));
    let mut tasks: Vec<TaskFn> = vec![];
    let calls = sc.tasks.iter().map(|t| t.calls.len()).sum();
    let compared = refs.iter().map(|r| r.iter().filter(|x| x.is_some()).count()).sum();
    for (ti, (t, row)) in sc.tasks.iter().cloned().zip(refs).enumerate() {
        let docs = docs.clone();
        tasks.push(Box::new(move || {
            for (ci, (c, want)) in t.calls.iter().zip(row).enumerate() {
                let got = exec_call(c, &docs);
                let h = hash_bytes(9, got.as_bytes());
                rt::event(h, || format!("call {} {}", ci, clip(&format!("{:?}", serde_json::to_string(c)))));
                if let Some(w) = want {
                    if w != got {
                        rt::violation(
                            "call-not-isolated",
                            &format!(
                                "call {} of task {} ({}) does not answer what it answers alone in a new process: {}",
                                ci, ti, clip(&serde_json::to_string(c).unwrap()), diff_text(&w, &got)
                            ),
                        );
                    }
                }
                rt::yield_now();
            }
        }));
    }
    if !tasks.is_empty() {
        rt::run_tasks(tasks);
    }
    (calls, compared)
}

/// which of the library's types cannot be used from several threads
fn unshareable() -> Vec<&'static str> {
    use std::marker::PhantomData;
    struct Probe<T>(PhantomData<T>);
    trait Otherwise {
        const SHARED: bool = false;
    }
    impl<T> Otherwise for Probe<T> {}
    impl<T: Send + Sync> Probe<T> {
        const SHARED: bool = true;
    }
    let mut v = vec![];
    macro_rules! probe {
        ($($t:ty),*) => { $( if !Probe::<$t>::SHARED { v.push(stringify!($t)); } )* };
    }
    use dockerfile_parser as p;
    probe!(
        p::Dockerfile, p::Instruction, p::FromInstruction, p::RunInstruction, p::EnvInstruction, p::ImageRef, p::Span, p::SpannedString, p::BreakableString,
        p::ShellOrExecExpr, p::StringArray, p::Splicer, p::Stages<'static>, p::Stage<'static>, p::StageParent<'static>, p::Error
    );
    v
}

pub struct C08;

impl Check for C08 {
    const ID: &'static str = "C08";
    const QUICK: u64 = 18000;
    const THOROUGH: u64 = 400_000;
    const RULE: &'static str = "one run = 2-5 caller threads making up to 6 calls each (parse, load, query a shared document, edit, image references, substitution) on own, shared and near-identical documents, preempted at chosen control-flow edges and allocations inside the library; every answer compared with the same call alone in a new process; non-trivial if at least one preemption happened inside a library call; distinct = different event-trace hash (switch points and answers)";
    type Sc = Sc08;
    fn gen(r: &mut Rng, _i: u64, _t: bool) -> Sc08 {
        let fam = Family::gen(r);
        let docs = gen_docs(r, &fam);
        let n = *r.pick(&[2, 2, 2, 3, 3, 4, 5]);
        let same = r.pct(25);
        let mut tasks: Vec<CallList> = if r.pct(35) {
            // many short calls about the same few names
            let only = r.pct(50);
            (0..n)
                .map(|_| CallList {
                    calls: (0..r.range(2, 10))
                        .map(|_| {
                            if only || r.pct(60) {
                                Call::Image { s: fam.image(r) }
                            } else {
                                gen_call(r, &docs, &fam, false)
                            }
                        })
                        .collect(),
                })
                .collect()
        } else {
            (0..n).map(|_| CallList { calls: (0..r.range(1, 5)).map(|_| gen_call(r, &docs, &fam, false)).collect() }).collect()
        };
        if same {
            let first = tasks[0].clone();
            for t in tasks.iter_mut().skip(1) {
                if r.pct(70) {
                    *t = first.clone();
                }
            }
        }
        let mut plan = rt::gen_plan(r, n);
        if plan.gaps.is_empty() && plan.hot.is_empty() {
            let lg = r.range(4, 12);
            plan.gaps = (0..r.range(1, 30)).map(|_| (1 + r.next() % (1 << lg), r.below(8) as u32)).collect();
        }
        let ref_plan = rt::gen_plan(r, 1);
        Sc08 { docs, tasks, plan, ref_plan }
    }
    fn plan(sc: &Sc08) -> &Plan {
        &sc.plan
    }
    fn run(sc: Sc08) -> (bool, String) {
        let n = sc.tasks.len();
        let g = sc.plan.gaps.len() + sc.plan.hot.len();
        let alone = unshareable();
        if !alone.is_empty() {
            rt::violation("not-shareable", &format!("several threads cannot share: {}", alone.join(", ")));
        }
        let (calls, compared) = run_calls(sc, true);
        let p = rt::g().lib_preempts;
        (p > 0, format!("{} threads, {} calls, {} answers compared, {} of {} planned preemptions inside the library", n, calls, compared, p, g))
    }
}

pub struct C09;

impl Check for C09 {
    const ID: &'static str = "C09";
    const QUICK: u64 = 9000;
    const THOROUGH: u64 = 300_000;
    const RULE: &'static str = "one run = a history of up to 14 calls on 1-3 threads of one process (successes, syntax errors, failed reads, readers that panic, hundreds of repetitions and variants, near-identical documents) with drawn hash seeds, clock and clock jumps; every answer compared with the same call as the first and only call of a new process with other hash seeds and another clock; non-trivial if at least two compared calls ran and one call before the last failed, panicked or repeated; distinct = different event-trace hash";
    type Sc = Sc08;
    fn gen(r: &mut Rng, _i: u64, thorough: bool) -> Sc08 {
        let fam = Family::gen(r);
        let mut docs = gen_docs(r, &fam);
        let n = *r.pick(&[1, 1, 1, 2, 3]);
        let images = r.pct(20);
        let mut tasks: Vec<CallList> = (0..n)
            .map(|_| CallList {
                calls: (0..r.range(2, if n == 1 { 12 } else { 6 }))
                    .map(|_| if images && r.pct(70) { Call::Image { s: fam.image(r) } } else { gen_call(r, &docs, &fam, true) })
                    .collect(),
            })
            .collect();
        if r.pct(5) {
            let k = r.below(docs.len());
            // afterwards, a larger file than any before it
            if r.pct(60) {
                let mut big = docs[r.below(docs.len())].clone();
                let size = *r.pick(&[3_000, 10_000, 30_000, 70_000]);
                big.grow(r, size);
                docs.push(big);
                let k = docs.len() - 1;
                tasks[0].calls.push(Call::Parse { k });
            }
            let c = if r.pct(50) {
                Call::Many { k, n: r.range(200, if thorough { 70_000 } else { 1100 }) }
            } else {
                Call::Variants { k, n: r.range(200, 1100) }
            };
            tasks[0].calls.insert(0, c);
        }
        // end with something that can be compared
        let last = gen_call(r, &docs, &fam, false);
        tasks[0].calls.push(last);
        let plan = rt::gen_plan(r, n);
        let ref_plan = rt::gen_plan(r, 1);
        Sc08 { docs, tasks, plan, ref_plan }
    }
    fn plan(sc: &Sc08) -> &Plan {
        &sc.plan
    }
    fn run(sc: Sc08) -> (bool, String) {
        let rough = sc.tasks.iter().any(|t| {
            t.calls.iter().any(|c| match c {
                Call::Load { damage, stream, .. } => !damage.is_empty() || !stream.faults.is_empty(),
                Call::LoadPanic { .. } | Call::Many { .. } | Call::Variants { .. } => true,
                _ => false,
            })
        });
        let n = sc.tasks.len();
        let (calls, compared) = run_calls(sc, true);
        (rough && compared >= 2, format!("{} calls on {} threads, {} answers compared", calls, n, compared))
    }
}

// =====================================================================  C10

pub struct C10;

#[derive(Serialize, Deserialize, Clone)]
pub struct Torn {
    /// keep this many bytes (taken modulo length + 1), or, if `boundary`, whole lines
    pub cut: usize,
    pub boundary: bool,
    /// what follows the cut: stale or foreign bytes
    pub tail: Vec<Damage>,
    pub stream: Stream,
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Sc10 {
    pub doc: Doc,
    pub tasks: Vec<Torn>,
    pub plan: Plan,
}

impl Check for C10 {
    const ID: &'static str = "C10";
    const QUICK: u64 = 45000;
    const THOROUGH: u64 = 900_000;
    const RULE: &'static str = "one run = 1-4 concurrent loads of the same generated file after a crash tore it at an arbitrary byte (optionally followed by stale or foreign bytes), through faulty readers, then of the complete file; every completely written instruction is compared with an independent model; non-trivial if at least one complete instruction preceded the cut and the torn file was accepted; distinct = different event-trace hash";
    type Sc = Sc10;
    fn gen(r: &mut Rng, _i: u64, _t: bool) -> Sc10 {
        let mut doc = Doc::any(r);
        if r.one_in(200) {
            doc.tall(r);
            doc.spread();
        }
        let text = doc.text();
        let n = *r.pick(&[1, 1, 2, 3, 4]);
        let tasks = (0..n)
            .map(|_| {
                let mut tail = vec![];
                if r.pct(20) {
                    tail.push(match r.below(3) {
                        0 => Damage::Insert { at: 0, text: "\u{0}".into(), times: r.range(1, 64) },
                        1 => Damage::Insert { at: 0, text: text_of(r), times: 1 },
                        _ => Damage::Insert { at: 0, text: Doc::small(r).text(), times: 1 },
                    });
                }
                Torn { cut: gen_offset(r, text.as_bytes()), boundary: r.pct(45), tail, stream: gen_benign(r, text.as_bytes()) }
            })
            .collect();
        Sc10 { doc, tasks, plan: rt::gen_plan(r, n) }
    }
    fn plan(sc: &Sc10) -> &Plan {
        &sc.plan
    }
    fn run(sc: Sc10) -> (bool, String) {
        let full = Rc::new(sc.doc.render());
        let good = Rc::new(RefCell::new(0usize));
        let mut tasks: Vec<TaskFn> = vec![];
        for t in sc.tasks.iter().cloned() {
            let (full, doc, good) = (full.clone(), sc.doc.clone(), good.clone());
            tasks.push(Box::new(move || {
                let len = full.text.len();
                let mut cut = t.cut % (len + 1);
                if t.boundary {
                    cut = full.ends.iter().map(|e| e.1).filter(|e| *e <= cut).max().unwrap_or(0);
                }
                let mut bytes = full.text.as_bytes()[..cut].to_vec();
                let tail = apply_damage(vec![], &t.tail);
                bytes.extend_from_slice(&tail);
                rt::stat("fault.torn-file", 1);
                // items that were written completely, line ending included
                let mut m = 0;
                let mut whole = 0;
                let mut at_boundary = cut == 0;
                for (i, (_, end, n)) in full.ends.iter().enumerate() {
                    let has_eol = !doc.items.get(i).map(|x| x.eol.is_empty()).unwrap_or(true);
                    if *end <= cut && has_eol {
                        m = *n;
                        whole = i + 1;
                    }
                    if *end == cut {
                        at_boundary = true;
                    }
                }
                // "\r" completes a line by itself; "\n" may still follow it
                let data = Rc::new(bytes);
                let (r, _) = load(&data, &t.stream);
                count_outcome(&r);
                outcome_event("torn load", &canon(&r));
                match &r {
                    Ok(d) => {
                        check_content(d, &data);
                        let got = nodes(d);
                        let mut exact = None;
                        if at_boundary && tail.is_empty() {
                            let k = if cut == len { doc.items.len() } else { whole };
                            exact = Some(Doc { items: doc.items[..k].to_vec() }.render());
                        }
                        if let Some(w) = exact {
                            rt::stat("probe.cut-at-line-boundary", 1);
                            if let Some(x) = diff(&w.nodes, &got) {
                                rt::violation("prefix-differs", &format!("the file ends after item {}: {}", whole, x));
                            }
                        } else {
                            let key = format!("{:06}", m);
                            let before = |ns: &[Node]| -> Vec<Node> {
                                ns.iter().filter(|n| n.path.as_bytes()[0].is_ascii_digit() && n.path[..6] < *key).cloned().collect()
                            };
                            if d.instructions.len() < m {
                                rt::violation("instructions-lost", &format!("{} instructions were written completely, {} are reported", m, d.instructions.len()));
                            }
                            if let Some(x) = diff(&before(&full.nodes), &before(&got)) {
                                rt::violation("prefix-differs", &format!("torn at byte {} of {}: {}", cut, len, x));
                            }
                            // stages and global arguments of the intact part
                            let intact = Doc { items: doc.items[..whole].to_vec() }.render();
                            for n in intact.nodes.iter().filter(|n| n.path.starts_with("global")) {
                                if !got.contains(n) {
                                    rt::violation("prefix-differs", &format!("torn at byte {} of {}: global argument {} is gone", cut, len, show(n)));
                                }
                            }
                            for n in intact.nodes.iter().filter(|n| n.path.starts_with("stage")) {
                                let head = |v: &str| v.split("..=").next().unwrap_or("").to_string();
                                if !got.iter().any(|g| g.path == n.path && head(&g.val) == head(&n.val)) {
                                    rt::violation("prefix-differs", &format!("torn at byte {} of {}: stage {} changed", cut, len, show(n)));
                                }
                            }
                            if m > 0 {
                                rt::stat("probe.torn-inside-but-accepted", 1);
                            }
                        }
                        if m > 0 {
                            *good.borrow_mut() += 1;
                        }
                    }
                    Err(e) => {
                        if at_boundary && tail.is_empty() {
                            rt::violation("prefix-rejected", &format!("the file ends exactly after a complete line (byte {} of {}), but: {}", cut, len, clip(&err_text(e))));
                        }
                        rt::stat("probe.torn-and-rejected", 1);
                    }
                }
                // the complete file is still what it was
                let (r, _) = load(&Rc::new(full.text.clone().into_bytes()), &Stream::default());
                match &r {
                    Ok(d) => {
                        if let Some(x) = diff(&full.nodes, &nodes(d)) {
                            rt::violation("model-differs", &format!("the complete file: {}", x));
                        }
                    }
                    Err(e) => rt::violation("model-differs", &format!("the complete file is rejected: {}", clip(&err_text(e)))),
                }
            }));
        }
        if tasks.is_empty() {
            return (false, String::new());
        }
        let k = tasks.len();
        rt::run_tasks(tasks);
        let g = *good.borrow();
        (g > 0, format!("{} torn loads of a {}-byte file with {} instructions, {} accepted with complete instructions; cuts {:?}", k, full.text.len(), full.instructions, g, sc.tasks.iter().map(|t| t.cut).collect::<Vec<_>>()))
    }
}

#[allow(dead_code)]
fn unused(x: u64) -> u64 {
    mix(x)
}

// =====================================================================  C18

#[derive(Serialize, Deserialize, Clone)]
pub struct WriteOut {
    /// which of the document's values
    pub pick: u64,
    /// 0: a byte sink, 1: a fixed buffer, 2: a byte sink that panics
    pub buffer: u8,
    /// where it fails, in thousandths of the text (over 1000: not at all)
    pub at: u32,
    /// None: accepts nothing any more
    pub err: Option<ErrSpec>,
    pub stream: Stream,
}

#[derive(Serialize, Deserialize, Clone)]
pub struct WriterOps {
    pub ops: Vec<WriteOut>,
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Sc18 {
    pub doc: Doc,
    pub damage: Vec<Damage>,
    /// references a caller made up
    pub images: Vec<String>,
    pub tasks: Vec<WriterOps>,
    pub plan: Plan,
}

struct AsDebug<'a>(&'a dyn std::fmt::Debug, bool);
impl std::fmt::Display for AsDebug<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        if self.1 {
            write!(f, "{:#?}", self.0)
        } else {
            self.0.fmt(f)
        }
    }
}

fn image_text(i: &dockerfile_parser::ImageRef) -> String {
    let mut s = String::new();
    if let Some(r) = &i.registry {
        s.push_str(r);
        s.push('/');
    }
    s.push_str(&i.image);
    match (&i.tag, &i.hash) {
        (Some(t), _) => {
            s.push(':');
            s.push_str(t);
        }
        (None, Some(h)) => {
            s.push('@');
            s.push_str(h);
        }
        _ => {}
    }
    s
}

fn parent_text(p: &dockerfile_parser::StageParent) -> String {
    match p {
        dockerfile_parser::StageParent::Image(i) => image_text(i),
        dockerfile_parser::StageParent::Stage(n) => n.to_string(),
        dockerfile_parser::StageParent::Scratch => "scratch".into(),
    }
}

fn breakable_text(b: &dockerfile_parser::BreakableString) -> String {
    b.components
        .iter()
        .filter_map(|c| match c {
            dockerfile_parser::BreakableStringComponent::String(s) => Some(s.content.as_str()),
            _ => None,
        })
        .collect()
}

fn write_all_values(r: &Res, images: &[dockerfile_parser::ImageRef], ops: &WriterOps) -> u64 {
    use dockerfile_parser::{Instruction, ShellOrExecExpr};
    use std::fmt::Display;
    let st;
    let resolved: Vec<dockerfile_parser::ImageRef>;
    // what it is, the value, and what it must read like (where that is known)
    let mut vals: Vec<(&'static str, Box<dyn Display + '_>, Option<String>)> = vec![];
    macro_rules! both {
        ($n:expr, $v:expr, $t:expr) => {
            vals.push(($n, Box::new($v), $t));
            vals.push(("Debug", Box::new(AsDebug($v, false)), None));
        };
    }
    for i in images {
        both!("ImageRef", i, Some(image_text(i)));
    }
    match r {
        Err(e) => {
            both!("Error", e, None);
            vals.push(("Debug", Box::new(AsDebug(e, true)), None));
        }
        Ok(d) => {
            st = rt::must("stages", || d.stages());
            resolved = d
                .instructions
                .iter()
                .filter_map(|i| match i {
                    Instruction::From(f) => rt::must("resolve_vars", || f.image_parsed.resolve_vars(d)),
                    _ => None,
                })
                .collect();
            for i in &resolved {
                vals.push(("ImageRef", Box::new(i), Some(image_text(i))));
            }
            for s in &st.stages {
                both!("StageParent", &s.parent, Some(parent_text(&s.parent)));
                vals.push(("StageParent", Box::new(&s.root), Some(parent_text(&s.root))));
                vals.push(("Debug", Box::new(AsDebug(s, false)), None));
            }
            for i in &d.instructions {
                vals.push(("Debug", Box::new(AsDebug(i, false)), None));
                match i {
                    Instruction::From(f) => {
                        both!("ImageRef", &f.image_parsed, Some(image_text(&f.image_parsed)));
                        both!("SpannedString", &f.image, Some(f.image.content.clone()));
                    }
                    Instruction::Arg(a) => {
                        both!("SpannedString", &a.name, Some(a.name.content.clone()));
                    }
                    Instruction::Label(l) => {
                        for x in &l.labels {
                            vals.push(("SpannedString", Box::new(&x.value), Some(x.value.content.clone())));
                        }
                    }
                    Instruction::Run(dockerfile_parser::RunInstruction { expr, .. })
                    | Instruction::Cmd(dockerfile_parser::CmdInstruction { expr, .. })
                    | Instruction::Entrypoint(dockerfile_parser::EntrypointInstruction { expr, .. }) => match expr {
                        ShellOrExecExpr::Shell(b) => {
                            both!("BreakableString", b, Some(breakable_text(b)));
                        }
                        ShellOrExecExpr::Exec(v) => {
                            for x in &v.elements {
                                vals.push(("SpannedString", Box::new(x), Some(x.content.clone())));
                            }
                        }
                    },
                    Instruction::Env(e) => {
                        for x in &e.vars {
                            both!("BreakableString", &x.value, Some(breakable_text(&x.value)));
                        }
                    }
                    Instruction::Misc(m) => {
                        both!("BreakableString", &m.arguments, Some(breakable_text(&m.arguments)));
                    }
                    _ => {}
                }
            }
            vals.push(("Debug", Box::new(AsDebug(d, false)), None));
        }
    }
    let mut n = 0;
    for o in &ops.ops {
        let (name, v, known) = &vals[(o.pick % vals.len() as u64) as usize];
        let full = rt::must("Display", || v.to_string());
        if known.as_ref().is_some_and(|k| *k != full) {
            rt::violation("text-differs", &format!("{}: reads {:?} instead of {:?}", name, clip(&full), clip(known.as_ref().unwrap())));
        }
        let at = full.len() * o.at as usize / 1000;
        n += 1;
        if o.buffer == 1 {
            let mut b = SimBuffer { room: at, written: String::new(), failed: false };
            let res = rt::must("Display", || std::fmt::write(&mut b, format_args!("{}", v)));
            rt::event(hash_bytes(8, b.written.as_bytes()), || format!("{} into a buffer of {}: {:?}", name, at, res));
            if !full.starts_with(&b.written) {
                rt::violation("written-differs", &format!("{}: wrote {:?}, which is not how {:?} starts", name, clip(&b.written), clip(&full)));
            }
            if b.failed != res.is_err() {
                rt::violation("write-failure-hidden", &format!("{}: {} of {} bytes written into a full buffer, but the result is {:?}", name, b.written.len(), full.len(), res));
            }
            if res.is_ok() && b.written != full {
                rt::violation("written-differs", &format!("{}: reported success after {} of {} bytes", name, b.written.len(), full.len()));
            }
            continue;
        }
        let mut s = o.stream.clone();
        let fails = at < full.len();
        s.faults.iter_mut().for_each(|f| f.0 = f.0 % (full.len() + 1));
        if o.at <= 1000 {
            s.faults.push((at, match &o.err {
                _ if o.buffer > 1 => Fault::Panic {},
                Some(e) => Fault::Fail { err: e.clone() },
                None => Fault::Full {},
            }));
        }
        let mut sink = SimSink::new(&s);
        let res = rt::lib(4_000_000_000, || {
            use std::io::Write;
            write!(sink, "{}", v)
        });
        let res = match res {
            Ok(r) => Some(r),
            Err(Stop::Injected) => None,
            Err(Stop::Panicked(m)) => rt::violation("panic", &format!("writing {} panicked: {}", name, m)),
        };
        check_nested("a sink", &sink.nested);
        rt::event(hash_bytes(8, &sink.written), || format!("{} into a sink failing at {}: {:?}", name, at, res));
        let want = if fails && o.at <= 1000 { &full.as_bytes()[..at] } else { full.as_bytes() };
        if sink.written != want {
            rt::violation(
                "written-differs",
                &format!("{}: {} bytes reached the sink instead of {}: {:?} instead of {:?}", name, sink.written.len(), want.len(), clip(&String::from_utf8_lossy(&sink.written)), clip(&String::from_utf8_lossy(want))),
            );
        }
        // when the trouble is over, the value is as it was
        let again = rt::must("Display", || v.to_string());
        if again != full {
            rt::violation("written-differs", &format!("{}: {:?} before a failed write and {:?} after it", name, clip(&full), clip(&again)));
        }
        let Some(res) = res else { continue };
        match (&sink.failed, &res) {
            (None, Ok(())) => {}
            (None, Err(e)) => rt::violation("write-failure-invented", &format!("{}: nothing failed, but the result is {:?}", name, e)),
            (Some(_), Ok(())) => rt::violation("write-failure-hidden", &format!("{}: the sink failed after {} of {} bytes and writing reported success", name, want.len(), full.len())),
            (Some(Some(spec)), Err(e)) => {
                if let Some(m) = spec.mismatch(e) {
                    rt::violation("write-failure-replaced", &format!("{}: {}", name, m));
                }
            }
            (Some(None), Err(e)) => {
                if e.kind() != std::io::ErrorKind::WriteZero {
                    rt::violation("write-failure-replaced", &format!("{}: {:?} although the sink was full", name, e));
                }
            }
        }
    }
    n
}

/// a value longer than any buffer, with characters across every boundary
fn long_text(r: &mut Rng) -> String {
    let n = *r.pick(&[128usize, 256, 512, 1024, 2048, 4096, 4096, 8192, 8192, 16384]) * *r.pick(&[1, 1, 1, 2, 3]);
    // where the other characters begin
    let at = if r.pct(35) { r.below(4) } else { r.below(n + 8) };
    let mut s = "x".repeat(at);
    let c = *r.pick(&["\u{e9}", "\u{65e5}", "\u{1f680}", "y", "\u{e9} z"]);
    while s.len() < n + 8 {
        s.push_str(c);
    }
    s
}

fn long_item(r: &mut Rng) -> Item {
    let t = long_text(r);
    let t = match r.below(7) {
        0 | 1 => format!("RUN {}", t),
        2 => format!("RUN a \\\n{} \\\n b", t),
        3 => format!("WORKDIR /{}", t),
        4 => format!("LABEL a=\"{}\"", t),
        5 => format!("ENV a {}", t),
        _ => format!("CMD [\"{}\"]", t),
    };
    Item {
        id: 900_001,
        indent: String::new(),
        body: Body::Ins { kind: "Long".into(), pieces: vec![Piece::L(t)], derived: vec![] },
        trail: String::new(),
        eol: "\n".into(),
        times: 1,
    }
}

pub struct C18;

impl Check for C18 {
    const ID: &'static str = "C18";
    const QUICK: u64 = 40000;
    const THOROUGH: u64 = 600_000;
    const RULE: &'static str = "one run = 1-3 threads writing up to 12 values each (image references, command texts, strings, stage parents, errors, whole documents) of a document, or of the error for a damaged one, to sinks that write short, interrupt, stall, fail or fill up at chosen bytes; non-trivial if a sink failed or filled up; distinct = different event-trace hash";
    type Sc = Sc18;
    fn gen(r: &mut Rng, _i: u64, _t: bool) -> Sc18 {
        let mut doc = if r.pct(70) { Doc::small(r) } else { Doc::any(r) };
        if r.pct(25) {
            let it = odd_item(r);
            insert_item(r, &mut doc, it);
        }
        if r.pct(8) {
            let it = long_item(r);
            insert_item(r, &mut doc, it);
        }
        let len = doc.text().len();
        let damage = if r.pct(25) { vec![gen_damage(r, len, false)] } else { vec![] };
        let fam = Family::gen(r);
        let images = (0..r.range(0, 3)).map(|_| match r.below(20) {
            0..=13 => fam.image(r),
            14 => format!("{}{}", fam.image(r), long_text(r)),
            _ => odd_image(r),
        }).collect();
        let n = *r.pick(&[1, 1, 2, 3]);
        let tasks = (0..n)
            .map(|_| WriterOps {
                ops: (0..r.range(1, 12))
                    .map(|_| {
                        let mut stream = Stream { chunks: gen_chunks(r, 100), faults: vec![], latency: 0, own: 0 };
                        if r.pct(30) {
                            stream.faults.push((r.below(64), Fault::Interrupt { n: *r.pick(&[1, 1, 2, 5]) }));
                        }
                        if r.pct(10) {
                            stream.faults.push((r.below(64), Fault::Stall { ns: r.next() % 3_600_000_000_000 }));
                        }
                        if r.pct(8) {
                            stream.faults.push((r.below(64), Fault::Call { what: r.below(4000) as u32 }));
                        }
                        WriteOut {
                            pick: r.next() % 1_000_000,
                            buffer: *r.pick(&[0, 0, 0, 0, 0, 0, 1, 1, 1, 2]),
                            at: if r.pct(80) { r.below(1000) as u32 } else { 1000 + r.below(100) as u32 },
                            err: if r.pct(75) { Some(ErrSpec::gen(r)) } else { None },
                            stream,
                        }
                    })
                    .collect(),
            })
            .collect();
        Sc18 { doc, damage, images, tasks, plan: rt::gen_plan(r, n) }
    }
    fn plan(sc: &Sc18) -> &Plan {
        &sc.plan
    }
    fn run(sc: Sc18) -> (bool, String) {
        let data = apply_damage(sc.doc.text().into_bytes(), &sc.damage);
        let slot = Rc::new(RefCell::new(None));
        {
            let (slot, images) = (slot.clone(), sc.images.clone());
            one_task(move || {
                let s = Stream::default();
                let (r, _) = load(&Rc::new(data), &s);
                count_outcome(&r);
                let im: Vec<_> = images.iter().map(|s| rt::must("ImageRef::parse", || dockerfile_parser::ImageRef::parse(s))).collect();
                *slot.borrow_mut() = Some(Rc::new((r, im)));
            });
        }
        let both = slot.borrow_mut().take().unwrap_or_else(|| rt::harness_error("nothing loaded"));
        let total = Rc::new(RefCell::new(0u64));
        let mut tasks: Vec<TaskFn> = vec![];
        for t in sc.tasks.iter().cloned() {
            let (both, total) = (both.clone(), total.clone());
            tasks.push(Box::new(move || {
                if both.0.is_ok() && both.0.as_ref().unwrap().instructions.is_empty() && both.1.is_empty() {
                    return;
                }
                let n = write_all_values(&both.0, &both.1, &t);
                *total.borrow_mut() += n;
            }));
        }
        if tasks.is_empty() {
            return (false, String::new());
        }
        let k = tasks.len();
        rt::run_tasks(tasks);
        let failed = rt::stat_value("fault.sink-full")
            + rt::stat_value("fault.buffer-full")
            + ["os", "simple", "custom"].iter().map(|s| rt::stat_value(&format!("fault.write-error.{}", s))).sum::<u64>();
        let n = *total.borrow();
        (failed > 0, format!("{} values written by {} threads, {} writes failed", n, k, failed))
    }
}

// =====================================================================  C19

#[derive(Serialize, Deserialize, Clone)]
pub struct Sc19 {
    pub docs: Vec<Doc>,
    pub tasks: Vec<CallList>,
    /// how often each task repeats its calls within one round
    pub inner: usize,
    pub rounds: usize,
    /// no two rounds use the same inputs
    pub fresh: bool,
    /// the same threads in every round, or new ones
    pub same_threads: bool,
    pub plan: Plan,
}

/// the same call about something nobody has mentioned before
fn variant(c: &Call, i: usize) -> Call {
    match c {
        Call::Image { s } => Call::Image { s: format!("n{:06}{}", i, s) },
        Call::Substitute { s, vars, depth } => {
            let mut vars = vars.clone();
            vars.push((format!("N{:06}", i), format!("v{:06}", i)));
            Call::Substitute { s: format!("{}$N{:06}-{:06}", s, i, i), vars, depth: *depth }
        }
        Call::Splice { k, ops } => {
            let mut ops = ops.clone();
            ops.iter_mut().for_each(|o| o.text = format!("{}{:06}", o.text, i));
            Call::Splice { k: *k, ops }
        }
        c => c.clone(),
    }
}

fn variant_text(t: &str, i: usize) -> String {
    let nl = if t.is_empty() || t.ends_with('\n') { "" } else { "\n" };
    format!(
        "ARG A{:06}=v{:06}\n{}{}FROM r{:06}.io/n{:06}:t{:06} AS s{:06}\nLABEL l{:06}=\"x\\n{:06}\"\nENV E{:06} w{:06}\nRUN c{:06} \\\n d{:06}\nM{} a{:06}\n",
        i, i, t, nl, i, i, i, i, i, i, i, i, i, i,
        (0..6).map(|k| (b'A' + ((i >> (2 * k)) & 3) as u8) as char).collect::<String>(), i
    )
}

pub struct C19;

impl Check for C19 {
    const ID: &'static str = "C19";
    const QUICK: u64 = 4000;
    const THOROUGH: u64 = 60_000;
    const RULE: &'static str = "one run = the same round of calls (parse, load, failed and panicking reads, query, edit, image references, substitution) on 1-3 preempted threads, 24-150 times over, with the same or with ever new inputs; the bytes the process holds are read after every round; on the same threads or new ones; non-trivial if every round made at least two calls; distinct = different event-trace hash";
    type Sc = Sc19;
    fn gen(r: &mut Rng, _i: u64, _t: bool) -> Sc19 {
        let fam = Family::gen(r);
        let mut docs = gen_docs(r, &fam);
        for d in docs.iter_mut() {
            while d.text().len() > 3000 && d.items.len() > 1 {
                let n = d.items.len();
                d.items.truncate(n / 2);
            }
        }
        let n = *r.pick(&[1, 1, 1, 2, 3]);
        let mut tasks = vec![];
        for _ in 0..n {
            let mut calls = vec![];
            for _ in 0..r.range(1, 4) {
                let c = gen_call(r, &docs, &fam, true);
                if comparable(&c) {
                    calls.push(c);
                }
            }
            tasks.push(CallList { calls });
        }
        let fresh = r.pct(50);
        Sc19 { docs, tasks, inner: *r.pick(&[1, 1, 2]), rounds: *r.pick(&[24, 24, 24, 30, 60, 150]), fresh, same_threads: r.pct(60), plan: rt::gen_plan(r, n) }
    }
    fn plan(sc: &Sc19) -> &Plan {
        &sc.plan
    }
    fn run(sc: Sc19) -> (bool, String) {
        READERS_MATTER.store(true, std::sync::atomic::Ordering::SeqCst);
        if sc.tasks.is_empty() || sc.docs.is_empty() {
            return (false, String::new());
        }
        let texts: Rc<Vec<String>> = Rc::new(sc.docs.iter().map(|d| d.text()).collect());
        let lists: Rc<Vec<CallList>> = Rc::new(sc.tasks.clone());
        let uses = lists.iter().any(|l| l.calls.iter().any(|c| matches!(c, Call::Query { .. } | Call::Splice { .. })));
        let rounds = sc.rounds.clamp(16, 4000);
        let held: Rc<RefCell<Vec<usize>>> = Rc::new(RefCell::new(Vec::with_capacity(rounds)));
        let digest = Rc::new(RefCell::new(0u64));
        let fresh = sc.fresh;
        let inner = sc.inner;
        // the documents of one round, shared by its tasks and dropped with it
        let slot: Rc<RefCell<Option<Shared>>> = Rc::new(RefCell::new(None));
        let make_docs = {
            let (texts, slot) = (texts.clone(), slot.clone());
            Rc::new(move |round: usize| {
                let v = texts
                    .iter()
                    .map(|t| {
                        let t = if fresh { variant_text(t, round) } else { t.clone() };
                        let d = if uses { parse(&t).ok().map(Rc::new) } else { None };
                        (t, d)
                    })
                    .collect();
                *slot.borrow_mut() = Some(Rc::new(v));
            })
        };
        let one_round = {
            let (lists, slot, digest) = (lists.clone(), slot.clone(), digest.clone());
            Rc::new(move |i: usize, round: usize| {
                let docs = slot.borrow().clone().unwrap_or_else(|| rt::harness_error("no docs"));
                for k in 0..inner {
                    for c in &lists[i].calls {
                        let a = if fresh { exec_call(&variant(c, round * inner + k), &docs) } else { exec_call(c, &docs) };
                        let mut d = digest.borrow_mut();
                        *d = mix(*d ^ hash_bytes(1, a.as_bytes()));
                    }
                }
            })
        };
        let n = lists.len();
        if sc.same_threads {
            {
                let make_docs = make_docs.clone();
                one_task(move || make_docs(0));
            }
            // (tasks that finished the current round, current round)
            let gate = Rc::new(RefCell::new((0usize, 0usize)));
            let mut tasks: Vec<TaskFn> = vec![];
            for i in 0..n {
                let (gate, slot, held, make_docs, one_round) = (gate.clone(), slot.clone(), held.clone(), make_docs.clone(), one_round.clone());
                tasks.push(Box::new(move || {
                    for round in 0..rounds {
                        one_round(i, round);
                        gate.borrow_mut().0 += 1;
                        if gate.borrow().0 == n {
                            *slot.borrow_mut() = None;
                            held.borrow_mut().push(rt::live());
                            make_docs(round + 1);
                            *gate.borrow_mut() = (0, round + 1);
                        } else {
                            let mut ns = 1000;
                            while gate.borrow().1 == round {
                                rt::sleep(ns);
                                ns *= 2;
                            }
                        }
                    }
                }));
            }
            rt::run_tasks(tasks);
        } else {
            for round in 0..rounds {
                let make_docs = make_docs.clone();
                one_task(move || make_docs(round));
                let mut tasks: Vec<TaskFn> = vec![];
                for i in 0..n {
                    let one_round = one_round.clone();
                    tasks.push(Box::new(move || one_round(i, round)));
                }
                rt::run_tasks(tasks);
                *slot.borrow_mut() = None;
                held.borrow_mut().push(rt::live());
            }
        }
        let held = held.borrow().clone();
        rt::event(*digest.borrow(), || format!("held {:?}", held));
        // half of the rounds to warm up; then it must have settled
        let (a, b, c) = (held[rounds / 2], held[rounds * 3 / 4], held[rounds - 1]);
        let grew = c.saturating_sub(a);
        if grew > 64 {
            rt::violation(
                "memory-kept",
                &format!(
                    "after {} rounds of the same calls{} the process holds {} bytes more than after {} rounds ({} more than after {}), although every result was dropped",
                    rounds, if sc.fresh { " with new inputs" } else { "" }, grew, rounds / 2 + 1, c as isize - b as isize, rounds * 3 / 4 + 1
                ),
            );
        }
        let per_round = lists.iter().map(|l| l.calls.len()).sum::<usize>() * sc.inner;
        (per_round >= 2, format!("{} rounds of {} calls on {} threads, {} inputs; {} bytes held at the end, {} at half time", rounds, per_round, lists.len(), if sc.fresh { "new" } else { "the same" }, c, a))
    }
}
