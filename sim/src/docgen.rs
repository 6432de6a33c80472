//! Generates Dockerfiles together with what they must parse to. A document is a
//! list of items; every item knows its text and, by construction, every field,
//! value and byte position the parser has to report for it.

use crate::rng::Rng;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Piece {
    /// plain text
    L(String),
    /// a leaf field: path, text in the file, value the parser must report
    F { p: String, raw: String, val: String },
    /// a compound field starts / ends here
    Open(String),
    Close,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Body {
    Blank,
    Comment { text: String, pad: usize },
    Ins {
        kind: String,
        pieces: Vec<Piece>,
        /// derived values without a position of their own: path, value
        derived: Vec<(String, String)>,
    },
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Item {
    pub id: usize,
    pub indent: String,
    pub body: Body,
    /// insignificant whitespace after the instruction
    pub trail: String,
    pub eol: String,
    /// how often the item is repeated
    pub times: usize,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct Doc {
    pub items: Vec<Item>,
}

/// One reported field: where it is and what it says.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Node {
    pub path: String,
    pub s: usize,
    pub e: usize,
    pub val: String,
}

/// span of nodes that have no position
pub const NOPOS: usize = usize::MAX;

#[derive(Clone, Debug, Default)]
pub struct Rendered {
    pub text: String,
    /// expected nodes, sorted by path
    pub nodes: Vec<Node>,
    /// end of each item copy: (item id, offset after its line ending, number of instructions so far)
    pub ends: Vec<(usize, usize, usize)>,
    pub instructions: usize,
    /// item id of each instruction
    pub owner: Vec<usize>,
}

fn spell(b: &Body, out: &mut String, base: &mut Vec<(String, usize, usize, String)>) {
    match b {
        Body::Blank => {}
        Body::Comment { text, pad } => {
            out.push('#');
            out.push_str(text);
            for _ in 0..*pad {
                out.push('x');
            }
        }
        Body::Ins { pieces, .. } => {
            let start = out.len();
            let mut stack: Vec<(String, usize)> = vec![];
            for p in pieces {
                match p {
                    Piece::L(s) => out.push_str(s),
                    Piece::F { p, raw, val } => {
                        let s = out.len();
                        out.push_str(raw);
                        base.push((p.clone(), s, out.len(), val.clone()));
                    }
                    Piece::Open(p) => stack.push((p.clone(), out.len())),
                    Piece::Close => {
                        let (p, s) = stack.pop().unwrap();
                        base.push((p, s, out.len(), String::new()));
                    }
                }
            }
            base.push((String::new(), start, out.len(), String::new()));
        }
    }
}

pub fn get_derived<'a>(b: &'a Body, key: &str) -> Option<&'a str> {
    if let Body::Ins { derived, .. } = b {
        derived.iter().find(|(k, _)| k == key).map(|(_, v)| v.as_str())
    } else {
        None
    }
}

fn field<'a>(b: &'a Body, path: &str) -> Option<&'a str> {
    if let Body::Ins { pieces, .. } = b {
        for p in pieces {
            if let Piece::F { p, val, .. } = p {
                if p == path {
                    return Some(val);
                }
            }
        }
    }
    None
}

impl Doc {
    pub fn text(&self) -> String {
        let mut out = String::new();
        let mut sink = vec![];
        for it in &self.items {
            for _ in 0..it.times.max(1) {
                out.push_str(&it.indent);
                spell(&it.body, &mut out, &mut sink);
                sink.clear();
                out.push_str(&it.trail);
                out.push_str(&it.eol);
            }
        }
        out
    }

    /// The reference model: text, and everything a parse of it must report.
    pub fn render(&self) -> Rendered {
        let mut r = Rendered::default();
        let mut n = 0usize;
        let mut from_index = 0usize;
        let mut globals = 0usize;
        // (name, parent, root, instruction indices)
        let mut stages: Vec<(Option<String>, String, String, Vec<usize>)> = vec![];
        for it in &self.items {
            for _ in 0..it.times.max(1) {
                r.text.push_str(&it.indent);
                let mut fs = vec![];
                spell(&it.body, &mut r.text, &mut fs);
                if let Body::Ins { kind, .. } = &it.body {
                    let pre = format!("{:06}.{}", n, kind);
                    for (p, s, e, v) in &fs {
                        let path = if p.is_empty() { pre.clone() } else { format!("{}.{}", pre, p) };
                        r.nodes.push(Node { path, s: *s, e: *e, val: v.clone() });
                    }
                    let mut nopos = |p: &str, v: String| {
                        r.nodes.push(Node { path: format!("{}.{}", pre, p), s: NOPOS, e: NOPOS, val: v })
                    };
                    if let Some(t) = shell_text(&fs) {
                        nopos("text", t);
                    }
                    if kind == "From" {
                        nopos("index", from_index.to_string());
                        nopos("ref", get_derived(&it.body, "ref").unwrap_or("").to_string());
                        let image = field(&it.body, "image").unwrap_or("").to_string();
                        let low = image.to_ascii_lowercase();
                        let (parent, root) = if low == "scratch" {
                            ("scratch".to_string(), "scratch".to_string())
                        } else if let Some(i) =
                            stages.iter().position(|s| s.0.as_deref() == Some(low.as_str()))
                        {
                            (format!("stage {}", i), stages[i].2.clone())
                        } else {
                            (format!("image {}", image), format!("image {}", image))
                        };
                        let name = field(&it.body, "alias").map(|a| a.to_ascii_lowercase());
                        stages.push((name, parent, root, vec![n]));
                        from_index += 1;
                    } else {
                        if kind == "Arg" && from_index == 0 {
                            for (p, s, e, v) in &fs {
                                let dot = if p.is_empty() { "" } else { "." };
                                r.nodes.push(Node {
                                    path: format!("global{:06}{}{}", globals, dot, p),
                                    s: *s,
                                    e: *e,
                                    val: v.clone(),
                                });
                            }
                            globals += 1;
                        }
                        if let Some(s) = stages.last_mut() {
                            s.3.push(n);
                        }
                    }
                    r.owner.push(it.id);
                    n += 1;
                }
                r.text.push_str(&it.trail);
                r.text.push_str(&it.eol);
                r.ends.push((it.id, r.text.len(), n));
            }
        }
        for (i, s) in stages.iter().enumerate() {
            r.nodes.push(stage_node(i, i, s.0.as_deref(), &s.1, &s.2, &s.3));
        }
        r.instructions = n;
        r.nodes.sort();
        r
    }
}

pub fn stage_node(pos: usize, index: usize, name: Option<&str>, parent: &str, root: &str, ins: &[usize]) -> Node {
    let first = ins.first().copied().unwrap_or(0);
    let contiguous = ins.iter().enumerate().all(|(k, v)| *v == first + k);
    let list = if contiguous && !ins.is_empty() {
        format!("{}..={}", first, first + ins.len() - 1)
    } else {
        format!("{:?}", ins)
    };
    Node {
        path: format!("stage{:06}", pos),
        s: NOPOS,
        e: NOPOS,
        val: format!("index={} name={:?} parent={} root={} instructions={}", index, name, parent, root, list),
    }
}

/// what a breakable value of an instruction reads like on a single line
fn shell_text(fs: &[(String, usize, usize, String)]) -> Option<String> {
    if !fs.iter().any(|f| f.0 == "shell" || f.0 == "args") {
        return None;
    }
    let mut t = String::new();
    for f in fs {
        if f.0.contains(".part[") && !f.0.ends_with('#') {
            t.push_str(&f.3);
        }
    }
    Some(t)
}

// ------------------------------------------------------------------ generator

/// Per-document style, drawn once ("swarm"): most documents use few features.
#[derive(Clone, Debug)]
pub struct Style {
    pub eol: &'static str,
    pub unicode: bool,
    pub conts: bool,
    pub comments: bool,
    pub quotes: bool,
    pub indent: bool,
    pub case_mix: bool,
    pub trailing: bool,
    pub vars: bool,
    pub final_newline: bool,
    pub kinds: Vec<usize>,
    pub long: usize,
}

impl Style {
    pub fn gen(r: &mut Rng) -> Style {
        let mut kinds: Vec<usize> = (0..9).collect();
        if r.pct(40) {
            r.shuffle(&mut kinds);
            let n = r.range(1, 6);
            kinds.truncate(n);
        }
        Style {
            eol: *r.pick(&["\n", "\n", "\n", "\n", "\r\n", "\r\n", "\r"]),
            unicode: r.pct(35),
            conts: r.pct(50),
            comments: r.pct(50),
            quotes: r.pct(60),
            indent: r.pct(35),
            case_mix: r.pct(35),
            trailing: r.pct(30),
            vars: r.pct(40),
            final_newline: r.pct(85),
            kinds,
            long: if r.pct(12) { r.range(20, 400) } else { 0 },
        }
    }
}

pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub st: Style,
    next_id: usize,
    aliases: Vec<String>,
    uniq: usize,
}

const HEX: &str = "00112233445566778899aabbccddeeff00112233445566778899AABBCCDDEEFF";
const WORDS: &[&str] = &[
    "foo", "bar", "baz", "app", "data", "etc", "opt", "curl", "make", "install", "node", "true",
    "x", "a", "b", "k8s", "v1", "main", "test", "lib", "alpine", "ubuntu", "latest", "library", "python3", "golang",
    "nginx", "docker", "amd64", "linux", "root", "none", "null", "default",
];
const UNI: &[&str] = &["é", "ß", "日本", "🚀", "Ω", "ñ", "\u{2028}", "\u{feff}", "е́", "\u{a0}", "İ"];

fn fld(p: impl Into<String>, raw: impl Into<String>, val: impl Into<String>) -> Piece {
    Piece::F { p: p.into(), raw: raw.into(), val: val.into() }
}
fn lit(s: impl Into<String>) -> Piece {
    Piece::L(s.into())
}

impl<'a> Gen<'a> {
    pub fn new(r: &'a mut Rng) -> Gen<'a> {
        let st = Style::gen(r);
        Gen { r, st, next_id: 0, aliases: vec![], uniq: 0 }
    }
    pub fn with_style(r: &'a mut Rng, st: Style, first_id: usize) -> Gen<'a> {
        Gen { r, st, next_id: first_id, aliases: vec![], uniq: 0 }
    }

    fn word(&mut self) -> String {
        self.uniq += 1;
        let mut s = self.r.pick(WORDS).to_string();
        if self.r.pct(60) {
            s.push_str(&self.r.below(1000).to_string());
        }
        if self.st.long > 0 && self.r.pct(10) {
            for _ in 0..self.st.long {
                s.push((b'a' + self.r.below(26) as u8) as char);
            }
        }
        s
    }

    /// a token without whitespace, quotes in front, or backslashes
    fn token(&mut self) -> String {
        let mut s = self.word();
        for _ in 0..self.r.below(4) {
            match self.r.below(11) {
                0 => s.push('/'),
                1 => s.push('.'),
                2 => s.push('-'),
                3 => s.push(':'),
                4 if self.st.unicode => s.push_str(self.r.pick(UNI)),
                5 if self.st.vars => s.push_str(self.r.pick(&["$V", "${VAR}", "$1", "$$"])),
                6 if self.st.quotes => s.push_str(self.r.pick(&["'", "\"", "`"])),
                7 => s.push_str(self.r.pick(&[",", "[", "]", "*", "+", "~", "|", "&", ";", "(", "#", "@", "%", "\\"])),
                _ => {
                    let w = self.word();
                    s.push_str(&w)
                }
            }
        }
        // a backslash must not be last (it could start a continuation)
        if s.ends_with('\\') {
            s.push('z');
        }
        s
    }

    /// keyword in the document's style
    fn kw(&mut self, k: &str) -> String {
        if !self.st.case_mix {
            return k.to_string();
        }
        match self.r.below(3) {
            0 => k.to_ascii_lowercase(),
            1 => k.to_string(),
            _ => k
                .chars()
                .map(|c| if self.r.pct(50) { c.to_ascii_lowercase() } else { c })
                .collect(),
        }
    }

    /// whitespace between arguments, possibly continuing on further lines
    fn gap(&mut self) -> String {
        if self.st.conts && self.r.pct(30) {
            // without a blank in front of the backslash, there is one on the next line
            let tight = self.r.pct(12);
            let mut s = String::from(if tight { "\\" } else { " \\" });
            if self.r.pct(20) {
                s.push_str(self.r.pick(&[" ", "\t", "  "]));
            }
            s.push_str(self.st.eol);
            if self.st.comments && self.r.pct(30) {
                for _ in 0..self.r.range(1, 2) {
                    s.push_str(self.r.pick(&["# c", "  # note: x=y", "#", "#a \\"]));
                    s.push_str(self.st.eol);
                }
            }
            if self.r.pct(15) {
                s.push_str(self.r.pick(&["", "  "]));
                s.push_str(self.st.eol);
            }
            s.push_str(self.r.pick(&["  ", "\t", "    ", if tight { " " } else { "" }]));
            s
        } else {
            self.r.pick(&[" ", " ", " ", "  ", "\t", " \t "]).to_string()
        }
    }

    /// whitespace within a line
    fn sp(&mut self) -> String {
        self.r.pick(&[" ", " ", " ", "  ", "\t"]).to_string()
    }

    /// (raw, value) of a quoted string
    fn quoted(&mut self, dq_only: bool) -> (String, String) {
        let q = if dq_only || self.r.pct(70) { '"' } else { '\'' };
        let mut raw = String::new();
        let mut val = String::new();
        raw.push(q);
        for i in 0..self.r.below(4) {
            if i > 0 {
                let s = self.r.pick(&[" ", " ", "=", "/", ", ", "  "]).to_string();
                raw.push_str(&s);
                val.push_str(&s);
            }
            if self.st.conts && self.r.pct(6) {
                // a quoted string may continue on the next line
                raw.push('\\');
                raw.push_str(self.st.eol);
            }
            match self.r.below(8) {
                0 => {
                    let (a, b) = *self.r.pick(&[
                        ("\\n", "\n"),
                        ("\\t", "\t"),
                        ("\\\\", "\\"),
                        ("\\r", "\r"),
                        ("\\u00e9", "é"),
                        ("\\U0001f680", "🚀"),
                        ("\\b", "\u{8}"),
                        ("\\f", "\u{c}"),
                    ]);
                    raw.push_str(a);
                    val.push_str(b);
                }
                1 => {
                    let c = *self.r.pick(&['"', '\'']);
                    if c == q {
                        raw.push('\\');
                    }
                    raw.push(c);
                    val.push(c);
                }
                2 if self.st.unicode => {
                    let u = *self.r.pick(UNI);
                    raw.push_str(u);
                    val.push_str(u);
                }
                3 => {
                    let u = *self.r.pick(&["#", "[", "]", ",", "$X", "${Y}", "\t"]);
                    raw.push_str(u);
                    val.push_str(u);
                }
                _ => {
                    let w = self.word();
                    raw.push_str(&w);
                    val.push_str(&w);
                }
            }
        }
        raw.push(q);
        (raw, val)
    }

    /// a value after `=` or in single form: quoted or plain
    fn value(&mut self) -> (String, String) {
        if self.st.quotes && self.r.pct(40) {
            self.quoted(false)
        } else {
            let t = self.token();
            (t.clone(), t)
        }
    }

    /// image text and "registry|image|tag|hash"
    fn image(&mut self) -> (String, String) {
        if self.r.pct(6) {
            let s = self.r.pick(&["scratch", "SCRATCH", "Scratch"]).to_string();
            return (s.clone(), format!("-|{}|-|-", s));
        }
        if !self.aliases.is_empty() && self.r.pct(35) {
            let mut s = self.r.pick(&self.aliases.clone()).clone();
            if self.r.pct(30) {
                s = s.to_ascii_uppercase();
            }
            return (s.clone(), format!("-|{}|-|-", s));
        }
        // images that resemble `scratch` or the name of a stage, and are neither
        if self.r.pct(10) {
            let mut near = self.aliases.clone();
            near.push("scratch".into());
            let a = self.r.pick(&near).clone();
            let up = a.to_ascii_uppercase();
            let z = HEX;
            return match self.r.below(11) {
                0 => (format!("{}:latest", a), format!("-|{}|latest|-", a)),
                1 => (format!("{}:1", a), format!("-|{}|1|-", a)),
                2 => (format!("{}@sha256:{}", a, z), format!("-|{}|-|sha256:{}", a, z)),
                3 => (format!("library/{}", a), format!("-|library/{}|-|-", a)),
                4 => (format!("localhost/{}", a), format!("localhost|{}|-|-", a)),
                5 => (format!("docker.io/{}:{}", a, a), format!("docker.io|{}|{}|-", a, a)),
                6 => (format!("{}x", a), format!("-|{}x|-|-", a)),
                7 => (format!("x{}", a), format!("-|x{}|-|-", a)),
                8 => (format!("{}:{}", up, a), format!("-|{}|{}|-", up, a)),
                9 => (format!("{}:latest", up), format!("-|{}|latest|-", up)),
                _ => (format!("{}/{}", a, a), format!("-|{}/{}|-|-", a, a)),
            };
        }
        let reg = match self.r.below(20) {
            0 | 1 => Some("localhost".to_string()),
            2 | 3 => Some("reg.example.com".to_string()),
            4 | 5 => Some("host:5000".to_string()),
            6 | 7 => Some("10.0.0.1:443".to_string()),
            8 | 9 => {
                let hosts = ["docker.io", "index.docker.io", "registry-1.docker.io", "gcr.io", "localhost:5000", "Reg.Example.COM:80", "a.b", "x.", "ghcr.io:443", "xn--e1afmkfd.example"];
                Some(self.r.pick(&hosts).to_string())
            }
            _ => None,
        };
        let mut comps = vec![];
        for _ in 0..*self.r.pick(&[1, 1, 1, 2, 2, 3]) {
            let mut c = self.r.pick(WORDS).to_string();
            if self.r.pct(50) {
                c.push_str(self.r.pick(&["-", "_", "0", "9z", "X"]));
            }
            if self.st.vars && self.r.pct(20) {
                c.push_str(self.r.pick(&["$IMG", "${img_1}"]));
            }
            comps.push(c);
        }
        let img = comps.join("/");
        let mut text = match &reg {
            Some(r) => format!("{}/{}", r, img),
            None => img.clone(),
        };
        let (mut tag, mut hash) = ("-".to_string(), "-".to_string());
        match self.r.below(6) {
            0 | 1 | 2 => {
                let mut t = format!("{}.{}", self.r.below(20), self.r.below(20));
                if self.r.pct(15) {
                    t = match self.r.below(3) {
                        0 => self.r.pick(&["latest", "v1.2.3-rc_1", "LTS", "1", "0", "latest-alpine", "2024-01-01", "sha256", "_x", "-"]).to_string(),
                        1 => "t".repeat(*self.r.pick(&[63, 64, 65, 127, 128, 129, 300])),
                        _ => self.r.pick(WORDS).to_string(),
                    };
                }
                if self.st.vars && self.r.pct(30) {
                    t = self.r.pick(&["$TAG", "${TAG}", "v${tag}-x"]).to_string();
                }
                text = format!("{}:{}", text, t);
                tag = t;
            }
            3 => {
                // sometimes all of one kind: only zeros, digits or letters
                let all = ['0', '7', '9', 'a', 'c', 'f', 'B', 'E', '1', 'A', 'd', 'F'];
                let of: &[char] = match self.r.below(12) {
                    0 => &all[0..1],
                    1 => &all[0..3],
                    2 => &all[3..6],
                    3 => &all[6..8],
                    _ => &all,
                };
                let hex: String = (0..64).map(|_| *self.r.pick(of)).collect();
                text = format!("{}@sha256:{}", text, hex);
                hash = format!("sha256:{}", hex);
            }
            _ => {}
        }
        (text, format!("{}|{}|{}|{}", reg.unwrap_or("-".into()), img, tag, hash))
    }

    fn ident(&mut self) -> String {
        let mut s = self.r.pick(WORDS).to_string();
        s.push_str(*self.r.pick(&["", "_A", "1", "_b_2", "X"]));
        s
    }

    /// one line of shell text: no leading whitespace unless `lead`, no
    /// backslash, does not look like an exec array or a comment
    fn shell_line(&mut self, first: bool, last: bool) -> String {
        let mut s = String::new();
        if !first {
            s.push_str(self.r.pick(&["", "  ", "    ", "\t"]));
        }
        let n = self.r.range(1, 5);
        for i in 0..n {
            if i > 0 {
                s.push_str(self.r.pick(&[" ", " ", "  ", " && ", " | ", "; "]));
            }
            match self.r.below(10) {
                0 if self.st.unicode => s.push_str(self.r.pick(UNI)),
                1 if self.st.quotes => {
                    s.push_str(self.r.pick(&["'a b'", "\"c d\"", "\"$X\"", "'", "\"", "`id`"]));
                }
                2 if self.st.vars => s.push_str(self.r.pick(&["$V", "${VAR:-x}", "$(id)"])),
                3 if i > 0 => s.push_str(self.r.pick(&["# no", "#", "\\n", "\\\\ x", "[ -f y ]", "=", "--f=1"])),
                4 if first && i == 0 => {
                    // exec look-alikes
                    s.push_str(self.r.pick(&["[ -f x ]", "[\"a\", b", "[[ 'x' ]] &&", "[", "{\"a\":1}"]));
                    s.push_str(" z");
                }
                _ => {
                    let w = self.word();
                    s.push_str(&w)
                }
            }
        }
        // a first token must not start like whitespace/comment
        if s.trim_start_matches([' ', '\t']).starts_with('#') {
            s = s.replacen('#', "h", 1);
        }
        if s.ends_with('\\') {
            s.push('y');
        }
        if self.st.trailing && self.r.pct(30) {
            s.push_str(self.r.pick(&[" ", "\t", "  "]));
        } else if !last && self.r.pct(70) {
            s.push(' ');
        }
        s
    }

    /// breakable text under `pre`: pieces pre.part[j]
    fn breakable(&mut self, pre: &str, out: &mut Vec<Piece>, first_prefix: Option<String>) {
        out.push(Piece::Open(pre.to_string()));
        let lines = if self.st.conts && self.r.pct(55) { self.r.range(2, 5) } else { 1 };
        let mut j = 0;
        for i in 0..lines {
            let last = i + 1 == lines;
            let mut l = self.shell_line(i == 0, last);
            if i == 0 {
                if let Some(p) = &first_prefix {
                    l = format!("{}{}", p, l);
                }
            }
            out.push(fld(format!("{}.part[{}]", pre, j), l.clone(), l));
            j += 1;
            if !last {
                let mut c = String::from("\\");
                if self.r.pct(15) {
                    c.push_str(self.r.pick(&[" ", "\t"]));
                }
                c.push_str(self.st.eol);
                out.push(lit(c));
                if self.st.comments && self.r.pct(30) {
                    for _ in 0..self.r.range(1, 2) {
                        out.push(lit(self.r.pick(&["", "  ", "\t"]).to_string()));
                        let t = format!("#{}", self.r.pick(&["", " note", " a \\", "!x", " && rm"]));
                        out.push(fld(format!("{}.part[{}]#", pre, j), t.clone(), t));
                        j += 1;
                        out.push(lit(self.st.eol));
                    }
                }
            }
        }
        out.push(Piece::Close);
    }

    fn exec(&mut self, out: &mut Vec<Piece>) {
        out.push(Piece::Open("exec".into()));
        let n = self.r.below(5);
        out.push(lit("["));
        for i in 0..n {
            if i > 0 {
                let g = if self.r.pct(40) { self.gap() } else { String::new() };
                out.push(lit(format!("{},", if self.r.pct(80) { String::new() } else { g })));
            }
            let g = if self.r.pct(60) { self.gap() } else { String::new() };
            out.push(lit(g));
            let (raw, val) = self.quoted(false);
            out.push(fld(format!("exec.el[{}]", i), raw, val));
        }
        if n > 0 && self.r.pct(6) {
            out.push(lit(","));
        }
        let g = if self.r.pct(30) { self.gap() } else { String::new() };
        out.push(lit(g));
        out.push(lit("]"));
        out.push(Piece::Close);
    }

    fn flags(&mut self, out: &mut Vec<Piece>, names: &[&str]) -> usize {
        let n = if self.r.pct(30) { self.r.range(1, 2) } else { 0 };
        for j in 0..n {
            let g = self.gap();
            out.push(lit(g));
            out.push(Piece::Open(format!("flag[{}]", j)));
            out.push(lit("--"));
            let nm = self.r.pick(names).to_string();
            out.push(fld(format!("flag[{}].name", j), nm.clone(), nm));
            out.push(lit("="));
            let v = self.r.pick(&["linux/amd64", "0", "build", "55:mygroup", "$X", "é", "a=b"]).to_string();
            out.push(fld(format!("flag[{}].value", j), v.clone(), v));
            out.push(Piece::Close);
        }
        n
    }

    pub fn instruction(&mut self, kind: usize) -> Item {
        let mut p: Vec<Piece> = vec![];
        let mut derived = vec![];
        let mut swallow_trail = false;
        let name = match kind {
            0 => {
                let k = self.kw("FROM");
                p.push(lit(k));
                self.flags(&mut p, &["platform", "x"]);
                let g = self.gap();
                p.push(lit(g));
                let (text, parsed) = self.image();
                p.push(fld("image", text.clone(), text));
                derived.push(("ref".to_string(), parsed));
                if self.r.pct(45) {
                    let g = self.gap();
                    p.push(lit(g));
                    let a = self.kw("AS");
                    p.push(lit(a));
                    let g = self.gap();
                    p.push(lit(g));
                    let mut al = self.ident();
                    if self.r.pct(25) {
                        al.push_str("-x");
                    }
                    if self.r.pct(15) {
                        al = al.to_ascii_uppercase();
                    }
                    if self.r.pct(10) {
                        al = self.r.below(5).to_string();
                    }
                    if !self.aliases.is_empty() && self.r.pct(15) {
                        // the same name again, perhaps spelled differently
                        al = self.r.pick(&self.aliases.clone()).clone();
                        if self.r.pct(40) {
                            al = al.to_ascii_uppercase();
                        }
                    }
                    if self.r.pct(2) {
                        al = self.r.pick(&["scratch", "Scratch", "latest", "library", "from", "as"]).to_string();
                    }
                    self.aliases.push(al.clone());
                    p.push(fld("alias", al.clone(), al));
                }
                "From"
            }
            1 => {
                let k = self.kw("ARG");
                p.push(lit(k));
                let g = self.gap();
                p.push(lit(g));
                let n = self.r.pick(&["TAG", "IMG", "img_1", "tag", "VAR", "foo", "Zed9"]).to_string();
                p.push(fld("name", n.clone(), n));
                if self.r.pct(75) {
                    p.push(lit("="));
                    let (raw, val) = if self.st.vars && self.r.pct(30) {
                        let s = self.r.pick(&["$TAG", "${IMG}", "a-$tag", "${VAR}${foo}", "1.2"]).to_string();
                        (s.clone(), s)
                    } else {
                        self.value()
                    };
                    p.push(fld("value", raw, val));
                }
                "Arg"
            }
            2 => {
                let k = self.kw("LABEL");
                p.push(lit(k));
                if self.r.pct(25) {
                    // single form: the reported pair includes the whitespace in front
                    p.push(Piece::Open("label[0]".into()));
                    let g = self.gap();
                    p.push(lit(g));
                    if self.st.quotes && self.r.pct(30) {
                        let (raw, val) = self.quoted(false);
                        p.push(fld("label[0].name", raw, val));
                    } else {
                        let mut n = self.ident();
                        if self.r.pct(40) {
                            n.push_str(".k");
                        }
                        p.push(fld("label[0].name", n.clone(), n));
                    }
                    // a bare name would take in a backslash right behind it
                    let mut g = self.gap();
                    if g.starts_with('\\') {
                        g.insert(0, ' ');
                    }
                    p.push(lit(g));
                    let (raw, val) = self.value();
                    p.push(fld("label[0].value", raw, val));
                    p.push(Piece::Close);
                } else {
                    swallow_trail = true;
                    let n = self.r.range(1, 4);
                    for j in 0..n {
                        let g = self.gap();
                        p.push(lit(g));
                        p.push(Piece::Open(format!("label[{}]", j)));
                        if self.st.quotes && self.r.pct(25) {
                            let (raw, val) = self.quoted(false);
                            p.push(fld(format!("label[{}].name", j), raw, val));
                        } else {
                            let mut s = self.ident();
                            if self.r.pct(40) {
                                s.push_str(".x-y");
                            }
                            p.push(fld(format!("label[{}].name", j), s.clone(), s));
                        }
                        p.push(lit("="));
                        let (raw, val) = self.value();
                        p.push(fld(format!("label[{}].value", j), raw, val));
                        p.push(Piece::Close);
                    }
                }
                "Label"
            }
            3 | 4 | 5 => {
                let (k, name) = [("RUN", "Run"), ("ENTRYPOINT", "Entrypoint"), ("CMD", "Cmd")][kind - 3];
                let k = self.kw(k);
                p.push(lit(k));
                let exec = self.r.pct(if kind == 3 { 25 } else { 60 });
                // the gap may continue on the next line
                let mut g = self.gap();
                if !exec && g.ends_with('\n') {
                    g.push(' ');
                }
                p.push(lit(g));
                if exec {
                    self.exec(&mut p);
                } else {
                    self.breakable("shell", &mut p, None);
                }
                name
            }
            6 => {
                let k = self.kw("COPY");
                p.push(lit(k));
                self.flags(&mut p, &["from", "chown", "link"]);
                let n = self.r.range(1, 4);
                for j in 0..=n {
                    let g = self.gap();
                    p.push(lit(g));
                    let mut t = self.token();
                    if self.r.pct(20) {
                        t = format!("./{}", t);
                    }
                    let path = if j == n { "dst".to_string() } else { format!("src[{}]", j) };
                    p.push(fld(path, t.clone(), t));
                }
                "Copy"
            }
            7 => {
                let k = self.kw("ENV");
                p.push(lit(k));
                if self.r.pct(30) {
                    let g = self.gap();
                    p.push(lit(g));
                    p.push(Piece::Open("var[0]".into()));
                    let n = self.ident();
                    p.push(fld("var[0].key", n.clone(), n));
                    let g = self.gap();
                    p.push(lit(g));
                    if self.st.quotes && self.r.pct(35) {
                        let (raw, val) = self.quoted(false);
                        p.push(Piece::Open("var[0].value".into()));
                        p.push(fld("var[0].value.part[0]", raw, val));
                        p.push(Piece::Close);
                    } else {
                        self.breakable("var[0].value", &mut p, Some("v".into()));
                    }
                    p.push(Piece::Close);
                } else {
                    swallow_trail = true;
                    for j in 0..self.r.range(1, 4) {
                        let g = self.gap();
                        p.push(lit(g));
                        p.push(Piece::Open(format!("var[{}]", j)));
                        let n = self.ident();
                        p.push(fld(format!("var[{}].key", j), n.clone(), n));
                        p.push(lit("="));
                        let (raw, val) = self.value();
                        p.push(Piece::Open(format!("var[{}].value", j)));
                        p.push(fld(format!("var[{}].value.part[0]", j), raw, val));
                        p.push(Piece::Close);
                        p.push(Piece::Close);
                    }
                }
                "Env"
            }
            _ => {
                let k0 = self
                    .r
                    .pick(&["WORKDIR", "USER", "EXPOSE", "VOLUME", "ADD", "MAINTAINER", "ONBUILD", "STOPSIGNAL", "SHELL", "HEALTHCHECK"])
                    .to_string();
                let k = self.kw(&k0);
                p.push(fld("name", k.clone(), k));
                let sp = self.sp();
                self.breakable("args", &mut p, Some(sp));
                "Misc"
            }
        };
        let mut trail = String::new();
        if self.st.trailing && self.r.pct(40) && !matches!(name, "Misc") {
            let t = self.r.pick(&[" ", "\t", "  "]).to_string();
            let ends_in_text = match p.iter().rev().find(|x| !matches!(x, Piece::Close)) {
                Some(Piece::F { p, .. }) => p.contains("shell.part") || p == "var[0].value.part[0]" && !swallow_trail || p.contains("value.part") && !swallow_trail,
                _ => false,
            };
            if swallow_trail {
                p.push(lit(t));
            } else if !ends_in_text {
                trail = t;
            }
        }
        let indent = if self.st.indent && self.r.pct(60) {
            self.r.pick(&["  ", "\t", "    ", " "]).to_string()
        } else {
            String::new()
        };
        let id = self.next_id;
        self.next_id += 1;
        Item {
            id,
            indent,
            body: Body::Ins { kind: name.to_string(), pieces: p, derived },
            trail,
            eol: self.st.eol.to_string(),
            times: 1,
        }
    }

    pub fn filler(&mut self) -> Item {
        let id = self.next_id;
        self.next_id += 1;
        let body = if self.r.pct(45) {
            Body::Blank
        } else {
            let mut text = self.r.pick(&["", " comment", " FROM x", " é 🚀", "#", " a \\", " syntax=docker/dockerfile:1"]).to_string();
            if !self.st.unicode {
                text = text.chars().filter(|c| c.is_ascii()).collect();
            }
            Body::Comment { text, pad: 0 }
        };
        let indent = if self.st.indent && self.r.pct(40) { "  ".to_string() } else { String::new() };
        Item { id, indent, body, trail: String::new(), eol: self.st.eol.to_string(), times: 1 }
    }

    /// n instructions, possibly global ARGs first, stages, comments and blanks
    pub fn doc(&mut self, n: usize) -> Doc {
        let mut d = Doc::default();
        let globals = if self.r.pct(45) { self.r.range(1, 3) } else { 0 };
        for i in 0..n {
            if self.r.pct(20) {
                let f = self.filler();
                d.items.push(f);
            }
            let kind = if i < globals {
                1
            } else if i == globals && self.r.pct(90) {
                0
            } else if self.r.pct(12) {
                0
            } else {
                let k = self.st.kinds.clone();
                *self.r.pick(&k)
            };
            let it = self.instruction(kind);
            d.items.push(it);
        }
        if self.r.pct(15) {
            let f = self.filler();
            d.items.push(f);
        }
        d.normalise(self.st.final_newline);
        d
    }
}

impl Doc {
    /// only the last line may lack its line ending
    pub fn normalise(&mut self, final_newline: bool) {
        if !final_newline {
            if let Some(l) = self.items.last_mut() {
                l.eol = String::new();
                l.times = 1;
            }
        }
    }
    pub fn small(r: &mut Rng) -> Doc {
        let n = r.range(1, 8);
        Gen::new(r).doc(n)
    }
    pub fn medium(r: &mut Rng) -> Doc {
        let n = r.range(4, 40);
        Gen::new(r).doc(n)
    }
    pub fn any(r: &mut Rng) -> Doc {
        if r.pct(70) {
            Doc::small(r)
        } else {
            Doc::medium(r)
        }
    }
    /// Repeats one line so often that counters of lines, instructions, stages or
    /// bytes pass the limits of small integers.
    pub fn tall(&mut self, r: &mut Rng) {
        if self.items.is_empty() {
            return;
        }
        let eol = self.items.iter().map(|i| i.eol.clone()).find(|e| !e.is_empty()).unwrap_or_else(|| "\n".into());
        let froms: Vec<usize> =
            (0..self.items.len()).filter(|i| matches!(&self.items[*i].body, Body::Ins { kind, .. } if kind == "From")).collect();
        let small: Vec<usize> = (0..self.items.len()).filter(|i| if let Body::Ins { pieces, .. } = &self.items[*i].body { pieces.len() < 9 } else { true }).collect();
        let mut item = if !froms.is_empty() && r.pct(40) {
            self.items[*r.pick(&froms)].clone()
        } else if !small.is_empty() && r.pct(60) {
            self.items[*r.pick(&small)].clone()
        } else {
            let body = if r.pct(60) { Body::Blank } else { Body::Comment { text: r.pick(&["", "c", " é"]).to_string(), pad: 0 } };
            Item { id: 0, indent: String::new(), body, trail: String::new(), eol: eol.clone(), times: 1 }
        };
        item.id = 900_003;
        item.eol = eol.clone();
        item.times = match r.below(10) {
            0..=5 => r.range(257, 330),
            6..=8 => r.range(400, 1200),
            _ if !matches!(item.body, Body::Ins { .. }) => r.range(65_537, 66_000),
            _ => r.range(257, 600),
        };
        let at = r.below(self.items.len() + 1);
        if at == self.items.len() {
            if let Some(l) = self.items.last_mut() {
                if l.eol.is_empty() {
                    l.eol = eol;
                }
            }
        }
        self.items.insert(at, item);
    }
    /// One item for every line, a repeated line too.
    pub fn spread(&mut self) {
        let items = std::mem::take(&mut self.items);
        for mut it in items {
            let n = it.times.clamp(1, 1200);
            it.times = 1;
            self.items.extend(std::iter::repeat(it).take(n));
        }
    }
    /// Puts one very long comment in front of an item.
    pub fn pad(&mut self, r: &mut Rng, bytes: usize) {
        let at = r.below(self.items.len().max(1));
        let eol = self.items.get(at).map(|i| i.eol.clone()).filter(|e| !e.is_empty()).unwrap_or_else(|| "\n".into());
        let body = Body::Comment { text: " ".into(), pad: bytes };
        self.items.insert(at, Item { id: 900_004, indent: String::new(), body, trail: String::new(), eol, times: 1 });
    }
    /// Pads the document to roughly `bytes`, cheaply or with real instructions.
    pub fn grow(&mut self, r: &mut Rng, bytes: usize) {
        let now = self.text().len();
        if now >= bytes || self.items.is_empty() {
            return;
        }
        let need = bytes - now;
        let at = r.below(self.items.len());
        let eol = if self.items[at].eol.is_empty() { "\n".to_string() } else { self.items[at].eol.clone() };
        let item = match r.below(3) {
            0 => Item {
                id: 900_000,
                indent: String::new(),
                body: Body::Comment { text: " ".into(), pad: need.saturating_sub(3) },
                trail: String::new(),
                eol,
                times: 1,
            },
            1 => Item {
                id: 900_001,
                indent: String::new(),
                body: Body::Comment { text: " padding é line".into(), pad: r.range(0, 90) },
                trail: String::new(),
                eol,
                times: need / 60 + 1,
            },
            _ => Item {
                id: 900_002,
                indent: String::new(),
                body: Body::Ins {
                    kind: "Run".into(),
                    pieces: vec![
                        lit("RUN "),
                        Piece::Open("shell".into()),
                        fld("shell.part[0]", "echo 0123456789 日本 && true", "echo 0123456789 日本 && true"),
                        Piece::Close,
                    ],
                    derived: vec![],
                },
                trail: String::new(),
                eol,
                times: need / 36 + 1,
            },
        };
        self.items.insert(at, item);
    }
}

/// A near-duplicate: same length, one character of one token differs.
pub fn sibling(r: &mut Rng, d: &Doc) -> Doc {
    let mut d = d.clone();
    let n = d.items.len();
    if n == 0 {
        return d;
    }
    for _ in 0..20 {
        let i = r.below(n);
        if let Body::Ins { pieces, kind, derived } = &mut d.items[i].body {
            let k = pieces.len();
            let j = r.below(k);
            if let Piece::F { p, raw, val } = &mut pieces[j] {
                if raw == val && raw.len() == val.len() {
                    let bytes = raw.as_bytes();
                    if let Some(q) = (0..bytes.len()).rev().find(|q| bytes[*q].is_ascii_digit()) {
                        let c = bytes[q];
                        let c2 = if c == b'9' { b'0' } else { c + 1 };
                        if kind == "From" && p == "image" {
                            // keep the derived parts in step: only the tag changes
                            let old = derived[0].1.clone();
                            let mut parts: Vec<String> = old.split('|').map(|s| s.to_string()).collect();
                            if parts.len() == 4 && parts[2] != "-" && parts[2].ends_with(c as char) && q + 1 == raw.len() {
                                let l = parts[2].len();
                                parts[2].replace_range(l - 1..l, &(c2 as char).to_string());
                                derived[0].1 = parts.join("|");
                            } else {
                                continue;
                            }
                        }
                        raw.replace_range(q..q + 1, &(c2 as char).to_string());
                        *val = raw.clone();
                        return d;
                    }
                }
            }
        }
    }
    d
}

impl<'a> Gen<'a> {
    /// a new spelling for the leaf at `path`: (text, value, image parts)
    pub fn replacement(&mut self, path: &str, old: &str) -> Option<(String, String, Option<String>)> {
        let same = |s: String| Some((s.clone(), s, None));
        if path == "image" {
            let (t, d) = self.image();
            return Some((t.clone(), t, Some(d)));
        }
        if path == "alias" {
            let i = self.ident();
            return same(i);
        }
        if path.contains(".part[") {
            if path.ends_with('#') {
                let t = format!("#{}", self.r.pick(&["", " new note", "é", " x \\ y"]));
                return same(t);
            }
            if path.starts_with("var[") {
                let t = self.token();
                return same(format!("v{}", t));
            }
            let first = path.ends_with("part[0]");
            let mut l = self.shell_line(first, true);
            if path == "args.part[0]" {
                l = format!(" {}", l);
            }
            return same(l);
        }
        if path.contains(".el[") {
            let (r, v) = self.quoted(false);
            return Some((r, v, None));
        }
        if path.starts_with("flag[") {
            if path.ends_with(".name") {
                let s = self.r.pick(&["platform", "chown", "from", "z"]).to_string();
                return same(s);
            }
            let t = self.token();
            return same(t);
        }
        if path.starts_with("label[") {
            if path.ends_with(".name") {
                if old.starts_with('"') || old.starts_with('\'') {
                    let (r, v) = self.quoted(false);
                    return Some((r, v, None));
                }
                let i = self.ident();
                return same(i);
            }
            let (r, v) = self.value();
            return Some((r, v, None));
        }
        if path.starts_with("var[") || path == "name" {
            if path == "name" && old.chars().all(|c| c.is_ascii_alphabetic()) && MISC.contains(&old.to_ascii_uppercase().as_str()) {
                let s = self.r.pick(MISC).to_string();
                return same(s);
            }
            let i = self.ident();
            return same(i);
        }
        if path == "value" {
            let (r, v) = self.value();
            return Some((r, v, None));
        }
        if path == "dst" || path.starts_with("src[") {
            let t = self.token();
            return same(t);
        }
        None
    }
}

pub const MISC: &[&str] = &["WORKDIR", "USER", "EXPOSE", "VOLUME", "ADD", "MAINTAINER", "ONBUILD", "STOPSIGNAL", "SHELL", "HEALTHCHECK"];
