//! What must be true of every document the library hands out, whatever bytes it
//! came from: nothing lost, everything where it says it is, every derived view
//! consistent with the instructions.

use crate::docgen::NOPOS;
use crate::observe::*;
use crate::rt;
use dockerfile_parser::*;

macro_rules! law {
    ($c:expr, $($a:tt)*) => {
        if !$c {
            rt::violation("inconsistent", &format!($($a)*));
        }
    };
}

fn inside(d: &Dockerfile, what: &str, s: &Span, lo: usize, hi: usize) {
    law!(s.start <= s.end, "{}: span {}..{} ends before it starts", what, s.start, s.end);
    law!(lo <= s.start && s.end <= hi, "{}: span {}..{} is not within {}..{}", what, s.start, s.end, lo, hi);
    law!(
        d.content.is_char_boundary(s.start) && d.content.is_char_boundary(s.end),
        "{}: span {}..{} splits a character",
        what,
        s.start,
        s.end
    );
}

fn clip(s: &str) -> String {
    s.chars().take(80).collect()
}

/// what a quoted text stands for: line continuations joined, escapes decoded
fn unquoted(t: &str) -> Option<String> {
    let q = t.chars().next().filter(|c| matches!(c, '"' | '\'' | '`'))?;
    let t = t.replace("\\\r\n", "").replace("\\\n", "").replace("\\\r", "");
    let inner = t.strip_prefix(q)?.strip_suffix(q)?;
    let mut out = String::new();
    let mut it = inner.chars();
    while let Some(c) = it.next() {
        if c == q {
            return None;
        }
        if c != '\\' {
            out.push(c);
            continue;
        }
        let e = it.next()?;
        let mut digits = |first: &str, n: usize, radix: u32| {
            let t: String = first.chars().chain((0..n).map(|_| it.next().unwrap_or('\0'))).collect();
            u32::from_str_radix(&t, radix).ok()
        };
        out.push(match e {
            '\\' | '"' | '\'' | '`' => e,
            'a' => '\x07',
            'b' => '\x08',
            'f' => '\x0c',
            'n' => '\n',
            'r' => '\r',
            't' => '\t',
            'v' => '\x0b',
            '0'..='9' => char::from(u8::try_from(digits(&e.to_string(), 2, 8)?).ok()?),
            'x' => char::from(u8::try_from(digits("", 2, 16)?).ok()?),
            'u' => char::from_u32(digits("", 4, 16)?)?,
            'U' => char::from_u32(digits("", 8, 16)?)?,
            _ => return None,
        });
    }
    Some(out)
}

/// how an image reference is taken apart
fn image_parts(s: &str) -> (Option<&str>, &str, Option<&str>, Option<&str>) {
    let (registry, rest) = match s.split_once('/') {
        Some((host, rest)) if host == "localhost" || host.contains(['.', ':']) => (Some(host), rest),
        _ => (None, s),
    };
    if let Some((image, hash)) = rest.split_once('@') {
        (registry, image, None, Some(hash))
    } else if let Some((image, tag)) = rest.split_once(':') {
        (registry, image, Some(tag), None)
    } else {
        (registry, rest, None, None)
    }
}

fn parts_law(what: &str, s: &str, i: &ImageRef) {
    let got = (i.registry.as_deref(), i.image.as_str(), i.tag.as_deref(), i.hash.as_deref());
    let want = image_parts(s);
    law!(got == want, "{}: the parts of {:?} are {:?} instead of {:?}", what, clip(s), got, want);
}

type Vars<'a> = std::collections::HashMap<&'a str, &'a str>;

/// `Err` when it is too large to tell what the outcome should be
fn substituted(s: &str, vars: &Vars, depth: usize, used: &mut std::collections::BTreeSet<String>, left: &mut usize) -> Result<Option<String>, ()> {
    let mut out = String::new();
    let mut rest = s;
    let word = |t: &str| t.bytes().take_while(|b| b.is_ascii_alphanumeric() || *b == b'_').count();
    while let Some(p) = rest.find('$') {
        out.push_str(&rest[..p]);
        let after = &rest[p + 1..];
        let (name, len) = match after.strip_prefix('{') {
            Some(t) if word(t) > 0 && t[word(t)..].starts_with('}') => (&t[..word(t)], word(t) + 2),
            None if word(after) > 0 => (&after[..word(after)], word(after)),
            _ => {
                out.push('$');
                rest = after;
                continue;
            }
        };
        if depth == 0 {
            return Ok(None);
        }
        let Some(v) = vars.get(name) else { return Ok(None) };
        *left = left.checked_sub(v.len() + 1).ok_or(())?;
        let Some(v) = substituted(v, vars, depth - 1, used, left)? else { return Ok(None) };
        used.insert(name.to_string());
        out.push_str(&v);
        rest = &after[len..];
    }
    out.push_str(rest);
    Ok(Some(out))
}

/// resolving a reference puts in the values of the global arguments
fn resolve_law(d: &Dockerfile, what: &str, f: &FromInstruction) {
    let mut vars = Vars::new();
    for a in &d.global_args {
        if let Some(v) = &a.value {
            vars.insert(&a.name.content, &v.content);
        }
    }
    let got = rt::must("resolve_vars_with_context", || f.image_parsed.resolve_vars_with_context(d));
    let plain = rt::must("resolve_vars", || f.image_parsed.resolve_vars(d));
    law!(plain == got.as_ref().map(|g| g.0.clone()), "{}: resolve_vars and resolve_vars_with_context differ", what);
    let mut used = Default::default();
    if let Ok(want) = substituted(&f.image.content, &vars, 16, &mut used, &mut 30_000) {
        rt::stat("probe.resolved", want.is_some() as u64);
        match (want, got) {
            (None, None) => {}
            (Some(w), Some((i, u))) => {
                parts_law(what, &w, &i);
                let u: std::collections::BTreeSet<String> = u.into_iter().collect();
                law!(u == used, "{}: {:?} uses {:?}, reported are {:?}", what, clip(&f.image.content), used, u);
            }
            (w, g) => law!(false, "{}: {:?} resolves to {:?} instead of {:?}", what, clip(&f.image.content), g.map(|g| g.0.to_string()), w),
        }
    }
}

/// plain fields repeat the text they point at, quoted ones what it stands for
fn field(d: &Dockerfile, what: &str, s: &SpannedString, lo: usize, hi: usize) -> usize {
    inside(d, what, &s.span, lo, hi);
    let t = &d.content[s.span.start..s.span.end];
    law!(
        t == s.content || unquoted(t).as_ref() == Some(&s.content),
        "{}: says {:?} but points at {:?}",
        what,
        clip(&s.content),
        clip(t)
    );
    s.span.end
}

fn breakable(d: &Dockerfile, what: &str, b: &BreakableString, lo: usize, hi: usize) {
    inside(d, what, &b.span, lo, hi);
    let mut pos = b.span.start;
    let mut text = String::new();
    for c in &b.components {
        let (span, content, comment) = match c {
            BreakableStringComponent::String(s) => (s.span, &s.content, false),
            BreakableStringComponent::Comment(s) => (s.span, &s.content, true),
        };
        inside(d, what, &span, pos, b.span.end);
        let gap = &d.content[pos..span.start];
        law!(
            gap.chars().all(|c| matches!(c, '\\' | ' ' | '\t' | '\n' | '\r')),
            "{}: {:?} is in the text but in no component",
            what,
            clip(gap)
        );
        let t = &d.content[span.start..span.end];
        if comment {
            law!(t == content && t.starts_with('#'), "{}: comment says {:?} but points at {:?}", what, clip(content), clip(t));
        } else {
            law!(t == content || unquoted(t).as_ref() == Some(content), "{}: says {:?} but points at {:?}", what, clip(content), clip(t));
            text.push_str(content);
        }
        pos = span.end;
    }
    let gap = &d.content[pos..b.span.end];
    law!(gap.chars().all(|c| matches!(c, '\\' | ' ' | '\t' | '\n' | '\r')), "{}: {:?} is in no component", what, clip(gap));
    let same = rt::must("iter_components", || b.iter_components().eq(b.components.iter()));
    law!(same, "{}: iter_components differs from the components", what);
    let shown = rt::must("Display", || b.to_string());
    law!(shown == text, "{}: displays as {:?} instead of {:?}", what, clip(&shown), clip(&text));
    // put together from its own pieces, it is the same
    let again = rt::must("BreakableString::add", || {
        let whole = b.components.iter().fold(BreakableString::new(b.span), |x, c| x.add(c.clone()));
        let parts = b.components.iter().fold(BreakableString::new((b.span.start, b.span.end)), |x, c| match c {
            BreakableStringComponent::String(s) => x.add_string(s.span, s.content.clone()),
            BreakableStringComponent::Comment(s) => x.add_comment(s.span, s.content.clone()),
        });
        (whole == *b, parts == *b)
    });
    law!(again == (true, true), "{}: put together again from its pieces, it differs: {:?}", what, again);
}

fn expr(d: &Dockerfile, what: &str, e: &ShellOrExecExpr, lo: usize, hi: usize) {
    match e {
        ShellOrExecExpr::Shell(b) => breakable(d, what, b, lo, hi),
        ShellOrExecExpr::Exec(a) => {
            inside(d, what, &a.span, lo, hi);
            let t = &d.content[a.span.start..a.span.end];
            law!(t.starts_with('[') && t.ends_with(']'), "{}: an exec array at {:?}", what, clip(t));
            let mut pos = a.span.start;
            for s in &a.elements {
                pos = field(d, what, s, pos, a.span.end);
            }
            let v = rt::must("as_str_vec", || a.as_str_vec());
            law!(v.iter().eq(a.elements.iter().map(|e| &e.content)), "{}: as_str_vec has {:?}", what, v.len());
        }
    }
}

/// an instruction can be had as its own kind and as no other
fn typed_law(what: &str, k: &str, i: &Instruction) {
    use std::convert::TryFrom;
    macro_rules! kind {
        ($name:expr, $as:ident, $into:ident, $t:ident) => {
            kind!($name, $as, $into, $t, <&$t>::try_from(i));
        };
        ($name:expr, $as:ident, $into:ident, $t:ident, $try:expr) => {
            let a = rt::must("as", || i.$as());
            law!(a.is_some() == (k == $name), "{}: {} gives {:?}", what, stringify!($as), a.is_some());
            law!(a.is_none() || a.map(|a| a.span) == Some(i.span()), "{}: {} is another instruction", what, stringify!($as));
            let c = i.clone();
            let o = rt::must("into", move || c.$into());
            law!(o.as_ref() == a, "{}: {} and {} differ", what, stringify!($into), stringify!($as));
            let t = rt::must("try_from", || $try.map(|t| t.clone()));
            match t {
                Ok(t) => law!(Some(&t) == a, "{}: converts to {}", what, stringify!($t)),
                Err(Error::ConversionError { from, to }) => {
                    law!(a.is_none(), "{}: does not convert to {}", what, stringify!($t));
                    law!(to.contains($name) && from.contains(k), "{}: not convertible {} to {:?}", what, clip(&from), to);
                }
                Err(e) => law!(false, "{}: conversion to {}: {}", what, stringify!($t), e),
            }
        };
    }
    kind!("From", as_from, into_from, FromInstruction);
    kind!("Arg", as_arg, into_arg, ArgInstruction);
    kind!("Label", as_label, into_label, LabelInstruction);
    kind!("Run", as_run, into_run, RunInstruction);
    kind!("Entrypoint", as_entrypoint, into_entrypoint, EntrypointInstruction, EntrypointInstruction::try_from(i.clone()));
    kind!("Cmd", as_cmd, into_cmd, CmdInstruction);
    kind!("Copy", as_copy, into_copy, CopyInstruction);
    kind!("Env", as_env, into_env, EnvInstruction);
    kind!("Misc", as_misc, into_misc, MiscInstruction);
    macro_rules! forms {
        ($x:expr) => {
            let x = $x;
            let (s, e) = rt::must("as_shell/as_exec", || (x.as_shell(), x.as_exec()));
            match &x.expr {
                ShellOrExecExpr::Shell(b) => law!(s == Some(b) && e.is_none(), "{}: is a shell command", what),
                ShellOrExecExpr::Exec(v) => law!(e == Some(v) && s.is_none(), "{}: is an exec command", what),
            }
            let (a, b) = (x.clone(), x.clone());
            let (s2, e2) = rt::must("into_shell/into_exec", move || (a.into_shell(), b.into_exec()));
            law!(s2.as_ref() == s && e2.as_ref() == e, "{}: into_shell/into_exec differ from as_shell/as_exec", what);
            let (a, b, c) = (&x.expr, x.expr.clone(), x.expr.clone());
            law!(a.as_shell() == s && a.as_exec() == e && b.into_shell().as_ref() == s && c.into_exec().as_ref() == e, "{}: the expression's views differ", what);
        };
    }
    match i {
        Instruction::Run(x) => {
            forms!(x);
        }
        Instruction::Cmd(x) => {
            forms!(x);
        }
        Instruction::Entrypoint(x) => {
            forms!(x);
        }
        _ => {}
    }
}

pub fn audit(d: &Dockerfile) {
    let text = &d.content;
    let len = text.len();
    let mut end = 0;
    let mut froms = 0;
    let mut globals: Vec<&ArgInstruction> = vec![];
    for (n, i) in d.instructions.iter().enumerate() {
        let k = kind_of(i);
        let what = format!("instruction {} ({})", n, k);
        let s = rt::must("span", || i.span());
        inside(d, &what, &s, end, len);
        law!(s.start < s.end, "{} is empty", what);
        // between two instructions: a line break, and nothing but blanks and comments
        let gap = &text[end..s.start];
        gap_law(gap, n == 0, false, &what);
        let (lo, hi) = (s.start, s.end);
        let body = &text[lo..hi];
        if k != "Misc" && k != "Other" {
            law!(
                body.len() >= k.len() && body.as_bytes()[..k.len()].eq_ignore_ascii_case(k.as_bytes()),
                "{} points at {:?}",
                what,
                clip(body)
            );
        }
        match i {
            Instruction::From(f) => {
                law!(f.index == froms, "{}: stage number {} instead of {}", what, f.index, froms);
                froms += 1;
                let mut pos = lo;
                for fl in &f.flags {
                    inside(d, &what, &fl.span, pos, hi);
                    let e = field(d, &what, &fl.name, fl.span.start, fl.span.end);
                    field(d, &what, &fl.value, e, fl.span.end);
                    pos = fl.span.end;
                }
                pos = field(d, &what, &f.image, pos, hi);
                if let Some(a) = &f.alias {
                    field(d, &what, a, pos, hi);
                }
                let shown = rt::must("Display", || f.image_parsed.to_string());
                law!(shown == f.image.content, "{}: image {:?} is understood as {:?}", what, f.image.content, shown);
                let again = rt::must("ImageRef::parse", || ImageRef::parse(&f.image.content));
                law!(image_ref(&again) == image_ref(&f.image_parsed), "{}: image parts differ", what);
                parts_law(&what, &f.image.content, &f.image_parsed);
                resolve_law(d, &what, f);
            }
            Instruction::Arg(a) => {
                if froms == 0 {
                    globals.push(a);
                }
                let e = field(d, &what, &a.name, lo, hi);
                if let Some(v) = &a.value {
                    field(d, &what, v, e, hi);
                }
            }
            Instruction::Label(l) => {
                let mut pos = lo;
                for x in &l.labels {
                    inside(d, &what, &x.span, pos, hi);
                    let e = field(d, &what, &x.name, x.span.start, x.span.end);
                    field(d, &what, &x.value, e, x.span.end);
                    pos = x.span.end;
                }
            }
            Instruction::Run(r) => expr(d, &what, &r.expr, lo, hi),
            Instruction::Entrypoint(r) => expr(d, &what, &r.expr, lo, hi),
            Instruction::Cmd(r) => expr(d, &what, &r.expr, lo, hi),
            Instruction::Copy(c) => {
                let mut pos = lo;
                for fl in &c.flags {
                    inside(d, &what, &fl.span, pos, hi);
                    let e = field(d, &what, &fl.name, fl.span.start, fl.span.end);
                    field(d, &what, &fl.value, e, fl.span.end);
                    pos = fl.span.end;
                }
                law!(!c.sources.is_empty(), "{} has no source", what);
                for x in &c.sources {
                    pos = field(d, &what, x, pos, hi);
                }
                field(d, &what, &c.destination, pos, hi);
            }
            Instruction::Env(e) => {
                let mut pos = lo;
                for x in &e.vars {
                    inside(d, &what, &x.span, pos, hi);
                    let q = field(d, &what, &x.key, x.span.start, x.span.end);
                    breakable(d, &what, &x.value, q, x.span.end);
                    pos = x.span.end;
                }
            }
            Instruction::Misc(m) => {
                let e = field(d, &what, &m.instruction, lo, hi);
                breakable(d, &what, &m.arguments, e, hi);
                law!(m.instruction.span.start == lo, "{}: the keyword is not at its start", what);
            }
            #[allow(unreachable_patterns)]
            _ => {}
        }
        typed_law(&what, k, i);
        // line numbers
        let (line, rel) = rt::must("relative_span", || s.relative_span(d));
        let before = &text[..lo];
        let want = before.bytes().filter(|b| *b == b'\n').count();
        let col = lo - before.rfind('\n').map(|p| p + 1).unwrap_or(0);
        law!(
            line == want && rel.start == col && rel.end == col + (hi - lo),
            "{}: reported on line {} at {}..{}, it is on line {} at {}..{}",
            what, line, rel.start, rel.end, want, col, col + (hi - lo)
        );
        end = hi;
    }
    gap_law(&text[end..], d.instructions.is_empty(), true, "the end of the file");

    // ---- global arguments
    law!(
        globals.len() == d.global_args.len()
            && globals.iter().zip(d.global_args.iter()).all(|(a, b)| **a == *b),
        "{} ARGs precede the first FROM, {} are reported as global (or in another order)",
        globals.len(),
        d.global_args.len()
    );
    let mut names: Vec<&str> = globals.iter().map(|g| g.name.content.as_str()).collect();
    names.push("no-such-name");
    for n in names.iter().take(20) {
        let got = rt::must("get_global_arg", || d.get_global_arg(n).map(|a| a.span));
        let want = d
            .instructions
            .iter()
            .take_while(|i| kind_of(i) != "From")
            .filter_map(|i| match i {
                Instruction::Arg(a) if a.name.content == *n => Some(a.span),
                _ => None,
            })
            .next();
        law!(got == want, "get_global_arg({:?}) gives {:?} instead of {:?}", n, got, want);
    }

    stages_law(d, froms);

    // ---- edits land where the spans say
    let ns = nodes(d);
    let mut sp = rt::must("splicer", || d.splicer());
    law!(sp.content == *text, "a splicer does not start from the document's text");
    let mut done = 0;
    let mut covered: Vec<(usize, usize)> = vec![];
    for x in ns.iter().filter(|x| x.s != NOPOS && x.s < x.e) {
        // leaves only: what has been written back once is not written again
        if covered.iter().any(|c| !(x.e <= c.0 || c.1 <= x.s)) || ns.iter().any(|y| y.s != NOPOS && y.s < y.e && (x.s, x.e) != (y.s, y.e) && x.s <= y.s && y.e <= x.e) {
            continue;
        }
        covered.push((x.s, x.e));
        let own = text[x.s..x.e].to_string();
        rt::must("splice", || sp.splice(&Span::new(x.s, x.e), &own));
        done += 1;
        if done > 60 {
            break;
        }
    }
    law!(sp.content == *text, "writing every field back unchanged changed the text");
    rt::stat("probe.audited-fields", ns.len() as u64);
}

fn gap_law(gap: &str, first: bool, last: bool, what: &str) {
    // a line ends at \n, \r\n or \r
    let norm = gap.replace("\r\n", "\n").replace('\r', "\n");
    let lines: Vec<&str> = norm.split('\n').collect();
    let n = lines.len();
    law!(first || last || n > 1, "no line break before {}", what);
    for (i, l) in lines.iter().enumerate() {
        let t = l.trim_matches([' ', '\t']);
        // the rest of an instruction's own line, and the indentation of the next
        let edge = (i == 0 && !first) || (i + 1 == n && !last);
        law!(
            t.is_empty() || (!edge && t.starts_with('#')),
            "{:?}, before {}, belongs to no instruction",
            clip(l),
            what
        );
    }
}

fn stages_law(d: &Dockerfile, froms: usize) {
    let st = rt::must("stages", || d.stages());
    law!(st.stages.len() == froms, "{} FROMs but {} stages", froms, st.stages.len());
    let mut at = d.instructions.iter().position(|i| kind_of(i) == "From").unwrap_or(d.instructions.len());
    let mut seen: Vec<Option<String>> = vec![];
    let mut roots: Vec<String> = vec![];
    let show = |p: &StageParent| match p {
        StageParent::Scratch => "scratch".to_string(),
        StageParent::Stage(i) => format!("stage {}", i),
        StageParent::Image(i) => format!("image {}", image_ref(i)),
    };
    for (k, s) in st.stages.iter().enumerate() {
        law!(s.index == k, "stage {} calls itself {}", k, s.index);
        law!(!s.instructions.is_empty(), "stage {} is empty", k);
        for (j, i) in s.instructions.iter().enumerate() {
            law!(at < d.instructions.len() && std::ptr::eq(*i, &d.instructions[at]), "stage {}: instruction {} is not instruction {} of the file", k, j, at);
            law!((kind_of(i) == "From") == (j == 0), "stage {}: a FROM at position {}", k, j);
            at += 1;
        }
        if let Instruction::From(f) = s.instructions[0] {
            let low = f.image.content.to_ascii_lowercase();
            let name = f.alias.as_ref().map(|a| a.content.to_ascii_lowercase());
            law!(s.name == name, "stage {} is named {:?} instead of {:?}", k, s.name, name);
            let earlier = seen.iter().position(|n| n.as_deref() == Some(low.as_str()));
            let want = if low == "scratch" {
                "scratch".to_string()
            } else if let Some(e) = earlier {
                format!("stage {}", e)
            } else {
                format!("image {}", image_ref(&f.image_parsed))
            };
            law!(show(&s.parent) == want, "stage {}: parent {} instead of {}", k, show(&s.parent), want);
            let root = match earlier {
                Some(e) if low != "scratch" => roots[e].clone(),
                _ => want.clone(),
            };
            law!(show(&s.root) == root, "stage {}: root {} instead of {}", k, show(&s.root), root);
            roots.push(root);
            seen.push(name);
        }
        let by = rt::must("Stages::get", || st.get(&k.to_string()).map(|x| x.index));
        law!(by == Some(k), "stage {} is not found by its number", k);
        let ix = rt::must("Stages[]", || st[k].index);
        law!(ix == k, "stages[{}] is stage {}", k, ix);
        if let Some(n) = &s.name {
            let first = seen.iter().position(|x| x.as_ref() == Some(n));
            let by = rt::must("Stages::get_by_name", || st.get_by_name(n).map(|x| x.index));
            let up = rt::must("Stages::get_by_name", || st.get_by_name(&n.to_ascii_uppercase()).map(|x| x.index));
            law!(by == first && up == first, "stage {:?} is found as {:?}/{:?} instead of {:?}", n, by, up, first);
        }
        for (j, i) in s.instructions.iter().enumerate() {
            if let Instruction::Arg(a) = i {
                let want = s.instructions.iter().position(|x| matches!(x, Instruction::Arg(b) if b.name.content == a.name.content));
                let got = rt::must("arg_index", || s.arg_index(&a.name.content));
                law!(got == want, "stage {}: ARG {} at {} is found at {:?} instead of {:?}", k, a.name.content, j, got, want);
            }
        }
    }
    law!(at == d.instructions.len(), "{} instructions after the first FROM are in no stage", d.instructions.len() - at.min(d.instructions.len()));
    let none = rt::must("Stages::get", || st.get(&froms.to_string()).is_some());
    law!(!none, "a stage beyond the last is found");
    let it: Vec<usize> = rt::must("iter_stages", || d.iter_stages().map(|s| s.index).collect());
    law!(it.len() == froms && it.iter().enumerate().all(|(a, b)| a == *b), "iter_stages yields {:?}", it);
}
