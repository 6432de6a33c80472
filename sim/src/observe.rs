//! Projects what the library reports onto the same flat list of nodes the
//! generator predicts, and onto a canonical text for comparing two outcomes.

use crate::docgen::{stage_node, Node, NOPOS};
use crate::rng::hash_bytes;
use crate::rt;
use dockerfile_parser::*;

fn node(v: &mut Vec<Node>, path: String, s: &Span, val: &str) {
    v.push(Node { path, s: s.start, e: s.end, val: val.to_string() });
}
fn nopos(v: &mut Vec<Node>, path: String, val: String) {
    v.push(Node { path, s: NOPOS, e: NOPOS, val });
}

fn breakable(v: &mut Vec<Node>, pre: &str, b: &BreakableString) {
    node(v, pre.to_string(), &b.span, "");
    for (j, c) in b.components.iter().enumerate() {
        match c {
            BreakableStringComponent::String(s) => {
                node(v, format!("{}.part[{}]", pre, j), &s.span, &s.content)
            }
            BreakableStringComponent::Comment(s) => {
                node(v, format!("{}.part[{}]#", pre, j), &s.span, &s.content)
            }
        }
    }
}

fn expr(v: &mut Vec<Node>, pre: &str, e: &ShellOrExecExpr) {
    match e {
        ShellOrExecExpr::Shell(b) => {
            breakable(v, &format!("{}.shell", pre), b);
            nopos(v, format!("{}.text", pre), rt::must("Display", || b.to_string()));
        }
        ShellOrExecExpr::Exec(a) => {
            node(v, format!("{}.exec", pre), &a.span, "");
            for (j, s) in a.elements.iter().enumerate() {
                node(v, format!("{}.exec.el[{}]", pre, j), &s.span, &s.content);
            }
        }
    }
}

pub fn image_ref(i: &ImageRef) -> String {
    let o = |s: &Option<String>| s.clone().unwrap_or_else(|| "-".into());
    format!("{}|{}|{}|{}", o(&i.registry), i.image, o(&i.tag), o(&i.hash))
}

fn arg(v: &mut Vec<Node>, pre: &str, a: &ArgInstruction) {
    node(v, pre.to_string(), &a.span, "");
    node(v, format!("{}.name", pre), &a.name.span, &a.name.content);
    if let Some(x) = &a.value {
        node(v, format!("{}.value", pre), &x.span, &x.content);
    }
}

fn parent(p: &StageParent) -> String {
    match p {
        StageParent::Scratch => "scratch".into(),
        StageParent::Stage(i) => format!("stage {}", i),
        StageParent::Image(i) => format!("image {}", rt::must("Display", || i.to_string())),
    }
}

pub fn kind_of(i: &Instruction) -> &'static str {
    match i {
        Instruction::From(_) => "From",
        Instruction::Arg(_) => "Arg",
        Instruction::Label(_) => "Label",
        Instruction::Run(_) => "Run",
        Instruction::Entrypoint(_) => "Entrypoint",
        Instruction::Cmd(_) => "Cmd",
        Instruction::Copy(_) => "Copy",
        Instruction::Env(_) => "Env",
        Instruction::Misc(_) => "Misc",
        #[allow(unreachable_patterns)]
        _ => "Other",
    }
}

/// nodes of one instruction, paths prefixed with its position and kind
pub fn instruction(v: &mut Vec<Node>, n: usize, i: &Instruction) {
    let pre = format!("{:06}.{}", n, kind_of(i));
    match i {
        Instruction::From(f) => {
            node(v, pre.clone(), &f.span, "");
            for (j, fl) in f.flags.iter().enumerate() {
                node(v, format!("{}.flag[{}]", pre, j), &fl.span, "");
                node(v, format!("{}.flag[{}].name", pre, j), &fl.name.span, &fl.name.content);
                node(v, format!("{}.flag[{}].value", pre, j), &fl.value.span, &fl.value.content);
            }
            node(v, format!("{}.image", pre), &f.image.span, &f.image.content);
            nopos(v, format!("{}.ref", pre), image_ref(&f.image_parsed));
            nopos(v, format!("{}.index", pre), f.index.to_string());
            if let Some(a) = &f.alias {
                node(v, format!("{}.alias", pre), &a.span, &a.content);
            }
        }
        Instruction::Arg(a) => arg(v, &pre, a),
        Instruction::Label(l) => {
            node(v, pre.clone(), &l.span, "");
            for (j, x) in l.labels.iter().enumerate() {
                node(v, format!("{}.label[{}]", pre, j), &x.span, "");
                node(v, format!("{}.label[{}].name", pre, j), &x.name.span, &x.name.content);
                node(v, format!("{}.label[{}].value", pre, j), &x.value.span, &x.value.content);
            }
        }
        Instruction::Run(r) => {
            node(v, pre.clone(), &r.span, "");
            expr(v, &pre, &r.expr);
        }
        Instruction::Entrypoint(r) => {
            node(v, pre.clone(), &r.span, "");
            expr(v, &pre, &r.expr);
        }
        Instruction::Cmd(r) => {
            node(v, pre.clone(), &r.span, "");
            expr(v, &pre, &r.expr);
        }
        Instruction::Copy(c) => {
            node(v, pre.clone(), &c.span, "");
            for (j, fl) in c.flags.iter().enumerate() {
                node(v, format!("{}.flag[{}]", pre, j), &fl.span, "");
                node(v, format!("{}.flag[{}].name", pre, j), &fl.name.span, &fl.name.content);
                node(v, format!("{}.flag[{}].value", pre, j), &fl.value.span, &fl.value.content);
            }
            for (j, s) in c.sources.iter().enumerate() {
                node(v, format!("{}.src[{}]", pre, j), &s.span, &s.content);
            }
            node(v, format!("{}.dst", pre), &c.destination.span, &c.destination.content);
        }
        Instruction::Env(e) => {
            node(v, pre.clone(), &e.span, "");
            for (j, x) in e.vars.iter().enumerate() {
                node(v, format!("{}.var[{}]", pre, j), &x.span, "");
                node(v, format!("{}.var[{}].key", pre, j), &x.key.span, &x.key.content);
                breakable(v, &format!("{}.var[{}].value", pre, j), &x.value);
            }
        }
        Instruction::Misc(m) => {
            node(v, pre.clone(), &m.span, "");
            node(v, format!("{}.name", pre), &m.instruction.span, &m.instruction.content);
            breakable(v, &format!("{}.args", pre), &m.arguments);
            nopos(v, format!("{}.text", pre), rt::must("Display", || m.arguments.to_string()));
        }
        #[allow(unreachable_patterns)]
        _ => {
            let s = rt::must("span", || i.span());
            node(v, pre, &s, "");
        }
    }
}

/// everything the library reports about a parsed file, sorted by path
pub fn nodes(d: &Dockerfile) -> Vec<Node> {
    let mut v = vec![];
    for (n, i) in d.instructions.iter().enumerate() {
        instruction(&mut v, n, i);
        let s = rt::must("Instruction::span", || i.span());
        let at = v.iter().rposition(|x| x.path.len() > 6 && x.path.as_bytes()[6] == b'.' && !x.path[7..].contains('.'));
        if let Some(k) = at {
            if (v[k].s, v[k].e) != (s.start, s.end) {
                nopos(&mut v, format!("{:06}.span-differs", n), format!("{}..{}", s.start, s.end));
            }
        }
    }
    for (n, a) in d.global_args.iter().enumerate() {
        arg(&mut v, &format!("global{:06}", n), a);
    }
    stages(d, &mut v);
    v.sort();
    v
}

/// naming a stage costs a look at every earlier one; beyond this the questions
/// about stages are left out to keep a run short
const MANY_STAGES: usize = 20_000;

fn too_many_stages(d: &Dockerfile) -> bool {
    let many = d.instructions.iter().filter(|i| matches!(i, Instruction::From(_))).count() > MANY_STAGES;
    if many {
        rt::stat("probe.stage-questions-left-out", 1);
    }
    many
}

/// Work bound for a question about an accepted document. (Substitution has a
/// constant limit of its own on what it may expand, hence the constant.)
pub fn question_budget(d: &Dockerfile) -> u64 {
    let n = d.content.len() as u64;
    20_000_000 + 4_000 * n
}

pub fn stages(d: &Dockerfile, v: &mut Vec<Node>) {
    if too_many_stages(d) {
        return;
    }
    let st = rt::must("stages", || d.stages());
    for (pos, s) in st.stages.iter().enumerate() {
        let idx: Vec<usize> = s
            .instructions
            .iter()
            .map(|i| {
                let p = *i as *const Instruction as usize;
                let b = d.instructions.as_ptr() as usize;
                let sz = std::mem::size_of::<Instruction>();
                if p >= b && p < b + d.instructions.len() * sz {
                    (p - b) / sz
                } else {
                    d.instructions.iter().position(|x| x == *i).unwrap_or(usize::MAX)
                }
            })
            .collect();
        v.push(stage_node(pos, s.index, s.name.as_deref(), &parent(&s.parent), &parent(&s.root), &idx));
    }
    let it = rt::must("iter_stages", || d.iter_stages().map(|s| s.index).collect::<Vec<_>>());
    let st_idx: Vec<usize> = st.stages.iter().map(|s| s.index).collect();
    if it != st_idx {
        nopos(v, "stage-iteration".into(), format!("{:?} != {:?}", it, st_idx));
    }
}

/// queries whose answers must not depend on anything but the document
pub fn queries(d: &Dockerfile) -> String {
    let mut s = String::new();
    let mut names: Vec<String> = vec!["TAG".into(), "nope".into(), "0".into(), "1".into(), "7".into(), String::new()];
    for i in d.instructions.iter().take(400) {
        match i {
            Instruction::From(f) => {
                if let Some(a) = &f.alias {
                    names.push(a.content.to_ascii_uppercase());
                }
                let r = rt::must("resolve_vars_with_context", || f.image_parsed.resolve_vars_with_context(d));
                match r {
                    None => s.push_str("R- "),
                    Some((i, used)) => {
                        let mut u: Vec<String> = used.into_iter().collect();
                        u.sort();
                        s.push_str(&format!("R{} {:?} ", image_ref(&i), u));
                    }
                }
                let r2 = rt::must("resolve_vars", || f.image_parsed.resolve_vars(d));
                s.push_str(&r2.map(|i| image_ref(&i)).unwrap_or_else(|| "-".into()));
            }
            Instruction::Arg(a) => names.push(a.name.content.clone()),
            _ => {}
        }
    }
    let big = d.instructions.len() > 300;
    names.truncate(if big { 8 } else { 40 });
    if too_many_stages(d) {
        names.clear();
    }
    let mut kept = None;
    for n in &names {
        let a = rt::must("get_global_arg", || d.get_global_arg(n).map(|a| (a.span.start, a.span.end)));
        let st = match kept.take() {
            Some(st) if big => st,
            _ => rt::must("stages", || d.stages()),
        };
        let g = rt::must("Stages::get", || st.get(n).map(|x| x.index));
        let b = rt::must("Stages::get_by_name", || st.get_by_name(n).map(|x| x.index));
        let ai: Vec<Option<usize>> =
            rt::must("arg_index", || st.stages.iter().take(50).map(|x| x.arg_index(n)).collect());
        s.push_str(&format!("{} {:?} {:?} {:?} {:?};", n, a, g, b, ai));
        kept = Some(st);
    }
    s
}

pub fn err_text(e: &Error) -> String {
    let d = rt::must("Display of the error", || format!("{}", e));
    let g = rt::must("Debug of the error", || format!("{:?}", e));
    format!("ERR {} // {}", d, g)
}

pub fn err_kind(e: &Error) -> &'static str {
    match e {
        Error::ReadError { .. } => "read",
        Error::ParseError { .. } => "parse",
        Error::GenericParseError { .. } => "generic",
        Error::UnescapeError { .. } => "unescape",
        _ => "other",
    }
}

/// canonical text of an outcome; two equal texts mean equal observable outcomes
pub fn canon(r: &Result<Dockerfile>) -> String {
    match r {
        Err(e) => err_text(e),
        Ok(d) => {
            let mut s = String::new();
            s.push_str(&format!(
                "OK content {} bytes {:016x}\n",
                d.content.len(),
                hash_bytes(7, d.content.as_bytes())
            ));
            for n in nodes(d) {
                push_node(&mut s, &n);
            }
            s.push_str(&queries(d));
            s
        }
    }
}

pub fn push_node(s: &mut String, n: &Node) {
    if n.s == NOPOS {
        s.push_str(&format!("{} = {:?}\n", n.path, n.val));
    } else {
        s.push_str(&format!("{} [{}..{}] {:?}\n", n.path, n.s, n.e, n.val));
    }
}

pub fn show(n: &Node) -> String {
    let mut s = String::new();
    push_node(&mut s, n);
    s.trim_end().chars().take(300).collect()
}

/// first difference between two node lists
pub fn diff(want: &[Node], got: &[Node]) -> Option<String> {
    let mut i = 0;
    loop {
        match (want.get(i), got.get(i)) {
            (None, None) => return None,
            (Some(w), Some(g)) if w == g => i += 1,
            (w, g) => {
                return Some(format!(
                    "expected {} but got {}",
                    w.map(show).unwrap_or("nothing".into()),
                    g.map(show).unwrap_or("nothing".into())
                ))
            }
        }
    }
}

pub fn diff_text(want: &str, got: &str) -> String {
    let cut = |s: &str| -> String { s.chars().take(240).collect() };
    for (a, b) in want.lines().zip(got.lines()) {
        if a != b {
            return format!("expected `{}` but got `{}`", cut(a), cut(b));
        }
    }
    format!("{} lines expected, {} lines reported", want.lines().count(), got.lines().count())
}
