use std::collections::BTreeMap;

#[derive(Default, Clone, Debug)]
pub struct FnSpec {
    pub path: String,
    pub file: String,
    pub ret: Option<String>,
    pub rename: Option<String>,
    pub spec: String,
    pub body_start: String,
    pub tail: String,
    pub loops: BTreeMap<usize, LoopSpec>,
    pub before: Vec<(String, String)>,
    pub after: Vec<(String, String)>,
    pub nloops: Option<usize>,
    pub attrs: String,
    pub noverus: bool,
    pub nonative: bool,
    pub nofrom: Option<String>,
    pub gsub: Vec<(String, String)>,
    pub sig: Option<String>,
    pub native_sig: Option<String>,
    pub free: bool,
}
#[derive(Default, Clone, Debug)]
pub struct LoopSpec {
    pub inv: String,
    pub iter: Option<String>,
    pub start: String,
    pub end: String,
    pub before: String,
    pub after: String,
}
#[derive(Clone, Debug)]
pub struct TypeSpec {
    pub name: String,
    pub file: String,
    pub vderive: String,
    pub nderive: String,
    pub drop: Vec<String>,
    pub keep: Vec<String>,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Mode {
    Both,
    V,
    N,
}
#[derive(Clone, Debug)]
pub struct Rule {
    pub mode: Mode,
    pub kind: String,
    pub pat: String,
    pub rep: String,
}
#[derive(Default, Debug)]
pub struct Overlay {
    pub fns: Vec<FnSpec>,
    pub types: Vec<TypeSpec>,
    pub consts: Vec<(String, String)>,
    pub rules: Vec<Rule>,
    pub stubs: Vec<String>,
    pub hoist: Vec<String>,
    pub native_async: bool,
}

pub fn parse(s: &str) -> Result<Overlay, String> {
    let mut o = Overlay::default();
    let mut file = String::new();
    let lines: Vec<&str> = s.lines().collect();
    let mut i = 0;
    let mut in_fn = false;
    while i < lines.len() {
        let raw = lines[i];
        let ln = i + 1;
        i += 1;
        let mut t = raw.trim().to_string();
        if t.is_empty() || t.starts_with('#') {
            continue;
        }
        let mut block = None;
        if t.ends_with("<<<") {
            t.truncate(t.len() - 3);
            t = t.trim().to_string();
            let mut b = String::new();
            loop {
                if i >= lines.len() {
                    return Err(format!("line {ln}: unterminated block"));
                }
                if lines[i].trim() == ">>>" {
                    i += 1;
                    break;
                }
                b.push_str(lines[i]);
                b.push('\n');
                i += 1;
            }
            block = Some(b);
        }
        let (cmd, rest) = match t.split_once(char::is_whitespace) {
            Some((c, r)) => (c.to_string(), r.trim().to_string()),
            None => (t.clone(), String::new()),
        };
        let blk = block.unwrap_or_default();
        match cmd.as_str() {
            "file" => {
                file = rest;
                in_fn = false;
            }
            "type" => {
                let mut it = rest.split_whitespace();
                let name = it.next().ok_or("type name")?.to_string();
                let mut ts = TypeSpec {
                    name,
                    file: file.clone(),
                    vderive: String::new(),
                    nderive: "Clone, Debug".into(),
                    drop: vec![],
                    keep: vec![],
                };
                for kv in it {
                    let (k, v) = kv.split_once('=').ok_or("k=v")?;
                    match k {
                        "v" => ts.vderive = v.replace(',', ", "),
                        "n" => ts.nderive = v.replace(',', ", "),
                        "drop" => ts.drop = v.split(',').map(|x| x.to_string()).collect(),
                        "keep" => ts.keep = v.split(',').map(|x| x.to_string()).collect(),
                        _ => return Err(format!("line {ln}: {k}")),
                    }
                }
                o.types.push(ts);
            }
            "const" => {
                for c in rest.split_whitespace() {
                    o.consts.push((c.to_string(), file.clone()));
                }
            }
            "hoist" => {
                for c in rest.split_whitespace() {
                    o.hoist.push(c.to_string());
                }
            }
            "native-async" => o.native_async = true,
            "stub" => {
                for c in rest.split_whitespace() {
                    o.stubs.push(c.to_string());
                }
            }
            "fn" => {
                let mut p = rest.clone();
                let mut rename = None;
                if let Some((a, b)) = rest.split_once(" as ") {
                    p = a.trim().into();
                    rename = Some(b.trim().to_string());
                }
                o.fns.push(FnSpec {
                    path: p,
                    rename,
                    file: file.clone(),
                    ..Default::default()
                });
                in_fn = true;
            }
            "rule" | "vrule" | "nrule" => {
                let (kind, r2) = rest.split_once(char::is_whitespace).ok_or(format!("line {ln}: rule"))?;
                let (pat, rep) = if !blk.is_empty() {
                    (r2.trim().to_string(), blk.trim_end().to_string())
                } else {
                    match r2.split_once("=>") {
                        Some((a, b)) => (a.trim().to_string(), b.trim().to_string()),
                        None => (r2.trim().to_string(), String::new()),
                    }
                };
                o.rules.push(Rule {
                    mode: match cmd.as_str() {
                        "rule" => Mode::Both,
                        "vrule" => Mode::V,
                        _ => Mode::N,
                    },
                    kind: kind.to_string(),
                    pat,
                    rep,
                });
            }
            _ => {
                if !in_fn {
                    return Err(format!("line {ln}: {t}"));
                }
                let f = o.fns.last_mut().unwrap();
                let li = || -> Result<(usize, String), String> {
                    let (a, b) = match rest.split_once(char::is_whitespace) {
                        Some((a, b)) => (a.to_string(), b.trim().to_string()),
                        None => (rest.clone(), String::new()),
                    };
                    Ok((a.parse().map_err(|_| format!("line {ln}: loop index"))?, b))
                };
                match cmd.as_str() {
                    "ret" => f.ret = Some(rest),
                    "spec" => f.spec = blk,
                    "body-start" => f.body_start = blk,
                    "tail" => f.tail = blk,
                    "attrs" => f.attrs = rest,
                    "noverus" => f.noverus = true,
                    "nonative" => f.nonative = true,
                    "free" => f.free = true,
                    "sig" => f.sig = Some(rest),
                    "native-sig" => f.native_sig = Some(rest),
                    "nloops" => f.nloops = Some(rest.parse().map_err(|_| "nloops")?),
                    "loop" => {
                        let (n, it) = li()?;
                        let l = f.loops.entry(n).or_default();
                        l.inv = blk;
                        if !it.is_empty() {
                            l.iter = Some(it);
                        }
                    }
                    "loop-start" => f.loops.entry(li()?.0).or_default().start = blk,
                    "loop-end" => f.loops.entry(li()?.0).or_default().end = blk,
                    "loop-before" => f.loops.entry(li()?.0).or_default().before = blk,
                    "loop-after" => f.loops.entry(li()?.0).or_default().after = blk,
                    "before" => f.before.push((rest, blk)),
                    "after" => f.after.push((rest, blk)),
                    "sub" => {
                        let (a, b) = rest.split_once("=>").ok_or(format!("line {ln}: sub"))?;
                        f.gsub.push((a.trim().into(), b.trim().into()));
                    }
                    _ => return Err(format!("line {ln}: unknown directive {cmd}")),
                }
            }
        }
    }
    Ok(o)
}
