//! Parser for proof-unit files.
use crate::die;
use std::path::Path;

pub enum Entry {
    Raw(String),
    Type(TypeEntry),
    Fn(FnEntry),
}

#[derive(Default)]
pub struct TypeEntry {
    pub file: String,
    pub name: String,
    pub drop: Vec<String>,
    pub derive: Vec<String>,
    pub attrs: Vec<String>,
    pub subst: Vec<(String, String)>,
    pub text: bool,
}

#[derive(Default)]
pub struct FnEntry {
    pub file: String,
    pub path: Vec<String>,
    pub rename: Option<String>,
    pub inherent: bool,
    pub keepmut: bool,
    pub novac: bool,
    pub subst_opt: bool,
    pub expect_loops: Option<usize>,
    pub subst: Vec<(String, String)>,
    /// expressions replaced before desugaring
    pub pre: Vec<(String, String)>,
    pub opts: Vec<String>,
    /// contract only (proved in another unit)
    pub ext: Option<String>,
    secs: Vec<(String, String)>,
}

impl FnEntry {
    pub fn sec(&self, k: &str) -> Option<&str> {
        if let Some(i) = k.strip_prefix("at#") {
            let i: usize = i.parse().ok()?;
            let key = self.anchors().get(i)?.3.clone();
            return self.secs.iter().find(|(a, _)| *a == key).map(|(_, b)| b.as_str());
        }
        self.secs.iter().find(|(a, _)| a == k).map(|(_, b)| b.as_str())
    }
    pub fn keys(&self) -> Vec<String> {
        self.secs.iter().map(|(a, _)| a.clone()).collect()
    }
    pub fn opt(&self, o: &str) -> bool {
        self.opts.iter().any(|x| x == o)
    }
    /// (kind, pattern, nth, key) for textual statement anchors `at before|after|in [N] PATTERN`
    pub fn anchors(&self) -> Vec<(String, String, usize, String)> {
        let mut v = vec![];
        for (k, _) in &self.secs {
            if let Some(r) = k.strip_prefix("at ") {
                let mut it = r.splitn(2, ' ');
                let kind = it.next().unwrap().to_string();
                let rest = it.next().unwrap_or("").trim();
                let (nth, pat) = match rest.split_once(' ') {
                    Some((n, p)) if n.starts_with('#') => (n[1..].parse().unwrap_or(0), p.trim()),
                    _ => (0, rest),
                };
                v.push((kind, pat.chars().filter(|c| !c.is_whitespace()).collect(), nth, k.clone()));
            }
        }
        v
    }
}

pub fn parse(p: &Path) -> Vec<Entry> {
    let mut out = vec![];
    parse_into(p, &mut out);
    out
}

fn parse_into(p: &Path, out: &mut Vec<Entry>) {
    let src = std::fs::read_to_string(p).unwrap_or_else(|e| die("UNIT", &format!("{}: {e}", p.display())));
    enum Cur {
        None,
        Raw(String),
        Type(TypeEntry),
        Fn(FnEntry, Option<(String, String)>),
    }
    fn flush(c: Cur, out: &mut Vec<Entry>) {
        match c {
            Cur::None => {}
            Cur::Raw(s) => out.push(Entry::Raw(s)),
            Cur::Type(t) => out.push(Entry::Type(t)),
            Cur::Fn(mut f, s) => {
                if let Some(s) = s {
                    f.secs.push(s);
                }
                out.push(Entry::Fn(f));
            }
        }
    }
    let mut cur = Cur::None;
    for line in src.lines() {
        if let Some(r) = line.strip_prefix("=== ") {
            flush(std::mem::replace(&mut cur, Cur::None), out);
            let w: Vec<&str> = r.split_whitespace().collect();
            match w[0] {
                "raw" => cur = Cur::Raw(String::new()),
                "uses" => {
                    // `=== uses UNIT FN`: the contract of FN as proved in that unit, body not repeated here
                    let mut v = vec![];
                    parse_into(&p.parent().unwrap().join(w[1]), &mut v);
                    let want: Vec<&str> = w[2].split("::").collect();
                    let mut hit = false;
                    for e in v {
                        if let Entry::Fn(mut f) = e {
                            if f.ext.is_none() && !f.secs.iter().any(|(k, _)| k.starts_with("fromclosure ")) && f.path.ends_with(&want.iter().map(|s| s.to_string()).collect::<Vec<_>>()) {
                                f.ext = Some(w[1].to_string());
                                f.novac = true;
                                f.secs.retain(|(k, _)| k == "spec" || k == "ret");
                                f.expect_loops = None;
                                out.push(Entry::Fn(f));
                                hit = true;
                            }
                        }
                    }
                    if !hit {
                        die("UNIT", &format!("{} not in {}", w[2], w[1]));
                    }
                }
                "include" => parse_into(&p.parent().unwrap().join(w[1]), out),
                "type" | "const" => {
                    cur = Cur::Type(TypeEntry { file: w[1].into(), name: w[2].into(), ..Default::default() })
                }
                "fn" => {
                    let mut path = vec![];
                    for s in w[2].split('/') {
                        for q in s.split("::") {
                            path.push(q.to_string());
                        }
                    }
                    cur = Cur::Fn(FnEntry { file: w[1].into(), path, ..Default::default() }, None)
                }
                x => die("UNIT", &format!("unknown entry {x}")),
            }
            continue;
        }
        match &mut cur {
            Cur::None => {}
            Cur::Raw(s) => {
                s.push_str(line);
                s.push('\n');
            }
            Cur::Type(t) => {
                let l = line.trim();
                if let Some(r) = l.strip_prefix("drop ") {
                    t.drop.extend(r.split(',').map(|s| s.trim().to_string()));
                } else if let Some(r) = l.strip_prefix("derive ") {
                    t.derive.extend(r.split(',').map(|s| s.trim().to_string()));
                } else if l == "text" {
                    t.text = true;
                } else if let Some(r) = l.strip_prefix("attr ") {
                    t.attrs.push(r.to_string());
                } else if let Some(r) = l.strip_prefix("subst ") {
                    let (a, b) = r.split_once(" => ").unwrap_or_else(|| die("UNIT", "bad subst"));
                    t.subst.push((a.to_string(), b.to_string()));
                } else if !l.is_empty() && !l.starts_with('#') {
                    die("UNIT", &format!("bad type line: {l}"));
                }
            }
            Cur::Fn(f, s) => {
                if let Some(k) = line.strip_prefix("--- ") {
                    if let Some(x) = s.take() {
                        f.secs.push(x);
                    }
                    let k = k.trim();
                    if let Some(r) = k.strip_prefix("subst ") {
                        let (a, b) = r.split_once(" => ").or_else(|| r.strip_suffix(" =>").map(|a| (a, ""))).unwrap_or_else(|| die("UNIT", "bad subst"));
                        f.subst.push((a.to_string(), b.to_string()));
                    } else if let Some(r) = k.strip_prefix("pre ") {
                        let (a, b) = r.split_once(" => ").unwrap_or_else(|| die("UNIT", "bad pre"));
                        f.pre.push((a.to_string(), b.to_string()));
                    } else if let Some(r) = k.strip_prefix("rename ") {
                        f.rename = Some(r.to_string());
                    } else if let Some(r) = k.strip_prefix("loops ") {
                        f.expect_loops = r.parse().ok();
                    } else if let Some(r) = k.strip_prefix("opt ") {
                        f.opts.extend(r.split_whitespace().map(String::from));
                    } else if k == "novac" {
                        f.novac = true;
                    } else if k == "inherent" {
                        f.inherent = true;
                    } else if let Some(r) = k.strip_prefix("ret ") {
                        f.secs.push(("ret".into(), r.to_string()));
                    } else if let Some(r) = k.strip_prefix("panics ") {
                        f.secs.push(("panics".into(), r.to_string()));
                    } else {
                        *s = Some((k.to_string(), String::new()));
                    }
                } else if let Some((_, t)) = s {
                    t.push_str(line);
                    t.push('\n');
                } else if !line.trim().is_empty() && !line.trim().starts_with('#') {
                    die("UNIT", &format!("text outside a section: {line}"));
                }
            }
        }
    }
    flush(cur, out);
}
