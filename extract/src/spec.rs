//! Parser of the contract files (specs/*.vs).
use std::collections::{BTreeMap, HashMap};

#[derive(Default, Clone, Debug)]
pub struct FnSpec {
    pub assumed: bool,
    pub attr: Option<String>,
    pub ret: Option<String>,
    pub spec: Option<String>,
    pub start: Option<String>,
    pub end: Option<String>,
    pub loops: BTreeMap<usize, String>,
    pub loop_start: BTreeMap<usize, String>,
    pub loop_end: BTreeMap<usize, String>,
    pub loop_after: BTreeMap<usize, String>,
    pub anchors: Vec<(String, bool, String)>,
}
impl FnSpec {
    /// text of everything spliced into the body
    pub fn hints(&self) -> String {
        let mut v: Vec<String> = vec![];
        v.extend(self.start.clone());
        v.extend(self.end.clone());
        for m in [&self.loops, &self.loop_start, &self.loop_end, &self.loop_after] {
            v.extend(m.values().cloned());
        }
        v.extend(self.anchors.iter().map(|a| a.2.clone()));
        v.join("\n")
    }
}
#[derive(Default, Debug)]
pub struct ModSpec {
    pub module: String,
    pub source: String,
    pub prelude: String,
    pub raws: HashMap<String, String>,
    pub fns: BTreeMap<String, FnSpec>,
}

pub fn parse(text: &str, path: &str) -> ModSpec {
    let mut m = ModSpec::default();
    let mut cur: Option<String> = None; // fn
    let mut sect: Option<String> = None;
    let mut top: Option<String> = None; // prelude / raw NAME
    let mut buf = String::new();
    let flush = |m: &mut ModSpec, cur: &Option<String>, sect: &Option<String>, top: &Option<String>, buf: &mut String| {
        let b = std::mem::take(buf);
        if let Some(t) = top {
            if t == "prelude" {
                m.prelude.push_str(&b);
            } else if let Some(n) = t.strip_prefix("raw ") {
                m.raws.insert(n.trim().to_string(), b);
            }
            return;
        }
        if let (Some(c), Some(s)) = (cur, sect) {
            let f = m.fns.get_mut(c).unwrap();
            let w: Vec<&str> = s.split_whitespace().collect();
            match w[0] {
                "attr" => f.attr = Some(b),
                "ret" => f.ret = Some(b.trim().to_string()),
                "spec" => f.spec = Some(b),
                "start" => f.start = Some(b),
                "end" => f.end = Some(b),
                "loop" => {
                    let k: usize = w[1].parse().unwrap();
                    match w.get(2).copied() {
                        Some("start") => f.loop_start.insert(k, b),
                        Some("end") => f.loop_end.insert(k, b),
                        Some("after") => f.loop_after.insert(k, b),
                        _ => f.loops.insert(k, b),
                    };
                }
                "before" => f.anchors.push((s["before".len()..].trim().to_string(), true, b)),
                "after" => f.anchors.push((s["after".len()..].trim().to_string(), false, b)),
                x => panic!("{}: unknown section {}", path, x),
            }
        }
    };
    for l in text.lines() {
        if let Some(r) = l.strip_prefix("#source ") {
            m.source = r.trim().to_string();
        } else if let Some(r) = l.strip_prefix("#module ") {
            m.module = r.trim().to_string();
        } else if let Some(r) = l.strip_prefix("=== ") {
            flush(&mut m, &cur, &sect, &top, &mut buf);
            sect = None;
            cur = None;
            top = None;
            let r = r.trim();
            if let Some(f) = r.strip_prefix("fn ") {
                let mut w = f.split_whitespace();
                let n = w.next().unwrap().to_string();
                let mut fs = FnSpec::default();
                fs.assumed = w.next() == Some("assumed");
                m.fns.insert(n.clone(), fs);
                cur = Some(n);
                // one-line contracts may follow directly
                sect = Some("spec".into());
            } else {
                top = Some(r.to_string());
            }
        } else if let Some(r) = l.strip_prefix("--- ") {
            let empty_spec = sect.as_deref() == Some("spec") && buf.trim().is_empty();
            if !empty_spec {
                flush(&mut m, &cur, &sect, &top, &mut buf);
            }
            buf.clear();
            sect = Some(r.trim().to_string());
        } else {
            buf.push_str(l);
            buf.push('\n');
        }
    }
    flush(&mut m, &cur, &sect, &top, &mut buf);
    m
}
