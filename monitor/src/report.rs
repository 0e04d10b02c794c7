//! Violations and coverage of a run, written as JSON lines.
use crate::ops::*;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;

pub struct Violation {
    pub tags: Vec<&'static str>,
    pub schema: String,
    pub decl: String,
    pub what: String,
    pub history: Vec<String>,
    pub key: String,
}

pub struct Report {
    pub prop: String,
    /// Keep violations of every property.
    pub all: bool,
    pub violations: Vec<Violation>,
    keys: HashSet<String>,
    /// Violations of other properties, seen in passing.
    pub other: BTreeMap<&'static str, u64>,
    pub events: u64,
    pub relevant: u64,
    pub states: HashSet<u64>,
    pub sigs: HashSet<u64>,
    pub by_kind: BTreeMap<String, u64>,
    pub outcomes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub allocs_in_heap: u64,
    pub schemas: u64,
    /// Cause each error text was first seen for.
    pub texts: BTreeMap<&'static str, &'static str>,
    /// Declaration, operation, result and state, when asked for.
    pub trace: Vec<(String, String, String, String, u32, u32)>,
    pub digest: Vec<(&'static str, u32, u32)>,
}

pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 0x20 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list<I: IntoIterator<Item = S>, S: AsRef<str>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().map(|s| esc(s.as_ref())).collect();
    format!("[{}]", v.join(","))
}

fn map<K: AsRef<str>>(m: &BTreeMap<K, u64>) -> String {
    let v: Vec<String> = m.iter().map(|(k, n)| format!("{}:{}", esc(k.as_ref()), n)).collect();
    format!("{{{}}}", v.join(","))
}

impl Report {
    pub fn new(prop: &str) -> Self {
        Report {
            prop: prop.to_string(),
            all: std::env::var("VP_ALL").is_ok(),
            violations: Vec::new(),
            keys: HashSet::new(),
            other: BTreeMap::new(),
            events: 0,
            relevant: 0,
            states: HashSet::new(),
            sigs: HashSet::new(),
            by_kind: BTreeMap::new(),
            outcomes: BTreeMap::new(),
            samples: Vec::new(),
            allocs_in_heap: 0,
            schemas: 0,
            texts: BTreeMap::new(),
            trace: Vec::new(),
            digest: Vec::new(),
        }
    }

    pub fn violation(&mut self, tags: &[&'static str], d: &Desc, key: &str, what: String, history: Vec<String>) {
        let mut tags = tags.to_vec();
        tags.sort();
        tags.dedup();
        if self.prop != "C15" && !self.all && !tags.iter().any(|t| *t == self.prop) {
            for t in tags {
                *self.other.entry(t).or_insert(0) += 1;
            }
            return;
        }
        let key = format!("{}/{}", d.id, key);
        if self.keys.insert(key.clone()) && self.violations.len() < 40 {
            self.violations.push(Violation {
                tags,
                schema: d.id.to_string(),
                decl: d.decl.to_string(),
                what,
                history,
                key,
            });
        }
    }

    pub fn hang(path: &str, tags: &[&'static str], d: &Desc, key: &str, what: String) {
        let mut f = std::fs::File::create(path).expect("report file");
        writeln!(
            f,
            "{{\"t\":\"hang\",\"tags\":{},\"schema\":{},\"key\":{},\"what\":{},\"decl\":{},\"history\":[]}}",
            list(tags), esc(d.id), esc(&format!("{}/{key}", d.id)), esc(&what), esc(d.decl)
        )
        .unwrap();
    }

    pub fn write(&self, path: &str) {
        let mut f = std::fs::File::create(path).expect("report file");
        for (id, op, out, state, h, k) in &self.trace {
            writeln!(f, "{{\"t\":\"trace\",\"id\":{},\"op\":{},\"out\":{},\"state\":{},\"h\":[{h},{k}]}}", esc(id), esc(op), esc(out), esc(state)).unwrap();
        }
        let mut at = 0;
        while at < self.digest.len() {
            let id = self.digest[at].0;
            let mut text = String::new();
            while at < self.digest.len() && self.digest[at].0 == id {
                if !text.is_empty() {
                    text.push(',');
                }
                text.push_str(&self.digest[at].1.to_string());
                text.push(',');
                text.push_str(&self.digest[at].2.to_string());
                at += 1;
            }
            writeln!(f, "{{\"t\":\"digest\",\"id\":{},\"h\":[{text}]}}", esc(id)).unwrap();
        }
        for v in &self.violations {
            writeln!(
                f,
                "{{\"t\":\"violation\",\"tags\":{},\"schema\":{},\"key\":{},\"what\":{},\"decl\":{},\"history\":{}}}",
                list(&v.tags),
                esc(&v.schema),
                esc(&v.key),
                esc(&v.what),
                esc(&v.decl),
                list(&v.history)
            )
            .unwrap();
        }
        writeln!(
            f,
            "{{\"t\":\"stats\",\"events\":{},\"relevant\":{},\"states\":{},\"distinct\":{},\"schemas\":{},\"by_kind\":{},\"outcomes\":{},\"other\":{},\"samples\":{},\"heap_allocs\":{}}}",
            self.events,
            self.relevant,
            self.states.len(),
            self.sigs.len(),
            self.schemas,
            map(&self.by_kind),
            map(&self.outcomes),
            map(&self.other),
            list(&self.samples),
            self.allocs_in_heap
        )
        .unwrap();
    }
}
