//! Workloads and the online checker.
use crate::model::{Model, to_bits, to_bytes};
use crate::ops::*;
use crate::report::Report;
use crate::rng::{Rng, hash_str};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicPtr, AtomicUsize, Ordering};

pub type Tag = &'static str;

/// Properties an operation is the subject of.
pub fn primary(op: &Op, d: &Desc) -> Vec<Tag> {
    let conv: Tag = if d.arr { "C06" } else { "C05" };
    let mut t: Vec<Tag> = match op.k {
        K::New | K::NewWd | K::Default | K::BNew | K::BNewWd | K::BDefault | K::BBuild => vec!["C04"],
        K::BWith => vec!["C04", "C02"],
        K::BCWith => vec!["C03", "C04"],
        K::From => {
            if op.d {
                vec![conv, "C04"]
            } else {
                vec![conv]
            }
        }
        K::FromTrait | K::IntoTrait | K::Into => vec![conv],
        K::FromSlice | K::CFromSlice => {
            if op.d {
                vec!["C06", "C04"]
            } else {
                vec!["C06"]
            }
        }
        K::IntoSlice | K::CIntoSlice => vec!["C06"],
        K::Get => vec!["C02"],
        K::Set => vec!["C02"],
        K::CSet => vec!["C03"],
        K::InvGet | K::InvertF | K::Invert => vec!["C10"],
        K::GetBit | K::CGetBit | K::GetRange | K::CGetRange => vec!["C08"],
        K::SetBit | K::CSetBit | K::SetRange | K::CSetRange => vec!["C08"],
        K::Debug | K::DebugAlt => vec!["C18"],
        K::ConstBits | K::ConstOff => vec!["C01"],
        K::IgnGet | K::IgnSet => vec!["C17"],
        K::CopyIso => vec!["C04"],
        K::ClearF | K::ClearFDef | K::Write | K::WriteDefaults | K::Clear | K::ClearD => vec!["C09"],
    };
    if uses_defaults(op) {
        t.push("C21");
        t.push("C04");
    }
    t
}

fn uses_defaults(op: &Op) -> bool {
    op.d || matches!(
        op.k,
        K::New | K::Default | K::BNew | K::BDefault | K::ClearD | K::WriteDefaults | K::ClearFDef
    )
}

fn constructs(k: K) -> bool {
    matches!(
        k,
        K::New | K::NewWd | K::Default | K::From | K::FromTrait | K::FromSlice | K::CFromSlice | K::BBuild
    )
}

fn builds(k: K) -> bool {
    matches!(k, K::BNew | K::BNewWd | K::BDefault | K::BWith | K::BCWith)
}

fn mutates(k: K) -> bool {
    matches!(
        k,
        K::Set
            | K::CSet
            | K::ClearF
            | K::ClearFDef
            | K::InvertF
            | K::SetBit
            | K::CSetBit
            | K::SetRange
            | K::CSetRange
            | K::Write
            | K::WriteDefaults
            | K::Clear
            | K::ClearD
            | K::Invert
            | K::IgnSet
            | K::CopyIso
    )
}

/// Whether the adapter of this bitfield has the operation.
pub fn supported(op: &Op, d: &Desc) -> bool {
    let f = d.fields.get(op.f as usize);
    let setter = || f.is_some_and(|f| f.has_setter());
    let getter = || f.is_some_and(|f| f.has_getter());
    match op.k {
        K::New | K::NewWd => d.has(has::NEW),
        K::Default => d.has(has::DEFAULT),
        K::From => d.has(has::FROM_INTO),
        K::FromTrait => d.has(has::TRAITS),
        K::IntoTrait => d.has(has::TRAITS | has::INTO_TRAIT),
        K::FromSlice | K::CFromSlice | K::IntoSlice | K::CIntoSlice => d.arr && d.has(has::FROM_INTO),
        K::Into => d.has(has::FROM_INTO),
        K::BNew | K::BNewWd | K::BDefault | K::BBuild => d.has(has::BUILDER),
        K::BWith | K::BCWith => d.has(has::BUILDER) && f.is_some_and(|f| f.builder()),
        K::Get => getter(),
        K::InvGet => getter() && d.has(has::INVERT),
        K::Set | K::CSet => setter(),
        K::ConstBits | K::ConstOff => f.is_some_and(|f| f.builder()),
        K::ClearF => setter() && d.has(has::CLEAR),
        K::ClearFDef => setter() && d.has(has::CLEAR) && f.is_some_and(|f| f.def.is_some()),
        K::InvertF => setter() && d.has(has::INVERT),
        K::GetBit | K::CGetBit | K::GetRange | K::CGetRange | K::SetBit | K::CSetBit | K::SetRange | K::CSetRange => {
            d.has(has::SETGET)
        }
        K::Write | K::WriteDefaults => d.has(has::WRITE),
        K::Clear | K::ClearD => d.has(has::CLEAR),
        K::Invert => d.has(has::INVERT),
        K::Debug | K::DebugAlt => d.has(has::DEBUG),
        K::IgnGet | K::IgnSet => (op.f as usize) < d.ignored.len(),
        K::CopyIso => d.has(has::COPY),
    }
}

fn squeeze(s: &str) -> String {
    let t: String = s.chars().filter(|c| !c.is_whitespace()).collect();
    t.replace(",}", "}").replace(",]", "]")
}

/// Whether the text of an error names the cause.
fn names(text: &str, cause: &str) -> bool {
    let t = text.to_lowercase();
    let words: &[&str] = match cause {
        "value" => &["value"],
        "write" => &["writ"],
        c => &[c],
    };
    words.iter().any(|w| t.contains(w))
}

pub struct Session<'a> {
    pub d: &'static Desc,
    e: &'a Entry,
    pub m: Model,
    s: Box<dyn Subject>,
    pub rep: &'a mut Report,
    hist: Vec<Op>,
    phase: &'static [Tag],
    dropped: u64,
}

enum Exec {
    Done(Out, u64),
    Panic(String),
}

impl<'a> Session<'a> {
    pub fn new(e: &'a Entry, rep: &'a mut Report) -> Self {
        Session {
            d: e.desc,
            e,
            m: Model::new(e.desc),
            s: (e.make)(),
            rep,
            hist: Vec::new(),
            phase: &[],
            dropped: 0,
        }
    }

    fn exec(&mut self, op: &Op) -> Exec {
        let watch = Watched::new(op, self.d);
        let s = &mut self.s;
        let r = catch_unwind(AssertUnwindSafe(|| {
            let mut ret = Ret::new();
            s.exec(op, &mut ret);
            ret
        }));
        drop(watch);
        match r {
            Ok(r) => Exec::Done(r.out, r.allocs),
            Err(p) => Exec::Panic(
                p.downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default(),
            ),
        }
    }

    fn history(&self) -> Vec<String> {
        let mut h = Vec::new();
        if self.dropped > 0 {
            h.push(format!("... {} earlier operations", self.dropped));
        }
        h.extend(self.hist.iter().map(|o| o.show(self.d)));
        h
    }

    fn fail(&mut self, mut tags: Vec<Tag>, op: &Op, what: String) {
        tags.extend_from_slice(self.phase);
        let key = format!("{:?}/{}", op.k, op.f);
        let h = self.history();
        self.rep.violation(&tags, self.d, &key, what, h);
    }

    fn restart(&mut self) {
        std::mem::forget(std::mem::replace(&mut self.s, (self.e.make)()));
        self.m = Model::new(self.d);
        self.hist.clear();
        self.dropped = 0;
    }

    /// Extra tags for the fields an operation concerns.
    fn field_tags(&self, op: &Op, fields: &[&Fd], t: &mut Vec<Tag>) {
        for f in fields {
            if f.ty.custom() {
                t.push("C20");
            }
            if f.def.is_some() && (uses_defaults(op) || f.reserved) {
                t.push("C21");
                t.push("C04");
            }
            if mutates(op.k) && !f.has_setter() {
                t.push("C07");
            }
        }
    }

    fn touched(&self, op: &Op) -> Vec<&'static Fd> {
        match op.k {
            K::Get | K::InvGet | K::Set | K::CSet | K::ClearF | K::ClearFDef | K::InvertF | K::BWith | K::BCWith => {
                self.d.fields.get(op.f as usize).into_iter().collect()
            }
            K::GetBit | K::CGetBit | K::SetBit | K::CSetBit => {
                if op.off < self.d.nbits {
                    vec![self.m.field_at(op.off)]
                } else {
                    vec![]
                }
            }
            K::GetRange | K::CGetRange | K::SetRange | K::CSetRange => self
                .d
                .fields
                .iter()
                .filter(|f| {
                    let end = op.off as u64 + op.len as u64;
                    (f.off as u64) < end && (op.off as u64) < (f.off + f.bits) as u64
                })
                .collect(),
            _ => vec![],
        }
    }

    fn class(&self, op: &Op, expect: &Out, expect_why: &[&str]) -> String {
        let d = self.d;
        let o = match expect {
            Out::Nothing => "nothing",
            Out::Unit => "unit",
            Out::Val(v) => {
                if v.iter().all(|b| *b == 0) {
                    "zero"
                } else {
                    "value"
                }
            }
            Out::Ok(_) => "ok",
            Out::Err(_) => "err",
            Out::Text(_) => "text",
        };
        let a = match op.k {
            K::Set | K::CSet | K::BWith | K::BCWith => {
                let f = &d.fields[op.f as usize];
                let top = op.v.iter().rposition(|b| *b != 0).map_or(0, |i| i * 8 + 8 - op.v[i].leading_zeros() as usize);
                format!("fits={} width={top}", Model::fits(f, &op.v))
            }
            K::GetBit | K::CGetBit | K::SetBit | K::CSetBit => {
                if op.off < d.nbits {
                    format!("@{}", op.off)
                } else {
                    format!("oob{}", (op.off - d.nbits).min(9))
                }
            }
            K::GetRange | K::CGetRange | K::SetRange | K::CSetRange => {
                let inb = op.off < d.nbits && op.len as u64 + op.off as u64 <= d.nbits as u64;
                let wr = op.off.checked_add(op.len).is_none();
                if inb { format!("{}+{}", op.off, op.len) } else { format!("oob wrap={wr} off_in={}", op.off < d.nbits) }
            }
            K::FromSlice | K::CFromSlice => format!("len={} {}{}", op.v.len(), op.e, op.d),
            K::IntoSlice | K::CIntoSlice => format!("len={} {}", op.len, op.e),
            K::From | K::Write | K::Into | K::FromTrait => {
                format!("{}{} ones={}", op.e, op.d, op.v.iter().map(|b| b.count_ones()).sum::<u32>())
            }
            K::Get | K::InvGet | K::InvertF | K::ClearF => {
                let f = &d.fields[op.f as usize];
                let r = Model::raw(&self.m.bits, f);
                format!("ones={} top={}", r.iter().filter(|b| **b).count(), r[r.len() - 1])
            }
            _ => String::new(),
        };
        let w = if o == "err" && self.rep.prop == "C25" { format!(" {}", expect_why.join("/")) } else { String::new() };
        format!("{} {:?} f{} {}{w} -> {}", d.id, op.k, op.f, a, o)
    }

    fn relevant(&self, op: &Op) -> bool {
        let p = self.rep.prop.as_str();
        match p {
            "C15" | "C16" => true,
            "C12" => true,
            "C07" => self.d.fields.iter().any(|f| !f.has_setter() || !f.readable()) && (mutates(op.k) || matches!(op.k, K::GetBit | K::CGetBit | K::GetRange | K::CGetRange)),
            "C17" => !self.d.ignored.is_empty(),
            "C20" => self.touched(op).iter().any(|f| f.ty.custom()) || (constructs(op.k) && self.d.fields.iter().any(|f| f.ty.custom())),
            "C25" => matches!(op.k, K::CSet | K::BCWith | K::CFromSlice | K::CIntoSlice | K::CGetBit | K::CSetBit | K::CGetRange | K::CSetRange),
            "C01" => matches!(op.k, K::Get | K::ConstBits | K::ConstOff | K::Set),
            _ => primary(op, self.d).contains(&p),
        }
    }

    /// Runs one operation on the real code and on the model and compares.
    /// Returns the real output.
    pub fn step(&mut self, op: Op) -> Option<Out> {
        if !supported(&op, self.d) {
            return None;
        }
        if !self.m.live && !constructs(op.k) && !builds(op.k) && !matches!(op.k, K::ConstBits | K::ConstOff) {
            return None;
        }
        if self.m.builder.is_none() && matches!(op.k, K::BWith | K::BCWith | K::BBuild) {
            return None;
        }
        if constructs(op.k) || matches!(op.k, K::BNew | K::BNewWd | K::BDefault) {
            if constructs(op.k) && op.k != K::BBuild && self.m.builder.is_none() {
                self.hist.clear();
                self.dropped = 0;
            }
        }
        if self.hist.len() >= 400 {
            self.hist.drain(..200);
            self.dropped += 200;
        }
        let mut expect = self.m.clone();
        let want = expect.step(&op);
        let class = self.class(&op, &want, expect.why);
        self.hist.push(op.clone());
        self.rep.events += 1;
        let relevant = self.relevant(&op);
        if relevant {
            self.rep.relevant += 1;
            if self.rep.sigs.insert(hash_str(&class)) && self.rep.samples.len() < 12 && self.rep.sigs.len() % 97 == 1 {
                self.rep.samples.push(format!("{} => {}", class, show(&want)));
            }
            *self.rep.by_kind.entry(format!("{:?}", op.k)).or_insert(0) += 1;
            let mut o = class.rsplit("-> ").next().unwrap_or("").to_string();
            if self.rep.prop == "C25" && o == "err" {
                o = format!("err about {}", expect.why.join("/"));
            }
            *self.rep.outcomes.entry(format!("{:?}->{o}", op.k)).or_insert(0) += 1;
        }
        let before = self.m.bits.clone();
        let got = match self.exec(&op) {
            Exec::Done(o, allocs) => {
                if allocs > 0 {
                    if self.d.heap {
                        self.rep.allocs_in_heap += allocs;
                    } else if !matches!(op.k, K::Debug | K::DebugAlt) {
                        self.fail(vec!["C16"], &op, format!("{} allocated {allocs} times", op.show(self.d)));
                    }
                }
                o
            }
            Exec::Panic(p) => {
                let mut t = primary(&op, self.d);
                t.push("C16");
                let touched = self.touched(&op);
                self.field_tags(&op, &touched, &mut t);
                self.fail(t, &op, format!("{} panicked: {p}; expected {}", op.show(self.d), show(&want)));
                self.restart();
                return None;
            }
        };
        let text = noted();
        self.m = expect;
        if let (Out::Err(_), Out::Err(_), Some(text)) = (&want, &got, text) {
            let why = self.m.why;
            let bad = if !why.iter().any(|w| names(text, w)) {
                Some(format!("which does not name the cause ({})", why.join(" or ")))
            } else if why.len() == 1 {
                let first = *self.rep.texts.entry(text).or_insert(why[0]);
                (first != why[0]).then(|| format!("the text that another operation used for a bad {first}, though the cause is the {}", why[0]))
            } else {
                None
            };
            if let Some(bad) = bad {
                self.fail(vec!["C25"], &op, format!("{} failed with {text:?}, {bad}", op.show(self.d)));
            }
        }
        let same = match (&want, &got) {
            (Out::Text(a), Out::Text(b)) if op.k == K::DebugAlt => squeeze(a) == squeeze(b) && b.contains('\n') == a.contains(':'),
            (a, b) => a == b,
        };
        if !same {
            let mut t = primary(&op, self.d);
            let touched = self.touched(&op);
            self.field_tags(&op, &touched, &mut t);
            if matches!(op.k, K::GetBit | K::CGetBit | K::GetRange | K::CGetRange) && touched.iter().any(|f| !f.readable()) {
                t.push("C07");
            }
            if matches!(op.k, K::Get | K::InvGet) && touched.iter().any(|f| f.ty.custom()) {
                t.push("C20");
            }
            self.fail(t, &op, format!("{} returned {}; expected {}", op.show(self.d), show(&got), show(&want)));
            if matches!(op.k, K::BCWith | K::CFromSlice) {
                // The real and model lifecycles may have diverged.
                self.restart();
                return Some(got);
            }
        }
        if constructs(op.k) || mutates(op.k) {
            self.observe(&op, &before);
        }
        Some(got)
    }

    /// Reads the whole state back through the public interface.
    fn observe(&mut self, op: &Op, before: &[bool]) {
        let d = self.d;
        let mut getter_ok = vec![None; d.fields.len()];
        let mut bad_getters: Vec<(usize, Out, Out)> = Vec::new();
        for (i, f) in d.fields.iter().enumerate() {
            if !f.has_getter() {
                continue;
            }
            let want = Out::Val(Model::field_value(f, &Model::raw(&self.m.bits, f)));
            match self.exec(&Op::new(K::Get).f(i)) {
                Exec::Done(got, allocs) => {
                    if allocs > 0 && !d.heap {
                        self.fail(vec!["C16"], &Op::new(K::Get).f(i), format!("getter of {} allocated", f.name));
                    }
                    getter_ok[i] = Some(got == want);
                    if got != want {
                        bad_getters.push((i, got, want));
                    }
                }
                Exec::Panic(p) => {
                    let g = Op::new(K::Get).f(i);
                    self.fail(vec!["C02", "C16"], &g, format!("getter of {} panicked: {p}", f.name));
                    self.restart();
                    return;
                }
            }
            self.rep.events += 1;
        }
        let mut h = 0u64;
        for (i, b) in self.m.bits.iter().enumerate() {
            if *b {
                h = h.rotate_left(7) ^ (i as u64 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15);
            }
        }
        self.rep.states.insert(h ^ hash_str(d.id));
        let mut into_diff: Vec<usize> = Vec::new();
        let mut have_into = false;
        if d.has(has::FROM_INTO) {
            let io = Op::new(K::Into).e(if d.arr { 1 } else { 2 });
            match self.exec(&io) {
                Exec::Done(Out::Val(v), _) => {
                    have_into = true;
                    let got = to_bits(&v, d.nbits);
                    into_diff = (0..d.nbits as usize).filter(|i| got[*i] != self.m.bits[*i]).collect();
                    if !into_diff.is_empty() {
                        let bad: Vec<usize> = d
                            .fields
                            .iter()
                            .enumerate()
                            .filter(|(_, f)| into_diff.iter().any(|i| f.off as usize <= *i && *i < (f.off + f.bits) as usize))
                            .map(|(i, _)| i)
                            .collect();
                        let mut t: Vec<Tag> = Vec::new();
                        // A field whose getter agrees with the model was not changed;
                        // the conversion itself is then what's wrong.
                        let (conv, real): (Vec<usize>, Vec<usize>) = bad.iter().copied().partition(|i| getter_ok[*i] == Some(true));
                        if !conv.is_empty() {
                            t.extend(primary(&io, d));
                        }
                        if !real.is_empty() {
                            t.extend(primary(op, d));
                            let fs: Vec<&Fd> = real.iter().map(|i| &d.fields[*i]).collect();
                            self.field_tags(op, &fs, &mut t);
                            if matches!(op.k, K::Set | K::CSet | K::BBuild) {
                                t.push("C02");
                            }
                            if matches!(op.k, K::BBuild) {
                                t.push("C04");
                            }
                        }
                        let names: Vec<&str> = bad.iter().map(|i| d.fields[*i].name).collect();
                        let what = format!(
                            "after {} the state (least significant byte first) is {} but should be {} (was {}); differing fields: {}",
                            op.show(d),
                            hex(&v),
                            hex(&to_bytes(&self.m.bits)),
                            hex(&to_bytes(before)),
                            names.join(", ")
                        );
                        self.fail(t, op, what);
                        self.m.bits = got;
                    }
                }
                Exec::Done(..) => {}
                Exec::Panic(p) => {
                    let mut t = primary(&io, d);
                    t.push("C16");
                    self.fail(t, &io, format!("reading the state back panicked: {p}"));
                    self.restart();
                    return;
                }
            }
        }
        for (i, got, want) in bad_getters {
            let f = &d.fields[i];
            // When the stored bits are wrong, that has been reported already.
            let stored_wrong = into_diff.iter().any(|b| f.off as usize <= *b && *b < (f.off + f.bits) as usize);
            let mut t: Vec<Tag> = Vec::new();
            if have_into && !stored_wrong {
                t.push("C02");
                t.push("C01");
                if f.ty.custom() {
                    t.push("C20");
                }
            } else if !have_into {
                t.extend(primary(op, d));
                t.push("C02");
                self.field_tags(op, &[f], &mut t);
            } else {
                continue;
            }
            let what = format!("after {} the getter of {} returned {}; expected {}", op.show(d), f.name, show(&got), show(&want));
            self.fail(t, &Op::new(K::Get).f(i), what);
            if !have_into {
                self.restart();
                return;
            }
        }
        for i in 0..d.ignored.len() {
            let want = Out::Val(self.m.ign[i].to_le_bytes().to_vec());
            if let Exec::Done(got, _) = self.exec(&Op::new(K::IgnGet).f(i)) {
                if got != want {
                    let what = format!("after {} the ignored field #{i} is {}; expected {}", op.show(d), show(&got), show(&want));
                    self.fail(vec!["C17"], op, what);
                    if let Out::Val(v) = got {
                        let mut b = [0u8; 8];
                        b[..v.len().min(8)].copy_from_slice(&v[..v.len().min(8)]);
                        self.m.ign[i] = u64::from_le_bytes(b);
                    }
                }
            }
        }
    }

    /// Puts the bitfield in a given raw state, as far as its interface allows.
    fn prepare(&mut self, raw: &[u8]) {
        if self.d.has(has::FROM_INTO) {
            self.step(Op::new(K::From).e(if self.d.arr { 1 } else { 2 }).v(raw.to_vec()));
            return;
        }
        self.construct_any();
        let bits = to_bits(raw, self.d.nbits);
        for i in 0..self.d.fields.len() {
            let f = &self.d.fields[i];
            if f.has_setter() {
                let v = Model::field_value(f, &Model::raw(&bits, f));
                self.step(Op::new(K::Set).f(i).v(v));
            }
        }
    }

    fn construct_any(&mut self) {
        let d = self.d;
        if d.has(has::NEW) {
            self.step(Op::new(K::New));
        } else if d.has(has::FROM_INTO) {
            self.step(Op::new(K::From).v(vec![0; d.nbytes()]));
        } else if d.has(has::DEFAULT) {
            self.step(Op::new(K::Default));
        } else if d.has(has::BUILDER) {
            self.step(Op::new(K::BNew));
            self.step(Op::new(K::BBuild));
        } else if d.has(has::TRAITS) {
            self.step(Op::new(K::FromTrait).v(vec![0; d.nbytes()]));
        }
    }

    fn phase(&mut self, t: &'static [Tag]) {
        self.phase = t;
    }
}

pub fn show(o: &Out) -> String {
    match o {
        Out::Val(v) => hex(v),
        Out::Ok(v) if v.is_empty() => "Ok".into(),
        Out::Ok(v) => format!("Ok({})", hex(v)),
        Out::Err(v) if v.is_empty() => "Err".into(),
        Out::Err(v) => format!("Err({})", hex(v)),
        Out::Text(s) => s.clone(),
        Out::Unit => "()".into(),
        Out::Nothing => "nothing".into(),
    }
}

fn hex(v: &[u8]) -> String {
    let s: Vec<String> = v.iter().take(1024).map(|b| format!("{b:02x}")).collect();
    format!("[{}{}]", s.join(" "), if v.len() > 1024 { " ..." } else { "" })
}

/// Values of a type `w` bits wide for a field of `n` bits.
pub fn boundary_values(f: &Fd, rng: &mut Rng, all: bool) -> Vec<Vec<u8>> {
    let w = f.ty.width() as usize;
    let n = f.bits as usize;
    let nb = f.ty.bytes();
    if matches!(f.ty, Ty::Bool) {
        return vec![vec![0], vec![1]];
    }
    let mut out: Vec<Vec<bool>> = Vec::new();
    let ones = |k: usize| (0..w).map(|i| i < k).collect::<Vec<bool>>();
    let inv = |v: &Vec<bool>| v.iter().map(|b| !b).collect::<Vec<bool>>();
    out.push(ones(0));
    for k in [1, n - 1, n, n + 1, w - 1, w] {
        if k <= w {
            out.push(ones(k));
            out.push(inv(&ones(k)));
        }
    }
    for k in 0..w {
        let edge = k < 2 || k + 3 > n && k < n + 3 || k + 1 == w || k % 8 == 0 || k % 8 == 7;
        if all || edge || rng.chance(1, 6) {
            let mut one = ones(0);
            one[k] = true;
            out.push(inv(&one));
            out.push(one);
            out.push(inv(&ones(k)));
        }
    }
    out.push((0..w).map(|i| i % 2 == 0).collect());
    out.push((0..w).map(|i| i % 2 == 1).collect());
    out.push((0..w).map(|i| i < n && i % 3 == 0).collect());
    for _ in 0..4 {
        let r = rng.bytes(nb);
        let b = to_bits(&r, w as u32);
        out.push(b.iter().enumerate().map(|(i, x)| i < n && *x).collect());
        out.push(b);
    }
    let mut v: Vec<Vec<u8>> = out.iter().map(|b| to_bytes(b)).collect();
    v.sort();
    v.dedup();
    v
}

fn patterns(d: &Desc, rng: &mut Rng) -> Vec<Vec<u8>> {
    let n = d.nbytes();
    vec![vec![0; n], vec![0xFF; n], vec![0x55; n], vec![0xAA; n], rng.bytes(n), rng.bytes(n)]
}

fn one_hot(d: &Desc, i: usize) -> Vec<u8> {
    let mut v = vec![0u8; d.nbytes()];
    v[i / 8] |= 1 << (i % 8);
    v
}

fn offsets(d: &Desc, rng: &mut Rng, full: bool) -> Vec<u32> {
    let n = d.nbits;
    let mut o: Vec<u32> = Vec::new();
    if full || n <= 128 {
        o.extend(0..n);
    } else {
        for f in d.fields {
            for x in [f.off.wrapping_sub(1), f.off, f.off + 1, f.off + f.bits - 1, f.off + f.bits] {
                if x < n {
                    o.push(x);
                }
            }
        }
        if n <= 2048 {
            o.extend((0..n).filter(|x| x % 8 == 0 || x % 8 == 7));
        } else {
            o.extend([255, 256, 257, 2047, 2048, 2049, n - 2, n - 1]);
            o.extend([65535, 65536, 65537].into_iter().filter(|x| *x < n));
        }
        for _ in 0..if n <= 2048 { 30 } else { 8 } {
            o.push(rng.below(n as u64) as u32);
        }
        o.sort();
        o.dedup();
    }
    o
}

fn hostile_offsets(d: &Desc) -> Vec<u32> {
    let n = d.nbits;
    vec![n, n + 1, n + 7, n + 8, 2 * n, 255, 256, 65535, 65536, 1 << 31, (1 << 31) + 1, u32::MAX - n, u32::MAX - 7, u32::MAX - 1, u32::MAX]
        .into_iter()
        .filter(|x| *x >= n)
        .collect()
}

fn ranges(d: &Desc, rng: &mut Rng, full: bool) -> Vec<(u32, u32)> {
    let n = d.nbits;
    let mut r: Vec<(u32, u32)> = Vec::new();
    if n <= 16 || full && n <= 64 {
        for o in 0..=n + 1 {
            for l in 0..=n + 2 {
                r.push((o, l));
            }
        }
    } else {
        let mut edges: Vec<u32> = vec![0, 1, 7, 8, 9, 15, 16, 31, 32, 33, 63, 64, 65, 127, 128, n - 1, n];
        for f in d.fields {
            edges.extend([f.off.saturating_sub(1), f.off, f.off + 1, f.off + f.bits / 2]);
        }
        edges.retain(|x| *x <= n);
        edges.sort();
        edges.dedup();
        let cap = if n > 2048 { 5 } else if full { 60 } else { 14 };
        while edges.len() > cap {
            let i = rng.below(edges.len() as u64) as usize;
            edges.remove(i);
        }
        for (i, a) in edges.iter().enumerate() {
            for b in &edges[i..] {
                if *a < n {
                    r.push((*a, b - a));
                    r.push((*a, b - a + 1));
                }
            }
            r.push((*a, n.saturating_sub(*a)));
            r.push((*a, n.saturating_sub(*a) + 1));
        }
        r.push((0, n));
        r.push((0, n + 1));
        r.push((n - 1, 1));
        r.push((n - 1, 2));
        r.push((n, 0));
        r.push((n, 1));
        for _ in 0..if n > 2048 { 10 } else if full { 400 } else { 60 } {
            let o = rng.below(n as u64) as u32;
            r.push((o, rng.below((n - o) as u64 + 1) as u32));
        }
    }
    for o in [0, 1, n - 1, n / 2] {
        for l in [u32::MAX, u32::MAX - 1, u32::MAX - o, u32::MAX - o + 1.min(o), 1 << 31, u32::MAX - n, 256, 257, n * 8] {
            r.push((o, l));
        }
    }
    for o in hostile_offsets(d) {
        for l in [0, 1, 2, 7, 8, n, 1 << 31, u32::MAX, u32::MAX - o, (u32::MAX - o).wrapping_add(1), (u32::MAX - o).wrapping_add(2 + n / 2)] {
            r.push((o, l));
        }
    }
    r.sort();
    r.dedup();
    r
}

pub struct Cfg {
    pub prop: String,
    pub seed: u64,
    pub full: bool,
    /// Scaled-down workload, for interpreters such as Miri.
    pub tiny: bool,
    /// Only run the operations, for interpreters and sanitizers that judge them themselves.
    pub bare: bool,
    pub rounds: usize,
    pub len: usize,
}

impl Session<'_> {
    fn layout(&mut self, rng: &mut Rng) {
        self.phase(&["C01"]);
        let d = self.d;
        for i in 0..d.fields.len() {
            self.step(Op::new(K::ConstBits).f(i));
            self.step(Op::new(K::ConstOff).f(i));
        }
        if d.has(has::FROM_INTO) {
            let bits: Vec<usize> = if d.nbits <= 256 {
                (0..d.nbits as usize).collect()
            } else {
                offsets(d, rng, false).into_iter().map(|x| x as usize).collect()
            };
            for i in bits {
                self.prepare(&one_hot(d, i));
            }
        }
        for bg in [0u8, 0xFF] {
            for i in 0..d.fields.len() {
                self.prepare(&vec![bg; d.nbytes()]);
                let nb = d.fields[i].ty.bytes();
                self.step(Op::new(K::Set).f(i).v(vec![!bg; nb]));
            }
        }
        self.phase(&[]);
    }

    fn fields(&mut self, rng: &mut Rng, c: &Cfg) {
        let d = self.d;
        let pats = patterns(d, rng);
        for i in 0..d.fields.len() {
            let f = &d.fields[i];
            let vals = boundary_values(f, rng, c.full || f.ty.width() <= 32);
            for v in &vals {
                for k in [K::Set, K::CSet] {
                    if f.has_setter() {
                        let p = &pats[rng.below(pats.len() as u64) as usize];
                        self.prepare(p);
                        self.step(Op::new(k).f(i).v(v.clone()));
                    }
                }
                if d.has(has::BUILDER) && f.builder() {
                    for k in [K::BWith, K::BCWith] {
                        self.step(Op::new(if rng.chance(1, 3) { K::BNewWd } else { K::BNew }));
                        if rng.chance(1, 2) && d.fields.len() > 1 {
                            let j = rng.below(d.fields.len() as u64) as usize;
                            let nb = d.fields[j].ty.bytes();
                            let v = rng.bytes(nb);
                            self.step(Op::new(K::BWith).f(j).v(v));
                        }
                        self.step(Op::new(k).f(i).v(v.clone()));
                        self.step(Op::new(K::BBuild));
                    }
                }
            }
            // Every raw value of narrow fields.
            if f.bits <= if c.full { 10 } else { 6 } && d.has(has::FROM_INTO) {
                for x in 0..1u32 << f.bits {
                    let mut b = to_bits(&pats[rng.below(pats.len() as u64) as usize], d.nbits);
                    for k in 0..f.bits {
                        b[(f.off + k) as usize] = x >> k & 1 == 1;
                    }
                    self.prepare(&to_bytes(&b));
                    self.step(Op::new(K::Get).f(i));
                    self.step(Op::new(K::InvGet).f(i));
                    self.step(Op::new(K::InvertF).f(i));
                    self.step(Op::new(K::ClearF).f(i));
                    self.step(Op::new(K::ClearFDef).f(i));
                }
            }
        }
    }

    fn constructors(&mut self, rng: &mut Rng) {
        let d = self.d;
        for k in [K::New, K::NewWd, K::Default] {
            self.step(Op::new(k));
            for e in 0..6 {
                self.step(Op::new(K::Debug).e(e));
            }
            self.step(Op::new(K::DebugAlt));
            self.step(Op::new(K::CopyIso));
        }
        for k in [K::BNew, K::BNewWd, K::BDefault] {
            self.step(Op::new(k));
            self.step(Op::new(K::BBuild));
            for _ in 0..6 {
                self.step(Op::new(k));
                for _ in 0..rng.below(6) {
                    let i = rng.below(d.fields.len() as u64) as usize;
                    let f = &d.fields[i];
                    let vals = boundary_values(f, rng, false);
                    let v = vals[rng.below(vals.len() as u64) as usize].clone();
                    self.step(Op::new(if rng.chance(1, 2) { K::BWith } else { K::BCWith }).f(i).v(v));
                }
                self.step(Op::new(K::BBuild));
            }
        }
        let (mut a, mut b) = (patterns(d, rng), patterns(d, rng));
        a.append(&mut b);
        for i in 0..d.nbytes().min(8) {
            let mut v = vec![0; d.nbytes()];
            v[i] = 0x80 | i as u8;
            a.push(v);
        }
        a.push((0..d.nbytes()).map(|i| i as u8 + 1).collect());
        for v in &a {
            for e in 0..3 {
                for dd in [false, true] {
                    self.step(Op::new(K::From).e(e).d(dd).v(v.clone()));
                    for e in 0..3 {
                        self.step(Op::new(K::Into).e(e));
                    }
                }
            }
            self.step(Op::new(K::FromTrait).v(v.clone()));
            self.step(Op::new(K::IntoTrait));
            self.step(Op::new(K::Debug));
        }
        if d.arr {
            let n = d.nbytes();
            for e in 0..3 {
                for len in [0, 1, 2, n / 2, n.saturating_sub(1), n, n + 1, n + 3, 2 * n + 1] {
                    let mut s: Vec<u8> = (0..len).map(|i| (i as u8).wrapping_mul(37).wrapping_add(1)).collect();
                    if rng.chance(1, 2) {
                        s = rng.bytes(len);
                    }
                    for k in [K::FromSlice, K::CFromSlice] {
                        for dd in [false, true] {
                            self.step(Op::new(k).e(e).d(dd).v(s.clone()));
                        }
                    }
                    for k in [K::IntoSlice, K::CIntoSlice] {
                        let v = rng.bytes(n);
                        self.prepare(&v);
                        self.step(Op::new(k).e(e).at(0, len as u32));
                    }
                }
            }
            // Lengths that do not fit the small integer types.
            let long: &[usize] = if cfg!(miri) { &[256, 257] } else { &[256, 256 + n / 2, 65536, 65536 + n / 2] };
            for &len in long {
                let e = rng.below(3) as u8;
                let s: Vec<u8> = (0..len).map(|i| (i as u8).wrapping_mul(37).wrapping_add(1)).collect();
                for k in [K::FromSlice, K::CFromSlice] {
                    self.step(Op::new(k).e(e).d(rng.chance(1, 2)).v(s.clone()));
                }
                for k in [K::IntoSlice, K::CIntoSlice] {
                    let v = rng.bytes(n);
                    self.prepare(&v);
                    self.step(Op::new(k).e(e).at(0, len as u32));
                }
            }
        }
    }

    fn bit_ops(&mut self, rng: &mut Rng, c: &Cfg) {
        let d = self.d;
        if !d.has(has::SETGET) {
            return;
        }
        let pats = patterns(d, rng);
        let mut offs = offsets(d, rng, c.full);
        offs.extend(hostile_offsets(d));
        for o in &offs {
            for b in [false, true] {
                for k in [K::SetBit, K::CSetBit] {
                    let bg = if b { 0 } else { 1 };
                    let p = if rng.chance(2, 3) { &pats[bg] } else { &pats[rng.below(pats.len() as u64) as usize] };
                    self.prepare(p);
                    self.step(Op::new(k).at(*o, 0).bit(b));
                    self.step(Op::new(K::GetBit).at(*o, 0));
                    self.step(Op::new(K::CGetBit).at(*o, 0));
                }
            }
        }
        for (o, l) in ranges(d, rng, c.full) {
            let bg = rng.below(pats.len() as u64) as usize;
            let bg = if rng.chance(1, 2) { bg % 2 } else { bg };
            self.prepare(&pats[bg]);
            self.step(Op::new(K::GetRange).at(o, l));
            self.step(Op::new(K::CGetRange).at(o, l));
            let v = if bg < 2 && rng.chance(2, 3) { pats[1 - bg].clone() } else { rng.bytes(d.nbytes()) };
            self.step(Op::new(K::CSetRange).at(o, l).v(v.clone()));
            self.step(Op::new(K::SetRange).at(o, l).v(if rng.chance(1, 2) { v } else { rng.bytes(d.nbytes()) }));
            self.step(Op::new(K::GetRange).at(o, l));
        }
    }

    fn whole_ops(&mut self, rng: &mut Rng) {
        let d = self.d;
        let pats = patterns(d, rng);
        let mut vals = pats.clone();
        vals.push((0..d.nbytes()).map(|i| (i as u8 + 1).wrapping_mul(0x11)).collect());
        vals.push(one_hot(d, 0));
        vals.push(one_hot(d, d.nbits as usize - 1));
        for p in &pats {
            for v in &vals {
                for e in 0..3 {
                    for dd in [false, true] {
                        self.prepare(p);
                        self.step(Op::new(K::Write).e(e).d(dd).v(v.clone()));
                    }
                }
            }
            for k in [K::WriteDefaults, K::Clear, K::ClearD, K::Invert] {
                self.prepare(p);
                self.step(Op::new(k));
                self.step(Op::new(k));
                self.step(Op::new(K::Debug));
            }
            self.prepare(p);
            for e in 0..6 {
                self.step(Op::new(K::Debug).e(e));
            }
            self.step(Op::new(K::DebugAlt));
            self.step(Op::new(K::CopyIso));
            for i in 0..d.fields.len() {
                for k in [K::InvGet, K::InvertF, K::ClearF, K::ClearFDef] {
                    self.prepare(p);
                    self.step(Op::new(k).f(i));
                    if k == K::InvertF {
                        self.step(Op::new(k).f(i));
                    }
                }
            }
            for i in 0..d.ignored.len() {
                let v = rng.bytes(8);
                self.step(Op::new(K::IgnSet).f(i).v(v));
                self.step(Op::new(K::IgnGet).f(i));
                for k in [K::WriteDefaults, K::Clear, K::ClearD, K::Invert] {
                    self.step(Op::new(k));
                }
            }
        }
    }

    fn random_op(&self, rng: &mut Rng) -> Op {
        let d = self.d;
        let nf = d.fields.len() as u64;
        let k = match rng.below(100) {
            0..=15 => K::Set,
            16..=25 => K::CSet,
            26..=29 => K::ClearF,
            30..=31 => K::ClearFDef,
            32..=36 => K::InvertF,
            37..=38 => K::InvGet,
            39..=43 => K::SetBit,
            44..=47 => K::CSetBit,
            48..=54 => K::SetRange,
            55..=60 => K::CSetRange,
            61..=63 => K::GetRange,
            64..=66 => K::CGetRange,
            67..=68 => K::GetBit,
            69..=70 => K::CGetBit,
            71..=75 => K::Write,
            76 => K::WriteDefaults,
            77 => K::Clear,
            78 => K::ClearD,
            79..=81 => K::Invert,
            82..=83 => K::Into,
            84 => K::IntoTrait,
            85 => K::IntoSlice,
            86 => K::CIntoSlice,
            87 => K::Debug,
            88 => K::From,
            89 => K::FromSlice,
            90..=92 => K::IgnSet,
            93..=94 => K::CopyIso,
            95 => K::BNew,
            96..=97 => K::BWith,
            98 => K::BCWith,
            _ => K::BBuild,
        };
        let mut op = Op::new(k).e(rng.below(3) as u8).d(rng.chance(1, 4)).bit(rng.chance(1, 2));
        match k {
            K::Set | K::CSet | K::BWith | K::BCWith => {
                let i = rng.below(nf) as usize;
                let f = &d.fields[i];
                let nb = f.ty.bytes();
                let mut v = rng.bytes(nb);
                if matches!(f.ty, Ty::Bool) {
                    v[0] &= 1;
                }
                if rng.chance(2, 3) {
                    // Make it fit.
                    let mut b = to_bits(&v, f.ty.width());
                    let sign = matches!(f.ty, Ty::I(_)) && b[f.bits as usize - 1];
                    for x in b.iter_mut().skip(f.bits as usize) {
                        *x = sign;
                    }
                    v = to_bytes(&b);
                }
                op = op.f(i).v(v);
            }
            K::ClearF | K::ClearFDef | K::InvertF | K::InvGet => op = op.f(rng.below(nf) as usize),
            K::SetBit | K::CSetBit | K::GetBit | K::CGetBit => {
                let h = hostile_offsets(d);
                let o = if rng.chance(1, 12) { h[rng.below(h.len() as u64) as usize] } else { rng.below(d.nbits as u64) as u32 };
                op = op.at(o, 0);
            }
            K::SetRange | K::CSetRange | K::GetRange | K::CGetRange => {
                let (o, l) = if rng.chance(1, 10) {
                    (rng.next() as u32, rng.next() as u32)
                } else {
                    let o = rng.below(d.nbits as u64) as u32;
                    let max = (d.nbits - o) as u64 + if rng.chance(1, 8) { 3 } else { 1 };
                    let cap = if rng.chance(1, 2) { max.min(10) } else { max };
                    (o, rng.below(cap) as u32)
                };
                op = op.at(o, l).v(rng.bytes(d.nbytes()));
            }
            K::Write | K::From => op = op.v(rng.bytes(d.nbytes())),
            K::FromSlice => {
                let n = rng.below(d.nbytes() as u64 + 3) as usize;
                op = op.v(rng.bytes(n));
            }
            K::IntoSlice | K::CIntoSlice => op = op.at(0, rng.below(d.nbytes() as u64 + 3) as u32),
            K::IgnSet => op = op.f(rng.below(d.ignored.len().max(1) as u64) as usize).v(rng.bytes(8)),
            _ => {}
        }
        op
    }

    fn histories(&mut self, rng: &mut Rng, c: &Cfg) {
        for r in 0..c.rounds {
            if r % 2 == 0 {
                self.construct_any();
            } else {
                let v = rng.bytes(self.d.nbytes());
                self.prepare(&v);
            }
            for _ in 0..c.len {
                let op = self.random_op(rng);
                self.step(op);
            }
        }
    }

    /// A few operations on a bitfield too big for the sweeps.
    fn huge(&mut self, rng: &mut Rng) {
        let d = self.d;
        let n = d.nbits;
        self.phase(&["C01"]);
        for i in 0..d.fields.len() {
            self.step(Op::new(K::ConstBits).f(i));
            self.step(Op::new(K::ConstOff).f(i));
        }
        self.step(Op::new(K::New));
        for i in 0..d.fields.len() {
            let v = rng.bytes(d.fields[i].ty.bytes());
            self.step(Op::new(K::Set).f(i).v(v));
            self.step(Op::new(K::Get).f(i));
        }
        self.phase(&[]);
        for i in 0..d.fields.len() {
            let v = rng.bytes(d.fields[i].ty.bytes());
            self.step(Op::new(K::Set).f(i).v(v.clone()));
            self.step(Op::new(K::CSet).f(i).v(v));
            self.step(Op::new(K::InvertF).f(i));
        }
        for (k, o) in [0, 7, 12, 255, 256, 65535, 65536, n - 14, n - 1, n, n + 8, u32::MAX].into_iter().enumerate() {
            self.step(Op::new(K::SetBit).at(o, 0).bit(k % 2 == 0));
            self.step(Op::new(K::CSetBit).at(o, 0).bit(k % 2 == 1));
            self.step(Op::new(K::GetBit).at(o, 0));
        }
        for (o, l) in [(0, n), (n - 20, 20), (n - 20, 21), (65530, 40), (5, 3), (n, 0), (1, u32::MAX), (n - 60, 50)] {
            let v = rng.bytes(d.nbytes());
            self.step(Op::new(K::SetRange).at(o, l).v(v.clone()));
            self.step(Op::new(K::CSetRange).at(o, l).v(v));
            self.step(Op::new(K::GetRange).at(o, l));
            self.step(Op::new(K::CGetRange).at(o, l));
        }
        for e in 0..3 {
            let v = rng.bytes(d.nbytes());
            self.step(Op::new(K::From).e(e).d(e == 1).v(v.clone()));
            self.step(Op::new(K::Write).e(e).v(v));
            self.step(Op::new(K::Into).e(e));
            let v = rng.bytes(d.nbytes() - 1);
            self.step(Op::new(K::CFromSlice).e(e).v(v.clone()));
            self.step(Op::new(K::FromSlice).e(e).v(v));
            self.step(Op::new(K::IntoSlice).e(e).at(0, d.nbytes() as u32 - 1));
        }
        for k in [K::Invert, K::WriteDefaults, K::Clear, K::ClearD] {
            self.step(Op::new(k));
        }
        for k in [K::NewWd, K::New, K::Default, K::Debug] {
            self.step(Op::new(k));
        }
        for i in 0..d.fields.len() {
            for k in [K::Set, K::InvGet, K::InvertF, K::ClearF, K::ClearFDef] {
                let v = rng.bytes(d.fields[i].ty.bytes());
                self.step(Op::new(k).f(i).v(v));
            }
        }
        for k in [K::BNewWd, K::BNew] {
            self.step(Op::new(k));
            for i in 0..d.fields.len() {
                for k in [K::BWith, K::BCWith] {
                    let v = rng.bytes(d.fields[i].ty.bytes());
                    self.step(Op::new(k).f(i).v(v));
                }
            }
            self.step(Op::new(K::BBuild));
        }
        for _ in 0..80 {
            let op = self.random_op(rng);
            self.step(op);
        }
    }

    fn leaks(&mut self) {
        // A bitfield that lives on the heap gives back what it took.
        let before = crate::alloc::live();
        for _ in 0..4 {
            let mut s = (self.e.make)();
            let mut m = Session { d: self.d, e: self.e, m: Model::new(self.d), s, rep: &mut Report::new("-"), hist: Vec::new(), phase: &[], dropped: 0 };
            m.construct_any();
            m.step(Op::new(K::CopyIso));
            m.step(Op::new(K::Invert));
            m.step(Op::new(K::Clear));
            s = m.s;
            drop(s);
        }
        let after = crate::alloc::live();
        if after != before {
            self.fail(vec!["C16"], &Op::new(K::New), format!("{} allocations were not freed", after - before));
        }
    }
}

/// Runs a bitfield's twins in lockstep and compares their traces with each
/// other, without consulting the model.
fn twins(entries: &[&Entry], rng: &mut Rng, c: &Cfg, rep: &mut Report, tag: Tag) {
    let base = entries[0];
    let d0 = base.desc;
    let mut subj: Vec<Box<dyn Subject>> = entries.iter().map(|e| (e.make)()).collect();
    // Field index of every twin, by name.
    let maps: Vec<Vec<usize>> = entries
        .iter()
        .map(|e| {
            d0.fields
                .iter()
                .map(|f| e.desc.fields.iter().position(|g| g.name == f.name && g.off == f.off).expect("twin fields"))
                .collect()
        })
        .collect();
    let mut dummy = Report::new("-");
    let gen = Session::new(base, &mut dummy);
    let mut hist: Vec<Op> = Vec::new();
    for _ in 0..c.rounds {
        let mut ops: Vec<Op> = vec![Op::new(K::New)];
        if rng.chance(2, 3) {
            ops[0] = Op::new(K::From).e(9).d(rng.chance(1, 4)).v(rng.bytes(d0.nbytes()));
        }
        for _ in 0..c.len {
            ops.push(gen.random_op(rng));
        }
        hist.clear();
        let mut live_builder = false;
        for op in ops {
            match op.k {
                K::IgnSet | K::Debug | K::FromSlice | K::IntoSlice | K::CIntoSlice | K::IntoTrait => continue,
                K::BNew | K::BNewWd => live_builder = true,
                K::BWith | K::BBuild | K::BCWith if !live_builder => continue,
                K::BBuild => live_builder = false,
                _ => {}
            }
            if !entries.iter().zip(&maps).all(|(e, m)| {
                let mut o = op.clone();
                if (o.f as usize) < m.len() {
                    o.f = m[o.f as usize] as u16;
                }
                supported(&o, e.desc)
            }) {
                continue;
            }
            hist.push(op.clone());
            let mut outs = Vec::new();
            for (i, e) in entries.iter().enumerate() {
                let mut o = op.clone();
                if (o.f as usize) < maps[i].len() {
                    o.f = maps[i][o.f as usize] as u16;
                }
                // The same order of bits for integers and arrays.
                if matches!(o.k, K::From | K::Into) {
                    o.e = if e.desc.arr { 1 } else { 2 };
                }
                if o.k == K::Write {
                    o.e = 2;
                }
                let mut trace = Vec::new();
                let run = |s: &mut Box<dyn Subject>, o: &Op| {
                    catch_unwind(AssertUnwindSafe(|| {
                        let mut r = Ret::new();
                        s.exec(o, &mut r);
                        r.out
                    }))
                    .map_err(|_| ())
                };
                trace.push(run(&mut subj[i], &o));
                if o.k == K::BCWith {
                    if let Some(Ok(Out::Err(_))) = trace.last() {
                        live_builder = false;
                    }
                }
                for (j, f) in d0.fields.iter().enumerate() {
                    if f.has_getter() {
                        trace.push(run(&mut subj[i], &Op::new(K::Get).f(maps[i][j])));
                    }
                }
                if e.desc.has(has::FROM_INTO) {
                    trace.push(run(&mut subj[i], &Op::new(K::Into).e(if e.desc.arr { 1 } else { 2 })));
                }
                outs.push(trace);
            }
            rep.events += outs.len() as u64;
            rep.relevant += outs.len() as u64;
            *rep.by_kind.entry(format!("twin {:?}", op.k)).or_insert(0) += 1;
            rep.sigs.insert(hash_str(&format!("twin {} {:?} {} {:?}", d0.id, op.k, op.f, outs[0][0].as_ref().map(|o| matches!(o, Out::Err(_))))));
            for i in 1..outs.len() {
                if outs[i] != outs[0] {
                    let what = format!(
                        "the same operations on {} and {} differ after {}: {:?} against {:?}",
                        d0.decl,
                        entries[i].desc.decl,
                        op.show(d0),
                        outs[0],
                        outs[i]
                    );
                    let h = hist.iter().map(|o| o.show(d0)).collect();
                    rep.violation(&[tag], d0, &format!("twin{i}/{:?}", op.k), what, h);
                    for (s, e) in subj.iter_mut().zip(entries) {
                        std::mem::forget(std::mem::replace(s, (e.make)()));
                    }
                    return;
                }
            }
        }
    }
}

/// Random histories without a model: whoever runs the program watches it.
fn bare(e: &Entry, rng: &mut Rng, c: &Cfg, rep: &mut Report) {
    let d = e.desc;
    let mut dummy = Report::new("-");
    let gen = Session::new(e, &mut dummy);
    let mut directed: Vec<Op> = Vec::new();
    for k in [K::New, K::NewWd, K::Default, K::BNew, K::BBuild, K::BNewWd, K::BBuild, K::WriteDefaults, K::Clear, K::ClearD, K::Invert, K::Debug, K::CopyIso, K::IntoTrait] {
        directed.push(Op::new(k));
    }
    let n = d.nbytes();
    for en in 0..3 {
        directed.push(Op::new(K::From).e(en).d(en == 1).v(rng.bytes(n)));
        directed.push(Op::new(K::Write).e(en).d(en == 2).v(rng.bytes(n)));
        directed.push(Op::new(K::Into).e(en));
        for m in [n, n + 3, n - 1, 0] {
            directed.push(Op::new(K::FromSlice).e(en).d(m == n).v(rng.bytes(m)));
            directed.push(Op::new(K::CFromSlice).e(en).v(rng.bytes(m)));
            directed.push(Op::new(K::IntoSlice).e(en).at(0, m as u32));
            directed.push(Op::new(K::CIntoSlice).e(en).at(0, m as u32));
        }
    }
    for i in 0..d.fields.len() {
        for v in [vec![0xFFu8; d.fields[i].ty.bytes()], vec![0u8; d.fields[i].ty.bytes()]] {
            let v = if matches!(d.fields[i].ty, Ty::Bool) { vec![v[0] & 1] } else { v };
            for k in [K::Set, K::CSet] {
                directed.push(Op::new(k).f(i).v(v.clone()));
            }
        }
        for k in [K::Get, K::InvGet, K::InvertF, K::ClearF, K::ClearFDef] {
            directed.push(Op::new(k).f(i));
        }
    }
    for (k, o) in [0, d.nbits - 1, d.nbits, d.nbits + 8, u32::MAX].into_iter().enumerate() {
        for kind in [K::SetBit, K::CSetBit, K::GetBit, K::CGetBit] {
            directed.push(Op::new(kind).at(o, 0).bit(k % 2 == 0));
        }
        for l in [0, 1, 7, 8, d.nbits, u32::MAX] {
            for kind in [K::SetRange, K::CSetRange, K::GetRange, K::CGetRange] {
                directed.push(Op::new(kind).at(o, l).v(rng.bytes(n)));
            }
        }
    }
    // "text" records what each call gave; "hash" only a digest of it, which is what an interpreter can afford.
    let trace = std::env::var("VP_TRACE").unwrap_or_default();
    let state_op = Op::new(K::Into).e(if d.arr { 1 } else { 2 });
    for r in 0..=c.rounds {
        let mut s = (e.make)();
        let mut built = false;
        let mut live = false;
        let ops: Vec<Op> = if r == 0 { std::mem::take(&mut directed) } else { (0..c.len).map(|_| gen.random_op(rng)).collect() };
        for op in ops {
            if !supported(&op, d) {
                continue;
            }
            if !live && !constructs(op.k) && !builds(op.k) {
                let first = [K::New, K::Default, K::NewWd].into_iter().map(Op::new).chain([Op::new(K::From).e(1).v(vec![0; n])]).find(|o| supported(o, d));
                if let Some(o) = first {
                    live = call(&mut *s, &o, d).is_ok();
                }
                if !live {
                    continue;
                }
            }
            match op.k {
                K::BNew | K::BNewWd | K::BDefault => built = true,
                K::BWith | K::BCWith | K::BBuild if !built => continue,
                _ => {}
            }
            if matches!(op.k, K::BBuild | K::BCWith) {
                built = false;
            }
            let out = call(&mut *s, &op, d);
            rep.events += 1;
            rep.relevant += 1;
            let class = match &out {
                Err(_) => "panic",
                Ok(Out::Err(_)) => "error",
                Ok(_) => "ok",
            };
            live |= constructs(op.k) && class != "panic";
            if trace != "hash" {
                *rep.by_kind.entry(format!("{:?}", op.k)).or_insert(0) += 1;
                *rep.outcomes.entry(class.to_string()).or_insert(0) += 1;
                rep.sigs.insert(hash_str(&format!("{} {:?} {} {class}", d.id, op.k, op.f)));
            }
            if !trace.is_empty() {
                let state = if live && out.is_ok() && d.has(has::FROM_INTO) { call(&mut *s, &state_op, d) } else { Ok(Out::Unit) };
                if trace == "hash" {
                    rep.digest.push((d.id, digest(&out), digest(&state)));
                } else {
                    let text = |o: &Result<Out, ()>| o.as_ref().map_or("panic".to_string(), show);
                    rep.trace.push((d.id.to_string(), op.show(d), text(&out), text(&state), digest(&out), digest(&state)));
                }
            }
            if out.is_err() {
                live = false;
                s = (e.make)();
                built = false;
            }
        }
    }
}

fn call(s: &mut dyn Subject, op: &Op, d: &Desc) -> Result<Out, ()> {
    let watch = Watched::new(op, d);
    let out = catch_unwind(AssertUnwindSafe(|| {
        let mut ret = Ret::new();
        s.exec(op, &mut ret);
        ret.out
    }));
    drop(watch);
    out.map_err(|_| ())
}

fn digest(o: &Result<Out, ()>) -> u32 {
    let (tag, v): (u32, &[u8]) = match o {
        Err(()) => (1, &[]),
        Ok(Out::Nothing) => (2, &[]),
        Ok(Out::Unit) => (3, &[]),
        Ok(Out::Val(v)) => (4, v),
        Ok(Out::Ok(v)) => (5, v),
        Ok(Out::Err(v)) => (6, v),
        Ok(Out::Text(t)) => (7, t.as_bytes()),
    };
    let mut h = tag.wrapping_mul(0x9E37_79B1);
    for b in v {
        h = (h ^ *b as u32).wrapping_mul(0x0100_0193);
    }
    h
}

pub fn run(entries: &[Entry], c: &Cfg) -> Report {
    std::panic::set_hook(Box::new(|i| {
        // Panics of generated code are caught and judged; others are the monitor's own.
        if CALL.load(Ordering::Acquire).is_null() {
            eprintln!("{i}");
        }
    }));
    let mut rep = Report::new(&c.prop);
    for e in entries {
        rep.schemas += 1;
        let mut rng = Rng::new(c.seed ^ hash_str(e.desc.id) ^ hash_str(&c.prop));
        if c.bare && std::env::var("VP_NONE").is_ok() {
            continue;
        }
        if c.bare {
            bare(e, &mut rng, c, &mut rep);
            continue;
        }
        let mut s = Session::new(e, &mut rep);
        if c.tiny {
            s.layout(&mut rng);
            s.constructors(&mut rng);
            s.histories(&mut rng, c);
            continue;
        }
        if e.desc.nbits > 4096 {
            s.huge(&mut rng);
            continue;
        }
        s.layout(&mut rng);
        s.constructors(&mut rng);
        s.fields(&mut rng, c);
        s.bit_ops(&mut rng, c);
        s.whole_ops(&mut rng);
        s.histories(&mut rng, c);
        s.leaks();
    }
    let mut groups: std::collections::BTreeMap<&str, Vec<&Entry>> = Default::default();
    for e in entries {
        if !e.desc.group.is_empty() {
            groups.entry(e.desc.group).or_default().push(e);
        }
    }
    for (g, es) in groups {
        if es.len() > 1 {
            let mut rng = Rng::new(c.seed ^ hash_str(g));
            twins(&es, &mut rng, c, &mut rep, if g.starts_with("rev") { "C01" } else { "C12" });
        }
    }
    rep
}

/// The call under way, for the watchdog.
static CALL: AtomicPtr<Op> = AtomicPtr::new(std::ptr::null_mut());
static OF: AtomicPtr<Desc> = AtomicPtr::new(std::ptr::null_mut());
static CALLS: AtomicUsize = AtomicUsize::new(0);

struct Watched;

impl Watched {
    fn new(op: &Op, d: &Desc) -> Self {
        CALLS.fetch_add(1, Ordering::Relaxed);
        OF.store(d as *const Desc as *mut Desc, Ordering::Relaxed);
        CALL.store(op as *const Op as *mut Op, Ordering::Release);
        Watched
    }
}

impl Drop for Watched {
    fn drop(&mut self) {
        CALL.store(std::ptr::null_mut(), Ordering::Release);
    }
}

/// A call of generated code takes some microseconds; one that is still under way after
/// minutes does not return. It is reported as the last event.
fn watchdog(out: String) {
    std::thread::spawn(move || {
        let (mut last, mut same) = (0, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_secs(5));
            let n = CALLS.load(Ordering::Relaxed);
            same = if n == last && !CALL.load(Ordering::Acquire).is_null() { same + 1 } else { 0 };
            last = n;
            if same >= 18 {
                // The operation and the declaration outlive the call that is still running.
                let op = unsafe { &*CALL.load(Ordering::Acquire) };
                let d = unsafe { &*OF.load(Ordering::Relaxed) };
                let mut tags = primary(op, d);
                tags.push("C16");
                Report::hang(&out, &tags, d, &format!("{:?}/{}", op.k, op.f), format!("{} did not return within 90 seconds", op.show(d)));
                std::process::exit(0);
            }
        }
    });
}

pub fn main(entries: &[Entry]) {
    let var = |k: &str, d: &str| std::env::var(k).unwrap_or_else(|_| d.to_string());
    let c = Cfg {
        prop: var("VP_PROP", "C02"),
        seed: var("VP_SEED", "1").parse().unwrap_or(1),
        full: var("VP_FULL", "0") == "1",
        tiny: var("VP_TINY", "0") == "1",
        bare: var("VP_BARE", "0") == "1",
        rounds: var("VP_ROUNDS", "8").parse().unwrap(),
        len: var("VP_LEN", "60").parse().unwrap(),
    };
    if !cfg!(miri) {
        watchdog(var("VP_OUT", "/dev/stdout"));
    }
    let rep = run(entries, &c);
    rep.write(&var("VP_OUT", "/dev/stdout"));
}
