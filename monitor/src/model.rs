//! Bit-level reference model, written from the documentation.
use crate::ops::*;

#[derive(Clone)]
pub struct Model {
    pub d: &'static Desc,
    /// One entry per bit, least significant first.
    pub bits: Vec<bool>,
    pub live: bool,
    pub builder: Option<Vec<bool>>,
    pub ign: Vec<u64>,
    /// Causes the last expected error may name.
    pub why: &'static [&'static str],
}

fn bit(v: &[u8], i: usize) -> bool {
    v.get(i / 8).is_some_and(|b| b >> (i % 8) & 1 == 1)
}

pub fn to_bits(v: &[u8], n: u32) -> Vec<bool> {
    (0..n as usize).map(|i| bit(v, i)).collect()
}

pub fn to_bytes(bits: &[bool]) -> Vec<u8> {
    let mut v = vec![0u8; bits.len().div_ceil(8)];
    for (i, b) in bits.iter().enumerate() {
        if *b {
            v[i / 8] |= 1 << (i % 8);
        }
    }
    v
}

fn to_u128(bits: &[bool]) -> u128 {
    bits.iter().take(128).enumerate().fold(0, |a, (i, b)| a | (*b as u128) << i)
}

fn resize(mut v: Vec<u8>, n: usize) -> Vec<u8> {
    v.resize(n, 0);
    v
}

fn rev(v: &[u8]) -> Vec<u8> {
    v.iter().rev().copied().collect()
}

impl Model {
    pub fn new(d: &'static Desc) -> Self {
        Model {
            d,
            bits: vec![false; d.nbits as usize],
            live: false,
            builder: None,
            ign: d.ignored.iter().map(|i| i.0).collect(),
            why: &[],
        }
    }

    fn n(&self) -> usize {
        self.d.nbits as usize
    }

    /// Raw bits of a field in `bits`.
    pub fn raw(bits: &[bool], f: &Fd) -> Vec<bool> {
        bits[f.off as usize..(f.off + f.bits) as usize].to_vec()
    }

    /// Raw value put in a field through its type.
    fn put(bits: &mut [bool], f: &Fd, raw: &[bool]) {
        let mut raw: Vec<bool> = (0..f.bits as usize).map(|i| raw.get(i).copied().unwrap_or(false)).collect();
        if let Ty::Custom(_, norm) = f.ty {
            let v = norm(to_u128(&raw));
            raw = (0..f.bits as usize).map(|i| i < 128 && v >> i & 1 == 1).collect();
        }
        bits[f.off as usize..(f.off + f.bits) as usize].copy_from_slice(&raw);
    }

    fn put_default(bits: &mut [bool], f: &Fd) {
        if let Some(def) = f.def {
            Self::put(bits, f, &to_bits(def, f.bits));
        }
    }

    fn zero(bits: &mut [bool], f: &Fd) {
        Self::put(bits, f, &[]);
    }

    pub fn fresh(&self, defaults: bool) -> Vec<bool> {
        let mut b = vec![false; self.n()];
        for f in self.d.fields {
            Self::zero(&mut b, f);
            if defaults || f.reserved {
                Self::put_default(&mut b, f);
            }
        }
        b
    }

    fn all_defaults(&self, b: &mut [bool]) {
        for f in self.d.fields {
            Self::put_default(b, f);
        }
    }

    /// Value argument of the backing type to bits, for `from`/`write`.
    /// For arrays, little is the internal order.
    fn decode(&self, v: &[u8], little: bool) -> Vec<bool> {
        let v = resize(v.to_vec(), self.d.nbytes());
        let swap = if self.d.arr { !little } else { little };
        to_bits(&if swap { rev(&v) } else { v }, self.d.nbits)
    }

    fn encode(&self, bits: &[bool], little: bool) -> Vec<u8> {
        let v = to_bytes(bits);
        let swap = if self.d.arr { !little } else { little };
        if swap { rev(&v) } else { v }
    }

    fn little(e: u8, configured_little: bool) -> bool {
        match e {
            0 => configured_little,
            1 => true,
            _ => false,
        }
    }

    /// Value of a field of raw bits, widened to its type.
    pub fn field_value(f: &Fd, raw: &[bool]) -> Vec<u8> {
        let w = f.ty.width() as usize;
        match f.ty {
            Ty::I(_) => {
                let sign = raw[raw.len() - 1];
                to_bytes(&(0..w).map(|i| raw.get(i).copied().unwrap_or(sign)).collect::<Vec<_>>())
            }
            Ty::Custom(w, norm) => {
                let v = norm(to_u128(raw));
                resize(v.to_le_bytes().to_vec(), 16)[..w.div_ceil(8) as usize].to_vec()
            }
            _ => resize(to_bytes(raw), f.ty.bytes()),
        }
    }

    /// Bits a typed value argument carries (all the bits of the type).
    fn arg_bits(f: &Fd, v: &[u8]) -> Vec<bool> {
        let b = to_bits(v, f.ty.width());
        if let Ty::Custom(w, norm) = f.ty {
            // The argument is built by the type itself.
            let v = norm(to_u128(&b));
            return to_bits(&v.to_le_bytes(), w);
        }
        b
    }

    pub fn fits(f: &Fd, v: &[u8]) -> bool {
        let b = Self::arg_bits(f, v);
        let n = f.bits as usize;
        match f.ty {
            Ty::I(_) => b[n - 1..].iter().all(|x| *x == b[n - 1]),
            _ => b.iter().skip(n).all(|x| !x),
        }
    }

    /// Applies the operation and returns the expected output.
    pub fn step(&mut self, op: &Op) -> Out {
        let d = self.d;
        let f = d.fields.get(op.f as usize);
        let n = d.nbits;
        self.why = self.cause(op);
        match op.k {
            K::New | K::Default => self.construct(self.fresh(true)),
            K::NewWd => self.construct(self.fresh(false)),
            K::From => {
                let src = self.decode(&op.v, Self::little(op.e, d.from_le));
                let b = self.from_bits(&src, op.d);
                self.construct(b)
            }
            K::FromTrait => {
                let src = self.decode(&op.v, d.from_le);
                let b = self.from_bits(&src, false);
                self.construct(b)
            }
            K::FromSlice | K::CFromSlice => {
                if op.k == K::CFromSlice && op.v.len() < d.nbytes() {
                    return Out::Err(Vec::new());
                }
                let mut v = op.v.clone();
                v.truncate(d.nbytes());
                let v = resize(v, d.nbytes());
                let src = self.decode(&v, Self::little(op.e, d.from_le));
                let b = self.from_bits(&src, op.d);
                self.construct(b);
                if op.k == K::CFromSlice { Out::Ok(Vec::new()) } else { Out::Unit }
            }
            K::BNew | K::BDefault => {
                self.builder = Some(self.fresh(true));
                Out::Unit
            }
            K::BNewWd => {
                self.builder = Some(self.fresh(false));
                Out::Unit
            }
            K::BWith | K::BCWith => {
                let f = f.unwrap();
                let Some(mut b) = self.builder.take() else { return Out::Nothing };
                if op.k == K::BCWith && !Self::fits(f, &op.v) {
                    return Out::Err(Vec::new());
                }
                Self::put(&mut b, f, &Self::arg_bits(f, &op.v));
                self.builder = Some(b);
                if op.k == K::BCWith { Out::Ok(Vec::new()) } else { Out::Unit }
            }
            K::BBuild => {
                let Some(b) = self.builder.take() else { return Out::Nothing };
                self.construct(b)
            }
            K::Into => Out::Val(self.encode(&self.bits, Self::little(op.e, d.into_le))),
            K::IntoTrait => Out::Val(self.encode(&self.bits, d.into_le)),
            K::IntoSlice | K::CIntoSlice => {
                let mut buf = vec![0xA5u8; op.len as usize];
                let v = self.encode(&self.bits, Self::little(op.e, d.into_le));
                if op.k == K::CIntoSlice && buf.len() < v.len() {
                    return Out::Err(buf);
                }
                let n = buf.len().min(v.len());
                buf[..n].copy_from_slice(&v[..n]);
                if op.k == K::CIntoSlice { Out::Ok(buf) } else { Out::Val(buf) }
            }
            K::Get => {
                let f = f.unwrap();
                Out::Val(Self::field_value(f, &Self::raw(&self.bits, f)))
            }
            K::InvGet => {
                let f = f.unwrap();
                let raw: Vec<bool> = Self::raw(&self.bits, f).iter().map(|b| !b).collect();
                Out::Val(Self::field_value(f, &raw))
            }
            K::GetBit | K::CGetBit => {
                let checked = op.k == K::CGetBit;
                if op.off >= n || !self.field_at(op.off).readable() {
                    return if checked { Out::Err(Vec::new()) } else { Out::Val(vec![0]) };
                }
                let b = vec![self.bits[op.off as usize] as u8];
                if checked { Out::Ok(b) } else { Out::Val(b) }
            }
            K::GetRange | K::CGetRange => {
                let checked = op.k == K::CGetRange;
                if !self.in_range(op.off, op.len) {
                    return if checked { Out::Err(Vec::new()) } else { Out::Val(vec![0; d.nbytes()]) };
                }
                let mut res = vec![false; self.n()];
                for i in 0..op.len {
                    let p = op.off + i;
                    if !self.field_at(p).readable() {
                        if checked {
                            return Out::Err(Vec::new());
                        }
                        continue;
                    }
                    res[i as usize] = self.bits[p as usize];
                }
                let v = to_bytes(&res);
                if checked { Out::Ok(v) } else { Out::Val(v) }
            }
            K::Debug | K::DebugAlt => Out::Text(self.debug(op.e)),
            K::ConstBits => Out::Val(f.unwrap().bits.to_le_bytes().to_vec()),
            K::ConstOff => Out::Val(f.unwrap().off.to_le_bytes().to_vec()),
            K::IgnGet => Out::Val(self.ign[op.f as usize].to_le_bytes().to_vec()),
            K::IgnSet => {
                let mut b = [0u8; 8];
                b[..op.v.len().min(8)].copy_from_slice(&op.v[..op.v.len().min(8)]);
                self.ign[op.f as usize] = (d.ignored[op.f as usize].1)(u64::from_le_bytes(b));
                Out::Unit
            }
            K::CopyIso => Out::Unit,
            K::Set | K::CSet => {
                let f = f.unwrap();
                if op.k == K::CSet && !Self::fits(f, &op.v) {
                    return Out::Err(Vec::new());
                }
                Self::put(&mut self.bits, f, &Self::arg_bits(f, &op.v));
                if op.k == K::CSet { Out::Ok(Vec::new()) } else { Out::Unit }
            }
            K::ClearF => {
                Self::zero(&mut self.bits, f.unwrap());
                Out::Unit
            }
            K::ClearFDef => {
                Self::put_default(&mut self.bits, f.unwrap());
                Out::Unit
            }
            K::InvertF => {
                let f = f.unwrap();
                let raw: Vec<bool> = Self::raw(&self.bits, f).iter().map(|b| !b).collect();
                Self::put(&mut self.bits, f, &raw);
                Out::Unit
            }
            K::SetBit | K::CSetBit => {
                let checked = op.k == K::CSetBit;
                if op.off >= n || !self.field_at(op.off).has_setter() {
                    return if checked { Out::Err(Vec::new()) } else { Out::Unit };
                }
                self.bits[op.off as usize] = op.bit;
                if checked { Out::Ok(Vec::new()) } else { Out::Unit }
            }
            K::SetRange | K::CSetRange => {
                let checked = op.k == K::CSetRange;
                if !self.in_range(op.off, op.len) {
                    return if checked { Out::Err(Vec::new()) } else { Out::Unit };
                }
                if checked && (0..op.len).any(|i| !self.field_at(op.off + i).has_setter()) {
                    return Out::Err(Vec::new());
                }
                for i in 0..op.len {
                    if self.field_at(op.off + i).has_setter() {
                        self.bits[(op.off + i) as usize] = bit(&op.v, i as usize);
                    }
                }
                if checked { Out::Ok(Vec::new()) } else { Out::Unit }
            }
            K::Write => {
                let mut little = Self::little(op.e, d.write_le);
                if d.arr {
                    // Known finding, pinned by the repository's tests: the byte
                    // order of array writes is the opposite of from/into.
                    little = !little;
                }
                let src = self.decode(&op.v, little);
                for f in d.fields {
                    if f.has_setter() {
                        Self::put(&mut self.bits, f, &Self::raw(&src, f));
                    }
                }
                if op.d {
                    let mut b = self.bits.clone();
                    self.all_defaults(&mut b);
                    self.bits = b;
                }
                Out::Unit
            }
            K::WriteDefaults => {
                let mut b = self.bits.clone();
                self.all_defaults(&mut b);
                self.bits = b;
                Out::Unit
            }
            K::Clear => {
                self.bits = self.fresh(false);
                Out::Unit
            }
            K::ClearD => {
                self.bits = self.fresh(true);
                Out::Unit
            }
            K::Invert => {
                let mut b = self.bits.clone();
                for f in d.fields {
                    let raw: Vec<bool> =
                        Self::raw(&b, f).iter().map(|x| if f.has_setter() { !x } else { *x }).collect();
                    Self::put(&mut b, f, &raw);
                }
                self.bits = b;
                Out::Unit
            }
        }
    }

    fn construct(&mut self, b: Vec<bool>) -> Out {
        self.bits = b;
        self.live = true;
        self.ign = self.d.ignored.iter().map(|i| i.0).collect();
        Out::Unit
    }

    fn from_bits(&self, src: &[bool], defaults: bool) -> Vec<bool> {
        let mut b = vec![false; self.n()];
        for f in self.d.fields {
            Self::put(&mut b, f, &Self::raw(src, f));
        }
        if defaults {
            self.all_defaults(&mut b);
        }
        b
    }

    /// What an error of the operation is about.
    fn cause(&self, op: &Op) -> &'static [&'static str] {
        let n = self.d.nbits;
        match op.k {
            K::CSet | K::BCWith => &["value"],
            K::CFromSlice | K::CIntoSlice => &["slice"],
            K::CGetBit | K::CSetBit if op.off >= n => &["offset"],
            K::CGetRange | K::CSetRange if op.off >= n && op.len > n => &["offset", "length"],
            K::CGetRange | K::CSetRange if op.off >= n => &["offset"],
            K::CGetRange | K::CSetRange if op.len > n - op.off => &["length"],
            K::CGetBit | K::CGetRange => &["read"],
            K::CSetBit | K::CSetRange => &["write"],
            _ => &[],
        }
    }

    fn in_range(&self, off: u32, len: u32) -> bool {
        off < self.d.nbits && len <= self.d.nbits - off
    }

    pub fn field_at(&self, bit: u32) -> &'static Fd {
        self.d.fields.iter().find(|f| f.off <= bit && bit < f.off + f.bits).expect("fields cover the bitfield")
    }

    /// `{:?}` output. Alternate output is compared after dropping whitespace
    /// and trailing commas.
    /// The text of Debug, for the format options that `e` stands for.
    pub fn debug(&self, e: u8) -> String {
        fn number<T: std::fmt::Debug>(v: T, e: u8) -> String {
            match e {
                1 => format!("{v:x?}"),
                2 => format!("{v:X?}"),
                3 => format!("{v:08?}"),
                4 => format!("{v:+?}"),
                5 => format!("{v:<5?}"),
                _ => format!("{v:?}"),
            }
        }
        let mut parts = Vec::new();
        for f in self.d.fields {
            let raw = Self::raw(&self.bits, f);
            let text = match f.ty {
                Ty::I(w) => {
                    let v = Self::field_value(f, &raw);
                    let sign = raw[raw.len() - 1] && !matches!(e, 1 | 2);
                    let mut b = [if sign { 0xFF } else { 0 }; 16];
                    b[..(w / 8) as usize].copy_from_slice(&v);
                    number(i128::from_le_bytes(b), e)
                }
                Ty::Arr(_) if self.d.arr => number(Self::field_value(f, &raw), e),
                _ => number(to_u128(&raw), e),
            };
            parts.push(format!("{}: {}", f.name, text));
        }
        format!("{} {{ {} }}", self.d.name, parts.join(", "))
    }
}
