//! Operations, results and the static description of a generated bitfield.

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum K {
    // Constructors.
    New,
    NewWd,
    Default,
    From,
    FromTrait,
    FromSlice,
    CFromSlice,
    BNew,
    BNewWd,
    BDefault,
    BWith,
    BCWith,
    BBuild,
    // Observers.
    Into,
    IntoTrait,
    IntoSlice,
    CIntoSlice,
    Get,
    InvGet,
    GetBit,
    CGetBit,
    GetRange,
    CGetRange,
    Debug,
    DebugAlt,
    ConstBits,
    ConstOff,
    IgnGet,
    CopyIso,
    // Mutators.
    Set,
    CSet,
    ClearF,
    ClearFDef,
    InvertF,
    SetBit,
    CSetBit,
    SetRange,
    CSetRange,
    Write,
    WriteDefaults,
    Clear,
    ClearD,
    Invert,
    IgnSet,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub k: K,
    /// Field (or ignored field) index.
    pub f: u16,
    /// Endian: 0 configured, 1 little, 2 big.
    pub e: u8,
    /// `_with_defaults` variant.
    pub d: bool,
    pub off: u32,
    pub len: u32,
    pub bit: bool,
    /// Little-endian bytes of the value argument (or the slice itself).
    pub v: Vec<u8>,
}

impl Op {
    pub fn new(k: K) -> Self {
        Op { k, f: 0, e: 0, d: false, off: 0, len: 0, bit: false, v: Vec::new() }
    }
    pub fn f(mut self, f: usize) -> Self {
        self.f = f as u16;
        self
    }
    pub fn e(mut self, e: u8) -> Self {
        self.e = e;
        self
    }
    pub fn d(mut self, d: bool) -> Self {
        self.d = d;
        self
    }
    pub fn at(mut self, off: u32, len: u32) -> Self {
        self.off = off;
        self.len = len;
        self
    }
    pub fn bit(mut self, b: bool) -> Self {
        self.bit = b;
        self
    }
    pub fn v(mut self, v: Vec<u8>) -> Self {
        self.v = v;
        self
    }
    pub fn show(&self, d: &Desc) -> String {
        let mut s = format!("{:?}", self.k);
        match self.k {
            K::IgnGet | K::IgnSet => s += &format!(" ignored#{}", self.f),
            K::BWith | K::BCWith | K::Get | K::InvGet | K::ConstBits | K::ConstOff | K::Set | K::CSet
            | K::ClearF | K::ClearFDef | K::InvertF => {
                s += &format!(" field={}", d.fields.get(self.f as usize).map_or("?", |f| f.name))
            }
            K::GetBit | K::CGetBit => s += &format!(" off={}", self.off),
            K::SetBit | K::CSetBit => s += &format!(" off={} bit={}", self.off, self.bit),
            K::GetRange | K::CGetRange | K::SetRange | K::CSetRange => {
                s += &format!(" off={} len={}", self.off, self.len)
            }
            K::IntoSlice | K::CIntoSlice => s += &format!(" slice_len={}", self.len),
            _ => {}
        }
        match self.k {
            K::From | K::FromSlice | K::CFromSlice | K::Into | K::IntoSlice | K::CIntoSlice | K::Write => {
                s += [" endian=configured", " endian=little", " endian=big"].get(self.e as usize).unwrap_or(&" endian=lowest byte first");
                if self.d {
                    s += " with_defaults";
                }
            }
            _ => {}
        }
        if !self.v.is_empty() {
            s += " v=0x";
            let long = self.v.len() > 1024;
            for b in self.v.iter().take(if long { 64 } else { self.v.len() }).rev() {
                s += &format!("{b:02x}");
            }
            if long {
                s += &format!(" (lowest bytes of {})", self.v.len());
            }
        }
        s
    }
}

/// Result of an operation. Values are little-endian bytes.
#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Nothing,
    Unit,
    Val(Vec<u8>),
    Ok(Vec<u8>),
    Err(Vec<u8>),
    Text(String),
}

thread_local! { static TEXT: std::cell::Cell<Option<&'static str>> = const { std::cell::Cell::new(None) }; }

/// Records the text of an error.
pub fn note(e: &'static str) {
    TEXT.with(|t| t.set(Some(e)));
}

pub fn noted() -> Option<&'static str> {
    TEXT.with(|t| t.take())
}

pub struct Ret {
    pub out: Out,
    pub allocs: u64,
}

impl Ret {
    pub fn new() -> Self {
        Ret { out: Out::Nothing, allocs: 0 }
    }
    pub fn put<T: IntoOut>(&mut self, t: T) {
        self.out = t.into_out();
    }
}

impl Default for Ret {
    fn default() -> Self {
        Self::new()
    }
}

pub trait IntoOut {
    fn into_out(self) -> Out;
}
impl IntoOut for () {
    fn into_out(self) -> Out {
        Out::Unit
    }
}
impl IntoOut for bool {
    fn into_out(self) -> Out {
        Out::Val(vec![self as u8])
    }
}
macro_rules! ints { ($($t:ty),*) => { $( impl IntoOut for $t { fn into_out(self) -> Out { Out::Val(self.to_le_bytes().to_vec()) } } )* } }
ints!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128);
impl<const N: usize> IntoOut for [u8; N] {
    fn into_out(self) -> Out {
        Out::Val(self.to_vec())
    }
}
impl IntoOut for String {
    fn into_out(self) -> Out {
        Out::Text(self)
    }
}
impl<T: IntoOut> IntoOut for Result<T, &'static str> {
    fn into_out(self) -> Out {
        match self {
            Ok(t) => match t.into_out() {
                Out::Val(v) => Out::Ok(v),
                _ => Out::Ok(Vec::new()),
            },
            Err(e) => {
                note(e);
                Out::Err(Vec::new())
            }
        }
    }
}

/// Argument decoding.
pub struct V<'a>(pub &'a [u8]);
macro_rules! dec { ($($n:ident $t:ty),*) => { $( pub fn $n(&self) -> $t { let mut b = [0u8; core::mem::size_of::<$t>()]; let n = b.len().min(self.0.len()); b[..n].copy_from_slice(&self.0[..n]); <$t>::from_le_bytes(b) } )* } }
impl V<'_> {
    dec!(u8 u8, u16 u16, u32 u32, u64 u64, u128 u128, i8 i8, i16 i16, i32 i32, i64 i64, i128 i128);
    pub fn b(&self) -> bool {
        self.0.first().is_some_and(|b| b & 1 == 1)
    }
    pub fn arr<const N: usize>(&self) -> [u8; N] {
        let mut b = [0u8; N];
        let n = N.min(self.0.len());
        b[..n].copy_from_slice(&self.0[..n]);
        b
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Acc {
    Rw,
    Ro,
    Wo,
    Na,
}

#[derive(Clone, Copy)]
pub enum Ty {
    U(u32),
    I(u32),
    Bool,
    /// Bytes.
    Arr(u32),
    /// A user type: width of its integer, and what storing raw bits through it
    /// yields (`into_bits(from_bits(raw))`).
    Custom(u32, fn(u128) -> u128),
}

impl Ty {
    pub fn width(&self) -> u32 {
        match *self {
            Ty::U(w) | Ty::I(w) | Ty::Custom(w, _) => w,
            Ty::Bool => 1,
            Ty::Arr(n) => n * 8,
        }
    }
    pub fn bytes(&self) -> usize {
        self.width().div_ceil(8) as usize
    }
    pub fn custom(&self) -> bool {
        matches!(self, Ty::Custom(..))
    }
}

pub struct Fd {
    pub name: &'static str,
    pub off: u32,
    pub bits: u32,
    pub ty: Ty,
    pub acc: Acc,
    pub reserved: bool,
    /// Declared with a `#[bits]` attribute.
    pub attr: bool,
    /// Raw default bits, little-endian bytes.
    pub def: Option<&'static [u8]>,
}

impl Fd {
    pub fn has_setter(&self) -> bool {
        !self.reserved && matches!(self.acc, Acc::Rw | Acc::Wo)
    }
    pub fn has_getter(&self) -> bool {
        !self.reserved && matches!(self.acc, Acc::Rw | Acc::Ro)
    }
    /// Whether bit reads may disclose the field.
    pub fn readable(&self) -> bool {
        if self.reserved { self.attr || self.def.is_some() } else { self.has_getter() }
    }
    pub fn builder(&self) -> bool {
        self.has_setter() || self.has_getter()
    }
}

pub mod has {
    pub const NEW: u32 = 1;
    pub const FROM_INTO: u32 = 2;
    pub const TRAITS: u32 = 4;
    pub const DEFAULT: u32 = 8;
    pub const DEBUG: u32 = 16;
    pub const COPY: u32 = 32;
    pub const WRITE: u32 = 64;
    pub const CLEAR: u32 = 128;
    pub const SETGET: u32 = 256;
    pub const INVERT: u32 = 512;
    pub const BUILDER: u32 = 1024;
    pub const INTO_TRAIT: u32 = 2048;
}

pub struct Desc {
    pub id: &'static str,
    /// Type name, as printed by Debug.
    pub name: &'static str,
    pub decl: &'static str,
    pub arr: bool,
    pub nbits: u32,
    pub fields: &'static [Fd],
    pub from_le: bool,
    pub into_le: bool,
    pub write_le: bool,
    pub heap: bool,
    pub has: u32,
    /// Default values of the ignored fields, and what storing a value keeps.
    pub ignored: &'static [(u64, fn(u64) -> u64)],
    /// Twin group: members with the same group and same field list.
    pub group: &'static str,
}

impl Desc {
    pub fn has(&self, f: u32) -> bool {
        self.has & f == f
    }
    pub fn nbytes(&self) -> usize {
        (self.nbits / 8) as usize
    }
}

pub trait Subject {
    fn exec(&mut self, op: &Op, ret: &mut Ret);
}

pub struct Entry {
    pub desc: &'static Desc,
    pub make: fn() -> Box<dyn Subject>,
}
