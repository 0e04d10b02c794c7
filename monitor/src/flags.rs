//! Monitor for generated bitflags: every conversion is compared with the table
//! of the declared variants.
use crate::report::{esc, Report};
use crate::rng::{hash_str, Rng};
use std::collections::{BTreeMap, HashSet};

pub struct Flag {
    pub id: &'static str,
    pub decl: &'static str,
    /// Width of the type in bits.
    pub width: u32,
    /// The declared bits of each variant, in order.
    pub values: &'static [u128],
    /// The variant that unknown bits become.
    pub fallback: usize,
    pub from_little: bool,
    pub into_little: bool,
    pub copy: bool,
    /// The variant that bits become.
    pub from: fn(u128) -> usize,
    /// The bits that a variant becomes.
    pub into: fn(usize) -> u128,
    /// The discriminant of a variant.
    pub disc: fn(usize) -> u128,
    pub size: usize,
    pub is_copy: bool,
    pub is_clone: bool,
    /// The index of `Default::default()`, if the declaration derives it, and the
    /// variant it should be.
    pub default: Option<(fn() -> usize, usize)>,
    /// (bits, variant they became in a constant), (variant, bits in a constant)
    pub const_from: &'static [(u128, usize)],
    pub const_into: &'static [(usize, u128)],
}

fn swap(v: u128, width: u32) -> u128 {
    let n = (width / 8) as usize;
    let b = v.to_le_bytes();
    let mut o = [0u8; 16];
    for i in 0..n {
        o[i] = b[n - 1 - i];
    }
    u128::from_le_bytes(o)
}

fn inputs(f: &Flag, seed: u64) -> Vec<u128> {
    let max = if f.width == 128 { u128::MAX } else { (1u128 << f.width) - 1 };
    let tiny = std::env::var("VP_TINY").is_ok();
    if f.width <= 16 && !tiny {
        return (0..=max).collect();
    }
    let mut out = vec![0, 1, max, max - 1, max / 2, max / 2 + 1];
    for v in f.values {
        for w in [*v, swap(*v, f.width)] {
            out.push(w);
            out.push(w.wrapping_add(1) & max);
            out.push(w.wrapping_sub(1) & max);
            out.push(!w & max);
            for i in (0..f.width).step_by(if tiny { 7 } else { 1 }) {
                out.push(w ^ (1 << i));
            }
            // The same bits in a narrower type.
            for k in [8, 16, 32, 64] {
                if k < f.width {
                    out.push(w & ((1 << k) - 1));
                    out.push((w << k) & max);
                    out.push(w >> k);
                }
            }
        }
    }
    let mut r = Rng::new(seed ^ hash_str(f.id));
    for _ in 0..if tiny { 20 } else { 1500 } {
        out.push(((r.next() as u128) << 64 | r.next() as u128) & max);
    }
    out
}

pub fn main(flags: &[Flag]) {
    let prop = std::env::var("VP_PROP").unwrap_or_else(|_| "C11".into());
    let seed = std::env::var("VP_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let out = std::env::var("VP_OUT").expect("VP_OUT");
    let mut rep = Report::new(&prop);
    let mut raw: Vec<String> = Vec::new();
    let mut sigs: HashSet<(u64, u128, usize)> = HashSet::new();
    let mut kinds: BTreeMap<&str, u64> = BTreeMap::new();
    let mut samples = Vec::new();
    let mut n = 0u64;
    for f in flags {
        let mut bad: Vec<(&str, String)> = Vec::new();
        let id = hash_str(f.id);
        let want = |bits: u128| {
            let b = if f.from_little { swap(bits, f.width) } else { bits };
            f.values.iter().position(|v| *v == b).unwrap_or(f.fallback)
        };
        for bits in inputs(f, seed) {
            n += 1;
            let exp = want(bits);
            let hit = f.values.contains(&if f.from_little { swap(bits, f.width) } else { bits });
            *kinds.entry(if hit { "from_known" } else { "from_unknown" }).or_insert(0) += 1;
            sigs.insert((id, if hit { bits } else { u128::MAX }, exp));
            match std::panic::catch_unwind(|| (f.from)(bits)) {
                Ok(got) if got == exp => {}
                Ok(got) => bad.push(("from", format!("from_bits({:#x}) is variant {} but should be variant {}", bits, got, exp))),
                Err(_) => bad.push(("from-panic", format!("from_bits({:#x}) panicked", bits))),
            }
        }
        for (i, v) in f.values.iter().enumerate() {
            n += 4;
            *kinds.entry("into").or_insert(0) += 1;
            *kinds.entry("round_trip").or_insert(0) += 1;
            let exp = if f.into_little { swap(*v, f.width) } else { *v };
            sigs.insert((id ^ 1, *v, i));
            match std::panic::catch_unwind(|| (f.into)(i)) {
                Ok(got) if got == exp => {}
                Ok(got) => bad.push(("into", format!("into_bits of variant {} is {:#x} but should be {:#x}", i, got, exp))),
                Err(_) => bad.push(("into-panic", format!("into_bits of variant {} panicked", i))),
            }
            if f.from_little == f.into_little {
                let back = (f.from)((f.into)(i));
                if back != i {
                    bad.push(("round-trip", format!("the bits of variant {} come back as variant {}", i, back)));
                }
            }
            if (f.disc)(i) != *v {
                bad.push(("discriminant", format!("variant {} has the discriminant {:#x}, not {:#x}", i, (f.disc)(i), v)));
            }
        }
        for (bits, got) in f.const_from {
            n += 1;
            *kinds.entry("const_from").or_insert(0) += 1;
            if *got != want(*bits) {
                bad.push(("const-from", format!("from_bits({:#x}) in a constant is variant {}, not {}", bits, got, want(*bits))));
            }
        }
        for (i, got) in f.const_into {
            n += 1;
            *kinds.entry("const_into").or_insert(0) += 1;
            let exp = if f.into_little { swap(f.values[*i], f.width) } else { f.values[*i] };
            if *got != exp {
                bad.push(("const-into", format!("into_bits of variant {} in a constant is {:#x}, not {:#x}", i, got, exp)));
            }
        }
        n += 3;
        if f.size != (f.width / 8) as usize {
            bad.push(("size", format!("the enum takes {} bytes instead of {}", f.size, f.width / 8)));
        }
        if f.is_copy != f.copy || f.is_clone != f.copy {
            bad.push(("copy", format!("Copy: {}, Clone: {}, but copy is {}", f.is_copy, f.is_clone, f.copy)));
        }
        if let Some((d, exp)) = f.default {
            n += 1;
            if d() != exp {
                bad.push(("default", format!("Default::default() is variant {}, not {}", d(), exp)));
            }
        }
        let mut seen = HashSet::new();
        for (key, what) in bad {
            if seen.insert(key) {
                raw.push(format!(
                    "{{\"t\":\"violation\",\"tags\":[{}],\"schema\":{},\"key\":{},\"what\":{},\"decl\":{},\"history\":[]}}",
                    esc(&prop), esc(f.id), esc(&format!("/{}", key)), esc(&what), esc(f.decl)
                ));
            }
        }
        if samples.len() < 3 {
            samples.push(format!("{}: {} inputs, {} variants", f.decl.split('{').next().unwrap_or(""), inputs(f, seed).len(), f.values.len()));
        }
    }
    rep.schemas = flags.len() as u64;
    rep.events = n;
    rep.relevant = n;
    rep.samples = samples;
    for (k, v) in kinds {
        rep.by_kind.insert(k.to_string(), v);
    }
    for s in sigs {
        rep.sigs.insert(s.0 ^ (s.1 as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ ((s.1 >> 64) as u64).rotate_left(17) ^ (s.2 as u64) << 3);
    }
    rep.write(&out);
    use std::io::Write;
    let mut fh = std::fs::OpenOptions::new().append(true).open(&out).expect("report");
    for l in raw {
        writeln!(fh, "{}", l).unwrap();
    }
}
