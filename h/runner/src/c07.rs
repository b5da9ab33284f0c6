//! C07: ELF images.
use std::collections::BTreeMap;

use h_common::{ensure_same, ensure_that, guarded, Check, Fail, Obs, Verdict};
use mozak_runner::code::Code;
use mozak_runner::decode::decode_instruction;
use mozak_runner::elf::{Data, Program};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::elfgen::{image, Image, Seg};

type Mem = BTreeMap<u32, u8>;
fn want(img: &Image) -> (Mem, Mem, Mem) {
    let pick = |f: &dyn Fn(u32) -> bool| {
        let mut m = Mem::new();
        for s in img.segs.iter().filter(|s| f(s.flags)) {
            for k in 0..s.file.len() as u32 + s.extra {
                m.insert(s.vaddr.wrapping_add(k), s.file.get(k as usize).copied().unwrap_or(0));
            }
        }
        m
    };
    (pick(&|f| f & 4 != 0 && f & 2 == 0), pick(&|f| f & 6 == 6), pick(&|f| f & 1 != 0))
}
fn flat(d: &Data) -> Mem { d.iter().map(|(a, b)| (*a, *b)).collect() }
fn same_program(img: &Image, p: &Program) -> Result<(), Fail> {
    let (ro, rw, code) = want(img);
    ensure_same!(p.entry_point, img.entry, "entry point");
    ensure_same!(flat(&p.ro_memory), ro, "read-only memory");
    ensure_same!(flat(&p.rw_memory), rw, "read-write memory");
    code_is(&p.ro_code, &code)
}
fn code_is(c: &Code, bytes: &Mem) -> Result<(), Fail> {
    let addrs: std::collections::BTreeSet<u32> = bytes.keys().map(|a| a & !3).collect();
    let got: std::collections::BTreeSet<u32> = c.keys().copied().collect();
    ensure_same!(got, addrs, "addresses holding instructions");
    for a in addrs {
        let w = (0..4).fold(0u32, |w, i| w | u32::from(bytes.get(&(a + i)).copied().unwrap_or(0)) << (8 * i));
        ensure_same!(c.get_instruction(a).cloned(), Some(decode_instruction(a, w)), "instruction at {a:#x} (word {w:#010x})");
    }
    Ok(())
}

fn load(img: &Image) -> Verdict {
    let elf = img.build();
    for (n, r) in [("vanilla_load_elf", guarded(|| Program::vanilla_load_elf(&elf))), ("mozak_load_program", guarded(|| Program::mozak_load_program(&elf)))] {
        match r {
            Ok(Ok(p)) => same_program(img, &p)?,
            Ok(Err(e)) => return Err(format!("{n} refuses a well-formed image: {e}").into()),
            Err(p) => return Err(format!("{n} panics on a well-formed image: {p}").into()),
        }
    }
    let bytes: usize = img.segs.iter().map(|s| s.file.len() + s.extra as usize).sum();
    let bss = img.segs.iter().any(|s| s.extra > 0);
    let top = img.segs.iter().any(|s| s.vaddr > 0xffff_0000);
    let rwx = img.segs.iter().any(|s| s.flags & 7 == 7 && !s.file.is_empty());
    Ok(Obs::new(bytes > 8 && img.segs.len() > 1).class(rwx, "writable code").class(bss, "zero-filled tail").class(top, "reaches the top of memory"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Broken { img: Image, field: u8, seg: u8, value: u32, cut: u16 }

/// Whether some program header of the file asks for more than a megabyte.
fn huge(e: &[u8]) -> bool {
    let at = |o: usize, n: usize| e.get(o..o + n).map_or(0, |b| b.iter().rev().fold(0usize, |v, x| v << 8 | usize::from(*x)));
    (0..at(44, 2)).any(|k| { let ph = at(28, 4) + 32 * k; at(ph + 16, 4).max(at(ph + 20, 4)) > 1 << 20 })
}

/// Makes the image wrong in one definite way and says whether it must be refused.
fn broken(c: &Broken) -> Verdict {
    let mut e = c.img.build();
    let ph = 52 + 32 * (c.seg as usize % c.img.segs.len());
    let s = &c.img.segs[c.seg as usize % c.img.segs.len()];
    let used = s.flags & 5 != 0;
    let put = |e: &mut Vec<u8>, o: usize, v: u32| e[o..o + 4].copy_from_slice(&v.to_le_bytes());
    let file = e.len() as u32;
    let (must_refuse, what) = match c.field % 12 {
        0 => { e[4] = 2; (true, "64-bit class") }
        1 => { e[5] = 2; (true, "big-endian") }
        2 => { e[18] ^= 1 + (c.value as u8 % 255); (true, "foreign machine") }
        3 => { e[16] = [0u8, 1, 3, 4, 5][c.value as usize % 5]; (true, "not an executable") }
        4 => { put(&mut e, 24, c.img.entry | (1 + c.value % 3)); (true, "misaligned entry") }
        5 => { e[44] = 0; e[45] = 0; (true, "no program headers") }
        6 => { e[(c.value % 4) as usize] ^= 0x20; (true, "bad magic") }
        7 => { e.truncate(c.cut as usize % (52 + 32 * c.img.segs.len())); (true, "truncated headers") }
        8 => { put(&mut e, ph + 4, file + 1 + c.value % 0x7000_0000); (used && s.file.len() + s.extra as usize > 0, "segment offset past the end of the file") }
        9 => {
            // file size past the end of the file, memory size to match
            let n = file + 1 + c.value % 5000;
            put(&mut e, ph + 16, n);
            put(&mut e, ph + 20, n);
            (used, "segment size past the end of the file")
        }
        10 => {
            let n = (s.file.len() as u32 + s.extra).max(2);
            put(&mut e, ph + 20, n);
            put(&mut e, ph + 8, 0u32.wrapping_sub(1 + c.value % (n - 1)));
            (used, "segment past the top of memory")
        }
        _ => { let k = c.cut as usize % e.len(); let keep = c.img.segs.iter().enumerate().any(|(i, _)| (52 + 32 * i + 16..52 + 32 * i + 24).contains(&k)); if !keep { e[k] ^= 1 + (c.value as u8 % 255); } (false, "any byte changed") }
    };
    // what matters is not how long loading gigabytes takes
    if !must_refuse && huge(&e) { return Ok(Obs::default()); }
    match guarded(|| (Program::vanilla_load_elf(&e).is_ok(), Program::mozak_load_program(&e).is_ok())) {
        Err(p) => Err(format!("loading panics on a malformed image ({what}): {p}").into()),
        Ok((a, b)) => {
            ensure_that!(!(must_refuse && (a || b)), "a malformed image ({what}) is accepted");
            Ok(Obs::new(must_refuse).class(must_refuse, "must be refused"))
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Words(Vec<(u32, u32)>);

/// Word images, as `Program::from` / `Data::from` take them.
fn words(c: &Words) -> Verdict {
    let mut taken = std::collections::BTreeMap::new();
    for (a, w) in &c.0 { taken.insert(a & !3, *w); }
    let img: im::hashmap::HashMap<u32, u32> = taken.iter().map(|(a, w)| (*a, *w)).collect();
    let mut m = Mem::new();
    for (a, w) in &taken { for (i, b) in w.to_le_bytes().iter().enumerate() { m.insert(a + i as u32, *b); } }
    let d = guarded(|| Data::from(img.clone())).map_err(|p| Fail::from(format!("building data panics: {p}")))?;
    ensure_same!(flat(&d), m, "bytes of a word image");
    let p = guarded(|| Program::from(img)).map_err(|p| Fail::from(format!("building a program panics: {p}")))?;
    ensure_same!(flat(&p.rw_memory), m, "bytes of a program made from words");
    ensure_that!(p.ro_memory.is_empty(), "a program made from words has read-only memory");
    code_is(&p.ro_code, &m)?;
    let s = serde_json::to_string(&p).map_err(|e| Fail::from(format!("{e}")))?;
    let back: Program = serde_json::from_str(&s).map_err(|e| Fail::from(format!("{e}")))?;
    ensure_that!(back == p, "a program does not survive serialisation");
    Ok(Obs::new(taken.len() > 2))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Clash { a: u32, d: u32, w: (u32, u32) }

/// Any two of the words overlapping are enough to refuse them.
fn clashes(c: &Words) -> Verdict {
    let img: im::hashmap::HashMap<u32, u32> = c.0.iter().copied().collect();
    if img.keys().any(|a| *a > 0xffff_fffc) { return Ok(Obs::default()); }
    let keys: Vec<u32> = img.keys().copied().collect();
    let overlap = keys.iter().enumerate().any(|(i, a)| keys[..i].iter().any(|b| a.wrapping_sub(*b) < 4 || b.wrapping_sub(*a) < 4));
    let r = guarded(|| Data::from(img));
    ensure_same!(r.is_err(), overlap, "overlap of words at {keys:x?} refused");
    Ok(Obs::new(keys.len() > 3).class(overlap, "overlap").class(!overlap, "no overlap"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Many { n: usize, entry: u32, base: u32, kinds: Vec<(u32, u8, u32)> }

/// As many program headers as the loader takes, and not one more.
fn many(c: &Many) -> Verdict {
    let mut at = c.base;
    let segs = (0..c.n).map(|k| {
        let (flags, len, extra) = c.kinds[k % c.kinds.len()];
        let s = Seg { flags, vaddr: at, extra, p_type: 1, file: (0..len).map(|i| i.wrapping_mul(37).wrapping_add(k as u8)).collect() };
        at += u32::from(len) + extra;
        s
    }).collect();
    let img = Image { entry: c.entry & !3, segs, gap: 0 };
    if c.n <= 256 { return load(&img).map(|_| Obs::new(c.n > 8).class(c.n == 256, "256 headers")); }
    let e = img.build();
    match guarded(|| Program::vanilla_load_elf(&e).is_ok() || Program::mozak_load_program(&e).is_ok()) {
        Err(p) => Err(format!("loading panics on an image of {} program headers: {p}", c.n).into()),
        Ok(taken) => { ensure_that!(!taken, "an image of {} program headers is accepted", c.n); Ok(Obs::new(true).class(c.n == 257, "257 headers")) }
    }
}

pub fn check() -> ! {
    let mut c = Check::new("C07");
    let n = c.cases(300_000, 20);
    c.run("well-formed", "ELF32 images of 1-5 segments with every permission mask, unaligned addresses, zero-filled tails, some ending at the top of memory; non-trivial = more than one segment and more than 8 bytes", n, image, load);
    let n = c.cases(400_000, 20);
    c.run("malformed", "a well-formed image broken in one of twelve ways; non-trivial = the image must be refused", n,
        || (image(), 0u8..12, any::<u8>(), any::<u32>(), any::<u16>()).prop_map(|(img, field, seg, value, cut)| Broken { img, field, seg, value, cut }), broken);
    let n = c.cases(80_000, 20);
    c.run("words", "word images including the last word of memory, round-tripped through JSON; non-trivial = more than two words", n, || {
        let a = prop_oneof![4 => 0u32..64, 2 => any::<u32>(), 1 => 0xffff_fff0u32..=0xffff_ffff];
        prop::collection::vec((a, any::<u32>()), 0..12).prop_map(Words)
    }, words);
    let n = c.cases(40_000, 20);
    c.run("clash", "two data words d bytes apart: accepted exactly when they do not overlap (modulo 2^32)", n,
        || (prop_oneof![any::<u32>(), 0xffff_fff0u32..=0xffff_fffb, 0u32..16], prop_oneof![1u32..8, 0xffff_fff8u32..=0xffff_ffff, any::<u32>()], any::<(u32, u32)>()).prop_map(|(a, d, w)| Clash { a, d, w }),
        |c| {
            let b = c.a.wrapping_add(c.d);
            if c.d == 0 || c.a > 0xffff_fffc || b > 0xffff_fffc { return Ok(Obs::default()); }
            let img: im::hashmap::HashMap<u32, u32> = [(c.a, c.w.0), (b, c.w.1)].into_iter().collect();
            let overlap = c.d < 4 || c.d.wrapping_neg() < 4;
            let r = guarded(|| Data::from(img));
            ensure_same!(r.is_err(), overlap, "overlap of words at {:#x} and {b:#x} refused", c.a);
            Ok(Obs::new(true).class(overlap, "overlap"))
        });
    let n = c.cases(40_000, 20);
    c.run("clashes", "three to six data words, some a few bytes apart: accepted exactly when no two of them overlap (modulo 2^32); non-trivial = four words or more", n,
        || prop::collection::vec((prop_oneof![4 => 0u32..80, 1 => any::<u32>(), 2 => 0xffff_ffe0u32..=0xffff_fffc], any::<u32>()), 3..7).prop_map(Words), clashes);
    let n = c.cases(3_000, 20);
    c.run("headers", "images of 1 to 300 program headers, most of them around 256, the most that are taken; non-trivial = more than 8 headers", n,
        || (prop_oneof![1 => 1usize..300, 4 => 253usize..260], any::<u32>(), 0u32..0x1000_0000, prop::collection::vec((0u32..8, 0u8..5, 0u32..3), 7)).prop_map(|(n, entry, base, kinds)| Many { n, entry, base, kinds }), many);
    let n = c.cases(20_000, 20);
    c.run("misaligned words", "a program made from words, one of them at any address: refused unless it is a multiple of 4", n,
        || (any::<u32>(), any::<u32>(), 0u32..16).prop_map(|(a, w, b)| Clash { a, d: b, w: (w, w) }),
        |c| {
            let img: im::hashmap::HashMap<u32, u32> = [(c.a, c.w.0), (c.d * 4, c.w.1)].into_iter().collect();
            if c.a > 0xffff_fffc && c.a % 4 == 0 { return Ok(Obs::default()); }
            ensure_same!(guarded(|| Program::from(img)).is_err(), c.a % 4 != 0, "a program with a word at {:#x} refused", c.a);
            Ok(Obs::new(c.a % 4 != 0))
        });
    c.assume("segments of a well-formed image do not overlap and memory sizes are at least the file sizes");
    c.finish()
}
