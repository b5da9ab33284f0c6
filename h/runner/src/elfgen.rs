//! Builds ELF32 images.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Seg {
    pub flags: u32,
    pub vaddr: u32,
    pub file: Vec<u8>,
    pub extra: u32,
    pub p_type: u32,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Image {
    pub entry: u32,
    pub segs: Vec<Seg>,
    pub gap: u8,
}
impl Image {
    /// where each segment's bytes sit in the file
    pub fn build(&self) -> Vec<u8> {
        let n = self.segs.len();
        let mut off = 52 + 32 * n;
        let mut head: Vec<u8> = vec![0x7f, b'E', b'L', b'F', 1, 1, 1, 0];
        head.resize(16, 0);
        head.extend(2u16.to_le_bytes());
        head.extend(243u16.to_le_bytes());
        for w in [1, self.entry, 52, 0, 0] { head.extend((w as u32).to_le_bytes()); }
        for h in [52u16, 32, n as u16, 40, 0, 0] { head.extend(h.to_le_bytes()); }
        let mut body = vec![];
        for s in &self.segs {
            off += self.gap as usize;
            body.extend(std::iter::repeat(0xcc).take(self.gap as usize));
            for w in [s.p_type, off as u32, s.vaddr, s.vaddr, s.file.len() as u32, s.file.len() as u32 + s.extra, s.flags, 1] {
                head.extend(w.to_le_bytes());
            }
            body.extend(&s.file);
            off += s.file.len();
        }
        head.extend(body);
        head
    }
}
pub fn image() -> impl Strategy<Value = Image> {
    let bytes = prop_oneof![3 => prop::collection::vec(any::<u8>(), 0..40), 2 => prop::collection::vec(prop::sample::select(vec![0x13u8, 0x33, 0x73, 0, 0xff, 0x93]), 0..40)];
    let seg = (prop::sample::select(vec![4u32, 5, 6, 7, 1, 6, 4, 5, 0, 2, 3]), bytes, prop_oneof![2 => Just(0u32), 2 => 0u32..40], 0u32..9, any::<bool>());
    (
        prop::collection::vec(seg, 1..6),
        prop_oneof![3 => Just(0u32), 1 => Just(0x1_0000), 1 => 0u32..0x2000_0000],
        any::<u32>(),
        0u8..7,
        prop::sample::select(vec![0u32, 0, 0, 1]),
        any::<u32>(),
    )
        .prop_map(|(segs, base, entry, gap, top, order)| {
            // laid out one after another, never overlapping; optionally ending at the top of memory
            let mut at = base;
            let mut v: Vec<Seg> = segs.into_iter().map(|(flags, file, extra, pad, load)| {
                at += pad;
                let s = Seg { flags, vaddr: at, extra, p_type: if load || !file.is_empty() || extra > 0 { 1 } else { 0x6474_e551 }, file };
                at += s.file.len() as u32 + s.extra;
                s
            }).collect();
            if top == 1 {
                let shift = 0u32.wrapping_sub(at);
                for s in &mut v { s.vaddr = s.vaddr.wrapping_add(shift); }
            }
            // and in any order in the file
            let mut order = order;
            for k in (1..v.len()).rev() { v.swap(k, order as usize % (k + 1)); order /= 7; }
            Image { entry: entry & !3, segs: v, gap }
        })
}
