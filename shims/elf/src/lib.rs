//! Stand-in for the parts of the `elf` crate (0.7) that mozak-runner uses.
use std::fmt;
use std::marker::PhantomData;

pub mod abi {
    pub const PF_NONE: u32 = 0;
    pub const PF_X: u32 = 1;
    pub const PF_W: u32 = 2;
    pub const PF_R: u32 = 4;
    pub const ET_NONE: u16 = 0;
    pub const ET_REL: u16 = 1;
    pub const ET_EXEC: u16 = 2;
    pub const ET_DYN: u16 = 3;
    pub const ET_CORE: u16 = 4;
    pub const EM_RISCV: u16 = 243;
    pub const PT_NULL: u32 = 0;
    pub const PT_LOAD: u32 = 1;
    pub const PT_DYNAMIC: u32 = 2;
    pub const PT_INTERP: u32 = 3;
    pub const PT_NOTE: u32 = 4;
    pub const PT_PHDR: u32 = 6;
    pub const PT_TLS: u32 = 7;
    pub const PT_GNU_STACK: u32 = 0x6474_e551;
    pub const PN_XNUM: u16 = 0xffff;
}

#[derive(Debug)]
pub enum ParseError {
    BadMagic([u8; 4]),
    UnsupportedElfClass(u8),
    UnsupportedElfEndianness(u8),
    UnsupportedVersion((u64, u64)),
    BadOffset(u64),
    BadEntsize((u64, u64)),
    SliceReadError((usize, usize)),
    IntegerOverflow,
}
impl fmt::Display for ParseError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{self:?}") }
}
impl std::error::Error for ParseError {}

pub mod endian {
    pub trait EndianParse: Clone + Copy + Default + PartialEq + Eq {
        fn is_little(self) -> bool;
        fn from_ei_data(ei_data: u8) -> Result<Self, super::ParseError>;
    }
    #[derive(Debug, Default, Clone, Copy, PartialEq, Eq)]
    pub struct LittleEndian;
    impl EndianParse for LittleEndian {
        fn is_little(self) -> bool { true }
        fn from_ei_data(ei_data: u8) -> Result<Self, super::ParseError> {
            if ei_data == 1 { Ok(Self) } else { Err(super::ParseError::UnsupportedElfEndianness(ei_data)) }
        }
    }
}
use endian::EndianParse;

pub mod file {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum Class { ELF32, ELF64 }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct FileHeader<E> {
        pub class: Class,
        pub endianness: E,
        pub version: u32,
        pub osabi: u8,
        pub abiversion: u8,
        pub e_type: u16,
        pub e_machine: u16,
        pub e_entry: u64,
        pub e_phoff: u64,
        pub e_shoff: u64,
        pub e_flags: u32,
        pub e_ehsize: u16,
        pub e_phentsize: u16,
        pub e_phnum: u16,
        pub e_shentsize: u16,
        pub e_shnum: u16,
        pub e_shstrndx: u16,
    }
}
use file::{Class, FileHeader};

struct Rd<'a> { d: &'a [u8], p: usize, w64: bool }
impl Rd<'_> {
    fn n(&mut self, n: usize) -> Result<u64, ParseError> {
        let end = self.p.checked_add(n).ok_or(ParseError::IntegerOverflow)?;
        let s = self.d.get(self.p..end).ok_or(ParseError::SliceReadError((self.p, end)))?;
        self.p = end;
        Ok(s.iter().rev().fold(0, |a, b| a << 8 | u64::from(*b)))
    }
    fn h(&mut self) -> Result<u16, ParseError> { Ok(self.n(2)? as u16) }
    fn w(&mut self) -> Result<u32, ParseError> { Ok(self.n(4)? as u32) }
    fn a(&mut self) -> Result<u64, ParseError> { if self.w64 { self.n(8) } else { self.n(4) } }
}

pub mod segment {
    use super::*;
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct ProgramHeader {
        pub p_type: u32,
        pub p_offset: u64,
        pub p_vaddr: u64,
        pub p_paddr: u64,
        pub p_filesz: u64,
        pub p_memsz: u64,
        pub p_flags: u32,
        pub p_align: u64,
    }
    #[derive(Debug, Clone, Copy)]
    pub struct SegmentTable<'data, E: EndianParse> {
        pub(crate) class: Class,
        pub(crate) data: &'data [u8],
        pub(crate) e: PhantomData<E>,
    }
    impl<'data, E: EndianParse> SegmentTable<'data, E> {
        fn ent(&self) -> usize { if self.class == Class::ELF32 { 32 } else { 56 } }
        pub fn len(&self) -> usize { self.data.len() / self.ent() }
        pub fn is_empty(&self) -> bool { self.len() == 0 }
        pub fn get(&self, i: usize) -> Result<ProgramHeader, ParseError> {
            let start = i.checked_mul(self.ent()).ok_or(ParseError::IntegerOverflow)?;
            let w64 = self.class == Class::ELF64;
            let mut r = Rd { d: self.data, p: start, w64 };
            if w64 {
                let (p_type, p_flags) = (r.w()?, r.w()?);
                Ok(ProgramHeader { p_type, p_flags, p_offset: r.a()?, p_vaddr: r.a()?, p_paddr: r.a()?, p_filesz: r.a()?, p_memsz: r.a()?, p_align: r.a()? })
            } else {
                Ok(ProgramHeader { p_type: r.w()?, p_offset: r.a()?, p_vaddr: r.a()?, p_paddr: r.a()?, p_filesz: r.a()?, p_memsz: r.a()?, p_flags: r.w()?, p_align: r.a()? })
            }
        }
        pub fn iter(&self) -> SegmentIterator<'data, E> { SegmentIterator { t: *self, i: 0 } }
    }
    impl<'data, E: EndianParse> IntoIterator for SegmentTable<'data, E> {
        type Item = ProgramHeader;
        type IntoIter = SegmentIterator<'data, E>;
        fn into_iter(self) -> Self::IntoIter { self.iter() }
    }
    #[derive(Debug, Clone)]
    pub struct SegmentIterator<'data, E: EndianParse> { t: SegmentTable<'data, E>, i: usize }
    impl<E: EndianParse> Iterator for SegmentIterator<'_, E> {
        type Item = ProgramHeader;
        fn next(&mut self) -> Option<ProgramHeader> {
            if self.i >= self.t.len() { return None; }
            let r = self.t.get(self.i).ok();
            self.i += 1;
            r
        }
    }
}
use segment::SegmentTable;

#[derive(Debug)]
pub struct ElfBytes<'data, E: EndianParse> {
    pub ehdr: FileHeader<E>,
    data: &'data [u8],
    phdrs: Option<SegmentTable<'data, E>>,
}
impl<'data, E: EndianParse> ElfBytes<'data, E> {
    pub fn minimal_parse(data: &'data [u8]) -> Result<Self, ParseError> {
        let ident = data.get(0..16).ok_or(ParseError::SliceReadError((0, 16)))?;
        if ident[0..4] != [0x7f, b'E', b'L', b'F'] {
            return Err(ParseError::BadMagic(ident[0..4].try_into().unwrap()));
        }
        if ident[6] != 1 {
            return Err(ParseError::UnsupportedVersion((u64::from(ident[6]), 1)));
        }
        let class = match ident[4] { 1 => Class::ELF32, 2 => Class::ELF64, c => return Err(ParseError::UnsupportedElfClass(c)) };
        let endianness = E::from_ei_data(ident[5])?;
        let mut r = Rd { d: data, p: 16, w64: class == Class::ELF64 };
        let ehdr = FileHeader {
            class, endianness, osabi: ident[7], abiversion: ident[8],
            e_type: r.h()?, e_machine: r.h()?, version: r.w()?, e_entry: r.a()?, e_phoff: r.a()?, e_shoff: r.a()?,
            e_flags: r.w()?, e_ehsize: r.h()?, e_phentsize: r.h()?, e_phnum: r.h()?, e_shentsize: r.h()?, e_shnum: r.h()?, e_shstrndx: r.h()?,
        };
        let range = |off: u64, n: u64, ent: u64| -> Result<&'data [u8], ParseError> {
            let size = n.checked_mul(ent).ok_or(ParseError::IntegerOverflow)?;
            let end = off.checked_add(size).ok_or(ParseError::IntegerOverflow)?;
            let (s, e): (usize, usize) = (off as usize, end as usize);
            data.get(s..e).ok_or(ParseError::SliceReadError((s, e)))
        };
        let (shent, phent) = if class == Class::ELF32 { (40u64, 32u64) } else { (64, 56) };
        let mut phnum = u64::from(ehdr.e_phnum);
        if ehdr.e_shoff > 0 {
            let first = |o: usize, n: usize| -> Result<u64, ParseError> {
                let mut r = Rd { d: data, p: (ehdr.e_shoff as usize).checked_add(o).ok_or(ParseError::IntegerOverflow)?, w64: false };
                r.n(n)
            };
            let mut shnum = u64::from(ehdr.e_shnum);
            if shnum == 0 { shnum = if class == Class::ELF32 { first(20, 4)? } else { first(32, 8)? }; }
            if u64::from(ehdr.e_shentsize) != shent { return Err(ParseError::BadEntsize((u64::from(ehdr.e_shentsize), shent))); }
            range(ehdr.e_shoff, shnum, shent)?;
            if ehdr.e_phnum == abi::PN_XNUM { phnum = if class == Class::ELF32 { first(28, 4)? } else { first(44, 4)? }; }
        }
        let phdrs = if ehdr.e_phnum == 0 {
            None
        } else {
            if u64::from(ehdr.e_phentsize) != phent { return Err(ParseError::BadEntsize((u64::from(ehdr.e_phentsize), phent))); }
            Some(SegmentTable { class, data: range(ehdr.e_phoff, phnum, phent)?, e: PhantomData })
        };
        Ok(Self { ehdr, data, phdrs })
    }
    pub fn segments(&self) -> Option<SegmentTable<'data, E>> { self.phdrs }
    pub fn segment_data(&self, p: &segment::ProgramHeader) -> Result<&'data [u8], ParseError> {
        let end = p.p_offset.checked_add(p.p_filesz).ok_or(ParseError::IntegerOverflow)?;
        self.data.get(p.p_offset as usize..end as usize).ok_or(ParseError::SliceReadError((p.p_offset as usize, end as usize)))
    }
}
