//! What generated programs do, in a form both the native driver and the guest
//! binary can run: a list of SDK operations, and the log of what they returned.
#![cfg_attr(target_os = "mozakvm", feature(restricted_std))]
extern crate alloc;
use alloc::vec::Vec;

macro_rules! ser { ($($i:item)*) => { $(
    #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
    $i )* } }

#[derive(Clone, Debug, Default, PartialEq, rkyv::Archive, rkyv::Serialize, rkyv::Deserialize)]
#[archive(check_bytes)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub enum Kind { #[default] Unit, Num(u64), Pair(u8, u32), Bytes(Vec<u8>) }

/// Both argument and return type of generated calls.
#[derive(Clone, Debug, Default, PartialEq, rkyv::Archive, rkyv::Serialize, rkyv::Deserialize)]
#[archive(check_bytes)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub struct Val { pub tag: u32, pub data: Vec<u8>, pub opt: Option<u64>, pub kind: Kind, pub list: Vec<(u16, u8)>, pub many: Vec<Vec<u8>> }

/// The system call the guest hands its log over with: unknown to the VM, which ignores it.
pub const REPORT: u32 = 0x6d7a_1061;

pub type Id = [u8; 32];
ser! {
#[derive(Clone, Debug, PartialEq)]
pub struct Ev { pub kind: u8, pub address: [u8; 8], pub owner: Id, pub data: Vec<u8> }

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    AddId(Id),
    RmId,
    Emit(Ev),
    Write { public: bool, data: Vec<u8> },
    Call { callee: Id, arg: Val, ret: Val, body: Vec<Op> },
    Receive,
    Read { public: bool, n: u32 },
    Len { public: bool },
    HashPad(Vec<u8>),
    HashNoPad(Vec<u8>),
    Merkle(Vec<(u64, Id)>),
    Canonical(Ev),
    NewTape { public: bool, size: u32 },
    TapeRead(u32),
    TapeSeek { whence: u8, off: i64 },
    Panic(u8),
}
}

/// A byte codec small enough for the guest.
#[derive(Default)]
pub struct Out(pub Vec<u8>);
impl Out {
    pub fn u8(&mut self, v: u8) { self.0.push(v) }
    pub fn u32(&mut self, v: u32) { self.0.extend_from_slice(&v.to_le_bytes()) }
    pub fn u64(&mut self, v: u64) { self.0.extend_from_slice(&v.to_le_bytes()) }
    pub fn raw(&mut self, v: &[u8]) { self.0.extend_from_slice(v) }
    pub fn bytes(&mut self, v: &[u8]) {
        self.u32(v.len() as u32);
        self.raw(v);
    }
    pub fn val(&mut self, v: &Val) {
        self.u32(v.tag);
        self.bytes(&v.data);
        match v.opt { None => self.u8(0), Some(x) => { self.u8(1); self.u64(x) } }
        match &v.kind {
            Kind::Unit => self.u8(0),
            Kind::Num(x) => { self.u8(1); self.u64(*x) }
            Kind::Pair(a, b) => { self.u8(2); self.u8(*a); self.u32(*b) }
            Kind::Bytes(b) => { self.u8(3); self.bytes(b) }
        }
        self.u32(v.list.len() as u32);
        for (a, b) in &v.list { self.u32(u32::from(*a)); self.u8(*b) }
        self.u32(v.many.len() as u32);
        for b in &v.many { self.bytes(b) }
    }
    pub fn ev(&mut self, e: &Ev) {
        self.u8(e.kind);
        self.raw(&e.address);
        self.raw(&e.owner);
        self.bytes(&e.data);
    }
    pub fn ops(&mut self, ops: &[Op]) {
        self.u32(ops.len() as u32);
        for o in ops { self.op(o) }
    }
    pub fn op(&mut self, o: &Op) {
        match o {
            Op::AddId(p) => { self.u8(0); self.raw(p) }
            Op::RmId => self.u8(1),
            Op::Emit(e) => { self.u8(2); self.ev(e) }
            Op::Write { public, data } => { self.u8(3); self.u8((*public).into()); self.bytes(data) }
            Op::Call { callee, arg, ret, body } => { self.u8(4); self.raw(callee); self.val(arg); self.val(ret); self.ops(body) }
            Op::Receive => self.u8(5),
            Op::Read { public, n } => { self.u8(6); self.u8((*public).into()); self.u32(*n) }
            Op::Len { public } => { self.u8(7); self.u8((*public).into()) }
            Op::HashPad(b) => { self.u8(8); self.bytes(b) }
            Op::HashNoPad(b) => { self.u8(9); self.bytes(b) }
            Op::Merkle(l) => { self.u8(10); self.u32(l.len() as u32); for (a, h) in l { self.u64(*a); self.raw(h) } }
            Op::Canonical(e) => { self.u8(11); self.ev(e) }
            Op::NewTape { public, size } => { self.u8(12); self.u8((*public).into()); self.u32(*size) }
            Op::TapeRead(n) => { self.u8(13); self.u32(*n) }
            Op::Panic(k) => { self.u8(15); self.u8(*k) }
            Op::TapeSeek { whence, off } => { self.u8(14); self.u8(*whence); self.u64(*off as u64) }
        }
    }
}
pub struct In<'a>(pub &'a [u8]);
impl In<'_> {
    pub fn take(&mut self, n: usize) -> &[u8] {
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a
    }
    pub fn u8(&mut self) -> u8 { self.take(1)[0] }
    pub fn u32(&mut self) -> u32 { u32::from_le_bytes(self.take(4).try_into().unwrap()) }
    pub fn u64(&mut self) -> u64 { u64::from_le_bytes(self.take(8).try_into().unwrap()) }
    pub fn id(&mut self) -> Id { self.take(32).try_into().unwrap() }
    pub fn bytes(&mut self) -> Vec<u8> {
        let n = self.u32() as usize;
        self.take(n).to_vec()
    }
    pub fn val(&mut self) -> Val {
        let tag = self.u32();
        let data = self.bytes();
        let opt = if self.u8() == 1 { Some(self.u64()) } else { None };
        let kind = match self.u8() {
            0 => Kind::Unit,
            1 => Kind::Num(self.u64()),
            2 => Kind::Pair(self.u8(), self.u32()),
            _ => Kind::Bytes(self.bytes()),
        };
        let n = self.u32();
        let list = (0..n).map(|_| (self.u32() as u16, self.u8())).collect();
        let n = self.u32();
        let many = (0..n).map(|_| self.bytes()).collect();
        Val { tag, data, opt, kind, list, many }
    }
    pub fn ev(&mut self) -> Ev {
        Ev { kind: self.u8(), address: self.take(8).try_into().unwrap(), owner: self.id(), data: self.bytes() }
    }
    pub fn ops(&mut self) -> Vec<Op> {
        let n = self.u32();
        (0..n).map(|_| self.op()).collect()
    }
    pub fn op(&mut self) -> Op {
        match self.u8() {
            0 => Op::AddId(self.id()),
            1 => Op::RmId,
            2 => Op::Emit(self.ev()),
            3 => Op::Write { public: self.u8() == 1, data: self.bytes() },
            4 => Op::Call { callee: self.id(), arg: self.val(), ret: self.val(), body: self.ops() },
            5 => Op::Receive,
            6 => Op::Read { public: self.u8() == 1, n: self.u32() },
            7 => Op::Len { public: self.u8() == 1 },
            8 => Op::HashPad(self.bytes()),
            9 => Op::HashNoPad(self.bytes()),
            10 => {
                let n = self.u32();
                Op::Merkle((0..n).map(|_| (self.u64(), self.id())).collect())
            }
            11 => Op::Canonical(self.ev()),
            12 => Op::NewTape { public: self.u8() == 1, size: self.u32() },
            13 => Op::TapeRead(self.u32()),
            15 => Op::Panic(self.u8()),
            _ => Op::TapeSeek { whence: self.u8(), off: self.u64() as i64 },
        }
    }
}
