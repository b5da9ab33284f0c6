//! C15: input tapes read and seek like a file that holds the tape.
use h_common::{ensure_same, ensure_that, Check, Fail, Obs, Verdict};
use proptest::prelude::*;
use script::{In, Op};
use serde::{Deserialize, Serialize};

use crate::tapes::{accept, Parts};
use crate::vm::{run, End, Ran};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { data: Vec<u8>, more: u32, ops: Vec<Op> }
impl Case {
    fn tape(&self) -> Vec<u8> { self.data.iter().copied().chain((0..self.more).map(|i| (i * 31 ^ i >> 8) as u8)).collect() }
}

fn log(r: Ran, c: &Case) -> Result<Vec<u8>, Fail> {
    match r.end {
        End::Stopped(e) => Err(format!("{:?} on a tape of {} bytes failed: {e}", c.ops, c.tape().len()).into()),
        End::Halted { .. } => r.log.ok_or_else(|| "the guest halted without finishing its script".into()),
    }
}

fn random_access(c: &Case) -> Verdict {
    let mut t = Parts::default().claim([7; 32]).tapes();
    let data = c.tape();
    t.public = data.clone();
    t.private = data.clone();
    let got = log(run(&c.ops, &t), c)?;
    let mut got = In(&got);
    let (size, mut pos) = (data.len() as i64, 0i64);
    let (mut short, mut back) = (false, false);
    for (k, op) in c.ops.iter().enumerate() {
        match op {
            Op::NewTape { .. } => (),
            Op::TapeRead(n) => {
                let at = pos.min(size);
                let m = i64::from(*n).min(size - at);
                short |= m < i64::from(*n);
                let mut want = data[at as usize..(at + m) as usize].to_vec();
                want.resize(*n as usize, 0xee);
                ensure_same!(i64::from(got.u32()), m, "bytes read in step {k} of {:?}", c.ops);
                ensure_same!(got.bytes(), want, "what step {k} of {:?} reads", c.ops);
                pos += m;
            }
            Op::TapeSeek { whence, off } => {
                let to = match whence { 0 => i128::from(*off as u64), 1 => i128::from(size) + i128::from(*off), _ => i128::from(pos) + i128::from(*off) };
                let ok = got.u8() == 1;
                let p = if ok { got.u64() as i64 } else { -1 };
                if to < 0 {
                    ensure_that!(!ok, "step {k} of {:?} seeks in front of the tape and got to {p}", c.ops);
                } else if to <= i128::from(size) {
                    ensure_that!(ok, "step {k} of {:?} seeks to {to} of {size} and failed", c.ops);
                    ensure_same!(i128::from(p), to, "place step {k} of {:?} seeks to", c.ops);
                    back |= p < pos;
                    pos = p;
                } else if ok {
                    // where exactly behind the end is up to the tape
                    ensure_that!(p >= size, "step {k} of {:?} seeks behind the end and got to {p}", c.ops);
                    pos = p;
                }
            }
            _ => unreachable!(),
        }
    }
    Ok(Obs::new(short || back).class(short, "short read").class(back, "went back"))
}
/// Lengths around the powers of 256 and of the page size.
fn long() -> impl Strategy<Value = u32> + Clone { prop_oneof![0xf8u32..0x108, 0xff8u32..0x1008, 0xfff8u32..0x10008, 0u32..0x12000] }
fn random_ops(more: impl Strategy<Value = u32>) -> impl Strategy<Value = Case> {
    (prop::collection::vec(any::<u8>(), 0..40), any::<bool>(), more).prop_flat_map(|(data, public, more)| {
        let n = data.len() as i64 + i64::from(more);
        let near = -n - 2..n + 4;
        let op = prop_oneof![
            4 => (0..=n.min(50) as u32 + 3).prop_map(Op::TapeRead),
            2 => (0..n + 4).prop_map(|off| Op::TapeSeek { whence: 0, off }),
            1 => (-n - 2..=2).prop_map(|off| Op::TapeSeek { whence: 1, off }),
            2 => near.prop_map(|off| Op::TapeSeek { whence: 2, off }),
        ];
        prop::collection::vec(op, 1..8).prop_map(move |mut ops| {
            ops.insert(0, Op::NewTape { public, size: n as u32 });
            Case { data: data.clone(), more, ops }
        })
    })
}

fn sequential(c: &Case) -> Verdict {
    let mut claim = Parts::default().claim([7; 32]);
    claim.public = c.tape();
    claim.private = c.tape().into_iter().rev().collect();
    let want = accept(&claim, &c.ops).map_err(Fail::from)?;
    let got = log(run(&c.ops, &claim.tapes()), c)?;
    ensure_same!(got, want, "log of {:?} on {} bytes", c.ops, c.tape().len());
    Ok(Obs::new(c.ops.len() > 1))
}

fn sequential_ops(more: impl Strategy<Value = u32>) -> impl Strategy<Value = Case> {
    (prop::collection::vec(any::<u8>(), 0..40), more, prop::collection::vec(prop_oneof![
        4 => (any::<bool>(), 0u32..20).prop_map(|(public, n)| Op::Read { public, n }),
        1 => any::<bool>().prop_map(|public| Op::Len { public }),
    ], 1..8)).prop_map(|(data, more, mut ops)| {
        if more > 0 { ops.extend([Op::Len { public: true }, Op::Len { public: false }]); }
        Case { data, more, ops }
    })
}

pub fn check() -> ! {
    let mut c = Check::new("C15");
    let n = c.cases(15_000, 10);
    c.run("random access", "reads and seeks of one input tape; non-trivial = a read past the end or a seek backwards", n, || random_ops(Just(0)), random_access);
    let n = c.cases(8_000, 10);
    c.run("system tapes", "lengths and reads of both system tapes in turn, up to and past the end; non-trivial = two operations", n,
        || sequential_ops(Just(0)), sequential);
    let n = c.cases(1_500, 10);
    c.run("long tapes", "the same on tapes whose length is around a power of 256 or a page", n, || random_ops(long()), random_access);
    let n = c.cases(1_500, 10);
    c.run("long system tapes", "the same on tapes whose length is around a power of 256 or a page", n, || sequential_ops(long()), sequential);
    c.finish()
}
