//! The constraints of a table as straight-line programs, read off the repository's
//! own `eval_packed_generic` by running it on symbols.
use std::cell::RefCell;
use std::collections::HashMap;
use std::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};

use plonky2::field::packed::PackedField;
use plonky2::field::types::{Field, PrimeField64};
use starky::constraint_consumer::ConstraintConsumer;
use starky::evaluation_frame::StarkEvaluationFrame;
use starky::stark::Stark;

use crate::world::{D, F};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Node {
    Var(u32),
    Const(u64),
    Add(u32, u32),
    Sub(u32, u32),
    Mul(u32, u32),
}
#[derive(Default)]
struct Arena {
    nodes: Vec<Node>,
    seen: HashMap<Node, u32>,
}
impl Arena {
    fn put(&mut self, n: Node) -> u32 {
        if let Some(i) = self.seen.get(&n) { return *i; }
        let i = self.nodes.len() as u32;
        self.nodes.push(n);
        self.seen.insert(n, i);
        i
    }
    fn reset(&mut self) {
        *self = Arena::default();
        self.put(Node::Const(0));
        self.put(Node::Const(1));
    }
    fn k(&self, i: u32) -> Option<F> { if let Node::Const(c) = self.nodes[i as usize] { Some(F::from_canonical_u64(c)) } else { None } }
    fn con(&mut self, f: F) -> u32 { self.put(Node::Const(f.to_canonical_u64())) }
    fn add(&mut self, a: u32, b: u32) -> u32 {
        match (self.k(a), self.k(b)) {
            (Some(x), Some(y)) => self.con(x + y),
            _ if a == 0 => b,
            _ if b == 0 => a,
            _ => self.put(Node::Add(a.min(b), a.max(b))),
        }
    }
    fn sub(&mut self, a: u32, b: u32) -> u32 {
        match (self.k(a), self.k(b)) {
            (Some(x), Some(y)) => self.con(x - y),
            _ if b == 0 => a,
            _ => self.put(Node::Sub(a, b)),
        }
    }
    fn mul(&mut self, a: u32, b: u32) -> u32 {
        match (self.k(a), self.k(b)) {
            (Some(x), Some(y)) => self.con(x * y),
            _ if a == 0 || b == 0 => 0,
            _ if a == 1 => b,
            _ if b == 1 => a,
            _ => self.put(Node::Mul(a.min(b), a.max(b))),
        }
    }
}
thread_local! { static ARENA: RefCell<Arena> = RefCell::default(); }
fn arena<T>(f: impl FnOnce(&mut Arena) -> T) -> T { ARENA.with(|a| f(&mut a.borrow_mut())) }

#[derive(Clone, Copy, Debug, Default)]
pub struct Sym(u32);

macro_rules! ops {
    ($($t:ident $f:ident $ta:ident $fa:ident $n:ident;)*) => {$(
        impl $t<Sym> for Sym { type Output = Sym; fn $f(self, o: Sym) -> Sym { Sym(arena(|a| a.$n(self.0, o.0))) } }
        impl $t<F> for Sym { type Output = Sym; fn $f(self, o: F) -> Sym { self.$f(Sym::from(o)) } }
        impl $t<Sym> for F { type Output = Sym; fn $f(self, o: Sym) -> Sym { Sym::from(self).$f(o) } }
        impl $ta<Sym> for Sym { fn $fa(&mut self, o: Sym) { *self = (*self).$f(o) } }
        impl $ta<F> for Sym { fn $fa(&mut self, o: F) { *self = (*self).$f(o) } }
    )*};
}
ops! { Add add AddAssign add_assign add; Sub sub SubAssign sub_assign sub; Mul mul MulAssign mul_assign mul; }
impl Neg for Sym { type Output = Sym; fn neg(self) -> Sym { Sym(0) - self } }
impl From<F> for Sym { fn from(f: F) -> Sym { Sym(arena(|a| a.con(f))) } }
impl std::iter::Sum for Sym { fn sum<I: Iterator<Item = Sym>>(i: I) -> Sym { i.fold(Sym(0), |a, b| a + b) } }
impl std::iter::Product for Sym { fn product<I: Iterator<Item = Sym>>(i: I) -> Sym { i.fold(Sym(1), |a, b| a * b) } }
const ZERO: [F; 1] = [F::ZERO];
// Only what evaluating constraints needs; nothing reinterprets memory.
unsafe impl PackedField for Sym {
    type Scalar = F;
    const WIDTH: usize = 1;
    const ZEROS: Sym = Sym(0);
    const ONES: Sym = Sym(1);
    fn from_slice(_: &[F]) -> &Sym { unimplemented!() }
    fn from_slice_mut(_: &mut [F]) -> &mut Sym { unimplemented!() }
    fn as_slice(&self) -> &[F] { &ZERO }
    fn as_slice_mut(&mut self) -> &mut [F] { unimplemented!() }
    fn interleave(&self, _: Sym, _: usize) -> (Sym, Sym) { unimplemented!() }
}

/// The constraints of one table. Variables are the cells of a row, then the cells
/// of the next row, then: not the last row, first row, last row.
#[derive(Default)]
pub struct Slp {
    pub width: usize,
    nodes: Vec<Node>,
    outs: Vec<u32>,
    /// for every constraint: the nodes it needs, in order
    need: Vec<Vec<u32>>,
    /// for every constraint: its variables (row cells and next-row cells only)
    pub support: Vec<Vec<u32>>,
    /// for every variable: the constraints it occurs in
    pub uses: Vec<Vec<u32>>,
    /// constraints with a degree above 3 would break the proof system
    pub degree: Vec<usize>,
}
pub fn record<S: Stark<F, D>>(st: &S, pis: &[F]) -> Slp {
    arena(Arena::reset);
    let w = S::COLUMNS;
    let v: Vec<Sym> = (0..2 * w + 3).map(|i| Sym(arena(|a| a.put(Node::Var(i as u32))))).collect();
    let mut c = ConstraintConsumer::<Sym>::new(vec![], v[2 * w], v[2 * w + 1], v[2 * w + 2]);
    st.eval_packed_generic(&S::EvaluationFrame::<F, Sym, 1>::from_values(&v[..w], &v[w..2 * w], pis), &mut c);
    let outs: Vec<u32> = c.debug_api_values().iter().map(|s| s.0).collect();
    let nodes = arena(|a| std::mem::take(&mut a.nodes));
    arena(Arena::reset);
    let mut deg = vec![0usize; nodes.len()];
    for (i, n) in nodes.iter().enumerate() {
        deg[i] = match *n {
            Node::Var(v) => usize::from((v as usize) < 2 * w),
            Node::Const(_) => 0,
            Node::Add(a, b) | Node::Sub(a, b) => deg[a as usize].max(deg[b as usize]),
            Node::Mul(a, b) => deg[a as usize] + deg[b as usize],
        };
    }
    let mut need = vec![];
    let mut support = vec![];
    let mut uses = vec![vec![]; 2 * w];
    for (k, o) in outs.iter().enumerate() {
        let mut mark = vec![false; *o as usize + 1];
        mark[*o as usize] = true;
        for i in (0..=*o as usize).rev() {
            if !mark[i] { continue; }
            if let Node::Add(a, b) | Node::Sub(a, b) | Node::Mul(a, b) = nodes[i] { mark[a as usize] = true; mark[b as usize] = true; }
        }
        let ids: Vec<u32> = (0..mark.len() as u32).filter(|i| mark[*i as usize]).collect();
        let sup: Vec<u32> = ids.iter().filter_map(|i| match nodes[*i as usize] { Node::Var(v) if (v as usize) < 2 * w => Some(v), _ => None }).collect();
        for v in &sup { uses[*v as usize].push(k as u32); }
        need.push(ids);
        support.push(sup);
    }
    let degree = outs.iter().map(|o| deg[*o as usize]).collect();
    Slp { width: w, nodes, outs, need, support, uses, degree }
}
impl Slp {
    pub fn len(&self) -> usize { self.outs.len() }
    fn step(&self, i: usize, buf: &mut [F], lv: &[F], nv: &[F], first: bool, last: bool) {
        let w = self.width;
        buf[i] = match self.nodes[i] {
            Node::Var(v) => {
                let v = v as usize;
                if v < w { lv[v] } else if v < 2 * w { nv[v - w] } else { F::from_bool(match v - 2 * w { 0 => !last, 1 => first, _ => last }) }
            }
            Node::Const(c) => F::from_canonical_u64(c),
            Node::Add(a, b) => buf[a as usize] + buf[b as usize],
            Node::Sub(a, b) => buf[a as usize] - buf[b as usize],
            Node::Mul(a, b) => buf[a as usize] * buf[b as usize],
        };
    }
    pub fn all(&self, buf: &mut Vec<F>, lv: &[F], nv: &[F], first: bool, last: bool) -> Vec<F> {
        buf.resize(self.nodes.len().max(buf.len()), F::ZERO);
        for i in 0..self.nodes.len() { self.step(i, buf, lv, nv, first, last); }
        self.outs.iter().map(|o| buf[*o as usize]).collect()
    }
    pub fn one(&self, k: usize, buf: &mut Vec<F>, lv: &[F], nv: &[F], first: bool, last: bool) -> F {
        buf.resize(self.nodes.len().max(buf.len()), F::ZERO);
        for i in &self.need[k] { self.step(*i as usize, buf, lv, nv, first, last); }
        buf[self.outs[k] as usize]
    }
}
