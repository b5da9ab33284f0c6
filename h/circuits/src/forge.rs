//! A prover that cheats: given traces with a lie in them, change other cells until the
//! verifier has nothing left to object to (or the search gives up).
use std::collections::{BTreeSet, HashMap, HashSet};

use mozak_circuits::memoryinit::columns::MemoryInitCtl;
use mozak_circuits::stark::mozak_stark::TableKind as K;
use plonky2::field::types::{Field, Field64, PrimeField64};
use plonky2::hash::hashing::PlonkyPermutation;
use plonky2::hash::poseidon2::Poseidon2Permutation;

use crate::sym::Slp;
use crate::world::{Form, Mask, Rules, World, F};

/// What a tuple looked up in a helper table has to be like. The helper tables themselves
/// (which can hold any such tuple, and nothing else) are searched on their own.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Role {
    U32,
    U8,
    Xor,
    Shift,
    Rom,
    /// a Poseidon2 permutation
    Perm,
    /// an initial memory value: from the program, or 0
    Init,
    /// both sides have to add up
    Balance,
    /// not looked at
    Off,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Rule {
    Constraint(usize, usize),
    Tuple(usize, usize),
    Lookup(usize),
}

pub type Cell = (usize, usize, usize);
type Move = Vec<(Cell, F)>;

fn u(x: F) -> u64 { x.to_canonical_u64() }
fn f(x: u64) -> F { F::from_noncanonical_u64(x) }

/// Square root in the Goldilocks field (Tonelli and Shanks).
pub fn sqrt(a: F) -> Option<F> {
    if a == F::ZERO { return Some(a); }
    let q: u64 = 0xffff_ffff; // p - 1 = q * 2^32
    if a.exp_u64((F::ORDER - 1) / 2) != F::ONE { return None; }
    let mut m = 32;
    let mut c = F::from_canonical_u64(7).exp_u64(q);
    let mut t = a.exp_u64(q);
    let mut r = a.exp_u64((q + 1) / 2);
    while t != F::ONE {
        let mut i = 0;
        let mut s = t;
        while s != F::ONE { s = s * s; i += 1; }
        let b = c.exp_u64(1 << (m - i - 1));
        m = i;
        c = b * b;
        t *= c;
        r *= b;
    }
    Some(r)
}

/// What the values of a polynomial of degree 3 at 0, 1, 2, 3 say about its roots.
pub fn roots(y: [F; 4]) -> Vec<F> {
    // Newton form: a0 + a1 x + a2 x(x-1) + a3 x(x-1)(x-2)
    let two = F::TWO;
    let a0 = y[0];
    let a1 = y[1] - y[0];
    let a2 = (y[2] - two * y[1] + y[0]) * two.inverse();
    let a3 = (y[3] - F::from_canonical_u64(3) * y[2] + F::from_canonical_u64(3) * y[1] - y[0]) * F::from_canonical_u64(6).inverse();
    // monomials
    let c3 = a3;
    let c2 = a2 - F::from_canonical_u64(3) * a3;
    let c1 = a1 - a2 + two * a3;
    let c0 = a0;
    let quad = |c2: F, c1: F, c0: F| -> Vec<F> {
        if c2 == F::ZERO {
            if c1 == F::ZERO { vec![] } else { vec![-c0 * c1.inverse()] }
        } else {
            let d = c1 * c1 - F::from_canonical_u64(4) * c2 * c0;
            match sqrt(d) {
                None => vec![],
                Some(s) => { let i = (two * c2).inverse(); let mut v = vec![(-c1 + s) * i, (-c1 - s) * i]; v.dedup(); v }
            }
        }
    };
    if c3 == F::ZERO { return quad(c2, c1, c0); }
    for k in [F::ZERO, F::ONE, two] {
        if ((c3 * k + c2) * k + c1) * k + c0 == F::ZERO {
            // divide by (x - k)
            let b2 = c3;
            let b1 = c2 + b2 * k;
            let b0 = c1 + b1 * k;
            let mut v = quad(b2, b1, b0);
            v.push(k);
            return v;
        }
    }
    if c2 == F::ZERO && c1 == F::ZERO {
        // a cube root, where there is a unique one or none is not worth finding
        return vec![];
    }
    vec![]
}

fn permuted(x: &[u64]) -> Vec<u64> {
    let mut p = Poseidon2Permutation::new(x.iter().map(|x| F::from_canonical_u64(*x)));
    p.permute();
    p.as_ref().iter().map(|x| u(*x)).collect()
}
/// The init of memory that the program does not mention.
fn zero_init(t: &[u64]) -> Vec<u64> {
    let ix: MemoryInitCtl<usize> = (0..4).collect();
    let mut v = vec![0; 4];
    v[ix.is_writable] = 1;
    v[ix.address] = t[ix.address];
    v
}

pub struct Forge<'a> {
    pub rules: &'a Rules,
    pub slps: &'a [Slp],
    pub w: World,
    pub frozen: [bool; 30],
    pub roles: Vec<Role>,
    pub mask: Mask,
    /// look at this table alone: its constraints, and what it asks the helper tables for
    pub only: Option<usize>,
    pub rom: HashSet<Vec<u64>>,
    inits: HashSet<Vec<u64>>,
    /// cells that may not change any more
    pub fixed: HashSet<Cell>,
    cons: BTreeSet<Cell>,
    tups: BTreeSet<(usize, usize, usize)>,
    bal: Vec<HashMap<Vec<u64>, F>>,
    /// where each column of each table is used: (lookup, side, in the row itself, in the row after)
    used: Vec<Vec<Vec<(usize, usize, bool, bool)>>>,
    pub sides: Vec<usize>,
    buf: Vec<F>,
    pub nodes: usize,
    pub budget: usize,
    pub depth: usize,
    /// rules that were once all that was left to object
    pub alone: BTreeSet<Rule>,
}

impl<'a> Forge<'a> {
    pub fn new(rules: &'a Rules, slps: &'a [Slp], w: World, roles: Vec<Role>, mask: Mask) -> Self {
        let mut used: Vec<Vec<Vec<(usize, usize, bool, bool)>>> = w.t.iter().map(|t| vec![vec![]; t[0].len()]).collect();
        for (k, sides) in rules.ctls.iter().enumerate() {
            if roles[k] == Role::Off { continue; }
            for (j, s) in sides.iter().enumerate() {
                if mask.lookups.contains(&(k, j)) { continue; }
                let mut here: HashMap<usize, (bool, bool)> = HashMap::new();
                for fm in s.cols.iter().chain([&s.filter]) {
                    for (c, _) in &fm.lv { here.entry(*c).or_default().0 = true; }
                    for (c, _) in &fm.nv { here.entry(*c).or_default().1 = true; }
                }
                for (c, (l, n)) in here { used[s.table][c].push((k, j, l, n)); }
            }
        }
        let rom = rules.ctls.iter().flatten().filter(|s| s.table == K::Program as usize)
            .flat_map(|s| (0..w.t[s.table].len()).map(|r| w.side(s, r).1).collect::<Vec<_>>()).collect();
        let inits = rules.ctls.iter().flatten().filter(|s| s.table == K::ElfMemoryInit as usize)
            .flat_map(|s| (0..w.t[s.table].len()).map(|r| w.side(s, r)).filter(|x| x.0 != F::ZERO).map(|x| x.1).collect::<Vec<_>>()).collect();
        let n = rules.ctls.len();
        let mut fo = Forge {
            rules, slps, w, frozen: [false; 30], roles, mask, only: None, rom, inits, fixed: HashSet::new(), cons: BTreeSet::new(), tups: BTreeSet::new(),
            bal: vec![HashMap::new(); n], used, sides: vec![], buf: vec![], nodes: 0, budget: 2000, depth: 60, alone: BTreeSet::new(),
        };
        for k in [K::Program, K::ProgramMult, K::ElfMemoryInit, K::RangeCheck, K::RangeCheckU8, K::Xor, K::Bitshift] { fo.frozen[k as usize] = true; }
        fo
    }
    pub fn only(&mut self, t: usize) {
        self.only = Some(t);
        self.frozen = std::array::from_fn(|i| i != t);
        let cpu = [K::Cpu, K::Add, K::BltTaken].iter().any(|k| *k as usize == t);
        for k in 0..self.roles.len() {
            match self.roles[k] {
                Role::Balance if self.rules.ctls[k].iter().any(|s| s.table == K::Poseidon2 as usize) && t == K::Poseidon2Sponge as usize => self.roles[k] = Role::Perm,
                Role::Balance if self.rules.ctls[k].iter().any(|s| s.table == K::ElfMemoryInit as usize) && t == K::Memory as usize => self.roles[k] = Role::Init,
                Role::Balance => self.roles[k] = Role::Off,
                Role::Rom if !cpu => self.roles[k] = Role::Off,
                _ => {}
            }
        }
    }
    fn helper(&self, t: usize) -> bool { if let Some(o) = self.only { t != o } else { [K::RangeCheck as usize, K::RangeCheckU8 as usize, K::Xor as usize, K::Bitshift as usize, K::ProgramMult as usize, K::Program as usize].contains(&t) } }

    /// Look at everything from scratch.
    pub fn scan(&mut self) {
        self.cons.clear();
        self.tups.clear();
        for b in &mut self.bal { b.clear(); }
        for t in 0..self.w.t.len() {
            if self.helper(t) { continue; }
            for r in 0..self.w.t[t].len() { self.rows_scan(t, r); }
        }
        for k in 0..self.roles.len() {
            for j in 0..self.rules.ctls[k].len() {
                let t = self.rules.ctls[k][j].table;
                for r in 0..self.w.t[t].len() { self.tuple_add(k, j, r, true); }
            }
        }
    }
    fn rows_scan(&mut self, t: usize, r: usize) {
        let n = self.w.next(t, r);
        let rows = &self.w.t[t];
        let v = self.slps[t].all(&mut self.buf, &rows[r], &rows[n], r == 0, n == 0);
        for (k, v) in v.into_iter().enumerate() {
            if v != F::ZERO && !self.mask.constraints.contains(&(t, k)) { self.cons.insert((t, r, k)); } else { self.cons.remove(&(t, r, k)); }
        }
    }
    fn tuple_add(&mut self, k: usize, j: usize, r: usize, add: bool) {
        if self.roles[k] == Role::Off || self.mask.lookups.contains(&(k, j)) { return; }
        let s = &self.rules.ctls[k][j];
        if self.roles[k] != Role::Balance && self.helper(s.table) { return; }
        // what the helper table itself offers is for the caller to judge
        if self.only.is_some() && j + 1 == self.rules.ctls[k].len() && !matches!(self.roles[k], Role::Perm | Role::Init) { return; }
        let lv = &self.w.t[s.table][r];
        let nv = &self.w.t[s.table][self.w.next(s.table, r)];
        let fi = s.filter.at(lv, nv);
        if self.roles[k] == Role::Balance {
            if fi == F::ZERO { return; }
            let tup: Vec<u64> = s.cols.iter().map(|c| u(c.at(lv, nv))).collect();
            let e = self.bal[k].entry(tup).or_default();
            if add { *e += fi } else { *e -= fi }
            if *e == F::ZERO {
                let tup: Vec<u64> = s.cols.iter().map(|c| u(c.at(lv, nv))).collect();
                self.bal[k].remove(&tup);
            }
        } else {
            let ok = fi == F::ZERO || {
                let tup: Vec<u64> = s.cols.iter().map(|c| u(c.at(lv, nv))).collect();
                self.holds(self.roles[k], &tup)
            };
            if ok { self.tups.remove(&(k, j, r)); } else { self.tups.insert((k, j, r)); }
        }
    }
    fn holds(&self, role: Role, t: &[u64]) -> bool {
        match role {
            Role::U32 => t[0] < 1 << 32,
            Role::U8 => t[0] < 256,
            Role::Xor => t.iter().all(|x| *x < 1 << 32) && t[0] ^ t[1] == t[2],
            Role::Shift => t[0] < 32 && t[1] == 1 << t[0],
            Role::Rom => self.rom.contains(t),
            Role::Perm => permuted(&t[..12]) == t[12..],
            Role::Init => self.inits.contains(t) || *t == zero_init(t),
            _ => true,
        }
    }
    pub fn get(&self, c: Cell) -> F { self.w.t[c.0][c.1][c.2] }
    pub fn set(&mut self, c: Cell, v: F) {
        let (t, r, col) = c;
        if self.w.t[t][r][col] == v { return; }
        let prev = (r + self.w.t[t].len() - 1) % self.w.t[t].len();
        let uses = std::mem::take(&mut self.used[t][col]);
        for (k, j, l, n) in &uses {
            if *l && self.roles[*k] == Role::Balance { self.tuple_add(*k, *j, r, false); }
            if *n && (prev != r || !*l) && self.roles[*k] == Role::Balance { self.tuple_add(*k, *j, prev, false); }
        }
        self.w.t[t][r][col] = v;
        for (k, j, l, n) in &uses {
            if *l { self.tuple_add(*k, *j, r, true); }
            if *n && (prev != r || !*l) { self.tuple_add(*k, *j, prev, true); }
        }
        self.used[t][col] = uses;
        if !self.helper(t) {
            self.rows_scan(t, r);
            self.rows_scan(t, prev);
        }
    }
    pub fn open(&self) -> usize { self.cons.len() + self.tups.len() + self.bal.iter().map(HashMap::len).sum::<usize>() }
    pub fn objections(&self) -> BTreeSet<Rule> {
        let mut s = BTreeSet::new();
        s.extend(self.cons.iter().map(|(t, _, k)| Rule::Constraint(*t, *k)));
        s.extend(self.tups.iter().map(|(k, j, _)| Rule::Tuple(*k, *j)));
        s.extend(self.bal.iter().enumerate().filter(|(_, b)| !b.is_empty()).map(|(k, _)| Rule::Lookup(k)));
        s
    }
    fn free(&self, c: Cell) -> bool { !self.frozen[c.0] && !self.fixed.contains(&c) }

    /// Ways to give a linear form a certain value by changing one free cell.
    fn aim(&self, t: usize, r: usize, fm: &Form, want: F, out: &mut Vec<(Cell, F)>) {
        let n = self.w.next(t, r);
        let now = fm.at(&self.w.t[t][r], &self.w.t[t][n]);
        for (row, list) in [(r, &fm.lv), (n, &fm.nv)] {
            for (c, a) in list {
                let cell = (t, row, *c);
                if *a != F::ZERO && self.free(cell) { out.push((cell, self.get(cell) + (want - now) * a.inverse())); }
            }
        }
    }
    fn constraint_moves(&mut self, t: usize, r: usize, k: usize) -> Vec<Move> {
        let mut out: Vec<Move> = vec![];
        let n = self.w.next(t, r);
        let width = self.slps[t].width;
        let mut lv = self.w.t[t][r].clone();
        let mut nv = self.w.t[t][n].clone();
        let sup = self.slps[t].support[k].clone();
        let mut linear: Vec<(Cell, F)> = vec![];
        let mut value = F::ZERO;
        for v in sup {
            let v = v as usize;
            let cell = if v < width { (t, r, v) } else { (t, n, v - width) };
            if !self.free(cell) { continue; }
            let old = self.get(cell);
            let mut y = [F::ZERO; 4];
            for (i, y) in y.iter_mut().enumerate() {
                let x = F::from_canonical_u64(i as u64);
                if v < width { lv[v] = x } else { nv[v - width] = x }
                *y = self.slps[t].one(k, &mut self.buf, &lv, &nv, r == 0, n == 0);
            }
            if v < width { lv[v] = old } else { nv[v - width] = old }
            if y[0] == y[1] && y[1] == y[2] && y[2] == y[3] { continue; }
            if y[1] - y[0] == y[2] - y[1] && y[2] - y[1] == y[3] - y[2] {
                linear.push((cell, y[1] - y[0]));
                value = y[0] + (y[1] - y[0]) * old;
            }
            // a cell that this constraint defines comes first
            let first = self.slps[t].uses[v].first() == Some(&(k as u32));
            let at = if first { 0 } else { out.len() };
            for x in roots(y) { if x != old { out.insert(at, vec![(cell, x)]); } }
        }
        // digits: several cells with weights 1, b, b^2, ..
        for b in [2u64, 256] {
            let Some(neg) = [F::ONE, F::NEG_ONE].into_iter().find(|s| linear.iter().any(|l| l.1 == *s)) else { continue };
            let find = |i: u32| linear.iter().find(|l| l.1 == neg * f(b).exp_u64(u64::from(i)));
            let ds: Vec<&(Cell, F)> = (0..32).map_while(find).collect();
            if ds.len() < 2 { continue; }
            let now: F = ds.iter().map(|d| self.get(d.0) * d.1 * neg).sum();
            let mut want = u(now - value * neg);
            let mut mv = vec![];
            for d in &ds { mv.push((d.0, f(want % b))); want /= b; }
            if want == 0 { out.insert(0, mv); }
        }
        out
    }
    fn tuple_moves(&mut self, k: usize, j: usize, r: usize) -> Vec<Move> {
        let s = &self.rules.ctls[k][j];
        let t = s.table;
        let n = self.w.next(t, r);
        let vals: Vec<u64> = s.cols.iter().map(|c| u(c.at(&self.w.t[t][r], &self.w.t[t][n]))).collect();
        let mut out: Vec<Move> = vec![];
        let mut whole: Vec<Move> = vec![];
        let mut one = |fm: &Form, want: u64| {
            let mut v = vec![];
            self.aim(t, r, fm, f(want), &mut v);
            out.extend(v.into_iter().map(|x| vec![x]));
        };
        match self.roles[k] {
            Role::U32 => {
                for d in [1u64 << 32, F::ORDER - (1 << 32), 1 << 31, F::ORDER - (1 << 31)] {
                    let w = u(f(vals[0]) + f(d));
                    if w < 1 << 32 { one(&s.cols[0], w); }
                }
                one(&s.cols[0], vals[0] & 0xffff_ffff);
                one(&s.cols[0], 0);
                one(&s.cols[0], 0xffff_ffff);
            }
            Role::U8 => { one(&s.cols[0], vals[0] & 0xff); one(&s.cols[0], 0); }
            Role::Xor => {
                if vals[1].max(vals[0]) < 1 << 32 { one(&s.cols[2], vals[0] ^ vals[1]); }
                if vals[2].max(vals[0]) < 1 << 32 { one(&s.cols[1], vals[0] ^ vals[2]); }
                if vals[1].max(vals[2]) < 1 << 32 { one(&s.cols[0], vals[2] ^ vals[1]); }
            }
            Role::Shift => {
                if vals[0] < 32 { one(&s.cols[1], 1 << vals[0]); }
                if vals[1] < 1 << 32 && vals[1].is_power_of_two() { one(&s.cols[0], u64::from(vals[1].trailing_zeros())); }
            }
            Role::Perm => { let mut x = vals.clone(); x.splice(12.., permuted(&vals[..12])); whole.extend(self.retuple(k, j, r, &x)); }
            Role::Init => {
                whole.extend(self.retuple(k, j, r, &zero_init(&vals)));
                let ix: MemoryInitCtl<usize> = (0..4).collect();
                for x in self.inits.iter().filter(|x| x[ix.address] == vals[ix.address]) { whole.extend(self.retuple(k, j, r, x)); }
            }
            Role::Rom => {
                // the instructions that differ the least
                let mut near: Vec<(usize, &Vec<u64>)> = self.rom.iter().map(|x| (x.iter().zip(&vals).filter(|(a, b)| a != b).count(), x)).filter(|x| x.0 < vals.len()).collect();
                near.sort_unstable();
                for (d, x) in near.into_iter().take(4) {
                    if d == 1 {
                        let i = (0..x.len()).find(|i| x[*i] != vals[*i]).unwrap();
                        one(&s.cols[i], x[i]);
                    } else {
                        whole.extend(self.retuple(k, j, r, x));
                    }
                }
            }
            _ => {}
        }
        out.extend(whole);
        let mut v = vec![];
        self.aim(t, r, &s.filter, F::ZERO, &mut v);
        out.extend(v.into_iter().map(|x| vec![x]));
        out
    }
    /// Make the tuple of a side's row another one.
    pub fn retuple(&self, k: usize, j: usize, r: usize, want: &[u64]) -> Option<Move> {
        let s = &self.rules.ctls[k][j];
        let t = s.table;
        let n = self.w.next(t, r);
        let mut mv: Move = vec![];
        for (c, x) in s.cols.iter().zip(want) {
            if u(c.at(&self.w.t[t][r], &self.w.t[t][n])) == *x { continue; }
            let mut v = vec![];
            self.aim(t, r, c, f(*x), &mut v);
            v.retain(|x| !mv.iter().any(|m| m.0 == x.0));
            // several free cells: let powers of two be binary flags
            mv.push(*v.first()?);
        }
        Some(mv)
    }
    fn lookup_moves(&mut self, k: usize) -> Vec<Move> {
        let mut out: Vec<Move> = vec![];
        let mut entries: Vec<(Vec<u64>, F)> = self.bal[k].iter().map(|(a, b)| (a.clone(), *b)).collect();
        entries.sort_by(|a, b| a.0.cmp(&b.0));
        let n_sides = self.rules.ctls[k].len();
        let looked_from = |j: usize| {
            let fm = &self.rules.ctls[k][j].filter;
            fm.lv.iter().chain(&fm.nv).all(|x| u(x.1) > F::ORDER / 2) && u(fm.k) != 1
        };
        for (tup, m) in entries.iter().take(3) {
            // positive: asked for once too often
            for j in 0..n_sides {
                let s = &self.rules.ctls[k][j];
                if self.frozen[s.table] || self.mask.lookups.contains(&(k, j)) { continue; }
                let mut spare = false;
                for r in 0..self.w.t[s.table].len() {
                    let (fi, v) = self.w.side(s, r);
                    if fi != F::ZERO && v == *tup {
                        for (other, m2) in &entries {
                            if other != tup && (u(*m2) > F::ORDER / 2) != (u(*m) > F::ORDER / 2) { out.extend(self.retuple(k, j, r, other)); }
                        }
                        let mut a = vec![];
                        self.aim(s.table, r, &s.filter, F::ZERO, &mut a);
                        out.extend(a.into_iter().map(|x| vec![x]));
                    } else if fi == F::ZERO && !spare && looked_from(j) == (u(*m) < F::ORDER / 2) && self.fixed.iter().all(|c| c.0 != s.table || c.1 != r) {
                        // a row that is not in use yet
                        if let Some(mut mv) = self.retuple(k, j, r, tup) {
                            let mut a = vec![];
                            self.aim(s.table, r, &s.filter, -*m, &mut a);
                            a.retain(|x| !mv.iter().any(|y| y.0 == x.0));
                            // the tuple itself may have set the flag already
                            if let Some(x) = a.first() { mv.push(*x); }
                            if !mv.is_empty() { spare = true; out.push(mv); }
                        }
                    }
                }
            }
        }
        out
    }

    /// Give every cell the value that the first constraint it occurs in asks for,
    /// from the first constraint to the last.
    pub fn propagate(&mut self) -> bool {
        for _ in 0..2000 {
            let Some((t, r, k)) = self.cons.iter().next().copied() else { return self.open() == 0 };
            let moves = self.constraint_moves(t, r, k);
            let uses = &self.slps[t].uses;
            let Some(mv) = moves.into_iter().find(|m| m.len() == 1 && m[0].0 .1 == r && uses[m[0].0 .2].first() == Some(&(k as u32))) else { return false };
            for (c, v) in &mv { self.set(*c, *v); self.fixed.insert(*c); }
        }
        false
    }
    /// Depth first, best move first, at most `disc` times not the best.
    pub fn solve(&mut self, disc: usize, depth: usize) -> bool {
        self.nodes += 1;
        if self.open() == 0 { return true; }
        let obj = self.objections();
        if obj.len() == 1 { self.alone.insert(*obj.first().unwrap()); }
        if self.nodes > self.budget || depth >= self.depth || self.open() > 40 { return false; }
        // the objection that leaves the least choice
        let mut best: Option<Vec<Move>> = None;
        let cons: Vec<Cell> = self.cons.iter().copied().take(5).collect();
        let tups: Vec<_> = self.tups.iter().copied().take(3).collect();
        let bals: Vec<usize> = (0..self.bal.len()).filter(|k| !self.bal[*k].is_empty()).take(2).collect();
        let mut consider = |m: Vec<Move>| {
            if best.as_ref().map_or(true, |b| m.len() < b.len()) { best = Some(m); }
        };
        for (t, r, k) in cons { consider(self.constraint_moves(t, r, k)); }
        for (k, j, r) in tups { consider(self.tuple_moves(k, j, r)); }
        for k in bals { consider(self.lookup_moves(k)); }
        let moves = best.unwrap_or_default();
        let mut scored: Vec<(usize, Move)> = vec![];
        let many = moves.len() > 1;
        for mv in moves {
            if !many { scored.push((0, mv)); break; }
            let undo: Vec<(Cell, F)> = mv.iter().map(|(c, _)| (*c, self.get(*c))).collect();
            for (c, v) in &mv { self.set(*c, *v); }
            let n = self.open();
            for (c, v) in undo.iter().rev() { self.set(*c, *v); }
            scored.push((n, mv));
        }
        scored.sort_by_key(|x| x.0);
        for (i, (_, mv)) in scored.into_iter().enumerate() {
            let cost = usize::from(i > 0);
            if cost > disc { break; }
            let undo: Vec<(Cell, F)> = mv.iter().map(|(c, _)| (*c, self.get(*c))).collect();
            for (c, v) in &mv { self.set(*c, *v); self.fixed.insert(*c); }
            if self.solve(disc - cost, depth + 1) { return true; }
            for (c, v) in undo.iter().rev() { self.set(*c, *v); self.fixed.remove(c); }
            if self.nodes > self.budget { return false; }
        }
        false
    }
}
