//! Traces as the verifier sees them: every table's rows, every constraint, every
//! cross-table lookup, evaluated directly instead of through polynomials.
use std::collections::HashMap;

use mozak_circuits::generation::generate_traces;
use mozak_circuits::stark::mozak_stark::{MozakStark, PublicInputs, TableKind};
use mozak_runner::elf::Program;
use mozak_runner::vm::ExecutionRecord;
use plonky2::field::goldilocks_field::GoldilocksField;
use plonky2::field::polynomial::PolynomialValues;
use plonky2::field::types::{Field, Field64, PrimeField64};
use plonky2::util::timing::TimingTree;
use starky::constraint_consumer::ConstraintConsumer;
use starky::evaluation_frame::StarkEvaluationFrame;
use starky::stark::Stark;

use crate::sym::Slp;

pub type F = GoldilocksField;
pub const D: usize = 2;
pub type Stk = MozakStark<F, D>;

macro_rules! tables {
    ($($field:ident $kind:ident,)*) => {
        pub const KINDS: [TableKind; 30] = [$(TableKind::$kind),*];
        fn slps(s: &'static Stk, entry: F) -> Vec<Slp> {
            let mut v: Vec<(usize, Slp)> = vec![$( {
                let k = TableKind::$kind as usize;
                let pis: &[F] = if k == TableKind::CpuSkeleton as usize { &[entry] } else { &[] };
                (k, crate::sym::record(&s.$field, pis))
            } ),*];
            v.sort_by_key(|x| x.0);
            v.into_iter().map(|x| x.1).collect()
        }
        /// In the order of `KINDS`.
        pub fn frames(s: &'static Stk) -> Vec<crate::c21::AnyFrame> { vec![$( crate::c21::frame_of(&s.$field) ),*] }
        fn evals(s: &'static Stk) -> Vec<(Eval, usize)> {
            // TableKind's own numbering decides the order
            let mut v: Vec<(usize, Eval, usize)> = vec![$( {
                fn width<S: Stark<F, D>>(_: &S) -> usize { S::COLUMNS }
                let st = &s.$field;
                (TableKind::$kind as usize, Box::new(move |lv: &[F], nv: &[F], first: bool, last: bool, pis: &[F]| values(st, lv, nv, first, last, pis)) as Eval, width(st))
            } ),*];
            v.sort_by_key(|x| x.0);
            v.into_iter().map(|x| (x.1, x.2)).collect()
        }
    };
}
tables! {
    cpu_stark Cpu, rangecheck_stark RangeCheck, xor_stark Xor, shift_amount_stark Bitshift,
    program_stark Program, program_mult_stark ProgramMult, memory_stark Memory,
    elf_memory_init_stark ElfMemoryInit, memory_zeroinit_stark MemoryZeroInit,
    rangecheck_u8_stark RangeCheckU8, halfword_memory_stark HalfWordMemory,
    fullword_memory_stark FullWordMemory, private_tape_stark StorageDevicePrivate,
    public_tape_stark StorageDevicePublic, call_tape_stark CallTape, event_tape_stark EventTape,
    events_commitment_tape_stark EventsCommitmentTape,
    cast_list_commitment_tape_stark CastListCommitmentTape, self_prog_id_tape_stark SelfProgIdTape,
    register_init_stark RegisterInit, register_stark Register,
    register_zero_read_stark RegisterZeroRead, register_zero_write_stark RegisterZeroWrite,
    poseidon2_stark Poseidon2, poseidon2_sponge_stark Poseidon2Sponge,
    poseidon2_output_bytes_stark Poseidon2OutputBytes, cpu_skeleton_stark CpuSkeleton,
    add_stark Add, blt_taken_stark BltTaken, tape_commitments_stark TapeCommitments,
}

fn values<S: Stark<F, D>>(st: &S, lv: &[F], nv: &[F], first: bool, last: bool, pis: &[F]) -> Vec<F> {
    let mut c = ConstraintConsumer::<F>::new_debug_api(first, last);
    st.eval_packed_generic(&S::EvaluationFrame::<F, F, 1>::from_values(lv, nv, pis), &mut c);
    c.debug_api_values()
}

pub type Eval = Box<dyn Fn(&[F], &[F], bool, bool, &[F]) -> Vec<F> + Send + Sync>;

/// A linear form over two neighbouring rows.
#[derive(Clone, Debug)]
pub struct Form {
    pub lv: Vec<(usize, F)>,
    pub nv: Vec<(usize, F)>,
    pub k: F,
}
impl Form {
    pub fn at(&self, lv: &[F], nv: &[F]) -> F {
        let mut s = self.k;
        for (i, c) in &self.lv { s += lv[*i] * *c; }
        for (i, c) in &self.nv { s += nv[*i] * *c; }
        s
    }
}
/// One side of a lookup. `sign` is -1 for the table looked into.
#[derive(Clone, Debug)]
pub struct Side {
    pub table: usize,
    pub cols: Vec<Form>,
    /// as the verifier sees it: negated on the looked-into side
    pub filter: Form,
}
pub struct Rules {
    pub stark: &'static Stk,
    pub evals: Vec<(Eval, usize)>,
    pub ctls: Vec<Vec<Side>>,
    pub subs: Vec<Side>,
}
fn form(c: &mozak_circuits::linear_combination::Column) -> Form {
    let g = |v: &Vec<(usize, i64)>| v.iter().map(|(i, c)| (*i, F::from_noncanonical_i64(*c))).collect();
    Form { lv: g(&c.lv_linear_combination), nv: g(&c.nv_linear_combination), k: F::from_noncanonical_i64(c.constant) }
}
impl Rules {
    /// The constraints as straight-line programs, for one entry point.
    pub fn slps(&self, entry: F) -> Vec<Slp> { slps(self.stark, entry) }
    pub fn new() -> Rules {
        let stark: &'static Stk = Box::leak(Box::default());
        let side = |t: &mozak_circuits::stark::mozak_stark::Table| {
            let (kind, cols, filter) = t.parts();
            Side { table: kind as usize, cols: cols.iter().map(form).collect(), filter: form(filter) }
        };
        Rules {
            stark,
            evals: evals(stark),
            ctls: stark.cross_table_lookups.iter().map(|c| c.looking_tables.iter().map(side).collect()).collect(),
            subs: stark.public_sub_tables.iter().map(|p| side(&p.table)).collect(),
        }
    }
}

/// One table: rows of field elements.
pub type Rows = Vec<Vec<F>>;

#[derive(Clone)]
pub struct World {
    pub t: Vec<Rows>,
    pub entry: F,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Bad {
    /// table, row, number of the constraint
    Constraint(usize, usize, usize),
    /// number of the lookup, tuple, what the filters add up to
    Lookup(usize, Vec<u64>, u64),
}

pub fn kind(t: usize) -> TableKind { KINDS.into_iter().find(|k| *k as usize == t).unwrap() }

impl std::fmt::Display for Bad {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            Bad::Constraint(t, r, c) => write!(f, "constraint {c} of table {:?} fails on row {r}", kind(*t)),
            Bad::Lookup(c, tup, m) => write!(f, "lookup {c}: tuple {tup:?} is off by {}", if *m > 1 << 63 { format!("-{}", F::ORDER - m) } else { m.to_string() }),
        }
    }
}

impl World {
    pub fn from_polys(traces: &[Vec<PolynomialValues<F>>], entry: u32) -> World {
        World {
            t: traces
                .iter()
                .map(|cols| (0..cols[0].len()).map(|r| cols.iter().map(|c| c.values[r]).collect()).collect())
                .collect(),
            entry: F::from_canonical_u32(entry),
        }
    }
    pub fn generate(program: &Program, record: &ExecutionRecord<F>) -> World {
        let traces = generate_traces::<F, D>(program, record, &mut TimingTree::default());
        Self::from_polys(&traces.0, program.entry_point)
    }
    pub fn to_polys(&self) -> Vec<Vec<PolynomialValues<F>>> {
        self.t
            .iter()
            .map(|rows| (0..rows[0].len()).map(|c| PolynomialValues::new(rows.iter().map(|r| r[c]).collect())).collect())
            .collect()
    }
    pub fn next(&self, t: usize, r: usize) -> usize { (r + 1) % self.t[t].len() }
    pub fn values(&self, rules: &Rules, t: usize, r: usize) -> Vec<F> {
        let n = self.next(t, r);
        let pis = if t == TableKind::CpuSkeleton as usize { vec![self.entry] } else { vec![] };
        (rules.evals[t].0)(&self.t[t][r], &self.t[t][n], r == 0, n == 0, &pis)
    }
    pub fn rows_bad(&self, rules: &Rules, t: usize, rows: impl Iterator<Item = usize>, mask: &Mask, out: &mut Vec<Bad>) {
        for r in rows {
            for (c, v) in self.values(rules, t, r).into_iter().enumerate() {
                if v != F::ZERO && !mask.constraints.contains(&(t, c)) { out.push(Bad::Constraint(t, r, c)); }
            }
        }
    }
    pub fn side(&self, s: &Side, r: usize) -> (F, Vec<u64>) {
        let lv = &self.t[s.table][r];
        let nv = &self.t[s.table][self.next(s.table, r)];
        (s.filter.at(lv, nv), s.cols.iter().map(|c| c.at(lv, nv).to_canonical_u64()).collect())
    }
    /// What a lookup's tables ask for and offer: the tuples that do not cancel.
    pub fn balance(&self, rules: &Rules, k: usize, mask: &Mask, only: impl Fn(usize) -> bool) -> HashMap<Vec<u64>, F> {
        let mut m: HashMap<Vec<u64>, F> = HashMap::new();
        for (j, s) in rules.ctls[k].iter().enumerate() {
            if mask.lookups.contains(&(k, j)) || !only(j) { continue; }
            for r in 0..self.t[s.table].len() {
                let lv = &self.t[s.table][r];
                let nv = &self.t[s.table][self.next(s.table, r)];
                let f = s.filter.at(lv, nv);
                if f != F::ZERO { *m.entry(s.cols.iter().map(|c| c.at(lv, nv).to_canonical_u64()).collect()).or_default() += f; }
            }
        }
        m.retain(|_, v| *v != F::ZERO);
        m
    }
    pub fn lookups_bad(&self, rules: &Rules, mask: &Mask, out: &mut Vec<Bad>) {
        for k in 0..rules.ctls.len() {
            let mut v: Vec<_> = self.balance(rules, k, mask, |_| true).into_iter().map(|(t, m)| Bad::Lookup(k, t, m.to_canonical_u64())).collect();
            v.sort_by_key(|b| format!("{b:?}"));
            out.extend(v);
        }
    }
    /// Everything a verifier would object to.
    pub fn bad(&self, rules: &Rules, mask: &Mask) -> Vec<Bad> {
        let mut out = vec![];
        for t in 0..self.t.len() {
            assert!(self.t[t].len().is_power_of_two());
            self.rows_bad(rules, t, 0..self.t[t].len(), mask, &mut out);
        }
        self.lookups_bad(rules, mask, &mut out);
        out
    }
    /// What a proof makes public of a table, one value a row. Where the rows say
    /// which of the values they are: empty unless they say all, once each.
    pub fn sub(&self, s: &Side) -> Vec<u64> {
        let mut rows = self.sub_rows(s);
        if s.cols.len() > 1 {
            rows.sort_by_key(|v| v[1]);
            if !rows.iter().enumerate().all(|(i, v)| v[1] == i as u64) { return vec![]; }
        }
        rows.iter().map(|v| v[0]).collect()
    }
    pub fn sub_rows(&self, s: &Side) -> Vec<Vec<u64>> {
        (0..self.t[s.table].len()).filter_map(|r| { let (f, v) = self.side(s, r); (f == F::ONE).then_some(v) }).collect()
    }
}

/// Rules left out on purpose, to measure what the search would find without them.
#[derive(Default, Clone, Debug)]
pub struct Mask {
    pub constraints: Vec<(usize, usize)>,
    pub lookups: Vec<(usize, usize)>,
}

pub fn public_inputs(p: &Program) -> PublicInputs<F> { PublicInputs { entry_point: F::from_canonical_u32(p.entry_point) } }
