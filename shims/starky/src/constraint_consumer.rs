use core::marker::PhantomData;
use plonky2::field::extension::Extendable;
use plonky2::field::packed::PackedField;
use plonky2::field::types::Field;
use plonky2::hash::hash_types::RichField;
use plonky2::iop::ext_target::ExtensionTarget;
use plonky2::iop::target::Target;
use plonky2::plonk::circuit_builder::CircuitBuilder;

#[derive(Debug)]
pub struct ConstraintConsumer<P: PackedField> {
    alphas: Vec<P::Scalar>,
    constraint_accs: Vec<P>,
    z_last: P,
    lagrange_basis_first: P,
    lagrange_basis_last: P,
    failed: bool,
    count: usize,
    /// Indices of the constraints that did not vanish.
    nonzero: Vec<usize>,
    /// What every constraint came to (only for checking rows).
    values: Vec<P>,
}
impl<P: PackedField> ConstraintConsumer<P> {
    pub fn new(alphas: Vec<P::Scalar>, z_last: P, lagrange_basis_first: P, lagrange_basis_last: P) -> Self {
        Self { constraint_accs: vec![P::ZEROS; alphas.len()], alphas, z_last, lagrange_basis_first, lagrange_basis_last, failed: false, count: 0, nonzero: vec![], values: vec![] }
    }
    /// For checking one pair of rows of a trace; the row kind decides which constraints apply.
    pub fn new_debug_api(lv_is_first_row: bool, nv_is_first_row: bool) -> Self {
        let b = |x: bool| if x { P::ONES } else { P::ZEROS };
        Self::new(vec![], b(!nv_is_first_row), b(lv_is_first_row), b(nv_is_first_row))
    }
    pub fn debug_api_has_constraint_failed(&self) -> bool { self.failed }
    pub fn debug_api_failures(&self) -> &[usize] { &self.nonzero }
    pub fn debug_api_values(self) -> Vec<P> { self.values }
    pub fn num_constraints(&self) -> usize { self.count }
    pub fn accumulators(self) -> Vec<P> { self.constraint_accs }

    pub fn constraint_transition(&mut self, constraint: P) { self.constraint(constraint * self.z_last); }
    pub fn constraint(&mut self, constraint: P) {
        for (&alpha, acc) in self.alphas.iter().zip(&mut self.constraint_accs) {
            *acc *= alpha;
            *acc += constraint;
        }
        if self.alphas.is_empty() { self.values.push(constraint); }
        if constraint.as_slice().iter().any(|x| x.is_nonzero()) {
            self.failed = true;
            if self.alphas.is_empty() { self.nonzero.push(self.count); }
        }
        self.count += 1;
    }
    pub fn constraint_first_row(&mut self, constraint: P) { self.constraint(constraint * self.lagrange_basis_first); }
    pub fn constraint_last_row(&mut self, constraint: P) { self.constraint(constraint * self.lagrange_basis_last); }
}

#[derive(Debug)]
pub struct RecursiveConstraintConsumer<F: RichField + Extendable<D>, const D: usize> {
    alphas: Vec<Target>,
    constraint_accs: Vec<ExtensionTarget<D>>,
    z_last: ExtensionTarget<D>,
    lagrange_basis_first: ExtensionTarget<D>,
    lagrange_basis_last: ExtensionTarget<D>,
    _phantom: PhantomData<F>,
}
impl<F: RichField + Extendable<D>, const D: usize> RecursiveConstraintConsumer<F, D> {
    pub fn new(zero: ExtensionTarget<D>, alphas: Vec<Target>, z_last: ExtensionTarget<D>, lagrange_basis_first: ExtensionTarget<D>, lagrange_basis_last: ExtensionTarget<D>) -> Self {
        Self { constraint_accs: vec![zero; alphas.len()], alphas, z_last, lagrange_basis_first, lagrange_basis_last, _phantom: PhantomData }
    }
    pub fn accumulators(self) -> Vec<ExtensionTarget<D>> { self.constraint_accs }
    pub fn constraint_transition(&mut self, builder: &mut CircuitBuilder<F, D>, constraint: ExtensionTarget<D>) {
        let c = builder.mul_extension(constraint, self.z_last);
        self.constraint(builder, c);
    }
    pub fn constraint(&mut self, builder: &mut CircuitBuilder<F, D>, constraint: ExtensionTarget<D>) {
        for (&alpha, acc) in self.alphas.iter().zip(&mut self.constraint_accs) {
            let alpha = builder.convert_to_ext(alpha);
            *acc = builder.mul_add_extension(alpha, *acc, constraint);
        }
    }
    pub fn constraint_first_row(&mut self, builder: &mut CircuitBuilder<F, D>, constraint: ExtensionTarget<D>) {
        let c = builder.mul_extension(constraint, self.lagrange_basis_first);
        self.constraint(builder, c);
    }
    pub fn constraint_last_row(&mut self, builder: &mut CircuitBuilder<F, D>, constraint: ExtensionTarget<D>) {
        let c = builder.mul_extension(constraint, self.lagrange_basis_last);
        self.constraint(builder, c);
    }
}
