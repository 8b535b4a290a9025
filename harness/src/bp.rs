//! Shared by the bulletproofs harnesses: numbers, generators, and a constraint system that records
//! what a gadget asks for and evaluates it on an assignment.
use amcl_wrapper::field_elem::FieldElement as FE;
use amcl_wrapper::group_elem::GroupElement;
use amcl_wrapper::group_elem_g1::{G1Vector, G1};
use bulletproofs_amcl::errors::{R1CSError, R1CSErrorKind};
use bulletproofs_amcl::r1cs::{ConstraintSystem, LinearCombination, RandomizedConstraintSystem, Variable};
use bulletproofs_amcl::utils::get_generators;
use serde_json::{json, Value};

pub fn fe_u64(x: u64) -> FE {
    let mut b = vec![0u8; 48];
    b[40..].copy_from_slice(&x.to_be_bytes());
    FE::from_bytes(&b).unwrap()
}
pub fn fe_i(i: i64) -> FE {
    if i < 0 { fe_u64((-i) as u64).negation() } else { fe_u64(i as u64) }
}
/// reduced form of a field element, as itself or its negative when that is small
pub fn small(x: &FE) -> Option<i64> {
    let f = |x: &FE| {
        let b = FE::from_bytes(&x.to_bytes()).unwrap().to_bytes();
        let n = b.len();
        if b[..n - 4].iter().all(|x| *x == 0) && b[n - 4] < 0x40 {
            Some(i64::from(u32::from_be_bytes([b[n - 4], b[n - 3], b[n - 2], b[n - 1]])))
        } else {
            None
        }
    };
    f(x).or_else(|| f(&x.negation()).map(|v| -v))
}
pub struct Gens {
    pub g: G1,
    pub h: G1,
    pub G: G1Vector,
    pub H: G1Vector,
}
pub fn gens(n: usize) -> Gens {
    Gens {
        g: G1::from_msg_hash(b"g"),
        h: G1::from_msg_hash(b"h"),
        G: get_generators("G", n).into(),
        H: get_generators("H", n).into(),
    }
}
/// records a constraint system; with assignments it is a checker of witnesses
#[derive(Default)]
pub struct Rec {
    pub v: Vec<FE>,
    pub m: usize,
    pub l: Vec<FE>,
    pub r: Vec<FE>,
    pub o: Vec<FE>,
    pub n: usize,
    pub cons: Vec<LinearCombination>,
    pub witness: bool,
    pending: Option<usize>,
}
impl Rec {
    pub fn prover() -> Self {
        Rec { witness: true, ..Default::default() }
    }
    pub fn commit(&mut self, x: Option<FE>) -> Variable {
        if let Some(x) = x {
            self.v.push(x);
        }
        self.m += 1;
        Variable::Committed(self.m - 1)
    }
    pub fn eval(&self, lc: &LinearCombination) -> FE {
        lc.terms.iter().fold(FE::zero(), |s, (v, c)| {
            s + c * match v {
                Variable::Committed(i) => self.v[*i].clone(),
                Variable::MultiplierLeft(i) => self.l[*i].clone(),
                Variable::MultiplierRight(i) => self.r[*i].clone(),
                Variable::MultiplierOutput(i) => self.o[*i].clone(),
                Variable::One() => FE::one(),
            }
        })
    }
    pub fn satisfied(&self) -> bool {
        self.cons.iter().all(|c| self.eval(c).is_zero())
    }
    fn gate(&mut self, a: Option<(FE, FE)>) -> (Variable, Variable, Variable) {
        let i = self.n;
        self.n += 1;
        if let Some((l, r)) = a {
            self.o.push(&l * &r);
            self.l.push(l);
            self.r.push(r);
        }
        (Variable::MultiplierLeft(i), Variable::MultiplierRight(i), Variable::MultiplierOutput(i))
    }
    /// constraints as lists of (sort, index, coefficient), when all coefficients are small
    pub fn terms(&self) -> Option<Value> {
        let mut all = vec![];
        for c in &self.cons {
            let mut q = vec![];
            for (v, k) in &c.terms {
                let (s, i) = match v {
                    Variable::One() => (0, 0),
                    Variable::MultiplierLeft(i) => (1, *i),
                    Variable::MultiplierRight(i) => (2, *i),
                    Variable::MultiplierOutput(i) => (3, *i),
                    Variable::Committed(i) => (4, *i),
                };
                q.push(json!([s, i, small(k)?]));
            }
            all.push(json!(q));
        }
        Some(json!(all))
    }
}
impl ConstraintSystem for Rec {
    type RandomizedCS = Rec;
    fn multiply(&mut self, mut left: LinearCombination, mut right: LinearCombination) -> (Variable, Variable, Variable) {
        let a = if self.witness { Some((self.eval(&left), self.eval(&right))) } else { None };
        let (l, r, o) = self.gate(a);
        left.terms.push((l, FE::minus_one()));
        right.terms.push((r, FE::minus_one()));
        self.cons.push(left);
        self.cons.push(right);
        (l, r, o)
    }
    fn allocate(&mut self, a: Option<FE>) -> Result<Variable, R1CSError> {
        if self.witness && a.is_none() {
            return Err(R1CSErrorKind::MissingAssignment.into());
        }
        match self.pending.take() {
            None => {
                let (l, _, _) = self.gate(a.map(|x| (x, FE::zero())));
                self.pending = Some(self.n - 1);
                Ok(l)
            }
            Some(i) => {
                if let Some(x) = a {
                    self.o[i] = &self.l[i] * &x;
                    self.r[i] = x;
                }
                Ok(Variable::MultiplierRight(i))
            }
        }
    }
    fn allocate_multiplier(&mut self, a: Option<(FE, FE)>) -> Result<(Variable, Variable, Variable), R1CSError> {
        if self.witness && a.is_none() {
            return Err(R1CSErrorKind::MissingAssignment.into());
        }
        let a = if self.witness { a } else { None };
        Ok(self.gate(a))
    }
    fn constrain(&mut self, lc: LinearCombination) {
        self.cons.push(lc);
    }
    fn specify_randomized_constraints<F>(&mut self, _: F) -> Result<(), R1CSError>
    where
        F: 'static + Fn(&mut Self::RandomizedCS) -> Result<(), R1CSError>,
    {
        panic!("HARNESS randomized constraints")
    }
    fn evaluate_lc(&self, lc: &LinearCombination) -> Option<FE> {
        if self.witness { Some(self.eval(lc)) } else { None }
    }
    fn allocate_single(&mut self, a: Option<FE>) -> Result<(Variable, Option<Variable>), R1CSError> {
        match self.allocate(a)? {
            Variable::MultiplierRight(i) => Ok((Variable::MultiplierRight(i), Some(Variable::MultiplierOutput(i)))),
            v => Ok((v, None)),
        }
    }
}
impl RandomizedConstraintSystem for Rec {
    fn challenge_scalar(&mut self, _: &'static [u8]) -> FE {
        panic!("HARNESS challenge")
    }
}
