//! C26: sparse Merkle trees in the clear and in proofs, proofs of preimages of hashes.
#![allow(non_snake_case)]
use amcl_wrapper::field_elem::FieldElement as FE;
use amcl_wrapper::group_elem::GroupElement;
use amcl_wrapper::group_elem_g1::G1;
use bulletproofs_amcl::errors::{BulletproofError, R1CSError};
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::mimc::{mimc, mimc_gadget};
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::poseidon::*;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::sparse_merkle_tree_4_ary::*;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::sparse_merkle_tree_8_ary::*;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::LeafValueType;
use bulletproofs_amcl::r1cs::gadgets::merkle_tree_hash::*;
use bulletproofs_amcl::r1cs::gadgets::mimc::*;
use bulletproofs_amcl::r1cs::gadgets::poseidon_hash::*;
use bulletproofs_amcl::r1cs::gadgets::sparse_merkle_tree_4_ary::*;
use bulletproofs_amcl::r1cs::gadgets::sparse_merkle_tree_8_ary::*;
use bulletproofs_amcl::r1cs::linear_combination::AllocatedQuantity;
use bulletproofs_amcl::r1cs::{ConstraintSystem, LinearCombination, Prover, R1CSProof, Variable, Verifier};
use bulletproofs_amcl::utils::hash_db::InMemoryHashDb;
use rand::rngs::ThreadRng;
use rand::seq::SliceRandom;
use rand::Rng;
use serde_json::{json, Value};
use std::sync::Arc;
use vh::bp::*;
use vh::*;

/// the hash of a tree: the square of a random linear combination, or Poseidon with few rounds
#[derive(Clone)]
enum Hf {
    Toy(Vec<FE>),
    Pos(PoseidonParams, SboxType),
}
fn lin(k: &[FE], x: &[FE]) -> FE {
    let s = k.iter().zip(x).fold(FE::one(), |s, (a, b)| s + a * b);
    &s * &s
}
impl Arity4MerkleTreeHash for Hf {
    fn hash(&self, x: Vec<FE>) -> Result<FE, BulletproofError> {
        match self {
            Hf::Toy(k) => Ok(lin(k, &x)),
            Hf::Pos(p, s) => PoseidonHash4 { params: p, sbox: s }.hash(x),
        }
    }
}
impl Arity8MerkleTreeHash for Hf {
    fn hash(&self, x: Vec<FE>) -> Result<FE, BulletproofError> {
        match self {
            Hf::Toy(k) => Ok(lin(k, &x)),
            Hf::Pos(p, s) => PoseidonHash8 { params: p, sbox: s }.hash(x),
        }
    }
}
/// its constraints; the second of the Poseidon pair is the variable with the capacity constant
enum Hc<'a> {
    Toy(&'a [FE]),
    Pos(PoseidonHashConstraints<'a>),
    Rec(&'a PoseidonParams, &'a SboxType, Variable),
}
fn lin_lc<CS: ConstraintSystem>(cs: &mut CS, k: &[FE], x: Vec<LinearCombination>) -> LinearCombination {
    let s = k.iter().zip(x).fold(LinearCombination::from(FE::one()), |s, (a, b)| s + a * b);
    cs.multiply(s.clone(), s).2.into()
}
macro_rules! hc {
    ($t:ident, $f:ident) => {
        impl<'a> $t for Hc<'a> {
            fn prover_setup(&mut self, p: &mut Prover) -> Result<(), R1CSError> {
                match self {
                    Hc::Pos(c) => $t::prover_setup(c, p),
                    _ => Ok(()),
                }
            }
            fn verifier_setup(&mut self, v: &mut Verifier, g: Option<&G1>, h: Option<&G1>) -> Result<(), R1CSError> {
                match self {
                    Hc::Pos(c) => $t::verifier_setup(c, v, g, h),
                    _ => Ok(()),
                }
            }
            fn hash<CS: ConstraintSystem>(&self, cs: &mut CS, x: Vec<LinearCombination>) -> Result<LinearCombination, R1CSError> {
                match self {
                    Hc::Toy(k) => Ok(lin_lc(cs, k, x)),
                    Hc::Pos(c) => $t::hash(c, cs, x),
                    Hc::Rec(p, s, v) => $f(cs, x, (*v).into(), p, s),
                }
            }
        }
    };
}
hc!(Arity4MerkleTreeHashConstraints, Poseidon_hash_4_constraints);
hc!(Arity8MerkleTreeHashConstraints, Poseidon_hash_8_constraints);
fn cap(ar: usize) -> u64 {
    if ar == 4 { CAP_CONST_W_5 } else { CAP_CONST_W_9 }
}
impl Hf {
    fn hc(&self, ar: usize) -> Hc {
        match self {
            Hf::Toy(k) => Hc::Toy(k),
            Hf::Pos(p, s) => Hc::Pos(PoseidonHashConstraints::new(p, s, cap(ar))),
        }
    }
}
struct World {
    std: Gens,
    few: Gens,
    other: G1,
    toy: [&'static Hf; 2],
    pos: [&'static Hf; 2],
}
fn world() -> World {
    let lk = |h: Hf| -> &'static Hf { Box::leak(Box::new(h)) };
    let r = |n| (0..n).map(|_| FE::random()).collect::<Vec<_>>();
    World {
        std: gens(256),
        few: gens(1),
        other: G1::random(),
        toy: [lk(Hf::Toy(r(4))), lk(Hf::Toy(r(8)))],
        pos: [
            lk(Hf::Pos(PoseidonParams::new(5, 1, 1, 1).unwrap(), SboxType::Cube)),
            lk(Hf::Pos(PoseidonParams::new(9, 1, 1, 1).unwrap(), SboxType::Inverse)),
        ],
    }
}
#[derive(Clone)]
enum Tree {
    T4(VanillaSparseMerkleTree4<'static, Hf>, InMemoryHashDb<DbVal4ary>),
    T8(VanillaSparseMerkleTree8<'static, Hf>, InMemoryHashDb<DbVal8ary>),
}
type Path = Vec<Vec<FE>>;
fn n4(p: &Path) -> Vec<ProofNode4ary> {
    p.iter()
        .map(|l| {
            let mut a: ProofNode4ary = [FE::zero(), FE::zero(), FE::zero()];
            a.clone_from_slice(l);
            a
        })
        .collect()
}
fn n8(p: &Path) -> Vec<ProofNode8ary> {
    p.iter()
        .map(|l| {
            let z = FE::zero;
            let mut a: ProofNode8ary = [z(), z(), z(), z(), z(), z(), z()];
            a.clone_from_slice(l);
            a
        })
        .collect()
}
macro_rules! each {
    ($t:expr, $tr:ident, $db:ident, $e:expr) => {
        match $t {
            Tree::T4($tr, $db) => $e,
            Tree::T8($tr, $db) => $e,
        }
    };
}
#[derive(Clone)]
struct Smt {
    w: Arc<World>,
    ar: usize,
    h: usize,
    tr: Option<Tree>,
    roots: Vec<FE>,
    path: Path,
    z: Option<(R1CSProof, Vec<G1>)>,
    pre: Pre,
}
fn fresh(w: &Arc<World>) -> Smt {
    Smt { w: w.clone(), ar: 0, h: 0, tr: None, roots: vec![], path: vec![], z: None, pre: Pre { w: w.clone(), pf: None, bl: vec![] } }
}
fn same<T>(a: T, b: T) -> bool
where
    T: PartialEq,
{
    a == b
}
/// value of a leaf as the specification writes it
fn show(x: &FE) -> Value {
    match small(x) {
        Some(v) => json!(v.to_string()),
        None => json!("large"),
    }
}
impl Smt {
    fn hf(&self) -> &'static Hf {
        (if self.h == 0 { &self.w.toy } else { &self.w.pos })[if self.ar == 4 { 0 } else { 1 }]
    }
    fn depth(&self) -> usize {
        each!(self.tr.as_ref().unwrap(), t, _d, t.depth)
    }
    fn idx(&self, i: &Value) -> FE {
        let b = fe_u64(self.ar as u64);
        ints(i).iter().fold(FE::zero(), |s, d| s * &b + fe_i(*d))
    }
    fn root(&self) -> FE {
        each!(self.tr.as_ref().unwrap(), t, _d, t.root.clone())
    }
    fn id(&mut self) -> Value {
        let r = self.root();
        let k = self.roots.iter().position(|x| same(x, &r)).unwrap_or(self.roots.len());
        if k == self.roots.len() {
            self.roots.push(r);
        }
        json!((k + 1).to_string())
    }
    fn node(&self, k: i64) -> FE {
        match k {
            0 => self.root(),
            -1 => fe_u64(77_777),
            k => self.roots[k as usize - 1].clone(),
        }
    }
    fn read(&self, i: &Value, k: i64, path: bool) -> Result<(FE, Path), BulletproofError> {
        let x = self.idx(i);
        let mut tr = self.tr.clone().unwrap();
        let r = self.node(k);
        match &mut tr {
            Tree::T4(t, db) => {
                t.root = r;
                let mut p = if path { Some(vec![]) } else { None };
                let v = t.get(&x, &mut p, db)?;
                Ok((v, p.unwrap_or_default().iter().map(|l| l.to_vec()).collect()))
            }
            Tree::T8(t, db) => {
                t.root = r;
                let mut p = if path { Some(vec![]) } else { None };
                let v = t.get(&x, &mut p, db)?;
                Ok((v, p.unwrap_or_default().iter().map(|l| l.to_vec()).collect()))
            }
        }
    }
    fn edited(&self, e: &Value) -> Path {
        let mut p = self.path.clone();
        let l = us(&e["l"]);
        match st(&e["n"]) {
            "none" => {}
            "short" => { p.pop(); }
            "front" => if !p.is_empty() { p.remove(0); },
            "empty" => p.clear(),
            "long" => p.push(vec![FE::zero(); self.ar - 1]),
            "swapl" => if p.len() > 1 { p.swap(0, 1) },
            "rev" => if l <= p.len() { p[l - 1].reverse() },
            "alien" => if l <= p.len() { p[l - 1][0] = fe_u64(77_777) },
            "zero" => if l <= p.len() { p[l - 1][self.ar - 2] = FE::zero() },
            x => harness!("edit {}", x),
        }
        p
    }
    /// the gadget on a checker of witnesses
    fn witness(&self, c: &Value) -> Result<bool, R1CSError> {
        let mut r = Rec::prover();
        let x = self.idx(&c["i"]);
        let v = fe_i(int(&c["v"]));
        let q = AllocatedQuantity { variable: r.commit(Some(x.clone())), assignment: Some(x) };
        let leaf = if c["hide"] == true { LeafValueType::Hidden(r.commit(Some(v))) } else { LeafValueType::Known(v) };
        let nodes: Vec<Variable> = self.edited(&c["e"]).into_iter().flatten().map(|x| r.commit(Some(x))).collect();
        let root = self.node(int(&c["k"]));
        let d = self.depth();
        let mut hc = match self.hf() {
            Hf::Toy(k) => Hc::Toy(k),
            Hf::Pos(p, s) => Hc::Rec(p, s, r.commit(Some(fe_u64(cap(self.ar))))),
        };
        if self.ar == 4 {
            vanilla_merkle_merkle_tree_4_verif_gadget(&mut r, d, &root, leaf, q, nodes, &mut hc)?;
        } else {
            vanilla_merkle_merkle_tree_8_verif_gadget(&mut r, d, &root, leaf, q, nodes, &mut hc)?;
        }
        Ok(r.satisfied())
    }
    fn zk(&self, c: &Value) -> Result<(R1CSProof, Vec<G1>), R1CSError> {
        let q = if c["how"] == "few" { &self.w.few } else { &self.w.std };
        let (g, h, G, H) = (&q.g, &q.h, &q.G, &q.H);
        let hide = c["hide"] == true;
        let mut rg = rand::thread_rng();
        let how = st(&c["how"]);
        let nb = if hide { 2 } else { 1 };
        let b = match how {
            "blind" => Some((0..nb).map(|_| FE::random()).collect()),
            "short" => Some((0..nb - 1).map(|_| FE::random()).collect()),
            _ => None,
        };
        let r: Option<&mut ThreadRng> = if how == "rng" || how == "few" { Some(&mut rg) } else { None };
        let (x, v, root, d, p) = (self.idx(&c["i"]), fe_i(int(&c["v"])), self.node(int(&c["k"])), self.depth(), self.edited(&c["e"]));
        let mut hc = self.hf().hc(self.ar);
        if self.ar == 4 {
            gen_proof_of_leaf_inclusion_4_ary_merkle_tree(v, x, hide, b, n4(&p), &root, d, &mut hc, r, b"a", g, h, G, H)
        } else {
            gen_proof_of_leaf_inclusion_8_ary_merkle_tree(v, x, hide, b, n8(&p), &root, d, &mut hc, r, b"a", g, h, G, H)
        }
    }
    fn zkv(&self, c: &Value) -> Result<(), R1CSError> {
        let (pf, mut cs) = match &self.z {
            Some(z) => z.clone(),
            None => return Err(bulletproofs_amcl::errors::R1CSErrorKind::VerificationError.into()),
        };
        let t = st(&c["gens"]);
        let q = if t == "few" { &self.w.few } else { &self.w.std };
        let (mut g, mut h, mut G, mut H) = (q.g.clone(), q.h.clone(), q.G.clone(), q.H.clone());
        match t {
            "std" | "few" => {}
            "g" => g = self.w.other.clone(),
            "h" => h = self.w.other.clone(),
            "G" => G[0] = self.w.other.clone(),
            "H" => H[0] = self.w.other.clone(),
            x => harness!("gens {}", x),
        }
        match st(&c["e"]) {
            "none" => {}
            "drop" => { cs.pop(); }
            "extra" => cs.push(G1::random()),
            "empty" => cs.clear(),
            "other" => cs[0] = &cs[0] + &g,
            "reblind" => cs[0] = &cs[0] + &h,
            "last" => { let n = cs.len(); cs[n - 1] = G1::random() }
            "swap" => { let n = cs.len(); if n > 1 { cs.swap(0, n - 1) } else { cs[0] = cs[0].negation() } }
            x => harness!("edit {}", x),
        }
        let v = if c["hide"] == true { None } else { Some(fe_i(int(&c["v"]))) };
        let l: &'static [u8] = if c["label"] == "a" { b"a" } else { b"b" };
        let root = self.node(int(&c["k"]));
        let d = us(&c["d"]);
        let mut hc = self.hf().hc(self.ar);
        if self.ar == 4 {
            verify_proof_of_leaf_inclusion_4_ary_merkle_tree(&root, d, &mut hc, pf, v, cs, l, &g, &h, &G, &H)
        } else {
            verify_proof_of_leaf_inclusion_8_ary_merkle_tree(&root, d, &mut hc, pf, v, cs, l, &g, &h, &G, &H)
        }
    }
}
impl Sys for Smt {
    fn fork(&self) -> Self {
        self.clone()
    }
    fn step(&mut self, c: &Value) -> Value {
        match st(&c["op"]) {
            "new" => {
                self.ar = us(&c["ar"]);
                self.h = if c["h"] == "toy" { 0 } else { 1 };
                let d = us(&c["d"]);
                let old = if c["keep"] == true { self.tr.take() } else { None };
                if old.is_none() {
                    self.roots.clear();
                }
                self.path.clear();
                self.z = None;
                let h = self.hf();
                self.tr = Some(if self.ar == 4 {
                    let mut db = match old {
                        Some(Tree::T4(_, db)) => db,
                        _ => InMemoryHashDb::new(),
                    };
                    Tree::T4(VanillaSparseMerkleTree4::new(h, d, &mut db).unwrap(), db)
                } else {
                    let mut db = match old {
                        Some(Tree::T8(_, db)) => db,
                        _ => InMemoryHashDb::new(),
                    };
                    Tree::T8(VanillaSparseMerkleTree8::new(h, d, &mut db).unwrap(), db)
                });
                self.id()
            }
            "update" => {
                let x = self.idx(&c["i"]);
                let v = fe_i(int(&c["v"]));
                let r = each!(self.tr.as_mut().unwrap(), t, db, t.update(&x, v, db));
                match r {
                    Ok(r) if r == self.root() => self.id(),
                    Ok(_) => json!("another root returned"),
                    Err(_) => json!("err"),
                }
            }
            "get" => match self.read(&c["i"], int(&c["k"]), false) {
                Ok((v, _)) => show(&v),
                Err(_) => json!("err"),
            },
            "path" => match self.read(&c["i"], int(&c["k"]), true) {
                Ok((v, p)) => {
                    self.path = p;
                    show(&v)
                }
                Err(_) => json!("err"),
            },
            "verify" => {
                let (x, v, p) = (self.idx(&c["i"]), fe_i(int(&c["v"])), self.edited(&c["e"]));
                let k = int(&c["k"]);
                let n = self.node(k);
                let r = if k == 0 { None } else { Some(&n) };
                let q = match self.tr.as_ref().unwrap() {
                    Tree::T4(t, _) => t.verify_proof(&x, &v, &n4(&p), r),
                    Tree::T8(t, _) => t.verify_proof(&x, &v, &n8(&p), r),
                };
                json!(match q {
                    Ok(true) => "yes",
                    Ok(false) => "no",
                    Err(_) => "err",
                })
            }
            "wit" => json!(match self.witness(c) {
                Ok(true) => "yes",
                Ok(false) => "no",
                Err(_) => "err",
            }),
            "zk" => match self.zk(c) {
                Ok(z) => {
                    self.z = Some(z);
                    json!("done")
                }
                Err(_) => json!("err"),
            },
            "zkv" => json!(if self.zkv(c).is_ok() { "ok" } else { "err" }),
            // recorded beforehand
            "circuit" => json!("ok"),
            _ => self.pre.step(c),
        }
    }
}

/// proofs of preimages
#[derive(Clone)]
struct Pre {
    w: Arc<World>,
    pf: Option<(R1CSProof, Vec<G1>)>,
    bl: Vec<FE>,
}
fn sbox(s: &str) -> SboxType {
    match s {
        "cube" => SboxType::Cube,
        "inv" => SboxType::Inverse,
        "quint" => SboxType::Quint,
        x => harness!("sbox {}", x),
    }
}
fn fes(v: &Value) -> Vec<FE> {
    ints(v).into_iter().map(fe_i).collect()
}
fn small_params(c: &Value) -> PoseidonParams {
    let r = ints(&c["rounds"]);
    PoseidonParams {
        width: us(&c["w"]) + 1,
        full_rounds_beginning: r[0] as usize,
        partial_rounds: r[1] as usize,
        full_rounds_end: r[2] as usize,
        round_keys: fes(&c["keys"]),
        MDS_matrix: arr(&c["mds"]).iter().map(fes).collect(),
    }
}
fn params(f: &Value) -> PoseidonParams {
    let r = ints(&f["rounds"]);
    PoseidonParams::new(us(&f["w"]) + 1, r[0] as usize, r[2] as usize, r[1] as usize).unwrap()
}
fn mimc_keys(f: &Value) -> Vec<FE> {
    (0..ints(&f["rounds"])[0]).map(|i| fe_i(i * i + 3)).collect()
}
/// hash of the inputs under the function `f`
fn image(f: &Value, x: &Value) -> Result<FE, BulletproofError> {
    let x = fes(x);
    if f["sbox"] == "mimc" {
        return Ok(mimc(&x[0], &x[1], &mimc_keys(f)));
    }
    let (p, s) = (params(f), sbox(st(&f["sbox"])));
    match us(&f["w"]) {
        2 => Poseidon_hash_2(x, &p, &s),
        4 => Poseidon_hash_4(x, &p, &s),
        8 => Poseidon_hash_8(x, &p, &s),
        w => harness!("width {}", w),
    }
}
impl Pre {
    fn prove(&mut self, c: &Value) -> Result<(), R1CSError> {
        let f = &c["f"];
        let img = image(f, &c["img"]).unwrap();
        let x = fes(&c["in"]);
        let q = if c["how"] == "few" { &self.w.few } else { &self.w.std };
        let (g, h, G, H) = (&q.g, &q.h, &q.G, &q.H);
        let mut rg = rand::thread_rng();
        let how = st(&c["how"]);
        self.bl = (0..x.len()).map(|_| FE::random()).collect();
        let b = match how {
            "blind" => Some(self.bl.clone()),
            "short" => Some(self.bl[1..].to_vec()),
            _ => None,
        };
        let r: Option<&mut ThreadRng> = if how == "rng" || how == "few" { Some(&mut rg) } else { None };
        self.pf = Some(if f["sbox"] == "mimc" {
            gen_proof_of_knowledge_of_preimage_of_mimc(x, b, &img, &mimc_keys(f), r, b"a", g, h, G, H)?
        } else {
            let (p, s) = (params(f), sbox(st(&f["sbox"])));
            match us(&f["w"]) {
                2 => gen_proof_of_knowledge_of_preimage_of_Poseidon_2(x, b, &img, &p, &s, r, b"a", g, h, G, H)?,
                4 => gen_proof_of_knowledge_of_preimage_of_Poseidon_4(x, b, &img, &p, &s, r, b"a", g, h, G, H)?,
                _ => gen_proof_of_knowledge_of_preimage_of_Poseidon_8(x, b, &img, &p, &s, r, b"a", g, h, G, H)?,
            }
        });
        Ok(())
    }
    fn verify(&self, c: &Value) -> Result<(), R1CSError> {
        let (pf, mut cs) = match &self.pf {
            Some(z) => z.clone(),
            None => return Err(bulletproofs_amcl::errors::R1CSErrorKind::VerificationError.into()),
        };
        let f = &c["f"];
        let img = image(f, &c["img"]).unwrap();
        let t = st(&c["gens"]);
        let q = if t == "few" { &self.w.few } else { &self.w.std };
        let (mut g, mut h, mut G, mut H) = (q.g.clone(), q.h.clone(), q.G.clone(), q.H.clone());
        match t {
            "std" | "few" => {}
            "g" => g = self.w.other.clone(),
            "h" => h = self.w.other.clone(),
            "G" => G[0] = self.w.other.clone(),
            "H" => H[0] = self.w.other.clone(),
            x => harness!("gens {}", x),
        }
        match st(&c["e"]) {
            "none" => {}
            "drop" => { cs.pop(); }
            "extra" => cs.push(G1::random()),
            "empty" => cs.clear(),
            "other" => cs[0] = &cs[0] + &g,
            "reblind" => cs[0] = &cs[0] + &h,
            "last" => { let n = cs.len(); cs[n - 1] = G1::random() }
            "swap" => { let n = cs.len(); cs.swap(0, n - 1) }
            x => harness!("edit {}", x),
        }
        let l: &'static [u8] = if c["label"] == "a" { b"a" } else { b"b" };
        if f["sbox"] == "mimc" {
            return verify_knowledge_of_preimage_of_mimc(&img, &mimc_keys(f), pf, cs, l, &g, &h, &G, &H);
        }
        let (p, s) = (params(f), sbox(st(&f["sbox"])));
        match us(&f["w"]) {
            2 => verify_proof_of_knowledge_of_preimage_of_Poseidon_2(&img, &p, &s, pf, cs, l, &g, &h, &G, &H),
            4 => verify_proof_of_knowledge_of_preimage_of_Poseidon_4(&img, &p, &s, pf, cs, l, &g, &h, &G, &H),
            _ => verify_proof_of_knowledge_of_preimage_of_Poseidon_8(&img, &p, &s, pf, cs, l, &g, &h, &G, &H),
        }
    }
    /// the gadget on a checker of witnesses
    fn witness(c: &Value) -> Result<bool, R1CSError> {
        let f = &c["f"];
        let img = image(f, &c["img"]).unwrap();
        let mut r = Rec::prover();
        // a wire left over by another gadget
        if c["odd"] == true {
            r.allocate(Some(FE::one()))?;
        }
        let x: Vec<Variable> = fes(&c["in"]).into_iter().map(|x| r.commit(Some(x))).collect();
        if f["sbox"] == "mimc" {
            mimc_gadget(&mut r, x[0].into(), x[1].into(), &mimc_keys(f), &img)?;
        } else {
            let (p, s) = (params(f), sbox(st(&f["sbox"])));
            let w = us(&f["w"]);
            let k = r.commit(Some(fe_u64([3, 31, 511][if w == 2 { 0 } else if w == 4 { 1 } else { 2 }])));
            match w {
                2 => Poseidon_hash_2_gadget(&mut r, x, k, &p, &s, &img)?,
                4 => Poseidon_hash_4_gadget(&mut r, x, k, &p, &s, &img)?,
                _ => Poseidon_hash_8_gadget(&mut r, x, k, &p, &s, &img)?,
            }
        }
        Ok(r.satisfied())
    }
    /// with parameters small enough for the specification to compute the result
    fn perm(c: &Value) -> Value {
        let x = fes(&c["in"]);
        let out = if c["sbox"] == "mimc" {
            vec![mimc(&x[0], &x[1], &fes(&c["keys"]))]
        } else {
            Poseidon_permutation(&x, &small_params(c), &sbox(st(&c["sbox"])))
        };
        json!(out.iter().map(|x| small(x).map_or(json!("large"), |v| json!(v))).collect::<Vec<_>>())
    }
    fn opens(&self, c: &Value) -> bool {
        let x = fes(&c["in"]);
        let q = &self.w.std;
        match &self.pf {
            None => false,
            Some((_, cs)) => x.iter().zip(&self.bl).zip(cs).all(|((x, b), c)| *c == &q.g * x + &q.h * b),
        }
    }
    fn step(&mut self, c: &Value) -> Value {
        match st(&c["op"]) {
            "blank" => {
                self.pf = None;
                json!("ok")
            }
            "prove" => json!(if self.prove(c).is_ok() { "done" } else { "err" }),
            "pverify" => json!(if self.verify(c).is_ok() { "ok" } else { "err" }),
            "pwit" => json!(match Pre::witness(c) {
                Ok(true) => "yes",
                Ok(false) => "no",
                Err(_) => "err",
            }),
            "hash" => json!(if image(&c["f"], &c["in"]).is_ok() { "ok" } else { "err" }),
            "opens" => json!(if self.opens(c) { "yes" } else { "no" }),
            "perm" => Pre::perm(c),
            "pcircuit" => json!("ok"),
            o => harness!("op {}", o),
        }
    }
}
/// coefficients of the circuit of a hash with small parameters
fn hash_circuit(c: &Value) -> Result<Rec, R1CSError> {
    let mut r = Rec::default();
    let x: Vec<Variable> = ints(&c["in"]).iter().map(|_| r.commit(None)).collect();
    let img = fe_i(int(&c["image"]));
    if c["sbox"] == "mimc" {
        mimc_gadget(&mut r, x[0].into(), x[1].into(), &fes(&c["keys"]), &img)?;
        return Ok(r);
    }
    let (p, s) = (small_params(c), sbox(st(&c["sbox"])));
    if c["whole"] == true {
        let q = x.iter().map(|v| AllocatedQuantity { variable: *v, assignment: None }).collect();
        Poseidon_permutation_gadget(&mut r, q, &p, &s, &fes(&c["images"]))?;
        return Ok(r);
    }
    // the first input is the capacity constant
    let (k, x) = (x[0], x[1..].to_vec());
    match us(&c["w"]) {
        2 => Poseidon_hash_2_gadget(&mut r, x, k, &p, &s, &img)?,
        4 => Poseidon_hash_4_gadget(&mut r, x, k, &p, &s, &img)?,
        _ => Poseidon_hash_8_gadget(&mut r, x, k, &p, &s, &img)?,
    }
    Ok(r)
}
fn merkle_circuit(c: &Value) -> Result<Rec, R1CSError> {
    let mut r = Rec::default();
    let ar = us(&c["ar"]);
    let d = us(&c["d"]);
    let q = AllocatedQuantity { variable: r.commit(None), assignment: None };
    let leaf = if c["hide"] == true { LeafValueType::Hidden(r.commit(None)) } else { LeafValueType::Known(fe_i(int(&c["v"]))) };
    let nodes: Vec<Variable> = (0..d * (ar - 1)).map(|_| r.commit(None)).collect();
    let k: Vec<FE> = (1..=ar as i64).map(fe_i).collect();
    let mut hc = Hc::Toy(&k);
    let root = fe_i(int(&c["root"]));
    if ar == 4 {
        vanilla_merkle_merkle_tree_4_verif_gadget(&mut r, d, &root, leaf, q, nodes, &mut hc)?;
    } else {
        vanilla_merkle_merkle_tree_8_verif_gadget(&mut r, d, &root, leaf, q, nodes, &mut hc)?;
    }
    Ok(r)
}
fn with_circuit(mut c: Value, r: Result<Rec, R1CSError>) -> Value {
    match r.ok().and_then(|r| r.terms().map(|t| (t, r.n, r.m))) {
        Some((t, n, m)) => {
            c["cons"] = t;
            c["n"] = json!(n);
            c["m"] = json!(m);
        }
        None => {
            c["cons"] = json!([]);
            c["n"] = json!(0);
            c["m"] = json!(0);
            c["failed"] = json!(true);
        }
    }
    c
}
/// the circuits over a small prime field, to see which inputs to record
fn modp(x: i64, p: i64) -> i64 {
    x.rem_euclid(p)
}
fn boxp(s: &str, x: i64, p: i64) -> i64 {
    match s {
        "cube" => x * x * x % p,
        "quint" => x * x * x % p * x % p * x % p,
        _ => (1..p).find(|y| x * y % p == 1).unwrap_or(0),
    }
}
fn permp(c: &Value, p: i64) -> Vec<i64> {
    let mut q = ints(&c["in"]);
    let keys = ints(&c["keys"]);
    let s = st(&c["sbox"]);
    if s == "mimc" {
        let (mut l, mut r) = (q[0], q[1]);
        for k in keys {
            let t = modp(boxp("cube", modp(l + k, p), p) + r, p);
            r = l;
            l = t;
        }
        return vec![l];
    }
    let w = q.len();
    let rs = ints(&c["rounds"]);
    for k in 0..(rs[0] + rs[1] + rs[2]) {
        let partial = k >= rs[0] && k < rs[0] + rs[1];
        let b: Vec<i64> = (0..w)
            .map(|i| {
                let a = modp(q[i] + keys[k as usize * w + i], p);
                if partial && i + 1 < w { a } else { boxp(s, a, p) }
            })
            .collect();
        q = (0..w).map(|i| modp((0..w).map(|j| b[j] * int(&c["mds"][j][i])).sum(), p)).collect();
    }
    q
}
fn record_circuits(a: &Args, rec: &mut Recorder, s: &mut Smt) {
    let mut g = rng(a.seed);
    while rec.n < a.n {
        let p = *[5i64, 7, 11].choose(&mut g).unwrap();
        if a.opt["what"] == "tree" {
            let ar = *[4i64, 4, 8].choose(&mut g).unwrap();
            let d = if g.gen_range(0, 4) == 0 { 0 } else { g.gen_range(1, 3) };
            let digits: Vec<i64> = (0..d).map(|_| g.gen_range(0, ar)).collect();
            let sib: Vec<Vec<i64>> = (0..d).map(|_| (1..ar).map(|_| g.gen_range(0, p)).collect()).collect();
            let v = g.gen_range(0, p);
            let mut h = v;
            for l in (0..d).rev() {
                let mut q = sib[l].clone();
                q.insert(digits[l] as usize, h);
                h = modp(1 + q.iter().enumerate().map(|(i, x)| (i as i64 + 1) * x).sum::<i64>(), p);
                h = h * h % p;
            }
            let mut ix = digits.iter().fold(0, |s, x| modp(s * ar + x, p));
            match g.gen_range(0, 5) {
                0 => h = g.gen_range(0, p),
                1 => ix = g.gen_range(0, p),
                _ => {}
            }
            let hide: bool = g.gen();
            let mut ins = vec![ix];
            if hide {
                ins.push(v);
            }
            ins.extend(sib.iter().flatten());
            let c = json!({"op": "circuit", "ar": ar, "d": d, "hide": hide, "v": v, "ix": ix, "sib": sib, "root": h, "p": p, "ins": ins});
            let r = std::panic::catch_unwind(|| merkle_circuit(&c));
            let c = with_circuit(c.clone(), r.unwrap_or_else(|_| Err(bulletproofs_amcl::errors::R1CSErrorKind::VerificationError.into())));
            rec.call(s, c);
        } else {
            let sb = *["cube", "inv", "inv", "quint", "mimc"].choose(&mut g).unwrap();
            let w = *[2usize, 2, 4, 8].choose(&mut g).unwrap();
            let rounds: Vec<i64> = if w == 2 { (0..3).map(|_| g.gen_range(0, 2)).collect() } else { g.gen_range(0, 2) as usize; if g.gen() { vec![1, 0, 0] } else { vec![0, 1, 1] } };
            let n = if sb == "mimc" { 2 } else { w + 1 };
            let kn = if sb == "mimc" { g.gen_range(0, 5) } else { rounds.iter().sum::<i64>() as usize * n };
            let mut c = json!({"op": "pcircuit", "sbox": sb, "w": w, "rounds": rounds, "p": p, "whole": sb != "mimc" && g.gen_range(0, 4) == 0, "image": 0, "images": [],
                "keys": (0..kn).map(|_| g.gen_range(-2i64, 3)).collect::<Vec<_>>(),
                "mds": (0..n).map(|_| (0..n).map(|_| g.gen_range(-1i64, 3)).collect::<Vec<_>>()).collect::<Vec<_>>(),
                "in": (0..n).map(|_| g.gen_range(0, p)).collect::<Vec<_>>()});
            let mut q = permp(&c, p);
            if g.gen_range(0, 3) == 0 {
                let i = g.gen_range(0, q.len());
                q[i] = g.gen_range(0, p);
            }
            c["image"] = json!(if sb == "mimc" { q[0] } else { q[1] });
            c["images"] = json!(q);
            c["ins"] = c["in"].clone();
            let r = std::panic::catch_unwind(|| hash_circuit(&c));
            let c = with_circuit(c.clone(), r.unwrap_or_else(|_| Err(bulletproofs_amcl::errors::R1CSErrorKind::VerificationError.into())));
            rec.call(s, c);
        }
    }
}
/// values the specification can compute over the integers
fn record_perm(g: &mut rand::rngs::StdRng, rec: &mut Recorder, s: &mut Smt) {
    let sb = *["cube", "inv", "quint", "mimc"].choose(g).unwrap();
    let w = *[2usize, 4, 8].choose(g).unwrap();
    let n = if sb == "mimc" { 2 } else { w + 1 };
    let rounds = match sb {
        "cube" => *[[1, 0, 0], [0, 1, 0], [1, 1, 0], [0, 1, 1], [1, 0, 1], [0, 0, 1]].choose(g).unwrap(),
        _ => *[[1, 0, 0], [0, 1, 0], [0, 0, 1]].choose(g).unwrap(),
    };
    let kn = if sb == "mimc" { g.gen_range(0, 3) } else { rounds.iter().sum::<usize>() * n };
    let keys: Vec<i64> = (0..kn).map(|_| g.gen_range(-1i64, 2)).collect();
    let x: Vec<i64> = if sb == "inv" {
        keys.iter().map(|k| if g.gen() { 1 - k } else { -1 - k }).collect()
    } else {
        (0..n).map(|_| g.gen_range(-1, 3)).collect()
    };
    let m = if w == 8 { 2 } else { 3 };
    let c = json!({"op": "perm", "sbox": sb, "w": w, "rounds": rounds, "keys": keys, "in": x,
        "mds": (0..n).map(|_| (0..n).map(|_| g.gen_range(-1i64, m)).collect::<Vec<_>>()).collect::<Vec<_>>()});
    rec.call(s, c);
}
fn record_hash(a: &Args, rec: &mut Recorder, s: &mut Smt) {
    let mut g = rng(a.seed);
    while rec.n < a.n {
        rec.call(s, json!({"op": "blank"}));
        for _ in 0..4 {
            record_perm(&mut g, rec, s);
        }
        let f = |g: &mut rand::rngs::StdRng| {
            let w = *[2usize, 2, 4, 8].choose(g).unwrap();
            let sb = *["cube", "inv", "quint", "mimc"].choose(g).unwrap();
            if sb == "mimc" {
                json!({"w": 2, "sbox": sb, "rounds": [g.gen_range(1, 20), 0, 0]})
            } else {
                json!({"w": w, "sbox": sb, "rounds": [g.gen_range(0, 2), g.gen_range(0, 4), g.gen_range(1, 3)]})
            }
        };
        let fun = f(&mut g);
        let w = us(&fun["w"]);
        let x: Vec<i64> = (0..w).map(|_| g.gen_range(-5, 1000)).collect();
        let near = |g: &mut rand::rngs::StdRng, x: &Vec<i64>| {
            let mut y = x.clone();
            match g.gen_range(0, 6) {
                0 => { let i = g.gen_range(0, y.len()); y[i] += 1 }
                1 => { let n = y.len(); y.swap(0, n - 1) }
                _ => {}
            }
            y
        };
        let img = near(&mut g, &x);
        rec.call(s, json!({"op": "pwit", "f": fun, "in": x, "img": near(&mut g, &x), "odd": g.gen::<bool>()}));
        rec.call(s, json!({"op": "prove", "f": fun, "in": x, "img": img, "how": if g.gen() { "rng" } else { "blind" }}));
        for _ in 0..g.gen_range(1, 5) {
            let e = if g.gen_range(0, 3) > 0 { "none" } else { *["drop", "extra", "empty", "other", "reblind", "last", "swap"].choose(&mut g).unwrap() };
            let gens = if g.gen_range(0, 6) == 0 { *["g", "h", "G", "H", "few"].choose(&mut g).unwrap() } else { "std" };
            let label = if g.gen_range(0, 6) == 0 { "b" } else { "a" };
            let f2 = if g.gen_range(0, 6) == 0 { f(&mut g) } else { fun.clone() };
            let img2 = if f2["w"] == fun["w"] { near(&mut g, &img) } else { (0..us(&f2["w"])).map(|_| g.gen_range(0, 9)).collect() };
            rec.call(s, json!({"op": "pverify", "f": f2, "img": img2, "e": e, "label": label, "gens": gens}));
        }
        let y = near(&mut g, &x);
        rec.call(s, json!({"op": "opens", "in": y}));
    }
}
fn record_tree(a: &Args, rec: &mut Recorder, s: &mut Smt) {
    let mut g = rng(a.seed);
    while rec.n < a.n {
        let ar = *[4i64, 8].choose(&mut g).unwrap();
        let d = *[0usize, 1, 2, 2, 3, 3, 5, 17, 40].choose(&mut g).unwrap();
        let h = if d < 6 && g.gen_range(0, 4) == 0 { "pos" } else { "toy" };
        rec.call(s, json!({"op": "new", "ar": ar, "d": d, "h": h, "keep": false}));
        let mut seen: Vec<usize> = vec![d];
        let mut cur = d;
        // paths used, one digit or none apart
        let digit = |g: &mut rand::rngs::StdRng| if g.gen() { g.gen_range(0, ar) } else { *[0, 1, ar - 1].choose(g).unwrap() };
        let base: Vec<i64> = (0..cur).map(|_| digit(&mut g)).collect();
        let idx = |g: &mut rand::rngs::StdRng, d: usize| {
            let mut q: Vec<i64> = base.iter().cloned().chain(std::iter::repeat(0)).take(d).collect();
            if d > 0 && g.gen_range(0, 3) > 0 {
                let l = g.gen_range(0, d);
                q[l] = digit(g);
            }
            match g.gen_range(0, 10) {
                0 => q.insert(0, digit(g)),
                1 => if !q.is_empty() { q.remove(0); },
                _ => {}
            }
            q
        };
        let few = d <= 5;
        let mut same_depth = |rec: &Recorder, seen: &Vec<usize>, cur: usize, g: &mut rand::rngs::StdRng| -> i64 {
            let _ = rec;
            let ks: Vec<usize> = (0..seen.len()).filter(|k| seen[*k] == cur).collect();
            if g.gen() { 0 } else { *ks.choose(g).unwrap() as i64 + 1 }
        };
        for _ in 0..if few { 25 } else { 8 } {
            let note = |r: &Value, seen: &mut Vec<usize>, cur: usize| {
                if let Some(k) = r.as_str().and_then(|x| x.parse::<usize>().ok()) {
                    while seen.len() < k {
                        seen.push(cur);
                    }
                }
            };
            let v = g.gen_range(-1, 4);
            match g.gen_range(0, 12) {
                0..=3 => {
                    let r = rec.call(s, json!({"op": "update", "i": idx(&mut g, cur), "v": v}));
                    note(&r, &mut seen, cur);
                }
                4..=5 => {
                    let k = same_depth(rec, &seen, cur, &mut g);
                    rec.call(s, json!({"op": "get", "i": idx(&mut g, cur), "k": k}));
                }
                6 => {
                    if cur > 0 && cur < 4 && g.gen_range(0, 3) == 0 {
                        let d2 = g.gen_range(1, 4);
                        cur = d2;
                        let r = rec.call(s, json!({"op": "new", "ar": ar, "d": d2, "h": h, "keep": true}));
                        note(&r, &mut seen, cur);
                    }
                }
                _ => {
                    let i = idx(&mut g, cur);
                    let k = same_depth(rec, &seen, cur, &mut g);
                    let r = rec.call(s, json!({"op": "path", "i": i, "k": k}));
                    let v0: i64 = r.as_str().and_then(|x| x.parse().ok()).unwrap_or(0);
                    for _ in 0..3 {
                        let e = json!({"n": if g.gen() { "none" } else { *["short", "front", "long", "empty", "swapl", "rev", "alien", "zero"].choose(&mut g).unwrap() }, "l": 1 + g.gen_range(0, cur.max(1))});
                        let i2 = if g.gen() { i.clone() } else { idx(&mut g, cur) };
                        let v2 = if g.gen() { v0 } else { v };
                        let k2 = if g.gen() { k } else { g.gen_range(-1, seen.len() as i64 + 1) };
                        let op = if few && g.gen_range(0, 3) == 0 { "wit" } else { "verify" };
                        rec.call(s, json!({"op": op, "e": e, "i": i2, "v": v2, "k": k2, "hide": g.gen::<bool>()}));
                    }
                    if (h == "toy" && cur <= 3 || cur <= 1) && g.gen_range(0, 4) == 0 {
                        let e = json!({"n": if g.gen_range(0, 4) > 0 { "none" } else { *["short", "long", "rev", "alien"].choose(&mut g).unwrap() }, "l": 1});
                        let hide: bool = g.gen();
                        let i2 = if g.gen_range(0, 4) > 0 { i.clone() } else { idx(&mut g, cur) };
                        let v2 = if g.gen_range(0, 5) > 0 { v0 } else { v };
                        let r = rec.call(s, json!({"op": "zk", "e": e, "i": i2, "v": v2, "k": k, "hide": hide, "how": if g.gen() { "rng" } else { "blind" }}));
                        if r == "done" {
                            for _ in 0..2 {
                                let e = if g.gen() { "none" } else { *["drop", "extra", "other", "reblind", "last"].choose(&mut g).unwrap() };
                                let v3 = if g.gen_range(0, 4) > 0 { v2 } else { v };
                                let k3 = if g.gen_range(0, 4) > 0 { k } else { same_depth(rec, &seen, cur, &mut g) };
                                let h3 = if g.gen_range(0, 6) == 0 { !hide } else { hide };
                                rec.call(s, json!({"op": "zkv", "hide": h3, "v": v3, "k": k3, "d": cur, "e": e, "label": if g.gen_range(0, 8) == 0 { "b" } else { "a" }, "gens": "std"}));
                            }
                        }
                    }
                }
            }
        }
    }
}
fn main() {
    let a = args();
    let w = Arc::new(world());
    match a.mode.as_str() {
        "replay" => replay(&a, |_| fresh(&w)),
        "record" => {
            let mut rec = Recorder::new(&a.out);
            let mut s = fresh(&w);
            match a.opt.get("what").map(|x| x.as_str()).unwrap_or("tree-histories") {
                "tree" | "hash" => record_circuits(&a, &mut rec, &mut s),
                "proofs" => record_hash(&a, &mut rec, &mut s),
                _ => record_tree(&a, &mut rec, &mut s),
            }
        }
        m => harness!("mode {}", m),
    }
}
