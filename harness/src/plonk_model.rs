//! Circuits as plain data, their satisfaction decided by definition, and random circuits.
use ark_bls12_381::Fr;
use ark_ff::{One, UniformRand, Zero};
use ark_poly::{EvaluationDomain, GeneralEvaluationDomain, Polynomial};
use kzg::scheme::KzgScheme;
use kzg::srs::Srs;
use plonk::circuit::Circuit;
use plonk::common_preprocessed_input::cpi_circuit::CPICircuit;
use plonk::compiled_circuit::CompiledCircuit;
use plonk::constraint::{CopyConstraints, GateConstraints};
use plonk::prover::Proof;
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::Rng;
use std::collections::BTreeMap;

use crate::common::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
    Add,
    Mul,
    Const,
}

#[derive(Clone, Debug)]
pub struct MGate {
    pub kind: Kind,
    pub v: [Fr; 3],
    pub pos: [(usize, usize); 3],
    pub pi: Fr,
}

#[derive(Clone, Debug, Default)]
pub struct Model {
    pub gates: Vec<MGate>,
}

/// q_l, q_r, q_o, q_m, q_c, pi of a row
pub type Selectors = [Fr; 6];

impl MGate {
    pub fn selectors(&self) -> Selectors {
        let (o, z) = (Fr::one(), Fr::zero());
        match self.kind {
            Kind::Add => [o, o, -o, z, z, -self.pi],
            Kind::Mul => [z, z, -o, o, z, -self.pi],
            Kind::Const => [o, z, z, z, -self.v[0], -self.pi],
        }
    }
}

pub fn gate_value(q: &Selectors, v: &[Fr; 3]) -> Fr {
    q[0] * v[0] + q[1] * v[1] + q[2] * v[2] + q[3] * v[0] * v[1] + q[4] + q[5]
}

impl Model {
    pub fn circuit(&self) -> Circuit {
        let mut c = Circuit::default();
        for g in &self.gates {
            let w = |i: usize| (g.pos[i].0, g.pos[i].1, g.v[i]);
            match g.kind {
                Kind::Add => c.add_addition_gate(w(0), w(1), w(2), g.pi),
                Kind::Mul => c.add_multiplication_gate(w(0), w(1), w(2), g.pi),
                Kind::Const => c.add_constant_gate(w(0), w(1), w(2), g.pi),
            }
        }
        c
    }
    pub fn compile(&self) -> CompiledCircuit {
        self.circuit().compile().expect("compiles")
    }
    pub fn cpi(&self) -> CPICircuit {
        let mut c = CPICircuit::default();
        for g in &self.gates {
            c = match g.kind {
                Kind::Add => c.add_addition_gate(g.pos[0], g.pos[1], g.pos[2], g.pi),
                Kind::Mul => c.add_multiplication_gate(g.pos[0], g.pos[1], g.pos[2], g.pi),
                Kind::Const => {
                    c.add_constant_gate(g.pos[0], g.pos[1], g.pos[2], g.v[0], g.pi)
                }
            };
        }
        c
    }
    pub fn rows(&self) -> usize {
        self.gates.len().next_power_of_two().max(2)
    }
    pub fn gates_hold(&self) -> bool {
        self.gates
            .iter()
            .all(|g| gate_value(&g.selectors(), &g.v).is_zero())
    }
    pub fn copies_hold(&self) -> bool {
        self.gates.iter().all(|g| {
            (0..3).all(|i| {
                let (col, row) = g.pos[i];
                self.gates[row].v[col] == g.v[i]
            })
        })
    }
    pub fn is_permutation(&self) -> bool {
        let mut seen = vec![[false; 3]; self.gates.len()];
        for g in &self.gates {
            for p in g.pos {
                if std::mem::replace(&mut seen[p.1][p.0], true) {
                    return false;
                }
            }
        }
        true
    }
    pub fn satisfied(&self) -> bool {
        self.gates_hold() && self.copies_hold()
    }
    pub fn describe(&self) -> String {
        self.gates
            .iter()
            .map(|g| {
                format!(
                    "{:?}({} {:?}, {} {:?}, {} {:?}; pi {})",
                    g.kind,
                    hex(&g.v[0]),
                    g.pos[0],
                    hex(&g.v[1]),
                    g.pos[1],
                    hex(&g.v[2]),
                    g.pos[2],
                    hex(&g.pi)
                )
            })
            .collect::<Vec<_>>()
            .join(" ")
    }
    pub fn shape(&self) -> Vec<(Kind, [(usize, usize); 3])> {
        self.gates.iter().map(|g| (g.kind, g.pos)).collect()
    }
    /// Number of cycles longer than one
    pub fn cycles(&self) -> u64 {
        let mut seen = vec![[false; 3]; self.gates.len()];
        let mut n = 0;
        for row in 0..self.gates.len() {
            for col in 0..3 {
                let mut len = 0;
                let mut p = (col, row);
                while !std::mem::replace(&mut seen[p.1][p.0], true) {
                    p = self.gates[p.1].pos[p.0];
                    len += 1;
                }
                n += (len > 1) as u64;
            }
        }
        n
    }
}

/// A random satisfied circuit with `n` gates
pub fn random_model(rng: &mut StdRng, n: usize) -> Model {
    if n > 1 && n.is_power_of_two() && rng.gen_bool(0.15) {
        return special_model(rng, n);
    }
    let mut pool: Vec<Fr> = match rng.gen_range(0..5) {
        0 => vec![Fr::zero()],
        1 => vec![Fr::zero(), Fr::one()],
        2 => vec![Fr::one(), -Fr::one(), Fr::from(2u64)],
        _ => (0..3).map(|_| any_fr(rng)).collect(),
    };
    let fresh = *[0.0, 0.2, 0.5].choose(rng).unwrap();
    let with_pi = *[0.0, 0.3, 1.0].choose(rng).unwrap();
    let kinds: &[Kind] = match rng.gen_range(0..6) {
        0 => &[Kind::Add],
        1 => &[Kind::Mul],
        2 => &[Kind::Const],
        _ => &[Kind::Add, Kind::Mul, Kind::Mul, Kind::Add, Kind::Const],
    };
    let mut gates = vec![];
    for _ in 0..n {
        let mut pick = |rng: &mut StdRng, pool: &mut Vec<Fr>| {
            if rng.gen_bool(fresh) {
                let x = any_fr(rng);
                pool.push(x);
                x
            } else {
                *pool.choose(rng).unwrap()
            }
        };
        let kind = *kinds.choose(rng).unwrap();
        let a = pick(rng, &mut pool);
        let b = pick(rng, &mut pool);
        let (c, pi) = match kind {
            Kind::Const => (pick(rng, &mut pool), Fr::zero()),
            _ => {
                let r = if kind == Kind::Add { a + b } else { a * b };
                if rng.gen_bool(with_pi) {
                    if rng.gen_bool(0.5) {
                        let pi = any_fr(rng);
                        (r - pi, pi)
                    } else {
                        let c = *pool.choose(rng).unwrap();
                        (c, r - c)
                    }
                } else {
                    (r, Fr::zero())
                }
            }
        };
        pool.push(c);
        gates.push(MGate {
            kind,
            v: [a, b, c],
            pos: [(0, 0); 3],
            pi,
        });
    }
    let mut m = Model { gates };
    wire(rng, &mut m);
    m
}

/// A column whose polynomial over `n` (a power of two) rows has a special form: zero, constant,
/// of low degree, a single Lagrange polynomial, periodic, or one without its low coefficients.
fn special_column(rng: &mut StdRng, n: usize) -> Vec<Fr> {
    let w = roots(n);
    let (x, y) = (any_fr(rng), any_fr(rng));
    match rng.gen_range(0..7) {
        0 => vec![Fr::zero(); n],
        1 | 2 => vec![x; n],
        3 => w.iter().map(|p| x + y * p).collect(),
        4 => {
            let at = rng.gen_range(0..n);
            (0..n).map(|i| if i == at { x } else { Fr::zero() }).collect()
        }
        5 => (0..n).map(|i| if i % 2 == 0 { x } else { y }).collect(),
        _ => (0..n).map(|i| x * w[(i * (n - 1)) % n]).collect(),
    }
}

/// A satisfied circuit that fills `n` (a power of two) rows with columns of a special form
pub fn special_model(rng: &mut StdRng, n: usize) -> Model {
    let (a, b, pi) = (
        special_column(rng, n),
        special_column(rng, n),
        special_column(rng, n),
    );
    let kinds: &[Kind] = match rng.gen_range(0..4) {
        0 => &[Kind::Add],
        1 => &[Kind::Mul],
        2 => &[Kind::Add, Kind::Mul],
        _ => &[Kind::Mul, Kind::Const],
    };
    let zero_output = rng.gen_bool(0.3);
    let gates = (0..n)
        .map(|i| {
            let kind = kinds[i % kinds.len()];
            let (c, pi) = match kind {
                Kind::Const => (b[i], Fr::zero()),
                _ => {
                    let r = if kind == Kind::Add { a[i] + b[i] } else { a[i] * b[i] };
                    if zero_output {
                        (Fr::zero(), r)
                    } else {
                        (r - pi[i], pi[i])
                    }
                }
            };
            MGate {
                kind,
                v: [a[i], b[i], c],
                pos: [(0, 0); 3],
                pi,
            }
        })
        .collect();
    let mut m = Model { gates };
    wire(rng, &mut m);
    m
}

/// Random copy constraints that the values satisfy
pub fn wire(rng: &mut StdRng, m: &mut Model) {
    let mut classes: BTreeMap<String, Vec<(usize, usize)>> = BTreeMap::new();
    for (row, g) in m.gates.iter().enumerate() {
        for col in 0..3 {
            classes
                .entry(hex(&g.v[col]))
                .or_default()
                .push((col, row));
        }
    }
    let split = *[0.0, 0.1, 0.5, 1.0].choose(rng).unwrap();
    for (_, mut class) in classes {
        class.shuffle(rng);
        let mut from = 0;
        while from < class.len() {
            let mut to = from + 1;
            while to < class.len() && !rng.gen_bool(split) {
                to += 1;
            }
            let part = &class[from..to];
            for (i, &(col, row)) in part.iter().enumerate() {
                m.gates[row].pos[col] = part[(i + 1) % part.len()];
            }
            from = to;
        }
    }
}

pub fn any_size(rng: &mut StdRng, max: usize) -> usize {
    match rng.gen_range(0..6) {
        0 => 1,
        1 => 2,
        2 => {
            // around a power of two
            let p = 1usize << rng.gen_range(1..=max.ilog2());
            (p + rng.gen_range(0..3)).saturating_sub(1).clamp(1, max)
        }
        _ => rng.gen_range(1..=max),
    }
}

/// Everything a compiled circuit is made of, to be altered and built again.
#[derive(Clone)]
pub struct Statement {
    pub size: usize,
    pub f: [Poly; 3],
    /// q_l, q_r, q_o, q_m, q_c, pi
    pub q: [Poly; 6],
    pub sigma: [Poly; 3],
    pub k: [Fr; 2],
}

pub const Q_NAMES: [&str; 6] = ["q_l", "q_r", "q_o", "q_m", "q_c", "pi"];

impl Statement {
    pub fn of(c: &CompiledCircuit) -> Self {
        Self::of_parts(c.gate_constraints(), c.copy_constraints(), c.size)
    }
    pub fn of_parts(g: &GateConstraints, p: &CopyConstraints, size: usize) -> Self {
        Self {
            size,
            f: [g.f_ax().clone(), g.f_bx().clone(), g.f_cx().clone()],
            q: [
                g.q_lx().clone(),
                g.q_rx().clone(),
                g.q_ox().clone(),
                g.q_mx().clone(),
                g.q_cx().clone(),
                g.pi_x().clone(),
            ],
            sigma: [
                p.s_sigma_1().clone(),
                p.s_sigma_2().clone(),
                p.s_sigma_3().clone(),
            ],
            k: [*p.k1(), *p.k2()],
        }
    }
    pub fn build(&self) -> CompiledCircuit {
        let [a, b, c] = self.f.clone();
        let [l, r, o, m, qc, pi] = self.q.clone();
        let [s1, s2, s3] = self.sigma.clone();
        CompiledCircuit::new(
            GateConstraints::new(a, b, c, l, r, o, m, qc, pi),
            CopyConstraints::new(s1, s2, s3, self.k[0], self.k[1]),
            self.size,
        )
    }
    pub fn domain(&self) -> GeneralEvaluationDomain<Fr> {
        GeneralEvaluationDomain::new(self.size).unwrap()
    }
}

pub fn roots(n: usize) -> Vec<Fr> {
    let d = GeneralEvaluationDomain::<Fr>::new(n).unwrap();
    let w = d.element(1);
    let mut r = vec![Fr::one()];
    for i in 1..n {
        let x = r[i - 1] * w;
        r.push(x);
    }
    r
}

pub fn values(p: &Poly, roots: &[Fr]) -> Vec<Fr> {
    roots.iter().map(|x| p.evaluate(x)).collect()
}

/// The polynomial with value `d` at the `row`-th point and 0 at the others
pub fn lagrange(n: usize, row: usize, d: Fr) -> Poly {
    let dom = GeneralEvaluationDomain::<Fr>::new(n).unwrap();
    let mut e = vec![Fr::zero(); n];
    e[row] = d;
    ark_poly::Evaluations::from_vec_and_domain(e, dom).interpolate()
}

/// d X^k
pub fn monomial(k: usize, d: Fr) -> Poly {
    let mut v = vec![Fr::zero(); k + 1];
    v[k] = d;
    ark_poly::DenseUVPolynomial::from_coefficients_vec(v)
}

pub struct Strings {
    pub s: Fr,
    pub srs: Srs,
}

pub fn strings(rng: &mut StdRng, size: usize) -> Strings {
    let s = Fr::rand(rng);
    Strings {
        s,
        srs: Srs::new_from_secret(s, size),
    }
}

impl Strings {
    pub fn scheme(&self) -> KzgScheme {
        KzgScheme::new(self.srs.clone())
    }
}

pub fn clone_proof(p: &Proof) -> Proof {
    Proof {
        a_commit: p.a_commit.clone(),
        b_commit: p.b_commit.clone(),
        c_commit: p.c_commit.clone(),
        z_commit: p.z_commit.clone(),
        t_lo_commit: p.t_lo_commit.clone(),
        t_mid_commit: p.t_mid_commit.clone(),
        t_hi_commit: p.t_hi_commit.clone(),
        w_ev_x_commit: p.w_ev_x_commit.clone(),
        w_ev_wx_commit: p.w_ev_wx_commit.clone(),
        bar_a: p.bar_a,
        bar_b: p.bar_b,
        bar_c: p.bar_c,
        bar_s_sigma_1: p.bar_s_sigma_1,
        bar_s_sigma_2: p.bar_s_sigma_2,
        bar_z_w: p.bar_z_w,
        u: p.u,
        degree: p.degree,
    }
}

pub const POINTS: [&str; 9] = [
    "a", "b", "c", "z", "t_lo", "t_mid", "t_hi", "w_x", "w_wx",
];
pub const SCALARS: [&str; 6] = ["bar_a", "bar_b", "bar_c", "bar_s1", "bar_s2", "bar_zw"];

pub fn point(p: &mut Proof, i: usize) -> &mut ark_bls12_381::G1Affine {
    match i {
        0 => &mut p.a_commit.0,
        1 => &mut p.b_commit.0,
        2 => &mut p.c_commit.0,
        3 => &mut p.z_commit.0,
        4 => &mut p.t_lo_commit.0,
        5 => &mut p.t_mid_commit.0,
        6 => &mut p.t_hi_commit.0,
        7 => &mut p.w_ev_x_commit.0,
        _ => &mut p.w_ev_wx_commit.0,
    }
}

pub fn scalar(p: &mut Proof, i: usize) -> &mut Fr {
    match i {
        0 => &mut p.bar_a,
        1 => &mut p.bar_b,
        2 => &mut p.bar_c,
        3 => &mut p.bar_s_sigma_1,
        4 => &mut p.bar_s_sigma_2,
        _ => &mut p.bar_z_w,
    }
}

pub fn same_proof(a: &Proof, b: &Proof) -> bool {
    let (mut a, mut b) = (clone_proof(a), clone_proof(b));
    (0..9).all(|i| *point(&mut a, i) == *point(&mut b, i))
        && (0..6).all(|i| *scalar(&mut a, i) == *scalar(&mut b, i))
        && a.u == b.u
        && a.degree == b.degree
}
