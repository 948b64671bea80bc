//! Relaxed R1CS structures, pairs that satisfy them, and a reference for folding.
use ark_bls12_381::{Fr, G1Affine};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{Field, One, Zero};
use kzg::commitment::KzgCommitment;
use kzg::opening::KzgOpening;
use kzg::scheme::KzgScheme;
use kzg::srs::Srs;
use nova::r1cs::{FInstance, FWitness, R1CS};
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::Rng;

use crate::common::*;

pub type M = Vec<Vec<Fr>>;

/// A structure whose constraints define some variables in terms of the free ones.
pub struct Structure {
    pub r1cs: R1CS<Fr>,
    pub rows: usize,
    pub vars: usize,
    pub io: usize,
    /// (row, column of the variable it defines), in order
    defs: Vec<(usize, usize)>,
}

fn lin(rng: &mut StdRng, cols: usize, allowed: &[usize], dense: bool) -> Vec<Fr> {
    let mut v = vec![Fr::zero(); cols];
    for &j in allowed {
        if dense || rng.gen_bool(0.4) {
            v[j] = any_fr(rng);
        }
    }
    v
}

pub fn dot(a: &[Fr], z: &[Fr]) -> Fr {
    a.iter().zip(z).map(|(x, y)| *x * y).sum()
}

impl Structure {
    /// `free_io`: the public inputs occur in no constraint
    pub fn random(rng: &mut StdRng, max: usize, io: usize, free_io: bool) -> Self {
        let vars = rng.gen_range(1..=max);
        Self::of(rng, vars, io, free_io)
    }

    pub fn of(rng: &mut StdRng, vars: usize, io: usize, free_io: bool) -> Self {
        let cols = vars + io + 1;
        let mut order: Vec<usize> = if free_io {
            (0..vars).collect()
        } else {
            (0..vars + io).collect()
        };
        order.shuffle(rng);
        let free = rng.gen_range(0..=order.len());
        let dense = rng.gen_bool(0.3);
        let mut known: Vec<usize> = order[..free].to_vec();
        known.push(cols - 1);
        let mut rows: Vec<([Vec<Fr>; 3], Option<usize>)> = vec![];
        for &out in &order[free..] {
            let a = lin(rng, cols, &known, dense);
            let b = lin(rng, cols, &known, dense);
            let mut cc = lin(rng, cols, &known, dense);
            cc[out] = nonzero(rng);
            rows.push(([a, b, cc], Some(out)));
            known.push(out);
        }
        // rows that hold anyway
        for _ in 0..rng.gen_range(0..3) {
            let zero = vec![Fr::zero(); cols];
            let extra = match rng.gen_range(0..4) {
                0 => [zero.clone(), lin(rng, cols, &known, dense), zero],
                1 => [lin(rng, cols, &known, dense), zero.clone(), zero],
                2 => {
                    // l * 1 = l
                    let l = lin(rng, cols, &known, true);
                    let mut one = zero;
                    one[cols - 1] = Fr::one();
                    [l.clone(), one, l]
                }
                _ => match rows.choose(rng) {
                    Some((r, _)) => {
                        // a scaled copy
                        let k: Fr = nonzero(rng);
                        [
                            r[0].iter().map(|x| *x * k).collect(),
                            r[1].clone(),
                            r[2].iter().map(|x| *x * k).collect(),
                        ]
                    }
                    None => [zero.clone(), zero.clone(), zero],
                },
            };
            let at = rng.gen_range(0..=rows.len());
            rows.insert(at, (extra, None));
        }
        if rows.is_empty() {
            let zero = vec![Fr::zero(); cols];
            rows.push(([zero.clone(), zero.clone(), zero], None));
        }
        let defs = rows
            .iter()
            .enumerate()
            .filter_map(|(i, (_, o))| o.map(|o| (i, o)))
            .collect();
        let col = |k: usize| rows.iter().map(|(r, _)| r[k].clone()).collect::<M>();
        Self {
            rows: rows.len(),
            vars,
            io,
            defs,
            r1cs: R1CS {
                matrix_a: col(0),
                matrix_b: col(1),
                matrix_c: col(2),
                num_io: io,
                num_vars: vars,
            },
        }
    }

    /// Largest vector that is committed to
    pub fn size(&self) -> usize {
        self.rows.max(self.vars)
    }

    /// A strict solution (u = 1, E = 0), given values for the free columns
    pub fn solution(&self, rng: &mut StdRng) -> (Vec<Fr>, Vec<Fr>) {
        let style = rng.gen_range(0..4);
        let mut z: Vec<Fr> = (0..self.vars + self.io)
            .map(|_| match style {
                0 => Fr::zero(),
                1 => Fr::from(rng.gen_range(0u64..5)),
                _ => any_fr(rng),
            })
            .collect();
        z.push(Fr::one());
        for &(row, col) in &self.defs {
            z[col] = Fr::zero();
            let r = &self.r1cs;
            let k = r.matrix_c[row][col];
            let v = dot(&r.matrix_a[row], &z) * dot(&r.matrix_b[row], &z) - dot(&r.matrix_c[row], &z);
            z[col] = v * k.inverse().unwrap();
        }
        z.pop();
        let x = z.split_off(self.vars);
        (z, x)
    }

    /// The error terms that make any assignment satisfy the relaxed structure
    pub fn errors(&self, w: &[Fr], x: &[Fr], u: Fr) -> Vec<Fr> {
        let z: Vec<Fr> = w.iter().chain(x).copied().chain([u]).collect();
        let r = &self.r1cs;
        (0..self.rows)
            .map(|i| {
                dot(&r.matrix_a[i], &z) * dot(&r.matrix_b[i], &z) - u * dot(&r.matrix_c[i], &z)
            })
            .collect()
    }
}

/// A string with a known secret
pub struct Known {
    pub s: Fr,
    pub srs: Srs,
    pub scheme: KzgScheme,
}

impl Known {
    pub fn new(rng: &mut StdRng, fit: usize) -> Self {
        // a string of size n holds n + 3 elements
        let size = fit.saturating_sub(3) + if rng.gen_bool(0.5) { 0 } else { rng.gen_range(0..8) };
        let s = rand_fr(rng);
        let srs = Srs::new_from_secret(s, size);
        Self {
            s,
            scheme: KzgScheme::new(srs.clone()),
            srs,
        }
    }
    pub fn commit(&self, v: &[Fr]) -> KzgCommitment {
        commit_of(horner(v, self.s))
    }
    /// An opening of any element to any value, which only the secret makes possible
    pub fn open(&self, c: &KzgCommitment, y: Fr, z: Fr) -> KzgOpening {
        let k = (self.s - z).inverse().unwrap_or(Fr::one());
        KzgOpening(((c.0.into_group() - g1_proj(y)) * k).into_affine(), y)
    }
    pub fn opens(&self, c: &KzgCommitment, o: &KzgOpening, z: Fr) -> bool {
        o.0 * (self.s - z) == c.0.into_group() - g1_proj(o.1)
    }
}

#[derive(Clone)]
pub struct Pair {
    pub u: FInstance,
    pub w: FWitness,
    pub kind: &'static str,
}

pub fn instance(k: &Known, e: &[Fr], u: Fr, w: &[Fr], x: &[Fr]) -> FInstance {
    FInstance {
        com_e: k.commit(e),
        u,
        com_w: k.commit(w),
        x: x.to_vec(),
    }
}

/// Entries left out, or added, do not change a vector of error terms
fn padded(rng: &mut StdRng, mut e: Vec<Fr>, max: usize) -> Vec<Fr> {
    match rng.gen_range(0..4) {
        0 => {
            while e.last().is_some_and(|x| x.is_zero()) {
                e.pop();
            }
        }
        1 => e.resize(e.len().max(max), Fr::zero()),
        _ => {}
    }
    e
}

pub fn any_pair(rng: &mut StdRng, st: &Structure, k: &Known) -> Pair {
    match rng.gen_range(0..6) {
        0 => {
            let (w, u) = nova::r1cs::create_trivial_pair(st.io, st.vars, &k.scheme);
            Pair { u, w, kind: "trivial" }
        }
        1 | 2 => {
            // any assignment with its errors
            let w: Vec<Fr> = (0..st.vars).map(|_| any_fr(rng)).collect();
            let x: Vec<Fr> = (0..st.io).map(|_| any_fr(rng)).collect();
            let u = any_fr(rng);
            let e = st.errors(&w, &x, u);
            let e = padded(rng, e, st.size());
            Pair {
                u: instance(k, &e, u, &w, &x),
                w: FWitness { e, w },
                kind: "relaxed",
            }
        }
        _ => {
            let (w, x) = st.solution(rng);
            let fw = FWitness::new(&w, st.rows);
            let u = fw.commit(&k.scheme, &x);
            Pair { u, w: fw, kind: "strict" }
        }
    }
}

/// The reference decision
pub fn satisfied(r: &R1CS<Fr>, u: &FInstance, w: &FWitness, k: &Known) -> bool {
    if w.w.len() != r.num_vars || u.x.len() != r.num_io {
        return false;
    }
    let z: Vec<Fr> = w.w.iter().chain(&u.x).copied().chain([u.u]).collect();
    let rows = r.matrix_a.len();
    let e = |i: usize| w.e.get(i).copied().unwrap_or(Fr::zero());
    (0..rows.max(w.e.len())).all(|i| {
        if i >= rows {
            return e(i).is_zero();
        }
        dot(&r.matrix_a[i], &z) * dot(&r.matrix_b[i], &z) == u.u * dot(&r.matrix_c[i], &z) + e(i)
    }) && k.commit(&w.w) == u.com_w
        && k.commit(&w.e) == u.com_e
}

pub fn cross(r: &R1CS<Fr>, a: &Pair, b: &Pair) -> Vec<Fr> {
    let z = |p: &Pair| -> Vec<Fr> { p.w.w.iter().chain(&p.u.x).copied().chain([p.u.u]).collect() };
    let (z1, z2) = (z(a), z(b));
    (0..r.matrix_a.len())
        .map(|i| {
            dot(&r.matrix_a[i], &z1) * dot(&r.matrix_b[i], &z2)
                + dot(&r.matrix_a[i], &z2) * dot(&r.matrix_b[i], &z1)
                - a.u.u * dot(&r.matrix_c[i], &z2)
                - b.u.u * dot(&r.matrix_c[i], &z1)
        })
        .collect()
}

pub fn fold_instance(r: Fr, a: &FInstance, b: &FInstance, t: &KzgCommitment) -> FInstance {
    let p = |c: &KzgCommitment| c.0.into_group();
    FInstance {
        com_e: KzgCommitment((p(&a.com_e) + p(t) * r + p(&b.com_e) * (r * r)).into_affine()),
        u: a.u + r * b.u,
        com_w: KzgCommitment((p(&a.com_w) + p(&b.com_w) * r).into_affine()),
        x: a.x.iter().zip(&b.x).map(|(p, q)| *p + r * q).collect(),
    }
}

pub fn fold_vec(r: Fr, a: &[Fr], b: &[Fr]) -> Vec<Fr> {
    let n = a.len().max(b.len());
    let g = |v: &[Fr], i: usize| v.get(i).copied().unwrap_or(Fr::zero());
    (0..n).map(|i| g(a, i) + r * g(b, i)).collect()
}

pub fn same_vec(a: &[Fr], b: &[Fr]) -> bool {
    let g = |v: &[Fr], i: usize| v.get(i).copied().unwrap_or(Fr::zero());
    (0..a.len().max(b.len())).all(|i| g(a, i) == g(b, i))
}

pub fn same_instance(a: &FInstance, b: &FInstance) -> bool {
    a.com_e == b.com_e && a.u == b.u && a.com_w == b.com_w && a.x == b.x
}

pub fn show_instance(u: &FInstance) -> String {
    format!("(com_e {:?}, u {}, com_w {:?}, x {})", point(&u.com_e), hex(&u.u), point(&u.com_w), hexes(&u.x))
}

pub fn point(c: &KzgCommitment) -> String {
    if c.0.is_zero() {
        "O".into()
    } else {
        c.0.x().map(hex).unwrap_or_default().chars().take(14).collect()
    }
}

pub fn show(st: &Structure) -> String {
    let m = |m: &M| m.iter().map(|r| hexes(r)).collect::<Vec<_>>().join(";");
    format!(
        "{} rows {} vars {} io A {} B {} C {}",
        st.rows, st.vars, st.io,
        m(&st.r1cs.matrix_a), m(&st.r1cs.matrix_b), m(&st.r1cs.matrix_c)
    )
    .chars()
    .take(1500)
    .collect()
}

pub fn bump(c: &KzgCommitment, d: Fr) -> KzgCommitment {
    KzgCommitment(shift_point(c.0, d))
}
