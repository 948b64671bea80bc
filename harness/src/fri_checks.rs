//! C06-C10: the low-degree proofs.
use std::collections::{HashMap, HashSet};

use ark_bls12_381::Fr;
use ark_ff::fields::{Fp64, MontBackend, MontConfig};
use ark_ff::{Field, PrimeField};
use ark_poly::univariate::DensePolynomial;
use ark_poly::{DenseUVPolynomial, EvaluationDomain, GeneralEvaluationDomain};
use digest_11::Digest;
use fri::fiat_shamir::transcript::Transcript;
use fri::fields::goldilocks::Fq;
use fri::prover::{generate_proof, Decommitment, Proof};
use fri::verifier::verify;
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::Rng;
use sha2_11::{Sha256, Sha384, Sha512};

use crate::common::*;
use crate::core::*;
use crate::rec::{draws, recorded, set_mask, Mask11, Rec11};

#[derive(MontConfig)]
#[modulus = "2013265921"]
#[generator = "31"]
pub struct BabyBearConfig;
pub type BabyBear = Fp64<MontBackend<BabyBearConfig, 1>>;

pub static PROPERTIES: &[Property] = &[
    Property {
        id: "C06",
        rule: "A case draws coefficients (random, sparse, zero, constant, lengths around powers of two), a blow-up factor, a number of queries, one of three fields and of four hash functions; proved and verified by the real code. Non-trivial: the polynomial is not constant.",
        assumptions: &["the domain exists in the field, at least one query is asked for"],
        groups: &[
            Group { name: "honest", quick: 18000, run: c06_honest },
            Group { name: "lengths", quick: 300, run: c06_lengths },
            Group { name: "large", quick: 72, run: c06_large },
            Group { name: "wide", quick: 16, run: c06_wide },
            Group { name: "queries", quick: 8, run: c06_queries },
        ],
    },
    Property {
        id: "C07",
        rule: "Mutations of honest proofs judged by a reference verifier that knows every authentic path and recovers the challenges from the honest openings, and forgeries by provers that are consistent in everything but one check. Non-trivial: the proof differs from every honest one; distinct by mutation, position and parameters.",
        assumptions: &["two different hash inputs do not collide", "forged garbage does not match at 2^-40 odds"],
        groups: &[
            Group { name: "mutations", quick: 8000, run: c07_mutations },
            Group { name: "forgeries", quick: 7200, run: c07_forgeries },
            Group { name: "deep-mutations", quick: 200, run: c07_deep_mutations },
            Group { name: "deep-forgeries", quick: 108, run: c07_deep_forgeries },
            Group { name: "other-hash", quick: 120, run: c07_other_hash },
        ],
    },
    Property {
        id: "C08",
        rule: "Provers that fold a function above the degree bound correctly and claim a constant (random vectors, polynomials just above the bound), functions that are low-degree except where one bit of the position is set, in large domains, degenerate parameters around constant functions, the number of folds of honest proofs, and the distribution of the positions they open, identified by the opened values, over the whole domain, singly and in pairs. Non-trivial: the function exceeds the bound or the parameters are degenerate.",
        assumptions: &["40 queries miss a high-degree function with odds below 2^-38"],
        groups: &[
            Group { name: "high-degree", quick: 1500, run: c08_high_degree },
            Group { name: "parameters", quick: 1800, run: c08_parameters },
            Group { name: "folds", quick: 900, run: c08_folds },
            Group { name: "coverage", quick: 72, run: c08_coverage },
            Group { name: "wide", quick: 4, run: c08_wide },
            Group { name: "hidden", quick: 108, run: c08_hidden },
            Group { name: "chosen-coset", quick: 360, run: c08_chosen_coset },
        ],
    },
    Property {
        id: "C09",
        rule: "Trees over random, repeated and special leaves of any length: every path verifies, altered paths (leaf, index, sibling, root, length) do not, and different padded lists have different roots; also through proofs, where the tree is only seen from outside. Non-trivial: more than one leaf.",
        assumptions: &["SHA-256 does not collide on the inputs tried"],
        groups: &[
            #[cfg(zkp_monitor)]
            Group { name: "paths", quick: 2400, run: direct::c09_paths },
            #[cfg(zkp_monitor)]
            Group { name: "altered", quick: 12000, run: direct::c09_altered },
            #[cfg(zkp_monitor)]
            Group { name: "roots", quick: 6000, run: direct::c09_roots },
            #[cfg(zkp_monitor)]
            Group { name: "lengths", quick: 300, run: direct::c09_lengths },
            Group { name: "through-proofs", quick: 1600, run: c09_through_proofs },
        ],
    },
    Property {
        id: "C10",
        rule: "Runs of the verifier with a recording hash on an honest proof and on the same proof with one message altered: the digest a challenge is drawn from (identified by the value recovered from the openings) has to differ when an earlier message differs. Edited transcript histories, and forgeries that assume the challenge is known beforehand. Distinct by message, challenge and parameters.",
        assumptions: &["challenges are drawn from a generator seeded with the first 8 bytes of a digest; otherwise the case is inconclusive"],
        groups: &[
            Group { name: "dependencies", quick: 2100, run: c10_dependencies },
            Group { name: "histories", quick: 4000, run: c10_histories },
            Group { name: "known-challenge", quick: 900, run: c10_known_challenge },
            Group { name: "agreement", quick: 600, run: c10_agreement },
            Group { name: "entropy", quick: 4, run: c10_entropy },
        ],
    },
];

pub fn poly<F: PrimeField>(coeffs: &[F]) -> DensePolynomial<F> {
    DensePolynomial::from_coefficients_slice(coeffs)
}

fn accepts<T: Digest + Default, F: PrimeField>(p: &Proof<F>) -> Result<bool, Panicked> {
    let p = p.clone();
    guard(move || verify::<T, F>(p).is_ok())
}

/// Acceptance; a panic is no acceptance here (C28 is about panics).
fn accepted<T: Digest + Default, F: PrimeField>(p: &Proof<F>) -> bool {
    accepts::<T, F>(p).unwrap_or(false)
}

// ---------------------------------------------------------------- C06

fn c06_one<T: Digest + Default, F: PrimeField>(
    c: &mut Case,
    coeffs: &[F],
    blowup: usize,
    queries: usize,
    what: &str,
) {
    let p = poly(coeffs);
    let len = p.coeffs.len();
    let desc = || format!("{what}: coefficients {} blow-up {blowup} queries {queries}", hexes(&p.coeffs));
    if len < 2 {
        c.eval_trivial();
    } else {
        c.eval((what, len, blowup, queries, hexes(&p.coeffs)));
    }
    c.sample(&desc);
    c.count(what);
    c.maximum("number of coefficients", len as u64);
    c.distinct("(length, blow-up, queries)", (len, blowup, queries));
    match guard(|| generate_proof::<T, F>(p.clone(), blowup, queries)) {
        Ok(proof) => {
            c.maximum("domain", proof.domain_size as u64);
            c.count_n("queries answered", proof.decommitment_list.len() as u64);
            match guard(|| verify::<T, F>(proof)) {
                Ok(Ok(())) => c.count("accepted"),
                Ok(Err(e)) => c.violation("rejects-honest", format!("{e} {}", desc())),
                Err(e) => c.violation("verify-panics-honest", format!("{e:?} {}", desc())),
            }
        }
        Err(e) => c.violation("prover-panics", format!("{e:?} {}", desc())),
    }
}

fn c06_field<F: PrimeField>(c: &mut Case, max_len: usize, name: &str) {
    let coeffs: Vec<F> = any_coeffs(&mut c.rng, max_len);
    let blowup = *[1, 2, 2, 3, 4, 4, 5, 7, 8, 16].choose(&mut c.rng).unwrap();
    let queries = match c.rng.gen_range(0..60) {
        0 => c.rng.gen_range(31..300),
        _ => *[1, 1, 2, 3, 5, 10, 30].choose(&mut c.rng).unwrap(),
    };
    match c.rng.gen_range(0..4) {
        0 => c06_one::<Sha384, F>(c, &coeffs, blowup, queries, &format!("{name}/sha384")),
        1 => c06_one::<Sha512, F>(c, &coeffs, blowup, queries, &format!("{name}/sha512")),
        2 => c06_one::<Rec11, F>(c, &coeffs, blowup, queries, &format!("{name}/recording")),
        _ => c06_one::<Sha256, F>(c, &coeffs, blowup, queries, &format!("{name}/sha256")),
    }
}

fn c06_honest(c: &mut Case) {
    match c.rng.gen_range(0..5) {
        0 => c06_field::<Fr>(c, 20, "bls12-381"),
        1 => c06_field::<BabyBear>(c, 40, "babybear"),
        _ => c06_field::<Fq>(c, if c.thorough() { 200 } else { 70 }, "goldilocks"),
    }
}

/// Every length in turn, with a leading coefficient that is not zero
fn c06_lengths(c: &mut Case) {
    let len = (c.idx % 300) as usize;
    let coeffs: Vec<Fq> = (0..len)
        .map(|i| if i + 1 == len { nonzero(&mut c.rng) } else { any_field(&mut c.rng) })
        .collect();
    let blowup = c.rng.gen_range(1..5);
    let queries = c.rng.gen_range(1..6);
    c06_one::<Sha256, Fq>(c, &coeffs, blowup, queries, "goldilocks/sha256")
}

fn c06_large(c: &mut Case) {
    // around powers of two, with every blow-up
    let log = c.rng.gen_range(8..=if c.thorough() { 12 } else { 10 });
    let len = (1usize << log) + c.idx as usize % 3 - 1;
    let blowup = [1, 2, 4][c.idx as usize / 3 % 3];
    let queries = *[1, 20, 60].choose(&mut c.rng).unwrap();
    let mut coeffs: Vec<Fq> = (0..len).map(|_| any_field(&mut c.rng)).collect();
    coeffs[len - 1] = nonzero(&mut c.rng);
    c06_one::<Sha256, Fq>(c, &coeffs, blowup, queries, "goldilocks/sha256")
}

/// Few coefficients, and a domain with up to 2^18 points
fn c06_wide(c: &mut Case) {
    let len = c.rng.gen_range(1..7);
    let coeffs: Vec<Fq> = (0..len).map(|_| nonzero(&mut c.rng)).collect();
    let log = c.rng.gen_range(9..if c.thorough() { 17 } else { 16 });
    let blowup = (1usize << log) + c.rng.gen_range(0..3) - 1;
    let queries = c.rng.gen_range(1..300);
    c06_one::<Sha256, Fq>(c, &coeffs, blowup, queries, "goldilocks/sha256")
}

/// More queries than the domain has points, or than sixteen bits count
fn c06_queries(c: &mut Case) {
    let len = c.rng.gen_range(1..5);
    let coeffs: Vec<Fq> = (0..len).map(|_| nonzero(&mut c.rng)).collect();
    let queries = if c.idx % 4 == 0 { c.rng.gen_range(65_536..70_000) } else { c.rng.gen_range(256..2500) };
    let blowup = c.rng.gen_range(1..5);
    c06_one::<Sha256, Fq>(c, &coeffs, blowup, queries, "goldilocks/sha256")
}

// ---------------------------------------------------------------- C07

/// An honest proof with everything the reference verifier needs
pub struct Honest<F: PrimeField> {
    /// the proof to mutate: a prefix of the queries of `full`
    pub proof: Proof<F>,
    pub full: Proof<F>,
    r: Vec<Option<F>>,
    positions: Vec<usize>,
    /// text of the authentic path by layer and index
    paths: Vec<HashMap<usize, String>>,
}

pub fn show<D: std::fmt::Debug>(d: &D) -> String {
    format!("{d:?}")
}

/// omega^index * coset for a domain of this size
fn point<F: PrimeField>(size: usize, index: usize, coset: F) -> F {
    GeneralEvaluationDomain::<F>::new(size).unwrap().element(index) * coset
}

fn fold<F: PrimeField>(e: F, s: F, r: F, w: F) -> F {
    let two = F::from(2u64);
    (e + s) / two + r * (e - s) / (two * w)
}

pub fn honest<T: Digest + Default, F: PrimeField>(
    coeffs: &[F],
    blowup: usize,
    queries: usize,
) -> Option<Honest<F>> {
    let full = guard(|| generate_proof::<T, F>(poly(coeffs), blowup, queries * 2 + 4)).ok()?;
    let mut proof = guard(|| generate_proof::<T, F>(poly(coeffs), blowup, queries)).ok()?;
    // the queries of the shorter proof are a prefix
    if proof.decommitment_list.len() != queries
        || full.decommitment_list.len() != queries * 2 + 4
        || show(&proof.decommitment_list) != show(&full.decommitment_list[..queries].to_vec())
        || full.layers_root != proof.layers_root
    {
        return None;
    }
    proof.number_of_queries = queries;
    let layers = full.layers_root.len();
    let mut r = vec![None; layers];
    let mut paths = vec![HashMap::new(); layers];
    let mut positions = vec![];
    for d in &full.decommitment_list {
        if d.evaluations.len() != layers || d.auth_paths.len() != layers || d.sym_auth_paths.len() != layers {
            return None;
        }
        positions.push(d.auth_paths[0].index);
        let mut coset = full.coset;
        let mut size = full.domain_size;
        for i in 0..layers {
            let (e, s) = (d.evaluations[i], d.sym_evaluations[i]);
            let next = if i + 1 < layers { d.evaluations[i + 1] } else { full.const_val };
            paths[i].insert(d.auth_paths[i].index, show(&d.auth_paths[i]));
            paths[i].insert(d.sym_auth_paths[i].index, show(&d.sym_auth_paths[i]));
            if e != s {
                let w = point(size, d.auth_paths[i].index, coset);
                r[i] = Some((next.double() - e - s) * w / (e - s));
            }
            coset.square_in_place();
            size /= 2;
        }
    }
    Some(Honest { proof, full, r, positions, paths })
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Verdict {
    Accept,
    Reject,
    Unknown,
}

impl<F: PrimeField> Honest<F> {
    /// What a right verifier says about a mutation of the honest proof
    pub fn judge(&self, p: &Proof<F>) -> Verdict {
        use Verdict::*;
        let layers = p.layers_root.len();
        if p.domain_size < 2 || !p.domain_size.is_power_of_two() || p.coset.is_zero() {
            return Reject;
        }
        if layers == 0 || layers > p.domain_size.ilog2() as usize {
            return Reject;
        }
        if p.number_of_queries == 0 || p.number_of_queries != p.decommitment_list.len() {
            return Reject;
        }
        if p.decommitment_list.iter().any(|d| {
            [d.evaluations.len(), d.sym_evaluations.len(), d.auth_paths.len(), d.sym_auth_paths.len()]
                != [layers; 4]
        }) {
            return Reject;
        }
        // every path has to be an authentic one of its layer, for a domain of this size
        if p.domain_size != self.full.domain_size {
            return Reject;
        }
        let common = layers.min(self.full.layers_root.len());
        for d in &p.decommitment_list {
            for i in 0..common {
                if p.layers_root[i] != self.full.layers_root[i] {
                    // no path known here opens another root
                    return Reject;
                }
                for (e, path) in [
                    (d.evaluations[i], &d.auth_paths[i]),
                    (d.sym_evaluations[i], &d.sym_auth_paths[i]),
                ] {
                    if self.paths[i].get(&path.index) != Some(&show(path)) || path.leaf_val != e {
                        return Reject;
                    }
                }
            }
        }
        // another coset leads to other challenges, and so does another domain
        let same_domain = p.coset == self.full.coset;
        let same_messages =
            same_domain && layers == self.full.layers_root.len() && p.const_val == self.full.const_val;
        let mut unknown = !same_messages;
        for (k, d) in p.decommitment_list.iter().enumerate() {
            let mut coset = p.coset;
            let mut size = p.domain_size;
            for i in 0..common {
                let index = d.auth_paths[i].index;
                if same_messages {
                    match self.positions.get(k) {
                        Some(pos) if index != pos % size => return Reject,
                        None => unknown = true,
                        _ => {}
                    }
                }
                if index >= size || d.sym_auth_paths[i].index != (index + size / 2) % size {
                    return Reject;
                }
                if i > 0 && index != d.auth_paths[0].index % size {
                    return Reject;
                }
                let (e, s) = (d.evaluations[i], d.sym_evaluations[i]);
                let next = if i + 1 == layers {
                    Some(p.const_val)
                } else if i + 1 < common {
                    Some(d.evaluations[i + 1])
                } else {
                    None
                };
                if e != s && !same_domain {
                    // neither the challenge of the honest proof nor a random one leads on
                    return Reject;
                }
                let q = match self.r[i] {
                    Some(r) if e != s => Some(fold(e, s, r, point(size, index, coset))),
                    _ if e == s => Some(e),
                    _ => None,
                };
                match (q, next) {
                    (Some(q), Some(n)) if q != n => return Reject,
                    (Some(_), Some(_)) => {}
                    _ => unknown = true,
                }
                coset.square_in_place();
                size /= 2;
            }
        }
        if layers > common {
            unknown = true;
        }
        if unknown {
            Unknown
        } else {
            Accept
        }
    }
}

/// Alters one thing of a proof; returns what
pub fn mutate<F: PrimeField>(rng: &mut StdRng, h: &Honest<F>, p: &mut Proof<F>) -> &'static str {
    let q = rng.gen_range(0..p.decommitment_list.len());
    let q2 = rng.gen_range(0..h.full.decommitment_list.len());
    let layers = p.layers_root.len();
    let l = rng.gen_range(0..layers);
    let l2 = rng.gen_range(0..layers);
    let delta: F = nonzero(rng);
    let sym = rng.gen_bool(0.5);
    let other = h.full.decommitment_list[q2].clone();
    let n = p.decommitment_list.len();
    let kind = rng.gen_range(0..34);
    let d = &mut p.decommitment_list[q];
    match kind {
        0 => {
            shift(&mut d.evaluations[l], delta);
            "evaluation"
        }
        1 => {
            shift(&mut d.sym_evaluations[l], delta);
            "symmetric evaluation"
        }
        2 => {
            if sym {
                shift(&mut d.sym_auth_paths[l].leaf_val, delta)
            } else {
                shift(&mut d.auth_paths[l].leaf_val, delta)
            }
            "leaf of the path"
        }
        3 => {
            if sym {
                d.sym_auth_paths[l].leaf_val += delta;
                d.sym_evaluations[l] += delta;
            } else {
                d.auth_paths[l].leaf_val += delta;
                d.evaluations[l] += delta;
            }
            "evaluation and leaf"
        }
        4 => {
            let path = if sym { &mut d.sym_auth_paths[l] } else { &mut d.auth_paths[l] };
            path.index = match rng.gen_range(0..5) {
                0 => path.index + (p.domain_size >> l),
                1 => path.index ^ 1,
                2 => path.index + p.domain_size,
                3 => path.index.wrapping_sub(1),
                _ => rng.gen(),
            };
            "index of the path"
        }
        5 => {
            let (a, b) = (d.auth_paths[l].clone(), d.sym_auth_paths[l].clone());
            d.auth_paths[l] = b;
            d.sym_auth_paths[l] = a;
            "exchanged paths"
        }
        6 => {
            let (a, b) = (d.evaluations[l], d.sym_evaluations[l]);
            d.evaluations[l] = b;
            d.sym_evaluations[l] = a;
            "exchanged evaluations"
        }
        7 => {
            let (a, b) = (d.auth_paths[l].clone(), d.sym_auth_paths[l].clone());
            d.auth_paths[l] = b;
            d.sym_auth_paths[l] = a;
            let (a, b) = (d.evaluations[l], d.sym_evaluations[l]);
            d.evaluations[l] = b;
            d.sym_evaluations[l] = a;
            "exchanged sides"
        }
        8 => {
            *d = other;
            "decommitment of another query"
        }
        9 => {
            d.evaluations[l] = other.evaluations[l];
            d.sym_evaluations[l] = other.sym_evaluations[l];
            d.auth_paths[l] = other.auth_paths[l].clone();
            d.sym_auth_paths[l] = other.sym_auth_paths[l].clone();
            "layer of another query"
        }
        10 => {
            if sym {
                d.sym_evaluations[l] = other.sym_evaluations[l];
                d.sym_auth_paths[l] = other.sym_auth_paths[l].clone();
            } else {
                d.evaluations[l] = other.evaluations[l];
                d.auth_paths[l] = other.auth_paths[l].clone();
            }
            "side of another query"
        }
        11 => {
            d.auth_paths[l] = other.auth_paths[l2].clone();
            d.evaluations[l] = other.evaluations[l2];
            "path of another layer"
        }
        12 => {
            d.sym_auth_paths[l] = d.auth_paths[l].clone();
            d.sym_evaluations[l] = d.evaluations[l];
            "same side twice"
        }
        13 => {
            d.auth_paths[l] = d.sym_auth_paths[l].clone();
            d.evaluations[l] = d.sym_evaluations[l];
            "symmetric side twice"
        }
        14 => {
            p.layers_root[l] += delta;
            "root"
        }
        15 => {
            p.layers_root.swap(l, l2);
            "exchanged roots"
        }
        16 => {
            p.layers_root[l] = p.layers_root[l2];
            "root of another layer"
        }
        17 => {
            shift(&mut p.const_val, delta);
            "constant"
        }
        18 => {
            p.const_val = d.evaluations[l];
            "constant replaced by an evaluation"
        }
        19 => {
            p.coset = match rng.gen_range(0..4) {
                0 => F::zero(),
                1 => F::one(),
                2 => -p.coset,
                _ => p.coset + delta,
            };
            "coset"
        }
        20 => {
            p.domain_size = match rng.gen_range(0..6) {
                0 => p.domain_size * 2,
                1 => p.domain_size / 2,
                2 => p.domain_size + 1,
                3 => 0,
                4 => 1,
                _ => p.domain_size * 4,
            };
            "domain size"
        }
        21 => {
            p.number_of_queries = match rng.gen_range(0..4) {
                0 => n + 1,
                1 => n - 1,
                2 => 0,
                _ => rng.gen_range(0..2 * n + 2),
            };
            "number of queries"
        }
        22 => {
            p.decommitment_list.remove(q);
            if sym {
                p.number_of_queries = p.number_of_queries.wrapping_sub(1);
            }
            "query dropped"
        }
        23 => {
            p.decommitment_list.push(other);
            if sym {
                p.number_of_queries += 1;
            }
            "query added"
        }
        24 => {
            let q2 = rng.gen_range(0..n);
            p.decommitment_list.swap(q, q2);
            "queries exchanged"
        }
        25 => {
            let k = rng.gen_range(0..=n);
            p.decommitment_list.truncate(k);
            if sym {
                p.number_of_queries = k;
            }
            "queries truncated"
        }
        26 => {
            match rng.gen_range(0..4) {
                0 => {
                    d.evaluations.pop();
                }
                1 => {
                    d.sym_evaluations.pop();
                }
                2 => {
                    d.auth_paths.pop();
                }
                _ => {
                    d.sym_auth_paths.pop();
                }
            }
            "short list"
        }
        27 => {
            d.evaluations.truncate(l);
            d.sym_evaluations.truncate(l);
            d.auth_paths.truncate(l);
            d.sym_auth_paths.truncate(l);
            "layers of a query truncated"
        }
        28 => {
            // the last layer disappears everywhere, the constant follows the first query
            p.layers_root.pop();
            let c = d.evaluations.last().copied().unwrap();
            for d in &mut p.decommitment_list {
                d.evaluations.pop();
                d.sym_evaluations.pop();
                d.auth_paths.pop();
                d.sym_auth_paths.pop();
            }
            if sym {
                p.const_val = c;
            }
            "last layer dropped"
        }
        29 => {
            // the first layer disappears everywhere
            p.layers_root.remove(0);
            for d in &mut p.decommitment_list {
                d.evaluations.remove(0);
                d.sym_evaluations.remove(0);
                d.auth_paths.remove(0);
                d.sym_auth_paths.remove(0);
            }
            if sym {
                p.domain_size /= 2;
                p.coset.square_in_place();
            }
            "first layer dropped"
        }
        30 => {
            for d in &mut p.decommitment_list {
                d.evaluations[l] += delta;
                d.sym_evaluations[l] += delta;
            }
            "all evaluations of a layer shifted"
        }
        31 => {
            if sym {
                d.evaluations.swap(l, l2);
                d.auth_paths.swap(l, l2);
            } else {
                d.evaluations.swap(l, l2);
            }
            "layers exchanged"
        }
        #[cfg(zkp_monitor)]
        32 => {
            let path = if sym { &mut d.sym_auth_paths[l] } else { &mut d.auth_paths[l] };
            let (hashes, root) = fri::monitor::path_and_root(path);
            match rng.gen_range(0..5) {
                0 => *root += delta,
                1 => {
                    hashes.pop();
                }
                2 => hashes.push(delta),
                3 if hashes.len() > 1 => {
                    let k = rng.gen_range(0..hashes.len() - 1);
                    hashes.swap(k, k + 1);
                }
                _ if hashes.is_empty() => {}
                _ => {
                    let k = rng.gen_range(0..hashes.len());
                    hashes[k] += delta
                }
            }
            "hashes of the path"
        }
        #[cfg(zkp_monitor)]
        33 => {
            // a shorter path that ends at an inner node taken as the root, everywhere
            let (hashes, root) = fri::monitor::path_and_root(&mut d.auth_paths[l]);
            if hashes.is_empty() {
                return "nothing";
            }
            *root = hashes[0];
            hashes.clear();
            let r = *root;
            if sym {
                p.layers_root[l] = r;
            }
            "inner node as root"
        }
        _ => "nothing",
    }
}

fn c07_on<T: Digest + Default, F: PrimeField>(c: &mut Case, max_len: usize) {
    // mostly polynomials with several layers
    let mut coeffs: Vec<F> = any_coeffs(&mut c.rng, max_len);
    if coeffs.len() < 3 && c.rng.gen_bool(0.8) {
        coeffs = (0..c.rng.gen_range(3..=max_len)).map(|_| F::rand(&mut c.rng)).collect();
    }
    let blowup = c.rng.gen_range(1..5);
    let queries = match c.rng.gen_range(0..25) {
        0 => c.rng.gen_range(8..150),
        _ => c.rng.gen_range(1..8),
    };
    c.maximum("number of queries", queries as u64);
    mutations_of::<T, F>(c, coeffs, blowup, queries, 12);
}

fn mutations_of<T: Digest + Default, F: PrimeField>(c: &mut Case, coeffs: Vec<F>, blowup: usize, queries: usize, times: usize) {
    let Some(h) = honest::<T, F>(&coeffs, blowup, queries) else {
        c.inconclusive("no honest proof, or its queries are not a prefix");
        return;
    };
    if h.judge(&h.proof) != Verdict::Accept || !accepted::<T, F>(&h.proof) {
        c.inconclusive("reference and verifier do not both accept the honest proof");
        return;
    }
    c.maximum("layers", h.proof.layers_root.len() as u64);
    for _ in 0..times {
        let mut p = h.proof.clone();
        let what = mutate(&mut c.rng, &h, &mut p);
        let what = if c.rng.gen_bool(0.15) && !p.decommitment_list.is_empty() && !p.layers_root.is_empty() && p.layers_root.len() == h.full.layers_root.len()
            && p.decommitment_list.iter().all(|d| [d.evaluations.len(), d.sym_evaluations.len(), d.auth_paths.len(), d.sym_auth_paths.len()] == [p.layers_root.len(); 4])
        {
            let w2 = mutate(&mut c.rng, &h, &mut p);
            format!("{what} and {w2}")
        } else {
            what.to_string()
        };
        let want = h.judge(&p);
        let text = show(&p);
        if text == show(&h.proof) {
            c.eval_trivial();
        } else {
            c.eval(&text);
        }
        c.distinct("mutation kinds", &what);
        let got = accepted::<T, F>(&p);
        c.count(match want {
            Verdict::Accept => "reference accepts",
            Verdict::Reject => "reference rejects",
            Verdict::Unknown => "reference undecided",
        });
        let desc = || {
            format!(
                "{what}: coefficients {} blow-up {blowup} queries {queries}; proof {text}",
                hexes(&coeffs)
            )
        };
        c.sample(&desc);
        if got && want == Verdict::Reject {
            c.violation(&format!("accepts-mutation: {what}"), desc());
        } else if !got && want == Verdict::Accept {
            c.violation("rejects-valid", desc());
        }
    }
}

fn c07_mutations(c: &mut Case) {
    match c.rng.gen_range(0..8) {
        0 => c07_on::<Sha512, Fr>(c, 9),
        1 => c07_on::<Rec11, Fq>(c, 20),
        _ => c07_on::<Sha256, Fq>(c, 20),
    }
}

/// Proofs with many layers
fn c07_deep_mutations(c: &mut Case) {
    let coeffs: Vec<Fq> = (0..c.rng.gen_range(64..700)).map(|_| rand_field(&mut c.rng)).collect();
    let (blowup, queries) = (c.rng.gen_range(1..3), c.rng.gen_range(1..4));
    mutations_of::<Sha256, Fq>(c, coeffs, blowup, queries, 40);
}

fn c07_other_hash(c: &mut Case) {
    let coeffs: Vec<Fq> = (0..c.rng.gen_range(8..40)).map(|_| rand_field(&mut c.rng)).collect();
    let Ok(p) = guard(|| generate_proof::<Sha256, Fq>(poly(&coeffs), 4, 20)) else {
        c.inconclusive("no honest proof");
        return;
    };
    c.eval(hexes(&coeffs));
    c.check(!accepted::<Sha512, Fq>(&p), "accepts-under-another-hash", || hexes(&coeffs));
    let Ok(p) = guard(|| generate_proof::<Sha512, Fq>(poly(&coeffs), 4, 20)) else {
        return;
    };
    c.eval(("512", hexes(&coeffs)));
    c.check(!accepted::<Sha256, Fq>(&p), "accepts-under-another-hash", || hexes(&coeffs));
}

pub fn rand_field<F: PrimeField>(rng: &mut StdRng) -> F {
    F::rand(rng)
}

// ---- cheating provers

/// The Merkle tree of a vector of evaluations, harvested from the proof of the polynomial that
/// takes them (no access to the private tree is needed)
pub struct Tree<F: PrimeField> {
    proof: Proof<F>,
    at: HashMap<usize, (usize, bool)>,
    pub values: Vec<F>,
    pub root: F,
}

impl<F: PrimeField> Tree<F> {
    pub fn harvest(values: &[F]) -> Option<Self> {
        Self::harvest_part(values, values.len())
    }

    /// The openings of at least so many positions
    pub fn harvest_part(values: &[F], enough: usize) -> Option<Self> {
        let n = values.len();
        let domain = GeneralEvaluationDomain::<F>::new(n)?.get_coset(F::GENERATOR)?;
        let mut coeffs = domain.ifft(values);
        while coeffs.last().is_some_and(|x| x.is_zero()) {
            coeffs.pop();
        }
        // a constant zero that keeps its place, so that it has the domain of other constants
        let poly = if coeffs.is_empty() {
            DensePolynomial { coeffs: vec![F::zero()] }
        } else {
            poly(&coeffs)
        };
        let blowup = n / poly.coeffs.len().next_power_of_two();
        let mut queries = n * 3 + 8;
        for _ in 0..4 {
            let proof =
                guard(|| generate_proof::<Sha256, F>(poly.clone(), blowup, queries)).ok()?;
            let mut at = HashMap::new();
            for (k, d) in proof.decommitment_list.iter().enumerate() {
                let (a, b) = (d.auth_paths.first()?, d.sym_auth_paths.first()?);
                if values.get(a.index) != Some(&a.leaf_val) || values.get(b.index) != Some(&b.leaf_val) {
                    return None;
                }
                at.insert(a.index, (k, false));
                at.insert(b.index, (k, true));
            }
            if at.len() >= enough {
                let root = *proof.layers_root.first()?;
                return Some(Self {
                    at,
                    values: values.to_vec(),
                    root,
                    proof,
                });
            }
            queries *= 2;
        }
        None
    }

    /// Appends value and path at an index to one side of a decommitment
    fn open(&self, d: &mut Decommitment<F>, sym: bool, index: usize) {
        let (k, s) = self.at[&index];
        let from = &self.proof.decommitment_list[k];
        let path = if s { &from.sym_auth_paths[0] } else { &from.auth_paths[0] };
        if sym {
            d.sym_auth_paths.push(path.clone());
            d.sym_evaluations.push(path.leaf_val);
        } else {
            d.auth_paths.push(path.clone());
            d.evaluations.push(path.leaf_val);
        }
    }
}

fn empty<F: PrimeField>() -> Decommitment<F> {
    Decommitment {
        evaluations: vec![],
        auth_paths: vec![],
        sym_evaluations: vec![],
        sym_auth_paths: vec![],
    }
}

/// The verifier's side of the transcript, as documented: root, challenge, ..., constant, positions
struct Sponge<F: PrimeField>(Transcript<Sha256, F>);

/// What enters the transcript before the first root
#[derive(Clone, Copy, PartialEq, Debug)]
enum Opening {
    CosetAndDomain,
    DomainAndCoset,
    Coset,
    Domain,
    Nothing,
}

const OPENINGS: [Opening; 5] = [
    Opening::CosetAndDomain,
    Opening::DomainAndCoset,
    Opening::Coset,
    Opening::Domain,
    Opening::Nothing,
];

/// The one whose first challenge is the one honest proofs were folded with
fn opening() -> Opening {
    static FOUND: std::sync::OnceLock<Opening> = std::sync::OnceLock::new();
    *FOUND.get_or_init(|| {
        let coeffs: Vec<G> = (3..12u64).map(G::from).collect();
        let found = honest::<Sha256, G>(&coeffs, 2, 4).and_then(|h| {
            OPENINGS.into_iter().find(|o| {
                let mut s = Sponge::<G>::opened(*o, h.proof.coset, h.proof.domain_size);
                Some(s.root(h.proof.layers_root[0])) == h.r[0]
            })
        });
        found.unwrap_or(Opening::CosetAndDomain)
    })
}

impl<F: PrimeField> Sponge<F> {
    fn new(coset: F, domain: usize) -> Self {
        Self::opened(opening(), coset, domain)
    }
    fn opened(o: Opening, coset: F, domain: usize) -> Self {
        let mut t = Transcript::new(F::zero());
        let n = F::from(domain as u64);
        let first: &[F] = match o {
            Opening::CosetAndDomain => &[coset, n],
            Opening::DomainAndCoset => &[n, coset],
            Opening::Coset => &[coset],
            Opening::Domain => &[n],
            Opening::Nothing => &[],
        };
        first.iter().for_each(|x| t.digest(*x));
        Self(t)
    }
    fn root(&mut self, root: F) -> F {
        self.0.digest(root);
        self.0.generate_a_challenge()
    }
    fn positions(&mut self, c: F, n: usize, domain: usize) -> Vec<usize> {
        self.0.digest(c);
        self.0
            .generate_challenge_list_usize(n)
            .into_iter()
            .map(|v| v % domain)
            .collect()
    }
}

fn fold_vector<F: PrimeField>(v: &[F], r: F, coset: F) -> Vec<F> {
    let n = v.len();
    (0..n / 2)
        .map(|i| fold(v[i], v[i + n / 2], r, point(n, i, coset)))
        .collect()
}

fn random_vector<F: PrimeField>(rng: &mut StdRng, n: usize) -> Vec<F> {
    (0..n).map(|_| F::rand(rng)).collect()
}

fn low_degree<F: PrimeField>(rng: &mut StdRng, n: usize, len: usize, coset: F) -> Vec<F> {
    low_degree_of(rng, n, len, coset, 0)
}

/// Random, or a function with symmetries: constant, even, odd, of one term, or zero
fn low_degree_of<F: PrimeField>(rng: &mut StdRng, n: usize, len: usize, coset: F, shape: usize) -> Vec<F> {
    let one = rng.gen_range(0..len);
    let p: Vec<F> = (0..len)
        .map(|i| F::rand(rng) * F::from(match shape {
            1 => i == 0,
            5 => false,
            2 => i % 2 == 0,
            3 => i % 2 == 1,
            4 => i == one,
            _ => true,
        } as u64))
        .collect();
    (0..n).map(|i| horner(&p, point(n, i, coset))).collect()
}

type G = Fq;

/// How a cheating prover cheats
#[derive(Clone, Copy, Debug, PartialEq)]
enum Cheat {
    /// not at all: calibrates the simulation
    None,
    /// layer i+1 is not the fold of layer i
    WrongFold,
    /// the constant is not the fold of the last layer
    WrongConstant,
    /// the paths of one layer are for another tree than the committed one
    OtherTree,
    /// the paths of all layers are for other trees
    OtherTrees,
    /// the evaluations of one side or both sides of a layer are not the leaves
    NotTheLeaf(bool),
    /// one evaluation of a layer is chosen to fit an unrelated next layer, its leaf is the
    /// committed one
    FreeEvaluation(bool),
    /// the same, and the leaf is changed with it: only its path does not fit
    FreeLeaf(bool),
    /// one side of a layer is opened at another position
    OtherPosition(bool),
    /// the opened position is that of other queries
    OtherQueries,
    /// only the first queries are answered
    FewQueries,
    /// nothing is opened in some or all queries
    NothingOpened,
    /// queries are cut after some layers
    CutQueries,
    /// one bad position is hidden: only this query would show it
    OnePoint,
}

const CHEATS: &[Cheat] = &[
    Cheat::None,
    Cheat::WrongFold,
    Cheat::WrongConstant,
    Cheat::OtherTree,
    Cheat::OtherTrees,
    Cheat::NotTheLeaf(false),
    Cheat::NotTheLeaf(true),
    Cheat::FreeEvaluation(false),
    Cheat::FreeEvaluation(true),
    Cheat::FreeLeaf(false),
    Cheat::FreeLeaf(true),
    Cheat::OtherPosition(false),
    Cheat::OtherPosition(true),
    Cheat::OtherQueries,
    Cheat::FewQueries,
    Cheat::NothingOpened,
    Cheat::CutQueries,
    Cheat::OnePoint,
];

/// A proof by a prover that cheats in one way only, or None when this attempt did not fit
fn forge(c: &mut Case, cheat: Cheat, n: usize, layers: usize, queries: usize) -> Option<(Proof<G>, String)> {
    let coset0 = <G as ark_ff::FftField>::GENERATOR;
    let at = match cheat {
        // an evaluation of the first side is tied to the layer before
        Cheat::FreeEvaluation(false) | Cheat::FreeLeaf(false) => 0,
        _ => c.rng.gen_range(0..layers),
    };
    let unrelated = matches!(cheat, Cheat::WrongFold | Cheat::FreeEvaluation(_) | Cheat::FreeLeaf(_));
    let wrong = nonzero::<G>(&mut c.rng);
    let related = c.rng.gen_bool(0.6);
    let mut detail = format!("layer {at} of {layers}, domain {n}, {queries} queries, off by {wrong} ({related})");
    let mut sponge = Sponge::<G>::new(coset0, n);
    let mut vectors: Vec<Vec<G>> = vec![];
    let mut committed: Vec<Tree<G>> = vec![];
    let mut opened: Vec<Option<Tree<G>>> = vec![];
    let mut rs = vec![];
    let mut coset = coset0;
    // the value at another position may be the right one if the function has symmetries
    let shape = match cheat {
        Cheat::OtherPosition(_) | Cheat::OtherQueries => 0,
        _ => c.rng.gen_range(0..8),
    };
    let mut v = low_degree_of(&mut c.rng, n, 1 << layers, coset0, shape);
    detail += &format!(", shape {shape}");
    for i in 0..layers {
        // what is committed in this layer
        let commit = match cheat {
            Cheat::OtherTree if i == at => random_vector(&mut c.rng, v.len()),
            Cheat::OtherTrees => random_vector(&mut c.rng, v.len()),
            Cheat::NotTheLeaf(half) if i == at => {
                // one half, so that one side of every query is right, or all
                let mut w = random_vector(&mut c.rng, v.len());
                if related {
                    let h = v.len() / 2;
                    let keep = if half { 0..h } else { h..v.len() };
                    w[keep.clone()].copy_from_slice(&v[keep]);
                }
                w
            }
            Cheat::NothingOpened => random_vector(&mut c.rng, v.len()),
            Cheat::CutQueries if i >= at => random_vector(&mut c.rng, v.len()),
            Cheat::OnePoint if i == at => {
                let mut w = v.clone();
                let k = c.rng.gen_range(0..w.len());
                w[k] += <G as ark_ff::UniformRand>::rand(&mut c.rng);
                detail += &format!(", bad position {k}");
                w
            }
            _ => v.clone(),
        };
        let tree = Tree::harvest(&commit)?;
        let r = sponge.root(tree.root);
        rs.push(r);
        committed.push(tree);
        opened.push(match cheat {
            Cheat::OtherTree if i == at => Some(Tree::harvest(&v)?),
            Cheat::OtherTrees => Some(Tree::harvest(&v)?),
            _ => None,
        });
        vectors.push(v.clone());
        v = match cheat {
            _ if unrelated && i == at && i + 1 < layers && related => {
                // off by something that keeps the degree: the negative, the double, zero, ...
                v = fold_vector(&v, r, coset);
                let old = v[0];
                let mut new = old;
                shift(&mut new, wrong);
                match new - old {
                    d if d == wrong => v.iter().map(|x| *x + wrong).collect(),
                    _ if new == G::from(0u64) => vec![G::from(0u64); v.len()],
                    _ if new == -old => v.iter().map(|x| -*x).collect(),
                    _ => v.iter().map(|x| *x + x).collect(),
                }
            }
            _ if unrelated && i == at && i + 1 < layers => {
                low_degree(&mut c.rng, v.len() / 2, 1 << (layers - i - 1), coset.square_())
            }
            Cheat::OtherPosition(sym) if i == at => {
                // as if the value of one side stood on both: the fold is that value, which has
                // to be constant on both halves only for the positions asked
                let half = v.len() / 2;
                let keep: Vec<G> = if sym { v[..half].to_vec() } else { v[half..].to_vec() };
                keep
            }
            _ => fold_vector(&v, r, coset),
        };
        coset = coset.square_();
    }
    let constant = if cheat == Cheat::WrongConstant || unrelated && at + 1 == layers {
        let mut x = v[0];
        shift(&mut x, wrong);
        x
    } else {
        v[0]
    };
    let positions = sponge.positions(constant, queries, n);
    detail += &format!(", positions {positions:?}");
    let mut list = vec![];
    for (k, pos) in positions.iter().enumerate() {
        let pos = if cheat == Cheat::OtherQueries {
            // the same right position for all
            (positions[0] + 1) % n
        } else {
            *pos
        };
        let mut d = empty();
        let cut = match cheat {
            Cheat::NothingOpened => 0,
            Cheat::CutQueries => at,
            _ => layers,
        };
        for i in 0..cut {
            let size = n >> i;
            let index = pos % size;
            let sym = (index + size / 2) % size;
            let tree = opened[i].as_ref().unwrap_or(&committed[i]);
            let (mut a, mut b) = (index, sym);
            if let (Cheat::OtherPosition(s), true) = (cheat, i == at) {
                if s {
                    b = index
                } else {
                    a = sym
                }
            }
            tree.open(&mut d, false, a);
            tree.open(&mut d, true, b);
            if let (Cheat::FreeEvaluation(s) | Cheat::FreeLeaf(s), true) = (cheat, i == at) {
                let (e, f) = (vectors[i][index], vectors[i][sym]);
                let w = point(size, index, coset0.pow([1 << i]));
                let w2 = w.double();
                let next = match vectors.get(i + 1) {
                    Some(v) => v[index % (size / 2)],
                    None => constant,
                };
                let moved = matches!(cheat, Cheat::FreeLeaf(_));
                // next = (r + w) e / 2w - (r - w) f / 2w
                if s {
                    let f = ((rs[i] + w) * e - next * w2) * (rs[i] - w).inverse()?;
                    d.sym_evaluations[i] = f;
                    if moved {
                        d.sym_auth_paths[i].leaf_val = f;
                    }
                } else {
                    let e = (next * w2 + (rs[i] - w) * f) * (rs[i] + w).inverse()?;
                    d.evaluations[i] = e;
                    if moved {
                        d.auth_paths[i].leaf_val = e;
                    }
                }
            }
            if let (Cheat::NotTheLeaf(_), true) = (cheat, i == at) {
                // the evaluations are the right ones, the committed leaves are not
                let honest = &vectors[i];
                d.evaluations[i] = honest[index];
                d.sym_evaluations[i] = honest[sym];
            }
        }
        if cheat == Cheat::FewQueries && k > 0 {
            break;
        }
        list.push(d);
    }
    if cheat == Cheat::FewQueries {
        // all values are right, but only one query is answered
        if queries < 2 {
            return None;
        }
    }
    if cheat == Cheat::OnePoint {
        // right only if no query touches the bad position
        let bad: usize = detail.split("bad position ").nth(1)?.split(',').next()?.trim().parse().ok()?;
        let half = (n >> at) / 2;
        let hit = positions.iter().any(|p| (p % (n >> at)) % half == bad % half);
        // a hit in the layer itself; before it, the fold into the layer hits the position itself
        let hit_before = at > 0 && positions.iter().any(|p| p % (n >> at) == bad);
        if !hit && !hit_before {
            return None;
        }
    }
    Some((
        Proof {
            domain_size: n,
            coset: coset0,
            number_of_queries: queries,
            layers_root: committed.iter().map(|t| t.root).collect(),
            const_val: constant,
            decommitment_list: list,
        },
        detail,
    ))
}

trait Sq {
    fn square_(self) -> Self;
}
impl<F: PrimeField> Sq for F {
    fn square_(self) -> Self {
        self.square()
    }
}

fn c07_forgeries(c: &mut Case) {
    let logn = c.rng.gen_range(2..if c.thorough() { 7 } else { 6 });
    let layers = c.rng.gen_range(1..=logn);
    one_forgery(c, logn, layers);
}

/// The same with many layers: the cheat may be in a late one
fn c07_deep_forgeries(c: &mut Case) {
    let logn = c.rng.gen_range(7..if c.thorough() { 11 } else { 9 });
    let layers = c.rng.gen_range(logn - 1..=logn);
    c.maximum("layers of a forgery", layers as u64);
    one_forgery(c, logn, layers);
}

fn one_forgery(c: &mut Case, logn: usize, layers: usize) {
    let cheat = CHEATS[c.idx as usize % CHEATS.len()];
    let n = 1usize << logn;
    let queries = match cheat {
        Cheat::OtherPosition(_) => c.rng.gen_range(1..3),
        Cheat::OnePoint => c.rng.gen_range(1..30),
        _ => c.rng.gen_range(1..12),
    };
    // calibration: the simulated prover without the cheat is accepted
    let Some((h, d)) = forge(c, Cheat::None, n, layers, queries) else {
        c.inconclusive("trees cannot be harvested");
        return;
    };
    if !accepted::<Sha256, G>(&h) {
        c.inconclusive(format!("the simulated honest prover is not accepted: {d}"));
        return;
    }
    if cheat == Cheat::None {
        c.eval_trivial();
        c.count("calibrated");
        return;
    }
    let Some((p, detail)) = forge(c, cheat, n, layers, queries) else {
        c.count("attempts that do not fit");
        return;
    };
    c.eval((format!("{cheat:?}"), show(&p)));
    c.distinct("(cheat, domain, layers)", (format!("{cheat:?}"), n, layers));
    c.sample(|| format!("{cheat:?}: {detail}"));
    if accepted::<Sha256, G>(&p) {
        c.violation(&format!("accepts-forgery: {cheat:?}"), format!("{detail}; {}", show(&p)));
    } else {
        c.count("forgeries rejected");
    }
}

// ---------------------------------------------------------------- C08

fn c08_high_degree(c: &mut Case) {
    let logn = c.rng.gen_range(2..if c.thorough() { 8 } else { 6 });
    let n = 1usize << logn;
    let layers = c.rng.gen_range(1..logn);
    let queries = 40;
    let coset0 = <G as ark_ff::FftField>::GENERATOR;
    let bound = 1usize << layers;
    let (what, mut v) = match c.idx % 4 {
        0 => ("random function", random_vector(&mut c.rng, n)),
        1 => ("degree equal to the bound", low_degree(&mut c.rng, n, bound + 1, coset0)),
        2 => ("twice the bound", low_degree(&mut c.rng, n, 2 * bound, coset0)),
        _ => {
            let mut v = low_degree(&mut c.rng, n, bound, coset0);
            for x in v.iter_mut().skip(n / 2) {
                *x = rand_field(&mut c.rng);
            }
            ("low degree on half of the domain", v)
        }
    };
    let mut sponge = Sponge::<G>::new(coset0, n);
    let mut trees = vec![];
    let mut coset = coset0;
    for _ in 0..layers {
        let Some(t) = Tree::harvest(&v) else {
            c.inconclusive("trees cannot be harvested");
            return;
        };
        let r = sponge.root(t.root);
        trees.push(t);
        v = fold_vector(&v, r, coset);
        coset = coset.square_();
    }
    // the most frequent value is the best claim
    let constant = *v.choose(&mut c.rng).unwrap();
    let positions = sponge.positions(constant, queries, n);
    let mut list = vec![];
    for pos in &positions {
        let mut d = empty();
        for (i, t) in trees.iter().enumerate() {
            let size = n >> i;
            t.open(&mut d, false, pos % size);
            t.open(&mut d, true, (pos % size + size / 2) % size);
        }
        list.push(d);
    }
    let p = Proof {
        domain_size: n,
        coset: coset0,
        number_of_queries: queries,
        layers_root: trees.iter().map(|t| t.root).collect(),
        const_val: constant,
        decommitment_list: list,
    };
    c.eval((what, show(&p)));
    c.count(what);
    c.distinct("(function, domain, layers)", (what, n, layers));
    c.sample(|| format!("{what}: domain {n} layers {layers} constant {}", hex(&constant)));
    c.check(!accepted::<Sha256, G>(&p), "accepts-high-degree", || {
        format!("{what}: domain {n}, {layers} layers, {}", show(&p))
    });
}

/// The domain is chosen when the first folding challenge is known: every pair then folds to one
/// constant, whatever was committed
fn c08_chosen_coset(c: &mut Case) {
    let logn = c.rng.gen_range(3..if c.thorough() { 9 } else { 7 });
    let n = 1usize << logn;
    let layers = c.rng.gen_range(1..logn);
    let queries = 40;
    let coset0 = <G as ark_ff::FftField>::GENERATOR;
    let (value, t0): (G, G) = (rand_field(&mut c.rng), nonzero(&mut c.rng));
    // f(x) = e + d x/g with e = value - t0 d: folds to e + d r/g, which is the value if r = g t0
    let one = G::from(1u64);
    let mut v = vec![value; n];
    for i in 0..n / 2 {
        let d: G = rand_field(&mut c.rng);
        let (e, w) = (value - t0 * d, point(n, i, one));
        v[i] = e + d * w;
        v[i + n / 2] = e - d * w;
    }
    let mut sponge = Sponge::<G>::new(coset0, n);
    let mut trees = vec![];
    for i in 0..layers {
        let Some(t) = Tree::harvest(if i == 0 { &v } else { &v[..n >> i] }) else {
            c.inconclusive("trees cannot be harvested");
            return;
        };
        trees.push(t);
        if i == 0 {
            // later layers are constant
            v = vec![value; n];
        }
    }
    let mut coset = coset0;
    for (i, t) in trees.iter().enumerate() {
        let r = sponge.root(t.root);
        if i == 0 {
            coset = r / t0;
        }
    }
    let positions = sponge.positions(value, queries, n);
    let mut list = vec![];
    for pos in &positions {
        let mut d = empty();
        for (i, t) in trees.iter().enumerate() {
            let size = n >> i;
            t.open(&mut d, false, pos % size);
            t.open(&mut d, true, (pos % size + size / 2) % size);
        }
        list.push(d);
    }
    let p = Proof {
        domain_size: n,
        coset,
        number_of_queries: queries,
        layers_root: trees.iter().map(|t| t.root).collect(),
        const_val: value,
        decommitment_list: list,
    };
    c.eval(("chosen coset", show(&p)));
    c.distinct("(domain, layers)", (n, layers));
    c.check(!accepted::<Sha256, G>(&p), "accepts-chosen-coset", || {
        format!("a random function, domain {n}, {layers} layers, coset {} chosen after the first challenge: {}", hex(&coset), show(&p))
    });
}

/// Constant functions fold into themselves whatever the challenges: only the parameters decide
/// The path of the only leaf of a tree
#[cfg(zkp_monitor)]
fn one_leaf<F: PrimeField>(path: &mut fri::monitor::MerkleProof<F>) {
    let hash = fri::monitor::hash(&path.leaf_val);
    let (hashes, root) = fri::monitor::path_and_root(path);
    hashes.clear();
    *root = hash;
}

/// A proof for a constant function, right in everything, that goes on after the domain has
/// one point
#[cfg(zkp_monitor)]
pub fn too_many_layers(c: &mut Case) -> Option<Proof<G>> {
    let value: G = nonzero(&mut c.rng);
    let logs = c.rng.gen_range(1..4usize);
    let (n, layers, queries) = (1usize << logs, logs + c.rng.gen_range(1..4usize), c.rng.gen_range(1..4));
    let trees: Vec<Tree<G>> = (0..layers).map(|i| Tree::harvest(&vec![value; (n >> i).max(2)])).collect::<Option<_>>()?;
    let roots: Vec<G> = (0..layers).map(|i| if i < logs { trees[i].root } else { fri::monitor::hash(&value) }).collect();
    let coset = <G as ark_ff::FftField>::GENERATOR;
    let mut sponge = Sponge::<G>::new(coset, n);
    roots.iter().for_each(|r| {
        sponge.root(*r);
    });
    let positions = sponge.positions(value, queries, n);
    let list = positions
        .iter()
        .map(|pos| {
            let mut d = empty();
            for (i, t) in trees.iter().enumerate() {
                let m = (n >> i).max(1);
                let (a, b) = (pos % m, (pos % m + m / 2) % m);
                t.open(&mut d, false, a);
                t.open(&mut d, true, b);
                if n >> i < 2 {
                    one_leaf(&mut d.auth_paths[i]);
                    one_leaf(&mut d.sym_auth_paths[i]);
                }
            }
            d
        })
        .collect();
    Some(Proof { domain_size: n, coset, number_of_queries: queries, layers_root: roots, const_val: value, decommitment_list: list })
}

fn c08_parameters(c: &mut Case) {
    let value: G = nonzero(&mut c.rng);
    let logs = c.rng.gen_range(1..5);
    let n = 1usize << logs;
    let queries = c.rng.gen_range(1..6);
    let kind = c.idx % 10;
    let mut domain = n;
    let mut coset = <G as ark_ff::FftField>::GENERATOR;
    let mut layers = c.rng.gen_range(1..=logs);
    let mut number = queries;
    let what = match kind {
        0 => {
            layers = 0;
            "no layers"
        }
        1 => {
            number = 0;
            "no queries"
        }
        2 => {
            coset = G::from(0u64);
            "zero coset"
        }
        3 => {
            domain = 1;
            layers = 1;
            "domain of one point"
        }
        4 => {
            domain = n + c.rng.gen_range(1..n.max(2));
            if domain.is_power_of_two() {
                domain += 1;
            }
            "domain that is no power of two"
        }
        5 => {
            layers = logs + c.rng.gen_range(1..4);
            "more layers than the domain can halve"
        }
        6 => {
            domain = 0;
            "empty domain"
        }
        7 => {
            domain = n << c.rng.gen_range(1..5);
            "trees smaller than the domain"
        }
        8 if logs >= 2 => {
            domain = 1 << c.rng.gen_range(1..logs);
            layers = layers.min(domain.ilog2() as usize);
            "trees larger than the domain"
        }
        _ => "proper",
    };
    // trees of constant functions of decreasing size
    let mut trees: Vec<Tree<G>> = vec![];
    for i in 0..layers {
        let size = (n >> i).max(2);
        match Tree::harvest(&vec![value; size]) {
            Some(t) => trees.push(t),
            None => {
                c.inconclusive("trees cannot be harvested");
                return;
            }
        }
    }
    let mut sponge = Sponge::<G>::new(coset, domain);
    #[allow(unused_mut)]
    let mut roots: Vec<G> = trees.iter().map(|t| t.root).collect();
    #[cfg(zkp_monitor)]
    if kind == 5 {
        // beyond the last halving, trees of one leaf
        roots.iter_mut().skip(logs).for_each(|r| *r = fri::monitor::hash(&value));
    }
    for r in &roots {
        sponge.root(*r);
    }
    let positions = sponge.positions(value, queries, domain.max(1));
    let mut list = vec![];
    for pos in positions.iter().take(number) {
        let mut d = empty();
        let mut size = domain;
        for t in &trees {
            let m = size.max(1);
            let len = t.values.len();
            let (a, b) = (pos % m, (pos % m + m / 2) % m);
            t.open(&mut d, false, a % len);
            t.open(&mut d, true, b % len);
            let i = d.auth_paths.len() - 1;
            d.auth_paths[i].index = a;
            d.sym_auth_paths[i].index = b;
            #[cfg(zkp_monitor)]
            if size < 2 && what == "more layers than the domain can halve" {
                one_leaf(&mut d.auth_paths[i]);
                one_leaf(&mut d.sym_auth_paths[i]);
            }
            size /= 2;
        }
        list.push(d);
    }
    let p = Proof {
        domain_size: domain,
        coset,
        number_of_queries: number,
        layers_root: roots,
        const_val: value,
        decommitment_list: list,
    };
    c.eval((what, show(&p)));
    c.count(what);
    c.sample(|| format!("{what}: domain {domain} trees from {n} layers {layers} queries {number}"));
    let got = accepted::<Sha256, G>(&p);
    if what == "proper" {
        if !got {
            c.inconclusive("the simulated proof of a constant function is not accepted");
        }
        return;
    }
    c.check(!got, &format!("accepts-parameters: {what}"), || show(&p));
}

fn c08_folds(c: &mut Case) {
    let len = if c.idx < 70 { c.idx as usize } else { c.rng.gen_range(0..100) };
    let coeffs: Vec<G> = (0..len)
        .map(|i| if i + 1 == len { nonzero(&mut c.rng) } else { any_field(&mut c.rng) })
        .collect();
    let blowup = c.rng.gen_range(1..9);
    let queries = c.rng.gen_range(1..4);
    let Ok(p) = guard(|| generate_proof::<Sha256, G>(poly(&coeffs), blowup, queries)) else {
        c.inconclusive("no honest proof");
        return;
    };
    c.eval((len, blowup));
    c.distinct("(length, folds, domain)", (len, p.layers_root.len(), p.domain_size));
    let bound = 1usize << p.layers_root.len();
    let desc = || format!("length {len} blow-up {blowup}: {} folds, domain {}", p.layers_root.len(), p.domain_size);
    c.sample(&desc);
    c.check(bound >= len, "too-few-folds", &desc);
    c.check(bound <= (2 * len).max(2), "too-many-folds", &desc);
    c.check(p.domain_size >= len * blowup && p.domain_size.is_power_of_two(), "domain-too-small", &desc);
    c.check(p.domain_size / bound >= blowup.next_power_of_two() / 2 || len < 2, "rate", &desc);
    c.check(
        p.number_of_queries == queries && p.decommitment_list.len() == queries,
        "queries-not-answered",
        &desc,
    );
}

/// Honest proofs open positions all over the domain
fn c08_coverage(c: &mut Case) {
    match c.idx % 3 {
        0 => coverage::<Fq>(c),
        1 => coverage::<Fr>(c),
        _ => coverage::<BabyBear>(c),
    }
}

fn coverage<F: PrimeField>(c: &mut Case) {
    let max = if c.thorough() { 17 } else { 14 };
    // all sizes, the larger ones more often
    let logn = if c.rng.gen() { c.rng.gen_range(9..max) } else { c.rng.gen_range(2..max) };
    let rounds = if c.thorough() { 40 } else { 14 };
    covered::<F>(c, logn, rounds)
}

/// Positions that need more than sixteen bits
fn c08_wide(c: &mut Case) {
    let logn = c.rng.gen_range(17..if c.thorough() { 20 } else { 19 });
    covered::<Fq>(c, logn, 2)
}

fn covered<F: PrimeField>(c: &mut Case, logn: u32, rounds: u64) {
    let n = 1usize << logn;
    let len = 1usize << c.rng.gen_range(1..4.min(logn));
    let coeffs: Vec<F> = (0..len).map(|_| nonzero(&mut c.rng)).collect();
    let coset = F::GENERATOR;
    let mut at: HashMap<String, usize> = HashMap::new();
    for i in 0..n {
        at.insert(hex(&horner(&coeffs, point(n, i, coset))), i);
    }
    if at.len() != n {
        c.inconclusive("a value occurs twice");
        return;
    }
    let pairs = n / 2;
    let mut hits = vec![0u32; pairs];
    let mut draws = vec![];
    let mut rows: Vec<Vec<usize>> = vec![];
    // multiples of the polynomial, which the table serves as well
    for k in 0..rounds {
        let factor = F::from(k + 1);
        let inv = factor.inverse().unwrap();
        let other: Vec<F> = coeffs.iter().map(|x| *x * factor).collect();
        let Ok(p) = guard(|| generate_proof::<Sha256, F>(poly(&other), n / len, 256)) else {
            c.inconclusive("no honest proof");
            return;
        };
        if p.domain_size != n {
            c.inconclusive("another domain than expected");
            return;
        }
        for d in &p.decommitment_list {
            let (Some(a), Some(b)) = (d.evaluations.first(), d.sym_evaluations.first()) else {
                c.inconclusive("nothing opened");
                return;
            };
            let (Some(i), Some(j)) = (at.get(&hex(&(*a * inv))), at.get(&hex(&(*b * inv)))) else {
                c.inconclusive("the opened values are not those of the polynomial");
                return;
            };
            c.check((i + pairs) % n == *j, "not-symmetric", || format!("positions {i} and {j} of {n}"));
            draws.push(i % pairs);
        }
        rows.push(draws[draws.len() - p.decommitment_list.len()..].to_vec());
    }
    unrelated(c, &rows, pairs);
    for i in &draws {
        hits[*i] += 1;
    }
    let q = draws.len() as f64;
    c.eval((F::MODULUS_BIT_SIZE, n, hexes(&coeffs)));
    c.distinct("(field, domain)", (F::MODULUS_BIT_SIZE, n));
    c.count_n("positions opened", draws.len() as u64);
    let distinct = hits.iter().filter(|h| **h > 0).count() as f64;
    let m = pairs as f64;
    let miss = (1.0 - 1.0 / m).powf(q);
    let expected = m * (1.0 - miss);
    // the variance is at most that of independent cells
    let sigma = (m * miss * (1.0 - miss)).sqrt();
    let desc = format!("{} bits, domain {n}: {distinct} of {pairs} pairs opened in {q} queries, expected {expected:.1}", F::MODULUS_BIT_SIZE);
    c.sample(|| desc.clone());
    c.check(distinct > expected - 9.0 * sigma - 3.0, "positions-not-covered", || desc.clone());
    for bit in 0..logn - 1 {
        let ones = draws.iter().filter(|i| **i >> bit & 1 == 1).count() as f64;
        c.check((ones - q / 2.0).abs() < 9.0 * q.sqrt() / 2.0, "position-bit-biased", || format!("bit {bit} is set in {ones} of {q}: {desc}"));
    }
}

/// No position of a proof is an earlier one moved by, or taken from, a fixed number: the
/// differences and sums of positions some queries apart are spread over the domain.
fn unrelated(c: &mut Case, rows: &[Vec<usize>], pairs: usize) {
    for lag in (1..9).chain([16, 32, 64, 128]) {
        for phase in 0..4 {
            let mut counts: [HashMap<usize, u32>; 2] = Default::default();
            let mut samples = 0u32;
            for row in rows {
                for k in (0..row.len().saturating_sub(lag)).filter(|k| phase > 1 || k % 2 == phase) {
                    // the last two: alternating runs as long as the lag
                    if phase > 1 && k / lag % 2 != phase - 2 {
                        continue;
                    }
                    samples += 1;
                    let (a, b) = (row[k], row[k + lag]);
                    *counts[0].entry((b + pairs - a) % pairs).or_default() += 1;
                    *counts[1].entry((a + b) % pairs).or_default() += 1;
                }
            }
            let mean = samples as f64 / pairs as f64;
            for (which, m) in ["difference", "sum"].iter().zip(&counts) {
                let (at, most) = m.iter().max_by_key(|e| e.1).map(|(k, v)| (*k, *v)).unwrap_or_default();
                c.count_n("pairs of positions compared", samples as u64);
                c.check((most as f64) < mean + 9.0 * mean.sqrt() + 20.0, "positions-related", || {
                    format!("the {which} of positions {lag} queries apart is {at} in {most} of {samples}, of {pairs} pairs")
                });
            }
        }
    }
}

/// Functions that agree with a low-degree polynomial except where one bit of the position is set
fn c08_hidden(c: &mut Case) {
    let logn: u32 = c.rng.gen_range(5..if c.thorough() { 12 } else { 11 });
    let n = 1usize << logn;
    let layers = c.rng.gen_range(1..3u32);
    let coset0 = <G as ark_ff::FftField>::GENERATOR;
    let good = low_degree::<G>(&mut c.rng, n, 1 << layers, coset0);
    // both members of a pair are wrong, or the bit is the one that tells them apart
    let bit = c.rng.gen_range(0..logn);
    let side = c.rng.gen_range(0..2);
    let mut v = good.clone();
    for (i, x) in v.iter_mut().enumerate() {
        if i >> bit & 1 == side {
            *x = rand_field(&mut c.rng);
        }
    }
    // wrong pairs fold to what the right ones do: later layers are those of the polynomial
    let mut sponge = Sponge::<G>::new(coset0, n);
    let mut trees = vec![];
    let mut coset = coset0;
    let mut next = good;
    for i in 0..layers {
        let Some(t) = Tree::harvest_part(if i == 0 { &v } else { &next }, 1) else {
            c.inconclusive("trees cannot be harvested");
            return;
        };
        let r = sponge.root(t.root);
        trees.push(t);
        next = fold_vector(&next, r, coset);
        coset = coset.square_();
    }
    let constant = next[0];
    let queries = 40;
    let positions = sponge.positions(constant, queries, n);
    let mut list = vec![];
    let mut wrong = 0;
    for pos in &positions {
        let mut d = empty();
        let pair = [*pos, (pos + n / 2) % n];
        wrong += pair.iter().any(|i| i >> bit & 1 == side) as usize;
        for (i, t) in trees.iter().enumerate() {
            let size = n >> i;
            for (sym, at) in [(false, pos % size), (true, (pos % size + size / 2) % size)] {
                if !t.at.contains_key(&at) {
                    // never opened by the honest prover: the cheat cannot be completed here
                    c.inconclusive("an opening was not harvested");
                    return;
                }
                t.open(&mut d, sym, at);
            }
        }
        list.push(d);
    }
    let p = Proof {
        domain_size: n,
        coset: coset0,
        number_of_queries: queries,
        layers_root: trees.iter().map(|t| t.root).collect(),
        const_val: constant,
        decommitment_list: list,
    };
    c.eval((n, bit, side, hex(&constant)));
    c.distinct("(domain, bit)", (n, bit));
    c.count_n("queries that meet a wrong value", wrong as u64);
    c.check(!accepted::<Sha256, G>(&p), "accepts-high-degree", || {
        format!("low degree except where bit {bit} of the position is {side}: domain {n}, {layers} layers, {wrong} of {queries} queries meet a wrong value")
    });
}

// ---------------------------------------------------------------- C09

fn c09_through_proofs(c: &mut Case) {
    let n = 1usize << c.rng.gen_range(1..6);
    let a: Vec<G> = (0..n).map(|_| any_field(&mut c.rng)).collect();
    let mut b = a.clone();
    let what = match c.rng.gen_range(0..4) {
        0 => {
            let k = c.rng.gen_range(0..n);
            b[k] += nonzero::<G>(&mut c.rng);
            "one leaf"
        }
        1 => {
            let (i, j) = (c.rng.gen_range(0..n), c.rng.gen_range(0..n));
            b.swap(i, j);
            "exchanged leaves"
        }
        2 => {
            b.rotate_left(1);
            "rotated leaves"
        }
        _ => {
            b.reverse();
            "reversed leaves"
        }
    };
    if a.iter().all(|x| *x == G::from(0u64)) || b.iter().all(|x| *x == G::from(0u64)) {
        return;
    }
    let (Some(ta), Some(tb)) = (Tree::harvest(&a), Tree::harvest(&b)) else {
        c.inconclusive("trees cannot be harvested");
        return;
    };
    c.eval((hexes(&a), hexes(&b)));
    c.sample(|| format!("{what}: {} and {}", hexes(&a), hexes(&b)));
    c.check((a == b) == (ta.root == tb.root), "roots", || {
        format!("{what}: {} and {}", hexes(&a), hexes(&b))
    });
    // every index of the tree has an accepted opening, and no other leaf opens there
    let layers = 1;
    let mut sponge = Sponge::<G>::new(<G as ark_ff::FftField>::GENERATOR, n);
    let value = nonzero::<G>(&mut c.rng);
    let Some(tree) = Tree::harvest(&vec![value; n]) else {
        return;
    };
    sponge.root(tree.root);
    let positions = sponge.positions(value, 8, n);
    let build = |f: &dyn Fn(&mut Decommitment<G>)| Proof {
        domain_size: n,
        coset: <G as ark_ff::FftField>::GENERATOR,
        number_of_queries: 8,
        layers_root: vec![tree.root; layers],
        const_val: value,
        decommitment_list: positions
            .iter()
            .map(|p| {
                let mut d = empty();
                tree.open(&mut d, false, *p);
                tree.open(&mut d, true, (p + n / 2) % n);
                f(&mut d);
                d
            })
            .collect(),
    };
    if !accepted::<Sha256, G>(&build(&|_| {})) {
        c.inconclusive("the simulated proof of a constant function is not accepted");
        return;
    }
    c.count("openings accepted");
    // the same value from another position of the tree, relabelled
    let p = build(&|d| {
        let i = d.auth_paths[0].index;
        let mut other = empty();
        tree.open(&mut other, false, i ^ 1);
        d.auth_paths[0] = other.auth_paths[0].clone();
        d.auth_paths[0].index = i;
    });
    c.eval(("relabelled", n, hex(&value)));
    // siblings of equal leaves are equal: the path of i^1 is that of i
    let _ = accepted::<Sha256, G>(&p);
    let other = value + nonzero::<G>(&mut c.rng);
    let p = build(&|d| {
        for (e, p) in d.evaluations.iter_mut().zip(d.auth_paths.iter_mut()) {
            *e = other;
            p.leaf_val = other;
        }
        for (e, p) in d.sym_evaluations.iter_mut().zip(d.sym_auth_paths.iter_mut()) {
            *e = other;
            p.leaf_val = other;
        }
    });
    let p = Proof { const_val: other, ..p };
    c.eval(("other leaf", n, hex(&other)));
    c.check(!accepted::<Sha256, G>(&p), "opens-another-leaf", || {
        format!("{} instead of {} in a tree of {n}", hex(&other), hex(&value))
    });
}

#[cfg(zkp_monitor)]
mod direct {
    use super::*;
    use fri::monitor::{hash, hash_slice, path_and_root, verify_merkle_proof, MerkleTree};

    fn leaves<F: PrimeField>(rng: &mut StdRng) -> Vec<F> {
        let n = match rng.gen_range(0..40) {
            0 => rng.gen_range(40..300),
            1..=10 => 1 << rng.gen_range(0..6),
            _ => rng.gen_range(1..40),
        };
        let style = rng.gen_range(0..3);
        (0..n)
            .map(|i| match style {
                0 => any_field(rng),
                1 => F::from(i as u64 / 2),
                _ => F::rand(rng),
            })
            .collect()
    }

    fn paths<F: PrimeField>(c: &mut Case) {
        let l: Vec<F> = leaves(&mut c.rng);
        let padded = l.len().next_power_of_two();
        let Ok(tree) = guard(|| MerkleTree::new(l.clone())) else {
            c.violation("tree-panics", hexes(&l));
            return;
        };
        c.sample(|| hexes(&l));
        c.maximum("number of leaves", l.len() as u64);
        for i in 0..padded {
            if l.len() == 1 {
                c.eval_trivial();
            } else {
                c.eval((i, hexes(&l)));
            }
            let value = l.get(i).copied().unwrap_or(F::zero());
            match guard(|| {
                let mut p = tree.generate_proof(i);
                let ok = verify_merkle_proof(&p);
                let root = *path_and_root(&mut p).1;
                (p.index == i, p.leaf_val == value, root == tree.root(), ok)
            }) {
                Ok(r) => {
                    c.check(r == (true, true, true, true), "honest-path", || {
                        format!("(index, leaf, root, verifies) = {r:?} at {i} of {}", hexes(&l))
                    });
                }
                Err(p) => c.violation("path-panics", format!("{p:?} at {i} of {}", hexes(&l))),
            }
        }
    }

    pub fn c09_paths(c: &mut Case) {
        if c.idx % 3 == 0 {
            paths::<Fr>(c)
        } else {
            paths::<Fq>(c)
        }
    }

    fn altered<F: PrimeField>(c: &mut Case) {
        let l: Vec<F> = leaves(&mut c.rng);
        let padded = l.len().next_power_of_two();
        let i = c.rng.gen_range(0..padded);
        let tree = MerkleTree::new(l.clone());
        let mut p = tree.generate_proof(i);
        let value = p.leaf_val;
        let delta: F = nonzero(&mut c.rng);
        let depth = padded.ilog2() as usize;
        let other = tree.generate_proof(c.rng.gen_range(0..padded));
        let k = c.rng.gen_range(0..depth.max(1));
        let (kind, choose) = (c.rng.gen_range(0..9), c.rng.gen_range(0..3));
        let what = match kind {
            0 => {
                shift(&mut p.leaf_val, delta);
                "leaf"
            }
            1 => {
                // an index that the path cannot tell from i is one beyond the tree
                p.index = if depth == 0 { 0 } else { (i + c.rng.gen_range(1..padded)) % padded };
                "index"
            }
            2 if depth > 0 => {
                path_and_root(&mut p).0[k] += delta;
                "sibling"
            }
            3 => {
                *path_and_root(&mut p).1 += delta;
                "root"
            }
            4 if depth > 1 => {
                let h = path_and_root(&mut p).0;
                let j = (k + 1) % depth;
                h.swap(k, j);
                "exchanged siblings"
            }
            5 if depth > 0 => {
                path_and_root(&mut p).0.pop();
                "short path"
            }
            6 => {
                path_and_root(&mut p).0.push(delta);
                "long path"
            }
            7 => {
                p.leaf_val = other.leaf_val;
                "leaf of another index"
            }
            _ => {
                // an inner node presented as a leaf of a shorter path
                let h = path_and_root(&mut p).0.clone();
                if let Some(s) = h.first() {
                    let node = if i % 2 == 0 {
                        hash_slice(&[hash(&value), *s])
                    } else {
                        hash_slice(&[*s, hash(&value)])
                    };
                    let (hashes, _) = path_and_root(&mut p);
                    hashes.remove(0);
                    p.leaf_val = match choose {
                        0 => node,
                        1 => *s,
                        _ => hash(&value),
                    };
                    p.index = i / 2;
                }
                "inner node as leaf"
            }
        };
        // the altered path may be the path of its index after all
        let mut same = p.clone();
        let unchanged = p.index < padded && {
            let mut q = tree.generate_proof(p.index);
            q.leaf_val == p.leaf_val
                && *path_and_root(&mut q).0 == *path_and_root(&mut same).0
                && *path_and_root(&mut q).1 == *path_and_root(&mut same).1
        };
        c.eval((what, show(&p)));
        c.count(what);
        c.sample(|| format!("{what}: {p:?}"));
        match guard(|| verify_merkle_proof(&p)) {
            Ok(got) => {
                c.check(got == unchanged, &format!("altered-path: {what}"), || {
                    format!("verifies: {got}, leaf {value} at {i} of {}: {p:?}", hexes(&l))
                });
            }
            Err(e) => c.violation("path-panics", format!("{what} {e:?} {p:?}")),
        }
    }

    pub fn c09_altered(c: &mut Case) {
        if c.idx % 3 == 0 {
            altered::<Fr>(c)
        } else {
            altered::<Fq>(c)
        }
    }

    /// Lists of elements that an encoding without fixed widths could write with the same bytes or
    /// digits: one string, cut in different places
    fn same_string<F: PrimeField>(c: &mut Case) {
        let most = F::MODULUS_BIT_SIZE as usize / 8;
        let n = c.rng.gen_range(2..=2 * most);
        let mut bytes: Vec<u8> = (0..n).map(|_| c.rng.gen_range(1..=255)).collect();
        if c.rng.gen_bool(0.2) {
            let k = c.rng.gen_range(0..n);
            bytes[k] = 0;
        }
        let style = c.rng.gen_range(0..4);
        let value = |b: &[u8]| match style {
            0 => F::from_le_bytes_mod_order(b),
            1 => F::from_be_bytes_mod_order(b),
            // decimal or hexadecimal digits
            2 => b.iter().fold(F::zero(), |x, d| x * F::from(10u64) + F::from(*d as u64 % 10)),
            _ => b.iter().fold(F::zero(), |x, d| x * F::from(16u64) + F::from(*d as u64 % 16)),
        };
        let mut lists: Vec<Vec<F>> = (n.saturating_sub(most).max(1)..=most.min(n - 1))
            .map(|cut| vec![value(&bytes[..cut]), value(&bytes[cut..])])
            .collect();
        if n <= most {
            lists.push(vec![value(&bytes)]);
        }
        lists.sort();
        lists.dedup();
        let all: Result<Vec<F>, _> = guard(|| lists.iter().map(|l| hash_slice(l)).collect());
        c.eval(("string", style, show(&bytes)));
        c.count_n("cuts of a string compared", lists.len() as u64);
        match all {
            Ok(mut all) => {
                all.sort();
                all.dedup();
                c.check(all.len() == lists.len(), "pair-hash-ambiguous", || {
                    format!("{} hashes of {}", all.len(), lists.iter().map(|l| hexes(l)).collect::<Vec<_>>().join(" and "))
                });
            }
            Err(p) => c.violation("hash-panics", format!("{p:?}")),
        }
    }

    fn padded<F: PrimeField>(mut l: Vec<F>) -> Vec<F> {
        l.resize(l.len().next_power_of_two(), F::zero());
        l
    }

    fn roots<F: PrimeField>(c: &mut Case) {
        let a: Vec<F> = leaves(&mut c.rng);
        let mut b = a.clone();
        let what = match c.rng.gen_range(0..8) {
            0 => {
                let k = c.rng.gen_range(0..b.len());
                b[k] += nonzero::<F>(&mut c.rng);
                "one leaf"
            }
            1 => {
                let (i, j) = (c.rng.gen_range(0..b.len()), c.rng.gen_range(0..b.len()));
                b.swap(i, j);
                "exchanged"
            }
            2 => {
                b.pop();
                "dropped"
            }
            3 => {
                b.push(F::zero());
                "zero appended"
            }
            4 => {
                b.extend(a.clone());
                "doubled"
            }
            5 => {
                // digits moved from one leaf to its neighbour
                let x = c.rng.gen_range(1u64..1000);
                let y = c.rng.gen_range(10u64..1000);
                let s = format!("{x}{y}");
                let cut = c.rng.gen_range(1..s.len());
                let (p, q) = s.split_at(cut);
                let a2: Vec<F> = vec![F::from(x), F::from(y)];
                let b2: Vec<F> = vec![F::from(p.parse::<u64>().unwrap()), F::from(q.parse::<u64>().unwrap())];
                c.eval(("digits", hexes(&a2), hexes(&b2)));
                c.check((hash_slice(&a2) == hash_slice(&b2)) == (a2 == b2), "pair-hash-ambiguous", || {
                    format!("{} and {}", hexes(&a2), hexes(&b2))
                });
                c.check(hash_slice(&a2) != hash_slice(&[a2[1], a2[0]]) || x == y, "pair-hash-symmetric", || hexes(&a2));
                b = b2;
                "other list"
            }
            6 => {
                // the tree of the nodes of the first level
                if a.len() < 2 {
                    return;
                }
                b = padded(a.clone())
                    .chunks(2)
                    .map(|p| hash_slice(&[hash(&p[0]), hash(&p[1])]))
                    .collect();
                "nodes as leaves"
            }
            _ => {
                b = leaves(&mut c.rng);
                "other list"
            }
        };
        if b.is_empty() {
            return;
        }
        c.eval((what, hexes(&a), hexes(&b)));
        c.count(what);
        c.sample(|| format!("{what}: {} and {}", hexes(&a), hexes(&b)));
        match guard(|| MerkleTree::new(a.clone()).root() == MerkleTree::new(b.clone()).root()) {
            Ok(same) => {
                let want = padded(a.clone()) == padded(b.clone());
                c.check(same == want, "roots", || {
                    format!("{what}: equal {same} for {} and {}", hexes(&a), hexes(&b))
                });
            }
            Err(p) => c.violation("tree-panics", format!("{p:?}")),
        }
    }

    pub fn c09_roots(c: &mut Case) {
        if c.idx % 3 == 0 {
            same_string::<Fr>(c);
            roots::<Fr>(c)
        } else {
            same_string::<Fq>(c);
            roots::<Fq>(c)
        }
    }

    /// Trees of every length in turn: all paths, and the root against that of the list with the
    /// last leaf, or one more leaf, altered
    pub fn c09_lengths(c: &mut Case) {
        let n = 1 + c.idx as usize;
        let mut l: Vec<Fq> = (0..n).map(|_| rand_field(&mut c.rng)).collect();
        c.eval(("length", hexes(&l)));
        c.maximum("number of leaves", n as u64);
        let r = guard(|| {
            let tree = MerkleTree::new(l.clone());
            let root = tree.root();
            let bad = (0..n.next_power_of_two()).find(|i| {
                let mut p = tree.generate_proof(*i);
                let leaf = l.get(*i).copied().unwrap_or(Fq::from(0u64));
                !(verify_merkle_proof(&p) && p.index == *i && p.leaf_val == leaf && *path_and_root(&mut p).1 == root)
            });
            (bad, root)
        });
        let Ok((bad, root)) = r else {
            c.violation("tree-panics", format!("{n} leaves"));
            return;
        };
        c.check(bad.is_none(), "honest-path", || format!("index {bad:?} of {n} leaves"));
        let mut roots = vec![root];
        // one leaf altered: the last, or any
        for k in [n - 1, 0, c.rng.gen_range(0..n)] {
            let old = l[k];
            l[k] += nonzero::<Fq>(&mut c.rng);
            roots.extend(guard(|| MerkleTree::new(l.clone()).root()));
            l[k] = old;
        }
        let mut longer = l.clone();
        longer.push(nonzero(&mut c.rng));
        roots.extend(guard(|| MerkleTree::new(longer).root()));
        if l[n - 1] != Fq::from(0u64) {
            // the last leaf repeated in place of the filling
            let mut filled = l.clone();
            filled.resize(n.next_power_of_two() * 2, l[n - 1]);
            roots.extend(guard(|| MerkleTree::new(filled.clone()).root()));
            if !n.is_power_of_two() {
                filled.truncate(n.next_power_of_two());
                roots.extend(guard(|| MerkleTree::new(filled).root()));
            }
        }
        let rest = &roots[1..];
        c.check(!rest.contains(&root), "roots", || format!("{n} leaves: another list has the same root"));
    }
}

// ---------------------------------------------------------------- C10

/// Index of the digest a value was drawn from, and how many values later
fn find_draw<F: PrimeField>(log: &[crate::rec::Entry], value: F) -> Option<usize> {
    log.iter().position(|e| draws::<F>(&e.output, 4).contains(&value))
}

fn find_positions<F: PrimeField>(log: &[crate::rec::Entry], positions: &[usize], domain: usize) -> Option<usize> {
    // enough positions to be sure
    if positions.len() * (domain.ilog2() as usize) < 40 {
        return None;
    }
    log.iter().position(|e| {
        let v = draws::<F>(&e.output, positions.len());
        v.iter()
            .zip(positions)
            .all(|(v, p)| (v.into_bigint().as_ref()[0] as usize) % domain == *p)
    })
}

fn c10_dependencies(c: &mut Case) {
    if c.idx % 4 == 0 {
        dependencies::<Fr>(c, 12)
    } else {
        dependencies::<Fq>(c, 40)
    }
}

fn dependencies<F: PrimeField>(c: &mut Case, max_len: usize) {
    let len = c.rng.gen_range(3..max_len);
    let coeffs: Vec<F> = (0..len).map(|_| F::rand(&mut c.rng)).collect();
    let blowup = c.rng.gen_range(1..4);
    let domain_log = (len * blowup).next_power_of_two().ilog2() as usize;
    let queries = 60usize.div_ceil(domain_log);
    let Some(h) = honest::<Rec11, F>(&coeffs, blowup, queries) else {
        c.inconclusive("no honest proof");
        return;
    };
    let p = &h.proof;
    let (r, log) = recorded(|| accepts::<Rec11, F>(p));
    if !matches!(r, Ok(true)) {
        c.inconclusive("honest proof not accepted");
        return;
    }
    c.count_n("digests recorded", log.len() as u64);
    let layers = p.layers_root.len();
    let mut challenge: Vec<(String, Option<usize>)> = (0..layers)
        .map(|i| (format!("folding challenge {i}"), h.r[i].and_then(|r| find_draw(&log, r))))
        .collect();
    challenge.push((
        "query positions".into(),
        find_positions::<F>(&log, &h.positions[..queries], p.domain_size),
    ));
    for (name, k) in &challenge {
        if k.is_none() {
            c.inconclusive(format!("{}: not drawn from a recorded digest", name.trim_end_matches(|c: char| c.is_numeric())));
        } else {
            c.count("challenges located in the log");
        }
    }
    // a later challenge drawn from the same digest as an earlier one depends on nothing new
    let mut altered: Vec<(String, Proof<F>, usize)> = vec![];
    for j in 0..layers {
        let mut q = p.clone();
        q.layers_root[j] += nonzero::<F>(&mut c.rng);
        altered.push((format!("root {j}"), q, j));
    }
    let mut q = p.clone();
    q.const_val += nonzero::<F>(&mut c.rng);
    altered.push(("constant".into(), q, layers));
    // the parameters are part of the statement: every challenge comes after them
    let mut q = p.clone();
    q.coset += nonzero::<F>(&mut c.rng);
    if q.coset != F::zero() {
        altered.push(("coset".into(), q, 0));
    }
    let mut q = p.clone();
    q.domain_size *= 2;
    altered.push(("domain size".into(), q, 0));
    for (message, q, from) in altered {
        let (_, log2) = recorded(|| accepts::<Rec11, F>(&q));
        let first = log
            .iter()
            .zip(&log2)
            .position(|(a, b)| a.output != b.output)
            .or(if log2.len() < log.len() { None } else { Some(usize::MAX) });
        for (i, (name, k)) in challenge.iter().enumerate() {
            if i < from {
                continue;
            }
            let Some(k) = k else { continue };
            // every altered run has to reach the digest to tell
            if log2.len() <= *k && first.is_none() {
                c.inconclusive("the altered run ends before the challenge");
                continue;
            }
            c.eval((message.clone(), name.clone(), hexes(&coeffs)));
            c.sample(|| format!("{message} absorbed at digest {first:?}, {name} drawn at {k}"));
            let depends = match first {
                Some(f) => f <= *k,
                None => false,
            };
            c.check(depends, &format!("independent: {} of {}", generic(name), generic(&message)), || {
                format!("{name} (digest {k}) does not depend on {message} (digest {first:?}); {len} coefficients, blow-up {blowup}")
            });
        }
    }
}

fn generic(s: &str) -> String {
    s.trim_end_matches(|c: char| c.is_numeric()).trim().to_string()
}

fn c10_histories(c: &mut Case) {
    #[derive(Clone, Debug)]
    enum Op {
        Digest(Fq),
        One,
        Many(usize),
    }
    let start: Fq = any_field(&mut c.rng);
    let long = c.idx % 12 == 0;
    let n = if long { c.rng.gen_range(8..150) } else { c.rng.gen_range(1..8) };
    c.maximum("messages in one history", n as u64);
    let mut ops: Vec<Op> = vec![];
    for _ in 0..n {
        ops.push(Op::Digest(any_field(&mut c.rng)));
        match c.rng.gen_range(0..4) {
            0 => ops.push(Op::One),
            1 => ops.push(Op::Many(c.rng.gen_range(1..4))),
            _ => {}
        }
    }
    ops.push(Op::Digest(any_field(&mut c.rng)));
    let run = |start: Fq, ops: &[Op]| {
        guard(|| {
            let mut t = Transcript::<Sha256, Fq>::new(start);
            let mut out = vec![];
            for op in ops {
                match op {
                    Op::Digest(x) => t.digest(*x),
                    Op::One => out.push(t.generate_a_challenge()),
                    Op::Many(n) => out.extend(t.generate_challenges(*n)),
                }
            }
            (out, t.generate_a_challenge())
        })
    };
    let a = run(start, &ops);
    let Ok((mids, last)) = a.clone() else {
        c.violation("transcript-panics", format!("{a:?} on {ops:?}"));
        return;
    };
    c.eval((hex(&start), show(&ops)));
    c.sample(|| show(&ops));
    // all challenges of one history are different values
    let mut drawn: Vec<Fq> = mids.iter().copied().chain([last]).collect();
    let number = drawn.len();
    drawn.sort();
    drawn.dedup();
    c.count_n("challenges of histories compared", number as u64);
    c.check(drawn.len() == number, "equal-challenges", || format!("{} different of {number} challenges on {ops:?}", drawn.len()));
    c.check(run(start, &ops).ok() == Some((mids, last)), "transcript-not-deterministic", || show(&ops));
    // one edit of the history
    let mut edited = ops.clone();
    let mut s2 = start;
    let k = c.rng.gen_range(0..ops.len());
    let what = match c.rng.gen_range(0..6) {
        0 => {
            s2 += nonzero::<Fq>(&mut c.rng);
            "other start"
        }
        1 => {
            edited.insert(k, Op::Digest(any_field(&mut c.rng)));
            "inserted"
        }
        2 => {
            edited.retain({
                let mut i = 0;
                move |op| {
                    i += 1;
                    i != k + 1 || !matches!(op, Op::Digest(_))
                }
            });
            "dropped"
        }
        3 => {
            if let Op::Digest(x) = &mut edited[k] {
                *x += nonzero::<Fq>(&mut c.rng);
            }
            "changed"
        }
        4 => {
            // digits moved between neighbours
            edited = vec![Op::Digest(Fq::from(12u64)), Op::Digest(Fq::from(3u64))];
            let b = vec![Op::Digest(Fq::from(1u64)), Op::Digest(Fq::from(23u64))];
            let (x, y) = (run(start, &edited), run(start, &b));
            c.check(x.map(|r| r.1).ok() != y.map(|r| r.1).ok(), "transcript-ambiguous", || "12,3 and 1,23".into());
            "other history"
        }
        _ => {
            let j = c.rng.gen_range(0..ops.len());
            edited.swap(k, j);
            "exchanged"
        }
    };
    let messages = |s: Fq, o: &[Op]| {
        let mut v = vec![s];
        v.extend(o.iter().filter_map(|o| match o {
            Op::Digest(x) => Some(*x),
            _ => None,
        }));
        v
    };
    if messages(start, &ops) != messages(s2, &edited) {
        if let Ok((_, l2)) = run(s2, &edited) {
            c.eval((hex(&s2), show(&edited)));
            c.count(what);
            c.check(l2 != last, &format!("history-lost: {what}"), || {
                format!("{ops:?} and {edited:?} end in the same challenge")
            });
        }
    }
    // a second draw without new input
    let again = guard(|| {
        let mut t = Transcript::<Sha256, Fq>::new(start);
        for op in &ops {
            if let Op::Digest(x) = op {
                t.digest(*x)
            }
        }
        let a = t.generate_a_challenge();
        let b = t.generate_a_challenge();
        (a, b)
    });
    c.check(again.is_err(), "draws-twice", || format!("{again:?}"));
    // several challenges at once are different
    let many = guard(|| {
        let mut t = Transcript::<Sha256, Fq>::new(start);
        t.generate_challenges(6 + 100 * long as usize)
    });
    if let Ok(m) = many {
        let mut d = m.clone();
        d.sort();
        d.dedup();
        c.check(d.len() == m.len() && m.len() == 6 + 100 * long as usize, "equal-challenges", || hexes(&m));
    }
}

/// The first folding challenge would be known before the first root is chosen: a random function
/// that folds into a constant under each value that any run could have drawn by then
fn c10_known_challenge(c: &mut Case) {
    let n = 1usize << c.rng.gen_range(2..5);
    let coset = <G as ark_ff::FftField>::GENERATOR;
    // digests that do not depend on the first root
    let proof_with = |root: G, value: G| Proof::<G> {
        domain_size: n,
        coset,
        number_of_queries: 1,
        layers_root: vec![root],
        const_val: value,
        decommitment_list: vec![],
    };
    let mut outputs: Vec<Vec<u8>> = vec![];
    let runs: Vec<_> = (0..2)
        .map(|_| {
            let v: Vec<G> = random_vector(&mut c.rng, n);
            let Some(t) = Tree::harvest(&v) else { return vec![] };
            let mut p = proof_with(t.root, v[0]);
            let mut d = empty();
            t.open(&mut d, false, 0);
            t.open(&mut d, true, n / 2);
            p.decommitment_list = vec![d];
            recorded(|| accepts::<Rec11, G>(&p)).1
        })
        .collect();
    if runs.iter().any(|r| r.is_empty()) {
        c.inconclusive("no digests recorded");
        return;
    }
    for e in &runs[0] {
        if runs[1].iter().any(|f| f.output == e.output) {
            outputs.push(e.output.clone());
        }
    }
    c.count_n("digests known in advance", outputs.len() as u64);
    let mut candidates: Vec<G> = vec![G::from(0u64), G::from(1u64), G::from(7u64)];
    for o in &outputs {
        candidates.extend(draws::<G>(o, 3));
    }
    for r in candidates {
        let value: G = rand_field(&mut c.rng);
        let mut v = vec![G::from(0u64); n];
        for i in 0..n / 2 {
            let w = point(n, i, coset);
            if r == w {
                continue;
            }
            let e: G = rand_field(&mut c.rng);
            // (r+w)e/(2w) - (r-w)s/(2w) = value
            let s = ((r + w) * e - (w + w) * value) / (r - w);
            v[i] = e;
            v[i + n / 2] = s;
        }
        let Some(t) = Tree::harvest(&v) else { continue };
        let Some(positions) = (|| {
            let mut sponge = Sponge::<G>::new(coset, n);
            sponge.root(t.root);
            Some(sponge.positions(value, 10, n))
        })() else {
            continue;
        };
        let mut p = proof_with(t.root, value);
        p.number_of_queries = 10;
        for pos in positions {
            let mut d = empty();
            t.open(&mut d, false, pos);
            t.open(&mut d, true, (pos + n / 2) % n);
            p.decommitment_list.push(d);
        }
        c.eval(show(&p));
        c.sample(|| format!("assumed challenge {} domain {n}", hex(&r)));
        c.check(!accepted::<Sha256, G>(&p), "known-challenge", || {
            format!("a random function is accepted with the challenge {} known in advance: {}", hex(&r), show(&p))
        });
    }
}

/// Prover and verifier draw the same values, from the same history, for every hash
fn c10_agreement(c: &mut Case) {
    let len = c.rng.gen_range(3..40);
    let coeffs: Vec<Fq> = (0..len).map(|_| rand_field(&mut c.rng)).collect();
    let blowup = c.rng.gen_range(1..4);
    let queries = c.rng.gen_range(1..10);
    let (p, plog) = recorded(|| guard(|| generate_proof::<Rec11, Fq>(poly(&coeffs), blowup, queries)));
    let Ok(p) = p else {
        c.inconclusive("no honest proof");
        return;
    };
    let (r, vlog) = recorded(|| accepts::<Rec11, Fq>(&p));
    c.eval((hexes(&coeffs), blowup, queries));
    c.check(matches!(r, Ok(true)), "no-agreement", || format!("{r:?} {len} coefficients"));
    // nothing but the proof enters the verifier's history: the prover's digests are the same
    let a: Vec<_> = plog.iter().map(|e| e.output.clone()).collect();
    let b: Vec<_> = vlog.iter().map(|e| e.output.clone()).collect();
    c.count_n("digests shared", b.iter().filter(|x| a.contains(x)).count() as u64);
    if p.layers_root.len() > 1 {
        // the challenges of different layers are different values
        if let Some(h) = honest::<Rec11, Fq>(&coeffs, blowup, queries) {
            let v: Vec<Fq> = h.r.iter().flatten().copied().collect();
            let mut d = v.clone();
            d.sort();
            d.dedup();
            c.check(d.len() == v.len(), "equal-folding-challenges", || hexes(&v));
            // and those of another polynomial are different, too
            let mut other = coeffs.clone();
            other[0] += nonzero::<Fq>(&mut c.rng);
            if let Some(h2) = honest::<Rec11, Fq>(&other, blowup, queries) {
                for (i, (x, y)) in h.r.iter().zip(&h2.r).enumerate() {
                    if let (Some(x), Some(y)) = (x, y) {
                        c.check(x != y, "challenge-repeats", || format!("folding challenge {i} is the same for another polynomial"));
                    }
                }
            }
        }
    }
}

/// Challenges have to take at least eight bytes of the digest, and different messages have to
/// lead to different challenges.
fn c10_entropy(c: &mut Case) {
    fn challenge<T: digest_11::Digest + Default, F: PrimeField>(k: F, list: bool) -> Result<F, String> {
        guard(|| {
            let mut t = Transcript::<T, F>::new(k);
            t.digest(k);
            if list {
                t.generate_challenges(2)[1]
            } else {
                t.generate_a_challenge()
            }
        })
        .map_err(|e| e.msg)
    }
    fn run<F: PrimeField>(c: &mut Case, list: bool) {
        let mut bytes = 0;
        for k in 0..32 {
            set_mask(k);
            let mut seen = HashSet::new();
            for j in 0..24u64 {
                match challenge::<Mask11, F>(F::from(j), list) {
                    Ok(v) => {
                        seen.insert(v);
                    }
                    Err(e) => return c.violation("entropy-panics", e),
                }
            }
            c.eval(("byte", c.idx, k));
            if seen.len() > 3 {
                bytes += 1;
            }
        }
        set_mask(0);
        c.maximum("digest bytes used by the transcript", bytes);
        c.check(bytes >= 8, "digest-cut-short", || format!("challenges depend on {bytes} bytes of the digest only"));
        // 34 bits of pairs: a seed of 32 bits or less collides
        let n = if c.thorough() { 1u64 << 21 } else { 1 << 17 };
        let start: u64 = c.rng.gen_range(0..1 << 40);
        let mut seen = std::collections::HashMap::new();
        for j in 0..n {
            let Ok(v) = challenge::<sha2_11::Sha256, F>(F::from(start + j), list) else { return };
            if let Some(o) = seen.insert(v, j) {
                return c.violation(
                    "challenges-collide",
                    format!("the messages {} and {} lead to one challenge", start + o, start + j),
                );
            }
        }
        c.eval(("collisions", start));
        c.count_n("challenges without collision", n);
    }
    match c.idx % 4 {
        0 => run::<Fq>(c, false),
        1 => run::<Fq>(c, true),
        2 => run::<Fr>(c, false),
        _ => run::<Fr>(c, true),
    }
}
