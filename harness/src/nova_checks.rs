//! C21-C27: relaxed R1CS, folding, incremental computations and their transcripts.
use ark_bls12_381::{Fq, Fr, G1Affine};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{BigInteger, Field, One, PrimeField, UniformRand, Zero};
use digest::Digest;
use kzg::commitment::KzgCommitment;
use kzg::opening::KzgOpening;
use nova::circuit::{AugmentedCircuit, FCircuit, State};
use nova::ivc::{IVCProof, ZkIVCProof, IVC};
use nova::nifs::{NIFSProof, NIFS};
use nova::r1cs::{create_trivial_pair, is_r1cs_satisfied, FInstance, FWitness};
use nova::transcript::Transcript;
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::Rng;
use sha2::{Sha256, Sha384, Sha512};

use crate::common::*;
use crate::core::*;
use crate::nova_model::*;
use crate::rec::*;

pub static PROPERTIES: &[Property] = &[
    Property {
        id: "C21",
        rule: "A case draws a structure (rows independent of columns, sparse or dense, repeated and empty rows), a pair (strict, relaxed, trivial) and alterations of entries, errors, commitments, sizes, single rows and compensating rows; oracle: a separate row-by-row evaluation and commitments from the secret. Non-trivial: the structure has a non-zero row.",
        assumptions: &["arkworks field and group arithmetic is right"],
        groups: &[
            Group { name: "decide", quick: 2700, run: c21_decide },
            Group { name: "trivial", quick: 600, run: c21_trivial },
            Group { name: "algebra", quick: 600, run: c21_algebra },
        ],
    },
    Property {
        id: "C22",
        rule: "A case folds satisfying pairs of a random structure in a sequence or tree (strict, relaxed, trivial and folded ones), on fresh or continuing transcripts, under several hashes; oracle: a separate linear combination with the returned challenge, the reference satisfaction check, and acceptance of the folding proof.",
        assumptions: &["arkworks field and group arithmetic is right"],
        groups: &[
            Group { name: "sequences", quick: 540, run: c22_sequences },
            Group { name: "trees", quick: 180, run: c22_trees },
        ],
    },
    Property {
        id: "C23",
        rule: "A case is an honest folding proof and its alterations, or a forgery in which one component is chosen after the challenge, with openings made from the secret at whatever point the verifier derives (learned from its hash log); accepted forgeries and rejected honest proofs are violations. The control, an honest statement proved by the same forger, must be accepted, or the case is inconclusive.",
        assumptions: &["arkworks field, group and pairing arithmetic is right", "a false openings check passing by chance has negligible probability"],
        groups: &[
            Group { name: "altered", quick: 120, run: c23_altered },
            Group { name: "adaptive", quick: 120, run: c23_adaptive },
            Group { name: "wrong-fold", quick: 120, run: c23_wrong_fold },
            Group { name: "unsatisfied", quick: 120, run: c23_unsatisfied },
        ],
    },
    Property {
        id: "C24",
        rule: "A case runs a chain: random structure, step function, initial state, witnesses, hash function and length; oracle at every step: plain iteration of the step function, reference fold of the running instance, state hash of step, states and running instance, and acceptance of every proof.",
        assumptions: &["the monitored step functions are deterministic"],
        groups: &[
            Group { name: "chains", quick: 720, run: c24_chains },
            Group { name: "long", quick: 12, run: c24_long },
            Group { name: "resumed", quick: 240, run: c24_resumed },
        ],
    },
    Property {
        id: "C25",
        rule: "A case takes accepted proofs of all steps of one or two chains, and alters, omits, swaps or replays their parts and the verifier's step and states, or makes a consistent proof for a non-fresh instance; every one must be rejected. A consistent proof for a state that was not reached is recorded as a finding.",
        assumptions: &["arkworks field, group and pairing arithmetic is right"],
        groups: &[
            Group { name: "altered", quick: 48, run: c25_altered },
            Group { name: "replayed", quick: 48, run: c25_replayed },
            Group { name: "forged", quick: 180, run: c25_forged },
            Group { name: "base", quick: 240, run: c25_base },
        ],
    },
    Property {
        id: "C26",
        rule: "A case drives the augmented circuit with a random history of correct steps, repeated steps, incorrect steps of every kind and advances; oracle: a model of its fields, compared after every call.",
        assumptions: &[],
        groups: &[Group { name: "histories", quick: 3000, run: c26_histories }],
    },
    Property {
        id: "C27",
        rule: "A case is a message sequence and its one-message edits (changed, dropped, added, duplicated, swapped, kind changed), or state-hash arguments and their one-component edits, for several hash functions; all later challenges, or hashes, must differ, and repetition must give equal ones.",
        assumptions: &["two equal 64-bit challenge seeds are not chance"],
        groups: &[
            Group { name: "transcript", quick: 1200, run: c27_transcript },
            Group { name: "hash", quick: 1200, run: c27_hash },
            Group { name: "entropy", quick: 4, run: c27_entropy },
        ],
    },
];

// ---------------------------------------------------------------- C21

fn verdict(c: &mut Case, st: &nova::r1cs::R1CS<Fr>, p: &Pair, k: &Known, what: &str, desc: &dyn Fn() -> String) {
    let expected = satisfied(st, &p.u, &p.w, k);
    let got = guard(|| is_r1cs_satisfied(st, &p.u, &p.w, &k.scheme).is_ok());
    c.eval((what, expected, hex(&p.u.u), hexes(&p.w.w), hexes(&p.w.e), hexes(&p.u.x)));
    match got {
        Ok(ok) => {
            c.count(&format!("{} {}", if ok { "satisfied" } else { "not satisfied" }, what));
            c.check(ok == expected, if ok { "unsatisfied-accepted" } else { "satisfied-rejected" }, || {
                format!("{what}: expected {expected}, got {ok}: {}", desc())
            });
        }
        // a deliberate refusal of what is not satisfied, like a vector that does not fit the string
        Err(e) if !expected && !e.is_instrumentation() => c.count("refused by a panic"),
        Err(e) => c.violation("check-panics", format!("{what}: expected {expected}: {} at {}: {}", e.msg, e.at, desc())),
    }
}

/// Numbers of inputs and of variables: mostly small, sometimes larger than any of the fixed sizes
/// that code may have in mind
/// Now and then a wide one; the widths of those are gone through one after another.
fn any_structure(c: &mut Case, min_io: usize, max: usize) -> Structure {
    if c.idx % 24 == 7 {
        let io = match c.rng.gen_range(0..3) {
            0 => c.rng.gen_range(20..70),
            _ => c.rng.gen_range(min_io..5),
        };
        let vars = 48 + (c.idx as usize / 24 * 13) % 110;
        return Structure::of(&mut c.rng, vars, io, false);
    }
    let (io, max) = sizes(&mut c.rng, min_io, max);
    Structure::random(&mut c.rng, max, io, false)
}

fn sizes(rng: &mut StdRng, min_io: usize, max: usize) -> (usize, usize) {
    match rng.gen_range(0..25) {
        0 => (rng.gen_range(min_io..20), rng.gen_range(10..40)),
        1 => (rng.gen_range(min_io..4), rng.gen_range(30..90)),
        2 => (rng.gen_range(min_io..10), max),
        _ => (rng.gen_range(min_io..4), max),
    }
}

fn c21_decide(c: &mut Case) {
    let st = any_structure(c, 0, 6);
    let k = Known::new(&mut c.rng, st.size() + 1);
    let p = any_pair(&mut c.rng, &st, &k);
    let desc = show(&st);
    c.distinct("structures", &desc);
    c.sample(|| format!("{} pair of {}", p.kind, desc));
    verdict(c, &st.r1cs, &p, &k, p.kind, &|| desc.clone());

    for _ in 0..6 {
        let mut q = p.clone();
        let mut r = st.r1cs.clone();
        let d: Fr = nonzero(&mut c.rng);
        let what = match c.rng.gen_range(0..20) {
            0 => {
                let i = c.rng.gen_range(0..q.w.w.len());
                shift(&mut q.w.w[i], d);
                if c.rng.gen_bool(0.7) {
                    q.u.com_w = k.commit(&q.w.w);
                    "witness entry, with its commitment"
                } else {
                    "witness entry"
                }
            }
            1 if !q.u.x.is_empty() => {
                let i = c.rng.gen_range(0..q.u.x.len());
                shift(&mut q.u.x[i], d);
                "public input"
            }
            2 => {
                shift(&mut q.u.u, d);
                "scalar u"
            }
            3 | 4 => {
                q.w.e.resize(q.w.e.len().max(st.rows), Fr::zero());
                let i = match c.rng.gen_range(0..3) {
                    0 => 0,
                    1 => st.rows - 1,
                    _ => c.rng.gen_range(0..st.rows),
                };
                shift(&mut q.w.e[i], d);
                if c.rng.gen_bool(0.7) {
                    q.u.com_e = k.commit(&q.w.e);
                    "error term, with its commitment"
                } else {
                    "error term"
                }
            }
            5 if st.rows > 1 => {
                // compensating, so that sums over the rows are as before
                q.w.e.resize(q.w.e.len().max(st.rows), Fr::zero());
                let i = c.rng.gen_range(0..st.rows);
                let j = (i + c.rng.gen_range(1..st.rows)) % st.rows;
                shift(&mut q.w.e[i], d);
                q.w.e[j] -= d;
                q.u.com_e = k.commit(&q.w.e);
                "compensating error terms"
            }
            6 => {
                q.u.com_w = bump(&q.u.com_w, d);
                "witness commitment"
            }
            7 => {
                q.u.com_e = bump(&q.u.com_e, d);
                "error commitment"
            }
            8 => {
                std::mem::swap(&mut q.u.com_e, &mut q.u.com_w);
                "commitments swapped"
            }
            9 => {
                // compensating commitments
                q.u.com_w = KzgCommitment((q.u.com_w.0 + g1(d)).into_affine());
                q.u.com_e = KzgCommitment((q.u.com_e.0 - g1(d)).into_affine());
                "compensating commitments"
            }
            10 => {
                q.w.w.push(if c.rng.gen_bool(0.5) { Fr::zero() } else { d });
                q.u.com_w = k.commit(&q.w.w);
                "witness longer"
            }
            11 => {
                q.w.w.pop();
                q.u.com_w = k.commit(&q.w.w);
                "witness shorter"
            }
            12 => {
                q.u.x.push(if c.rng.gen_bool(0.5) { Fr::zero() } else { d });
                "more public inputs"
            }
            13 if !q.u.x.is_empty() => {
                q.u.x.pop();
                "fewer public inputs"
            }
            14 if !q.u.x.is_empty() => {
                // one entry moved from the witness to the inputs: the same vector Z
                let x = q.w.w.pop().unwrap();
                q.u.x.insert(0, x);
                q.u.com_w = k.commit(&q.w.w);
                "entry moved from the witness to the inputs"
            }
            15 => {
                let i = c.rng.gen_range(0..st.rows);
                let j = c.rng.gen_range(0..r.matrix_a[i].len());
                match c.rng.gen_range(0..3) {
                    0 => r.matrix_a[i][j] += d,
                    1 => r.matrix_b[i][j] += d,
                    _ => r.matrix_c[i][j] += d,
                }
                "matrix entry"
            }
            16 => {
                // negated witness and scalar: A z and B z only change their sign
                for x in q.w.w.iter_mut().chain(q.u.x.iter_mut()) {
                    *x = -*x;
                }
                q.u.u = -q.u.u;
                q.u.com_w = k.commit(&q.w.w);
                "assignment negated"
            }
            17 => {
                // a missing error term
                q.w.e.truncate(st.rows.saturating_sub(1));
                q.u.com_e = k.commit(&q.w.e);
                "errors shorter"
            }
            18 => {
                q.w.e.resize(st.rows, Fr::zero());
                q.w.e.push(d);
                q.u.com_e = k.commit(&q.w.e);
                "errors longer"
            }
            _ => {
                // everything scaled, as a relaxed pair may be
                for x in q.w.w.iter_mut().chain(q.u.x.iter_mut()) {
                    *x *= d;
                }
                q.u.u *= d;
                for x in q.w.e.iter_mut() {
                    *x *= d * d;
                }
                q.u = instance(&k, &q.w.e, q.u.u, &q.w.w, &q.u.x);
                "assignment scaled"
            }
        };
        verdict(c, &r, &q, &k, what, &|| desc.clone());
    }
}

fn c21_trivial(c: &mut Case) {
    let io = c.rng.gen_range(0..4);
    let max = *[8, 8, 8, 8, 8, 8, 60].choose(&mut c.rng).unwrap();
    let st = if c.idx % 40 == 17 {
        // widths up to 300, one after another
        Structure::of(&mut c.rng, 60 + (c.idx as usize / 40 * 17) % 240, io, false)
    } else {
        Structure::random(&mut c.rng, max, io, false)
    };
    let k = Known::new(&mut c.rng, st.size());
    let desc = show(&st);
    c.eval(&desc);
    let Ok((w, u)) = guard(|| create_trivial_pair(io, st.vars, &k.scheme)) else {
        return c.violation("trivial-pair-panics", desc);
    };
    c.check(u.x.len() == io && w.w.len() == st.vars, "trivial-pair-size", || desc.clone());
    c.check(
        satisfied(&st.r1cs, &u, &w, &k),
        "trivial-pair-unsatisfied",
        || format!("u {} x {} w {} e {} of {desc}", hex(&u.u), hexes(&u.x), hexes(&w.w), hexes(&w.e)),
    );
    let p = Pair { u, w, kind: "trivial" };
    verdict(c, &st.r1cs, &p, &k, "trivial", &|| desc.clone());
    // an instance made from a witness
    let (w, x) = st.solution(&mut c.rng);
    let n = c.rng.gen_range(0..=st.rows);
    let fw = FWitness::new(&w, n);
    let u = fw.commit(&k.scheme, &x);
    let reference = instance(&k, &[], Fr::one(), &w, &x);
    c.check(fw.w == w && same_vec(&fw.e, &[]), "new-witness", || desc.clone());
    c.check(same_instance(&u, &reference), "fresh-instance", || {
        format!("{} instead of {}", show_instance(&u), show_instance(&reference))
    });
    // and from one with errors
    let n = c.rng.gen_range(0..=st.rows);
    let fw = FWitness { e: (0..n).map(|_| any_fr(&mut c.rng)).collect(), w };
    let u = fw.commit(&k.scheme, &x);
    let reference = instance(&k, &fw.e, Fr::one(), &fw.w, &x);
    c.check(same_instance(&u, &reference), "instance-with-errors", || {
        format!("{} instead of {}", show_instance(&u), show_instance(&reference))
    });
}

fn c21_algebra(c: &mut Case) {
    use nova::utils::*;
    let max = *[7, 7, 7, 7, 7, 300].choose(&mut c.rng).unwrap();
    let (rows, cols) = (c.rng.gen_range(0..max), c.rng.gen_range(0..max));
    let m: M = (0..rows).map(|_| (0..cols).map(|_| any_fr(&mut c.rng)).collect()).collect();
    let z: Vec<Fr> = (0..cols).map(|_| any_fr(&mut c.rng)).collect();
    let a: Vec<Fr> = (0..rows).map(|_| any_fr(&mut c.rng)).collect();
    let b: Vec<Fr> = (0..rows).map(|_| any_fr(&mut c.rng)).collect();
    let u = any_fr(&mut c.rng);
    c.eval((hexes(&a), hexes(&z)));
    let r = guard(|| {
        let zip = |f: fn(Fr, Fr) -> Fr| -> Vec<Fr> { a.iter().zip(&b).map(|(x, y)| f(*x, *y)).collect() };
        [
            ("matrix_vector_product", matrix_vector_product(&m, &z) == m.iter().map(|r| dot(r, &z)).collect::<Vec<_>>()),
            ("hadamard_product", hadamard_product(&a, &b) == zip(|x, y| x * y)),
            ("vector_elem_product", vector_elem_product(&a, u) == a.iter().map(|x| *x * u).collect::<Vec<_>>()),
            ("vec_add", vec_add(&a, &b) == zip(|x, y| x + y)),
            ("vec_sub", vec_sub(&a, &b) == zip(|x, y| x - y)),
            ("vec_equal", vec_equal(&a, &b) == (a == b) && vec_equal(&a, &a)),
        ]
    });
    match r {
        Ok(r) => {
            for (what, ok) in r {
                c.check(ok, what, || format!("a {} b {} z {} u {}", hexes(&a), hexes(&b), hexes(&z), hex(&u)));
            }
        }
        Err(e) => c.violation("algebra-panics", format!("{} at {}", e.msg, e.at)),
    }
    if rows > 0 {
        let i = c.rng.gen_range(0..rows);
        let mut d = a.clone();
        d[i] += nonzero::<Fr>(&mut c.rng);
        c.check(!vec_equal(&a, &d), "vec_equal", || format!("{} and {}", hexes(&a), hexes(&d)));
        let short = &a[..i];
        c.check(guard(|| vec_equal(&a, short)) .map_or(true, |e| !e), "vec_equal", || format!("{} and {}", hexes(&a), hexes(short)));
    }
    let ints: Vec<usize> = (0..cols).map(|_| if c.rng.gen_bool(0.2) { usize::MAX - c.rng.gen_range(0..3) } else { c.rng.gen_range(0..1000) }).collect();
    let f: Vec<Fr> = ints.iter().map(|x| Fr::from(*x as u64)).collect();
    c.check(to_f_vec::<Fr>(ints.clone()) == f && to_f_matrix::<Fr>(&[ints.clone(), ints.clone()]) == vec![f.clone(), f], "to_f", || format!("{ints:?}"));
}

// ---------------------------------------------------------------- C22

/// Folds two satisfying pairs, and checks everything about it
fn fold_once<T: Digest + Default + Clone>(
    c: &mut Case,
    st: &Structure,
    k: &Known,
    a: &Pair,
    b: &Pair,
    tp: &mut Transcript<T>,
    tv: &mut Transcript<T>,
    desc: &str,
) -> Option<Pair> {
    c.eval((desc, a.kind, b.kind, hex(&a.u.u), hex(&b.u.u), hexes(&a.w.w), hexes(&b.w.w)));
    c.count(&format!("folds of {} and {}", a.kind, b.kind));
    let out = guard(|| NIFS::<T>::prover(&st.r1cs, &a.w, &b.w, &a.u, &b.u, &k.scheme, tp));
    let (w, u, com_t, r) = match out {
        Ok(o) => o,
        Err(e) => {
            c.violation("fold-panics", format!("{} at {}: {desc}", e.msg, e.at));
            return None;
        }
    };
    c.distinct("challenges", hex(&r));
    let t = cross(&st.r1cs, a, b);
    let z = |p: &Pair| -> Vec<Fr> { p.w.w.iter().chain(&p.u.x).copied().chain([p.u.u]).collect() };
    let own_t = guard(|| NIFS::<T>::compute_t(&st.r1cs, a.u.u, b.u.u, &z(a), &z(b)));
    c.check(own_t.is_ok_and(|x| same_vec(&x, &t)), "cross-term", || desc.into());
    c.check(com_t == k.commit(&t), "cross-term-commitment", || desc.into());
    let expected = fold_instance(r, &a.u, &b.u, &com_t);
    c.check(same_instance(&u, &expected), "folded-instance", || {
        format!("{} instead of {}: {desc}", show_instance(&u), show_instance(&expected))
    });
    let seen = guard(|| NIFS::<T>::verifier(r, &a.u, &b.u, &com_t));
    c.check(seen.is_ok_and(|x| same_instance(&x, &expected)), "verifier-instance", || desc.into());
    let e = fold_vec(r, &a.w.e, &fold_vec(r, &t, &b.w.e));
    c.check(
        w.w == fold_vec(r, &a.w.w, &b.w.w) && same_vec(&w.e, &e),
        "folded-witness",
        || format!("w {} e {}: {desc}", hexes(&w.w), hexes(&w.e)),
    );
    // The fold functions themselves, with a factor that no challenge is likely to be
    let q: Fr = any_fr(&mut c.rng);
    c.distinct("factors", hex(&q));
    let free = guard(|| {
        let n = st.r1cs.matrix_a.len();
        let fit = a.w.e.len() <= n && b.w.e.len() <= n;
        (fit.then(|| NIFS::<T>::fold_witness(q, &a.w, &b.w, &t)), NIFS::<T>::fold_instance(q, &a.u, &b.u, &com_t))
    });
    let wanted = fold_instance(q, &a.u, &b.u, &com_t);
    c.check(
        free.is_ok_and(|(w, u)| {
            same_instance(&u, &wanted)
                && w.is_none_or(|w| {
                    w.w == fold_vec(q, &a.w.w, &b.w.w)
                        && same_vec(&w.e, &fold_vec(q, &a.w.e, &fold_vec(q, &t, &b.w.e)))
                })
        }),
        "fold-by-factor",
        || format!("factor {}: {desc}", hex(&q)),
    );
    let p = Pair { u, w, kind: "folded" };
    c.check(satisfied(&st.r1cs, &p.u, &p.w, k), "fold-unsatisfied", || desc.into());
    let ok = guard(|| is_r1cs_satisfied(&st.r1cs, &p.u, &p.w, &k.scheme).is_ok());
    c.check(ok.is_ok_and(|x| x), "fold-unsatisfied", || desc.into());
    let proof = match guard(|| NIFS::<T>::prove(r, &p.w, &p.u, &k.scheme, tp)) {
        Ok(p) => p,
        Err(e) => {
            c.violation("prove-panics", format!("{} at {}: {desc}", e.msg, e.at));
            return None;
        }
    };
    let z = proof.opening_point;
    c.check(
        proof.opening_w.1 == horner(&p.w.w, z) && proof.opening_e.1 == horner(&p.w.e, z),
        "opened-values",
        || desc.into(),
    );
    let v = guard(|| NIFS::<T>::verify(&proof, &a.u, &b.u, &p.u, &com_t, &k.scheme, tv));
    match v {
        Ok(Ok(())) => c.count("folding proofs accepted"),
        Ok(Err(e)) => c.violation("folding-proof-rejected", format!("{e}: {desc}")),
        Err(e) => c.violation("verify-panics", format!("{} at {}: {desc}", e.msg, e.at)),
    }
    Some(p)
}

fn sequences<T: Digest + Default + Clone>(c: &mut Case, hash: &str) {
    let st = any_structure(c, 0, 6);
    let k = Known::new(&mut c.rng, st.size() + 1);
    let (mut tp, mut tv) = (Transcript::<T>::default(), Transcript::<T>::default());
    let continuing = c.rng.gen_bool(0.5);
    let mut acc = any_pair(&mut c.rng, &st, &k);
    let desc = format!("{hash} {}", show(&st));
    c.distinct("structures", &desc);
    c.sample(|| desc.clone());
    let n = c.rng.gen_range(1..8);
    for i in 0..n {
        let next = match c.rng.gen_range(0..10) {
            0 => acc.clone(),
            1 => {
                // the negation of the running witness
                let w: Vec<Fr> = acc.w.w.iter().map(|x| -*x).collect();
                let x: Vec<Fr> = acc.u.x.iter().map(|x| -*x).collect();
                let u = -acc.u.u;
                let e = st.errors(&w, &x, u);
                Pair { u: instance(&k, &e, u, &w, &x), w: FWitness { e, w }, kind: "negated" }
            }
            _ => any_pair(&mut c.rng, &st, &k),
        };
        if !continuing {
            (tp, tv) = (Transcript::default(), Transcript::default());
        }
        let (a, b) = if c.rng.gen_bool(0.5) { (&acc, &next) } else { (&next, &acc) };
        let r = fold_once(c, &st, &k, a, b, &mut tp, &mut tv, &desc);
        let Some(r) = r else { return };
        c.maximum("number of folds in a pair", i + 1);
        acc = r;
    }
}

macro_rules! with_hash {
    ($c:expr, $f:ident) => {
        match $c.rng.gen_range(0..4) {
            0 => $f::<Sha512>($c, "sha512"),
            1 => $f::<Sha384>($c, "sha384"),
            _ => $f::<Sha256>($c, "sha256"),
        }
    };
}

fn c22_sequences(c: &mut Case) {
    with_hash!(c, sequences)
}

fn trees<T: Digest + Default + Clone>(c: &mut Case, hash: &str) {
    let st = any_structure(c, 0, 5);
    let k = Known::new(&mut c.rng, st.size() + 1);
    let desc = format!("tree {hash} {}", show(&st));
    let n = c.rng.gen_range(2..7);
    let mut nodes: Vec<Pair> = (0..n).map(|_| any_pair(&mut c.rng, &st, &k)).collect();
    while nodes.len() > 1 {
        let i = c.rng.gen_range(0..nodes.len());
        let a = nodes.swap_remove(i);
        let j = c.rng.gen_range(0..nodes.len());
        let b = nodes.swap_remove(j);
        let (mut tp, mut tv) = (Transcript::<T>::default(), Transcript::<T>::default());
        let Some(p) = fold_once(c, &st, &k, &a, &b, &mut tp, &mut tv, &desc) else { return };
        nodes.push(p);
    }
}

fn c22_trees(c: &mut Case) {
    with_hash!(c, trees)
}

// ---------------------------------------------------------------- C23

pub struct Folded {
    pub st: Structure,
    pub k: Known,
    pub a: Pair,
    pub b: Pair,
    pub com_t: KzgCommitment,
    pub r: Fr,
    pub out: Pair,
    pub proof: NIFSProof,
}

pub fn honest_fold(c: &mut Case) -> Option<Folded> {
    let st = any_structure(c, 1, 5);
    let k = Known::new(&mut c.rng, st.size() + 1);
    let a = any_pair(&mut c.rng, &st, &k);
    let b = any_pair(&mut c.rng, &st, &k);
    fold_of(c, st, k, a, b)
}

fn fold_of(c: &mut Case, st: Structure, k: Known, a: Pair, b: Pair) -> Option<Folded> {
    let mut t = Transcript::<Rec10>::default();
    let out = guard(|| {
        let (w, u, com_t, r) = NIFS::<Rec10>::prover(&st.r1cs, &a.w, &b.w, &a.u, &b.u, &k.scheme, &mut t);
        let proof = NIFS::<Rec10>::prove(r, &w, &u, &k.scheme, &mut t);
        (Pair { u, w, kind: "folded" }, com_t, r, proof)
    });
    match out {
        Ok((out, com_t, r, proof)) => Some(Folded { st, k, a, b, com_t, r, out, proof }),
        Err(e) => {
            c.inconclusive(format!("honest fold panics: {} at {}", e.msg, e.at));
            None
        }
    }
}

fn nifs_verify(p: &NIFSProof, a: &FInstance, b: &FInstance, o: &FInstance, t: &KzgCommitment, k: &Known) -> Result<bool, Panicked> {
    guard(|| NIFS::<Rec10>::verify(p, a, b, o, t, &k.scheme, &mut Transcript::default()).is_ok())
}

fn accepted(r: &Result<bool, Panicked>) -> bool {
    matches!(r, Ok(true))
}

/// A prover that knows the secret of the string: finds the challenges the verifier derives, and
/// opens whatever it is asked to. `r`: the challenge fixed in advance, or any it can learn.
fn forge(
    k: &Known,
    a: &FInstance,
    b: &FInstance,
    t: &KzgCommitment,
    r: Option<Fr>,
    out: &dyn Fn(Fr) -> FInstance,
) -> Option<NIFSProof> {
    let make = |r: Fr, z: Fr, o: &FInstance| NIFSProof {
        r,
        opening_point: z,
        opening_e: k.open(&o.com_e, Fr::from(7), z),
        opening_w: k.open(&o.com_w, Fr::from(11), z),
    };
    let attempt = |r: Fr, z: Fr| {
        let o = out(r);
        let p = make(r, z, &o);
        let (v, log) = recorded(|| nifs_verify(&p, a, b, &o, t, k));
        (accepted(&v).then_some(p), log)
    };
    let candidates = |log: &[Entry]| -> Vec<Fr> {
        log.iter().rev().map(|e| draws::<Fr>(&e.output, 1)[0]).collect()
    };
    let (hit, log) = attempt(r.unwrap_or(Fr::from(3)), Fr::from(5));
    if hit.is_some() {
        return hit;
    }
    let rs = match r {
        Some(r) => vec![r],
        None => candidates(&log),
    };
    let first = log.len();
    for r in rs {
        let (hit, log) = attempt(r, Fr::from(5));
        if hit.is_some() {
            return hit;
        }
        if log.len() <= first && first > 0 && log.len() != first {
            continue;
        }
        // the last digests are those the opening point is derived from
        for z in candidates(&log).into_iter().take(4) {
            let (hit, _) = attempt(r, z);
            if hit.is_some() {
                return hit;
            }
        }
    }
    None
}

fn c23_altered(c: &mut Case) {
    let Some(f) = honest_fold(c) else { return };
    let desc = format!("{} and {} of {}", f.a.kind, f.b.kind, show(&f.st));
    c.sample(|| desc.clone());
    let v = nifs_verify(&f.proof, &f.a.u, &f.b.u, &f.out.u, &f.com_t, &f.k);
    c.eval(("honest", &desc));
    if !c.check(accepted(&v), "honest-rejected", || desc.clone()) {
        return;
    }
    let z = f.proof.opening_point;
    // two-sided: the openings
    for _ in 0..6 {
        let mut p = f.proof.clone();
        let d: Fr = nonzero(&mut c.rng);
        let what = match c.rng.gen_range(0..10) {
            0 => {
                shift(&mut p.opening_e.1, d);
                "value of E"
            }
            1 => {
                shift(&mut p.opening_w.1, d);
                "value of W"
            }
            2 => {
                p.opening_e.0 = shift_point(p.opening_e.0, d);
                "witness point of E"
            }
            3 => {
                p.opening_w.0 = shift_point(p.opening_w.0, d);
                "witness point of W"
            }
            4 => {
                std::mem::swap(&mut p.opening_e, &mut p.opening_w);
                "openings swapped"
            }
            5 => {
                // compensating
                p.opening_e.0 = (p.opening_e.0 + g1(d)).into_affine();
                p.opening_w.0 = (p.opening_w.0 - g1(d)).into_affine();
                "compensating witness points"
            }
            6 => {
                p.opening_e.1 += d;
                p.opening_w.1 -= d;
                "compensating values"
            }
            7 => {
                p.opening_e = KzgOpening(G1Affine::zero(), Fr::zero());
                "E opened to nothing"
            }
            8 => {
                p.opening_w = KzgOpening(G1Affine::zero(), Fr::zero());
                "W opened to nothing"
            }
            _ => {
                // another value, consistently opened: only the secret makes it possible
                p.opening_e = f.k.open(&f.out.u.com_e, d, z);
                p.opening_w = f.k.open(&f.out.u.com_w, d, z);
                "reopened with the secret"
            }
        };
        let valid = f.k.opens(&f.out.u.com_e, &p.opening_e, z) && f.k.opens(&f.out.u.com_w, &p.opening_w, z);
        let v = nifs_verify(&p, &f.a.u, &f.b.u, &f.out.u, &f.com_t, &f.k);
        c.eval((what, hex(&d), &desc));
        c.count(&format!("{} {what}", if valid { "valid:" } else { "invalid:" }));
        if valid {
            c.check(accepted(&v), "valid-openings-rejected", || format!("{what}: {desc}"));
        } else {
            c.check(!accepted(&v), "invalid-openings-accepted", || format!("{what}: {desc}"));
        }
    }
    // any other part, alone
    for i in 0..18 {
        let mut p = f.proof.clone();
        let (mut a, mut b, mut o, mut t) = (f.a.u.clone(), f.b.u.clone(), f.out.u.clone(), f.com_t.clone());
        let d: Fr = nonzero(&mut c.rng);
        let xi = c.rng.gen_range(0..f.st.io);
        let what = match i {
            0 => { shift(&mut p.r, d); "r" }
            1 => { shift(&mut p.opening_point, d); "opening point" }
            2 => { a.com_e = bump(&a.com_e, d); "com_e of the first" }
            3 => { a.com_w = bump(&a.com_w, d); "com_w of the first" }
            4 => { shift(&mut a.u, d); "u of the first" }
            5 => { shift(&mut a.x[xi], d); "x of the first" }
            6 => { b.com_e = bump(&b.com_e, d); "com_e of the second" }
            7 => { b.com_w = bump(&b.com_w, d); "com_w of the second" }
            8 => { shift(&mut b.u, d); "u of the second" }
            9 => { shift(&mut b.x[xi], d); "x of the second" }
            10 => { o.com_e = bump(&o.com_e, d); "com_e of the fold" }
            11 => { o.com_w = bump(&o.com_w, d); "com_w of the fold" }
            12 => { shift(&mut o.u, d); "u of the fold" }
            13 => { shift(&mut o.x[xi], d); "x of the fold" }
            14 => { t = bump(&t, d); "cross term" }
            15 => { o.x.push(d); "more inputs of the fold" }
            16 => { o.x.pop(); "fewer inputs of the fold" }
            _ => {
                if same_instance(&a, &b) { continue }
                std::mem::swap(&mut a, &mut b);
                "instances swapped"
            }
        };
        let v = nifs_verify(&p, &a, &b, &o, &t, &f.k);
        c.eval((what, hex(&d), &desc));
        c.check(!accepted(&v), "altered-accepted", || format!("{what}: {desc}"));
    }
    // another transcript, hash or string
    let v = guard(|| {
        let mut t = Transcript::<Rec10>::default();
        t.feed_scalar_num(Fr::one());
        NIFS::<Rec10>::verify(&f.proof, &f.a.u, &f.b.u, &f.out.u, &f.com_t, &f.k.scheme, &mut t).is_ok()
    });
    c.check(!accepted(&v), "other-transcript-accepted", || desc.clone());
    let v = guard(|| {
        NIFS::<Sha512>::verify(&f.proof, &f.a.u, &f.b.u, &f.out.u, &f.com_t, &f.k.scheme, &mut Transcript::default()).is_ok()
    });
    c.check(!accepted(&v), "other-hash-accepted", || desc.clone());
    let other = Known::new(&mut c.rng, f.st.size());
    let still = other.opens(&f.out.u.com_e, &f.proof.opening_e, z) && other.opens(&f.out.u.com_w, &f.proof.opening_w, z);
    let v = nifs_verify(&f.proof, &f.a.u, &f.b.u, &f.out.u, &f.com_t, &other);
    c.check(accepted(&v) == still, "other-string", || desc.clone());
    c.eval(("transcript, hash, string", &desc));
}

/// One component of the statement is chosen after the challenge
fn c23_adaptive(c: &mut Case) {
    let Some(f) = honest_fold(c) else { return };
    let desc = format!("{} and {} of {}", f.a.kind, f.b.kind, show(&f.st));
    let control = forge(&f.k, &f.a.u, &f.b.u, &f.com_t, Some(f.r), &|r| fold_instance(r, &f.a.u, &f.b.u, &f.com_t));
    if control.is_none() {
        return c.inconclusive("the forger cannot even prove the honest fold");
    }
    c.count("control forgeries accepted");
    for i in 0..30 {
        let (mut a, mut b, mut t) = (f.a.u.clone(), f.b.u.clone(), f.com_t.clone());
        let d: Fr = nonzero(&mut c.rng);
        let xi = c.rng.gen_range(0..f.st.io);
        let xj = (xi + c.rng.gen_range(1..f.st.io.max(2))) % f.st.io;
        let plus = |p: &KzgCommitment| bump(p, d);
        let minus = |p: &KzgCommitment| bump(p, -d);
        // a difference that only the upper bits show
        let high = Fr::from(d.into_bigint().0[0] | 1) * Fr::from(2u64).pow([*[64u64, 128, 190].choose(&mut c.rng).unwrap()]);
        let what = match i {
            0 => { a.com_e = plus(&a.com_e); "com_e of the first" }
            1 => { a.com_w = plus(&a.com_w); "com_w of the first" }
            2 => { shift(&mut a.u, d); "u of the first" }
            3 => { shift(&mut a.x[xi], d); "x of the first" }
            4 => { b.com_e = plus(&b.com_e); "com_e of the second" }
            5 => { b.com_w = plus(&b.com_w); "com_w of the second" }
            6 => { shift(&mut b.u, d); "u of the second" }
            7 => { shift(&mut b.x[xi], d); "x of the second" }
            8 => { t = plus(&t); "cross term" }
            9 => { a.x.push(d); b.x.push(d); "more inputs" }
            10 => { a.x.pop(); b.x.pop(); "fewer inputs" }
            11 => {
                if a.x == b.x { continue }
                std::mem::swap(&mut a.x, &mut b.x);
                "x swapped"
            }
            12 => {
                if a.com_w == b.com_w { continue }
                std::mem::swap(&mut a.com_w, &mut b.com_w);
                "com_w swapped"
            }
            13 => {
                if a.com_e == a.com_w { continue }
                std::mem::swap(&mut a.com_w, &mut a.com_e);
                "com_w and com_e swapped"
            }
            // two parts at once, so that sums and the like stay as they are
            14 | 15 => {
                let (x, what) = if i == 14 { (&mut a.x, "two of x of the first, same sum") } else { (&mut b.x, "two of x of the second, same sum") };
                if xi == xj { continue }
                x[xi] += d;
                x[xj] -= d;
                what
            }
            16 => {
                if a.x[xi] == a.x[xj] { continue }
                a.x.swap(xi, xj);
                "x of the first in another order"
            }
            17 => { a.x[xi] += d; b.x[xi] -= d; "x of both, same sum" }
            18 => { a.u += d; b.u -= d; "u of both, same sum" }
            19 => { a.u += d; a.x[xi] -= d; "u and x, same sum" }
            20 => { a.com_w = plus(&a.com_w); b.com_w = minus(&b.com_w); "com_w of both, same sum" }
            21 => { a.com_e = plus(&a.com_e); b.com_e = minus(&b.com_e); "com_e of both, same sum" }
            22 => { a.com_e = plus(&a.com_e); a.com_w = minus(&a.com_w); "com_e and com_w, same sum" }
            23 => { t = plus(&t); a.com_e = minus(&a.com_e); "cross term and com_e, same sum" }
            24 => { t = plus(&t); b.com_w = minus(&b.com_w); "cross term and com_w, same sum" }
            25 => { a.x[xi] += high; "upper bits of x" }
            26 => { b.u += high; "upper bits of u" }
            27 => {
                if t.0.infinity { continue }
                t.0 = -t.0;
                "sign of the cross term"
            }
            28 => {
                if b.com_w.0.infinity { continue }
                b.com_w.0 = -b.com_w.0;
                "sign of com_w"
            }
            _ => {
                if a.u == b.u { continue }
                std::mem::swap(&mut a.u, &mut b.u);
                "u swapped"
            }
        };
        let hit = forge(&f.k, &a, &b, &t, Some(f.r), &|r| fold_instance(r, &a, &b, &t));
        c.eval((what, hex(&d), &desc));
        c.check(hit.is_none(), "chosen-after-the-challenge", || format!("{what} was chosen after r = {}: {desc}", hex(&f.r)));
    }
}

/// The third instance is not the fold of the two
fn c23_wrong_fold(c: &mut Case) {
    let Some(f) = honest_fold(c) else { return };
    let desc = format!("{} and {} of {}", f.a.kind, f.b.kind, show(&f.st));
    let control = forge(&f.k, &f.a.u, &f.b.u, &f.com_t, None, &|r| fold_instance(r, &f.a.u, &f.b.u, &f.com_t));
    if control.is_none() {
        return c.inconclusive("the forger cannot even prove the honest fold");
    }
    c.count("control forgeries accepted");
    for i in 0..16 {
        let (mut a, mut b, t) = (f.a.u.clone(), f.b.u.clone(), f.com_t.clone());
        let d: Fr = nonzero(&mut c.rng);
        let xi = c.rng.gen_range(0..f.st.io);
        type Edit = Box<dyn Fn(Fr, &mut FInstance)>;
        let set = |f: fn(&FInstance) -> FInstance, x: &FInstance| f(x);
        let _ = set;
        let (what, edit): (&str, Edit) = match i {
            0 => ("com_e", Box::new(move |_, o| o.com_e = bump(&o.com_e, d))),
            1 => ("com_w", Box::new(move |_, o| o.com_w = bump(&o.com_w, d))),
            2 => ("u", Box::new(move |_, o| shift(&mut o.u, d))),
            3 => ("x", Box::new(move |_, o| shift(&mut o.x[xi], d))),
            4 => ("one input more", Box::new(move |_, o| o.x.push(d))),
            5 => ("one input less", Box::new(move |_, o| { o.x.pop(); })),
            6 => ("com_e and com_w shifted oppositely", Box::new(move |_, o| {
                o.com_e = KzgCommitment((o.com_e.0 + g1(d)).into_affine());
                o.com_w = KzgCommitment((o.com_w.0 - g1(d)).into_affine());
            })),
            7 => {
                // the first instance alone
                let a = a.clone();
                ("the first instance itself", Box::new(move |_, o| *o = a.clone()))
            }
            8 => {
                let b = b.clone();
                ("the second instance itself", Box::new(move |_, o| *o = b.clone()))
            }
            9 => {
                let (a, b, t) = (a.clone(), b.clone(), t.clone());
                ("folded the other way round", Box::new(move |r, o| *o = fold_instance(r, &b, &a, &t)))
            }
            10 => {
                let (a, b, t) = (a.clone(), b.clone(), t.clone());
                ("error folded with r instead of its square", Box::new(move |r, o| {
                    let g = |c: &KzgCommitment| c.0.into_group();
                    o.com_e = KzgCommitment((g(&a.com_e) + g(&t) * r + g(&b.com_e) * r).into_affine());
                }))
            }
            11 => {
                let (a, b) = (a.clone(), b.clone());
                ("cross term left out", Box::new(move |r, o| {
                    let g = |c: &KzgCommitment| c.0.into_group();
                    o.com_e = KzgCommitment((g(&a.com_e) + g(&b.com_e) * (r * r)).into_affine());
                }))
            }
            12 => {
                a.x.push(d);
                ("more inputs in the first instance", Box::new(|_, _| {}))
            }
            13 => {
                b.x.push(d);
                ("more inputs in the second instance", Box::new(|_, _| {}))
            }
            14 => {
                // the last inputs exchanged
                if f.st.io < 2 { continue }
                ("inputs exchanged", Box::new(|_, o| o.x.swap(0, 1)))
            }
            _ => ("u and x shifted oppositely", Box::new(move |_, o| { o.u += d; o.x[xi] -= d; })),
        };
        let reference = fold_instance(f.r, &a, &b, &t);
        let mut altered = reference.clone();
        edit(f.r, &mut altered);
        if i < 12 && same_instance(&reference, &altered) {
            continue;
        }
        if i == 14 && same_instance(&reference, &altered) {
            continue;
        }
        // the challenge is learned when the statement is the honest one, and searched otherwise
        let r = (i < 12 || i > 13).then_some(f.r);
        let hit = forge(&f.k, &a, &b, &t, r, &|r| {
            let mut o = fold_instance(r, &a, &b, &t);
            edit(r, &mut o);
            o
        });
        c.eval((what, hex(&d), &desc));
        c.check(hit.is_none(), "wrong-fold-accepted", || format!("{what}: {desc}"));
    }
}

/// Folding never repairs a pair that does not satisfy the structure
fn c23_unsatisfied(c: &mut Case) {
    let st = any_structure(c, 1, 5);
    let k = Known::new(&mut c.rng, st.size() + 1);
    let mut a = any_pair(&mut c.rng, &st, &k);
    let mut b = any_pair(&mut c.rng, &st, &k);
    let which = c.rng.gen_range(0..3);
    for (n, p) in [(0, &mut a), (1, &mut b)] {
        if which == n || which == 2 {
            p.w.e.resize(p.w.e.len().max(st.rows), Fr::zero());
            let i = c.rng.gen_range(0..st.rows);
            p.w.e[i] += nonzero::<Fr>(&mut c.rng);
            if c.rng.gen_bool(0.8) {
                p.u.com_e = k.commit(&p.w.e);
            }
        }
    }
    let desc = format!("{} and {} of {}, broken {which}", a.kind, b.kind, show(&st));
    let Some(f) = fold_of(c, st, k, a, b) else { return };
    c.eval(&desc);
    let expected = satisfied(&f.st.r1cs, &f.out.u, &f.out.w, &f.k);
    c.check(!expected, "unsatisfied-pair-folded-away", || format!("{} {} {} {} {desc}", hexes(&f.a.w.e), hexes(&f.b.w.e), hexes(&f.out.w.e), hex(&f.r)));
    let ok = guard(|| is_r1cs_satisfied(&f.st.r1cs, &f.out.u, &f.out.w, &f.k.scheme).is_ok());
    c.check(!accepted(&ok), "unsatisfied-fold-accepted", || desc.clone());

    // a cross term that would make the fold satisfied, had the challenge been known in advance
    let guess = rand_fr(&mut c.rng);
    let inv = guess.inverse().unwrap();
    let z: Vec<Fr> = fold_vec(guess, &f.a.w.w, &f.b.w.w);
    let x: Vec<Fr> = fold_vec(guess, &f.a.u.x, &f.b.u.x);
    let target = f.st.errors(&z, &x, f.a.u.u + guess * f.b.u.u);
    let at = |v: &[Fr], i: usize| v.get(i).copied().unwrap_or(Fr::zero());
    let t: Vec<Fr> = (0..f.st.rows)
        .map(|i| (target[i] - at(&f.a.w.e, i) - guess * guess * at(&f.b.w.e, i)) * inv)
        .collect();
    let t = f.k.commit(&t);
    let hit = forge(&f.k, &f.a.u, &f.b.u, &t, Some(guess), &|r| fold_instance(r, &f.a.u, &f.b.u, &t));
    c.eval(("guessed", &desc));
    c.check(hit.is_none(), "guessed-challenge-accepted", || desc.clone());
}

// ---------------------------------------------------------------- IVC

/// Step functions
#[derive(Clone, Debug)]
pub enum Step {
    Cubic,
    Affine(Fq, Fq),
    Square,
    Constant(Fq),
    Identity,
    All(u64),
}

fn to_base(x: Fr) -> Fq {
    Fq::from_le_bytes_mod_order(&x.into_bigint().to_bytes_le())
}

pub fn to_scalar(x: Fq) -> Fr {
    Fr::from_le_bytes_mod_order(&x.into_bigint().to_bytes_le())
}

impl Step {
    fn apply(&self, z: Fq, w: &[Fr]) -> Fq {
        match self {
            Step::Cubic => {
                let x = w[0];
                z + to_base(x * x * x + x + Fr::from(5))
            }
            Step::Affine(a, b) => *a * z + b,
            Step::Square => z * z + to_base(w[0]),
            Step::Constant(k) => *k,
            Step::Identity => z,
            Step::All(k) => {
                let mut r = z * Fq::from(*k);
                for x in w {
                    r = r * r + to_base(*x);
                }
                r
            }
        }
    }
    fn any(rng: &mut StdRng) -> Self {
        match rng.gen_range(0..8) {
            0 => Step::Affine(any_field(rng), any_field(rng)),
            1 => Step::Square,
            2 => Step::Constant(any_field(rng)),
            3 => Step::Identity,
            4 | 5 => Step::All(rng.gen_range(0..100)),
            _ => Step::Cubic,
        }
    }
}

impl FCircuit for Step {
    fn run(&self, z_i: &State, w_i: &FWitness) -> State {
        State {
            state: self.apply(z_i.state, &w_i.w),
        }
    }
}

pub struct Chain<T: Digest + Default + std::io::Write> {
    pub st: Structure,
    pub k: Known,
    pub step: Step,
    pub ivc: IVC<T, Step>,
    /// States of the plain iteration
    pub z: Vec<Fq>,
    /// Fresh witnesses of each step
    pub w: Vec<FWitness>,
    /// Proofs of steps 1, 2, ... (index 0 is the base case)
    pub proofs: Vec<ZkIVCProof>,
    pub parts: Vec<IVCProof>,
    pub running: Pair,
    /// What the counter is ahead of the steps seen, for a computation that is resumed
    pub shift: Fq,
}

pub fn clone_zk(p: &ZkIVCProof) -> ZkIVCProof {
    ZkIVCProof {
        u_i: p.u_i.clone(),
        big_u_i: p.big_u_i.clone(),
        com_t: p.com_t.clone(),
        folded_u_proof: p.folded_u_proof.clone(),
    }
}

pub type Aug<T> = AugmentedCircuit<T, Step>;

pub fn new_chain<T: Digest + Default + std::io::Write>(rng: &mut StdRng, fit: Option<Fr>) -> Chain<T> {
    // the only public input is the hash, which no constraint of the structure mentions
    let vars = match rng.gen_range(0..24) {
        0 => rng.gen_range(40..140),
        _ => rng.gen_range(1..=5),
    };
    let st = Structure::of(rng, vars, 1, true);
    let mut k = Known::new(rng, st.size() + 1);
    if let Some(s) = fit {
        let srs = kzg::srs::Srs::new_from_secret(s, st.size() + 1);
        k = Known { s, scheme: kzg::scheme::KzgScheme::new(srs.clone()), srs };
    }
    let step = Step::any(rng);
    let z_0: Fq = any_field(rng);
    let (tw, tu) = create_trivial_pair(1, st.vars, &k.scheme);
    let ivc = IVC::<T, Step> {
        scheme: kzg::scheme::KzgScheme::new(k.srs.clone()),
        augmented_circuit: AugmentedCircuit::new(step.clone(), &tu, &State { state: z_0 }),
    };
    Chain {
        z: vec![z_0],
        w: vec![],
        proofs: vec![ZkIVCProof::trivial_zk_ivc_proof(&tu)],
        parts: vec![IVCProof::trivial_ivc_proof(&tu, &tw)],
        running: Pair { u: tu, w: tw, kind: "trivial" },
        shift: Fq::zero(),
        st,
        k,
        step,
        ivc,
    }
}

/// Nothing has been computed yet: a proof of that folds nothing, hands the running pair back as it
/// was, and is accepted
fn base_case<T: Digest + Default + std::io::Write>(c: &mut Case, ch: &mut Chain<T>, desc: &str) -> bool {
    let parts = ch.parts.last().unwrap();
    let (w, u, zk) = match guard(|| ch.ivc.prove(&ch.st.r1cs, parts, &mut Transcript::default())) {
        Ok(out) => out,
        Err(e) => {
            c.violation("prove-panics", format!("base case: {} at {}: {desc}", e.msg, e.at));
            return false;
        }
    };
    c.count("base cases proved");
    c.check(same_instance(&u, &parts.big_u_i), "base-case-folds", || desc.to_string());
    c.check(
        same_instance(&zk.u_i, &parts.u_i) && same_instance(&zk.big_u_i, &parts.big_u_i),
        "base-case-instances",
        || desc.to_string(),
    );
    c.check(satisfied(&ch.st.r1cs, &u, &w, &ch.k), "base-case-unsatisfied", || desc.to_string());
    let v = guard(|| ch.ivc.verify(&zk, &mut Transcript::default()));
    c.check(matches!(v, Ok(Ok(()))), "base-case-rejected", || desc.to_string());
    true
}

/// Runs, verifies, advances and proves one step; every observation is compared with the model.
/// Returns false when the chain cannot go on.
pub fn advance<T: Digest + Default + std::io::Write>(c: &mut Case, ch: &mut Chain<T>, desc: &str) -> bool {
    let i = ch.w.len();
    let fi = Fq::from(i as u64) + ch.shift;
    let (w, _) = ch.st.solution(&mut c.rng);
    let fresh = FWitness::new(&w, ch.st.rows);
    let parts = &ch.parts[i];
    let proof = &ch.proofs[i];
    // the base case takes the first fresh witness, later steps the one of their proof
    let w_i = if i == 0 { fresh.clone() } else { parts.w_i.clone() };
    let u_i = if i == 0 { fresh.commit(&ch.k.scheme, &[Fr::zero()]) } else { parts.u_i.clone() };
    let next = ch.step.apply(ch.z[i], &w_i.w);
    if ch.ivc.augmented_circuit.i.is_zero() && !base_case(c, ch, desc) {
        return false;
    }
    let (parts, proof) = (&ch.parts[i], &ch.proofs[i]);
    let aug = &mut ch.ivc.augmented_circuit;
    let r = guard(|| {
        if i == 0 {
            aug.run(&u_i, None, &w_i, None)
        } else {
            aug.run(&u_i, Some(&parts.big_u_i), &w_i, proof.com_t.as_ref())
        }
    });
    c.eval((desc, i, hex(&next)));
    c.count("steps run");
    c.maximum("chain length", i as u64 + 1);
    let hash = match r {
        Ok(Ok(h)) => h,
        Ok(Err(e)) => {
            c.violation("honest-step-refused", format!("step {i}: {e}: {desc}"));
            return false;
        }
        Err(e) => {
            c.violation("honest-step-panics", format!("step {i}: {} at {}: {desc}", e.msg, e.at));
            return false;
        }
    };
    let z0 = State { state: ch.z[0] };
    let zn = State { state: next };
    let want = Aug::<T>::hash_io(fi + Fq::one(), &z0, &zn, &ch.running.u);
    c.check(hash == want, "step-hash", || format!("step {i}: {desc}"));
    c.check(aug.h_i1 == Some(want), "step-hash", || format!("stored at step {i}: {desc}"));
    c.check(
        aug.z_i1.as_ref().map(|s| s.state) == Some(next),
        "next-state",
        || format!("step {i}: {desc}"),
    );
    // verification of the state so far
    let v = guard(|| ch.ivc.verify(&ch.proofs[i], &mut Transcript::default()));
    match v {
        Ok(Ok(())) => c.count("proofs accepted"),
        Ok(Err(e)) => c.violation("honest-proof-rejected", format!("step {i}: {e}: {desc}")),
        Err(e) => c.violation("verify-panics", format!("step {i}: {} at {}: {desc}", e.msg, e.at)),
    }
    if guard(|| ch.ivc.augmented_circuit.next_step()).is_err() {
        c.violation("advance-panics", format!("step {i}: {desc}"));
        return false;
    }
    let aug = &ch.ivc.augmented_circuit;
    c.check(
        aug.i == fi + Fq::one() && aug.z_i.state == next && aug.z_0.state == ch.z[0] && aug.h_i == Some(want),
        "advance",
        || format!("step {i}: {desc}"),
    );
    ch.z.push(next);
    if i == 0 {
        ch.w.push(fresh);
    } else {
        ch.w.push(w_i);
    }
    // the next proof
    let (w2, _) = ch.st.solution(&mut c.rng);
    let w2 = FWitness::new(&w2, ch.st.rows);
    let u2 = w2.commit(&ch.k.scheme, &[to_scalar(hash)]);
    let parts = IVCProof::new(&u2, &w2, &ch.running.u, &ch.running.w);
    let out = guard(|| ch.ivc.prove(&ch.st.r1cs, &parts, &mut Transcript::default()));
    let (big_w, big_u, zk) = match out {
        Ok(o) => o,
        Err(e) => {
            c.violation("prove-panics", format!("step {i}: {} at {}: {desc}", e.msg, e.at));
            return false;
        }
    };
    let (Some(com_t), Some(fp)) = (zk.com_t.clone(), zk.folded_u_proof.clone()) else {
        c.violation("proof-incomplete", format!("step {i}: {desc}"));
        return false;
    };
    c.check(
        same_instance(&zk.u_i, &u2) && same_instance(&zk.big_u_i, &ch.running.u),
        "proof-instances",
        || format!("step {i}: {desc}"),
    );
    let expected = fold_instance(fp.r, &u2, &ch.running.u, &com_t);
    c.check(same_instance(&big_u, &expected), "running-instance", || format!("step {i}: {desc}"));
    ch.running = Pair { u: big_u, w: big_w, kind: "folded" };
    c.check(
        satisfied(&ch.st.r1cs, &ch.running.u, &ch.running.w, &ch.k),
        "running-instance-unsatisfied",
        || format!("step {i}: {desc}"),
    );
    ch.proofs.push(zk);
    ch.parts.push(parts);
    true
}

pub fn chain<T: Digest + Default + std::io::Write>(c: &mut Case, steps: usize, hash: &str) -> Option<(Chain<T>, String)> {
    let mut ch = new_chain::<T>(&mut c.rng, None);
    let desc = format!("{hash} {:?} from {} for {steps} steps, {}", ch.step, hex(&ch.z[0]), show(&ch.st));
    c.distinct("chains", &desc);
    c.sample(|| desc.clone());
    for _ in 0..steps {
        if !advance(c, &mut ch, &desc) {
            return None;
        }
    }
    // the last proof
    let v = guard(|| ch.ivc.verify(&ch.proofs[steps], &mut Transcript::default()));
    c.check(matches!(v, Ok(Ok(()))), "honest-proof-rejected", || format!("step {steps}: {desc}"));
    Some((ch, desc))
}

fn chains<T: Digest + Default + std::io::Write>(c: &mut Case, hash: &str) {
    let n = c.rng.gen_range(0..7);
    chain::<T>(c, n, hash);
}

fn c24_chains(c: &mut Case) {
    with_hash!(c, chains)
}

fn c24_long(c: &mut Case) {
    let n = match (c.idx, c.thorough()) {
        (0, false) => 280,
        (0, true) => 700,
        (_, false) => 25,
        (_, true) => 60,
    };
    chain::<Sha256>(c, n, "sha256");
}

/// A counter that honest computations reach late, if at all
pub fn late(rng: &mut StdRng) -> Fq {
    match rng.gen_range(0..6) {
        // about to pass a power of two
        k @ (0 | 1) => {
            let bits = if k == 0 { *[8, 16, 24, 31, 32, 63].choose(rng).unwrap() } else { rng.gen_range(1..64) };
            Fq::from(1u64 << bits) + Fq::from(rng.gen_range(0..3u64)) - Fq::from(2u64)
        }
        2 => Fq::from(rng.gen_range(1..70_000u64)),
        3 => Fq::from(u64::MAX) - Fq::from(2u64) + Fq::from(rng.gen_range(0..5u64)),
        4 => Fq::from(u128::MAX) - Fq::from(rng.gen_range(0..2u64)),
        _ => any_field(rng),
    }
}

/// Sets a computation forth to where it would be after n steps, if all those that are skipped had
/// ended with the present state and running instance. Returns false if it cannot be proved.
pub fn resume<T: Digest + Default + std::io::Write>(c: &mut Case, ch: &mut Chain<T>, n: Fq, desc: &str) -> bool {
    let last = ch.parts.pop().unwrap();
    ch.proofs.pop();
    let (z0, zi) = (State { state: ch.z[0] }, State { state: *ch.z.last().unwrap() });
    let hash = Aug::<T>::hash_io(n, &z0, &zi, &last.big_u_i);
    let u = last.w_i.commit(&ch.k.scheme, &[to_scalar(hash)]);
    let parts = IVCProof::new(&u, &last.w_i, &last.big_u_i, &last.big_w_i);
    match guard(|| ch.ivc.prove(&ch.st.r1cs, &parts, &mut Transcript::default())) {
        Ok((w, u, zk)) => {
            ch.running = Pair { u, w, kind: "folded" };
            ch.proofs.push(zk);
        }
        Err(e) => {
            c.violation("prove-panics", format!("at counter {}: {} at {}: {desc}", hex(&n), e.msg, e.at));
            return false;
        }
    }
    ch.parts.push(parts);
    ch.shift = n - Fq::from(ch.w.len() as u64);
    let aug = &mut ch.ivc.augmented_circuit;
    aug.i = n;
    aug.h_i = Some(hash);
    c.distinct("resumed at", hex(&n));
    true
}

fn resumed<T: Digest + Default + std::io::Write>(c: &mut Case, hash: &str) {
    let steps = c.rng.gen_range(1..4);
    let Some((mut ch, desc)) = chain::<T>(c, steps, hash) else { return };
    let n = late(&mut c.rng);
    let more = c.rng.gen_range(1..5);
    // the counter of a computation never comes back to zero
    if (0..=more).any(|i| (n + Fq::from(i)).is_zero()) {
        return c.count("counters that would come back to zero");
    }
    if !resume(c, &mut ch, n, &desc) {
        return;
    }
    let desc = format!("resumed at {}: {desc}", hex(&n));
    for _ in 0..more {
        if !advance(c, &mut ch, &desc) {
            return;
        }
    }
    let v = guard(|| ch.ivc.verify(ch.proofs.last().unwrap(), &mut Transcript::default()));
    c.check(matches!(v, Ok(Ok(()))), "honest-proof-rejected", || format!("last: {desc}"));
}

fn c24_resumed(c: &mut Case) {
    with_hash!(c, resumed)
}

/// An accepted chain for the other properties, or a reason why there is none
pub fn honest_chain(c: &mut Case, min: usize, max: usize) -> Option<(Chain<Rec10>, String)> {
    let n = c.rng.gen_range(min..=max);
    let mut quiet = Case::new(c.prop, c.group, c.idx, 77, c.tier);
    std::mem::swap(&mut quiet.rng, &mut c.rng);
    let r = chain::<Rec10>(&mut quiet, n, "recorded");
    std::mem::swap(&mut quiet.rng, &mut c.rng);
    if r.is_none() || !quiet.out.violations.is_empty() {
        let v = quiet.out.violations.first().map(|v| v.msg.clone()).unwrap_or_default();
        c.inconclusive(format!("the honest chain does not work: {v}"));
        return None;
    }
    r
}

// ---------------------------------------------------------------- C25

struct View {
    i: Fq,
    z0: Fq,
    zi: Fq,
}

fn ivc_verify(ch: &mut Chain<Rec10>, v: &View, p: &ZkIVCProof) -> Result<Result<(), String>, Panicked> {
    let aug = &mut ch.ivc.augmented_circuit;
    let saved = (aug.i, aug.z_0.state, aug.z_i.state);
    (aug.i, aug.z_0.state, aug.z_i.state) = (v.i, v.z0, v.zi);
    let r = guard(|| ch.ivc.verify(p, &mut Transcript::default()));
    let aug = &mut ch.ivc.augmented_circuit;
    (aug.i, aug.z_0.state, aug.z_i.state) = saved;
    r
}

fn view(ch: &Chain<Rec10>, i: usize) -> View {
    View { i: Fq::from(i as u64) + ch.shift, z0: ch.z[0], zi: ch.z[i] }
}

fn ivc_ok(r: &Result<Result<(), String>, Panicked>) -> bool {
    matches!(r, Ok(Ok(())))
}

fn c25_altered(c: &mut Case) {
    let Some((mut ch, mut desc)) = honest_chain(c, 1, 4) else { return };
    c.sample(|| desc.clone());
    let mut first = 1;
    if c.rng.gen_bool(0.25) {
        let n = late(&mut c.rng);
        if n.is_zero() || !resume(c, &mut ch, n, &desc) {
            return;
        }
        desc = format!("resumed at {}: {desc}", hex(&n));
        first = ch.proofs.len() - 1;
    }
    for i in first..ch.proofs.len() {
        let good = view(&ch, i);
        let proof = clone_zk(&ch.proofs[i]);
        let r = ivc_verify(&mut ch, &good, &proof);
        c.eval(("honest", i, &desc));
        if !c.check(ivc_ok(&r), "honest-rejected", || format!("step {i}: {r:?}: {desc}")) {
            continue;
        }
        for n in 0..30 {
            let d: Fr = nonzero(&mut c.rng);
            let e: Fq = nonzero(&mut c.rng);
            let mut v = view(&ch, i);
            let mut p = clone_zk(&proof);
            let mut f = p.folded_u_proof.clone().unwrap();
            let what = match n {
                0 => { v.i += Fq::one(); "step + 1" }
                1 => {
                    v.i -= Fq::one();
                    if v.i.is_zero() { continue }
                    "step - 1"
                }
                2 => { v.i = Fq::rand(&mut c.rng); "step" }
                3 => { shift(&mut v.z0, e); "initial state" }
                4 => { shift(&mut v.zi, e); "state" }
                5 => {
                    if v.z0 == v.zi { continue }
                    std::mem::swap(&mut v.z0, &mut v.zi);
                    "states swapped"
                }
                6 => { p.u_i.com_e = bump(&p.u_i.com_e, d); "com_e of u" }
                7 => { p.u_i.com_w = bump(&p.u_i.com_w, d); "com_w of u" }
                8 => { shift(&mut p.u_i.u, d); "u of u" }
                9 => { shift(&mut p.u_i.x[0], d); "hash" }
                10 => { p.u_i.x.push(d); "more inputs of u" }
                11 => { p.u_i.x.clear(); "no inputs of u" }
                12 => { p.big_u_i.com_e = bump(&p.big_u_i.com_e, d); "com_e of U" }
                13 => { p.big_u_i.com_w = bump(&p.big_u_i.com_w, d); "com_w of U" }
                14 => { shift(&mut p.big_u_i.u, d); "u of U" }
                15 => { shift(&mut p.big_u_i.x[0], d); "x of U" }
                16 => { p.big_u_i.x.push(d); "more inputs of U" }
                17 => { p.big_u_i.x.clear(); "no inputs of U" }
                18 => { p.com_t = p.com_t.as_ref().map(|t| bump(t, d)); "cross term" }
                19 => { p.com_t = None; "no cross term" }
                20 => { p.folded_u_proof = None; "no folding proof" }
                21 => { shift(&mut f.r, d); p.folded_u_proof = Some(f); "r" }
                22 => { shift(&mut f.opening_point, d); p.folded_u_proof = Some(f); "opening point" }
                23 => { shift(&mut f.opening_e.1, d); p.folded_u_proof = Some(f); "value of E" }
                24 => { shift(&mut f.opening_w.1, d); p.folded_u_proof = Some(f); "value of W" }
                25 => { f.opening_e.0 = shift_point(f.opening_e.0, d); p.folded_u_proof = Some(f); "witness of E" }
                26 => { f.opening_w.0 = shift_point(f.opening_w.0, d); p.folded_u_proof = Some(f); "witness of W" }
                27 => {
                    if same_instance(&p.u_i, &p.big_u_i) { continue }
                    std::mem::swap(&mut p.u_i, &mut p.big_u_i);
                    "instances swapped"
                }
                28 => { p.com_t = None; p.folded_u_proof = None; "neither cross term nor folding proof" }
                _ => {
                    if v.z0 == v.zi { continue }
                    v.zi = v.z0;
                    "state is the initial one"
                }
            };
            let r = ivc_verify(&mut ch, &v, &p);
            c.eval((what, i, hex(&d), &desc));
            c.check(!ivc_ok(&r), "altered-accepted", || format!("{what} at step {i}: {desc}"));
        }
    }
}

fn c25_replayed(c: &mut Case) {
    let Some((mut a, da)) = honest_chain(c, 2, 4) else { return };
    let n = a.proofs.len();
    for i in 1..n {
        for j in 0..n {
            if i == j {
                continue;
            }
            // the proof of one step for another one
            for (what, v) in [
                ("states of its own step", View { i: Fq::from(i as u64), z0: a.z[0], zi: a.z[j] }),
                ("states of the other step", View { i: Fq::from(i as u64), z0: a.z[0], zi: a.z[i] }),
                ("step of its own", View { i: Fq::from(j.max(1) as u64), z0: a.z[0], zi: a.z[i] }),
            ] {
                let p = clone_zk(&a.proofs[j]);
                if what == "step of its own" && (a.z[i] == a.z[j] || j == 0) {
                    continue;
                }
                let r = ivc_verify(&mut a, &v, &p);
                c.eval((what, i, j, &da));
                c.check(!ivc_ok(&r), "replay-accepted", || format!("proof {j} for step {i}, {what}: {da}"));
                // with parts of the right one
                for part in 0..4 {
                    let mut q = clone_zk(&a.proofs[i]);
                    let o = &a.proofs[j];
                    match part {
                        0 => q.u_i = o.u_i.clone(),
                        1 => q.big_u_i = o.big_u_i.clone(),
                        2 => q.com_t = o.com_t.clone(),
                        _ => q.folded_u_proof = o.folded_u_proof.clone(),
                    }
                    let same = match part {
                        0 => same_instance(&q.u_i, &a.proofs[i].u_i),
                        1 => same_instance(&q.big_u_i, &a.proofs[i].big_u_i),
                        2 => q.com_t == a.proofs[i].com_t,
                        _ => false,
                    };
                    if same {
                        continue;
                    }
                    let v = view(&a, i);
                    let r = ivc_verify(&mut a, &v, &q);
                    c.eval(("part", part, i, j, &da));
                    c.check(!ivc_ok(&r), "mixed-proof-accepted", || format!("part {part} of proof {j} in proof {i}: {da}"));
                }
            }
        }
    }
    // the proof of another chain with the same string
    let mut quiet = Case::new(c.prop, c.group, c.idx, 78, c.tier);
    let mut b = new_chain::<Rec10>(&mut c.rng, Some(a.k.s));
    if b.z[0] == a.z[0] {
        return;
    }
    for _ in 0..2 {
        if !advance(&mut quiet, &mut b, "other chain") {
            return c.inconclusive("the honest chain does not work");
        }
    }
    for i in 1..3 {
        let p = clone_zk(&b.proofs[i]);
        let own = view(&b, i);
        let v = view(&a, i);
        let r = ivc_verify(&mut a, &v, &p);
        c.eval(("other chain", i, &da));
        c.check(!ivc_ok(&r), "other-chain-accepted", || format!("step {i}: {da}"));
        let mixed = View { i: own.i, z0: a.z[0], zi: own.zi };
        let r = ivc_verify(&mut a, &mixed, &p);
        c.check(!ivc_ok(&r), "other-chain-accepted", || format!("initial state of step {i}: {da}"));
    }
}

/// A prover that does everything consistently but for one part
fn c25_forged(c: &mut Case) {
    let Some((mut ch, desc)) = honest_chain(c, 1, 3) else { return };
    let i = c.rng.gen_range(1..ch.proofs.len());
    let d: Fr = nonzero(&mut c.rng);
    let e: Fq = nonzero(&mut c.rng);
    for n in 0..13 {
        let mut v = view(&ch, i);
        let p = &ch.parts[i];
        let (mut u, mut w, mut bu, bw) = (p.u_i.clone(), p.w_i.clone(), p.big_u_i.clone(), p.big_w_i.clone());
        let hash = |v: &View, bu: &FInstance| {
            to_scalar(Aug::<Rec10>::hash_io(v.i, &State { state: v.z0 }, &State { state: v.zi }, bu))
        };
        let (what, key) = match n {
            0 => ("honest", ""),
            1 => {
                shift(&mut u.u, d);
                ("scalar is not one", "forged-accepted")
            }
            2 => {
                w.e.resize(ch.st.rows, Fr::zero());
                w.e[0] += d;
                u.com_e = ch.k.commit(&w.e);
                ("error is not zero", "forged-accepted")
            }
            3 => {
                u.x.push(d);
                bu.x.push(d);
                // U is hashed, so the hash is made for it
                u.x[0] = hash(&v, &bu);
                ("a second public input", "forged-accepted")
            }
            4 => {
                // another running instance, the hash is the old one
                shift(&mut bu.u, d);
                ("another running instance", "forged-accepted")
            }
            5 => {
                shift(&mut u.x[0], d);
                ("another hash", "forged-accepted")
            }
            6 => {
                bu.x.push(d);
                u.x[0] = hash(&v, &bu);
                ("a second public input of U only", "forged-accepted")
            }
            // inputs of which only one is the hash, in vectors of one or of different lengths
            8 => {
                bu.x.push(d);
                let h = hash(&v, &bu);
                u.x = vec![d, h];
                ("the hash as the second input", "forged-accepted")
            }
            9 => {
                bu.x.insert(0, d);
                let h = hash(&v, &bu);
                u.x = vec![h, h];
                ("the hash twice", "forged-accepted")
            }
            10 => {
                let h = hash(&v, &bu);
                u.x = vec![d, h];
                ("the hash as the second input of u only", "forged-accepted")
            }
            11 => {
                u.x.clear();
                ("no public input", "forged-accepted")
            }
            12 => {
                let h = hash(&v, &bu);
                u.x = vec![h, Fr::zero()];
                ("a second input of zero", "forged-accepted")
            }
            _ => {
                // a state that was never reached, with its own hash
                shift(&mut v.zi, e);
                u.x[0] = hash(&v, &bu);
                ("a state never reached, with its hash", "recomputed-public-hash")
            }
        };
        let made = guard(|| {
            let mut t = Transcript::<Rec10>::default();
            let (fw, fu, com_t, r) = NIFS::<Rec10>::prover(&ch.st.r1cs, &w, &bw, &u, &bu, &ch.k.scheme, &mut t);
            let f = NIFS::<Rec10>::prove(r, &fw, &fu, &ch.k.scheme, &mut t);
            (com_t, f)
        });
        let made = match made {
            Ok(x) => Some(x),
            // any cross term does: the openings are of whatever it folds to
            Err(_) => {
                let com_t = ch.k.commit(&[d]);
                forge(&ch.k, &u, &bu, &com_t, None, &|r| fold_instance(r, &u, &bu, &com_t)).map(|f| (com_t, f))
            }
        };
        let Some((com_t, f)) = made else {
            c.count("forgeries that cannot be folded");
            continue;
        };
        let zk = ZkIVCProof { u_i: u, big_u_i: bu, com_t: Some(com_t), folded_u_proof: Some(f) };
        let r = ivc_verify(&mut ch, &v, &zk);
        c.eval((what, i, hex(&d), &desc));
        if n == 0 {
            if !ivc_ok(&r) {
                return c.inconclusive("the forger cannot even prove the honest step");
            }
            c.count("control forgeries accepted");
            continue;
        }
        c.check(!ivc_ok(&r), key, || format!("{what} at step {i}: {desc}"));
    }
}

fn c25_base(c: &mut Case) {
    let mut ch = new_chain::<Rec10>(&mut c.rng, None);
    let z0 = ch.z[0];
    let p = clone_zk(&ch.proofs[0]);
    let zero = Fq::zero();
    c.eval((hex(&z0), "base"));
    let r = ivc_verify(&mut ch, &View { i: zero, z0, zi: z0 }, &p);
    c.check(ivc_ok(&r), "base-case-rejected", || format!("{r:?} z0 {}", hex(&z0)));
    for _ in 0..6 {
        let e: Fq = nonzero(&mut c.rng);
        let (a, b) = match c.rng.gen_range(0..4) {
            0 => (z0, z0 + e),
            1 => (z0 + e, z0),
            2 if !z0.is_zero() => (z0, -z0),
            _ => (z0, e * z0 + e),
        };
        if a == b {
            continue;
        }
        let r = ivc_verify(&mut ch, &View { i: zero, z0: a, zi: b }, &p);
        c.eval((hex(&a), hex(&b)));
        c.check(!ivc_ok(&r), "base-case-with-another-state", || format!("{} {}", hex(&a), hex(&b)));
    }
    // a trivial proof proves no step
    for i in [Fq::one(), Fq::from(2u64), Fq::rand(&mut c.rng)] {
        let r = ivc_verify(&mut ch, &View { i, z0, zi: z0 }, &p);
        c.eval(("trivial", hex(&i)));
        c.check(!ivc_ok(&r), "trivial-proof-accepted", || format!("step {}", hex(&i)));
    }
}

// ---------------------------------------------------------------- C26

#[derive(Clone, PartialEq, Debug)]
struct Fields {
    i: Fq,
    z_0: Fq,
    z_i: Fq,
    z_i1: Option<Fq>,
    h_i: Option<Fq>,
    h_i1: Option<Fq>,
}

fn fields<T: Digest + Default + std::io::Write>(a: &Aug<T>) -> Fields {
    Fields {
        i: a.i,
        z_0: a.z_0.state,
        z_i: a.z_i.state,
        z_i1: a.z_i1.as_ref().map(|s| s.state),
        h_i: a.h_i,
        h_i1: a.h_i1,
    }
}

fn c26_histories(c: &mut Case) {
    with_hash!(c, histories)
}

fn histories<T: Digest + Default + std::io::Write + Clone>(c: &mut Case, hash: &str) {
    let mut ch = new_chain::<T>(&mut c.rng, None);
    let desc = format!("{hash} {:?} from {}", ch.step, hex(&ch.z[0]));
    c.sample(|| desc.clone());
    let trivial = ch.running.u.clone();
    let mut model = fields(&ch.ivc.augmented_circuit);
    c.check(
        model == Fields { i: Fq::zero(), z_0: ch.z[0], z_i: ch.z[0], z_i1: None, h_i: None, h_i1: None },
        "initial-fields",
        || format!("{model:?}"),
    );
    // U_i, with the w_i and com_t of a correct step
    let mut running = Pair { u: trivial.clone(), w: ch.running.w.clone(), kind: "trivial" };
    let n = c.rng.gen_range(4..16);
    let mut history = vec![];
    for _ in 0..n {
        let base = model.i.is_zero();
        let (w, _) = ch.st.solution(&mut c.rng);
        let w = FWitness::new(&w, ch.st.rows);
        let mut u = w.commit(&ch.k.scheme, &[model.h_i.map(to_scalar).unwrap_or(Fr::from(9))]);
        let folded = guard(|| {
            NIFS::<T>::prover(&ch.st.r1cs, &w, &running.w, &u, &running.u, &ch.k.scheme, &mut Transcript::default())
        });
        let Ok((fw, fu, com_t, _)) = folded else {
            return c.inconclusive("the prover panics");
        };
        let d: Fr = nonzero(&mut c.rng);
        let mut big = Some(running.u.clone());
        let mut t = Some(com_t);
        let what = match c.rng.gen_range(0..32) {
            0..=6 => "correct",
            7..=11 => "advance",
            12 => { shift(&mut u.x[0], d); "wrong hash" }
            13 => { u.x.clear(); "no public input" }
            14 => { u.x.push(d); "two public inputs" }
            15 => { u.com_e = bump(&u.com_e, d); "error commitment" }
            16 => { shift(&mut u.u, d); "scalar" }
            17 => { big = None; "no running instance" }
            18 => { t = None; "no cross term" }
            19 => { shift(&mut big.as_mut().unwrap().u, d); "another running instance, u" }
            20 => { let b = big.as_mut().unwrap(); b.com_w = bump(&b.com_w, d); "another running instance, com_w" }
            21 => { let b = big.as_mut().unwrap(); b.com_e = bump(&b.com_e, d); "another running instance, com_e" }
            22 => { let b = big.as_mut().unwrap(); shift(&mut b.x[0], d); "another running instance, x" }
            23 => { u.x.insert(0, d); "the hash as the second input" }
            24 => { let h = u.x[0]; u.x.push(h); "the hash twice" }
            25 => { u.x.push(Fr::zero()); "a second input of zero" }
            26 => { u.u = *[Fr::zero(), -Fr::one(), Fr::from(2u64)].choose(&mut c.rng).unwrap(); "another scalar" }
            27 => { big.as_mut().unwrap().x.push(if c.rng.gen() { d } else { Fr::zero() }); "another running instance, more inputs" }
            28 => { big.as_mut().unwrap().x.clear(); "another running instance, no inputs" }
            29 => {
                let b = big.as_mut().unwrap();
                if b.com_e == b.com_w { continue }
                std::mem::swap(&mut b.com_e, &mut b.com_w);
                "another running instance, commitments swapped"
            }
            30 => {
                let b = big.as_mut().unwrap();
                if b.com_w.0.infinity { continue }
                b.com_w.0 = -b.com_w.0;
                "another running instance, sign of com_w"
            }
            _ => "no stored hash",
        };
        history.push(what);
        let key = format!("{desc}: {history:?}");
        c.eval(&key);
        if what == "advance" {
            let r = guard(|| ch.ivc.augmented_circuit.next_step());
            let now = fields(&ch.ivc.augmented_circuit);
            if model.z_i1.is_some() {
                c.count("advances");
                let want = Fields {
                    i: model.i + Fq::one(),
                    z_0: model.z_0,
                    z_i: model.z_i1.unwrap(),
                    z_i1: None,
                    h_i: model.h_i1,
                    h_i1: None,
                };
                c.check(r.is_ok() && now == want, "advance", || format!("{now:?} instead of {want:?}: {key}"));
                model = want;
                if now != model {
                    return;
                }
                if let Some(p) = c26_pending(&mut ch) {
                    running = p;
                }
            } else {
                // without a step there is nothing to advance to
                c.count("advances without a step");
                c.check(now == model, "advanced-without-a-step", || format!("{now:?}: {key}"));
                if now != model {
                    return;
                }
            }
            continue;
        }
        if what == "no stored hash" {
            if base {
                continue;
            }
            ch.ivc.augmented_circuit.h_i = None;
        }
        let aug = &mut ch.ivc.augmented_circuit;
        let r = guard(|| aug.run(&u, big.as_ref(), &w, t.as_ref()));
        let mut now = fields(&ch.ivc.augmented_circuit);
        if what == "no stored hash" {
            ch.ivc.augmented_circuit.h_i = model.h_i;
            now.h_i = model.h_i;
        }
        // the base case depends on the state and the witness only
        if what == "correct" || base {
            let next = ch.step.apply(model.z_i, &w.w);
            let big = if base { &trivial } else { &fu };
            let want = Aug::<T>::hash_io(
                model.i + Fq::one(),
                &State { state: model.z_0 },
                &State { state: next },
                big,
            );
            let mut m = model.clone();
            m.z_i1 = Some(next);
            m.h_i1 = Some(want);
            c.count(if base { "base steps" } else { "correct steps" });
            c.check(
                matches!(&r, Ok(Ok(h)) if *h == want) && now == m,
                "correct-step",
                || format!("{r:?}, {now:?} instead of {m:?}: {key}"),
            );
            if now != m {
                return;
            }
            model = m;
            ch.running = if base {
                Pair { u: trivial.clone(), w: running.w.clone(), kind: "trivial" }
            } else {
                Pair { u: fu, w: fw, kind: "folded" }
            };
        } else {
            c.count(&format!("refused: {what}"));
            c.check(!matches!(r, Ok(Ok(_))), "incorrect-step-accepted", || format!("{what}: {key}"));
            c.check(now == model, "refused-step-changes-fields", || format!("{what}: {now:?} instead of {model:?}: {key}"));
            if let Err(e) = &r {
                c.violation("incorrect-step-panics", format!("{what}: {} at {}: {key}", e.msg, e.at));
            }
            if now != model {
                return;
            }
        }
        c.check(
            same_instance(&ch.ivc.augmented_circuit.trivial_instance, &trivial),
            "trivial-instance-changed",
            || key.clone(),
        );
    }
}

/// The running pair of the step that was advanced to
fn c26_pending<T: Digest + Default + std::io::Write>(ch: &mut Chain<T>) -> Option<Pair> {
    Some(ch.running.clone())
}

// ---------------------------------------------------------------- C27

#[derive(Clone, PartialEq, Debug)]
enum Msg {
    Com(Fr),
    Num(Fr),
    /// A challenge is drawn here
    Draw,
}

fn any_msg(rng: &mut StdRng) -> Msg {
    if rng.gen_bool(0.5) {
        Msg::Com(any_fr(rng))
    } else {
        Msg::Num(any_fr(rng))
    }
}

/// Challenges of a message sequence, drawn at the marks and at the end
fn play<T: Digest + Default>(m: &[Msg]) -> Vec<[Fr; 2]> {
    let mut t = Transcript::<T>::default();
    let mut out = vec![];
    let mut fresh = false;
    for x in m.iter().chain([&Msg::Draw]) {
        match x {
            Msg::Com(v) => { t.feed(&commit_of(*v)); fresh = true; }
            Msg::Num(v) => { t.feed_scalar_num(*v); fresh = true; }
            Msg::Draw => {
                if fresh {
                    out.push(t.generate_challenges::<2>());
                    fresh = false;
                }
            }
        }
    }
    out
}

fn edits(rng: &mut StdRng, m: &[Msg]) -> Vec<(&'static str, Vec<Msg>)> {
    let mut r: Vec<(&'static str, Vec<Msg>)> = vec![];
    let pos: Vec<usize> = (0..m.len()).filter(|i| m[*i] != Msg::Draw).collect();
    for _ in 0..3 {
        let i = *pos.choose(rng).unwrap();
        let d: Fr = nonzero(rng);
        let mut e = m.to_vec();
        e[i] = match &m[i] {
            Msg::Com(v) => Msg::Com(*v + d),
            Msg::Num(v) => Msg::Num(*v + d),
            Msg::Draw => unreachable!(),
        };
        r.push(("changed", e));
        let mut e = m.to_vec();
        e[i] = match &m[i] {
            Msg::Com(v) => Msg::Com(-*v),
            Msg::Num(v) => Msg::Num(-*v),
            Msg::Draw => unreachable!(),
        };
        r.push(("negated", e));
        let mut e = m.to_vec();
        e.remove(i);
        r.push(("dropped", e));
        let mut e = m.to_vec();
        e.insert(i, any_msg(rng));
        r.push(("added", e));
        let mut e = m.to_vec();
        e.insert(i, m[i].clone());
        r.push(("duplicated", e));
        let mut e = m.to_vec();
        e[i] = match &m[i] {
            Msg::Com(v) => Msg::Num(*v),
            Msg::Num(v) => Msg::Com(*v),
            Msg::Draw => unreachable!(),
        };
        r.push(("kind changed", e));
        let j = *pos.choose(rng).unwrap();
        let mut e = m.to_vec();
        e.swap(i, j);
        r.push(("swapped", e));
    }
    // compensating changes
    let nums: Vec<usize> = pos.iter().copied().filter(|i| matches!(m[*i], Msg::Num(_))).collect();
    let coms: Vec<usize> = pos.iter().copied().filter(|i| matches!(m[*i], Msg::Com(_))).collect();
    for list in [&nums, &coms, &pos] {
        let (Some(i), Some(j)) = (list.choose(rng), list.choose(rng)) else { continue };
        if i == j {
            continue;
        }
        let d: Fr = nonzero(rng);
        let mut e = m.to_vec();
        for (k, d) in [(*i, d), (*j, -d)] {
            match &mut e[k] {
                Msg::Com(v) | Msg::Num(v) => *v += d,
                Msg::Draw => unreachable!(),
            }
        }
        r.push(("compensated", e));
    }
    r.push(("reversed", m.iter().rev().cloned().collect()));
    let mut e = m.to_vec();
    e.push(Msg::Num(Fr::zero()));
    r.push(("zero added", e));
    let mut e = m.to_vec();
    e.insert(0, Msg::Num(Fr::zero()));
    r.push(("zero in front", e));
    let mut e = m.to_vec();
    e.push(Msg::Com(Fr::zero()));
    r.push(("infinity added", e));
    r
}

fn c27_transcript(c: &mut Case) {
    with_hash!(c, transcript)
}

fn transcript<T: Digest + Default + Clone>(c: &mut Case, hash: &str) {
    // now and then a long history
    let n = if c.idx % 30 == 11 { c.rng.gen_range(20..300) } else { c.rng.gen_range(1..9) };
    let mut m: Vec<Msg> = vec![];
    for _ in 0..n {
        m.push(any_msg(&mut c.rng));
        if c.rng.gen_bool(0.25) {
            m.push(Msg::Draw);
        }
    }
    let desc = format!("{hash} {m:?}");
    c.sample(|| desc.clone());
    let Ok(base) = guard(|| play::<T>(&m)) else {
        return c.violation("transcript-panics", desc);
    };
    c.eval(("equal", &desc));
    let again = guard(|| play::<T>(&m));
    c.check(again.is_ok_and(|a| a == base), "not-deterministic", || desc.clone());
    let last = base.last().unwrap();
    c.check(last[0] != last[1], "equal-challenges", || desc.clone());
    for k in 1..base.len() {
        c.check(base[k] != base[k - 1] && base[k][0] != base[k - 1][0], "challenge-repeated", || desc.clone());
    }
    // drawing does not need a count that changes the values
    let counts = guard(|| {
        let mut t = Transcript::<T>::default();
        for x in &m {
            match x {
                Msg::Com(v) => t.feed(&commit_of(*v)),
                Msg::Num(v) => t.feed_scalar_num(*v),
                Msg::Draw => {}
            }
        }
        let mut s = t.clone();
        (t.generate_challenges::<1>(), s.generate_challenges::<4>(), guard(|| t.generate_challenges::<1>()).is_err())
    });
    match counts {
        Ok((one, four, refused)) => {
            let mut all = four.to_vec();
            all.sort();
            all.dedup();
            c.check(all.len() == 4, "equal-challenges", || desc.clone());
            let _ = one;
            c.check(refused, "drawn-twice", || desc.clone());
        }
        Err(e) => c.violation("transcript-panics", format!("{}: {desc}", e.msg)),
    }
    let unfed = guard(|| Transcript::<T>::default().generate_challenges::<1>());
    c.check(unfed.is_err(), "drawn-from-nothing", || hash.to_string());
    for (what, e) in edits(&mut c.rng, &m) {
        let strip = |m: &[Msg]| m.iter().filter(|x| **x != Msg::Draw).cloned().collect::<Vec<_>>();
        if strip(&e) == strip(&m) || strip(&e).is_empty() {
            continue;
        }
        let Ok(other) = guard(|| play::<T>(&e)) else {
            c.violation("transcript-panics", format!("{e:?}"));
            continue;
        };
        c.eval((what, format!("{e:?}")));
        c.count(&format!("edits: {what}"));
        // later challenges: compare the final ones
        let l = other.last().unwrap();
        c.check(
            l[0] != last[0] && l[1] != last[1],
            "edit-unnoticed",
            || format!("{what}: {m:?} and {e:?} under {hash}"),
        );
        // and those before the edit are the same
        let first = m.iter().zip(&e).position(|(a, b)| a != b).unwrap_or(m.len().min(e.len()));
        let before = m[..first].iter().filter(|x| **x == Msg::Draw).count();
        if before > 0 && before <= base.len() && before <= other.len() {
            let same = (0..before.saturating_sub(1)).all(|k| base[k] == other[k]);
            c.check(same, "earlier-challenge-changed", || format!("{what}: {m:?} and {e:?} under {hash}"));
        }
    }
    // the constructors are the same as feeding one by one
    let vals: Vec<Fr> = (0..n).map(|_| any_fr(&mut c.rng)).collect();
    let coms: Vec<KzgCommitment> = vals.iter().map(|v| commit_of(*v)).collect();
    let r = guard(|| {
        let a = Transcript::<T>::from_commitment(&coms).generate_challenges::<2>();
        let b = play::<T>(&vals.iter().map(|v| Msg::Com(*v)).collect::<Vec<_>>());
        let x = Transcript::<T>::from_scalar_number(&vals).generate_challenges::<2>();
        let y = play::<T>(&vals.iter().map(|v| Msg::Num(*v)).collect::<Vec<_>>());
        a == b[0] && x == y[0]
    });
    c.check(r.is_ok_and(|x| x), "constructor", || format!("{} under {hash}", hexes(&vals)));
}

fn c27_hash(c: &mut Case) {
    with_hash!(c, hash_io)
}

fn hash_io<T: Digest + Default + std::io::Write>(c: &mut Case, hash: &str) {
    let nx = if c.idx % 10 == 3 { c.rng.gen_range(4..80) } else { c.rng.gen_range(0..4) };
    let mut base = (
        any_field::<Fq>(&mut c.rng),
        any_field::<Fq>(&mut c.rng),
        any_field::<Fq>(&mut c.rng),
        any_fr(&mut c.rng),
        any_fr(&mut c.rng),
        any_fr(&mut c.rng),
        (0..nx).map(|_| any_fr(&mut c.rng)).collect::<Vec<Fr>>(),
    );
    type Args = (Fq, Fq, Fq, Fr, Fr, Fr, Vec<Fr>);
    // parts that are equal
    match c.rng.gen_range(0..12) {
        0 => base.2 = base.1,
        1 => base.5 = base.3,
        2 => base.0 = base.1,
        3 if nx > 0 => base.6[nx - 1] = base.4,
        4 if nx > 1 => base.6[nx - 2] = base.6[nx - 1],
        _ => {}
    }
    let run = |a: &Args| {
        guard(|| {
            Aug::<T>::hash_io(
                a.0,
                &State { state: a.1 },
                &State { state: a.2 },
                &FInstance { com_e: commit_of(a.3), u: a.4, com_w: commit_of(a.5), x: a.6.clone() },
            )
        })
    };
    let desc = format!("{hash} {base:?}");
    c.eval(&desc);
    let Ok(h) = run(&base) else { return c.violation("hash-panics", desc) };
    c.distinct("state hashes", hex(&h));
    c.check(run(&base).is_ok_and(|x| x == h), "not-deterministic", || desc.clone());
    let e: Fq = nonzero(&mut c.rng);
    let d: Fr = nonzero(&mut c.rng);
    for n in 0..28 + nx {
        let mut a = base.clone();
        let what = match n {
            0 => { shift(&mut a.0, e); "step" }
            1 => { shift(&mut a.1, e); "initial state" }
            2 => { shift(&mut a.2, e); "state" }
            3 => { a.3 += d; "com_e" }
            4 => { shift(&mut a.4, d); "u" }
            5 => { a.5 += d; "com_w" }
            6 if nx > 0 => {
                let i = c.rng.gen_range(0..nx);
                shift(&mut a.6[i], d);
                "x"
            }
            7 => { a.6.push(Fr::zero()); "x longer" }
            8 => { a.6.pop(); "x shorter" }
            9 => { std::mem::swap(&mut a.0, &mut a.1); "step and initial state swapped" }
            10 => { std::mem::swap(&mut a.1, &mut a.2); "states swapped" }
            11 => { std::mem::swap(&mut a.3, &mut a.5); "commitments swapped" }
            12 => { a.3 = -a.3; "com_e negated" }
            13 => { a.5 = -a.5; "com_w negated" }
            14 if nx > 1 => { a.6.swap(0, 1); "x swapped" }
            15 => { std::mem::swap(&mut a.0, &mut a.2); "step and state swapped" }
            16 if nx > 1 => {
                let i = c.rng.gen_range(0..nx);
                let j = (i + c.rng.gen_range(1..nx)) % nx;
                a.6[i] += d;
                a.6[j] -= d;
                "x compensated"
            }
            17 if nx > 1 => {
                let i = c.rng.gen_range(0..nx);
                let j = (i + c.rng.gen_range(1..nx)) % nx;
                a.6.swap(i, j);
                "x reordered"
            }
            18 => { a.1 += e; a.2 -= e; "states compensated" }
            19 => { a.0 += e; a.2 -= e; "step and state compensated" }
            20 => { a.0 += e; a.1 -= e; "step and initial state compensated" }
            21 => { a.3 += d; a.5 -= d; "commitments compensated" }
            22 if nx > 0 => { std::mem::swap(&mut a.4, &mut a.6[0]); "u and x swapped" }
            23 if nx > 0 => { a.4 += d; a.6[nx - 1] -= d; "u and x compensated" }
            24 => { a.1 += e; a.2 += e; "both states shifted" }
            25 => { a.3 += d; a.5 += d; "both commitments shifted" }
            26 if nx > 0 => { let last = a.6[nx - 1]; a.6.push(last); "last x twice" }
            27 => { a.0 = -a.0; a.1 = -a.1; a.2 = -a.2; "step and states negated" }
            n if n >= 28 => { shift(&mut a.6[n - 28], d); "one x" }
            _ => continue,
        };
        if a == base {
            continue;
        }
        c.eval((what, format!("{a:?}")));
        c.count(&format!("edits of {what}"));
        c.check(run(&a).is_ok_and(|x| x != h), "hash-edit-unnoticed", || format!("{what}: {desc}"));
    }
}

/// How much of the digest the challenges and state hashes depend on
fn c27_entropy(c: &mut Case) {
    let which = c.idx % 2;
    let mut bytes = 0;
    for k in 0..32 {
        set_mask(k);
        let mut seen = std::collections::HashSet::new();
        for j in 0..24u64 {
            let v = match which {
                0 => guard(|| play::<Mask10>(&[Msg::Num(Fr::from(j))])[0][0]).map(|x| hex(&x)),
                _ => {
                    let (_, u) = create_trivial_pair(1, 1, &kzg::scheme::KzgScheme::new(kzg::srs::Srs::new_from_secret(Fr::from(5), 4)));
                    guard(|| Aug::<Mask10>::hash_io(Fq::from(j), &State { state: Fq::one() }, &State { state: Fq::one() }, &u))
                        .map(|x| hex(&x))
                }
            };
            match v {
                Ok(v) => {
                    seen.insert(v);
                }
                Err(e) => return c.violation("entropy-panics", e.msg),
            }
        }
        c.eval((which, k));
        if seen.len() > 3 {
            bytes += 1;
        }
    }
    set_mask(0);
    let need = if which == 1 { 31 } else { 8 };
    let what = ["transcript", "state hash"][which as usize];
    c.maximum(["digest bytes used by the transcript", "digest bytes used by the state hash"][which as usize], bytes);
    c.check(bytes >= need, "digest-cut-short", || format!("the {what} depends on {bytes} bytes of the digest only"));
    if which == 0 {
        // 34 bits of pairs: a seed of 32 bits or less collides
        let start: u64 = c.rng.gen_range(0..1 << 40);
        let n = if c.thorough() { 1u64 << 20 } else { 1 << 17 };
        let mut seen = std::collections::HashMap::new();
        for j in 0..n {
            let Ok(v) = guard(|| play::<Sha256>(&[Msg::Num(Fr::from(start + j))])[0][0]) else { return };
            if let Some(o) = seen.insert(v, j) {
                return c.violation("challenges-collide", format!("the messages {} and {} lead to one challenge", start + o, start + j));
            }
        }
        c.count_n("challenges without collision", n);
    }
}
