//! C01-C05: the polynomial commitment scheme, judged with the known secret of the reference string.
use ark_bls12_381::{Bls12_381, Fr, G1Affine, G2Affine};
use ark_ec::pairing::Pairing;
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{One, UniformRand, Zero};
use ark_poly::DenseUVPolynomial;
use kzg::commitment::KzgCommitment;
use kzg::opening::KzgOpening;
use kzg::scheme::KzgScheme;
use kzg::srs::Srs;
use rand::rngs::StdRng;
use rand::{Error, Rng, RngCore, SeedableRng};

use crate::common::*;
use crate::core::*;

pub static PROPERTIES: &[Property] = &[
    Property {
        id: "C01",
        rule: "A case draws a secret (0, 1 or random), a string size, coefficients (random, sparse, zero, trailing zeros, maximal length) and a point (special, random, a root, the secret); non-trivial: the polynomial is not zero. Oracle: group elements computed from the secret by a separate Horner evaluation, and acceptance by verification.",
        assumptions: &["arkworks field and group arithmetic is right"],
        groups: &[
            Group { name: "honest", quick: 1500, run: c01_honest },
            Group { name: "oversize", quick: 200, run: c01_oversize },
            Group { name: "every-length", quick: 280, run: c01_every_length },
            Group { name: "large", quick: 4, run: c01_large },
        ],
    },
    Property {
        id: "C02",
        rule: "A case is a tuple (C, W, y, z) with known or computed discrete logarithms: valid, altered in one or several places, compensated, at infinity, swapped or of another polynomial, and every combination of components from one pool of eight related scalars; all are non-trivial and counted by their values. Oracle: W(s-z) = C - yG computed in the group with the secret s.",
        assumptions: &["arkworks field, group and pairing arithmetic is right"],
        groups: &[
            Group { name: "tuples", quick: 2500, run: c02_tuples },
            Group { name: "related", quick: 4096, run: c02_related },
            Group { name: "openings", quick: 1000, run: c02_openings },
        ],
    },
    Property {
        id: "C03",
        rule: "A case is a random program of operations on commitments and openings shadowed by the same program on scalars; non-trivial: at least one operation. Oracle: discrete logarithm of the result, acceptance of combined openings.",
        assumptions: &["arkworks field and group arithmetic is right"],
        groups: &[
            Group { name: "programs", quick: 2000, run: c03_programs },
            Group { name: "openings", quick: 1000, run: c03_openings },
            Group { name: "aggregate", quick: 1600, run: c03_aggregate },
        ],
    },
    Property {
        id: "C04",
        rule: "A case is a batch of openings with a chosen set of invalid members, errors independent or built to cancel under equal weights; oracle: every member satisfies its equation under the known secret. Non-trivial: the batch is not empty. The random generator is seeded, so acceptance of an invalid batch is not chance.",
        assumptions: &["the caller's random generator is unpredictable to the prover", "arkworks arithmetic is right"],
        groups: &[
            Group { name: "valid", quick: 300, run: c04_valid },
            Group { name: "one-invalid", quick: 600, run: c04_one_invalid },
            Group { name: "cancelling", quick: 1200, run: c04_cancelling },
            Group { name: "many-tries", quick: 40, run: c04_many_tries },
            Group { name: "lengths", quick: 40, run: c04_lengths },
            Group { name: "repeated", quick: 600, run: c04_repeated },
            Group { name: "weak-weights", quick: 120, run: c04_weak_weights },
            Group { name: "long", quick: 96, run: c04_long },
        ],
    },
    Property {
        id: "C05",
        rule: "A case draws a secret and a size and compares every element of the string with its definition, or generates strings without a given secret (also on several threads and in several processes) and compares them pairwise and with small multiples of the generator. Non-trivial: counted by secret and size.",
        assumptions: &["a fresh secret below 2^36 is not chance"],
        groups: &[
            Group { name: "structure", quick: 250, run: c05_structure },
            Group { name: "fresh", quick: 4, run: c05_fresh },
            Group { name: "concurrent", quick: 4, run: c05_concurrent },
            Group { name: "processes", quick: 2, run: c05_processes },
            Group { name: "long", quick: 4, run: c05_long },
        ],
    },
];

struct Setup {
    s: Fr,
    size: usize,
    srs: Srs,
    scheme: KzgScheme,
}

fn setup(c: &mut Case, max: usize) -> Setup {
    let size = c.rng.gen_range(0..=max);
    let s = if c.rng.gen_bool(0.15) {
        any_fr(&mut c.rng)
    } else {
        rand_fr(&mut c.rng)
    };
    let srs = Srs::new_from_secret(s, size);
    Setup {
        s,
        size,
        scheme: KzgScheme::new(srs.clone()),
        srs,
    }
}

fn quotient_at(coeffs: &[Fr], z: Fr, s: Fr) -> Fr {
    // synthetic division, then evaluation at s
    let n = coeffs.len();
    if n < 2 {
        return Fr::zero();
    }
    let mut q = vec![Fr::zero(); n - 1];
    let mut carry = Fr::zero();
    for i in (1..n).rev() {
        carry = coeffs[i] + carry * z;
        q[i - 1] = carry;
    }
    horner(&q, s)
}

fn honest(c: &mut Case, st: &Setup, coeffs: Vec<Fr>, z: Fr) {
    let poly = Poly::from_coefficients_vec(coeffs.clone());
    let ps = horner(&coeffs, st.s);
    let y = horner(&coeffs, z);
    let qs = quotient_at(&coeffs, z, st.s);
    let desc = || {
        format!(
            "size {} secret {} coeffs {} z {}",
            st.size,
            hex(&st.s),
            hexes(&coeffs),
            hex(&z)
        )
    };
    c.sample(&desc);
    if poly.coeffs.is_empty() {
        c.eval_trivial();
    } else {
        c.eval(desc());
    }
    let got = guard(|| {
        (
            st.scheme.commit(&poly),
            st.scheme.commit_vector(&coeffs),
            st.scheme.open(&poly, z),
            st.scheme.open_vector(&coeffs, z),
        )
    });
    let (cm, cv, op, ov) = match got {
        Ok(x) => x,
        Err(p) => {
            c.violation("refuses-honest", format!("panic {p:?} on {}", desc()));
            return;
        }
    };
    c.check(cm.0 == g1(ps), "commit-value", &desc);
    c.check(cv.0 == g1(ps), "commit-vector-value", &desc);
    c.check(*cm.inner() == cm.0, "commit-inner", &desc);
    for (name, o) in [("open", &op), ("open-vector", &ov)] {
        c.check(o.1 == y, &format!("{name}-evaluation"), &desc);
        c.check(o.0 == g1(qs), &format!("{name}-witness"), &desc);
        c.check(o.clone().eval() == o.1, &format!("{name}-eval"), &desc);
        match guard(|| st.scheme.verify(&cm, o, z)) {
            Ok(true) => c.count("accepted openings"),
            Ok(false) => c.violation(&format!("{name}-rejected"), desc()),
            Err(p) => c.violation(&format!("{name}-verify-panics"), format!("{p:?} {}", desc())),
        }
    }
    if st.s == z {
        c.count("opened at the secret");
    }
    if y.is_zero() {
        c.count("opened at a root");
    }
}

fn c01_honest(c: &mut Case) {
    let st = setup(c, if c.thorough() { 40 } else { 12 });
    let mut coeffs: Vec<Fr> = any_coeffs(&mut c.rng, st.size + 3);
    c.maximum("number of coefficients", coeffs.len() as u64);
    let z = match c.rng.gen_range(0..6) {
        0 => st.s,
        1 => {
            // make z a root
            let z = any_fr(&mut c.rng);
            let y = horner(&coeffs, z);
            if let Some(x) = coeffs.first_mut() {
                *x -= y;
            }
            z
        }
        _ => any_fr(&mut c.rng),
    };
    honest(c, &st, coeffs, z);
    // scalars, and points given as integers
    let v = any_fr(&mut c.rng);
    c.eval(("para", hex(&v)));
    match guard(|| st.scheme.commit_para(v)) {
        Ok(x) => {
            c.check(x.0 == g1(v), "commit-para", || hex(&v));
        }
        Err(p) => c.violation("commit-para-panics", format!("{p:?} on {}", hex(&v))),
    }
    if c.idx % 8 == 0 {
        let n = c.rng.gen_range(0u64..1000);
        let poly = any_poly(&mut c.rng, st.size + 3);
        c.eval(("int", n, hexes(&poly.coeffs)));
        let ok = guard(|| {
            let o = st.scheme.open(&poly, n);
            st.scheme.verify(&st.scheme.commit(&poly), &o, n) && o.1 == horner(&poly.coeffs, Fr::from(n))
        });
        c.check(matches!(ok, Ok(true)), "open-integer-point", || {
            format!("{ok:?} at {n} for {}", hexes(&poly.coeffs))
        });
    }
}

/// Each number of coefficients from 0 on in turn, with the whole string or more than needed
fn c01_every_length(c: &mut Case) {
    let n = c.idx as usize;
    let s = rand_fr(&mut c.rng);
    let size = n.saturating_sub(3) + c.rng.gen_range(0..4) * c.rng.gen_range(0..8);
    let srs = Srs::new_from_secret(s, size);
    let st = Setup {
        s,
        size,
        scheme: KzgScheme::new(srs.clone()),
        srs,
    };
    let mut coeffs: Vec<Fr> = (0..n).map(|_| rand_fr(&mut c.rng)).collect();
    if c.rng.gen_bool(0.3) {
        // some of them zero, also at the end
        for x in &mut coeffs {
            if c.rng.gen_bool(0.2) {
                *x = Fr::zero();
            }
        }
    }
    let z = any_fr(&mut c.rng);
    c.maximum("number of coefficients", n as u64);
    honest(c, &st, coeffs, z);
}

fn c01_large(c: &mut Case) {
    let s = rand_fr(&mut c.rng);
    let size = if c.thorough() { 1500 } else { 300 };
    let srs = Srs::new_from_secret(s, size);
    let st = Setup {
        s,
        size,
        scheme: KzgScheme::new(srs.clone()),
        srs,
    };
    let coeffs: Vec<Fr> = (0..size + 3).map(|_| rand_fr(&mut c.rng)).collect();
    let z = rand_fr(&mut c.rng);
    c.maximum("number of coefficients", coeffs.len() as u64);
    honest(c, &st, coeffs, z);
}

fn c01_oversize(c: &mut Case) {
    let st = setup(c, 8);
    let extra = c.rng.gen_range(1..5);
    let mut coeffs: Vec<Fr> = (0..st.srs.g1_points().len() + extra)
        .map(|_| any_fr(&mut c.rng))
        .collect();
    *coeffs.last_mut().unwrap() = nonzero(&mut c.rng);
    let poly = Poly::from_coefficients_vec(coeffs.clone());
    c.eval((st.size, hexes(&coeffs)));
    let right = g1(horner(&coeffs, st.s));
    for (name, r) in [
        ("commit", guard(|| st.scheme.commit(&poly))),
        ("commit-vector", guard(|| st.scheme.commit_vector(&coeffs))),
    ] {
        match r {
            Err(_) => c.count("oversize refused"),
            Ok(cm) => {
                c.check(cm.0 == right, &format!("{name}-truncates"), || {
                    format!(
                        "{} coefficients with a string of {} points",
                        coeffs.len(),
                        st.srs.g1_points().len()
                    )
                });
            }
        }
    }
}

fn expected(s: Fr, cm: &KzgCommitment, op: &KzgOpening, z: Fr) -> bool {
    op.0 * (s - z) == cm.0.into_group() - g1_proj(op.1)
}

fn judge(c: &mut Case, st: &Setup, what: &str, cm: &KzgCommitment, op: &KzgOpening, z: Fr) {
    let want = expected(st.s, cm, op, z);
    c.eval((what, cm.0.to_string(), op.0.to_string(), hex(&op.1), hex(&z)));
    let desc = |v: &str| {
        format!(
            "{what}: secret {} C {} W {} y {} z {}: {v}",
            hex(&st.s),
            cm.0,
            op.0,
            hex(&op.1),
            hex(&z)
        )
    };
    match guard(|| st.scheme.verify(cm, op, z)) {
        Ok(got) => {
            c.count(if got { "accepted" } else { "rejected" });
            if got && !want {
                c.violation("accepts-wrong-opening", desc("accepted"));
            } else if !got && want {
                c.violation("rejects-right-opening", desc("rejected"));
            }
        }
        Err(p) => c.violation("verify-panics", desc(&format!("{p:?}"))),
    }
}

fn any_point(rng: &mut StdRng) -> G1Affine {
    match rng.gen_range(0..5) {
        0 => G1Affine::zero(),
        1 => G1Affine::generator(),
        2 => -G1Affine::generator(),
        _ => G1Affine::rand(rng),
    }
}

fn c02_tuples(c: &mut Case) {
    let st = setup(c, 1);
    let (w, y, z) = (
        any_fr(&mut c.rng),
        any_fr(&mut c.rng),
        if c.rng.gen_bool(0.1) { st.s } else { any_fr(&mut c.rng) },
    );
    let cc = y + w * (st.s - z);
    let (mut cm, mut op, mut zz) = (commit_of(cc), opening_of(w, y), z);
    let kind = c.rng.gen_range(0..14);
    let d: Fr = nonzero(&mut c.rng);
    let what = match kind {
        0 | 1 => "valid",
        2 => {
            shift(&mut op.1, d);
            "value"
        }
        3 => {
            op.0 = shift_point(op.0, d);
            "witness"
        }
        4 => {
            cm.0 = shift_point(cm.0, d);
            "commitment"
        }
        5 => {
            shift(&mut zz, d);
            "point"
        }
        6 => {
            op.0 = -op.0;
            "negated witness"
        }
        7 => {
            cm.0 = -cm.0;
            "negated commitment"
        }
        8 => {
            op.1 = -op.1;
            "negated value"
        }
        9 => {
            op.0 = any_point(&mut c.rng);
            "any witness"
        }
        10 => {
            cm.0 = any_point(&mut c.rng);
            "any commitment"
        }
        11 => {
            // compensated: still valid
            op.1 += d;
            cm.0 = (cm.0 + g1(d)).into_affine();
            "compensated value"
        }
        12 => {
            op.0 = (op.0 + g1(d)).into_affine();
            cm.0 = (cm.0 + g1_proj(d * (st.s - z))).into_affine();
            "compensated witness"
        }
        _ => {
            cm.0 = any_point(&mut c.rng);
            op.0 = any_point(&mut c.rng);
            op.1 = any_fr(&mut c.rng);
            "anything"
        }
    };
    c.sample(|| format!("{what}: C=({})G W=({})G y={} z={}", hex(&cc), hex(&w), hex(&y), hex(&z)));
    judge(c, &st, what, &cm, &op, zz);
}

/// Components that are degenerate or depend on one another: each of C, W, y and z is
/// taken from the same small pool (0, ±1, ±s, 1/s, one random scalar and its negative):
/// the coincidences (C = W, C = y·G, W = y·G, y = z, W and C at infinity, z = 0 ...) that
/// independent draws do not meet.
fn c02_related(c: &mut Case) {
    let st = setup(c, 1);
    let r = nonzero(&mut c.rng);
    let one = Fr::one();
    let inv = ark_ff::Field::inverse(&st.s).unwrap_or(one);
    let pool = [Fr::zero(), one, -one, st.s, -st.s, inv, r, -r];
    // every combination once in 4096 cases
    let i = c.idx as usize;
    let at = |k: usize| pool[(i >> (3 * k)) & 7];
    let (w, y, z, cc) = (at(0), at(1), at(2), at(3));
    c.distinct("combinations", i & 4095);
    judge(c, &st, "related", &commit_of(cc), &opening_of(w, y), z);
    // the same components completed to a tuple that is right
    judge(c, &st, "completed", &commit_of(y + w * (st.s - z)), &opening_of(w, y), z);
}

fn c02_openings(c: &mut Case) {
    let st = setup(c, 8);
    let f = any_poly(&mut c.rng, st.size + 3);
    let g = any_poly(&mut c.rng, st.size + 3);
    let (z1, z2) = (any_fr(&mut c.rng), any_fr(&mut c.rng));
    let r = guard(|| {
        (
            st.scheme.commit(&f),
            st.scheme.commit(&g),
            st.scheme.open(&f, z1),
            st.scheme.open(&g, z1),
            st.scheme.open(&f, z2),
        )
    });
    let Ok((cf, cg, f1, g1o, f2)) = r else {
        c.inconclusive("honest commit or open panicked");
        return;
    };
    judge(c, &st, "honest", &cf, &f1, z1);
    judge(c, &st, "other polynomial", &cg, &f1, z1);
    judge(c, &st, "other point", &cf, &f1, z2);
    judge(c, &st, "mixed witness", &cf, &KzgOpening(g1o.0, f1.1), z1);
    judge(c, &st, "mixed value", &cf, &KzgOpening(f1.0, f2.1), z1);
    judge(c, &st, "witness of other point", &cf, &KzgOpening(f2.0, f1.1), z1);
    judge(c, &st, "infinity", &KzgCommitment(G1Affine::zero()), &KzgOpening(G1Affine::zero(), Fr::zero()), z1);
    judge(c, &st, "infinity witness", &cf, &KzgOpening(G1Affine::zero(), f1.1), z1);
}

fn c03_programs(c: &mut Case) {
    let st = setup(c, 6);
    let n = c.rng.gen_range(1..5);
    let mut pool: Vec<(KzgCommitment, Fr)> = vec![];
    let mut log = vec![];
    for _ in 0..n {
        let p = any_poly(&mut c.rng, st.size + 3);
        match guard(|| st.scheme.commit(&p)) {
            Ok(cm) => pool.push((cm, horner(&p.coeffs, st.s))),
            Err(_) => {
                c.inconclusive("honest commit panicked");
                return;
            }
        }
    }
    let steps = c.rng.gen_range(1..10);
    for _ in 0..steps {
        let i = c.rng.gen_range(0..pool.len());
        let j = c.rng.gen_range(0..pool.len());
        let k = any_fr(&mut c.rng);
        let ((a, x), (b, y)) = (pool[i].clone(), pool[j].clone());
        let op = c.rng.gen_range(0..5);
        let r = guard(|| match op {
            0 => (a.clone() + b.clone(), x + y),
            1 => (a.clone() - b.clone(), x - y),
            2 => (-a.clone(), -x),
            3 => (a.clone() * k, x * k),
            _ => (&a * k, x * k),
        });
        log.push(format!("{} of {i} {j} {}", ["add", "sub", "neg", "mul", "mul-ref"][op], hex(&k)));
        c.count(["add", "sub", "neg", "mul", "mul by reference"][op]);
        match r {
            Ok((cm, v)) => {
                c.eval((log.join(";"), hex(&st.s)));
                let ok = cm.0 == g1(v);
                c.check(ok, ["add", "sub", "neg", "mul", "mul-ref"][op], || {
                    format!("dlogs {} {}: {}", hex(&x), hex(&y), log.last().unwrap())
                });
                if !ok {
                    return;
                }
                pool.push((cm, v));
            }
            Err(p) => {
                c.violation("operator-panics", format!("{p:?} in {log:?}"));
                return;
            }
        }
    }
    c.sample(|| log.join("; "));
}

fn c03_openings(c: &mut Case) {
    let st = setup(c, 6);
    let z = any_fr(&mut c.rng);
    let n = c.rng.gen_range(2..5);
    let polys: Vec<Poly> = (0..n).map(|_| any_poly(&mut c.rng, st.size + 3)).collect();
    let r = guard(|| {
        let cms: Vec<_> = polys.iter().map(|p| st.scheme.commit(p)).collect();
        let ops: Vec<_> = polys.iter().map(|p| st.scheme.open(p, z)).collect();
        let cm = cms.iter().cloned().reduce(|a, b| a + b).unwrap();
        let op = ops.iter().cloned().reduce(|a, b| a + b).unwrap();
        let ok = st.scheme.verify(&cm, &op, z);
        (op, ok)
    });
    let sum = polys.iter().fold(Poly::zero(), |a, p| a + p.clone());
    c.eval((hexes(&sum.coeffs), hex(&z)));
    let desc = || {
        let v: Vec<String> = polys.iter().map(|p| hexes(&p.coeffs)).collect();
        format!("secret {} z {} {v:?}", hex(&st.s), hex(&z))
    };
    c.sample(&desc);
    match r {
        Ok((op, ok)) => {
            c.check(op.1 == horner(&sum.coeffs, z), "opening-add-value", &desc);
            c.check(
                op.0 == g1(quotient_at(&sum.coeffs, z, st.s)),
                "opening-add-witness",
                &desc,
            );
            c.check(ok, "opening-add-rejected", &desc);
        }
        Err(p) => c.violation("opening-add-panics", format!("{p:?} {}", desc())),
    }
    // scaled commitments and openings
    let k = any_fr(&mut c.rng);
    let r = guard(|| {
        let cm = st.scheme.commit(&polys[0]) * k;
        let o = st.scheme.open(&polys[0], z);
        st.scheme
            .verify(&cm, &KzgOpening((o.0 * k).into_affine(), o.1 * k), z)
    });
    c.eval(("scaled", hexes(&polys[0].coeffs), hex(&z), hex(&k)));
    c.check(matches!(r, Ok(true)), "scaled-opening", || format!("{r:?} {}", desc()));
}

fn c03_aggregate(c: &mut Case) {
    let n = match c.rng.gen_range(0..5) {
        // each length in turn
        _ if c.idx < 140 => c.idx as usize,
        0 => c.rng.gen_range(0..2),
        1 => c.rng.gen_range(2..60),
        _ => c.rng.gen_range(2..9),
    };
    let logs: Vec<Fr> = (0..n).map(|_| any_fr(&mut c.rng)).collect();
    let ch = any_fr(&mut c.rng);
    let cms: Vec<KzgCommitment> = logs.iter().map(|x| commit_of(*x)).collect();
    let r = guard(|| KzgScheme::aggregate_commitments(&cms.iter().collect(), &ch));
    if n < 2 {
        c.eval_trivial();
    } else {
        c.eval((hexes(&logs), hex(&ch)));
    }
    let desc = || format!("logs {} challenge {}", hexes(&logs), hex(&ch));
    c.sample(&desc);
    match r {
        Ok(cm) => {
            c.check(cm.0 == g1(horner(&logs, ch)), "aggregate", &desc);
        }
        Err(p) => c.violation("aggregate-panics", format!("{p:?} {}", desc())),
    }
}

struct CountingRng {
    inner: StdRng,
    bytes: u64,
}
impl RngCore for CountingRng {
    fn next_u32(&mut self) -> u32 {
        self.bytes += 4;
        self.inner.next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        self.bytes += 8;
        self.inner.next_u64()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.bytes += d.len() as u64;
        self.inner.fill_bytes(d)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(d);
        Ok(())
    }
}

/// Members as discrete logarithms (c, w, y, z); valid when c = y + w(s-z)
struct Batch {
    m: Vec<(Fr, Fr, Fr, Fr)>,
}

impl Batch {
    fn valid(c: &mut Case, s: Fr, n: usize) -> Self {
        let same_point = c.rng.gen_bool(0.3);
        let z0 = any_fr(&mut c.rng);
        let m = (0..n)
            .map(|_| {
                let (w, y) = (any_fr(&mut c.rng), any_fr(&mut c.rng));
                let z = if same_point { z0 } else { any_fr(&mut c.rng) };
                (y + w * (s - z), w, y, z)
            })
            .collect();
        Self { m }
    }
    fn is_valid(&self, s: Fr) -> bool {
        self.m.iter().all(|(c, w, y, z)| *c == *y + *w * (s - z))
    }
    fn parts(&self) -> (Vec<KzgCommitment>, Vec<Fr>, Vec<KzgOpening>) {
        (
            self.m.iter().map(|x| commit_of(x.0)).collect(),
            self.m.iter().map(|x| x.3).collect(),
            self.m.iter().map(|x| opening_of(x.1, x.2)).collect(),
        )
    }
    fn show(&self) -> String {
        self.m
            .iter()
            .map(|(c, w, y, z)| format!("(c {} w {} y {} z {})", hex(c), hex(w), hex(y), hex(z)))
            .collect::<Vec<_>>()
            .join(" ")
    }
}

fn batch_judge(c: &mut Case, st: &Setup, b: &Batch, what: &str) {
    let want = b.is_valid(st.s);
    let (cm, z, op) = b.parts();
    let mut rng = CountingRng {
        inner: StdRng::seed_from_u64(c.rng.gen()),
        bytes: 0,
    };
    let r = guard(|| st.scheme.batch_verify(&cm, &z, &op, &mut rng));
    c.count_n("random bytes drawn by batch verification", rng.bytes);
    c.count_n("batch members", b.m.len() as u64);
    if b.m.is_empty() {
        c.eval_trivial();
    } else {
        c.eval((what, b.show()));
    }
    let desc = || format!("{what}: secret {} batch {}", hex(&st.s), b.show());
    match r {
        Ok(got) => {
            c.count(if got { "accepted" } else { "rejected" });
            if got && !want {
                c.violation("accepts-invalid-batch", desc());
            } else if !got && want {
                c.violation("rejects-valid-batch", desc());
            }
        }
        Err(p) => c.violation("batch-panics", format!("{p:?} {}", desc())),
    }
}

fn c04_valid(c: &mut Case) {
    let st = setup(c, 2);
    let n = if c.idx % 3 == 0 { c.idx as usize / 3 } else { c.rng.gen_range(0..8) };
    c.maximum("number of openings", n as u64);
    let mut b = Batch::valid(c, st.s, n);
    if n > 1 && c.rng.gen_bool(0.3) {
        b.m[n - 1] = b.m[0];
    }
    c.sample(|| b.show());
    batch_judge(c, &st, &b, "valid");
    // real openings of polynomials
    let st = setup(c, 5);
    let m = c.rng.gen_range(1..5);
    let polys: Vec<Poly> = (0..m).map(|_| any_poly(&mut c.rng, st.size + 3)).collect();
    let z: Vec<Fr> = (0..m).map(|_| any_fr(&mut c.rng)).collect();
    let seed = c.rng.gen();
    let r = guard(|| {
        let cm: Vec<_> = polys.iter().map(|p| st.scheme.commit(p)).collect();
        let op: Vec<_> = polys.iter().zip(&z).map(|(p, z)| st.scheme.open(p, *z)).collect();
        st.scheme
            .batch_verify(&cm, &z, &op, &mut StdRng::seed_from_u64(seed))
    });
    c.eval(("real", hexes(&z)));
    c.check(matches!(r, Ok(true)), "rejects-valid-batch", || {
        format!("{r:?} for openings of polynomials")
    });
}

fn c04_one_invalid(c: &mut Case) {
    let st = setup(c, 1);
    let n = if c.idx % 5 == 0 { 1 + c.idx as usize / 5 } else { c.rng.gen_range(1..7) };
    let mut b = Batch::valid(c, st.s, n);
    // every index in turn, the last ones of long batches
    let i = if n > 8 { n - 1 - c.rng.gen_range(0..n.min(12)) } else { c.idx as usize % n };
    let d: Fr = nonzero(&mut c.rng);
    match c.rng.gen_range(0..4) {
        0 => shift(&mut b.m[i].0, d),
        1 => shift(&mut b.m[i].1, d),
        2 => shift(&mut b.m[i].2, d),
        _ => shift(&mut b.m[i].3, d),
    }
    c.sample(|| format!("member {i}: {}", b.show()));
    batch_judge(c, &st, &b, "one invalid");
}

fn cancel(c: &mut Case, b: &mut Batch, s: Fr) -> &'static str {
    let n = b.m.len();
    let i = c.rng.gen_range(0..n);
    let j = (i + c.rng.gen_range(1..n)) % n;
    let d: Fr = nonzero(&mut c.rng);
    match c.rng.gen_range(0..6) {
        0 => {
            b.m[i].2 += d;
            b.m[j].2 -= d;
            "values"
        }
        1 => {
            b.m[i].0 += d;
            b.m[j].0 -= d;
            "commitments"
        }
        2 => {
            // witness errors with the same total effect
            b.m[j].3 = b.m[i].3;
            b.m[j].0 = b.m[j].2 + b.m[j].1 * (s - b.m[j].3);
            b.m[i].1 += d;
            b.m[j].1 -= d;
            "witnesses"
        }
        3 => {
            b.m[i].2 += d;
            b.m[j].0 += d;
            "value against commitment"
        }
        4 => {
            // exchanged witnesses at one point
            b.m[j].3 = b.m[i].3;
            b.m[j].0 = b.m[j].2 + b.m[j].1 * (s - b.m[j].3);
            let t = b.m[i].1;
            b.m[i].1 = b.m[j].1;
            b.m[j].1 = t;
            "exchanged"
        }
        _ => {
            // errors spread over the whole batch with sum zero
            let mut sum = Fr::zero();
            for k in 1..n {
                let e: Fr = nonzero(&mut c.rng);
                b.m[k].2 += e;
                sum += e;
            }
            b.m[0].2 -= sum;
            "spread values"
        }
    }
}

fn c04_cancelling(c: &mut Case) {
    let st = setup(c, 1);
    let n = c.rng.gen_range(2..7);
    let mut b = Batch::valid(c, st.s, n);
    let what = cancel(c, &mut b, st.s);
    c.sample(|| format!("{what}: {}", b.show()));
    batch_judge(c, &st, &b, what);
}

/// Small weights accept a cancelling batch now and then: the same batch, many generators.
fn c04_many_tries(c: &mut Case) {
    let st = setup(c, 1);
    let mut b = Batch::valid(c, st.s, 2);
    let d: Fr = nonzero(&mut c.rng);
    b.m[0].2 += d;
    b.m[1].2 -= d;
    let (cm, z, op) = b.parts();
    let tries = if c.thorough() { 400 } else { 60 };
    for _ in 0..tries {
        let seed: u64 = c.rng.gen();
        let mut rng = StdRng::seed_from_u64(seed);
        c.eval((b.show(), seed));
        if let Ok(true) = guard(|| st.scheme.batch_verify(&cm, &z, &op, &mut rng)) {
            c.violation("accepts-invalid-batch", format!("one of {tries} generators: {}", b.show()));
            return;
        }
    }
}

/// Long batches with errors that cancel under weights that come back: after a period, mirrored,
/// in neighbouring pairs, or at two positions.
fn c04_long(c: &mut Case) {
    let st = setup(c, 1);
    let d = 1 + (c.idx / 4) as usize % 33;
    let n = match c.idx % 4 {
        0 => 2 * d,
        _ => c.rng.gen_range(2..80),
    };
    let mut b = Batch::valid(c, st.s, n);
    let part = c.rng.gen_range(0..2);
    let mut err = |b: &mut Batch, i: usize, e: Fr| match part {
        0 => b.m[i].0 += e,
        _ => b.m[i].2 += e,
    };
    let e: Vec<Fr> = (0..n).map(|_| nonzero(&mut c.rng)).collect();
    let what = match c.idx % 4 {
        0 => {
            for i in 0..d {
                err(&mut b, i, e[i]);
                err(&mut b, i + d, -e[i]);
            }
            "periodic"
        }
        1 => {
            for i in 0..n / 2 {
                err(&mut b, i, e[i]);
                err(&mut b, n - 1 - i, -e[i]);
            }
            "mirrored"
        }
        2 => {
            let first = c.rng.gen_range(0..2).min(n - 2);
            for i in (first..n - 1).step_by(2) {
                err(&mut b, i, e[i]);
                err(&mut b, i + 1, -e[i]);
            }
            "pairs"
        }
        _ => {
            let i = c.rng.gen_range(0..n);
            let j = (i + c.rng.gen_range(1..n)) % n;
            err(&mut b, i, e[0]);
            err(&mut b, j, -e[0]);
            "two"
        }
    };
    c.maximum("members of a batch", n as u64);
    batch_judge(c, &st, &b, what);
}

/// Members that agree with a valid one in all but one of their parts
fn c04_repeated(c: &mut Case) {
    let st = setup(c, 1);
    let n = c.rng.gen_range(1..4);
    let mut b = Batch::valid(c, st.s, n);
    let mut what = vec![];
    for _ in 0..c.rng.gen_range(1..3) {
        let mut x = b.m[c.rng.gen_range(0..b.m.len())];
        let d: Fr = nonzero(&mut c.rng);
        let k = c.rng.gen_range(0..6);
        match k {
            0 => shift(&mut x.0, d),
            1 => shift(&mut x.1, d),
            2 => shift(&mut x.2, d),
            3 => shift(&mut x.3, d),
            4 => {
                // the same commitment at another point, as it should be
                x.3 = any_fr(&mut c.rng);
                x.2 = any_fr(&mut c.rng);
                if st.s != x.3 {
                    x.1 = (x.0 - x.2) / (st.s - x.3);
                }
            }
            _ => {}
        }
        what.push(k);
        let at = c.rng.gen_range(0..=b.m.len());
        b.m.insert(at, x);
    }
    c.sample(|| format!("{what:?}: {}", b.show()));
    batch_judge(c, &st, &b, "repeated");
}

/// A generator of which 32 bits out of some of the words are fixed, all others random
struct FixedRng {
    inner: StdRng,
    value: u32,
    high: bool,
    period: u64,
    phase: u64,
    calls: u64,
    fixed_bits: u64,
}
impl FixedRng {
    fn turn(&mut self) -> bool {
        self.calls += 1;
        let hit = (self.calls - 1) % self.period == self.phase;
        if hit {
            self.fixed_bits += 32;
        }
        hit
    }
}
impl RngCore for FixedRng {
    fn next_u32(&mut self) -> u32 {
        let x = self.inner.next_u32();
        if self.turn() {
            self.value
        } else {
            x
        }
    }
    fn next_u64(&mut self) -> u64 {
        let x = self.inner.next_u64();
        match (self.turn(), self.high) {
            (false, _) => x,
            (true, false) => (x & !0xffff_ffff) | self.value as u64,
            (true, true) => (x & 0xffff_ffff) | ((self.value as u64) << 32),
        }
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.inner.fill_bytes(d);
        if self.turn() {
            let v = self.value.to_le_bytes();
            for (a, b) in d.iter_mut().zip(v) {
                *a = b
            }
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(d);
        Ok(())
    }
}

/// An invalid batch that is accepted whenever some 32 bits of each member's randomness take given
/// values is accepted with a probability that is not negligible. The other bits are drawn afresh
/// and every trial has to accept.
fn c04_weak_weights(c: &mut Case) {
    let st = setup(c, 1);
    // how many words a member takes
    let b = Batch::valid(c, st.s, 2);
    let (cm, z, op) = b.parts();
    let mut rng = FixedRng { inner: StdRng::seed_from_u64(1), value: 0, high: false, period: 1 << 60, phase: 1 << 59, calls: 0, fixed_bits: 0 };
    if guard(|| st.scheme.batch_verify(&cm, &z, &op, &mut rng)).is_err() {
        return c.inconclusive("the valid batch is not verified");
    }
    c.maximum("words drawn for two members", rng.calls);
    // one randomizer for all of them, or one each
    let periods: Vec<u64> = [rng.calls / 2, rng.calls].into_iter().filter(|p| *p > 0 && *p <= 16).collect();
    for period in periods {
        for phase in 0..period {
            for high in [false, true] {
                let value: u32 = c.rng.gen();
                let r: Vec<Fr> = vec![
                    Fr::one(),
                    Fr::from(value as u8),
                    Fr::from(value as i8 as i64 as u64),
                    Fr::from(value as u16),
                    Fr::from(value >> 16),
                    Fr::from(value),
                    Fr::from((value >> 24) as u8),
                    Fr::from(value as i32),
                ];
                for (k, r) in r.into_iter().enumerate() {
                    let mut b = Batch::valid(c, st.s, 2);
                    let d: Fr = nonzero(&mut c.rng);
                    // e0 + r e1 = 0, or equal weights
                    b.m[0].2 += d * r;
                    b.m[1].2 -= d;
                    if b.is_valid(st.s) {
                        continue;
                    }
                    let (cm, z, op) = b.parts();
                    let mut all = true;
                    let mut bits = 0;
                    for _ in 0..3 {
                        let mut rng = FixedRng { inner: StdRng::seed_from_u64(c.rng.gen()), value, high, period, phase, calls: 0, fixed_bits: 0 };
                        let r = guard(|| st.scheme.batch_verify(&cm, &z, &op, &mut rng));
                        bits = rng.fixed_bits;
                        all &= matches!(r, Ok(true));
                        if !all {
                            break;
                        }
                    }
                    c.eval((period, phase, high, k, b.show()));
                    c.count("batches against fixed words");
                    if all && bits <= 64 {
                        return c.violation(
                            "weak-weights",
                            format!("an invalid batch of two is accepted whenever {bits} of the random bits take given values (word {phase} of {period}, value {value:#x}): {}", b.show()),
                        );
                    }
                }
            }
        }
    }
}

fn c04_lengths(c: &mut Case) {
    let st = setup(c, 1);
    let n = c.rng.gen_range(1..5);
    let b = Batch::valid(c, st.s, n);
    let (mut cm, mut z, mut op) = b.parts();
    match c.idx % 5 {
        0 => {
            cm.pop();
        }
        1 => {
            z.pop();
        }
        2 => {
            op.pop();
        }
        3 => {
            op.push(opening_of(Fr::one(), Fr::one()));
        }
        _ => {
            cm.push(commit_of(Fr::one()));
        }
    }
    c.eval((c.idx % 5, b.show()));
    let mut rng = StdRng::seed_from_u64(1);
    let r = guard(|| st.scheme.batch_verify(&cm, &z, &op, &mut rng));
    c.check(!matches!(r, Ok(true)), "accepts-unequal-lengths", || {
        format!("{} commitments {} points {} openings", cm.len(), z.len(), op.len())
    });
}

fn c05_structure(c: &mut Case) {
    let size = if c.idx < 4 {
        c.idx as usize
    } else {
        let most = if c.thorough() { [40, 300, 1200] } else { [40, 40, 300] };
        c.rng.gen_range(0..most[c.idx as usize % 3])
    };
    let s = any_fr(&mut c.rng);
    c.eval((size, hex(&s)));
    c.sample(|| format!("size {size} secret {}", hex(&s)));
    let srs = match guard(|| Srs::new_from_secret(s, size)) {
        Ok(x) => x,
        Err(p) => {
            c.violation("srs-panics", format!("{p:?} size {size}"));
            return;
        }
    };
    let points = srs.g1_points();
    c.count_n("powers compared", points.len() as u64);
    c.check(points.len() == size + 3, "srs-length", || {
        format!("size {size}: {} points", points.len())
    });
    let mut pow = Fr::one();
    for (i, p) in points.iter().enumerate() {
        if !c.check(*p == g1(pow), "srs-power", || {
            format!("power {i} of {} in a string of size {size}", hex(&s))
        }) {
            break;
        }
        pow *= s;
    }
    c.check(srs.g2() == G2Affine::generator(), "srs-g2", || format!("size {size}"));
    c.check(srs.g2s() == G2Affine::generator() * s, "srs-g2s", || format!("size {size} {}", hex(&s)));
    c.check(
        guard(|| Srs::new_from_secret(s, size)).ok().as_ref() == Some(&srs),
        "srs-not-deterministic",
        || format!("size {size} {}", hex(&s)),
    );
}

fn consistent(c: &mut Case, srs: &Srs) {
    let p = srs.g1_points();
    for w in p.windows(2) {
        let ok = Bls12_381::pairing(w[1], srs.g2()) == Bls12_381::pairing(w[0], srs.g2s());
        c.check(ok, "fresh-srs-structure", || "consecutive powers disagree".to_string());
    }
    c.check(p.first() == Some(&G1Affine::generator()), "fresh-srs-generator", String::new);
}

fn no_small_secret(c: &mut Case, srs: &[Srs]) {
    let bits = if c.thorough() { 40 } else { 36 };
    for s in srs {
        let Some(p) = s.g1_points().get(1).copied() else { continue };
        let found = crate::small::small_logarithm(p, bits);
        c.count("secrets searched for");
        c.check(found.is_none(), "fresh-srs-small-secret", || format!("the secret is {found:?}"));
    }
}

fn all_distinct(c: &mut Case, srs: &[Srs]) {
    let mut seen = std::collections::HashSet::new();
    for s in srs {
        let p = s.g1_points();
        let k = p.get(1).map(|p| p.to_string()).unwrap_or_default();
        c.eval(&k);
        c.check(seen.insert(k.clone()), "fresh-srs-repeats", || {
            format!("two strings share the secret of {k}")
        });
    }
    c.count_n("fresh strings", srs.len() as u64);
    // a secret derived from the one before: by a power, a sign, a small step or a small factor
    for (a, b) in srs.iter().zip(srs.iter().skip(1)) {
        let (p, q) = (a.g1_points(), b.g1_points());
        let (Some(x), Some(y)) = (p.get(1), q.get(1)) else { continue };
        let powers = p.iter().skip(1).any(|z| z == y || -*z == *y) || q.iter().skip(1).any(|z| z == x || -*z == *x);
        c.check(!powers, "fresh-srs-powers", || "a secret is a power of the one before".into());
        c.count("related secrets searched for");
    }
    for (a, b) in srs.iter().zip(srs.iter().skip(1)).take(2) {
        let (p, q) = (a.g1_points(), b.g1_points());
        let (Some(x), Some(y)) = (p.get(1), q.get(1)) else { continue };
        let step = (y.into_group() - x.into_group()).into_affine();
        c.check(crate::small::small_logarithm(step, 24).is_none(), "fresh-srs-steps", || "secrets differ by a small number".into());
        let mut m = x.into_group();
        let multiples: Vec<_> = (0..1 << 12).map(|_| { m += *x; m }).collect();
        let near = ark_bls12_381::G1Projective::normalize_batch(&multiples).iter().any(|z| z == y || -*z == *y);
        c.check(!near, "fresh-srs-multiples", || "a secret is a small multiple of the one before".into());
    }
}

fn c05_fresh(c: &mut Case) {
    let n = if c.thorough() { 1000 } else { 200 };
    let sizes: Vec<usize> = (0..n).map(|i| if i % 2 == 0 { 1 } else { c.rng.gen_range(0..6) }).collect();
    c05_fresh_sizes(c);
    match guard(|| sizes.iter().map(|n| Srs::new(*n)).collect::<Vec<_>>()) {
        Ok(srs) => {
            for (s, n) in srs.iter().zip(&sizes) {
                c.check(s.g1_points().len() == n + 3, "srs-length", || format!("size {n}"));
            }
            all_distinct(c, &srs);
            consistent(c, &srs[0]);
            consistent(c, &srs[3]);
            no_small_secret(c, &srs[..2]);
        }
        Err(p) => c.violation("srs-panics", format!("{p:?}")),
    }
}

/// Strings of the same size, for many sizes
fn c05_fresh_sizes(c: &mut Case) {
    let step = c.rng.gen_range(12..40);
    let sizes: Vec<usize> = (0..300).step_by(step).chain([255, 256, 257, 511, 512, 1024]).collect();
    for n in sizes {
        match guard(|| [Srs::new(n), Srs::new(n)]) {
            Ok([a, b]) => {
                let (p, q) = (a.g1_points(), b.g1_points());
                c.eval(("size", n, p.get(1).map(|p| p.to_string())));
                c.check(p.len() == n + 3, "srs-length", || format!("size {n}"));
                c.check(p.get(1) != q.get(1), "fresh-srs-repeats", || format!("two strings of size {n} share the secret"));
                c.check(a.g2s() != b.g2s(), "fresh-srs-repeats", || format!("two strings of size {n} share the secret"));
                c.maximum("size of a fresh string", n as u64);
                // the same secret throughout: a random combination of the consecutive powers
                let k: Vec<Fr> = (1..p.len()).map(|_| rand_fr(&mut c.rng)).collect();
                let sum = |p: &[G1Affine]| {
                    p.iter().zip(&k).fold(ark_bls12_381::G1Projective::zero(), |s, (p, k)| s + *p * *k)
                };
                let ok = Bls12_381::pairing(sum(&p[1..]), a.g2()) == Bls12_381::pairing(sum(&p[..p.len() - 1]), a.g2s());
                c.check(ok, "fresh-srs-structure", || format!("the powers of a string of size {n} disagree"));
                if n >= 200 && c.idx % 6 == n as u64 % 6 {
                    no_small_secret(c, &[a]);
                }
            }
            Err(p) => c.violation("srs-panics", format!("{p:?}")),
        }
    }
}

/// `zkmon fresh srs`
pub fn fresh_strings() -> Vec<String> {
    [1, 1, 3, 40]
        .iter()
        .map(|n| Srs::new(*n).g1_points()[1].to_string())
        .collect()
}

/// No two of several processes that start at the same time draw the same secret
fn c05_processes(c: &mut Case) {
    let Some(all) = crate::core::fresh_processes("srs", c.rng.gen(), 5) else {
        return c.inconclusive("no strings from another process");
    };
    let mut seen = std::collections::HashSet::new();
    for k in all.into_iter().flatten() {
        c.eval(&k);
        c.count("strings of several processes");
        c.check(seen.insert(k.clone()), "fresh-srs-repeats", || format!("two processes share the secret of {k}"));
    }
}

/// Long strings, past the powers of two that a table or a counter may end at
fn c05_long(c: &mut Case) {
    let size = [1500, 2200, 4300, 8500][c.idx as usize % 4] + c.rng.gen_range(0..20);
    let s = any_fr(&mut c.rng);
    c.eval((size, hex(&s)));
    c.maximum("powers of one string", size as u64 + 3);
    let srs = match guard(|| Srs::new_from_secret(s, size)) {
        Ok(x) => x,
        Err(p) => return c.violation("srs-panics", format!("{p:?} size {size}")),
    };
    let points = srs.g1_points();
    c.check(points.len() == size + 3, "srs-length", || format!("size {size}: {} points", points.len()));
    // a random combination of all of them
    let (mut pow, mut sum) = (Fr::one(), Fr::zero());
    let k: Vec<Fr> = points.iter().map(|_| rand_fr(&mut c.rng)).collect();
    for k in &k {
        sum += pow * k;
        pow *= s;
    }
    let got = points.iter().zip(&k).fold(ark_bls12_381::G1Projective::zero(), |a, (p, k)| a + *p * *k);
    c.check(got.into_affine() == g1(sum), "srs-power", || format!("a string of size {size} of {}", hex(&s)));
}

fn c05_concurrent(c: &mut Case) {
    let all = std::thread::scope(|s| {
        let hs: Vec<_> = (0..8)
            .map(|_| s.spawn(|| guard(|| (0..10).map(|_| Srs::new(1)).collect::<Vec<_>>())))
            .collect();
        hs.into_iter()
            .filter_map(|h| h.join().ok().and_then(|r| r.ok()))
            .flatten()
            .collect::<Vec<_>>()
    });
    c.check(all.len() == 80, "srs-panics", || format!("{} of 80", all.len()));
    all_distinct(c, &all);
}
