//! C28: every verifier returns a verdict on every proof, in time and memory.
use std::time::Duration;

use ark_bls12_381::{Fq as BaseFq, Fr, G1Affine};
use ark_ec::AffineRepr;
use ark_ff::{BigInteger, One, PrimeField, UniformRand, Zero};
use digest_11::Digest as Digest11;
use kzg::commitment::KzgCommitment;
use kzg::opening::KzgOpening;
use kzg::scheme::KzgScheme;
use nova::circuit::State;
use nova::nifs::{NIFSProof, NIFS};
use nova::r1cs::FInstance;
use nova::transcript::Transcript;
use plonk::prover::Proof as PlonkProof;
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::{Rng, SeedableRng};
use sha2::Sha256;

use crate::common::*;
use crate::core::*;
use crate::fri_checks::{self as fc, BabyBear};
use crate::meter::*;
use crate::nova_checks as nc;
use crate::plonk_checks as pc;
use crate::plonk_model::*;
use crate::rec::{draws, recorded, Rec10};

pub static PROPERTIES: &[Property] = &[Property {
    id: "C28",
    rule: "A case gives a verifier a hostile proof: an honest one with 1 to 6 alterations from the catalogues of C07, C12, C23 and C25 and from integers at the edges of their type, empty, long and uneven lists, identity, off-curve and small-order points, zero scalars and absent parts; or one built of such values only. Each call runs on its own thread, metered for time, memory, panics, arithmetic overflow and bounds. Oracle: the call returns a verdict within the limits, and a proof the reference judge calls wrong is rejected.",
    assumptions: &[
        "a verifier that takes more than 20 s, or 192 MiB, for a proof of a few kilobytes is taken to loop or allocate without bound",
    ],
    groups: &[
        Group { name: "fri", quick: 1500, run: c28_fri },
        Group { name: "fri-built", quick: 900, run: c28_fri_built },
        #[cfg(zkp_monitor)]
        Group { name: "fri-beyond", quick: 60, run: c28_fri_beyond },
        Group { name: "plonk", quick: 100, run: c28_plonk },
        Group { name: "nifs", quick: 120, run: c28_nifs },
        Group { name: "ivc", quick: 80, run: c28_ivc },
        Group { name: "kzg", quick: 200, run: c28_kzg },
    ],
}];

const TIME: Duration = Duration::from_secs(20);
const MEMORY: i64 = 192 << 20;

/// Carries a value to the metered thread; the calling thread waits meanwhile.
struct Carry<T>(T);
unsafe impl<T> Send for Carry<T> {}
impl<T> Carry<T> {
    fn take(self) -> T {
        self.0
    }
}

/// Runs a verifier; `None` when it did not come to a verdict, which is reported here.
fn verdict(c: &mut Case, what: &str, desc: &dyn Fn() -> String, f: impl FnOnce() -> bool + 'static) -> Option<bool> {
    let f = Carry(f);
    let m = metered(TIME, move || (f.take())());
    c.maximum("microseconds of a call", m.elapsed.as_micros() as u64);
    c.maximum("bytes allocated at once by a call", m.peak.max(0) as u64);
    match m.ran {
        Ran::Returned(v) => {
            c.count(&format!("{what}: {}", if v { "accepted" } else { "rejected" }));
            if m.peak > MEMORY {
                c.violation(&format!("{what}-memory"), format!("{} bytes: {}", m.peak, desc()));
            }
            Some(v)
        }
        Ran::Panicked(p) => {
            c.violation(&format!("{what}-panics"), format!("{} at {}: {}", p.msg, p.at, desc()));
            None
        }
        Ran::TimedOut => {
            c.violation(&format!("{what}-does-not-return"), desc());
            None
        }
    }
}

// ---------------------------------------------------------------- values at the edges

fn any_usize(rng: &mut StdRng) -> usize {
    match rng.gen_range(0..9) {
        0 => 0,
        1 => 1,
        2 => usize::MAX,
        3 => usize::MAX - rng.gen_range(0usize..9),
        4 => 1usize << rng.gen_range(0..64),
        5 => (1usize << rng.gen_range(1..64)) - 1,
        6 => (1usize << 63) + rng.gen_range(0usize..5),
        7 => rng.gen_range(0..40),
        _ => rng.gen(),
    }
}

fn any_g1(rng: &mut StdRng) -> G1Affine {
    match rng.gen_range(0..9) {
        0 | 1 => G1Affine::zero(),
        2 => G1Affine::generator(),
        3 => -G1Affine::generator(),
        // not on the curve
        4 => G1Affine::new_unchecked(BaseFq::zero(), BaseFq::zero()),
        5 => G1Affine::new_unchecked(BaseFq::rand(rng), BaseFq::rand(rng)),
        // on the curve, not in the group of the scheme
        6 => loop {
            if let Some(p) = G1Affine::get_point_from_x_unchecked(BaseFq::rand(rng), rng.gen()) {
                break p;
            }
        },
        // the identity, carrying coordinates
        7 => {
            let mut p = g1(rand_fr(rng));
            p.infinity = true;
            p
        }
        _ => g1(any_fr(rng)),
    }
}

/// The invariant of the type: a point of the group. Others are given to the verifiers as well, but
/// what an accepted one would mean is not defined.
fn proper(p: &G1Affine) -> bool {
    p.is_zero() || (p.is_on_curve() && p.is_in_correct_subgroup_assuming_on_curve())
}

fn proper_u(u: &FInstance) -> bool {
    proper(&u.com_e.0) && proper(&u.com_w.0)
}

fn proper_nifs(p: &NIFSProof) -> bool {
    proper(&p.opening_e.0) && proper(&p.opening_w.0)
}

// ---------------------------------------------------------------- FRI

type FriProof<F> = fri::prover::Proof<F>;

fn edge<F: PrimeField>(rng: &mut StdRng, p: &mut FriProof<F>) -> &'static str {
    let layers = p.layers_root.len();
    let n = p.decommitment_list.len();
    let q = if n == 0 { 0 } else { rng.gen_range(0..n) };
    let x = any_usize(rng);
    let v: F = any_field(rng);
    match rng.gen_range(0..16) {
        0 => {
            p.domain_size = x;
            "domain size"
        }
        1 => {
            p.number_of_queries = x;
            "number of queries"
        }
        2 => {
            p.coset = v;
            "coset"
        }
        3 => {
            p.const_val = v;
            "constant"
        }
        4 => {
            p.layers_root.clear();
            "no layers"
        }
        5 => {
            p.decommitment_list.clear();
            if rng.gen() {
                p.number_of_queries = 0;
            }
            "no queries"
        }
        6 => {
            for _ in 0..rng.gen_range(1..70) {
                p.layers_root.push(v);
            }
            "more layers"
        }
        7 => {
            // more layers, everywhere
            let k = rng.gen_range(1..70);
            for _ in 0..k {
                p.layers_root.push(v);
            }
            for d in &mut p.decommitment_list {
                for _ in 0..k {
                    d.evaluations.push(v);
                    d.sym_evaluations.push(v);
                    if let Some(x) = d.auth_paths.last().cloned() {
                        d.auth_paths.push(x);
                    }
                    if let Some(x) = d.sym_auth_paths.last().cloned() {
                        d.sym_auth_paths.push(x);
                    }
                }
            }
            if rng.gen() {
                p.domain_size = 1usize << rng.gen_range(0..64);
            }
            "more layers everywhere"
        }
        8 => {
            // all of them empty
            for d in &mut p.decommitment_list {
                d.evaluations.clear();
                d.sym_evaluations.clear();
                d.auth_paths.clear();
                d.sym_auth_paths.clear();
            }
            if rng.gen() {
                p.layers_root.clear();
            }
            "empty decommitments"
        }
        _ if n == 0 => "nothing",
        9 => {
            for _ in 0..rng.gen_range(1..40) {
                let d = p.decommitment_list[q].clone();
                p.decommitment_list.push(d);
            }
            if rng.gen() {
                p.number_of_queries = p.decommitment_list.len();
            }
            "more queries"
        }
        k => {
            let d = &mut p.decommitment_list[q];
            let l = if layers == 0 { 0 } else { rng.gen_range(0..layers) };
            match k {
                10 => {
                    if let Some(a) = d.auth_paths.get_mut(l) {
                        a.index = x;
                    }
                    "index"
                }
                11 => {
                    if let Some(a) = d.sym_auth_paths.get_mut(l) {
                        a.index = x;
                    }
                    "symmetric index"
                }
                12 => {
                    d.evaluations.push(v);
                    "longer evaluations"
                }
                13 => {
                    d.sym_evaluations.clear();
                    "no symmetric evaluations"
                }
                14 => {
                    if let Some(a) = d.auth_paths.last().cloned() {
                        for _ in 0..rng.gen_range(1..5) {
                            d.auth_paths.push(a.clone());
                        }
                    }
                    "more paths"
                }
                _ => {
                    if let Some(a) = d.evaluations.get_mut(l) {
                        *a = v;
                    }
                    "evaluation"
                }
            }
        }
    }
}

fn whole<F: PrimeField>(p: &FriProof<F>) -> bool {
    let l = p.layers_root.len();
    l > 0
        && !p.decommitment_list.is_empty()
        && p.number_of_queries > 0
        && p.decommitment_list.iter().all(|d| {
            [d.evaluations.len(), d.sym_evaluations.len(), d.auth_paths.len(), d.sym_auth_paths.len()] == [l; 4]
        })
}

fn fri_on<T: Digest11 + Default + 'static, F: PrimeField>(c: &mut Case, max: usize, name: &str) {
    let coeffs: Vec<F> = any_coeffs(&mut c.rng, max);
    let (blowup, queries) = (c.rng.gen_range(1..5), c.rng.gen_range(1..7));
    let Some(h) = fc::honest::<T, F>(&coeffs, blowup, queries) else {
        c.inconclusive("no honest proof to start from");
        return;
    };
    for _ in 0..8 {
        let mut p = h.proof.clone();
        let mut what = vec![];
        for _ in 0..c.rng.gen_range(1..=6) {
            if c.rng.gen_bool(0.5) && whole(&p) {
                // the catalogue expects a well-shaped proof; what it leaves half done is hostile too
                let rng = &mut c.rng;
                what.push(guard(|| fc::mutate(rng, &h, &mut p)).unwrap_or("half of an alteration"));
            } else {
                what.push(edge(&mut c.rng, &mut p));
            }
        }
        let text = fc::show(&p);
        c.eval((name, &text));
        c.distinct("combinations of alterations", &what);
        let desc = || format!("{name}: {}: {}", what.join(", "), text.chars().take(3000).collect::<String>());
        c.sample(&desc);
        let wrong = h.judge(&p) == fc::Verdict::Reject;
        let v = verdict(c, "fri", &desc, move || fri::verifier::verify::<T, F>(p).is_ok());
        if wrong && v == Some(true) {
            c.violation("fri-accepts-malformed", desc());
        }
    }
}

fn c28_fri(c: &mut Case) {
    match c.idx % 4 {
        0 => fri_on::<sha2_11::Sha256, BabyBear>(c, 20, "babybear/sha256"),
        1 => fri_on::<sha2_11::Sha512, Fr>(c, 9, "bls12-381/sha512"),
        _ => fri_on::<sha2_11::Sha256, fri::fields::goldilocks::Fq>(c, 30, "goldilocks/sha256"),
    }
}

/// Proofs of edge values only, in consistent and inconsistent shapes
fn built<F: PrimeField>(c: &mut Case, name: &str) {
    let coeffs: Vec<F> = (0..4).map(|_| any_field(&mut c.rng)).collect();
    let Some(h) = fc::honest::<sha2_11::Sha256, F>(&coeffs, 2, 2) else {
        c.inconclusive("no honest proof to take paths from");
        return;
    };
    let path = h.full.decommitment_list[0].auth_paths[0].clone();
    for _ in 0..6 {
        let mut p = h.proof.clone();
        let log = c.rng.gen_range(0..64);
        p.domain_size = if c.rng.gen_bool(0.7) { 1usize << log } else { any_usize(&mut c.rng) };
        p.coset = any_field(&mut c.rng);
        p.const_val = any_field(&mut c.rng);
        let layers = *[0usize, 1, 2, log, log + 1, 64, 65].choose(&mut c.rng).unwrap();
        let v: F = any_field(&mut c.rng);
        p.layers_root = vec![v; layers];
        let n = *[0usize, 1, 2, 3, 30].choose(&mut c.rng).unwrap();
        p.number_of_queries = if c.rng.gen_bool(0.8) { n } else { any_usize(&mut c.rng) };
        let mut d = h.full.decommitment_list[0].clone();
        let uneven = c.rng.gen_bool(0.2);
        let mut len = || if uneven { c.rng.gen_range(0..layers + 2) } else { layers };
        let (a, b, e, f) = (len(), len(), len(), len());
        let mut path = path.clone();
        path.leaf_val = v;
        path.index = any_usize(&mut c.rng);
        d.evaluations = vec![v; a];
        d.sym_evaluations = vec![v; b];
        d.auth_paths = vec![path.clone(); e];
        d.sym_auth_paths = vec![path; f];
        p.decommitment_list = vec![d; n];
        let text = fc::show(&p);
        c.eval((name, &text));
        c.distinct("shapes", (p.domain_size, layers, n, p.number_of_queries));
        let desc = || format!("{name}: {}", text.chars().take(3000).collect::<String>());
        c.sample(&desc);
        if verdict(c, "fri", &desc, move || fri::verifier::verify::<sha2_11::Sha256, F>(p).is_ok()) == Some(true) {
            c.violation("fri-accepts-malformed", desc());
        }
    }
}

/// Proofs that fold on after nothing is left to fold
#[cfg(zkp_monitor)]
fn c28_fri_beyond(c: &mut Case) {
    let Some(p) = fc::too_many_layers(c) else {
        return c.inconclusive("trees cannot be harvested");
    };
    let text = fc::show(&p);
    c.eval(("beyond", &text));
    let desc = || text.chars().take(3000).collect::<String>();
    if verdict(c, "fri", &desc, move || fri::verifier::verify::<sha2_11::Sha256, fri::fields::goldilocks::Fq>(p).is_ok()) == Some(true) {
        c.violation("fri-accepts-malformed", desc());
    }
}

fn c28_fri_built(c: &mut Case) {
    match c.idx % 3 {
        0 => built::<BabyBear>(c, "babybear"),
        1 => built::<Fr>(c, "bls12-381"),
        _ => built::<fri::fields::goldilocks::Fq>(c, "goldilocks"),
    }
}

// ---------------------------------------------------------------- PLONK

fn c28_plonk(c: &mut Case) {
    let Some(h) = pc::honest(c, 6) else { return };
    c.sample(|| h.m.describe());
    for k in 0..5 {
        let mut p = clone_proof(&h.proof);
        let mut what = vec![];
        let all = c.rng.gen_bool(0.3);
        let times = if all { 0 } else { c.rng.gen_range(1..=6) };
        if all {
            let same = any_g1(&mut c.rng);
            let one = c.rng.gen_bool(0.4);
            for i in 0..9 {
                *point(&mut p, i) = if one { same } else { any_g1(&mut c.rng) };
            }
            for i in 0..6 {
                *scalar(&mut p, i) = if one { Fr::zero() } else { any_fr(&mut c.rng) };
            }
            p.degree = any_usize(&mut c.rng);
            what.push("everything".to_string());
        }
        for _ in 0..times {
            match c.rng.gen_range(0..10) {
                0..=4 => {
                    let i = c.rng.gen_range(0..9);
                    *point(&mut p, i) = any_g1(&mut c.rng);
                    what.push(POINTS[i].into());
                }
                5..=7 => {
                    let i = c.rng.gen_range(0..6);
                    *scalar(&mut p, i) = any_fr(&mut c.rng);
                    what.push(SCALARS[i].into());
                }
                8 => {
                    p.degree = any_usize(&mut c.rng);
                    what.push(format!("degree {}", p.degree));
                }
                _ => {
                    p.u = any_fr(&mut c.rng);
                    what.push("u".into());
                }
            }
        }
        // past the first check: u as the verifier derives it
        if c.rng.gen_bool(0.85) {
            let (_, log) = recorded(|| guard(|| plonk::verifier::verify::<Rec10>(&h.cc, h.strings.srs.clone(), clone_proof(&p)).is_ok()));
            if let Some(e) = log.last() {
                p.u = draws(&e.output, 1)[0];
                what.push("u follows".into());
            }
        }
        let same = same_proof(&p, &h.proof);
        if same {
            continue;
        }
        c.eval((k, &what, h.m.describe()));
        c.distinct("combinations of alterations", &what);
        let shown = clone_proof(&p);
        let desc = || {
            let mut p = clone_proof(&shown);
            let points: Vec<String> = (0..9).map(|i| format!("{} {:?}", POINTS[i], point(&mut p, i))).collect();
            let scalars: Vec<String> = (0..6).map(|i| format!("{} {}", SCALARS[i], hex(scalar(&mut p, i)))).collect();
            format!("{}: {} {} u {} degree {} circuit {}", what.join(", "), points.join(" "), scalars.join(" "), hex(&p.u), p.degree, h.m.describe())
        };
        let (cc, srs) = (h.st.build(), h.strings.srs.clone());
        // identity written in another way is the same proof
        let mut q = clone_proof(&shown);
        let harmless = (0..9).all(|i| {
            let mut o = clone_proof(&h.proof);
            point(&mut q, i).into_group() == point(&mut o, i).into_group()
        }) && (0..6).all(|i| {
            let mut o = clone_proof(&h.proof);
            *scalar(&mut q, i) == *scalar(&mut o, i)
        });
        let in_group = (0..9).all(|i| proper(point(&mut q, i)));
        let sent: PlonkProof = p;
        let v = verdict(c, "plonk", &desc, move || plonk::verifier::verify::<Rec10>(&cc, srs, sent).is_ok());
        if v == Some(true) && !harmless && in_group {
            c.violation("plonk-accepts-malformed", desc());
        }
    }
}

// ---------------------------------------------------------------- folding

fn any_x(rng: &mut StdRng, x: &mut Vec<Fr>) -> &'static str {
    match rng.gen_range(0..5) {
        0 => {
            x.clear();
            "no inputs"
        }
        1 => {
            x.pop();
            "an input less"
        }
        2 => {
            let n = rng.gen_range(1..200);
            x.extend((0..n).map(|_| any_fr(rng)));
            "more inputs"
        }
        _ => {
            for v in x.iter_mut() {
                *v = any_fr(rng);
            }
            "inputs"
        }
    }
}

fn alter_instance(rng: &mut StdRng, u: &mut FInstance) -> &'static str {
    match rng.gen_range(0..4) {
        0 => {
            u.com_e = KzgCommitment(any_g1(rng));
            "com_e"
        }
        1 => {
            u.com_w = KzgCommitment(any_g1(rng));
            "com_w"
        }
        2 => {
            u.u = any_fr(rng);
            "u"
        }
        _ => any_x(rng, &mut u.x),
    }
}

fn alter_nifs(rng: &mut StdRng, p: &mut NIFSProof) -> &'static str {
    match rng.gen_range(0..6) {
        0 => {
            p.r = any_fr(rng);
            "r"
        }
        1 => {
            p.opening_point = any_fr(rng);
            "opening point"
        }
        2 => {
            p.opening_e.0 = any_g1(rng);
            "witness of E"
        }
        3 => {
            p.opening_w.0 = any_g1(rng);
            "witness of W"
        }
        4 => {
            p.opening_e.1 = any_fr(rng);
            "value of E"
        }
        _ => {
            p.opening_w.1 = any_fr(rng);
            "value of W"
        }
    }
}

fn same_u(a: &FInstance, b: &FInstance) -> bool {
    a.com_e.0.into_group() == b.com_e.0.into_group() && a.com_w.0.into_group() == b.com_w.0.into_group() && a.u == b.u && a.x == b.x
}

fn same_opening(a: &KzgOpening, b: &KzgOpening) -> bool {
    a.0.into_group() == b.0.into_group() && a.1 == b.1
}

fn same_nifs(a: &NIFSProof, b: &NIFSProof) -> bool {
    a.r == b.r && a.opening_point == b.opening_point && same_opening(&a.opening_e, &b.opening_e) && same_opening(&a.opening_w, &b.opening_w)
}

fn show_nifs(p: &NIFSProof) -> String {
    format!("r {} point {} E {:?} {} W {:?} {}", hex(&p.r), hex(&p.opening_point), p.opening_e.0, hex(&p.opening_e.1), p.opening_w.0, hex(&p.opening_w.1))
}

/// A folding proof for any two instances, so that hostile ones get past the check of the challenge.
/// Anybody can make it: the structure is empty and the witnesses are made up.
fn adapted(rng: &mut StdRng, a: &FInstance, b: &FInstance, scheme: &KzgScheme) -> Option<(KzgCommitment, FInstance, NIFSProof)> {
    let none = nova::r1cs::R1CS { matrix_a: vec![], matrix_b: vec![], matrix_c: vec![], num_io: 0, num_vars: 0 };
    let n = rng.gen_range(0..3);
    let w: Vec<Fr> = (0..n).map(|_| any_fr(rng)).collect();
    let w = nova::r1cs::FWitness::new(&w, n);
    guard(|| {
        let mut t = Transcript::<Sha256>::default();
        let (out, u, com_t, r) = NIFS::<Sha256>::prover(&none, &w, &w, a, b, scheme, &mut t);
        let p = NIFS::<Sha256>::prove(r, &out, &u, scheme, &mut t);
        (com_t, u, p)
    })
    .ok()
}

fn c28_nifs(c: &mut Case) {
    let Some(f) = nc::honest_fold(c) else { return };
    for k in 0..8 {
        let (mut p, mut a, mut b, mut o, mut t) = (f.proof.clone(), f.a.u.clone(), f.b.u.clone(), f.out.u.clone(), f.com_t.clone());
        let mut what = vec![];
        for _ in 0..c.rng.gen_range(1..=6) {
            let rng = &mut c.rng;
            what.push(match rng.gen_range(0..10) {
                0 | 1 => format!("first {}", alter_instance(rng, &mut a)),
                2 | 3 => format!("second {}", alter_instance(rng, &mut b)),
                4 | 5 => format!("folded {}", alter_instance(rng, &mut o)),
                6 => {
                    t = KzgCommitment(any_g1(rng));
                    "cross term".to_string()
                }
                7 => {
                    // consistently without inputs
                    for u in [&mut a, &mut b, &mut o] {
                        u.x.clear();
                    }
                    "no inputs anywhere".to_string()
                }
                _ => alter_nifs(rng, &mut p).to_string(),
            });
        }
        // half of the time, go on with proofs adapted to the altered instances
        let mut adapted_proof = false;
        if c.rng.gen_bool(0.5) {
            if let Some((com_t, u, q)) = adapted(&mut c.rng, &a, &b, &f.k.scheme) {
                adapted_proof = true;
                what.push("adapted".to_string());
                (p, t) = (q, com_t);
                match c.rng.gen_range(0..4) {
                    0 => what.push(format!("folded {}", alter_instance(&mut c.rng, &mut o))),
                    1 => what.push(format!("{} afterwards", alter_nifs(&mut c.rng, &mut p))),
                    _ => o = u,
                }
            }
        }
        // the control is the honest statement
        let same = same_u(&a, &f.a.u) && same_u(&b, &f.b.u) && same_u(&o, &f.out.u) && t.0.into_group() == f.com_t.0.into_group() && same_nifs(&p, &f.proof);
        let in_group = [&a, &b, &o].into_iter().all(proper_u) && proper(&t.0) && proper_nifs(&p);
        c.eval((k, &what, show_nifs(&p)));
        c.distinct("combinations of alterations", &what);
        let text = format!("{}: {} {a:?} {b:?} {o:?} {t:?}", what.join(", "), show_nifs(&p));
        let desc = || text.chars().take(3500).collect::<String>();
        c.sample(&desc);
        let scheme = KzgScheme::new(f.k.srs.clone());
        let v = verdict(c, "nifs", &desc, move || {
            NIFS::<Sha256>::verify(&p, &a, &b, &o, &t, &scheme, &mut Transcript::default()).is_ok()
        });
        if adapted_proof {
            // only its termination is judged: the fold of made up instances may be a right one
            c.count("adapted folding proofs");
        } else if v == Some(true) && !same && in_group {
            c.violation("nifs-accepts-malformed", desc());
        }
    }
}

// ---------------------------------------------------------------- IVC

fn c28_ivc(c: &mut Case) {
    let Some((ch, desc0)) = nc::honest_chain(c, 1, 3) else { return };
    c.sample(|| desc0.clone());
    let ch = std::rc::Rc::new(std::cell::RefCell::new(ch));
    let proofs = ch.borrow().proofs.len();
    for k in 0..8 {
        let (mut p, at, z0, zi) = {
            let h = ch.borrow();
            let i = c.rng.gen_range(0..proofs);
            (nc::clone_zk(&h.proofs[i]), i, h.z[0], h.z[i])
        };
        let (mut at, mut z0, mut zi) = (ark_bls12_381::Fq::from(at as u64), z0, zi);
        let mut what = vec![];
        for _ in 0..c.rng.gen_range(1..=6) {
            let rng = &mut c.rng;
            what.push(match rng.gen_range(0..12) {
                0 | 1 => format!("u {}", alter_instance(rng, &mut p.u_i)),
                2..=4 => format!("U {}", alter_instance(rng, &mut p.big_u_i)),
                5 => {
                    p.com_t = None;
                    "no cross term".into()
                }
                6 => {
                    p.com_t = Some(KzgCommitment(any_g1(rng)));
                    "cross term".into()
                }
                7 => {
                    p.folded_u_proof = None;
                    "no folding proof".into()
                }
                8 | 9 => match &mut p.folded_u_proof {
                    Some(f) => alter_nifs(rng, f).to_string(),
                    None => "nothing".into(),
                },
                10 => {
                    at = any_field(rng);
                    format!("step {}", hex(&at))
                }
                _ => {
                    if rng.gen() {
                        z0 = any_field(rng);
                    } else {
                        zi = any_field(rng);
                    }
                    "state".into()
                }
            });
        }
        let mut adapted_proof = false;
        if c.rng.gen_bool(0.6) {
            // the public hash of the altered running instance, and a fold of it
            let hash = guard(|| nova::circuit::AugmentedCircuit::<Sha256, nc::Step>::hash_io(at, &State { state: z0 }, &State { state: zi }, &p.big_u_i));
            if let Ok(hash) = hash {
                adapted_proof = true;
                what.push("adapted hash".into());
                p.u_i.x = vec![Fr::from_le_bytes_mod_order(&hash.into_bigint().to_bytes_le())];
                if c.rng.gen_bool(0.5) {
                    p.u_i.u = Fr::one();
                    p.u_i.com_e = ch.borrow().ivc.augmented_circuit.trivial_instance.com_e.clone();
                }
                let made = c.rng.gen_bool(0.6).then(|| adapted(&mut c.rng, &p.u_i, &p.big_u_i, &ch.borrow().k.scheme)).flatten();
                if let Some((com_t, _, q)) = made {
                    what.push("adapted fold".into());
                    (p.com_t, p.folded_u_proof) = (Some(com_t), Some(q));
                    if c.rng.gen_bool(0.3) {
                        what.push(alter_nifs(&mut c.rng, p.folded_u_proof.as_mut().unwrap()).into());
                    }
                }
            }
        }
        let kept = proofs_same(&p, &ch.borrow().proofs) && {
            let h = ch.borrow();
            h.z.iter().enumerate().any(|(i, z)| at == ark_bls12_381::Fq::from(i as u64) && *z == zi) && z0 == h.z[0]
        };
        c.eval((k, &what, &desc0));
        c.distinct("combinations of alterations", &what);
        let in_group = proper_u(&p.u_i) && proper_u(&p.big_u_i) && p.com_t.iter().all(|t| proper(&t.0)) && p.folded_u_proof.iter().all(proper_nifs);
        let base = at.is_zero();
        let text = format!("{}: step {} from {} to {}, u {:?} U {:?} {:?} {:?}: {desc0}", what.join(", "), hex(&at), hex(&z0), hex(&zi), p.u_i, p.big_u_i, p.com_t, p.folded_u_proof.as_ref().map(show_nifs));
        let desc = || text.chars().take(3500).collect::<String>();
        let inner = ch.clone();
        let v = verdict(c, "ivc", &desc, move || {
            let mut h = inner.borrow_mut();
            let aug = &mut h.ivc.augmented_circuit;
            let saved = (aug.i, aug.z_0.state, aug.z_i.state);
            (aug.i, aug.z_0.state, aug.z_i.state) = (at, z0, zi);
            let r = guard(|| h.ivc.verify(&p, &mut Transcript::default()).is_ok());
            let aug = &mut h.ivc.augmented_circuit;
            (aug.i, aug.z_0.state, aug.z_i.state) = saved;
            drop(h);
            match r {
                Ok(v) => v,
                Err(p) => panic!("{} at {}", p.msg, p.at),
            }
        });
        if v.is_none() {
            return;
        }
        // at step 0 the statement is that the states agree
        let right = kept || (base && z0 == zi);
        if adapted_proof {
            c.count("adapted incremental proofs");
        } else if v == Some(true) && !right && in_group {
            c.violation("ivc-accepts-malformed", desc());
        }
    }
}

fn proofs_same(p: &nova::ivc::ZkIVCProof, all: &[nova::ivc::ZkIVCProof]) -> bool {
    all.iter().any(|q| {
        same_u(&p.u_i, &q.u_i)
            && same_u(&p.big_u_i, &q.big_u_i)
            && match (&p.com_t, &q.com_t) {
                (Some(a), Some(b)) => a.0.into_group() == b.0.into_group(),
                (None, None) => true,
                _ => false,
            }
            && match (&p.folded_u_proof, &q.folded_u_proof) {
                (Some(a), Some(b)) => same_nifs(a, b),
                (None, None) => true,
                _ => false,
            }
    })
}

// ---------------------------------------------------------------- openings

fn c28_kzg(c: &mut Case) {
    let s = if c.rng.gen_bool(0.2) { any_fr(&mut c.rng) } else { rand_fr(&mut c.rng) };
    let size = c.rng.gen_range(0..4);
    let srs = kzg::srs::Srs::new_from_secret(s, size);
    for k in 0..6 {
        let p = any_g1(&mut c.rng);
        let w = any_g1(&mut c.rng);
        let y = any_fr(&mut c.rng);
        let z = if c.rng.gen_bool(0.2) { s } else { any_fr(&mut c.rng) };
        let desc = || format!("secret {} commitment {p:?} witness {w:?} value {} point {}", hex(&s), hex(&y), hex(&z));
        c.eval(desc());
        c.sample(&desc);
        let wrong = proper(&p) && proper(&w) && {
            let norm = |q: &G1Affine| if q.infinity { G1Affine::zero() } else { *q };
            norm(&w).into_group() * (s - z) != norm(&p).into_group() - g1_proj(y)
        };
        let scheme = KzgScheme::new(srs.clone());
        let v = verdict(c, "kzg", &desc, move || scheme.verify(&KzgCommitment(p), &KzgOpening(w, y), z));
        if v == Some(true) && wrong {
            c.violation("kzg-accepts-malformed", desc());
        }
        // batches
        let n = *[0usize, 1, 2, 7, 40].choose(&mut c.rng).unwrap();
        if k > 1 && n > 7 {
            continue;
        }
        let one = c.rng.gen_bool(0.3);
        let (p0, w0) = (any_g1(&mut c.rng), any_g1(&mut c.rng));
        let cm: Vec<_> = (0..n).map(|_| KzgCommitment(if one { p0 } else { any_g1(&mut c.rng) })).collect();
        let op: Vec<_> = (0..n).map(|_| KzgOpening(if one { w0 } else { any_g1(&mut c.rng) }, any_fr(&mut c.rng))).collect();
        let zs: Vec<Fr> = (0..n).map(|_| any_fr(&mut c.rng)).collect();
        let desc = || format!("secret {} batch {cm:?} {zs:?} {op:?}", hex(&s)).chars().take(3000).collect::<String>();
        c.eval(desc());
        let norm = |q: &G1Affine| if q.infinity { G1Affine::zero() } else { *q };
        let proper_all = (0..n).all(|i| proper(&cm[i].0) && proper(&op[i].0));
        let wrong = proper_all
            && (0..n).any(|i| norm(&op[i].0).into_group() * (s - zs[i]) != norm(&cm[i].0).into_group() - g1_proj(op[i].1));
        let scheme = KzgScheme::new(srs.clone());
        let (cm2, zs2, op2) = (cm.clone(), zs.clone(), op.iter().map(|o| KzgOpening(o.0, o.1)).collect::<Vec<_>>());
        let mut rng = StdRng::seed_from_u64(c.rng.gen());
        let v = verdict(c, "kzg-batch", &desc, move || scheme.batch_verify(&cm2, &zs2, &op2, &mut rng));
        if v == Some(true) && wrong {
            c.violation("kzg-batch-accepts-malformed", desc());
        }
    }
}
