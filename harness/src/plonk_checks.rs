//! C11-C16: the proof system, judged by its verification equation under the known secret, by
//! recorded hash logs and by circuits whose satisfaction is decided by definition.
use ark_bls12_381::{Fr, G1Affine, G1Projective};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{BigInteger, Field, One, PrimeField, UniformRand, Zero};
use ark_poly::{DenseUVPolynomial, EvaluationDomain, Polynomial};
use kzg::srs::Srs;
use plonk::common_preprocessed_input::cpi_circuit::CPICircuit;
use plonk::compiled_circuit::CompiledCircuit;
use plonk::prover::{generate_proof, Proof};
use plonk::verifier::verify;
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::{Rng, SeedableRng};
use sha2::{Sha224, Sha256, Sha384, Sha512, Sha512_256};
use std::collections::{HashMap, HashSet};
use std::sync::{Mutex, OnceLock};

use crate::common::*;
use crate::core::*;
use crate::plonk_model::*;
use crate::rec::*;
use crate::small::{small_combination, small_logarithm};

pub static PROPERTIES: &[Property] = &[
    Property {
        id: "C11",
        rule: "A case is a random satisfied circuit (all gate kinds, public inputs, random wirings, degenerate values; satisfaction decided by definition in the harness), a reference string, a hash function; non-trivial: distinct by circuit. Oracle: proof generation returns and verification accepts.",
        assumptions: &["arkworks arithmetic is right"],
        groups: &[
            Group { name: "random", quick: 700, run: c11_random },
            Group { name: "special-columns", quick: 240, run: c11_special },
            Group { name: "single-gates", quick: 120, run: c11_single },
            Group { name: "large", quick: 12, run: c11_large },
            Group { name: "repeat", quick: 24, run: c11_repeat },
        ],
    },
    Property {
        id: "C12",
        rule: "A case is an unsatisfied assignment given to the prover, an altered honest proof, or a proof simulated with the secret for the verification equation or for one of about forty wrong versions of it; distinct by circuit and alteration. Oracle: unsatisfied means no accepted proof; a simulated proof is accepted exactly if the right equation holds.",
        assumptions: &["arkworks arithmetic is right", "challenges are recognised among the first draws of the generators seeded with the recorded digests"],
        groups: &[
            Group { name: "unsatisfied", quick: 500, run: c12_unsatisfied },
            Group { name: "altered", quick: 8, run: c12_altered },
            Group { name: "simulated", quick: 40, run: c12_simulated },
            Group { name: "wrong-equation", quick: 16, run: c12_wrong_equation },
        ],
    },
    Property {
        id: "C13",
        rule: "A case is an accepted proof shown to another statement: a selector, constant, wire, public input, coset factor or size altered, another circuit, string or hash, or a statement computed from the proof so that the verification equation still holds. Oracle: rejection; and acceptance for the unchanged statement.",
        assumptions: &["arkworks arithmetic is right"],
        groups: &[
            Group { name: "altered", quick: 30, run: c13_altered },
            Group { name: "cross", quick: 120, run: c13_cross },
            Group { name: "strings", quick: 60, run: c13_strings },
            Group { name: "hashes", quick: 30, run: c13_hashes },
            Group { name: "adaptive", quick: 30, run: c13_adaptive },
        ],
    },
    Property {
        id: "C14",
        rule: "A case verifies a proof under a recording hash, finds the digest each challenge is drawn from (by its use in the evaluations and the verification equation), and repeats the verification with one message or statement part altered, or two exchanged; distinct by circuit and message. Oracle: the digest behind every challenge that comes after the message differs.",
        assumptions: &["arkworks arithmetic is right", "the first eight bytes of different SHA-256 digests differ"],
        groups: &[
            Group { name: "dependencies", quick: 60, run: c14_dependencies },
            Group { name: "agreement", quick: 80, run: c14_agreement },
            Group { name: "entropy", quick: 2, run: c14_entropy },
        ],
    },
    Property {
        id: "C15",
        rule: "A case proves one statement several times, also at once on several threads, and compares all commitments and evaluations with each other and with the unblinded ones; the masks are recovered with the known witness and secret. Distinct by circuit.",
        assumptions: &["arkworks arithmetic is right", "a repeated 255-bit value is not chance"],
        groups: &[
            Group { name: "masks", quick: 60, run: c15_masks },
            Group { name: "fresh", quick: 6, run: c15_fresh },
            Group { name: "concurrent", quick: 4, run: c15_concurrent },
            Group { name: "processes", quick: 3, run: c15_processes },
            Group { name: "searches", quick: 1, run: c15_searches },
        ],
    },
    Property {
        id: "C16",
        rule: "A case compiles a random list of gates (satisfied or not, any positions) both ways and evaluates every polynomial at every row; distinct by circuit. Oracle: the row contents by definition.",
        assumptions: &["arkworks arithmetic is right"],
        groups: &[
            Group { name: "random", quick: 3200, run: c16_random },
            Group { name: "dummies", quick: 1200, run: c16_dummies },
            Group { name: "large", quick: 12, run: c16_large },
        ],
    },
];

type ProveFn = fn(&CompiledCircuit, Srs) -> Proof;
type VerifyFn = fn(&CompiledCircuit, Srs, Proof) -> Result<(), String>;
const HASHES: [(&str, ProveFn, VerifyFn); 6] = [
    ("sha256", generate_proof::<Sha256>, verify::<Sha256>),
    ("sha224", generate_proof::<Sha224>, verify::<Sha224>),
    ("sha384", generate_proof::<Sha384>, verify::<Sha384>),
    ("sha512", generate_proof::<Sha512>, verify::<Sha512>),
    ("sha512/256", generate_proof::<Sha512_256>, verify::<Sha512_256>),
    ("recording", generate_proof::<Rec10>, verify::<Rec10>),
];

fn prove_and_verify(c: &mut Case, m: &Model, st: &Strings, hash: usize, key: &str) -> bool {
    let (name, prove, check) = HASHES[hash];
    let desc = || format!("{name} secret {} circuit {}", hex(&st.s), m.describe());
    let cc = match guard(|| m.compile()) {
        Ok(x) => x,
        Err(p) => {
            c.violation(&format!("{key}-compile"), format!("{p:?} {}", desc()));
            return false;
        }
    };
    let proof = match guard(|| prove(&cc, st.srs.clone())) {
        Ok(x) => x,
        Err(p) => {
            c.violation(&format!("{key}-prover"), format!("{p:?} {}", desc()));
            return false;
        }
    };
    match guard(|| check(&cc, st.srs.clone(), proof)) {
        Ok(Ok(())) => {
            c.count("accepted proofs");
            true
        }
        Ok(Err(e)) => {
            c.violation(&format!("{key}-rejected"), format!("{e} {}", desc()));
            false
        }
        Err(p) => {
            c.violation(&format!("{key}-verifier"), format!("{p:?} {}", desc()));
            false
        }
    }
}

fn c11_random(c: &mut Case) {
    let max = if c.thorough() { 32 } else { 17 };
    let n = any_size(&mut c.rng, max);
    let m = random_model(&mut c.rng, n);
    assert!(m.satisfied() && m.is_permutation());
    let extra = if c.rng.gen_bool(0.7) { 0 } else { c.rng.gen_range(1..20) };
    let st = strings(&mut c.rng, m.rows() + extra);
    let hash = if c.rng.gen_bool(0.5) { 0 } else { c.rng.gen_range(0..6) };
    c.sample(|| m.describe());
    c.eval(m.describe());
    c.distinct("circuit shapes", m.shape());
    c.maximum("gates", n as u64);
    c.count_n("copy cycles", m.cycles());
    c.count_n(
        "public inputs",
        m.gates.iter().filter(|g| !g.pi.is_zero()).count() as u64,
    );
    prove_and_verify(c, &m, &st, hash, "honest");
}

fn c11_special(c: &mut Case) {
    let n = 1usize << c.rng.gen_range(1..=if c.thorough() { 5 } else { 3 });
    let m = special_model(&mut c.rng, n);
    assert!(m.satisfied() && m.is_permutation());
    let st = strings(&mut c.rng, n);
    c.sample(|| m.describe());
    c.eval(m.describe());
    let pi: Vec<Fr> = m.gates.iter().map(|g| g.pi).collect();
    c.count_n("circuits with one public input in all rows", (!pi[0].is_zero() && pi.iter().all(|x| *x == pi[0])) as u64);
    let h = c.rng.gen_range(0..6);
    prove_and_verify(c, &m, &st, h, "special");
}

fn c11_single(c: &mut Case) {
    // one or two gates with special values, in every kind
    let n = c.rng.gen_range(1..=2);
    let m = random_model(&mut c.rng, n);
    let st = strings(&mut c.rng, m.rows());
    c.eval(m.describe());
    let h = c.rng.gen_range(0..6);
    prove_and_verify(c, &m, &st, h, "small");
}

fn c11_large(c: &mut Case) {
    let n = if c.idx == 0 {
        // more than ten bits count
        1030
    } else if c.thorough() {
        c.rng.gen_range(64..200)
    } else {
        *[33, 47, 64, 65, 100, 257].choose(&mut c.rng).unwrap()
    };
    let m = random_model(&mut c.rng, n);
    let st = strings(&mut c.rng, m.rows());
    c.eval(m.describe());
    c.maximum("gates", n as u64);
    prove_and_verify(c, &m, &st, 0, "large");
}

fn c11_repeat(c: &mut Case) {
    // the same compiled circuit, string and thread many times
    let n = any_size(&mut c.rng, 9);
    let m = random_model(&mut c.rng, n);
    let st = strings(&mut c.rng, m.rows());
    let cc = m.compile();
    let times = if c.thorough() { 20 } else { 6 };
    for i in 0..times {
        c.eval((i, m.describe()));
        let ok = guard(|| {
            verify::<Sha256>(&cc, st.srs.clone(), generate_proof::<Sha256>(&cc, st.srs.clone()))
        });
        c.check(matches!(ok, Ok(Ok(()))), "repeated-rejected", || {
            format!("{ok:?} {}", m.describe())
        });
    }
}

// ---------------------------------------------------------------- the equation

#[derive(Clone, Copy, Debug)]
pub struct Chal {
    pub alpha: Fr,
    pub beta: Fr,
    pub gamma: Fr,
    pub zeta: Fr,
    pub v: Fr,
    pub u: Fr,
}

/// The verification equation with a weight or value for everything a wrong one could miss.
#[derive(Clone)]
pub struct Equation {
    q: [Fr; 6],
    ids: [Fr; 3],
    sigmas: [Fr; 3],
    gammas: [Fr; 6],
    id: Fr,
    sigma: Fr,
    l1: Fr,
    alpha1: Fr,
    alpha2: Fr,
    t: [Fr; 3],
    slice: Fr,
    zh: Fr,
    vs: [Fr; 5],
    u: Fr,
    shift: Fr,
}

impl Equation {
    fn right(st: &Statement, ch: &Chal, degree: usize) -> Self {
        let (b, g) = (ch.beta, ch.gamma);
        let zh = ch.zeta.pow([st.size as u64]) - Fr::one();
        let v = ch.v;
        Self {
            q: [Fr::one(); 6],
            ids: [b, b * st.k[0], b * st.k[1]],
            sigmas: [b; 3],
            gammas: [g; 6],
            id: Fr::one(),
            sigma: Fr::one(),
            l1: zh / (Fr::from(st.size as u64) * (ch.zeta - Fr::one())),
            alpha1: ch.alpha,
            alpha2: ch.alpha * ch.alpha,
            t: [Fr::one(); 3],
            slice: ch.zeta.pow([degree as u64]) * ch.zeta,
            zh,
            vs: [v, v * v, v * v * v, v * v * v * v, v * v * v * v * v],
            u: ch.u,
            shift: roots(st.size)[1],
        }
    }
}

/// constant + z Z + t T + abc ABC + w W + wx Wx = 0
struct Linear {
    constant: Fr,
    z: Fr,
    t: [Fr; 3],
    abc: [Fr; 3],
    w: Fr,
    wx: Fr,
}

fn linear(st: &Statement, p: &Proof, ch: &Chal, e: &Equation, s: Fr) -> Linear {
    let (a, b, c) = (p.bar_a, p.bar_b, p.bar_c);
    let at = |q: &Poly| horner(&q.coeffs, s);
    let gates = e.q[0] * at(&st.q[0]) * a
        + e.q[1] * at(&st.q[1]) * b
        + e.q[2] * at(&st.q[2]) * c
        + e.q[3] * at(&st.q[3]) * a * b
        + e.q[4] * at(&st.q[4]);
    let pi = e.q[5] * horner(&st.q[5].coeffs, ch.zeta);
    let zeta = ch.zeta;
    let ids = (a + e.ids[0] * zeta + e.gammas[0])
        * (b + e.ids[1] * zeta + e.gammas[1])
        * (c + e.ids[2] * zeta + e.gammas[2])
        * e.alpha1
        * e.id;
    let sigmas = (a + e.sigmas[0] * p.bar_s_sigma_1 + e.gammas[3])
        * (b + e.sigmas[1] * p.bar_s_sigma_2 + e.gammas[4])
        * p.bar_z_w
        * e.alpha1
        * e.sigma;
    let constant = gates + pi
        - e.l1 * e.alpha2
        - sigmas * (c + e.gammas[5] + e.sigmas[2] * at(&st.sigma[2]))
        - e.vs[0] * a
        - e.vs[1] * b
        - e.vs[2] * c
        + e.vs[3] * (at(&st.sigma[0]) - p.bar_s_sigma_1)
        + e.vs[4] * (at(&st.sigma[1]) - p.bar_s_sigma_2)
        - e.u * p.bar_z_w;
    Linear {
        constant,
        z: ids + e.l1 * e.alpha2 + e.u,
        t: [
            -e.zh * e.t[0],
            -e.zh * e.t[1] * e.slice,
            -e.zh * e.t[2] * e.slice * e.slice,
        ],
        abc: [e.vs[0], e.vs[1], e.vs[2]],
        w: zeta - s,
        wx: e.u * (zeta * e.shift - s),
    }
}

fn holds(st: &Statement, p: &Proof, ch: &Chal, s: Fr) -> bool {
    satisfies(st, p, ch, &Equation::right(st, ch, p.degree), s)
}

fn satisfies(st: &Statement, p: &Proof, ch: &Chal, e: &Equation, s: Fr) -> bool {
    let l = linear(st, p, ch, e, s);
    let sum: G1Projective = G1Affine::generator() * l.constant
        + p.z_commit.0 * l.z
        + p.t_lo_commit.0 * l.t[0]
        + p.t_mid_commit.0 * l.t[1]
        + p.t_hi_commit.0 * l.t[2]
        + p.a_commit.0 * l.abc[0]
        + p.b_commit.0 * l.abc[1]
        + p.c_commit.0 * l.abc[2]
        + p.w_ev_x_commit.0 * l.w
        + p.w_ev_wx_commit.0 * l.wx;
    sum.is_zero()
}

// ---------------------------------------------------------------- the schedule

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Slot {
    digest: usize,
    draw: usize,
    form: Form,
}

/// How a challenge is made from the generator seeded with a digest
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Form {
    Field,
    Byte,
    Short,
    Word,
    Long,
    /// the low bits of a field element
    Low(u32),
}

const FORMS: [Form; 9] = [
    Form::Field,
    Form::Byte,
    Form::Short,
    Form::Word,
    Form::Long,
    Form::Low(8),
    Form::Low(16),
    Form::Low(32),
    Form::Low(64),
];

impl Form {
    fn draws(self, output: &[u8], n: usize) -> Vec<Fr> {
        use rand::SeedableRng;
        let rng = &mut StdRng::seed_from_u64(seed_of(output));
        (0..n)
            .map(|_| match self {
                Form::Field => Fr::rand(rng),
                Form::Byte => Fr::from(rng.gen::<u8>()),
                Form::Short => Fr::from(rng.gen::<u16>()),
                Form::Word => Fr::from(rng.gen::<u32>()),
                Form::Long => Fr::from(rng.gen::<u64>()),
                Form::Low(bits) => {
                    let low = Fr::rand(rng).into_bigint().0[0];
                    Fr::from(if bits == 64 { low } else { low & ((1 << bits) - 1) })
                }
            })
            .collect()
    }
}

/// Where each challenge is drawn from: alpha, beta, gamma, zeta, v, u
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Schedule([Slot; 6]);

const CHALLENGES: [&str; 6] = ["alpha", "beta", "gamma", "zeta", "v", "u"];
const DRAWS: usize = 4;

impl Schedule {
    fn read(&self, log: &[Entry]) -> Option<Chal> {
        let mut r = [Fr::zero(); 6];
        for (x, s) in r.iter_mut().zip(self.0) {
            *x = s.form.draws(&log.get(s.digest)?.output, s.draw + 1)[s.draw];
        }
        let [alpha, beta, gamma, zeta, v, u] = r;
        Some(Chal {
            alpha,
            beta,
            gamma,
            zeta,
            v,
            u,
        })
    }
}

static SCHEDULE: Mutex<(Option<Schedule>, u32)> = Mutex::new((None, 0));
/// How often `learn_weaker` was tried
static WEAKER: Mutex<u32> = Mutex::new(0);

fn logged(cc: &CompiledCircuit, srs: &Srs, p: &Proof) -> (Result<bool, Panicked>, Vec<Entry>) {
    let (r, log) = recorded(|| guard(|| verify::<Rec10>(cc, srs.clone(), clone_proof(p))));
    (r.map(|r| r.is_ok()), log)
}

/// First digest that changes with an alteration of the proof
fn absorbed(cc: &CompiledCircuit, srs: &Srs, p: &Proof, log: &[Entry], alter: &dyn Fn(&mut Proof)) -> Option<usize> {
    let mut q = clone_proof(p);
    alter(&mut q);
    let (_, other) = logged(cc, srs, &q);
    (0..log.len().min(other.len())).find(|i| log[*i].output != other[*i].output)
}

fn bump(p: &mut G1Affine) {
    *p = (*p + G1Affine::generator()).into_affine()
}

/// Finds the challenges of an honest proof in the digests of its verification.
fn learn(st: &Statement, srs: &Srs, s: Fr, p: &Proof) -> Option<(Schedule, Chal, Vec<Entry>)> {
    let cc = st.build();
    let (ok, log) = logged(&cc, srs, p);
    if !matches!(ok, Ok(true)) {
        return None;
    }
    let known = SCHEDULE.lock().unwrap().0;
    if let Some(sch) = known {
        if let Some(ch) = sch.read(&log) {
            if ch.u == p.u
                && horner(&st.sigma[0].coeffs, ch.zeta) == p.bar_s_sigma_1
                && holds(st, p, &ch, s)
            {
                return Some((sch, ch, log));
            }
        }
    }
    if SCHEDULE.lock().unwrap().1 > 6 {
        return None;
    }
    let give_up = || {
        SCHEDULE.lock().unwrap().1 += 1;
        None
    };
    let Some(tries) = possible(st, srs, p, &cc, &log) else {
        return give_up();
    };
    for sch in tries {
        let ch = sch.read(&log)?;
        if holds(st, p, &ch, s) {
            SCHEDULE.lock().unwrap().0.get_or_insert(sch);
            return Some((sch, ch, log));
        }
    }
    give_up()
}

/// Schedules that agree with what is known of the proof, the likeliest first
fn possible(st: &Statement, srs: &Srs, p: &Proof, cc: &CompiledCircuit, log: &[Entry]) -> Option<Vec<Schedule>> {
    let cand: Vec<(Slot, Fr)> = FORMS
        .into_iter()
        .flat_map(|form| {
            log.iter().enumerate().flat_map(move |(digest, e)| {
                let values = form.draws(&e.output, DRAWS).into_iter().enumerate();
                values.map(move |(draw, x)| (Slot { digest, draw, form }, x))
            })
        })
        .collect();
    let find = |f: &dyn Fn(Fr) -> bool| cand.iter().find(|(_, x)| f(*x)).map(|x| x.0);
    let zeta = find(&|x| {
        horner(&st.sigma[0].coeffs, x) == p.bar_s_sigma_1
            && horner(&st.sigma[1].coeffs, x) == p.bar_s_sigma_2
    })?;
    let u = find(&|x| x == p.u)?;
    let before = |i: usize| -> usize {
        absorbed(cc, srs, p, log, &|q| bump(point(q, i)))
            .unwrap_or(1)
            .max(1)
            - 1
    };
    let (z, t, w) = (before(3), before(4), before(7));
    let slot = |digest, draw, form| Slot { digest, draw, form };
    let mut tries: Vec<Schedule> = [u.form, Form::Field]
        .map(|k| Schedule([slot(t, 0, k), slot(z, 0, k), slot(z, 1, k), zeta, slot(w, 0, k), u]))
        .to_vec();
    tries.dedup();
    let base = tries[0];
    for (sl, _) in &cand {
        for which in [0, 1, 2, 4] {
            let mut x = base;
            x.0[which] = *sl;
            tries.push(x);
        }
    }
    for (first, _) in &cand {
        for draw in 0..DRAWS {
            let mut x = base;
            x.0[1] = *first;
            x.0[2] = Slot { draw, ..*first };
            tries.push(x);
        }
    }
    Some(tries)
}

/// The schedule under which an accepted honest proof satisfies an equation from `WRONG`, or two of
/// them at once: then prover and verifier agree on something weaker than the reference.
fn learn_weaker(rng: &mut StdRng, st: &Statement, srs: &Srs, s: Fr, p: &Proof) -> Option<(Schedule, Weaker)> {
    let cc = st.build();
    let (ok, log) = logged(&cc, srs, p);
    if !matches!(ok, Ok(true)) {
        return None;
    }
    let tries = possible(st, srs, p, &cc, &log)?;
    let satisfied = |sch: &Schedule, which: &[usize], rng: &mut StdRng| {
        let Some(ch) = sch.read(&log) else { return false };
        let mut e = Equation::right(st, &ch, p.degree);
        for i in which {
            WRONG[*i].1(&mut e, &ch, rng);
        }
        satisfies(st, p, &ch, &e, s)
    };
    let unsound: Vec<usize> = (0..WRONG.len())
        .filter(|i| !OTHER_PROTOCOL.contains(&WRONG[*i].0))
        .collect();
    let base = tries[0];
    for i in &unsound {
        if satisfied(&base, &[*i], rng) {
            return Some((base, Weaker::Listed(vec![*i])));
        }
    }
    if let Some(w) = learn_powers(st, p, &base.read(&log)?, s) {
        return Some((base, Weaker::Powers(w)));
    }
    for (n, i) in unsound.iter().enumerate() {
        for j in &unsound[n + 1..] {
            if satisfied(&base, &[*i, *j], rng) {
                return Some((base, Weaker::Listed(vec![*i, *j])));
            }
        }
    }
    let start = std::time::Instant::now();
    for sch in &tries {
        for i in &unsound {
            if satisfied(sch, &[*i], rng) {
                return Some((*sch, Weaker::Listed(vec![*i])));
            }
        }
        if start.elapsed().as_secs() > 60 {
            break;
        }
    }
    None
}

/// What prover and verifier agree on instead of the reference
#[derive(Clone, Debug)]
enum Weaker {
    Listed(Vec<usize>),
    Powers(Powers),
}

impl Weaker {
    fn apply(&self, e: &mut Equation, ch: &Chal, rng: &mut StdRng) -> bool {
        match self {
            Weaker::Listed(which) => which.iter().fold(false, |u, i| WRONG[*i].1(e, ch, rng) || u),
            Weaker::Powers(w) => w.apply(e, ch),
        }
    }
    fn name(&self) -> String {
        match self {
            Weaker::Listed(which) => which.iter().map(|i| WRONG[*i].0).collect::<Vec<_>>().join(", "),
            Weaker::Powers(w) => w.name(),
        }
    }
}

/// Weights that are other powers of the challenges, and challenges derived from earlier ones
#[derive(Clone, Copy, Debug, PartialEq)]
struct Powers {
    vs: [usize; 5],
    alpha1: usize,
    alpha2: usize,
    /// (alpha, gamma, v, u) from `others`; 0 is the drawn one
    other: [usize; 4],
    /// A challenge that is a constant: alpha, beta, gamma, v or u
    fixed: Option<(usize, Fr)>,
}

/// Values a challenge could have been given before the messages it has to follow. The names are
/// for the reports.
fn others(ch: &Chal) -> [Vec<(Fr, &'static str)>; 4] {
    let one = Fr::one();
    let (b, g) = (ch.beta, ch.gamma);
    [
        vec![(ch.alpha, "alpha"), (b, "beta"), (g, "gamma"), (b * g, "beta gamma"), (b + g, "beta + gamma"), (b * b, "beta^2"), (one, "1")],
        vec![(g, "gamma"), (b, "beta"), (b + one, "beta + 1"), (one, "1"), (Fr::zero(), "0"), (-b, "-beta"), (b + b, "2 beta")],
        vec![(ch.v, "v"), (ch.zeta, "zeta"), (ch.alpha, "alpha"), (b, "beta"), (g, "gamma"), (one, "1"), (ch.zeta * ch.zeta, "zeta^2")],
        vec![
            (ch.u, "u"),
            (one, "1"),
            (ch.v, "v"),
            (ch.zeta, "zeta"),
            (ch.alpha, "alpha"),
            (b, "beta"),
            (g, "gamma"),
            (ch.v.square(), "v^2"),
            (ch.v.pow([5u64]), "v^5"),
            (ch.v.pow([6u64]), "v^6"),
            (Fr::zero(), "0"),
        ],
    ]
}

impl Powers {
    fn changed(&self, ch: &Chal) -> Chal {
        let o = others(ch);
        let mut x = Chal {
            alpha: o[0][self.other[0]].0,
            gamma: o[1][self.other[1]].0,
            v: o[2][self.other[2]].0,
            u: o[3][self.other[3]].0,
            ..*ch
        };
        if let Some((i, y)) = self.fixed {
            *[&mut x.alpha, &mut x.beta, &mut x.gamma, &mut x.v, &mut x.u][i] = y;
        }
        x
    }
    fn apply(&self, e: &mut Equation, ch: &Chal) -> bool {
        let x = self.changed(ch);
        let ratio = x.beta / ch.beta;
        e.ids.iter_mut().chain(&mut e.sigmas).for_each(|y| *y *= ratio);
        e.gammas = [x.gamma; 6];
        e.alpha1 = x.alpha.pow([self.alpha1 as u64]);
        e.alpha2 = x.alpha.pow([self.alpha2 as u64]);
        for (w, k) in e.vs.iter_mut().zip(self.vs) {
            *w = x.v.pow([k as u64]);
        }
        let free = self.other[3] == 0 && !matches!(self.fixed, Some((4, _)));
        if !free {
            e.u = x.u;
        }
        !free
    }
    /// Weights have to be distinct powers of a challenge drawn after everything they weigh.
    fn unsound(&self) -> bool {
        let mut k = self.vs.to_vec();
        k.push(0);
        k.sort();
        k.dedup();
        let mut a = vec![0, self.alpha1, self.alpha2];
        a.sort();
        a.dedup();
        k.len() < 6 || a.len() < 3 || self.other != [0; 4] || self.fixed.is_some()
    }
    fn name(&self) -> String {
        let ch = Chal { alpha: Fr::one(), beta: Fr::one(), gamma: Fr::one(), zeta: Fr::one(), v: Fr::one(), u: Fr::one() };
        let o = others(&ch);
        let mut r = format!("weights v^{:?}, permutation alpha^{}, start alpha^{}", self.vs, self.alpha1, self.alpha2);
        for (j, c) in ["alpha", "gamma", "v", "u"].iter().enumerate() {
            if self.other[j] != 0 {
                r += &format!(", {c} = {}", o[j][self.other[j]].1);
            }
        }
        if let Some((i, y)) = self.fixed {
            r += &format!(", {} = {y}", FIXED[i]);
        }
        r
    }
}

const FIXED: [&str; 5] = ["alpha", "beta", "gamma", "v", "u"];
/// Constants tried for each challenge, of both signs
const CONSTANTS: usize = 1 << 16;

/// A challenge that is a small constant. The equation is a polynomial in it, so that its values
/// at consecutive integers follow from differences.
fn learn_fixed(value: &dyn Fn(&Powers) -> G1Projective) -> Option<Powers> {
    let usual = Powers { vs: [1, 2, 3, 4, 5], alpha1: 1, alpha2: 2, other: [0; 4], fixed: None };
    for (i, degree) in [2usize, 3, 3, 5, 1].into_iter().enumerate() {
        for sign in [Fr::one(), -Fr::one()] {
            let at = |y: u64| Powers { fixed: Some((i, sign * Fr::from(y))), ..usual };
            let mut d: Vec<G1Projective> = (0..=degree as u64).map(|y| value(&at(y))).collect();
            for k in 1..=degree {
                for j in (k..=degree).rev() {
                    d[j] = d[j] - d[j - 1];
                }
            }
            for y in 0..CONSTANTS as u64 {
                if d[0].is_zero() {
                    return Some(at(y));
                }
                for j in 0..degree {
                    d[j] = d[j] + d[j + 1];
                }
            }
        }
    }
    None
}

/// The equation is linear in the weights: every combination of small powers is tried.
fn learn_powers(st: &Statement, p: &Proof, ch: &Chal, s: Fr) -> Option<Powers> {
    let value = |e: &Equation, ch: &Chal| -> G1Projective {
        let l = linear(st, p, ch, e, s);
        G1Affine::generator() * l.constant
            + p.z_commit.0 * l.z
            + p.t_lo_commit.0 * l.t[0]
            + p.t_mid_commit.0 * l.t[1]
            + p.t_hi_commit.0 * l.t[2]
            + p.a_commit.0 * l.abc[0]
            + p.b_commit.0 * l.abc[1]
            + p.c_commit.0 * l.abc[2]
            + p.w_ev_x_commit.0 * l.w
            + p.w_ev_wx_commit.0 * l.wx
    };
    let n = others(ch);
    // the drawn challenges first, then one that is not drawn, then two
    let mut choices = vec![];
    for a in 0..n[0].len() {
        for g in 0..n[1].len() {
            for v in 0..n[2].len() {
                for u in 0..n[3].len() {
                    choices.push([a, g, v, u]);
                }
            }
        }
    }
    let changes = |o: &[usize; 4]| o.iter().filter(|x| **x != 0).count();
    choices.retain(|o| changes(o) <= 2);
    choices.sort_by_key(changes);
    for other in choices {
        let usual = Powers { vs: [1, 2, 3, 4, 5], alpha1: 1, alpha2: 2, other, fixed: None };
        let x = usual.changed(ch);
        let mut e = Equation::right(st, &x, p.degree);
        if other != [0; 4] {
            // with the usual powers only
            usual.apply(&mut e, ch);
            if value(&e, &x).is_zero() {
                return Some(usual);
            }
            continue;
        }
        // all weights zero, then each of them one
        e.vs = [Fr::zero(); 5];
        e.alpha1 = Fr::zero();
        e.alpha2 = Fr::zero();
        let zero = value(&e, &x);
        let part = |f: &dyn Fn(&mut Equation)| {
            let mut d = e.clone();
            f(&mut d);
            value(&d, &x) - zero
        };
        let vs: Vec<Vec<G1Projective>> = (0..5)
            .map(|i| {
                let y = part(&|d| d.vs[i] = Fr::one());
                (0..7).map(|k| y * x.v.pow([k as u64])).collect()
            })
            .collect();
        let a1 = part(&|d| d.alpha1 = Fr::one());
        let a2 = part(&|d| d.alpha2 = Fr::one());
        // sums of the two halves
        let mut left = std::collections::HashMap::new();
        for i in 0..7 {
            for j in 0..7 {
                for k in 0..7 {
                    let y = vs[0][i] + vs[1][j] + vs[2][k];
                    left.entry((-y).into_affine()).or_insert([i, j, k]);
                }
            }
        }
        for i in 0..7 {
            for j in 0..7 {
                for m in 0..4usize {
                    for k in 0..4usize {
                        let y = zero + vs[3][i] + vs[4][j] + a1 * x.alpha.pow([m as u64]) + a2 * x.alpha.pow([k as u64]);
                        if let Some(l) = left.get(&y.into_affine()) {
                            let r = Powers { vs: [l[0], l[1], l[2], i, j], alpha1: m, alpha2: k, other, fixed: None };
                            return r.unsound().then_some(r);
                        }
                    }
                }
            }
        }
    }
    learn_fixed(&|w| {
        let x = w.changed(ch);
        let mut e = Equation::right(st, ch, p.degree);
        w.apply(&mut e, ch);
        value(&e, &x)
    })
}

pub struct Honest {
    pub m: Model,
    pub st: Statement,
    pub cc: CompiledCircuit,
    pub strings: Strings,
    pub proof: Proof,
}

/// An honest proof under the recording hash
pub fn honest(c: &mut Case, max: usize) -> Option<Honest> {
    let n = any_size(&mut c.rng, max);
    honest_of(c, n)
}

/// One in sixteen is larger than the rest
fn honest_some(c: &mut Case, max: usize) -> Option<Honest> {
    let n = match c.idx % 16 {
        9 => c.rng.gen_range(40..140),
        _ => any_size(&mut c.rng, max),
    };
    c.maximum("gates", n as u64);
    honest_of(c, n)
}

fn honest_of(c: &mut Case, n: usize) -> Option<Honest> {
    let m = random_model(&mut c.rng, n);
    let strings = strings(&mut c.rng, m.rows());
    let r = guard(|| {
        let cc = m.compile();
        let proof = generate_proof::<Rec10>(&cc, strings.srs.clone());
        (cc, proof)
    });
    match r {
        Ok((cc, proof)) => Some(Honest {
            st: Statement::of(&cc),
            cc,
            m,
            strings,
            proof,
        }),
        Err(_) => {
            c.inconclusive("no honest proof to start from");
            None
        }
    }
}

// ---------------------------------------------------------------- C12

/// Breaks a satisfied circuit in one place.
pub fn break_model(rng: &mut StdRng, m: &Model) -> Option<(Model, &'static str)> {
    let n = m.gates.len();
    for _ in 0..40 {
        let mut b = m.clone();
        let row = match rng.gen_range(0..4) {
            0 => 0,
            1 => n - 1,
            _ => rng.gen_range(0..n),
        };
        let col = rng.gen_range(0..3);
        let d = nonzero::<Fr>(rng);
        let what = match rng.gen_range(0..6) {
            0 => {
                shift(&mut b.gates[row].v[col], d);
                "wire value"
            }
            1 => {
                shift(&mut b.gates[row].pi, d);
                "public input"
            }
            2 => {
                // a whole cycle keeps its copies, so that only gates can fail
                let mut p = (col, row);
                loop {
                    b.gates[p.1].v[p.0] += d;
                    p = b.gates[p.1].pos[p.0];
                    if p == (col, row) {
                        break;
                    }
                }
                "variable value"
            }
            3 => {
                // join two cycles
                let (r2, c2) = (rng.gen_range(0..n), rng.gen_range(0..3));
                let x = b.gates[row].pos[col];
                b.gates[row].pos[col] = b.gates[r2].pos[c2];
                b.gates[r2].pos[c2] = x;
                "wiring"
            }
            4 => {
                // a gate that stays right on its own, with the values of another instance
                let g = &mut b.gates[row];
                match g.kind {
                    Kind::Add => {
                        g.v[0] += d;
                        g.v[2] += d;
                    }
                    Kind::Mul => {
                        g.v[0] += d;
                        g.v[2] = g.v[0] * g.v[1] - g.pi;
                    }
                    Kind::Const => g.v[1 + col % 2] += d,
                }
                "consistent gate"
            }
            _ => {
                b.gates[row].kind = match b.gates[row].kind {
                    Kind::Add => Kind::Mul,
                    Kind::Mul => Kind::Add,
                    Kind::Const => Kind::Add,
                };
                "gate kind"
            }
        };
        if !b.satisfied() {
            return Some((b, what));
        }
    }
    None
}

fn c12_unsatisfied(c: &mut Case) {
    let max = if c.thorough() { 20 } else { 12 };
    let n = match c.idx {
        i if i % 240 == 11 => c.rng.gen_range(200..520),
        i if i % 40 == 7 => c.rng.gen_range(30..140),
        _ => any_size(&mut c.rng, max),
    };
    c.maximum("gates", n as u64);
    let m = random_model(&mut c.rng, n);
    let Some((bad, what)) = break_model(&mut c.rng, &m) else {
        return;
    };
    let st = strings(&mut c.rng, m.rows());
    let hash = c.rng.gen_range(0..6);
    let (_, prove, check) = HASHES[hash];
    c.sample(|| format!("{what}: {}", bad.describe()));
    c.eval(bad.describe());
    c.distinct("broken shapes", (what, bad.shape()));
    let r = guard(|| {
        let cc = bad.compile();
        (prove(&cc, st.srs.clone()), cc)
    });
    let (proof, cc) = match r {
        Ok(x) => x,
        Err(p) => {
            if p.is_instrumentation() {
                c.violation("unsatisfied-prover-fault", format!("{p:?} {}", bad.describe()));
            }
            c.count("refused by the prover");
            return;
        }
    };
    match guard(|| check(&cc, st.srs.clone(), proof)) {
        Ok(Err(_)) => c.count("rejected by the verifier"),
        Ok(Ok(())) => c.violation(
            "unsatisfied-accepted",
            format!(
                "gates hold: {}, copies hold: {}, broken: {what}, {}",
                bad.gates_hold(),
                bad.copies_hold(),
                bad.describe()
            ),
        ),
        Err(p) => c.violation("unsatisfied-verifier-panics", format!("{p:?} {}", bad.describe())),
    }
}

fn c12_altered(c: &mut Case) {
    // one in four is larger than the rest
    let n = match c.idx % 4 {
        1 => c.rng.gen_range(60..140),
        _ => any_size(&mut c.rng, 9),
    };
    let Some(h) = honest_of(c, n) else { return };
    let srs = &h.strings.srs;
    match guard(|| verify::<Rec10>(&h.cc, srs.clone(), clone_proof(&h.proof))) {
        Ok(Ok(())) => {}
        _ => {
            c.inconclusive("the honest proof is not accepted");
            return;
        }
    }
    let other = match guard(|| generate_proof::<Rec10>(&h.cc, srs.clone())) {
        Ok(p) => p,
        Err(_) => return,
    };
    let rng = &mut c.rng;
    let mut cheats: Vec<(String, Proof)> = vec![];
    let mut add = |name: String, p: Proof| cheats.push((name, p));
    for i in 0..9 {
        for (how, f) in [
            ("negated", 0),
            ("infinity", 1),
            ("bumped", 2),
            ("random", 3),
            ("doubled", 4),
            ("of another proof", 5),
        ] {
            let mut p = clone_proof(&h.proof);
            let x = *point(&mut p, i);
            *point(&mut p, i) = match f {
                0 => -x,
                1 => G1Affine::zero(),
                2 => (x + G1Affine::generator()).into_affine(),
                3 => g1(Fr::rand(rng)),
                4 => (x + x).into_affine(),
                _ => *point(&mut clone_proof(&other), i),
            };
            add(format!("{} {how}", POINTS[i]), p);
        }
        for j in 0..i {
            let mut p = clone_proof(&h.proof);
            let (x, y) = (*point(&mut p, i), *point(&mut p, j));
            *point(&mut p, i) = y;
            *point(&mut p, j) = x;
            add(format!("{} and {} exchanged", POINTS[i], POINTS[j]), p);
            // the sum is kept
            let mut p = clone_proof(&h.proof);
            let d = g1(Fr::rand(rng));
            *point(&mut p, i) = (x + d).into_affine();
            *point(&mut p, j) = (y - d).into_affine();
            add(format!("{} and {} shifted", POINTS[i], POINTS[j]), p);
        }
    }
    for i in 0..6 {
        for f in 0..5 {
            let mut p = clone_proof(&h.proof);
            let x = *scalar(&mut p, i);
            *scalar(&mut p, i) = match f {
                0 => -x,
                1 => Fr::zero(),
                2 => x + Fr::one(),
                3 => Fr::rand(rng),
                _ => *scalar(&mut clone_proof(&other), i),
            };
            add(format!("{} altered {f}", SCALARS[i]), p);
        }
        for j in 0..i {
            let mut p = clone_proof(&h.proof);
            let (x, y) = (*scalar(&mut p, i), *scalar(&mut p, j));
            *scalar(&mut p, i) = y;
            *scalar(&mut p, j) = x;
            add(format!("{} and {} exchanged", SCALARS[i], SCALARS[j]), p);
            let mut p = clone_proof(&h.proof);
            *scalar(&mut p, i) += Fr::one();
            *scalar(&mut p, j) -= Fr::one();
            add(format!("{} and {} shifted", SCALARS[i], SCALARS[j]), p);
        }
    }
    for (how, d) in [
        ("one more", h.proof.degree + 1),
        ("one less", h.proof.degree.wrapping_sub(1)),
        ("zero", 0),
        ("huge", usize::MAX),
        ("circuit size", h.st.size),
        ("twice", h.proof.degree * 2),
    ] {
        let mut p = clone_proof(&h.proof);
        p.degree = d;
        add(format!("degree {how}"), p);
    }
    for (how, u) in [
        ("one more", h.proof.u + Fr::one()),
        ("zero", Fr::zero()),
        ("negated", -h.proof.u),
        ("of another proof", other.u),
    ] {
        let mut p = clone_proof(&h.proof);
        p.u = u;
        add(format!("u {how}"), p);
    }
    // nothing at all
    let mut p = clone_proof(&h.proof);
    for i in 0..9 {
        *point(&mut p, i) = G1Affine::zero();
    }
    for i in 0..6 {
        *scalar(&mut p, i) = Fr::zero();
    }
    p.u = Fr::zero();
    add("all zero".into(), p);
    cheats.retain(|(_, p)| !same_proof(p, &h.proof));
    if n > 32 {
        // a verification takes long there: all of what is cheap to try, and some of the rest
        let (named, mut rest): (Vec<_>, Vec<_>) = cheats
            .into_iter()
            .partition(|(n, _)| n.starts_with("u ") || n.starts_with("degree ") || n.starts_with("all"));
        rest.shuffle(&mut c.rng);
        rest.truncate(if c.tier == Tier::Quick { 40 } else { 150 });
        cheats = named.into_iter().chain(rest).collect();
    }
    // the u of the altered proof is given as the verifier wants it, when it can be learned
    let sch = learn(&h.st, srs, h.strings.s, &h.proof).map(|x| x.0);
    for (name, mut p) in cheats {
        for repaired in [false, true] {
            if repaired {
                if name.starts_with("u ") {
                    continue;
                }
                let Some(sch) = sch else { continue };
                let (_, log) = logged(&h.cc, srs, &p);
                let Some(ch) = sch.read(&log) else { continue };
                if p.u == ch.u {
                    continue;
                }
                p.u = ch.u;
            }
            c.eval((&name, repaired, h.m.describe()));
            match guard(|| verify::<Rec10>(&h.cc, srs.clone(), clone_proof(&p))) {
                Ok(Err(_)) => c.count("rejected altered proofs"),
                Ok(Ok(())) => {
                    c.violation(
                        &format!("altered-accepted:{}", name.split(' ').next().unwrap()),
                        format!("{name} (u repaired: {repaired}) {}", h.m.describe()),
                    );
                }
                Err(pa) => c.violation(
                    "altered-verifier-panics",
                    format!("{name}: {pa:?} {}", h.m.describe()),
                ),
            }
        }
    }
}

/// A statement with the right kinds of polynomials but no satisfied assignment behind it
fn random_statement(rng: &mut StdRng, large: bool) -> Statement {
    let n = match large {
        true => rng.gen_range(65..140),
        _ => any_size(rng, 8),
    };
    let m = random_model(rng, n);
    let mut st = Statement::of(&m.compile());
    let size = st.size;
    for q in st.q.iter_mut() {
        *q = Poly::from_coefficients_vec((0..size).map(|_| Fr::rand(rng)).collect());
    }
    for q in st.sigma.iter_mut() {
        *q = Poly::from_coefficients_vec((0..size).map(|_| Fr::rand(rng)).collect());
    }
    st
}

/// A proof that satisfies the equation given by `wrong`, made with the secret.
fn simulate(
    rng: &mut StdRng,
    st: &Statement,
    cc: &CompiledCircuit,
    strings: &Strings,
    sch: &Schedule,
    wrong: &dyn Fn(&mut Equation, &Chal, &mut StdRng) -> bool,
) -> Option<(Proof, bool)> {
    let s = strings.s;
    let mut d = [Fr::zero(); 9];
    for x in d.iter_mut() {
        *x = Fr::rand(rng);
    }
    let mut p = Proof {
        a_commit: commit_of(d[0]),
        b_commit: commit_of(d[1]),
        c_commit: commit_of(d[2]),
        z_commit: commit_of(d[3]),
        t_lo_commit: commit_of(d[4]),
        t_mid_commit: commit_of(d[5]),
        t_hi_commit: commit_of(d[6]),
        w_ev_x_commit: commit_of(Fr::zero()),
        w_ev_wx_commit: commit_of(Fr::zero()),
        bar_a: Fr::rand(rng),
        bar_b: Fr::rand(rng),
        bar_c: Fr::rand(rng),
        bar_s_sigma_1: Fr::rand(rng),
        bar_s_sigma_2: Fr::rand(rng),
        bar_z_w: Fr::rand(rng),
        u: Fr::zero(),
        degree: if rng.gen_bool(0.5) {
            st.size + 1
        } else {
            rng.gen_range(0..3 * st.size)
        },
    };
    let (_, log) = logged(cc, &strings.srs, &p);
    let ch = sch.read(&log)?;
    let mut e = Equation::right(st, &ch, p.degree);
    // the last challenge is not known yet; the second opening is right, so that it cancels
    let free_u = !wrong(&mut e, &ch, rng);
    if free_u {
        e.u = Fr::rand(rng);
        d[8] = (d[3] - p.bar_z_w) / (s - ch.zeta * e.shift);
    }
    let l = linear(st, &p, &ch, &e, s);
    let sum = l.constant
        + l.z * d[3]
        + (0..3).map(|i| l.t[i] * d[4 + i] + l.abc[i] * d[i]).sum::<Fr>()
        + l.wx * d[8];
    d[7] = -sum / l.w;
    p.w_ev_x_commit = commit_of(d[7]);
    p.w_ev_wx_commit = commit_of(d[8]);
    let (_, log) = logged(cc, &strings.srs, &p);
    let now = sch.read(&log)?;
    p.u = now.u;
    Some((clone_proof(&p), holds(st, &p, &now, s)))
}

fn schedule(c: &mut Case) -> Option<Schedule> {
    if let Some(s) = SCHEDULE.lock().unwrap().0 {
        return Some(s);
    }
    let h = honest(c, 5)?;
    let r = learn(&h.st, &h.strings.srs, h.strings.s, &h.proof).map(|x| x.0);
    if r.is_none() {
        c.inconclusive("the challenges could not be located in the hash log");
    }
    r
}

fn c12_simulated(c: &mut Case) {
    let Some(sch) = schedule(c) else { return };
    for _ in 0..2 {
        let st = random_statement(&mut c.rng, false);
        let cc = st.build();
        let strings = strings(&mut c.rng, st.size);
        let Some((p, true)) = simulate(&mut c.rng, &st, &cc, &strings, &sch, &|_, _, _| false)
        else {
            c.inconclusive("the simulated proof does not satisfy the equation");
            continue;
        };
        c.eval((st.size, p.degree, hex(&p.bar_a)));
        match guard(|| verify::<Rec10>(&cc, strings.srs.clone(), clone_proof(&p))) {
            Ok(Ok(())) => c.count("accepted simulated proofs"),
            Ok(Err(e)) => c.violation(
                "equation-satisfied-but-rejected",
                format!("size {} degree {}: {e}", st.size, p.degree),
            ),
            Err(pa) => c.violation("simulated-verifier-panics", format!("{pa:?}")),
        }
        // and the same proof, one element off
        for i in 0..15 {
            let mut q = clone_proof(&p);
            if i < 9 {
                bump(point(&mut q, i));
            } else {
                *scalar(&mut q, i - 9) += Fr::one();
            }
            let (_, log) = logged(&cc, &strings.srs, &q);
            let Some(ch) = sch.read(&log) else { continue };
            q.u = ch.u;
            if holds(&st, &q, &ch, strings.s) {
                continue;
            }
            c.eval((i, st.size, hex(&p.bar_a)));
            let r = guard(|| verify::<Rec10>(&cc, strings.srs.clone(), q));
            let name = if i < 9 { POINTS[i] } else { SCALARS[i - 9] };
            c.check(!matches!(r, Ok(Ok(()))), &format!("off-by-one-accepted:{name}"), || {
                format!("size {}", st.size)
            });
            if r.is_ok() {
                c.count("rejected altered simulations");
            }
        }
    }
}

type Wrong = (&'static str, fn(&mut Equation, &Chal, &mut StdRng) -> bool);

/// Equations a careless verifier could check instead. The closure says whether it fixed `u`.
const WRONG: &[Wrong] = &[
    ("without q_l", |e, _, _| { e.q[0] = Fr::zero(); false }),
    ("without q_r", |e, _, _| { e.q[1] = Fr::zero(); false }),
    ("without q_o", |e, _, _| { e.q[2] = Fr::zero(); false }),
    ("without q_m", |e, _, _| { e.q[3] = Fr::zero(); false }),
    ("without q_c", |e, _, _| { e.q[4] = Fr::zero(); false }),
    ("without public inputs", |e, _, _| { e.q[5] = Fr::zero(); false }),
    ("public inputs negated", |e, _, _| { e.q[5] = -Fr::one(); false }),
    ("constants negated", |e, _, _| { e.q[4] = -Fr::one(); false }),
    ("no gates", |e, _, _| { e.q = [Fr::zero(); 6]; false }),
    ("no permutation", |e, _, _| { e.alpha1 = Fr::zero(); false }),
    ("no permutation, no start", |e, _, _| { e.alpha1 = Fr::zero(); e.alpha2 = Fr::zero(); false }),
    ("no identity product", |e, _, _| { e.id = Fr::zero(); false }),
    ("no sigma product", |e, _, _| { e.sigma = Fr::zero(); false }),
    ("no start", |e, _, _| { e.alpha2 = Fr::zero(); false }),
    ("start with alpha", |e, ch, _| { e.alpha2 = ch.alpha; false }),
    ("start without alpha", |e, _, _| { e.alpha2 = Fr::one(); false }),
    ("permutation without alpha", |e, _, _| { e.alpha1 = Fr::one(); false }),
    ("start at every point", |e, ch, _| { e.l1 = ch.zeta.inverse().unwrap(); false }),
    ("start not divided by the size", |e, _, _| { let h = e.zh; let l = e.l1; e.l1 = l + h; false }),
    ("no quotient", |e, _, _| { e.zh = Fr::zero(); false }),
    ("no vanishing", |e, _, _| { e.zh = Fr::one(); false }),
    ("one slice", |e, _, _| { e.t = [Fr::one(), Fr::zero(), Fr::zero()]; false }),
    ("two slices", |e, _, _| { e.t[2] = Fr::zero(); false }),
    ("no middle slice", |e, _, _| { e.t[1] = Fr::zero(); false }),
    ("no low slice", |e, _, _| { e.t[0] = Fr::zero(); false }),
    ("slices by the degree", |e, ch, _| { e.slice /= ch.zeta; false }),
    ("slices one too far", |e, ch, _| { e.slice *= ch.zeta; false }),
    ("slices not shifted", |e, _, _| { e.slice = Fr::one(); false }),
    ("no opening of a", |e, _, _| { e.vs[0] = Fr::zero(); false }),
    ("no opening of b", |e, _, _| { e.vs[1] = Fr::zero(); false }),
    ("no opening of c", |e, _, _| { e.vs[2] = Fr::zero(); false }),
    ("no opening of sigma 1", |e, _, _| { e.vs[3] = Fr::zero(); false }),
    ("no opening of sigma 2", |e, _, _| { e.vs[4] = Fr::zero(); false }),
    ("no openings", |e, _, _| { e.vs = [Fr::zero(); 5]; false }),
    ("one weight for all openings", |e, ch, _| { e.vs = [ch.v; 5]; false }),
    ("unit weights", |e, _, _| { e.vs = [Fr::one(); 5]; false }),
    ("equal weights for a and b", |e, _, _| { e.vs[1] = e.vs[0]; false }),
    ("equal weights for b and c", |e, _, _| { e.vs[2] = e.vs[1]; false }),
    ("equal weights for the sigmas", |e, _, _| { e.vs[4] = e.vs[3]; false }),
    ("equal weights for c and sigma 1", |e, _, _| { e.vs[3] = e.vs[2]; false }),
    ("weights from one", |e, ch, _| { for x in e.vs.iter_mut() { *x /= ch.v; } false }),
    ("unit identities", |e, _, _| { let b = e.ids[0]; e.ids = [b; 3]; false }),
    ("factors exchanged", |e, _, _| { e.ids.swap(1, 2); false }),
    ("no beta", |e, _, _| { e.ids = [Fr::zero(); 3]; e.sigmas = [Fr::zero(); 3]; false }),
    ("no gamma", |e, _, _| { e.gammas = [Fr::zero(); 6]; false }),
    ("gamma is beta", |e, ch, _| { e.gammas = [ch.beta; 6]; false }),
    ("no gamma in the last sigma factor", |e, _, _| { e.gammas[5] = Fr::zero(); false }),
    ("no beta in the last sigma factor", |e, _, _| { e.sigmas[2] = Fr::zero(); false }),
    ("second opening at the same point", |e, _, _| { e.shift = Fr::one(); false }),
    ("second opening at another root", |e, _, _| { e.shift = e.shift.inverse().unwrap() + Fr::from(2u64); false }),
    ("no second opening", |e, _, _| { e.u = Fr::zero(); true }),
    ("second opening with weight one", |e, _, _| { e.u = Fr::one(); true }),
    ("second opening with v", |e, ch, _| { e.u = ch.v; true }),
    ("second opening with zeta", |e, ch, _| { e.u = ch.zeta; true }),
    ("second opening with alpha", |e, ch, _| { e.u = ch.alpha; true }),
    ("second opening with u before the openings", |e, ch, _| { e.u = ch.u; true }),
];

/// Equations that are as good as the reference if prover and verifier agree on them
const OTHER_PROTOCOL: &[&str] = &[
    "public inputs negated",
    "constants negated",
    "start not divided by the size",
    "slices by the degree",
    "slices one too far",
    "factors exchanged",
];

/// When no schedule makes an honest proof satisfy the reference equation.
fn c12_weaker_equation(c: &mut Case) {
    {
        let mut tried = WEAKER.lock().unwrap();
        if *tried > 3 {
            return;
        }
        *tried += 1;
    }
    let Some(h) = honest(c, 5) else { return };
    let r = learn_weaker(&mut c.rng, &h.st, &h.strings.srs, h.strings.s, &h.proof);
    let Some((sch, weaker)) = r else { return };
    for _ in 0..4 {
        let st = random_statement(&mut c.rng, false);
        let cc = st.build();
        let strings = strings(&mut c.rng, st.size);
        let made = simulate(&mut c.rng, &st, &cc, &strings, &sch, &|e, ch, rng| {
            weaker.apply(e, ch, rng)
        });
        let Some((p, false)) = made else { continue };
        let names = weaker.name();
        c.eval((&names, st.size, hex(&p.bar_a)));
        if let Ok(Ok(())) = guard(|| verify::<Rec10>(&cc, strings.srs.clone(), p)) {
            c.violation(
                &format!("forged:{names}"),
                format!("honest and forged proofs both satisfy the equation '{names}' instead of the reference and are accepted, circuit size {}", st.size),
            );
        }
    }
}

fn c12_wrong_equation(c: &mut Case) {
    let Some(sch) = schedule(c) else {
        c12_weaker_equation(c);
        return;
    };
    // a satisfiable circuit and an impossible one
    let large = c.idx % 8 == 5;
    let st = if large || c.rng.gen_bool(0.5) {
        random_statement(&mut c.rng, large)
    } else {
        let n = any_size(&mut c.rng, 8);
        let mut m = random_model(&mut c.rng, n);
        if let Some((b, _)) = break_model(&mut c.rng, &m) {
            m = b;
        }
        Statement::of(&m.compile())
    };
    let cc = st.build();
    let strings = strings(&mut c.rng, st.size);
    // some of the changes where each is expensive
    let which = WRONG.choose_multiple(&mut c.rng, if large { 5 } else { WRONG.len() }).collect::<Vec<_>>();
    for (name, f) in which {
        let Some((p, right)) = simulate(&mut c.rng, &st, &cc, &strings, &sch, f) else {
            continue;
        };
        if right {
            // the change makes no difference for this circuit
            c.eval_trivial();
            continue;
        }
        c.eval((name, st.size, hex(&p.bar_a)));
        c.distinct("wrong equations", name);
        match guard(|| verify::<Rec10>(&cc, strings.srs.clone(), p)) {
            Ok(Err(_)) => c.count("rejected proofs of wrong equations"),
            Ok(Ok(())) => c.violation(
                &format!("forged:{name}"),
                format!("a proof made for the equation '{name}' is accepted, circuit size {}", st.size),
            ),
            Err(pa) => c.violation("forged-verifier-panics", format!("{name}: {pa:?}")),
        }
    }
}

// ---------------------------------------------------------------- C13

fn must_reject(c: &mut Case, st: &Statement, srs: &Srs, p: &Proof, check: VerifyFn, key: &str, desc: &str) {
    c.eval((key, desc, hex(&p.bar_a)));
    let r = guard(|| check(&st.build(), srs.clone(), clone_proof(p)));
    match r {
        Ok(Err(_)) => c.count("rejected for another statement"),
        Ok(Ok(())) => c.violation(&format!("accepted-for:{key}"), desc.to_string()),
        Err(pa) => c.violation(
            &format!("verifier-panics-for:{key}"),
            format!("{pa:?} {desc}"),
        ),
    }
}

fn c13_altered(c: &mut Case) {
    let Some(h) = honest_some(c, 9) else { return };
    let srs = h.strings.srs.clone();
    let n = h.st.size;
    let ok = guard(|| verify::<Rec10>(&h.st.build(), srs.clone(), clone_proof(&h.proof)));
    if !matches!(ok, Ok(Ok(()))) {
        c.inconclusive("the honest proof is not accepted");
        return;
    }
    c.eval(("own", h.m.describe()));
    let desc = h.m.describe();
    c.sample(|| desc.clone());
    for (i, name) in Q_NAMES.iter().enumerate() {
        let row = c.rng.gen_range(0..n);
        for d in [nonzero::<Fr>(&mut c.rng), Fr::one()] {
            let mut st = h.st.clone();
            st.q[i] = &st.q[i] + &lagrange(n, row, d);
            must_reject(c, &st, &srs, &h.proof, verify::<Rec10>, name, &format!("row {row} + {} of {desc}", hex(&d)));
        }
        if !h.st.q[i].is_zero() {
            let mut st = h.st.clone();
            st.q[i] = Poly::from_coefficients_vec(vec![]);
            must_reject(c, &st, &srs, &h.proof, verify::<Rec10>, name, &format!("removed of {desc}"));
        }
        // a single coefficient, and two rows whose sum stays
        let k = c.rng.gen_range(0..n);
        let d = nonzero::<Fr>(&mut c.rng);
        let mut st = h.st.clone();
        st.q[i] = &st.q[i] + &monomial(k, d);
        must_reject(c, &st, &srs, &h.proof, verify::<Rec10>, name, &format!("coefficient {k} of {desc}"));
        let other = (row + c.rng.gen_range(1..n)) % n;
        let mut st = h.st.clone();
        st.q[i] = &(&st.q[i] + &lagrange(n, row, d)) + &lagrange(n, other, -d);
        must_reject(c, &st, &srs, &h.proof, verify::<Rec10>, name, &format!("rows {row} and {other} of {desc}"));
    }
    for i in 0..3 {
        let row = c.rng.gen_range(0..n);
        let mut st = h.st.clone();
        let d = nonzero::<Fr>(&mut c.rng);
        st.sigma[i] = &st.sigma[i] + &lagrange(n, row, d);
        must_reject(c, &st, &srs, &h.proof, verify::<Rec10>, "sigma", &format!("{i} row {row} of {desc}"));
    }
    // wires exchanged between two places
    for _ in 0..3 {
        let rs = roots(n);
        let (i, j) = (c.rng.gen_range(0..3), c.rng.gen_range(0..3));
        let (r1, r2) = (c.rng.gen_range(0..n), c.rng.gen_range(0..n));
        let x = h.st.sigma[i].evaluate(&rs[r1]);
        let y = h.st.sigma[j].evaluate(&rs[r2]);
        if x == y {
            continue;
        }
        let mut st = h.st.clone();
        st.sigma[i] = &st.sigma[i] + &lagrange(n, r1, y - x);
        st.sigma[j] = &st.sigma[j] + &lagrange(n, r2, x - y);
        must_reject(c, &st, &srs, &h.proof, verify::<Rec10>, "wiring", &format!("({i},{r1}) ({j},{r2}) of {desc}"));
    }
    for i in 0..2 {
        let mut st = h.st.clone();
        st.k[i] += nonzero::<Fr>(&mut c.rng);
        must_reject(c, &st, &srs, &h.proof, verify::<Rec10>, "coset factor", &format!("{i} of {desc}"));
    }
    let mut st = h.st.clone();
    st.k.swap(0, 1);
    must_reject(c, &st, &srs, &h.proof, verify::<Rec10>, "coset factors exchanged", &desc);
    for size in [n * 2, n * 4, n / 2] {
        let mut st = h.st.clone();
        st.size = size;
        if size < 2 {
            continue;
        }
        must_reject(c, &st, &srs, &h.proof, verify::<Rec10>, "size", &format!("{size} of {desc}"));
    }
}

fn c13_cross(c: &mut Case) {
    let Some(h) = honest_some(c, 9) else { return };
    // the same gates with one difference, or another circuit
    let mut m = h.m.clone();
    let n = m.gates.len();
    let row = c.rng.gen_range(0..n);
    let what = c.rng.gen_range(0..6);
    match what {
        0 => m.gates[row].pi += nonzero::<Fr>(&mut c.rng),
        1 => {
            m.gates[row].kind = match m.gates[row].kind {
                Kind::Add => Kind::Mul,
                Kind::Mul => Kind::Const,
                Kind::Const => Kind::Add,
            }
        }
        2 => {
            if m.gates[row].kind != Kind::Const {
                return;
            }
            m.gates[row].v[0] += nonzero::<Fr>(&mut c.rng)
        }
        3 => m = random_model(&mut c.rng, n),
        4 => {
            let j = c.rng.gen_range(0..n);
            m.gates.swap(row, j);
        }
        _ => {
            let extra = m.gates[row].clone();
            m.gates.push(MGate {
                pos: [(0, n), (1, n), (2, n)],
                ..extra
            });
        }
    }
    let st = Statement::of(&m.compile());
    let same = st.size == h.st.size
        && st.q == h.st.q
        && st.sigma == h.st.sigma
        && st.k == h.st.k;
    if same {
        c.eval_trivial();
        return;
    }
    let key = ["public input", "kind", "constant", "circuit", "gate order", "extra gate"][what];
    let srs = Srs::new_from_secret(h.strings.s, st.size.max(h.st.size));
    must_reject(c, &st, &srs, &h.proof, verify::<Rec10>, key, &format!("{} instead of {}", m.describe(), h.m.describe()));
    c.eval(("own", h.m.describe()));
    let ok = guard(|| verify::<Rec10>(&h.cc, srs.clone(), clone_proof(&h.proof)));
    c.check(matches!(ok, Ok(Ok(()))), "own-statement-rejected", || h.m.describe());
}

fn c13_strings(c: &mut Case) {
    let Some(h) = honest(c, 6) else { return };
    let s = h.strings.s;
    for (key, t) in [
        ("secret plus one", s + Fr::one()),
        ("negated secret", -s),
        ("square", s * s),
        ("random", Fr::rand(&mut c.rng)),
        ("one", Fr::one()),
    ] {
        let srs = Srs::new_from_secret(t, h.st.size);
        must_reject(c, &h.st, &srs, &h.proof, verify::<Rec10>, "another string", &format!("{key} {}", h.m.describe()));
    }
    let srs = Srs::new(h.st.size);
    must_reject(c, &h.st, &srs, &h.proof, verify::<Rec10>, "another string", &format!("fresh {}", h.m.describe()));
    // a longer string of the same secret is the same string
    let srs = Srs::new_from_secret(s, h.st.size + 7);
    c.eval(("longer", h.m.describe()));
    let ok = guard(|| verify::<Rec10>(&h.cc, srs, clone_proof(&h.proof)));
    c.check(matches!(ok, Ok(Ok(()))), "longer-string-rejected", || h.m.describe());
}

fn c13_hashes(c: &mut Case) {
    let n = any_size(&mut c.rng, 6);
    let m = random_model(&mut c.rng, n);
    let st = strings(&mut c.rng, m.rows());
    let cc = m.compile();
    let stm = Statement::of(&cc);
    let i = c.rng.gen_range(0..6);
    let Ok(p) = guard(|| HASHES[i].1(&cc, st.srs.clone())) else {
        c.inconclusive("no honest proof to start from");
        return;
    };
    for (j, (name, _, check)) in HASHES.iter().enumerate() {
        // the recording hash is SHA-256
        if j == i || (i.min(j) == 0 && i.max(j) == 5) {
            continue;
        }
        must_reject(c, &stm, &st.srs, &p, *check, "another hash", &format!("{} for {name} {}", HASHES[i].0, m.describe()));
    }
    c.eval((i, "own", m.describe()));
    let ok = guard(|| HASHES[i].2(&cc, st.srs.clone(), p));
    c.check(matches!(ok, Ok(Ok(()))), "own-hash-rejected", || m.describe());
}

fn c13_adaptive(c: &mut Case) {
    let Some(h) = honest_some(c, 9) else { return };
    let srs = Srs::new_from_secret(h.strings.s, h.st.size + 2);
    let desc = h.m.describe();
    let p = &h.proof;
    let n = h.st.size;
    // selectors, by the evaluations alone
    let coef = [p.bar_a, p.bar_b, p.bar_c, p.bar_a * p.bar_b, Fr::one()];
    for i in 0..5 {
        for j in 0..i {
            let d = any_poly(&mut c.rng, n);
            let d = if d.is_zero() {
                Poly::from_coefficients_vec(vec![Fr::one()])
            } else {
                d
            };
            let mut st = h.st.clone();
            st.q[i] = &st.q[i] + &(&d * coef[j]);
            st.q[j] = &st.q[j] - &(&d * coef[i]);
            must_reject(c, &st, &srs, p, verify::<Rec10>, "compensated selectors", &format!("{} {} {desc}", Q_NAMES[i], Q_NAMES[j]));
        }
    }
    // public inputs that agree at some possible challenge
    let (_, log) = logged(&h.cc, &srs, p);
    for e in &log {
        for (k, x) in draws::<Fr>(&e.output, 2).into_iter().enumerate() {
            let d = nonzero::<Fr>(&mut c.rng);
            let mut st = h.st.clone();
            st.q[5] = &st.q[5] + &Poly::from_coefficients_vec(vec![-x * d, d]);
            must_reject(c, &st, &srs, p, verify::<Rec10>, "compensated public inputs", &format!("draw {k} {desc}"));
        }
    }
    // public input against constant
    let mut st = h.st.clone();
    let d = nonzero::<Fr>(&mut c.rng);
    let one = Poly::from_coefficients_vec(vec![d]);
    st.q[5] = &st.q[5] + &one;
    st.q[4] = &st.q[4] - &one;
    must_reject(c, &st, &srs, p, verify::<Rec10>, "compensated public inputs", &format!("constants {desc}"));
    let Some((_, ch, _)) = learn(&h.st, &srs, h.strings.s, p) else {
        c.inconclusive("the challenges could not be located in the hash log");
        return;
    };
    // coset factors
    let f = |k: Fr, bar: Fr| bar + ch.beta * k * ch.zeta + ch.gamma;
    let k0 = h.st.k[0] + nonzero::<Fr>(&mut c.rng);
    let want = f(h.st.k[0], p.bar_b) * f(h.st.k[1], p.bar_c) / f(k0, p.bar_b);
    let k1 = (want - p.bar_c - ch.gamma) / (ch.beta * ch.zeta);
    let mut st = h.st.clone();
    st.k = [k0, k1];
    must_reject(c, &st, &srs, p, verify::<Rec10>, "compensated coset factors", &desc);
    // wiring against constants
    let s3 = (p.bar_a + ch.beta * p.bar_s_sigma_1 + ch.gamma)
        * (p.bar_b + ch.beta * p.bar_s_sigma_2 + ch.gamma)
        * ch.alpha
        * ch.beta
        * p.bar_z_w;
    let v4 = ch.v * ch.v * ch.v * ch.v;
    for (i, k) in [(2, -s3), (0, v4), (1, v4 * ch.v)] {
        let mut st = h.st.clone();
        let d = Poly::from_coefficients_vec(vec![nonzero::<Fr>(&mut c.rng), Fr::one()]);
        st.sigma[i] = &st.sigma[i] + &d;
        st.q[4] = &st.q[4] - &(&d * k);
        must_reject(c, &st, &srs, p, verify::<Rec10>, "compensated wiring", &format!("{i} {desc}"));
    }
}

// ---------------------------------------------------------------- C14

type Alter = Box<dyn Fn(&mut Statement, &mut Proof)>;

/// Message, the stage it belongs to, and its alteration. Stage k comes before the challenges of
/// stage k: 0 statement and wires (beta, gamma), 1 z (alpha), 2 t (zeta), 3 evaluations (v),
/// 4 openings (u).
fn messages(rng: &mut StdRng, st: &Statement, p: &Proof, known: &[Fr]) -> Vec<(String, usize, Alter)> {
    let mut r: Vec<(String, usize, Alter)> = vec![];
    let n = st.size;
    // two messages that enter as one weighted sum: the weights are small or known values
    let mut weights = (2..9u64).map(Fr::from).collect::<Vec<_>>();
    weights.extend(weights.clone().iter().map(|x| x.inverse().unwrap()));
    weights.extend(known.iter().filter(|x| !x.is_zero()).flat_map(|x| [*x, x.inverse().unwrap()]));
    weights.extend(weights.clone().iter().map(|x| -*x));
    for i in 0..6 {
        let row = rng.gen_range(0..n);
        let d = nonzero::<Fr>(rng);
        r.push((
            Q_NAMES[i].into(),
            0,
            Box::new(move |s, _| s.q[i] = &s.q[i] + &lagrange(n, row, d)),
        ));
        let other = (row + rng.gen_range(1..n)) % n;
        r.push((
            format!("rows of {}", Q_NAMES[i]),
            0,
            Box::new(move |s, _| {
                s.q[i] = &(&s.q[i] + &lagrange(n, row, d)) + &lagrange(n, other, -d)
            }),
        ));
        // every coefficient of the public inputs, one of the others
        let some = rng.gen_range(0..n);
        for k in (0..n).filter(|k| i == 5 || *k == some) {
            r.push((
                format!("coefficient of {}", Q_NAMES[i]),
                0,
                Box::new(move |s, _| s.q[i] = &s.q[i] + &monomial(k, d)),
            ));
        }
        for row in (0..n).filter(|_| i == 5) {
            r.push((
                format!("row of {}", Q_NAMES[i]),
                0,
                Box::new(move |s, _| s.q[i] = &s.q[i] + &lagrange(n, row, d)),
            ));
        }
    }
    for i in 0..3 {
        let row = rng.gen_range(0..n);
        r.push((
            format!("sigma {}", i + 1),
            0,
            Box::new(move |s, _| s.sigma[i] = &s.sigma[i] + &lagrange(n, row, Fr::one())),
        ));
        let k = rng.gen_range(0..n);
        r.push((
            format!("coefficient of sigma {}", i + 1),
            0,
            Box::new(move |s, _| s.sigma[i] = &s.sigma[i] + &monomial(k, Fr::one())),
        ));
    }
    for i in 0..2 {
        r.push((
            format!("k{}", i + 1),
            0,
            Box::new(move |s, _| s.k[i] += Fr::one()),
        ));
    }
    r.push(("size".into(), 0, Box::new(|s, _| s.size *= 2)));
    let stage = [0, 0, 0, 1, 2, 2, 2, 4, 4];
    for i in 0..9 {
        let by = nonzero::<Fr>(rng);
        let d = g1(by);
        r.push((
            POINTS[i].into(),
            stage[i],
            Box::new(move |_, p| *point(p, i) = shift_point(*point(p, i), by)),
        ));
        r.push((
            format!("sign of {}", POINTS[i]),
            stage[i],
            Box::new(move |_, p| *point(p, i) = -*point(p, i)),
        ));
        for j in 0..i {
            if stage[i] != stage[j] {
                continue;
            }
            let mut q = clone_proof(p);
            let (x, y) = (*point(&mut q, i), *point(&mut q, j));
            if x == y {
                continue;
            }
            r.push((
                format!("order of {} and {}", POINTS[i], POINTS[j]),
                stage[i],
                Box::new(move |_, p| {
                    let (x, y) = (*point(p, i), *point(p, j));
                    *point(p, i) = y;
                    *point(p, j) = x;
                }),
            ));
            for w in weights.choose_multiple(rng, 6).copied() {
                let dw = g1(by * w);
                r.push((
                    format!("weighted sum of {} and {}", POINTS[i], POINTS[j]),
                    stage[i],
                    Box::new(move |_, p| {
                        *point(p, i) = (*point(p, i) + dw).into_affine();
                        *point(p, j) = (*point(p, j) - d).into_affine();
                    }),
                ));
            }
            r.push((
                format!("difference of {} and {}", POINTS[i], POINTS[j]),
                stage[i],
                Box::new(move |_, p| {
                    *point(p, i) = (*point(p, i) + d).into_affine();
                    *point(p, j) = (*point(p, j) - d).into_affine();
                }),
            ));
        }
    }
    for i in 0..6 {
        let d = nonzero::<Fr>(rng);
        r.push((
            SCALARS[i].into(),
            3,
            Box::new(move |_, p| shift(scalar(p, i), d)),
        ));
        for j in 0..i {
            let mut q = clone_proof(p);
            let (x, y) = (*scalar(&mut q, i), *scalar(&mut q, j));
            if x == y {
                continue;
            }
            for w in weights.choose_multiple(rng, 12).copied() {
                r.push((
                    format!("weighted sum of {} and {}", SCALARS[i], SCALARS[j]),
                    3,
                    Box::new(move |_, p| {
                        *scalar(p, i) += d * w;
                        *scalar(p, j) -= d;
                    }),
                ));
            }
            r.push((
                format!("order of {} and {}", SCALARS[i], SCALARS[j]),
                3,
                Box::new(move |_, p| {
                    let (x, y) = (*scalar(p, i), *scalar(p, j));
                    *scalar(p, i) = y;
                    *scalar(p, j) = x;
                }),
            ));
        }
        let j = (i + 1) % 6;
        r.push((
            format!("difference of {} and {}", SCALARS[i], SCALARS[j]),
            3,
            Box::new(move |_, p| {
                *scalar(p, i) += d;
                *scalar(p, j) -= d;
            }),
        ));
    }
    r
}

/// Stage of each of alpha, beta, gamma, zeta, v, u
const STAGE_OF: [usize; 6] = [1, 0, 0, 2, 3, 4];

fn c14_dependencies(c: &mut Case) {
    let Some(h) = honest(c, 9) else { return };
    let srs = Srs::new_from_secret(h.strings.s, h.st.size + 1);
    let learned = learn(&h.st, &srs, h.strings.s, &h.proof);
    let (_, log0) = logged(&h.cc, &srs, &h.proof);
    // without the whole schedule, zeta and u can still be located
    let slots: [Option<Slot>; 6] = match &learned {
        Some((sch, _, _)) => sch.0.map(Some),
        None => {
            c.inconclusive("not all challenges could be located in the hash log");
            let mut r = [None; 6];
            for (digest, e) in log0.iter().enumerate() {
                for (draw, x) in draws::<Fr>(&e.output, DRAWS).into_iter().enumerate() {
                    let sl = Some(Slot { digest, draw, form: Form::Field });
                    if x == h.proof.u {
                        r[5] = sl;
                    }
                    if horner(&h.st.sigma[0].coeffs, x) == h.proof.bar_s_sigma_1
                        && horner(&h.st.sigma[1].coeffs, x) == h.proof.bar_s_sigma_2
                    {
                        r[3] = sl;
                    }
                }
            }
            r
        }
    };
    c.sample(|| format!("{} digests, challenges at {slots:?}", log0.len()));
    c.maximum("digests in a verification", log0.len() as u64);
    let mut known = vec![h.st.k[0], h.st.k[1], roots(h.st.size)[1 % h.st.size]];
    if let Some((_, ch, _)) = &learned {
        known.extend([ch.alpha, ch.beta, ch.gamma, ch.zeta, ch.zeta.pow([h.st.size as u64]), ch.v]);
    }
    let msgs = messages(&mut c.rng, &h.st, &h.proof, &known);
    for (name, stage, alter) in msgs {
        let mut st = h.st.clone();
        let mut p = clone_proof(&h.proof);
        alter(&mut st, &mut p);
        let cc = st.build();
        let (r, log) = logged(&cc, &srs, &p);
        if let Err(pa) = r {
            c.violation("verifier-panics", format!("{name}: {pa:?}"));
            continue;
        }
        for (k, slot) in slots.iter().enumerate() {
            if STAGE_OF[k] < stage {
                continue;
            }
            let Some(slot) = slot else { continue };
            let Some(e) = log.get(slot.digest) else {
                c.inconclusive("the hash log got shorter");
                continue;
            };
            c.eval((&name, k, h.m.describe()));
            c.distinct("message and challenge pairs", (&name, k));
            let same = e.output[..8] == log0[slot.digest].output[..8];
            c.check(!same, &format!("{}-ignores:{name}", CHALLENGES[k]), || {
                format!("digest {} draw {} of {}", slot.digest, slot.draw, h.m.describe())
            });
        }
    }
    // different challenges of one proof are different values
    if let Some((_, ch, _)) = &learned {
        c.eval(("different", h.m.describe()));
        let v = [ch.alpha, ch.beta, ch.gamma, ch.zeta, ch.v, ch.u];
        let set: HashSet<String> = v.iter().map(hex).collect();
        c.check(set.len() == 6, "equal-challenges", || {
            format!("{} {}", hexes(&v), h.m.describe())
        });
        // a challenge that can be guessed is as good as none
        for (x, name) in v.iter().zip(CHALLENGES) {
            let bits = x.into_bigint().num_bits().min((-*x).into_bigint().num_bits());
            c.check(bits > SMALL, &format!("small-challenge:{name}"), || {
                format!("{name} = {} {}", hex(x), h.m.describe())
            });
        }
    }
}

/// Fewer bits than these are not expected of a challenge from a space of 2^64.
const SMALL: u32 = 36;

fn c14_agreement(c: &mut Case) {
    let n = any_size(&mut c.rng, 8);
    let m = random_model(&mut c.rng, n);
    let st = strings(&mut c.rng, m.rows());
    let cc = m.compile();
    // prover and verifier hash the same things
    let (p, plog) = recorded(|| guard(|| generate_proof::<Rec10>(&cc, st.srs.clone())));
    let Ok(p) = p else {
        c.inconclusive("no honest proof to start from");
        return;
    };
    let (ok, vlog) = logged(&cc, &st.srs, &p);
    c.eval(m.describe());
    c.check(matches!(ok, Ok(true)), "honest-rejected", || m.describe());
    let stm = Statement::of(&cc);
    if let Some((sch, _, _)) = learn(&stm, &st.srs, st.s, &p) {
        let have: HashSet<&[u8]> = plog.iter().map(|e| &e.output[..8]).collect();
        for (k, s) in sch.0.iter().enumerate() {
            c.eval((k, m.describe()));
            c.check(
                have.contains(&vlog[s.digest].output[..8]),
                &format!("prover-never-drew:{}", CHALLENGES[k]),
                || m.describe(),
            );
        }
    }
    // repeated verification hashes the same
    let (_, again) = logged(&cc, &st.srs, &p);
    c.eval(("again", m.describe()));
    c.check(again == vlog, "verification-not-deterministic", || m.describe());
    for h in 0..5 {
        c.eval((h, "hash", m.describe()));
        prove_and_verify(c, &m, &st, h, "hash");
    }
}

/// The last challenge has to depend on at least eight bytes of the digest.
fn c14_entropy(c: &mut Case) {
    let m = random_model(&mut c.rng, 2);
    let st = strings(&mut c.rng, m.rows());
    let cc = m.compile();
    let mut used = vec![];
    for k in 0..32 {
        set_mask(k);
        let us: HashSet<String> = (0..4)
            .filter_map(|_| guard(|| generate_proof::<Mask10>(&cc, st.srs.clone())).ok())
            .map(|p| hex(&p.u))
            .collect();
        if us.len() > 1 {
            used.push(k);
        }
    }
    c.eval(m.describe());
    c.sample(|| format!("bytes of the digest behind u: {used:?}"));
    c.check(used.len() >= 8, "short-seed", || {
        format!("u depends on the bytes {used:?} of the digest only")
    });
}

// ---------------------------------------------------------------- C15

/// The unblinded permutation polynomial
fn accumulator(m: &Statement, ch: &Chal) -> Poly {
    let rs = roots(m.size);
    let f: Vec<Vec<Fr>> = m.f.iter().map(|p| values(p, &rs)).collect();
    let s: Vec<Vec<Fr>> = m.sigma.iter().map(|p| values(p, &rs)).collect();
    let k = [Fr::one(), m.k[0], m.k[1]];
    let mut acc = vec![Fr::one()];
    for i in 0..m.size - 1 {
        let mut x = acc[i];
        for j in 0..3 {
            x *= f[j][i] + ch.beta * k[j] * rs[i] + ch.gamma;
            x /= f[j][i] + ch.beta * s[j][i] + ch.gamma;
        }
        acc.push(x);
    }
    ark_poly::Evaluations::from_vec_and_domain(acc, m.domain()).interpolate()
}

/// The seed of a generator two neighbouring draws of which are the blinders of a wire: small
/// seeds, repeated bytes, the time.
fn predictable(zeta: Fr, at_z: Fr) -> Option<String> {
    type Draws = (String, [Fr; 10]);
    static TABLE: OnceLock<Vec<Draws>> = OnceLock::new();
    fn draws(mut rng: StdRng) -> [Fr; 10] {
        std::array::from_fn(|_| Fr::rand(&mut rng))
    }
    let hit = |d: &[Fr; 10]| {
        d.windows(2)
            .any(|p| p[0] * zeta + p[1] == at_z || p[1] * zeta + p[0] == at_z)
    };
    let table = TABLE.get_or_init(|| {
        let mut t: Vec<Draws> = (0..1u64 << 16)
            .map(|k| (k.to_string(), draws(StdRng::seed_from_u64(k))))
            .collect();
        t.extend((0..=255u8).map(|k| (format!("32 bytes {k}"), draws(StdRng::from_seed([k; 32])))));
        t
    });
    if let Some((seed, _)) = table.iter().find(|(_, d)| hit(d)) {
        return Some(seed.clone());
    }
    let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).ok()?;
    let (secs, millis) = (now.as_secs(), now.as_millis() as u64);
    (secs - 100..=secs)
        .chain(millis - 5000..=millis)
        .find(|k| hit(&draws(StdRng::seed_from_u64(*k))))
        .map(|k| format!("{k}, the time"))
}

fn c15_masks(c: &mut Case) {
    let Some(h) = honest_some(c, 9) else { return };
    let (st, p, s) = (&h.st, &h.proof, h.strings.s);
    let scheme = h.strings.scheme();
    let desc = h.m.describe();
    c.sample(|| desc.clone());
    let mut pts = clone_proof(p);
    // the unblinded commitments
    for i in 0..3 {
        c.eval(("commitment", i, &desc));
        c.check(
            *point(&mut pts, i) != scheme.commit(&st.f[i]).0,
            &format!("unblinded:{}", POINTS[i]),
            || desc.clone(),
        );
    }
    let Some((_, ch, _)) = learn(st, &h.strings.srs, s, p) else {
        c.inconclusive("the challenges could not be located in the hash log");
        return;
    };
    let acc = accumulator(st, &ch);
    let w = roots(st.size)[1];
    let zh = |x: Fr| x.pow([st.size as u64]) - Fr::one();
    c.eval(("z", &desc));
    c.check(p.z_commit.0 != scheme.commit(&acc).0, "unblinded:z", || desc.clone());
    // masks: the known part is taken away, the rest divided by the vanishing polynomial
    let hs = zh(s).inverse().unwrap();
    let hz = zh(ch.zeta).inverse().unwrap();
    // b1, b2, .., b6 times the generator
    let mut blinders: Vec<(String, G1Affine)> = vec![];
    for i in 0..3 {
        let f = &st.f[i];
        let at_s = (point(&mut pts, i).into_group() - g1_proj(horner(&f.coeffs, s))) * hs;
        let at_z = (*scalar(&mut pts, i) - horner(&f.coeffs, ch.zeta)) * hz;
        c.eval(("evaluation", i, &desc));
        c.check(!at_z.is_zero(), &format!("unblinded:{}", SCALARS[i]), || desc.clone());
        // mask = hi X + lo
        let hi = (at_s - g1_proj(at_z)) * (s - ch.zeta).inverse().unwrap();
        let lo = g1_proj(at_z) - hi * ch.zeta;
        blinders.push((format!("{} high", POINTS[i]), hi.into_affine()));
        blinders.push((format!("{} low", POINTS[i]), lo.into_affine()));
    }
    // none of them can be searched for
    for i in 0..3 {
        let at_z = (*scalar(&mut pts, i) - horner(&st.f[i].coeffs, ch.zeta)) * hz;
        c.eval(("predictable", i, &desc));
        if let Some(seed) = predictable(ch.zeta, at_z) {
            c.violation("predictable-blinders", format!("{}: seed {seed}, {desc}", POINTS[i]));
        }
        c.eval(("small", i, &desc));
        if let Some(found) = small_combination(&[ch.zeta, Fr::one()], at_z, 108) {
            c.violation("small-blinders", format!("{}: {found:?} {desc}", POINTS[i]));
        }
    }
    let bits = if c.thorough() { 36 } else { 32 };
    for (name, b) in &blinders {
        c.eval(("logarithm", name, &desc));
        if let Some(found) = small_logarithm(*b, bits) {
            c.violation("small-blinder", format!("{name}: {found} {desc}"));
        }
    }
    // nor follows from one or two others
    let of: HashMap<G1Affine, usize> = blinders.iter().enumerate().map(|(i, b)| (b.1, i)).collect();
    let b: Vec<G1Projective> = blinders.iter().map(|b| b.1.into_group()).collect();
    let mut sums: Vec<(String, G1Projective, [usize; 2])> = vec![];
    for i in 0..b.len() {
        for k in 2..16u64 {
            sums.push((format!("{k} times"), b[i] * Fr::from(k), [i, i]));
            let step = g1_proj(Fr::from(k - 1));
            sums.push((format!("plus {}", k - 1), b[i] + step, [i, i]));
            sums.push((format!("minus {}", k - 1), b[i] - step, [i, i]));
        }
        for j in 0..i {
            sums.push(("sum".into(), b[i] + b[j], [i, j]));
            sums.push(("difference".into(), b[i] - b[j], [i, j]));
        }
        for (name, y) in [("beta", ch.beta), ("gamma", ch.gamma), ("alpha", ch.alpha), ("zeta", ch.zeta)] {
            sums.push((name.into(), b[i] * y, [i, i]));
        }
    }
    let points: Vec<G1Projective> = sums.iter().map(|x| x.1).collect();
    for (x, (name, _, from)) in G1Projective::normalize_batch(&points).into_iter().zip(&sums) {
        for y in [x, -x] {
            if let Some(k) = of.get(&y).filter(|k| !from.contains(k)) {
                let n: Vec<&str> = from.iter().map(|i| blinders[*i].0.as_str()).collect();
                c.violation("related-blinders", format!("{} is the {name} of {n:?}, {desc}", blinders[*k].0));
            }
        }
    }
    c.eval(("relations", &desc));
    // nor was used in another proof of this run
    static USED: Mutex<Option<HashMap<G1Affine, String>>> = Mutex::new(None);
    {
        let mut used = USED.lock().unwrap();
        let used = used.get_or_insert_with(HashMap::new);
        let found: Vec<String> = blinders
            .iter()
            .flat_map(|(n, b)| [used.get(b), used.get(&-*b)].map(|f| f.map(|f| format!("{n}: {f}"))))
            .flatten()
            .collect();
        for (n, b) in &blinders {
            used.insert(*b, format!("{n} of {desc}"));
        }
        c.eval(("used before", &desc));
        c.check(found.is_empty(), "reused-blinder-across-proofs", || format!("{found:?}, {desc}"));
    }
    for i in 0..blinders.len() {
        c.eval(("blinder", i, &desc));
        c.check(!blinders[i].1.is_zero(), "zero-blinder", || {
            format!("{} {desc}", blinders[i].0)
        });
        for j in 0..i {
            c.check(
                blinders[i].1 != blinders[j].1 && blinders[i].1 != -blinders[j].1,
                "reused-blinder",
                || format!("{} {} {desc}", blinders[i].0, blinders[j].0),
            );
        }
    }
    // three blinders of z, two equations: no two of them are zero or known
    let x = ch.zeta * w;
    let m_s = (p.z_commit.0.into_group() - g1_proj(horner(&acc.coeffs, s))) * hs;
    let m_x = (p.bar_z_w - horner(&acc.coeffs, x)) * zh(x).inverse().unwrap();
    c.eval(("evaluation of z", &desc));
    c.check(!m_x.is_zero(), "unblinded:bar_zw", || desc.clone());
    let mut known: Vec<G1Projective> = vec![G1Projective::zero()];
    known.extend(blinders.iter().map(|b| b.1.into_group()));
    known.extend([Fr::one(), ch.beta, ch.gamma].map(g1_proj));
    let powers = |y: Fr| [Fr::one(), y, y * y];
    let (ps, px) = (powers(s), powers(x));
    let scaled: Vec<[[G1Projective; 3]; 2]> = known
        .iter()
        .map(|k| [ps.map(|e| *k * e), px.map(|e| *k * e)])
        .collect();
    for (i, j, k) in [(0, 1, 2), (0, 2, 1), (1, 2, 0)] {
        for a in 0..known.len() {
            for b in 0..known.len() {
                let rest_s = m_s - scaled[a][0][i] - scaled[b][0][j];
                let rest_x = g1_proj(m_x) - scaled[a][1][i] - scaled[b][1][j];
                // rest_s = e s^k, rest_x = e x^k
                if rest_s * px[k] == rest_x * ps[k] {
                    c.violation(
                        "z-blinders",
                        format!("blinders {i} and {j} of z are {a} and {b} of the known ones, {desc}"),
                    );
                }
            }
        }
    }
    c.eval(("z blinders", &desc));
    if let Some(found) = small_combination(&[x * x, x, Fr::one()], m_x, 72) {
        c.violation("small-z-blinders", format!("{found:?} {desc}"));
    }
    // A commitment to a polynomial with more coefficients than the string has points is
    // refused. A string with one point less than the blinded z has coefficients tells whether
    // its third blinder is there.
    let short = Srs::new_from_secret(s, st.size - 1);
    c.eval(("z degree", &desc));
    if let Ok(q) = guard(|| generate_proof::<Rec10>(&h.cc, short.clone())) {
        if let Ok(true) = guard(|| verify::<Rec10>(&h.cc, short.clone(), q).is_ok()) {
            c.violation("z-degree", format!("z has less than three blinders, {desc}"));
        }
    }
    // none of the masks is an unblinded opening
    c.count_n("recovered blinders", blinders.len() as u64);
}

fn parts(p: &Proof) -> Vec<(&'static str, String)> {
    let mut p = clone_proof(p);
    let mut r = vec![];
    for i in 0..9 {
        let x = *point(&mut p, i);
        r.push((POINTS[i], format!("{x}")));
    }
    for i in 0..6 {
        let x = *scalar(&mut p, i);
        r.push((SCALARS[i], hex(&x)));
    }
    r.push(("u", hex(&p.u)));
    r
}

fn distinct_proofs(c: &mut Case, proofs: &[Proof], key: &str, desc: &str) {
    let mut seen: HashSet<(&str, String)> = HashSet::new();
    for p in proofs {
        for (name, v) in parts(p) {
            c.eval((key, name, &v));
            if !seen.insert((name, v.clone())) {
                c.violation(&format!("{key}:{name}"), format!("{v} twice, {desc}"));
            }
        }
    }
    c.count_n("compared proofs", proofs.len() as u64);
}

fn c15_searches(c: &mut Case) {
    c.eval("searches");
    if let Err(e) = crate::small::self_test() {
        c.inconclusive(format!("the searches for small blinders do not work: {e}"));
    }
}

fn c15_fresh(c: &mut Case) {
    let n = c.rng.gen_range(1..3);
    let m = random_model(&mut c.rng, n);
    let st = strings(&mut c.rng, m.rows());
    let cc = m.compile();
    let times = if c.thorough() { 600 } else { 150 };
    let proofs: Vec<Proof> = (0..times)
        .filter_map(|_| guard(|| generate_proof::<Sha256>(&cc, st.srs.clone())).ok())
        .collect();
    if proofs.len() < times {
        c.inconclusive("no honest proof to compare");
    }
    distinct_proofs(c, &proofs, "repeated", &m.describe());
}

/// `zkmon fresh plonk SEED`
pub fn fresh_proofs(seed: u64) -> Vec<String> {
    let mut rng = <StdRng as rand::SeedableRng>::seed_from_u64(seed);
    let n = any_size(&mut rng, 4);
    let m = random_model(&mut rng, n);
    let st = strings(&mut rng, m.rows());
    let cc = m.compile();
    (0..3)
        .filter_map(|_| guard(|| generate_proof::<Sha256>(&cc, st.srs.clone())).ok())
        .flat_map(|p| parts(&p).into_iter().map(|(name, v)| format!("{name} {v}")).collect::<Vec<_>>())
        .collect()
}

/// Several processes that start at the same time prove the same statement
fn c15_processes(c: &mut Case) {
    let seed = c.rng.gen();
    let all = match crate::core::fresh_processes("plonk", seed, 4) {
        Some(all) if all.iter().all(|l| !l.is_empty()) => all,
        _ => return c.inconclusive("no proofs from another process"),
    };
    let mut seen = HashSet::new();
    for l in all.into_iter().flatten() {
        c.eval(&l);
        c.count("values of several processes");
        let name = l.split(' ').next().unwrap_or_default().to_string();
        if !seen.insert(l.clone()) {
            c.violation(&format!("repeated-across-processes:{name}"), format!("{l} twice, seed {seed}"));
        }
    }
}

fn c15_concurrent(c: &mut Case) {
    let n = any_size(&mut c.rng, 4);
    let m = random_model(&mut c.rng, n);
    let st = strings(&mut c.rng, m.rows());
    let cc = m.compile();
    let barrier = std::sync::Barrier::new(16);
    let proofs: Vec<Proof> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..16)
            .map(|_| {
                s.spawn(|| {
                    barrier.wait();
                    (0..12)
                        .filter_map(|_| guard(|| generate_proof::<Sha256>(&cc, st.srs.clone())).ok())
                        .collect::<Vec<_>>()
                })
            })
            .collect();
        hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
    });
    distinct_proofs(c, &proofs, "repeated-across-threads", &m.describe());
}

// ---------------------------------------------------------------- C16

fn expected_position(rs: &[Fr], k: &[Fr; 2], pos: (usize, usize)) -> Fr {
    rs[pos.1] * [Fr::one(), k[0], k[1]][pos.0]
}

/// `rows` are the gates in order, `None` for a dummy gate.
fn check_compiled(c: &mut Case, st: &Statement, rows: &[Option<MGate>], wires: bool, key: &str, desc: &str) {
    let n = rows.len().next_power_of_two().max(2);
    c.eval((key, desc));
    if !c.check(st.size == n, &format!("{key}-size"), || {
        format!("{} instead of {n}: {desc}", st.size)
    }) {
        return;
    }
    let rs = roots(n);
    for (i, q) in st.q.iter().enumerate() {
        c.check(q.coeffs.len() <= n, &format!("{key}-degree:{}", Q_NAMES[i]), || desc.into());
        for (row, got) in values(q, &rs).into_iter().enumerate() {
            let want = rows
                .get(row)
                .and_then(|g| g.as_ref())
                .map(|g| g.selectors()[i])
                .unwrap_or(Fr::zero());
            c.check(got == want, &format!("{key}-selector:{}", Q_NAMES[i]), || {
                format!("row {row}: {} instead of {}, {desc}", hex(&got), hex(&want))
            });
        }
    }
    if wires {
        for (i, f) in st.f.iter().enumerate() {
            c.check(f.coeffs.len() <= n, &format!("{key}-degree:wire"), || desc.into());
            for (row, got) in values(f, &rs).into_iter().enumerate() {
                let Some(Some(g)) = rows.get(row) else { continue };
                c.check(got == g.v[i], &format!("{key}-wire:{}", POINTS[i]), || {
                    format!("row {row}: {} {desc}", hex(&got))
                });
            }
        }
    }
    // distinct cosets
    let h: HashSet<String> = rs.iter().map(hex).collect();
    let [k1, k2] = st.k;
    for (name, x) in [("k1", k1), ("k2", k2)] {
        c.check(!x.is_zero() && !h.contains(&hex(&x)), &format!("{key}-coset:{name}"), || desc.into());
    }
    if !k2.is_zero() {
        c.check(!h.contains(&hex(&(k1 / k2))), &format!("{key}-coset:same"), || desc.into());
    }
    for (i, sg) in st.sigma.iter().enumerate() {
        c.check(sg.coeffs.len() <= n, &format!("{key}-degree:sigma"), || desc.into());
        for (row, got) in values(sg, &rs).into_iter().enumerate() {
            let pos = rows
                .get(row)
                .and_then(|g| g.as_ref())
                .map(|g| g.pos[i])
                .unwrap_or((i, row));
            let want = expected_position(&rs, &st.k, pos);
            c.check(got == want, &format!("{key}-position:{}", POINTS[i]), || {
                format!("row {row} should lead to {pos:?}, {desc}")
            });
        }
    }
}

fn check_both(c: &mut Case, m: &Model) {
    let desc = m.describe();
    let rows: Vec<Option<MGate>> = m.gates.iter().cloned().map(Some).collect();
    match guard(|| m.compile()) {
        Ok(cc) => check_compiled(c, &Statement::of(&cc), &rows, true, "circuit", &desc),
        Err(p) => c.violation("circuit-refused", format!("{p:?} {desc}")),
    }
    match guard(|| m.cpi().compile()) {
        Ok(Ok((g, p, n))) => {
            check_compiled(c, &Statement::of_parts(&g, &p, n), &rows, false, "preprocessed", &desc)
        }
        r => c.violation("preprocessed-refused", format!("{r:?} {desc}")),
    }
    // and the two agree
    if let (Ok(a), Ok(Ok((g, p, n)))) = (guard(|| m.compile()), guard(|| m.cpi().compile())) {
        let (a, b) = (Statement::of(&a), Statement::of_parts(&g, &p, n));
        c.check(
            a.q == b.q && a.sigma == b.sigma && a.k == b.k && a.size == b.size,
            "variants-differ",
            || desc.clone(),
        );
    }
}

fn any_model(rng: &mut StdRng, max: usize) -> Model {
    let n = any_size(rng, max);
    let mut m = random_model(rng, n);
    match rng.gen_range(0..3) {
        0 => {
            // any values, not satisfied
            for g in &mut m.gates {
                g.v = [any_fr(rng), any_fr(rng), any_fr(rng)];
                g.pi = any_fr(rng);
            }
        }
        1 => {
            // any positions, not a permutation
            for g in &mut m.gates {
                for p in &mut g.pos {
                    *p = (rng.gen_range(0..3), rng.gen_range(0..n));
                }
            }
        }
        _ => {}
    }
    m
}

fn c16_random(c: &mut Case) {
    let max = if c.thorough() { 40 } else { 20 };
    let m = any_model(&mut c.rng, max);
    c.sample(|| m.describe());
    c.maximum("gates", m.gates.len() as u64);
    c.distinct("circuit shapes", m.shape());
    check_both(c, &m);
}

fn c16_large(c: &mut Case) {
    let n = *[60, 100, 240, 500, 1000].choose(&mut c.rng).unwrap();
    let n = c.rng.gen_range(n..n + 30);
    let m = random_model(&mut c.rng, n);
    c.maximum("gates", n as u64);
    check_both(c, &m);
}

fn c16_dummies(c: &mut Case) {
    // dummy gates in between
    let m = any_model(&mut c.rng, 12);
    let mut rows: Vec<Option<MGate>> = vec![];
    for g in &m.gates {
        while c.rng.gen_bool(0.3) {
            rows.push(None);
        }
        rows.push(Some(g.clone()));
    }
    while c.rng.gen_bool(0.3) {
        rows.push(None);
    }
    // positions anywhere
    let n = rows.len();
    for g in rows.iter_mut().flatten() {
        for p in g.pos.iter_mut() {
            *p = (c.rng.gen_range(0..3), c.rng.gen_range(0..n));
        }
    }
    let desc = format!("{rows:?}");
    let r = guard(|| {
        let mut x = CPICircuit::default();
        for g in &rows {
            x = match g {
                None => {
                    x.add_dummy_gate();
                    x
                }
                Some(g) => match g.kind {
                    Kind::Add => x.add_addition_gate(g.pos[0], g.pos[1], g.pos[2], g.pi),
                    Kind::Mul => x.add_multiplication_gate(g.pos[0], g.pos[1], g.pos[2], g.pi),
                    Kind::Const => {
                        x.add_constant_gate(g.pos[0], g.pos[1], g.pos[2], g.v[0], g.pi)
                    }
                },
            };
        }
        let len = x.get_gates().len();
        (len, x.compile())
    });
    match r {
        Ok((len, Ok((g, p, size)))) => {
            c.check(len == n, "gate-count", || desc.clone());
            check_compiled(c, &Statement::of_parts(&g, &p, size), &rows, false, "dummies", &desc)
        }
        r => c.violation("dummies-refused", format!("{r:?} {desc}")),
    }
}
