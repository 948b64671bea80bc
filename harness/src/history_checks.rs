//! C29: the result of an operation does not depend on what else runs, or ran before.
use std::collections::HashMap;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Barrier, Mutex, OnceLock};
use std::time::{Duration, Instant};

use ark_bls12_381::Fr;
use ark_ff::{PrimeField, UniformRand};
use ark_poly::univariate::DensePolynomial;
use ark_poly::DenseUVPolynomial;
use kzg::scheme::KzgScheme;
use kzg::srs::Srs;
use nova::nifs::NIFS;
use nova::transcript::Transcript;
use plonk::common_preprocessed_input::cpi_parser::CPIGenerator;
use plonk::parser::Parser;
use plonk::prover::generate_proof;
use plonk::verifier::verify;
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::{Rng, SeedableRng};
use sha2::Sha256;

use crate::common::*;
use crate::core::*;
use crate::fri_checks::{self as fc, BabyBear};
use crate::nova_checks as nc;
use crate::nova_model::*;
use crate::parser_checks as rc;
use crate::plonk_model::{random_model, Statement};

pub static PROPERTIES: &[Property] = &[Property {
    id: "C29",
    rule: "An operation is one of 20 kinds (commitments, openings, batches, FRI over three fields, hostile verdicts, compiling, proving and verifying circuits, texts and preprocessing, folding, satisfaction, incremental chains, transcripts, refused and panicking calls) with a shape and values drawn from few, so that different operations agree in everything but their values. Reference: its result in a fresh process that runs nothing else. Compared with it: results in random histories with repetitions, on threads released together, and on shared objects. A build under ThreadSanitizer runs the same operations on several threads and must report no data race.",
    assumptions: &[
        "interleavings are those the scheduler and injected delays produced",
        "ThreadSanitizer sees the races of the executions it watches",
    ],
    groups: &[
        Group { name: "histories", quick: 64, run: c29_histories },
        Group { name: "concurrent", quick: 24, run: c29_concurrent },
        Group { name: "shared", quick: 24, run: c29_shared },
        Group { name: "objects", quick: 40, run: c29_objects },
        Group { name: "races", quick: 2, run: c29_races },
    ],
}];

// ---------------------------------------------------------------- operations

pub const KINDS: &[(&str, fn(u64, u64) -> String)] = &[
    ("kzg-commit", op_commit),
    ("kzg-open", op_open),
    ("kzg-verify", op_kzg_verify),
    ("kzg-batch", op_batch),
    ("fri-goldilocks", op_fri::<fri::fields::goldilocks::Fq>),
    ("fri-babybear", op_fri::<BabyBear>),
    ("fri-bls", op_fri::<Fr>),
    ("fri-hostile", op_fri_hostile),
    ("fri-transcript", op_fri_transcript),
    ("circuit-compile", op_compile),
    ("circuit-prove", op_prove),
    ("circuit-cross", op_cross),
    ("text-compile", op_text),
    ("text-preprocess", op_preprocess),
    ("text-refused", op_refused),
    ("fold", op_fold),
    ("satisfied", op_satisfied),
    ("chain", op_chain),
    ("nova-transcript", op_nova_transcript),
    ("panics", op_panics),
];

fn shape_rng(kind: &str, shape: u64) -> StdRng {
    StdRng::seed_from_u64(fnv(("shape", kind, shape)))
}

fn value_rng(kind: &str, shape: u64, value: u64) -> StdRng {
    StdRng::seed_from_u64(fnv(("value", kind, shape, value)))
}

/// The result of an operation as text
pub fn result(kind: usize, shape: u64, value: u64) -> String {
    match guard(|| KINDS[kind].1(shape, value)) {
        Ok(s) => s,
        Err(p) if p.is_instrumentation() => format!("fault: {}", p.msg),
        Err(_) => "panic".into(),
    }
}

fn rand_poly(r: &mut StdRng, n: usize) -> Poly {
    Poly::from_coefficients_vec((0..n).map(|_| any_fr(r)).collect())
}

fn kzg_parts(kind: &str, shape: u64, value: u64) -> (KzgScheme, Poly, Fr, StdRng) {
    let n = shape_rng("kzg", shape).gen_range(1..9);
    let mut r = value_rng(kind, shape, value);
    let p = rand_poly(&mut r, n);
    let scheme = KzgScheme::new(Srs::new_from_secret(rand_fr(&mut r), n));
    let z = any_fr(&mut r);
    (scheme, p, z, r)
}

fn op_commit(shape: u64, value: u64) -> String {
    let (k, p, z, _) = kzg_parts("kzg", shape, value);
    format!("{:?} {:?} {:?}", k.commit(&p).0, k.commit_vector(&p.coeffs).0, k.commit_para(z).0)
}

fn op_open(shape: u64, value: u64) -> String {
    let (k, p, z, _) = kzg_parts("kzg", shape, value);
    let (a, b) = (k.open(&p, z), k.open_vector(&p.coeffs, z));
    format!("{:?} {} {:?} {}", a.0, hex(&a.1), b.0, hex(&b.1))
}

fn op_kzg_verify(shape: u64, value: u64) -> String {
    let (k, p, z, mut r) = kzg_parts("kzg", shape, value);
    let (cm, mut op) = (k.commit(&p), k.open(&p, z));
    let good = k.verify(&cm, &op, z);
    op.1 += nonzero::<Fr>(&mut r);
    format!("{good} {}", k.verify(&cm, &op, z))
}

fn op_batch(shape: u64, value: u64) -> String {
    let (k, p, z, mut r) = kzg_parts("kzg", shape, value);
    let q = rand_poly(&mut r, 2);
    let y = any_fr(&mut r);
    let (cms, zs) = ([k.commit(&p), k.commit(&q)], [z, y]);
    let mut ops = [k.open(&p, z), k.open(&q, y)];
    let good = k.batch_verify(&cms, &zs, &ops, &mut r);
    ops[1].1 += nonzero::<Fr>(&mut r);
    format!("{good} {}", k.batch_verify(&cms, &zs, &ops, &mut r))
}

fn fri_input<F: PrimeField>(shape: u64, value: u64) -> (DensePolynomial<F>, usize, usize, StdRng) {
    let mut s = shape_rng("fri", shape);
    let (n, blowup, queries) = (s.gen_range(1..20), s.gen_range(1..4), s.gen_range(1..5));
    let mut r = value_rng("fri", shape, value);
    (DensePolynomial::from_coefficients_vec((0..n).map(|_| F::rand(&mut r)).collect()), blowup, queries, r)
}

fn op_fri<F: PrimeField>(shape: u64, value: u64) -> String {
    let (p, b, q, _) = fri_input::<F>(shape, value);
    let proof = fri::prover::generate_proof::<sha2_11::Sha256, F>(p, b, q);
    let text = fc::show(&proof);
    format!("{:016x} {} {:?}", fnv(&text), text.chars().take(60).collect::<String>(), fri::verifier::verify::<sha2_11::Sha256, F>(proof).is_ok())
}

fn op_fri_hostile(shape: u64, value: u64) -> String {
    type F = fri::fields::goldilocks::Fq;
    let (p, b, q, mut r) = fri_input::<F>(shape, value);
    let mut proof = fri::prover::generate_proof::<sha2_11::Sha256, F>(p, b, q);
    match r.gen_range(0..4) {
        0 => proof.const_val += F::from(1u64),
        1 => proof.decommitment_list[0].evaluations[0] += F::from(1u64),
        2 => proof.domain_size *= 2,
        _ => proof.coset += F::from(1u64),
    }
    format!("{}", fri::verifier::verify::<sha2_11::Sha256, F>(proof).is_ok())
}

fn op_fri_transcript(shape: u64, value: u64) -> String {
    type F = fri::fields::goldilocks::Fq;
    let n = shape_rng("transcript", shape).gen_range(1..5);
    let mut r = value_rng("transcript", shape, value);
    let mut t = fri::fiat_shamir::transcript::Transcript::<sha2_11::Sha256, F>::new(F::rand(&mut r));
    let mut out = String::new();
    for _ in 0..n {
        t.digest(any_field(&mut r));
        match r.gen_range(0..3) {
            0 => out += &hex(&t.generate_a_challenge()),
            1 => out += &hexes(&t.generate_challenges(3)),
            _ => out += &format!("{:?}", t.generate_challenge_list_usize(3)),
        }
    }
    out
}

fn statement(st: &Statement) -> String {
    let polys: Vec<String> = st.f.iter().chain(&st.q).chain(&st.sigma).map(|p| hexes(&p.coeffs)).collect();
    format!("{:016x} size {} k {} first {}", fnv(&polys), st.size, hexes(&st.k), polys[0].chars().take(40).collect::<String>())
}

fn circuit(shape: u64, value: u64) -> (crate::plonk_model::Model, StdRng) {
    let n = shape_rng("circuit", shape).gen_range(1..8);
    let mut r = value_rng("circuit", shape, value);
    (random_model(&mut r, n), r)
}

fn op_compile(shape: u64, value: u64) -> String {
    let (m, _) = circuit(shape, value);
    statement(&Statement::of(&m.compile()))
}

fn op_prove(shape: u64, value: u64) -> String {
    let (m, mut r) = circuit(shape, value);
    let cc = m.compile();
    let srs = Srs::new_from_secret(rand_fr(&mut r), cc.size);
    let mut p = generate_proof::<Sha256>(&cc, srs.clone());
    p.bar_b += Fr::from(1u64);
    let bad = verify::<Sha256>(&cc, srs.clone(), p).is_ok();
    let p = generate_proof::<Sha256>(&cc, srs.clone());
    format!("{} {bad}", verify::<Sha256>(&cc, srs, p).is_ok())
}

/// A proof for another circuit of the same shape
fn op_cross(shape: u64, value: u64) -> String {
    let (m, mut r) = circuit(shape, value);
    let (o, _) = circuit(shape, value + 1000);
    let (a, b) = (m.compile(), o.compile());
    let srs = Srs::new_from_secret(rand_fr(&mut r), a.size.max(b.size));
    let p = generate_proof::<Sha256>(&a, srs.clone());
    format!("{}", verify::<Sha256>(&b, srs, p).is_ok())
}

fn text_parts(shape: u64, value: u64) -> (String, rc::Values) {
    let mut s = shape_rng("text", shape);
    let e = rc::random_equation(&mut s, 3, 2);
    let text = e.text(&mut s);
    let mut r = value_rng("text", shape, value);
    let v = rc::random_values(&mut r, &e);
    (text, v)
}

fn parser(v: &rc::Values) -> Parser {
    let mut p = Parser::default();
    for (x, y) in v {
        p.add_witness(x, *y);
    }
    p
}

fn op_text(shape: u64, value: u64) -> String {
    let (text, v) = text_parts(shape, value);
    statement(&Statement::of(&parser(&v).parse(&text).compile().expect("compiles")))
}

fn op_preprocess(shape: u64, value: u64) -> String {
    let (text, _) = text_parts(shape, 0);
    let mut r = value_rng("preprocess", shape, value);
    let srs = Srs::new_from_secret(rand_fr(&mut r), 64);
    show_cpi(CPIGenerator::default().compute_common_preprocessed_input(&text, KzgScheme::new(srs)))
}

fn show_cpi(r: Result<plonk::common_preprocessed_input::cpi_parser::CommonPreprocessedInput, String>) -> String {
    match r {
        Ok(i) => {
            let points = [
                &i.com_q_lx, &i.com_q_rx, &i.com_q_mx, &i.com_q_ox, &i.com_q_cx, &i.com_s_sigma_1, &i.com_s_sigma_2, &i.com_s_sigma_3,
            ];
            let t: Vec<String> = points.iter().map(|p| format!("{:?}", p.0)).collect();
            format!("{} {} {} {} {:016x}", i.n, hex(&i.k1), hex(&i.k2), hexes(&i.pi_x.coeffs), fnv(&t))
        }
        Err(e) => format!("refused: {e}"),
    }
}

fn op_refused(shape: u64, value: u64) -> String {
    let (text, v) = text_parts(shape, value);
    let bad = ["", "=", "++", "()", "^", "* =", "^x", "^-1", "x ="][(value % 9) as usize];
    let p = parser(&v);
    let a = guard(|| p.parse(&format!("{text}{bad}=")).compile().is_ok()).unwrap_or(false);
    let b = guard(|| Parser::default().parse(&text).compile().is_ok()).unwrap_or(false);
    format!("{a} {b}")
}

fn pairs(shape: u64, value: u64) -> (Structure, Known, Pair, Pair, StdRng) {
    let mut s = shape_rng("fold", shape);
    let io = s.gen_range(1..4);
    let st = Structure::random(&mut s, 5, io, false);
    let mut r = value_rng("fold", shape, value);
    let k = Known::new(&mut r, st.size() + 1);
    let a = any_pair(&mut r, &st, &k);
    let b = any_pair(&mut r, &st, &k);
    (st, k, a, b, r)
}

fn op_fold(shape: u64, value: u64) -> String {
    let (st, k, a, b, _) = pairs(shape, value);
    fold_text(&st, &k, &a, &b)
}

fn fold_text(st: &Structure, k: &Known, a: &Pair, b: &Pair) -> String {
    let mut t = Transcript::<Sha256>::default();
    let (w, u, com_t, r) = NIFS::<Sha256>::prover(&st.r1cs, &a.w, &b.w, &a.u, &b.u, &k.scheme, &mut t);
    let proof = NIFS::<Sha256>::prove(r, &w, &u, &k.scheme, &mut t);
    let v = NIFS::<Sha256>::verify(&proof, &a.u, &b.u, &u, &com_t, &k.scheme, &mut Transcript::default()).is_ok();
    let f = NIFS::<Sha256>::verifier(proof.r, &a.u, &b.u, &com_t);
    format!("{} {} {} {} {} {v} {}", hex(&r), show_instance(&u), hexes(&w.w), hexes(&w.e), hex(&proof.opening_point), same_instance(&f, &u))
}

fn op_satisfied(shape: u64, value: u64) -> String {
    let (st, k, a, mut b, mut r) = pairs(shape, value);
    let s = |p: &Pair| nova::r1cs::is_r1cs_satisfied(&st.r1cs, &p.u, &p.w, &k.scheme).is_ok();
    let x = (s(&a), s(&b));
    let i = r.gen_range(0..b.w.w.len());
    b.w.w[i] += nonzero::<Fr>(&mut r);
    b.u.com_w = k.commit(&b.w.w);
    format!("{x:?} {}", s(&b))
}

fn op_chain(shape: u64, value: u64) -> String {
    let mut c = Case::new("C29", "chain", shape % 2, fnv(("chain", shape, value)), Tier::Quick);
    let steps = 1 + (shape % 3) as usize;
    match nc::chain::<Sha256>(&mut c, steps, "sha256") {
        Some((ch, _)) if c.out.violations.is_empty() => {
            let aug = &ch.ivc.augmented_circuit;
            format!("{} {} {:?} {}", hex(&aug.i), hexes(&ch.z), aug.h_i.as_ref().map(hex), show_instance(&ch.running.u))
        }
        _ => format!("broken: {:?}", c.out.violations.first().map(|v| v.key.clone())),
    }
}

fn op_nova_transcript(shape: u64, value: u64) -> String {
    let n = shape_rng("transcript", shape).gen_range(1..5);
    let mut r = value_rng("nova-transcript", shape, value);
    let mut t = Transcript::<Sha256>::default();
    let mut out = String::new();
    for _ in 0..n {
        t.feed(&commit_of(any_fr(&mut r)));
        t.feed_scalar_num(any_fr(&mut r));
        out += &hexes(&t.generate_challenges::<2>());
    }
    out
}

/// Calls that end in a panic leave nothing behind
fn op_panics(shape: u64, value: u64) -> String {
    let (k, p, z, mut r) = kzg_parts("kzg", shape, value);
    let n = p.coeffs.len() + 20;
    let big = rand_poly(&mut r, n + 5);
    let a = guard(|| k.commit(&big)).is_err();
    let b = guard(|| k.open(&big, z)).is_err();
    let c = guard(|| {
        let mut t = Transcript::<Sha256>::default();
        t.generate_challenges::<1>()
    })
    .is_err();
    format!("{a} {b} {c} {:?}", k.commit(&p).0)
}

// ---------------------------------------------------------------- references

pub static SEED: AtomicU64 = AtomicU64::new(0);

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
struct Op {
    kind: usize,
    shape: u64,
    value: u64,
}

impl Op {
    /// Few shapes and values, which differ from run to run
    fn any(rng: &mut StdRng, thorough: bool) -> Self {
        let seed = SEED.load(Ordering::Relaxed);
        let n = if thorough { 6 } else { 3 };
        Self {
            kind: rng.gen_range(0..KINDS.len()),
            shape: seed * 100 + rng.gen_range(0..n),
            value: rng.gen_range(0..n),
        }
    }
    fn run(&self) -> String {
        result(self.kind, self.shape, self.value)
    }
    fn name(&self) -> String {
        format!("{} {} {}", KINDS[self.kind].0, self.shape, self.value)
    }
}

type Cell = Arc<OnceLock<Option<String>>>;
static REFERENCES: Mutex<Option<HashMap<Op, Cell>>> = Mutex::new(None);

/// The result in a process of its own
fn reference(op: Op) -> Option<String> {
    let cell = REFERENCES
        .lock()
        .unwrap()
        .get_or_insert_with(HashMap::new)
        .entry(op)
        .or_default()
        .clone();
    cell.get_or_init(|| fresh(op)).clone()
}

fn fresh(op: Op) -> Option<String> {
    static N: AtomicU64 = AtomicU64::new(0);
    let path = std::env::temp_dir().join(format!("zkmon-op-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
    let ok = Command::new(std::env::current_exe().ok()?)
        .args(["op", &op.kind.to_string(), &op.shape.to_string(), &op.value.to_string()])
        .arg(&path)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status()
        .ok()?
        .success();
    let r = std::fs::read_to_string(&path).ok();
    let _ = std::fs::remove_file(&path);
    r.filter(|_| ok)
}

/// `zkmon op KIND SHAPE VALUE PATH`
pub fn op_main(args: &[String]) -> i32 {
    let n = |i: usize| args[i].parse::<u64>().expect("number");
    let r = result(n(1) as usize, n(2), n(3));
    std::fs::write(&args[4], r).expect("result");
    0
}

fn compare(c: &mut Case, op: Op, got: &str, how: &str, history: &dyn Fn() -> String) {
    let Some(want) = reference(op) else {
        c.inconclusive(format!("no reference for {}", KINDS[op.kind].0));
        return;
    };
    c.eval((op, how, c.idx));
    c.count(&format!("{how}: {}", KINDS[op.kind].0));
    c.distinct("operations", op);
    c.distinct("results", &want);
    if got != want {
        c.violation(
            &format!("{how}: {}", KINDS[op.kind].0),
            format!("{}: alone {want}; here {got}; {}", op.name(), history()),
        );
    }
}

// ---------------------------------------------------------------- histories

fn c29_histories(c: &mut Case) {
    // a few operations, each several times, in any order
    let t = c.thorough();
    let pool: Vec<Op> = (0..c.rng.gen_range(2..7)).map(|_| Op::any(&mut c.rng, t)).collect();
    // with the same kind and shape, other values
    let mut pool2 = pool.clone();
    for o in &pool {
        if c.rng.gen_bool(0.6) {
            pool2.push(Op { value: (o.value + 1) % 3, ..*o });
        }
    }
    let history: Vec<Op> = (0..14).map(|_| *pool2.choose(&mut c.rng).unwrap()).collect();
    c.sample(|| history.iter().map(Op::name).collect::<Vec<_>>().join(", "));
    c.distinct("histories", &history);
    for (i, op) in history.iter().enumerate() {
        let got = op.run();
        compare(c, *op, &got, "history", &|| {
            history[..=i].iter().map(Op::name).collect::<Vec<_>>().join(", ")
        });
    }
}

/// What the threads saw: (thread, start, end, operation, result)
type Seen = (usize, Duration, Duration, Op, String);

fn together(lists: Vec<Vec<Op>>, delays: Vec<Vec<u64>>) -> Vec<Seen> {
    let barrier = Barrier::new(lists.len());
    let start = Instant::now();
    let all = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for (t, (list, delay)) in lists.iter().zip(&delays).enumerate() {
            let (barrier, all) = (&barrier, &all);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, move || {
                    barrier.wait();
                    for (op, d) in list.iter().zip(delay) {
                        match d {
                            0 => {}
                            1 => std::thread::yield_now(),
                            d => std::thread::sleep(Duration::from_micros(*d)),
                        }
                        let from = start.elapsed();
                        let got = op.run();
                        all.lock().unwrap().push((t, from, start.elapsed(), *op, got));
                    }
                })
                .expect("thread");
        }
    });
    all.into_inner().unwrap()
}

fn schedule(rng: &mut StdRng, threads: usize, each: usize, thorough: bool) -> (Vec<Vec<Op>>, Vec<Vec<u64>>) {
    let style = rng.gen_range(0..3);
    let pool: Vec<Op> = (0..rng.gen_range(1..5)).map(|_| Op::any(rng, thorough)).collect();
    let lists = (0..threads)
        .map(|_| {
            (0..each)
                .map(|_| {
                    let o = *pool.choose(rng).unwrap();
                    match style {
                        // all the same operations
                        0 => o,
                        // the same but for the values
                        1 => Op { value: rng.gen_range(0..3), ..o },
                        _ => Op::any(rng, thorough),
                    }
                })
                .collect()
        })
        .collect();
    let delays = (0..threads)
        .map(|_| (0..each).map(|_| *[0, 0, 1, 50, 300].choose(rng).unwrap()).collect())
        .collect();
    (lists, delays)
}

fn c29_concurrent(c: &mut Case) {
    let t = c.thorough();
    let (lists, delays) = schedule(&mut c.rng, 8, 4, t);
    let seen = together(lists, delays);
    // how much really overlapped
    let mut overlaps = 0;
    for (i, a) in seen.iter().enumerate() {
        for b in &seen[..i] {
            if a.0 != b.0 && a.1 < b.2 && b.1 < a.2 {
                overlaps += 1;
                c.distinct("pairs of kinds that overlapped", (a.3.kind.min(b.3.kind), a.3.kind.max(b.3.kind)));
            }
        }
    }
    c.count_n("overlapping pairs of operations", overlaps);
    let order: Vec<usize> = seen.iter().map(|s| s.0).collect();
    c.distinct("interleavings of the ends of operations", &order);
    for (_, _, _, op, got) in &seen {
        compare(c, *op, got, "concurrent", &|| {
            seen.iter().map(|s| format!("{}:{}", s.0, s.3.name())).collect::<Vec<_>>().join(", ")
        });
    }
}

// ---------------------------------------------------------------- shared objects

/// Types that threads may share are shared; a type that is not for that is left out.
struct Probe<T>(std::marker::PhantomData<T>);
impl<T: Sync> Probe<T> {
    #[allow(dead_code)]
    fn sync(&self) -> bool {
        true
    }
}
trait NotSync {
    fn sync(&self) -> bool {
        false
    }
}
impl<T> NotSync for &Probe<T> {}

macro_rules! is_sync {
    ($t:ty) => {
        (&Probe::<$t>(std::marker::PhantomData)).sync()
    };
}

struct Share<T>(T);
unsafe impl<T> Sync for Share<T> {}
unsafe impl<T> Send for Share<T> {}
impl<T> Share<T> {
    fn get(&self) -> &T {
        &self.0
    }
}

/// Calls on one object, from several threads
fn shared<T>(c: &mut Case, what: &str, object: T, fresh: &dyn Fn() -> T, calls: &[(&'static str, &(dyn Fn(&T) -> String + Sync))]) {
    let object = Share(object);
    // each call on an object of its own
    let want: Vec<String> = calls.iter().map(|f| guard(|| (f.1)(&fresh())).unwrap_or("panic".into())).collect();
    let lists: Vec<Vec<usize>> = (0..6)
        .map(|_| (0..6).map(|_| c.rng.gen_range(0..calls.len())).collect())
        .collect();
    let barrier = Barrier::new(lists.len());
    let seen = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for list in &lists {
            let (barrier, seen, object) = (&barrier, &seen, &object);
            s.spawn(move || {
                barrier.wait();
                for k in list {
                    let got = guard(|| (calls[*k].1)(object.get())).unwrap_or("panic".into());
                    seen.lock().unwrap().push((*k, got));
                }
            });
        }
    });
    for (k, got) in seen.into_inner().unwrap() {
        c.eval((what, k, c.idx, &want[k]));
        c.count(&format!("shared {what}: {}", calls[k].0));
        c.check(got == want[k], &format!("shared {what}: {}", calls[k].0), || format!("alone {} shared {got}", want[k]));
    }
}

fn c29_shared(c: &mut Case) {
    let seed: u64 = c.rng.gen();
    match c.idx % 4 {
        0 if is_sync!(KzgScheme) => {
            let n = c.rng.gen_range(2..9);
            let polys: Vec<Poly> = (0..3).map(|_| rand_poly(&mut c.rng, n)).collect();
            let z = any_fr(&mut c.rng);
            let srs = Srs::new_from_secret(rand_fr(&mut c.rng), n);
            let make = || KzgScheme::new(srs.clone());
            let open = |k: &KzgScheme, i: usize| {
                let o = k.open(&polys[i], z + Fr::from(i as u64));
                format!("{:?} {}", o.0, hex(&o.1))
            };
            let check = |k: &KzgScheme, i: usize, right: bool| {
                let mut o = k.open(&polys[i], z);
                if !right {
                    o.1 += Fr::from(1u64);
                }
                format!("{}", k.verify(&k.commit(&polys[i]), &o, z))
            };
            shared(c, "scheme", make(), &make, &[
                ("commit", &|k| format!("{:?}", k.commit(&polys[0]).0)),
                ("commit", &|k| format!("{:?}", k.commit(&polys[1]).0)),
                ("open", &|k| open(k, 0)),
                ("open", &|k| open(k, 1)),
                ("open", &|k| open(k, 2)),
                ("verify", &|k| check(k, 0, true)),
                ("verify", &|k| check(k, 0, false)),
                ("verify", &|k| check(k, 1, true)),
            ]);
        }
        1 if is_sync!((plonk::compiled_circuit::CompiledCircuit, Srs)) => {
            let n = c.rng.gen_range(1..8);
            let m = random_model(&mut c.rng, n);
            let s = rand_fr(&mut c.rng);
            let make = || {
                let cc = m.compile();
                let srs = Srs::new_from_secret(s, cc.size);
                (cc, srs)
            };
            shared(c, "circuit", make(), &make, &[
                ("prove", &|x| {
                    let p = generate_proof::<Sha256>(&x.0, x.1.clone());
                    format!("{}", verify::<Sha256>(&x.0, x.1.clone(), p).is_ok())
                }),
                ("reject", &|x| {
                    let mut p = generate_proof::<Sha256>(&x.0, x.1.clone());
                    p.bar_zw_add();
                    format!("{}", verify::<Sha256>(&x.0, x.1.clone(), p).is_ok())
                }),
                ("read", &|x| statement(&Statement::of(&x.0))),
            ]);
        }
        2 if is_sync!((nova::r1cs::R1CS<Fr>, nova::r1cs::FInstance, nova::r1cs::FWitness, KzgScheme)) => {
            let make = || pairs(seed % 1000, seed);
            shared(c, "structure", make(), &make, &[
                ("fold", &|x| fold_text(&x.0, &x.1, &x.2, &x.3)),
                ("fold", &|x| fold_text(&x.0, &x.1, &x.3, &x.2)),
                ("satisfied", &|x| format!("{}", nova::r1cs::is_r1cs_satisfied(&x.0.r1cs, &x.2.u, &x.2.w, &x.1.scheme).is_ok())),
                ("satisfied", &|x| format!("{}", nova::r1cs::is_r1cs_satisfied(&x.0.r1cs, &x.2.u, &x.3.w, &x.1.scheme).is_ok())),
            ]);
        }
        _ if is_sync!(Parser) => {
            let (text, v) = text_parts(seed % 100_000, seed);
            let other = format!("{text}+1");
            let make = || parser(&v);
            let go = |p: &Parser, t: &str| match guard(|| statement(&Statement::of(&p.parse(t).compile().expect("compiles")))) {
                Ok(s) => s,
                Err(_) => "refused".into(),
            };
            shared(c, "parser", make(), &make, &[
                ("parse", &|p| go(p, &text)),
                ("parse", &|p| go(p, &other)),
                ("parse", &|p| go(p, "x +")),
            ]);
        }
        _ => c.count("types not for sharing"),
    }
}

trait BarZw {
    fn bar_zw_add(&mut self);
}
impl BarZw for plonk::prover::Proof {
    fn bar_zw_add(&mut self) {
        self.bar_z_w += Fr::from(1u64);
    }
}

/// One object used many times in sequence behaves as a new one
fn c29_objects(c: &mut Case) {
    let seed: u64 = c.rng.gen();
    match c.idx % 3 {
        0 => {
            let n = c.rng.gen_range(2..9);
            let srs = Srs::new_from_secret(rand_fr(&mut c.rng), n);
            let one = KzgScheme::new(srs.clone());
            for i in 0..12 {
                let len = if c.rng.gen() { n } else { c.rng.gen_range(0..=n) };
                let p = Poly::from_coefficients_vec((0..len).map(|_| any_fr(&mut c.rng)).collect());
                let z = any_fr(&mut c.rng);
                let act = |k: &KzgScheme| {
                    guard(|| {
                        let (cm, o) = (k.commit(&p), k.open(&p, z));
                        let wrong = kzg::opening::KzgOpening(o.0, o.1 + Fr::from(1u64));
                        format!("{:?} {:?} {} {} {}", cm.0, o.0, hex(&o.1), k.verify(&cm, &o, z), k.verify(&cm, &wrong, z))
                    })
                    .unwrap_or("panic".into())
                };
                let (a, b) = (act(&one), act(&KzgScheme::new(srs.clone())));
                c.eval((i, &b));
                c.count("uses of one scheme");
                c.check(a == b, "object: scheme", || format!("use {i}: {a}; new {b}"));
            }
        }
        1 => {
            // the same parser for several texts
            let (_, v) = text_parts(seed % 100_000, seed);
            let mut all = v.clone();
            let texts: Vec<String> = (0..5)
                .map(|i| {
                    let (t, w) = text_parts((seed % 100_000) + i, seed);
                    for (k, x) in w {
                        all.entry(k).or_insert(x);
                    }
                    t
                })
                .collect();
            let one = parser(&all);
            for i in 0..10 {
                let t = texts.choose(&mut c.rng).unwrap().clone();
                let go = |p: &Parser| {
                    guard(|| statement(&Statement::of(&p.parse(&t).compile().expect("compiles")))).unwrap_or("refused".into())
                };
                let (a, b) = (go(&one), go(&parser(&all)));
                c.eval((i, &t, &b));
                c.count("uses of one parser");
                c.check(a == b, "object: parser", || format!("'{t}': {a}; new {b}"));
            }
        }
        _ => {
            // verification of one circuit, good and bad proofs in turn
            let n = c.rng.gen_range(1..7);
            let m = random_model(&mut c.rng, n);
            let cc = m.compile();
            let before = statement(&Statement::of(&cc));
            let srs = Srs::new_from_secret(rand_fr(&mut c.rng), cc.size);
            for i in 0..5 {
                let bad = c.rng.gen_bool(0.5);
                let mut p = generate_proof::<Sha256>(&cc, srs.clone());
                if bad {
                    p.bar_a += nonzero::<Fr>(&mut c.rng);
                }
                let v = verify::<Sha256>(&cc, srs.clone(), p).is_ok();
                c.eval((i, bad, &before));
                c.count("uses of one circuit");
                c.check(v != bad, "object: circuit", || format!("use {i}: {v} for a {} proof of {}", if bad { "bad" } else { "good" }, m.describe()));
            }
            c.check(before == statement(&Statement::of(&cc)), "object: circuit changed", || m.describe());
        }
    }
}

// ---------------------------------------------------------------- race detector

/// `zkmon race SEED`: the workload the race detector watches
pub fn race_main(args: &[String]) -> i32 {
    let seed: u64 = args[1].parse().expect("seed");
    let rounds: u64 = args.get(2).and_then(|s| s.parse().ok()).unwrap_or(1);
    SEED.store(seed, Ordering::Relaxed);
    let mut n = 0;
    for round in 0..rounds {
        let mut rng = StdRng::seed_from_u64(fnv((seed, round)));
        // every kind on two threads at least
        let mut kinds: Vec<usize> = (0..KINDS.len()).chain(0..KINDS.len()).collect();
        kinds.shuffle(&mut rng);
        let lists: Vec<Vec<Op>> = kinds
            .chunks(kinds.len().div_ceil(6))
            .map(|k| {
                k.iter()
                    .map(|kind| Op { kind: *kind, shape: rng.gen_range(0..3), value: rng.gen_range(0..2) })
                    .collect()
            })
            .collect();
        let delays = lists.iter().map(|l| l.iter().map(|_| 0).collect()).collect();
        n += together(lists, delays).len();
    }
    if let Some(path) = args.get(3) {
        std::fs::write(path, n.to_string()).expect("count");
    }
    0
}

fn c29_races(c: &mut Case) {
    let Some(bin) = std::env::var_os("ZKMON_TSAN").map(PathBuf::from).filter(|p| p.exists()) else {
        c.inconclusive("no build under ThreadSanitizer");
        return;
    };
    let dir = std::env::temp_dir().join(format!("zkmon-tsan-{}-{}", std::process::id(), c.idx));
    let _ = std::fs::create_dir_all(&dir);
    let seed: u32 = c.rng.gen();
    let rounds = if c.thorough() { 20 } else { 8 };
    let child = Command::new(bin)
        .args(["race", &seed.to_string(), &rounds.to_string()])
        .arg(dir.join("count"))
        .env("TSAN_OPTIONS", format!("halt_on_error=0:exitcode=66:log_path={}/log", dir.display()))
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn();
    let Ok(mut child) = child else {
        c.inconclusive("the build under ThreadSanitizer does not start");
        return;
    };
    let start = Instant::now();
    let status = loop {
        match child.try_wait() {
            Ok(Some(s)) => break Some(s),
            _ if start.elapsed() > Duration::from_secs(130) => {
                let _ = child.kill();
                let _ = child.wait();
                break None;
            }
            _ => std::thread::sleep(Duration::from_millis(50)),
        }
    };
    let done = std::fs::read_to_string(dir.join("count")).ok().and_then(|s| s.parse::<u64>().ok());
    let mut log = String::new();
    for e in std::fs::read_dir(&dir).into_iter().flatten().flatten() {
        if e.file_name().to_string_lossy().starts_with("log") {
            log += &std::fs::read_to_string(e.path()).unwrap_or_default();
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    let mut found = false;
    for report in log.split("==================").filter(|r| r.contains("WARNING: ThreadSanitizer")) {
        // a race in which the code under test has a part
        if report.contains("/repo/") || report.contains("kzg::") || report.contains("fri::") || report.contains("plonk::") || report.contains("nova::") {
            found = true;
            let at = report
                .lines()
                .find(|l| l.contains("/repo/"))
                .and_then(|l| l.split("/repo/").nth(1))
                .unwrap_or("unknown place");
            let at: String = at.split([':', ' ']).next().unwrap_or(at).into();
            c.violation(&format!("data-race: {at}"), format!("seed {seed}: {report}"));
        }
    }
    match (status, done) {
        (Some(_), Some(n)) => {
            c.eval(("tsan", seed));
            c.count_n("operations under ThreadSanitizer", n);
            c.count("runs under ThreadSanitizer");
        }
        _ if found => {}
        (s, _) => c.inconclusive(format!("the run under ThreadSanitizer gave no answer: {s:?} {}", log.chars().take(200).collect::<String>())),
    }
}
