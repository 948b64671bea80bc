//! C17-C20: equations as text, judged by a reference evaluator and by solving the constraints of
//! the compiled circuit as a malicious prover would.
use ark_bls12_381::Fr;
use ark_ff::{Field, One, UniformRand, Zero};
use kzg::scheme::KzgScheme;
use kzg::srs::Srs;
use plonk::common_preprocessed_input::cpi_parser::{CPIGenerator, CommonPreprocessedInput};
use plonk::parser::Parser;
use plonk::prover::generate_proof;
use plonk::verifier::verify;
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::Rng;
use sha2::Sha256;
use std::collections::{BTreeMap, HashMap};

use crate::common::*;
use crate::core::*;
use crate::plonk_model::*;

pub static PROPERTIES: &[Property] = &[
    Property {
        id: "C17",
        rule: "A case is an equation written from a random syntax tree (sums of signed products of variables, constants and powers, any spacing and case) and an assignment that makes it true, or false; distinct by text and values. Oracle: both sides evaluated over the tree; accepted proof if and only if they are equal.",
        assumptions: &["arkworks arithmetic is right"],
        groups: &[
            Group { name: "true", quick: 350, run: c17_true },
            Group { name: "false", quick: 350, run: c17_false },
            Group { name: "fixed", quick: 1, run: c17_fixed },
            Group { name: "long", quick: 32, run: c17_long },
        ],
    },
    Property {
        id: "C18",
        rule: "A case is a random equation; the gates and wiring of its compiled circuit are solved for values of the variables that make the equation false, and for values that make it true, with everything else chosen by the solver; distinct by text. Oracle: no solution for a false equation, one for a true equation, one wire per variable. A solution for a false one is turned into a real proof.",
        assumptions: &["random field values agree with the equation by chance with probability below 2^-240"],
        groups: &[
            Group { name: "solve", quick: 6000, run: c18_solve },
            Group { name: "prove", quick: 10, run: c18_prove },
            Group { name: "long", quick: 400, run: c18_long },
        ],
    },
    Property {
        id: "C19",
        rule: "A case is a random equation with two random assignments; the verifier's preprocessed input is compared, field by field and through the secret, with the circuits compiled for either assignment; distinct by text.",
        assumptions: &["arkworks arithmetic is right"],
        groups: &[
            Group { name: "random", quick: 1200, run: c19_random },
            Group { name: "proof", quick: 40, run: c19_proof },
            Group { name: "long", quick: 60, run: c19_long },
        ],
    },
    Property {
        id: "C20",
        rule: "A case is a text that is not an equation of the supported syntax, made from a valid one by one of about thirty edits, or an equation with a variable left out of the assignment, where every name the text could be read to contain has a value; distinct by text. Oracle: no circuit on either side.",
        assumptions: &["a refusal is a panic or an error"],
        groups: &[
            Group { name: "invalid", quick: 6000, run: c20_invalid },
            Group { name: "missing", quick: 1500, run: c20_missing },
            Group { name: "valid", quick: 1500, run: c20_valid },
        ],
    },
];

// ---------------------------------------------------------------- equations

#[derive(Clone, Debug)]
pub enum Base {
    Num(u32),
    Var(String),
}

#[derive(Clone, Debug)]
pub struct Factor {
    signs: usize,
    base: Base,
    exp: Option<usize>,
    zeros: usize,
}

pub type Term = Vec<Factor>;

#[derive(Clone, Debug)]
pub struct Equation {
    terms: Vec<Term>,
    rhs: Term,
}

pub type Values = BTreeMap<String, Fr>;

fn power(x: Fr, n: usize) -> Fr {
    let mut r = Fr::one();
    for _ in 0..n {
        r *= x;
    }
    r
}

fn term_value(t: &Term, v: &Values) -> Fr {
    t.iter()
        .map(|f| {
            let b = match &f.base {
                Base::Num(n) => Fr::from(*n),
                Base::Var(x) => v[x],
            };
            let p = power(b, f.exp.unwrap_or(1));
            if f.signs % 2 == 1 {
                -p
            } else {
                p
            }
        })
        .product()
}

impl Equation {
    fn sides(&self, v: &Values) -> (Fr, Fr) {
        (
            self.terms.iter().map(|t| term_value(t, v)).sum(),
            term_value(&self.rhs, v),
        )
    }
    fn difference(&self, v: &Values) -> Fr {
        let (a, b) = self.sides(v);
        a - b
    }
    fn vars(&self) -> Vec<String> {
        let mut r: Vec<String> = self
            .terms
            .iter()
            .chain([&self.rhs])
            .flatten()
            .filter_map(|f| match &f.base {
                Base::Var(x) => Some(x.clone()),
                _ => None,
            })
            .collect();
        r.sort();
        r.dedup();
        r
    }
    /// Variables that have a wire: not only under exponent zero
    fn used(&self) -> Vec<String> {
        let mut r: Vec<String> = self
            .terms
            .iter()
            .chain([&self.rhs])
            .flatten()
            .filter_map(|f| match (&f.base, f.exp) {
                (_, Some(0)) => None,
                (Base::Var(x), _) => Some(x.clone()),
                _ => None,
            })
            .collect();
        r.sort();
        r.dedup();
        r
    }
    fn tokens(&self) -> Vec<String> {
        let mut r = vec![];
        let term = |r: &mut Vec<String>, t: &Term| {
            for (i, f) in t.iter().enumerate() {
                if i > 0 {
                    r.push("*".into());
                }
                for _ in 0..f.signs {
                    r.push("-".into());
                }
                r.push(match &f.base {
                    Base::Num(n) => format!("{}{n}", "0".repeat(f.zeros)),
                    Base::Var(x) => x.clone(),
                });
                if let Some(e) = f.exp {
                    r.push("^".into());
                    r.push(e.to_string());
                }
            }
        };
        for (i, t) in self.terms.iter().enumerate() {
            if i > 0 {
                r.push("+".into());
            }
            term(&mut r, t);
        }
        r.push("=".into());
        term(&mut r, &self.rhs);
        r
    }
    /// The text, with spaces and capitals where they do not matter
    pub fn text(&self, rng: &mut StdRng) -> String {
        let spaces = *[0.0, 0.0, 0.2, 0.7].choose(rng).unwrap();
        let caps = *[0.0, 0.0, 0.5].choose(rng).unwrap();
        let mut r = String::new();
        for t in self.tokens() {
            while rng.gen_bool(spaces) {
                r.push(' ');
            }
            for ch in t.chars() {
                r.push(if rng.gen_bool(caps) {
                    ch.to_ascii_uppercase()
                } else {
                    ch
                });
            }
        }
        while rng.gen_bool(spaces) {
            r.push(' ');
        }
        r
    }
}

const NAMES: [&str; 12] = [
    "x", "y", "z", "a", "xy", "x1", "x_2", "long_name", "b", "n0", "zz", "w",
];

/// Names that are easily confused
const ALIKE: [&str; 14] = [
    "x", "xx", "xxx", "xy", "yx", "y", "yy", "x_", "_x", "_", "x_y", "x1", "x11", "x'",
];

fn random_term(rng: &mut StdRng, names: &[&str], max: usize) -> Term {
    let n = rng.gen_range(1..=max);
    (0..n)
        .map(|_| Factor {
            signs: if rng.gen_bool(0.75) {
                0
            } else {
                rng.gen_range(1..3)
            },
            base: if rng.gen_bool(0.35) {
                Base::Num(match rng.gen_range(0..10) {
                    0 => i32::MAX as u32 - rng.gen_range(0..2),
                    1 => rng.gen_range(0..1 << 31),
                    2 => 0,
                    3 => 1,
                    _ => rng.gen_range(0..12),
                })
            } else {
                Base::Var(names.choose(rng).unwrap().to_string())
            },
            exp: if rng.gen_bool(0.75) {
                None
            } else {
                Some(rng.gen_range(0..4))
            },
            zeros: if rng.gen_bool(0.05) { 1 } else { 0 },
        })
        .collect()
}

pub fn random_equation(rng: &mut StdRng, terms: usize, factors: usize) -> Equation {
    let k = rng.gen_range(1..=4);
    let names: Vec<&str> = if rng.gen_bool(0.8) {
        NAMES.choose_multiple(rng, k).copied().collect()
    } else {
        ALIKE.choose_multiple(rng, k + 1).copied().collect()
    };
    let n = rng.gen_range(1..=terms);
    let mut e = Equation {
        terms: (0..n).map(|_| random_term(rng, &names, factors)).collect(),
        rhs: random_term(rng, &names, factors.min(2)),
    };
    match rng.gen_range(0..9) {
        // two products that are spelled alike without their signs
        3 => {
            let n = rng.gen_range(3..7);
            let letters: String = (0..n).map(|_| *['x', 'y', '_', 'a'].choose(rng).unwrap()).collect();
            for _ in 0..2 {
                let at = rng.gen_range(1..n);
                let at2 = if factors > 2 { rng.gen_range(at..n) } else { n };
                let t = [&letters[..at], &letters[at..at2], &letters[at2..]]
                    .iter()
                    .filter(|x| !x.is_empty())
                    .map(|x| Factor { signs: 0, base: Base::Var(x.to_string()), exp: None, zeros: 0 })
                    .take(factors.max(1))
                    .collect();
                let pos = rng.gen_range(0..=e.terms.len());
                e.terms.insert(pos, t);
            }
        }
        // repeated terms, and the two sides alike
        0 => {
            let t = e.terms.choose(rng).unwrap().clone();
            e.terms.push(t);
        }
        1 => e.rhs = e.terms.choose(rng).unwrap().clone(),
        2 => {
            // the same variable, all signs
            let mut t = e.terms.choose(rng).unwrap().clone();
            let f = t.choose_mut(rng).unwrap();
            f.signs += 1;
            e.terms.push(t);
        }
        _ => {}
    }
    e
}

/// Equations far longer than the usual ones: large exponents, many terms, many factors
fn long_equation(rng: &mut StdRng) -> Equation {
    let one = |x: &str| Factor { signs: 0, base: Base::Var(x.into()), exp: None, zeros: 0 };
    let k = rng.gen_range(2..NAMES.len());
    let names: Vec<&str> = NAMES.choose_multiple(rng, k).copied().collect();
    let mut e = Equation {
        terms: vec![random_term(rng, &names, 3)],
        rhs: random_term(rng, &names, 2),
    };
    match rng.gen_range(0..4) {
        0 => {
            let exp = *[15usize, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300]
                .choose(rng)
                .unwrap();
            let mut f = one(names.choose(rng).unwrap());
            f.exp = Some(exp);
            f.signs = rng.gen_range(0..3);
            let mut t = random_term(rng, &names, 2);
            t.insert(rng.gen_range(0..=t.len()), f);
            e.terms.insert(rng.gen_range(0..2), t);
        }
        1 => {
            for _ in 0..rng.gen_range(16..60) {
                e.terms.push(random_term(rng, &names, 3));
            }
        }
        2 => {
            let n = rng.gen_range(16..100);
            let t = (0..n)
                .map(|_| Factor { signs: rng.gen_bool(0.1) as usize, ..one(names.choose(rng).unwrap()) })
                .collect();
            e.terms.push(t);
        }
        _ => {
            // one variable in many places, many signs
            let x = names[0];
            for _ in 0..rng.gen_range(16..80) {
                e.terms.push(vec![Factor { signs: rng.gen_range(0..2), ..one(x) }]);
            }
            e.rhs[0].signs = rng.gen_range(0..70);
        }
    }
    e
}

pub fn random_values(rng: &mut StdRng, e: &Equation) -> Values {
    e.vars()
        .into_iter()
        .map(|x| (x, any_fr(rng)))
        .collect()
}

fn tagged_values(rng: &mut StdRng, e: &Equation) -> Values {
    e.vars()
        .into_iter()
        .map(|x| (x, Fr::rand(rng)))
        .collect()
}

/// Makes the equation true: by a new variable, by a constant, or by a variable it is linear in.
pub fn make_true(rng: &mut StdRng, e: &mut Equation, v: &mut Values) {
    let d = e.difference(v);
    if d.is_zero() && rng.gen_bool(0.7) {
        return;
    }
    let var = |x: &str, signs| Factor {
        signs,
        base: Base::Var(x.into()),
        exp: None,
        zeros: 0,
    };
    match rng.gen_range(0..4) {
        0 => {
            // ... = fresh
            let (lhs, _) = e.sides(v);
            let signs = rng.gen_range(0..3);
            e.rhs = vec![var("fresh", signs)];
            v.insert("fresh".into(), if signs % 2 == 1 { -lhs } else { lhs });
        }
        1 => {
            // ... + 3 * fresh = ...
            let k = rng.gen_range(1..5u32);
            let mut t = vec![var("fresh", rng.gen_range(0..2))];
            t.insert(
                rng.gen_range(0..2),
                Factor {
                    signs: rng.gen_range(0..2),
                    base: Base::Num(k),
                    exp: None,
                    zeros: 0,
                },
            );
            let pos = rng.gen_range(0..=e.terms.len());
            let one: Values = [("fresh".to_string(), Fr::one())].into();
            let c = term_value(&t, &one);
            e.terms.insert(pos, t);
            v.insert("fresh".into(), -d / c);
        }
        2 => {
            // small values and a constant on the right
            for x in v.values_mut() {
                *x = Fr::from(rng.gen_range(-3i32..4));
            }
            let (lhs, _) = e.sides(v);
            let bound = Fr::from(i32::MAX);
            let small = |x: Fr| x.into_small();
            if let Some(n) = small(lhs) {
                e.rhs = vec![num(n, 0)];
            } else if let Some(n) = small(-lhs) {
                e.rhs = vec![num(n, 1)];
            } else {
                let _ = bound;
                e.rhs = vec![var("fresh", 0)];
                v.insert("fresh".into(), lhs);
            }
        }
        _ => {
            // a variable on both sides of a product: c * fresh * known = ...
            let pos = rng.gen_range(0..=e.terms.len());
            let known = Fr::rand(rng);
            e.terms.insert(pos, vec![var("known", 0), var("fresh", 0)]);
            v.insert("known".into(), known);
            v.insert("fresh".into(), -d / known);
        }
    }
}

trait Small {
    fn into_small(self) -> Option<u32>;
}

impl Small for Fr {
    fn into_small(self) -> Option<u32> {
        use ark_ff::PrimeField;
        let b = self.into_bigint().0;
        (b[1] == 0 && b[2] == 0 && b[3] == 0 && b[0] <= i32::MAX as u64).then_some(b[0] as u32)
    }
}

fn num(n: u32, signs: usize) -> Factor {
    Factor {
        signs,
        base: Base::Num(n),
        exp: None,
        zeros: 0,
    }
}

pub fn parser_with(rng: &mut StdRng, v: &Values) -> Parser {
    let mut p = Parser::default();
    let upper = rng.gen_bool(0.2);
    // a value can be given again
    if rng.gen_bool(0.2) {
        for x in v.keys() {
            p.add_witness(x, any_fr(rng));
        }
    }
    for (x, y) in v {
        if upper {
            p.add_witness(&x.to_uppercase(), *y);
        } else {
            p.add_witness(x, *y);
        }
    }
    p
}

fn show(v: &Values) -> String {
    v.iter()
        .map(|(k, x)| format!("{k}={}", hex(x)))
        .collect::<Vec<_>>()
        .join(" ")
}

/// The compiled circuit of a text
fn compile(rng: &mut StdRng, text: &str, v: &Values) -> Result<Statement, Panicked> {
    let p = parser_with(rng, v);
    guard(|| Statement::of(&p.parse(text).compile().expect("compiles")))
}

// ---------------------------------------------------------------- C17

fn any_equation(c: &mut Case) -> Equation {
    let (t, f) = if c.thorough() { (6, 4) } else { (4, 3) };
    random_equation(&mut c.rng, t, f)
}

fn judge(c: &mut Case, text: &str, v: &Values, truth: bool) {
    let desc = || format!("'{text}' with {}", show(v));
    c.eval((text, show(v)));
    let st = compile(&mut c.rng, text, v);
    let st = match st {
        Ok(st) => st,
        Err(p) => {
            if truth {
                c.violation("true-not-compiled", format!("{p:?} {}", desc()));
            }
            return;
        }
    };
    c.maximum("circuit size", st.size as u64);
    let cc = st.build();
    let strings = strings(&mut c.rng, st.size);
    let proof = guard(|| generate_proof::<Sha256>(&cc, strings.srs.clone()));
    let proof = match (proof, truth) {
        (Ok(p), _) => p,
        (Err(p), true) => {
            c.violation("true-not-provable", format!("{p:?} {}", desc()));
            return;
        }
        (Err(p), false) => {
            c.count("false equations refused by the prover");
            if p.is_instrumentation() {
                c.violation("prover-fault", format!("{p:?} {}", desc()));
            }
            return;
        }
    };
    let r = guard(|| verify::<Sha256>(&cc, strings.srs.clone(), proof));
    match (r, truth) {
        (Ok(Ok(())), true) => c.count("true equations accepted"),
        (Ok(Err(_)), false) => c.count("false equations rejected by the verifier"),
        (Ok(Ok(())), false) => c.violation("false-accepted", desc()),
        (Ok(Err(e)), true) => c.violation("true-rejected", format!("{e} {}", desc())),
        (Err(p), _) => c.violation("verifier-panics", format!("{p:?} {}", desc())),
    }
}

fn c17_true(c: &mut Case) {
    let mut e = any_equation(c);
    let mut v = random_values(&mut c.rng, &e);
    make_true(&mut c.rng, &mut e, &mut v);
    assert!(e.difference(&v).is_zero());
    let text = e.text(&mut c.rng);
    c.sample(|| format!("'{text}' with {}", show(&v)));
    judge(c, &text, &v, true);
}

fn c17_false(c: &mut Case) {
    let mut e = any_equation(c);
    let mut v = random_values(&mut c.rng, &e);
    if c.rng.gen_bool(0.7) {
        // nearly true: one value, sign or constant off
        make_true(&mut c.rng, &mut e, &mut v);
        match c.rng.gen_range(0..3) {
            0 => {
                let names: Vec<String> = v.keys().cloned().collect();
                if let Some(x) = names.choose(&mut c.rng) {
                    *v.get_mut(x).unwrap() += nonzero::<Fr>(&mut c.rng);
                }
            }
            1 => {
                let t = e.terms.choose_mut(&mut c.rng).unwrap();
                t.choose_mut(&mut c.rng).unwrap().signs += 1;
            }
            _ => e.rhs.push(num(2, 0)),
        }
    }
    if e.difference(&v).is_zero() {
        c.eval_trivial();
        return;
    }
    let text = e.text(&mut c.rng);
    c.sample(|| format!("'{text}' with {}", show(&v)));
    judge(c, &text, &v, false);
}

fn c17_long(c: &mut Case) {
    let mut e = long_equation(&mut c.rng);
    let mut v = tagged_values(&mut c.rng, &e);
    make_true(&mut c.rng, &mut e, &mut v);
    let mut truth = true;
    if c.rng.gen_bool(0.3) {
        let names: Vec<String> = v.keys().cloned().collect();
        if let Some(x) = names.choose(&mut c.rng) {
            *v.get_mut(x).unwrap() += Fr::one();
        }
        truth = e.difference(&v).is_zero();
    }
    let text = e.text(&mut c.rng);
    c.maximum("longest text", text.len() as u64);
    judge(c, &text, &v, truth);
}

/// Corners of the syntax, with their truth
fn c17_fixed(c: &mut Case) {
    let v = |x: i64, y: i64| -> Values {
        let f = |n: i64| {
            if n < 0 {
                -Fr::from((-n) as u64)
            } else {
                Fr::from(n as u64)
            }
        };
        [("x".to_string(), f(x)), ("y".to_string(), f(y))].into()
    };
    let cases: &[(&str, i64, i64, bool)] = &[
        ("x=3", 3, 0, true),
        ("x=3", 4, 0, false),
        ("3=x", 3, 0, true),
        ("0=0", 0, 0, true),
        ("0=1", 0, 0, false),
        ("1=0", 0, 0, false),
        ("3+0=3", 0, 0, true),
        ("3+0=4", 0, 0, false),
        ("0+3=3", 0, 0, true),
        ("x+0=x", 5, 0, true),
        ("x+0=0", 0, 0, true),
        ("x+0=0", 1, 0, false),
        ("x=x", 7, 0, true),
        ("x=-x", 7, 0, false),
        ("x=-x", 0, 0, true),
        ("x^0=1", 9, 0, true),
        ("0^0=1", 9, 0, true),
        ("-x^2=-9", 3, 0, true),
        ("-x^2=9", 3, 0, false),
        ("x*-y=-6", 2, 3, true),
        ("x*-y=6", 2, 3, false),
        ("--x=2", 2, 0, true),
        ("x=--2", 2, 0, true),
        ("x+-1*y=0", 5, 5, true),
        ("x+-y=0", 5, 5, true),
        ("x+-y=0", 5, 4, false),
        ("2^3=8", 0, 0, true),
        ("-2^2=-4", 0, 0, true),
        ("-2^2=4", 0, 0, false),
        ("x*x=x^2", 11, 0, true),
        ("x*y=y*x", 3, 4, true),
        ("x+y=10", 3, 7, true),
        ("x*y+x*y=2*x*y", 3, 7, true),
        ("x+x+x=3*x", 3, 7, true),
        ("2147483647=2147483647", 0, 0, true),
        ("007=7", 0, 0, true),
        ("x=-007", -7, 0, true),
        ("X + Y = 3", 1, 2, true),
        (" x  ^ 2 =4 ", -2, 0, true),
        ("x*3*y=6", 1, 2, true),
        ("3*3*x=9", 1, 0, true),
        ("3*3*x=9", 2, 0, false),
        ("0*x=0", 4, 0, true),
        ("0*x=1", 4, 0, false),
        ("-0=0", 0, 0, true),
        ("x+-0=x", 4, 0, true),
        ("1*1*1*1=1", 0, 0, true),
        ("x^10=1024", 2, 0, true),
        ("-1*-1=1", 0, 0, true),
        ("x+1+2+3+4+5=15", 0, 0, true),
    ];
    for (t, x, y, truth) in cases {
        judge(c, t, &v(*x, *y), *truth);
    }
}

// ---------------------------------------------------------------- C18

/// The constraints of a compiled circuit: rows of selectors over variables (cycles of wires)
struct System {
    n: usize,
    rows: Vec<Selectors>,
    /// variable of each wire
    cycle: Vec<[usize; 3]>,
    cycles: usize,
    values: Vec<[Fr; 3]>,
}

impl System {
    fn of(st: &Statement) -> Option<Self> {
        let n = st.size;
        let rs = roots(n);
        let q: Vec<Vec<Fr>> = st.q.iter().map(|p| values(p, &rs)).collect();
        let f: Vec<Vec<Fr>> = st.f.iter().map(|p| values(p, &rs)).collect();
        let sg: Vec<Vec<Fr>> = st.sigma.iter().map(|p| values(p, &rs)).collect();
        let mut place = HashMap::new();
        for (row, r) in rs.iter().enumerate() {
            for (col, k) in [Fr::one(), st.k[0], st.k[1]].into_iter().enumerate() {
                place.insert(hex(&(k * r)), (col, row));
            }
        }
        let mut next = vec![[(0, 0); 3]; n];
        let mut seen = vec![[false; 3]; n];
        for row in 0..n {
            for col in 0..3 {
                let p: (usize, usize) = *place.get(&hex(&sg[col][row]))?;
                if std::mem::replace(&mut seen[p.1][p.0], true) {
                    return None;
                }
                next[row][col] = p;
            }
        }
        let mut cycle = vec![[usize::MAX; 3]; n];
        let mut cycles = 0;
        for row in 0..n {
            for col in 0..3 {
                if cycle[row][col] != usize::MAX {
                    continue;
                }
                let mut p = (col, row);
                while cycle[p.1][p.0] == usize::MAX {
                    cycle[p.1][p.0] = cycles;
                    p = next[p.1][p.0];
                }
                cycles += 1;
            }
        }
        Some(Self {
            n,
            rows: (0..n)
                .map(|r| std::array::from_fn(|i| q[i][r]))
                .collect(),
            cycle,
            cycles,
            values: (0..n)
                .map(|r| std::array::from_fn(|i| f[i][r]))
                .collect(),
        })
    }
    /// Wires that a constraint of their row speaks about
    fn matters(&self, row: usize, col: usize) -> bool {
        let q = &self.rows[row];
        match col {
            0 => !q[0].is_zero() || !q[3].is_zero(),
            1 => !q[1].is_zero() || !q[3].is_zero(),
            _ => !q[2].is_zero(),
        }
    }
    /// Outputs that no other constraint speaks about
    fn dangling(&self) -> Vec<usize> {
        let mut uses = vec![0; self.cycles];
        for row in 0..self.n {
            for col in 0..3 {
                if self.matters(row, col) {
                    uses[self.cycle[row][col]] += if col == 2 { 1 } else { 100 };
                }
            }
        }
        (0..self.cycles).filter(|c| uses[*c] == 1).collect()
    }
    /// Follows the constraints from the given values; `Err` if one cannot be satisfied.
    fn propagate(&self, x: &mut [Option<Fr>]) -> Result<(), usize> {
        loop {
            let mut progress = false;
            for row in 0..self.n {
                let q = &self.rows[row];
                let [a, b, o] = self.cycle[row].map(|c| x[c]);
                // the constraint as a function of what is not known, as far as it is linear
                let mut rest = q[4] + q[5];
                let mut unknown: Vec<(usize, Fr)> = vec![];
                let mut add = |cyc: usize, k: Fr| {
                    match unknown.iter_mut().find(|u| u.0 == cyc) {
                        Some(u) => u.1 += k,
                        None => unknown.push((cyc, k)),
                    }
                };
                for (col, val) in [a, b, o].into_iter().enumerate() {
                    match val {
                        Some(v) => rest += q[col] * v,
                        None => add(self.cycle[row][col], q[col]),
                    }
                }
                match (a, b) {
                    (Some(a), Some(b)) => rest += q[3] * a * b,
                    (Some(a), None) => add(self.cycle[row][1], q[3] * a),
                    (None, Some(b)) => add(self.cycle[row][0], q[3] * b),
                    (None, None) => {
                        if !q[3].is_zero() {
                            continue;
                        }
                    }
                }
                unknown.retain(|u| !u.1.is_zero());
                match unknown[..] {
                    [] => {
                        if !rest.is_zero() {
                            return Err(row);
                        }
                    }
                    [(cyc, k)] => {
                        x[cyc] = Some(-rest / k);
                        progress = true;
                    }
                    _ => {}
                }
            }
            if !progress {
                return Ok(());
            }
        }
    }
    /// A full assignment from the given values: everything the constraints leave open is chosen.
    /// Returns the number of operands that had to be chosen.
    fn complete(&self, x: &mut Vec<Option<Fr>>, rng: &mut StdRng) -> Result<usize, usize> {
        let mut chosen = 0;
        loop {
            self.propagate(x)?;
            let open = (0..self.n)
                .flat_map(|r| (0..3).map(move |col| (r, col)))
                .find(|(r, col)| self.matters(*r, *col) && x[self.cycle[*r][*col]].is_none());
            let Some((r, col)) = open else { break };
            x[self.cycle[r][col]] = Some(Fr::rand(rng));
            chosen += 1;
        }
        for v in x.iter_mut() {
            v.get_or_insert(Fr::zero());
        }
        Ok(chosen)
    }
    fn holds(&self, x: &[Option<Fr>]) -> bool {
        (0..self.n).all(|r| {
            let v = self.cycle[r].map(|c| x[c].unwrap());
            gate_value(&self.rows[r], &v).is_zero()
        })
    }
}

struct Solved {
    system: System,
    /// cycle of each variable of the equation
    vars: BTreeMap<String, usize>,
    /// dangling outputs that are zero in the honest assignment: the claimed result
    results: Vec<usize>,
}

fn analyse(c: &mut Case, e: &Equation, text: &str) -> Option<(Solved, Statement)> {
    let tags = tagged_values(&mut c.rng, e);
    let st = match compile(&mut c.rng, text, &tags) {
        Ok(st) => st,
        Err(p) => {
            c.violation("not-compiled", format!("{p:?} '{text}'"));
            return None;
        }
    };
    let Some(system) = System::of(&st) else {
        c.violation("wiring-not-a-permutation", format!("'{text}'"));
        return None;
    };
    let mut vars = BTreeMap::new();
    for x in e.used() {
        let mut cycles: Vec<usize> = (0..system.n)
            .flat_map(|r| (0..3).map(move |col| (r, col)))
            .filter(|(r, col)| system.values[*r][*col] == tags[&x])
            // a wire no constraint speaks about is not a use
            .filter(|(r, col)| system.matters(*r, *col))
            .map(|(r, col)| system.cycle[r][col])
            .collect();
        cycles.sort();
        cycles.dedup();
        // an output may have the variable's value without being its wire: 1*x
        let operands: Vec<usize> = cycles
            .iter()
            .copied()
            .filter(|cy| !is_output(&system, *cy))
            .collect();
        match operands.len() {
            1 => {
                vars.insert(x, operands[0]);
            }
            0 => {
                c.violation("variable-without-wire", format!("{x} in '{text}'"));
                return None;
            }
            k => {
                c.violation(
                    "variable-on-several-wires",
                    format!("{x} has {k} independent wires in '{text}'"),
                );
                return None;
            }
        }
    }
    let results = system
        .dangling()
        .into_iter()
        .filter(|cy| {
            (0..system.n).any(|r| {
                system.cycle[r][2] == *cy
                    && system.matters(r, 2)
                    && system.values[r][2].is_zero()
            })
        })
        .collect();
    Some((
        Solved {
            system,
            vars,
            results,
        },
        st,
    ))
}

fn is_output(s: &System, cycle: usize) -> bool {
    (0..s.n).any(|r| s.matters(r, 2) && s.cycle[r][2] == cycle)
}

impl Solved {
    fn start(&self, v: &Values) -> Vec<Option<Fr>> {
        let mut x = vec![None; self.system.cycles];
        for (name, cy) in &self.vars {
            x[*cy] = Some(v[name]);
        }
        x
    }
}

/// The finding that is known: the result wire of the last sum is not tied to zero.
const FREE_RESULT: &str = "free-result-wire";

fn c18_solve(c: &mut Case) {
    let e = any_equation(c);
    solve(c, e)
}

fn c18_long(c: &mut Case) {
    let e = long_equation(&mut c.rng);
    solve(c, e)
}

fn solve(c: &mut Case, mut e: Equation) {
    let mut truth = random_values(&mut c.rng, &e);
    make_true(&mut c.rng, &mut e, &mut truth);
    let text = e.text(&mut c.rng);
    c.sample(|| text.clone());
    let Some((s, _)) = analyse(c, &e, &text) else { return };
    c.distinct("circuit sizes", s.system.n);
    c.count_n("wires", 3 * s.system.n as u64);
    // a false assignment
    let v = tagged_values(&mut c.rng, &e);
    if !e.difference(&v).is_zero() {
        c.eval(("false", &text));
        let mut x = s.start(&v);
        if let Ok(chosen) = s.system.complete(&mut x, &mut c.rng) {
            assert!(s.system.holds(&x));
            if chosen > 0 {
                c.violation(
                    "free-operand",
                    format!("{chosen} operands of '{text}' are not determined, so that it is satisfied by {}", show(&v)),
                );
            } else {
                c.violation(
                    if s.results.is_empty() {
                        "false-equation-satisfiable"
                    } else {
                        FREE_RESULT
                    },
                    format!("the constraints of '{text}' are satisfiable with {}", show(&v)),
                );
            }
        } else {
            c.count("false equations without a solution");
        }
        if !s.results.is_empty() {
            // with an honest result wire
            let mut x = s.start(&v);
            for r in &s.results {
                x[*r] = Some(Fr::zero());
            }
            match s.system.complete(&mut x, &mut c.rng) {
                Ok(chosen) => c.violation(
                    "false-equation-satisfiable",
                    format!("'{text}' with {} ({chosen} chosen operands), result zero", show(&v)),
                ),
                Err(_) => c.count("false equations without a solution of result zero"),
            }
        }
    } else {
        c.count("equations true for every value");
    }
    // a true one
    c.eval(("true", &text, show(&truth)));
    let mut x = s.start(&truth);
    for r in &s.results {
        x[*r] = Some(Fr::zero());
    }
    match s.system.complete(&mut x, &mut c.rng) {
        Ok(0) => c.count("true equations with a solution"),
        Ok(n) => c.violation("free-operand", format!("{n} operands of '{text}' are not determined")),
        Err(row) => c.violation(
            "true-equation-unsatisfiable",
            format!("gate {row} of '{text}' with {}", show(&truth)),
        ),
    }
}

fn c18_prove(c: &mut Case) {
    // a satisfying assignment of a false equation as a real proof
    let e = any_equation(c);
    let v = tagged_values(&mut c.rng, &e);
    if e.difference(&v).is_zero() {
        c.eval_trivial();
        return;
    }
    let text = e.text(&mut c.rng);
    let Some((s, st)) = analyse(c, &e, &text) else { return };
    let mut x = s.start(&v);
    if s.system.complete(&mut x, &mut c.rng).is_err() {
        c.eval(("no solution", &text));
        return;
    }
    let mut forged = st.clone();
    for col in 0..3 {
        let e: Vec<Fr> = (0..s.system.n)
            .map(|r| x[s.system.cycle[r][col]].unwrap())
            .collect();
        forged.f[col] =
            ark_poly::Evaluations::from_vec_and_domain(e, st.domain()).interpolate();
    }
    c.eval(("forged", &text));
    let strings = strings(&mut c.rng, st.size);
    let r = guard(|| {
        let p = generate_proof::<Sha256>(&forged.build(), strings.srs.clone());
        verify::<Sha256>(&st.build(), strings.srs.clone(), p)
    });
    if matches!(r, Ok(Ok(()))) {
        c.count("accepted proofs of false equations");
        c.violation(
            if s.results.is_empty() {
                "false-equation-proved"
            } else {
                FREE_RESULT
            },
            format!("accepted proof of '{text}' with {}", show(&v)),
        );
    }
}

// ---------------------------------------------------------------- C19

pub fn preprocessed(text: &str, srs: &Srs) -> Result<CommonPreprocessedInput, String> {
    match guard(|| {
        CPIGenerator::default()
            .compute_common_preprocessed_input(text, KzgScheme::new(srs.clone()))
    }) {
        Ok(r) => r,
        Err(p) => Err(format!("{p:?}")),
    }
}

fn c19_random(c: &mut Case) {
    let e = any_equation(c);
    both_sides(c, e)
}

fn c19_long(c: &mut Case) {
    let e = long_equation(&mut c.rng);
    both_sides(c, e)
}

fn both_sides(c: &mut Case, e: Equation) {
    let text = e.text(&mut c.rng);
    c.sample(|| text.clone());
    let (v, w) = (random_values(&mut c.rng, &e), tagged_values(&mut c.rng, &e));
    let a = compile(&mut c.rng, &text, &v);
    let b = compile(&mut c.rng, &text, &w);
    let (Ok(a), Ok(b)) = (&a, &b) else {
        c.violation("prover-refuses", format!("{:?} {:?} '{text}'", a.err(), b.err()));
        return;
    };
    c.eval(&text);
    c.maximum("circuit size", a.size as u64);
    c.check(
        a.size == b.size && a.q == b.q && a.sigma == b.sigma && a.k == b.k,
        "circuit-depends-on-values",
        || format!("'{text}' with {} and {}", show(&v), show(&w)),
    );
    let st = strings(&mut c.rng, a.size);
    let cpi = match preprocessed(&text, &st.srs) {
        Ok(x) => x,
        Err(e) => {
            c.violation("verifier-refuses", format!("{e} '{text}'"));
            return;
        }
    };
    c.check(cpi.n == a.size, "size", || format!("{} {} '{text}'", cpi.n, a.size));
    c.check([cpi.k1, cpi.k2] == a.k, "coset-factors", || text.clone());
    c.check(cpi.pi_x == a.q[5], "public-inputs", || text.clone());
    let got = [
        &cpi.com_q_lx,
        &cpi.com_q_rx,
        &cpi.com_q_ox,
        &cpi.com_q_mx,
        &cpi.com_q_cx,
    ];
    for i in 0..5 {
        c.check(
            got[i].0 == g1(horner(&a.q[i].coeffs, st.s)),
            &format!("selector:{}", Q_NAMES[i]),
            || text.clone(),
        );
    }
    let got = [&cpi.com_s_sigma_1, &cpi.com_s_sigma_2, &cpi.com_s_sigma_3];
    for i in 0..3 {
        c.check(
            got[i].0 == g1(horner(&a.sigma[i].coeffs, st.s)),
            &format!("permutation:{}", i + 1),
            || text.clone(),
        );
    }
}

fn c19_proof(c: &mut Case) {
    // the verifier builds its own circuit, not knowing the values
    let mut e = any_equation(c);
    let mut v = random_values(&mut c.rng, &e);
    make_true(&mut c.rng, &mut e, &mut v);
    let text = e.text(&mut c.rng);
    let w = tagged_values(&mut c.rng, &e);
    let (Ok(a), Ok(b)) = (compile(&mut c.rng, &text, &v), compile(&mut c.rng, &text, &w)) else {
        c.violation("prover-refuses", text);
        return;
    };
    let st = strings(&mut c.rng, a.size);
    c.eval((&text, show(&v)));
    let r = guard(|| {
        let p = generate_proof::<Sha256>(&a.build(), st.srs.clone());
        verify::<Sha256>(&b.build(), st.srs.clone(), p)
    });
    c.check(matches!(r, Ok(Ok(()))), "own-circuit-rejects", || {
        format!("{r:?} '{text}' with {}", show(&v))
    });
}

// ---------------------------------------------------------------- C20

/// A value for everything the text could be read to name
fn greedy_parser(text: &str) -> Parser {
    let mut p = Parser::default();
    let lower = text.to_lowercase();
    let flat: String = lower.chars().filter(|c| !c.is_whitespace()).collect();
    for t in [&lower, &flat] {
        for seps in [
            &['+', '*', '=', '^', '-', '/', '(', ')', ' '][..],
            &['+', '*', '=', '^', '-'],
            &['+', '*', '='],
            &['+', '*', '=', '^'],
            &['='],
        ] {
            for w in t.split(seps) {
                for w in [w, w.trim()] {
                    p.add_witness(w, Fr::from(5u64));
                    p.add_witness(w.trim_start_matches('-'), Fr::from(5u64));
                    p.add_witness(w.trim_start_matches(|c: char| c.is_numeric()), Fr::from(5u64));
                }
            }
        }
    }
    p
}

fn must_refuse(c: &mut Case, text: &str, why: &str) {
    c.eval(text);
    c.distinct("kinds of bad text", why);
    let p = greedy_parser(text);
    match guard(|| p.parse(text).compile()) {
        Ok(Ok(_)) => c.violation(
            &format!("prover-accepts:{why}"),
            format!("'{text}' is compiled"),
        ),
        Ok(Err(_)) => c.count("refused by the prover"),
        Err(pa) => {
            c.check(
                !pa.is_instrumentation() || !pa.msg.contains("overflow"),
                "fault",
                || format!("{pa:?} '{text}'"),
            );
            c.count("refused by the prover")
        }
    }
    let srs = small_srs();
    match guard(|| {
        CPIGenerator::default().compute_common_preprocessed_input(text, KzgScheme::new(srs))
    }) {
        Ok(Ok(_)) => c.violation(
            &format!("verifier-accepts:{why}"),
            format!("'{text}' is preprocessed"),
        ),
        _ => c.count("refused by the verifier"),
    }
}

fn small_srs() -> Srs {
    static S: std::sync::OnceLock<Srs> = std::sync::OnceLock::new();
    S.get_or_init(|| Srs::new_from_secret(Fr::from(77u64), 64))
        .clone()
}

fn join(t: &[String]) -> String {
    t.concat()
}

fn c20_invalid(c: &mut Case) {
    let e = random_equation(&mut c.rng, 3, 2);
    let mut t = e.tokens();
    let rng = &mut c.rng;
    let is_op = |s: &str| ["+", "*", "=", "^", "-"].contains(&s);
    let eq = t.iter().position(|x| x == "=").unwrap();
    let atoms: Vec<usize> = (0..t.len())
        .filter(|i| !is_op(&t[*i]) && (*i == 0 || t[*i - 1] != "^"))
        .collect();
    let names: Vec<usize> = atoms
        .iter()
        .copied()
        .filter(|i| !t[*i].starts_with(|c: char| c.is_numeric()))
        .collect();
    let atom = *atoms.choose(rng).unwrap();
    let any_name = NAMES.choose(rng).unwrap().to_string();
    // the end of the factor the atom belongs to
    let end = if t.get(atom + 1).map(|x| x == "^").unwrap_or(false) {
        atom + 3
    } else {
        atom + 1
    };
    let spaced = |t: &[String]| t.join(" ");
    let (why, text): (&str, String) = match rng.gen_range(0..34) {
        0 => {
            t[eq] = "+".into();
            ("no equality", join(&t))
        }
        1 => {
            let at = rng.gen_range(0..=t.len());
            t.insert(at, "=".into());
            ("two equalities", join(&t))
        }
        2 => {
            t.push("=".into());
            t.push(any_name);
            ("two equalities", join(&t))
        }
        3 => ("empty left side", join(&t[eq..])),
        4 => ("empty right side", join(&t[..=eq])),
        5 => {
            t.insert(end, "+".into());
            t.insert(end, "+".into());
            t.insert(end + 2, any_name);
            ("doubled plus", join(&t))
        }
        6 => {
            t.insert(end, any_name);
            t.insert(end, "*".into());
            t.insert(end, "*".into());
            ("doubled times", join(&t))
        }
        7 => {
            t.insert(0, "+".into());
            ("leading plus", join(&t))
        }
        8 => {
            t.insert(eq, "+".into());
            ("trailing plus", join(&t))
        }
        9 => {
            t.insert(end, "*".into());
            if t.get(end + 1).is_some_and(|x| x == "*") {
                ("doubled times", join(&t))
            } else {
                ("trailing times", join(&t))
            }
        }
        10 => {
            t.insert(end, any_name);
            t.insert(end, "-".into());
            ("subtraction", join(&t))
        }
        11 => {
            t.insert(end, "3".into());
            t.insert(end, "-".into());
            ("subtraction", join(&t))
        }
        12 => {
            t.insert(end, any_name);
            t.insert(end, "/".into());
            ("division", join(&t))
        }
        13 => {
            t.insert(end, "2".into());
            t.insert(end, "/".into());
            ("division", join(&t))
        }
        14 => {
            t.insert(end, ")".into());
            t.insert(atom, "(".into());
            ("parentheses", join(&t))
        }
        15 => {
            t.insert(eq, ")".into());
            t.insert(0, "(".into());
            ("parentheses", join(&t))
        }
        16 => {
            t.insert(end, "^".into());
            ("exponent missing", join(&t))
        }
        17 => {
            t[atom].push_str("^x");
            if end > atom + 1 {
                return;
            }
            ("variable exponent", join(&t))
        }
        18 => {
            if end > atom + 1 {
                return;
            }
            t[atom].push_str("^-2");
            ("negative exponent", join(&t))
        }
        19 => {
            if end > atom + 1 {
                return;
            }
            t[atom].push_str("^1.5");
            ("fractional exponent", join(&t))
        }
        20 => {
            if end > atom + 1 {
                return;
            }
            t[atom].push_str("^2^2");
            ("exponent of an exponent", join(&t))
        }
        21 => {
            t[atom] = "^2".into();
            if end > atom + 1 {
                t.drain(atom + 1..end);
            }
            ("base missing", join(&t))
        }
        22 => {
            t[atom] = (rng.gen_range(1u64 << 31..u64::MAX)).to_string();
            ("large constant", join(&t))
        }
        23 => {
            t[atom] = format!("{}{}", rng.gen_range(1u64..9), "0".repeat(rng.gen_range(10..90)));
            ("large constant", join(&t))
        }
        24 => {
            // 2147483648 is one too many
            t[atom] = ["2147483648", "4294967296", "4294967299", "18446744073709551617"]
                .choose(rng)
                .unwrap()
                .to_string();
            ("large constant", join(&t))
        }
        25 => {
            t[atom] = format!("{}{any_name}", rng.gen_range(0..99));
            ("number before a name", join(&t))
        }
        26 => {
            t[atom] = format!("{}.{}", rng.gen_range(0..9), rng.gen_range(0..9));
            ("decimal", join(&t))
        }
        27 => {
            let Some(i) = names.choose(rng) else { return };
            t[*i] = format!("{} {any_name}", t[*i]);
            ("names side by side", spaced(&t))
        }
        28 => {
            t[atom] = format!("{} {}", rng.gen_range(1..99), rng.gen_range(0..99));
            ("numbers side by side", spaced(&t))
        }
        29 => {
            t[atom] = format!("{any_name} {}", rng.gen_range(0..99));
            ("name and number side by side", spaced(&t))
        }
        30 => {
            let ch = *['@', '#', '%', '&', ';', ',', '.', '!', '<', '>', '|', '[', '{', '~', ':', '"', '$', '\\']
                .choose(rng)
                .unwrap();
            let at = rng.gen_range(0..=t[atom].len());
            t[atom].insert(at, ch);
            ("stray character", join(&t))
        }
        31 => (
            "nothing",
            ["", " ", "=", "==", "+", "*", "x", "3", "x+y", "-", "-=-", "^=^", "*=*", "+=+"]
                .choose(rng)
                .unwrap()
                .to_string(),
        ),
        32 => {
            t[atom] = "-".into();
            if end > atom + 1 {
                return;
            }
            ("sign alone", join(&t))
        }
        _ => {
            t[eq] = ["==", "!=", "<=", ">=", ":=", "=>"].choose(rng).unwrap().to_string();
            ("another relation", join(&t))
        }
    };
    c.sample(|| format!("{why}: '{text}'"));
    must_refuse(c, &text, why);
}

fn c20_missing(c: &mut Case) {
    let e = random_equation(&mut c.rng, 4, 3);
    let used = e.used();
    let Some(x) = used.choose(&mut c.rng) else {
        return;
    };
    let mut v = random_values(&mut c.rng, &e);
    v.remove(x);
    // a similar name does not help
    v.insert(format!("{x}x"), Fr::one());
    v.insert(format!("{x}{x}{x}"), Fr::one());
    v.insert(format!("{x}*{x}"), Fr::one());
    let text = e.text(&mut c.rng);
    c.sample(|| format!("'{text}' without {x}"));
    c.eval((&text, x));
    if e.vars().iter().any(|y| v.get(x).is_some() && y == x) {
        return;
    }
    match compile(&mut c.rng, &text, &v) {
        Ok(_) => c.violation("missing-value-accepted", format!("'{text}' without {x}")),
        Err(_) => c.count("refused without a value"),
    }
    // and nothing at all
    if !used.is_empty() {
        match compile(&mut c.rng, &text, &Values::new()) {
            Ok(_) => c.violation("missing-value-accepted", format!("'{text}' without any")),
            Err(_) => c.count("refused without a value"),
        }
    }
}

/// The refusals do not take valid text along.
fn c20_valid(c: &mut Case) {
    let e = any_equation(c);
    let text = e.text(&mut c.rng);
    let v = random_values(&mut c.rng, &e);
    c.eval(&text);
    let r = compile(&mut c.rng, &text, &v);
    c.check(r.is_ok(), "valid-refused-by-prover", || {
        format!("{:?} '{text}'", r.err())
    });
    let r = guard(|| {
        CPIGenerator::default()
            .compute_common_preprocessed_input(&text, KzgScheme::new(Srs::new_from_secret(Fr::from(3u64), 128)))
            .map(|x| x.n)
    });
    if c.idx % 8 == 0 {
        c.check(matches!(r, Ok(Ok(_))), "valid-refused-by-verifier", || {
            format!("{r:?} '{text}'")
        });
    }
}
