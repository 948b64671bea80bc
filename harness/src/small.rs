//! Searches for small secrets: lattice reduction for a known combination of them, baby steps and
//! giant steps for a group element.

use ark_bls12_381::{Fr, G1Affine, G1Projective};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{PrimeField, Zero};
use num_bigint::{BigInt, Sign};
use std::collections::HashMap;
use std::sync::OnceLock;

fn big(x: &Fr) -> BigInt {
    let limbs = x.into_bigint().0;
    let bytes: Vec<u8> = limbs.iter().flat_map(|l| l.to_le_bytes()).collect();
    BigInt::from_bytes_le(Sign::Plus, &bytes)
}

fn dot(a: &[BigInt], b: &[BigInt]) -> BigInt {
    a.iter().zip(b).map(|(x, y)| x * y).sum()
}

/// The nearest integer to a / b, b > 0
fn nearest(a: &BigInt, b: &BigInt) -> BigInt {
    let two = BigInt::from(2);
    let x = a * &two + b;
    let y = b * &two;
    // floor
    let q = &x / &y;
    if (&x % &y).sign() == Sign::Minus {
        q - 1
    } else {
        q
    }
}

/// LLL reduction with exact integers (Cohen, algorithm 2.6.7, recomputed in each step: the
/// dimension is at most four).
fn reduce(b: &mut [Vec<BigInt>]) {
    let n = b.len();
    // d[i] = product of the squared lengths, l[i][j] = d[j + 1] mu[i][j]
    let gram = |b: &[Vec<BigInt>]| {
        let mut d = vec![BigInt::from(1)];
        let mut l = vec![vec![BigInt::from(0); n]; n];
        for i in 0..n {
            for j in 0..=i {
                let mut u = dot(&b[i], &b[j]);
                for k in 0..j {
                    u = (&d[k + 1] * u - &l[i][k] * &l[j][k]) / &d[k];
                }
                l[i][j] = u;
            }
            d.push(l[i][i].clone());
        }
        (d, l)
    };
    let mut k = 1;
    while k < n {
        for j in (0..k).rev() {
            let (d, l) = gram(b);
            let q = nearest(&l[k][j], &d[j + 1]);
            for c in 0..b[k].len() {
                let y = &q * &b[j][c];
                b[k][c] -= y;
            }
        }
        let (d, l) = gram(b);
        // |b*_k|^2 >= (3/4 - mu^2) |b*_{k-1}|^2
        let left = (&d[k + 1] * &d[k - 1] + &l[k][k - 1] * &l[k][k - 1]) * 4;
        let right = &d[k] * &d[k] * 3;
        if left < right {
            b.swap(k, k - 1);
            k = (k - 1).max(1);
        } else {
            k += 1;
        }
    }
}

/// Values of at most `bits` bits, either sign, whose combination with `weights` is `sum`. The last
/// weight is 1. `None` if there are none, or if the lattice hides them.
pub fn small_combination(weights: &[Fr], sum: Fr, bits: u32) -> Option<Vec<BigInt>> {
    let n = weights.len();
    let zero = BigInt::from(0);
    let bound = BigInt::from(1) << bits;
    let mut b = vec![];
    for i in 0..n - 1 {
        let mut v = vec![zero.clone(); n + 1];
        v[i] = BigInt::from(1);
        v[n - 1] = -big(&weights[i]);
        b.push(v);
    }
    let mut v = vec![zero.clone(); n + 1];
    v[n - 1] = BigInt::from_bytes_le(Sign::Plus, &modulus());
    b.push(v);
    let mut v = vec![zero.clone(); n + 1];
    v[n - 1] = big(&sum);
    v[n] = bound.clone();
    b.push(v);
    reduce(&mut b);
    let size = |x: &BigInt| BigInt::from(x.magnitude().clone());
    b.into_iter()
        .find(|v| size(&v[n]) == bound && v[..n].iter().all(|x| size(x) < bound))
        .map(|v| v[..n].to_vec())
}

fn modulus() -> Vec<u8> {
    Fr::MODULUS.0.iter().flat_map(|l| l.to_le_bytes()).collect()
}

const BABY: u64 = 1 << 17;

fn key(p: &G1Affine) -> u64 {
    p.x.0 .0[0]
}

fn table() -> &'static (HashMap<u64, u64>, G1Projective) {
    static T: OnceLock<(HashMap<u64, u64>, G1Projective)> = OnceLock::new();
    T.get_or_init(|| {
        let g = G1Affine::generator();
        let mut x = G1Projective::zero();
        let mut all = vec![];
        for _ in 1..=BABY {
            x += g;
            all.push(x);
        }
        let step = x + x + g;
        let all = G1Projective::normalize_batch(&all);
        let t = all.iter().zip(1..).map(|(p, i)| (key(p), i)).collect();
        (t, step)
    })
}

/// The discrete logarithm if it is below 2^`bits`, in either sign
pub fn small_logarithm(p: G1Affine, bits: u32) -> Option<i128> {
    if p.infinity {
        return Some(0);
    }
    let (t, step) = table();
    let width = 2 * BABY + 1;
    let steps = (1u64 << bits) / width + 2;
    // p - j step, for either sign of j
    for sign in [1i128, -1] {
        let mut x = p.into_group();
        let mut j = 0u64;
        while j < steps {
            let n = (steps - j).min(1 << 14);
            let mut all = vec![];
            for _ in 0..n {
                all.push(x);
                if sign > 0 {
                    x -= step;
                } else {
                    x += step;
                }
            }
            for (k, y) in G1Projective::normalize_batch(&all).iter().enumerate() {
                let base = sign * (j + k as u64) as i128 * width as i128;
                let found = if y.infinity {
                    vec![base]
                } else {
                    t.get(&key(y)).map_or(vec![], |i| vec![base + *i as i128, base - *i as i128])
                };
                for r in found {
                    let e = Fr::from(r.unsigned_abs());
                    let e = if r < 0 { -e } else { e };
                    if (G1Affine::generator() * e).into_affine() == p {
                        return Some(r);
                    }
                }
            }
            j += n;
        }
    }
    None
}

/// The searches find what they are meant to find.
pub fn self_test() -> Result<(), String> {
    use ark_ff::UniformRand;
    use rand::SeedableRng;
    let rng = &mut rand::rngs::StdRng::seed_from_u64(7);
    let x = Fr::rand(rng);
    let (a, b) = (Fr::from(0x1234_5678_9abc_def0_1234u128), Fr::from(77u64));
    let found = small_combination(&[x, Fr::from(1u64)], a * x + b, 108);
    if found != Some(vec![big(&a), big(&b)]) && found != Some(vec![-big(&a), -big(&b)]) {
        return Err(format!("{found:?}"));
    }
    let c = Fr::from(u64::MAX);
    let sum = a * x * x + b * x + c;
    if small_combination(&[x * x, x, Fr::from(1u64)], sum, 80).is_none() {
        return Err("three small values".into());
    }
    if small_combination(&[x, Fr::from(1u64)], Fr::rand(rng), 108).is_some() {
        return Err("small values of a random sum".into());
    }
    for y in [1i128, -1, BABY as i128 + 1, 0xdead_beef, -0xffff_ffff] {
        let e = Fr::from(y.unsigned_abs());
        let e = if y < 0 { -e } else { e };
        let p = (G1Affine::generator() * e).into_affine();
        if small_logarithm(p, 32) != Some(y) {
            return Err(format!("logarithm {y}"));
        }
    }
    Ok(())
}
