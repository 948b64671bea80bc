//! Shared generators and oracles.
use ark_bls12_381::{Fr, G1Affine, G1Projective};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{BigInteger, One, PrimeField, UniformRand};
use ark_poly::univariate::DensePolynomial;
use ark_poly::DenseUVPolynomial;
use kzg::commitment::KzgCommitment;
use kzg::opening::KzgOpening;
use rand::rngs::StdRng;
use rand::Rng;

pub type Poly = DensePolynomial<Fr>;

pub fn any_field<F: PrimeField>(rng: &mut StdRng) -> F {
    match rng.gen_range(0..12) {
        0 => F::zero(),
        1 => F::one(),
        2 => -F::one(),
        3 => F::from(rng.gen_range(2u64..20)),
        4 => F::from(2u64).pow([rng.gen_range(0u64..64)]),
        5 => -F::from(rng.gen_range(2u64..20)),
        // one bit anywhere, and nothing in the lower limbs
        6 => F::from(2u64).pow([rng.gen_range(0..F::MODULUS_BIT_SIZE as u64)]),
        7 => high_bits(rng),
        _ => F::rand(rng),
    }
}

/// A value with nothing in its lower 64-bit limbs, however many they are
fn high_bits<F: PrimeField>(rng: &mut StdRng) -> F {
    let mut bytes = F::rand(rng).into_bigint().to_bytes_le();
    let limbs = (F::MODULUS_BIT_SIZE as usize - 1) / 64;
    let keep = 8 * rng.gen_range(0..=limbs);
    bytes[..keep].fill(0);
    F::from_le_bytes_mod_order(&bytes)
}

pub fn any_fr(rng: &mut StdRng) -> Fr {
    any_field(rng)
}

pub fn rand_fr(rng: &mut StdRng) -> Fr {
    Fr::rand(rng)
}

pub fn nonzero<F: PrimeField>(rng: &mut StdRng) -> F {
    loop {
        let x = any_field::<F>(rng);
        if !x.is_zero() {
            return x;
        }
    }
}

/// Another value: mostly `x + d`, but for some `d` one that depends on the value itself (its
/// negative, zero, its double), since a wrong comparison may take these for equal
pub fn shift<F: PrimeField>(x: &mut F, d: F) {
    let special = if x.is_zero() {
        None
    } else if d == -F::one() {
        Some(-*x)
    } else if d == F::one() {
        Some(F::zero())
    } else if d.into_bigint() < F::from(20u64).into_bigint() {
        Some(x.double())
    } else {
        None
    };
    *x = special.unwrap_or(*x + d);
}

/// Another point: mostly `p + d G`, for some `d` the negative, nothing or the double
pub fn shift_point(p: G1Affine, d: Fr) -> G1Affine {
    if p.is_zero() || d.into_bigint() >= Fr::from(20u64).into_bigint() && d != -Fr::one() {
        return (p + G1Affine::generator() * d).into_affine();
    }
    match d {
        d if d == -Fr::one() => -p,
        d if d == Fr::one() => G1Affine::zero(),
        _ => (p + p).into_affine(),
    }
}

/// Coefficients of every shape: random, sparse, special values, zero and trailing zeros.
pub fn any_coeffs<F: PrimeField>(rng: &mut StdRng, max_len: usize) -> Vec<F> {
    let len = match rng.gen_range(0..6) {
        0 => 0,
        1 => 1,
        2 => max_len,
        _ => rng.gen_range(0..=max_len),
    };
    let style = rng.gen_range(0..5);
    let mut v: Vec<F> = (0..len)
        .map(|_| match style {
            0 => {
                if rng.gen_bool(0.8) {
                    F::zero()
                } else {
                    F::rand(rng)
                }
            }
            1 => any_field(rng),
            2 => F::from(rng.gen_range(0u64..3)),
            _ => F::rand(rng),
        })
        .collect();
    if style == 4 && len > 0 {
        // trailing zeros
        let n = rng.gen_range(0..=len);
        for x in v.iter_mut().skip(len - n) {
            *x = F::zero();
        }
    }
    v
}

pub fn any_poly(rng: &mut StdRng, max_len: usize) -> Poly {
    Poly::from_coefficients_vec(any_coeffs(rng, max_len))
}

/// Horner, independent of the polynomial library.
pub fn horner<F: PrimeField>(coeffs: &[F], z: F) -> F {
    let mut r = F::zero();
    for c in coeffs.iter().rev() {
        r = r * z + c;
    }
    r
}

pub fn g1(x: Fr) -> G1Affine {
    (G1Affine::generator() * x).into_affine()
}

pub fn commit_of(x: Fr) -> KzgCommitment {
    KzgCommitment(g1(x))
}

pub fn g1_proj(x: Fr) -> G1Projective {
    G1Affine::generator() * x
}

pub fn opening_of(w: Fr, y: Fr) -> KzgOpening {
    KzgOpening(g1(w), y)
}

pub fn hex<F: PrimeField>(x: &F) -> String {
    let s = x
        .into_bigint()
        .to_bytes_be()
        .iter()
        .map(|b| format!("{b:02x}"))
        .collect::<String>();
    let t = s.trim_start_matches('0');
    if t.is_empty() {
        "0".into()
    } else {
        format!("0x{t}")
    }
}

pub fn hexes<F: PrimeField>(v: &[F]) -> String {
    let s: Vec<String> = v.iter().map(hex).collect();
    format!("[{}]", s.join(", "))
}
