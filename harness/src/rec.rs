//! Hash functions that record every byte string they hash and its digest, for the two versions of
//! the `digest` traits used in the workspace. The log is per thread.
use std::cell::RefCell;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Entry {
    pub input: Vec<u8>,
    pub output: Vec<u8>,
}

thread_local! {
    static LOG: RefCell<Vec<Entry>> = const { RefCell::new(vec![]) };
}

/// Runs `f` and returns what it hashed.
pub fn recorded<R>(f: impl FnOnce() -> R) -> (R, Vec<Entry>) {
    LOG.with(|l| l.borrow_mut().clear());
    let r = f();
    (r, LOG.with(|l| std::mem::take(&mut *l.borrow_mut())))
}

fn push(input: Vec<u8>, output: Vec<u8>) {
    LOG.with(|l| {
        let mut l = l.borrow_mut();
        // a runaway workload must not take all the memory
        if l.len() < 200_000 {
            l.push(Entry { input, output })
        }
    });
}

pub fn seed_of(output: &[u8]) -> u64 {
    let mut s = [0u8; 8];
    s.copy_from_slice(&output[..8]);
    u64::from_le_bytes(s)
}

/// For `digest` 0.10 (plonk, nova)
#[derive(Clone, Default)]
pub struct Rec10 {
    data: Vec<u8>,
}

mod impl10 {
    use super::{push, Rec10};
    use digest::{FixedOutput, FixedOutputReset, HashMarker, Output, OutputSizeUser, Reset, Update};

    impl OutputSizeUser for Rec10 {
        type OutputSize = digest::consts::U32;
    }
    impl HashMarker for Rec10 {}
    impl Update for Rec10 {
        fn update(&mut self, data: &[u8]) {
            self.data.extend_from_slice(data)
        }
    }
    impl Reset for Rec10 {
        fn reset(&mut self) {
            self.data.clear()
        }
    }
    impl FixedOutput for Rec10 {
        fn finalize_into(self, out: &mut Output<Self>) {
            let h: [u8; 32] = <sha2::Sha256 as digest::Digest>::digest(&self.data).into();
            out.copy_from_slice(&h);
            push(self.data, h.to_vec());
        }
    }
    impl FixedOutputReset for Rec10 {
        fn finalize_into_reset(&mut self, out: &mut Output<Self>) {
            FixedOutput::finalize_into(std::mem::take(self), out)
        }
    }
    impl std::io::Write for Rec10 {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
            self.data.extend_from_slice(b);
            Ok(b.len())
        }
        fn flush(&mut self) -> std::io::Result<()> {
            Ok(())
        }
    }
}

/// For `digest` 0.11 (fri)
#[derive(Clone, Default)]
pub struct Rec11 {
    data: Vec<u8>,
}

mod impl11 {
    use super::{push, Rec11};
    use digest_11::{
        FixedOutput, FixedOutputReset, HashMarker, Output, OutputSizeUser, Reset, Update,
    };

    impl OutputSizeUser for Rec11 {
        type OutputSize = digest_11::consts::U32;
    }
    impl HashMarker for Rec11 {}
    impl Update for Rec11 {
        fn update(&mut self, data: &[u8]) {
            self.data.extend_from_slice(data)
        }
    }
    impl Reset for Rec11 {
        fn reset(&mut self) {
            self.data.clear()
        }
    }
    impl FixedOutput for Rec11 {
        fn finalize_into(self, out: &mut Output<Self>) {
            let h: [u8; 32] = <sha2_11::Sha256 as digest_11::Digest>::digest(&self.data).into();
            out.copy_from_slice(&h);
            push(self.data, h.to_vec());
        }
    }
    impl FixedOutputReset for Rec11 {
        fn finalize_into_reset(&mut self, out: &mut Output<Self>) {
            FixedOutput::finalize_into(std::mem::take(self), out)
        }
    }
}

/// The first `n` field elements drawn from the generator seeded with a digest.
pub fn draws<F: ark_ff::PrimeField>(output: &[u8], n: usize) -> Vec<F> {
    use rand::SeedableRng;
    let mut rng = rand::rngs::StdRng::seed_from_u64(seed_of(output));
    (0..n).map(|_| F::rand(&mut rng)).collect()
}

thread_local! {
    static MASK: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

/// Which byte of the digests of `Mask10` is not zero
pub fn set_mask(byte: usize) {
    MASK.with(|m| m.set(byte))
}

/// A hash function with a single byte of output, the others zero.
#[derive(Clone, Default)]
pub struct Mask10 {
    data: Vec<u8>,
}

mod mask10 {
    use super::{Mask10, MASK};
    use digest::{FixedOutput, FixedOutputReset, HashMarker, Output, OutputSizeUser, Reset, Update};

    impl OutputSizeUser for Mask10 {
        type OutputSize = digest::consts::U32;
    }
    impl HashMarker for Mask10 {}
    impl Update for Mask10 {
        fn update(&mut self, data: &[u8]) {
            self.data.extend_from_slice(data)
        }
    }
    impl Reset for Mask10 {
        fn reset(&mut self) {
            self.data.clear()
        }
    }
    impl FixedOutput for Mask10 {
        fn finalize_into(self, out: &mut Output<Self>) {
            let h: [u8; 32] = <sha2::Sha256 as digest::Digest>::digest(&self.data).into();
            let k = MASK.with(|m| m.get());
            out.fill(0);
            out[k] = h[k];
        }
    }
    impl FixedOutputReset for Mask10 {
        fn finalize_into_reset(&mut self, out: &mut Output<Self>) {
            FixedOutput::finalize_into(std::mem::take(self), out)
        }
    }
    impl std::io::Write for Mask10 {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
            self.data.extend_from_slice(b);
            Ok(b.len())
        }
        fn flush(&mut self) -> std::io::Result<()> {
            Ok(())
        }
    }
}

/// The same for `digest` 0.11
#[derive(Clone, Default)]
pub struct Mask11 {
    data: Vec<u8>,
}

mod mask11 {
    use super::{Mask11, MASK};
    use digest_11::{FixedOutput, FixedOutputReset, HashMarker, Output, OutputSizeUser, Reset, Update};

    impl OutputSizeUser for Mask11 {
        type OutputSize = digest_11::consts::U32;
    }
    impl HashMarker for Mask11 {}
    impl Update for Mask11 {
        fn update(&mut self, data: &[u8]) {
            self.data.extend_from_slice(data)
        }
    }
    impl Reset for Mask11 {
        fn reset(&mut self) {
            self.data.clear()
        }
    }
    impl FixedOutput for Mask11 {
        fn finalize_into(self, out: &mut Output<Self>) {
            let h: [u8; 32] = <sha2_11::Sha256 as digest_11::Digest>::digest(&self.data).into();
            let k = MASK.with(|m| m.get());
            out.fill(0);
            out[k] = h[k];
        }
    }
    impl FixedOutputReset for Mask11 {
        fn finalize_into_reset(&mut self, out: &mut Output<Self>) {
            FixedOutput::finalize_into(std::mem::take(self), out)
        }
    }
}
