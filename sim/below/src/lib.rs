//! What lies below the library and the simulator: what the standard library
//! gets its randomness, memory and locks from, and the calls compiled into the
//! code of both. A crate of its own, so that it is not compiled that way itself.

pub mod fine;
pub mod seam;

/// A good mixing function.
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
