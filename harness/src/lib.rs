//! Analysis roots: one function per public operation (and per operator variant)
//! of the crate, written against the public API only. Never executed.
#![allow(clippy::all)]
use ed448_goldilocks::curve::edwards::{CompressedEdwardsY, ExtendedPoint};
use ed448_goldilocks::curve::montgomery::MontgomeryPoint;
use ed448_goldilocks::decaf::{CompressedDecaf, DecafPoint};
use ed448_goldilocks::ristretto::{CompressedRistretto, RistrettoPoint};
use ed448_goldilocks::Scalar;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq};

type P = ExtendedPoint;
type S = Scalar;
type M = MontgomeryPoint;
type D = DecafPoint;

// ---- Edwards group -------------------------------------------------------
pub fn e_identity() -> P { P::identity() }
pub fn e_default() -> P { P::default() }
pub fn e_generator() -> P { P::generator() }
pub fn e_add_rr(a: &P, b: &P) -> P { a + b }
pub fn e_add_rv(a: &P, b: P) -> P { a + b }
pub fn e_add_vr(a: P, b: &P) -> P { a + b }
pub fn e_add_vv(a: P, b: P) -> P { a + b }
pub fn e_add_m(a: &P, b: &P) -> P { a.add(b) }
pub fn e_adda_r(a: &mut P, b: &P) { *a += b }
pub fn e_adda_v(a: &mut P, b: P) { *a += b }
pub fn e_sub_rr(a: &P, b: &P) -> P { a - b }
pub fn e_sub_rv(a: &P, b: P) -> P { a - b }
pub fn e_sub_vr(a: P, b: &P) -> P { a - b }
pub fn e_sub_vv(a: P, b: P) -> P { a - b }
pub fn e_suba_r(a: &mut P, b: &P) { *a -= b }
pub fn e_suba_v(a: &mut P, b: P) { *a -= b }
pub fn e_neg_r(a: &P) -> P { -a }
pub fn e_neg_v(a: P) -> P { -a }
pub fn e_negate(a: &P) -> P { a.negate() }
pub fn e_double(a: &P) -> P { a.double() }
pub fn e_torque(a: &P) -> P { a.torque() }
pub fn e_sum_v(a: P, b: P, c: P) -> P { [a, b, c].iter().map(|x| *x).sum() }
pub fn e_sum_r(a: P, b: P, c: P) -> P { [a, b, c].iter().sum() }
pub fn e_sum_0() -> P { let v: [P; 0] = []; v.iter().sum() }
pub fn e_ct_eq(a: &P, b: &P) -> Choice { a.ct_eq(b) }
pub fn e_eq(a: &P, b: &P) -> bool { a == b }
pub fn e_select(a: &P, b: &P, c: Choice) -> P { P::conditional_select(a, b, c) }
pub fn e_cassign(a: &mut P, b: &P, c: Choice) { a.conditional_assign(b, c) }
pub fn e_cswap(a: &mut P, b: &mut P, c: Choice) { P::conditional_swap(a, b, c) }
pub fn e_torsion_free(a: &P) -> bool { a.is_torsion_free() }
pub fn e_affine_rt(a: &P) -> P { a.to_affine().to_extended() }
pub fn e_isogeny_rt(a: &P) -> P { a.to_twisted().to_untwisted() }
pub fn e_twisted_neg(a: &P) -> P { a.to_twisted().negate().to_untwisted() }
pub fn e_compress(a: &P) -> [u8; 57] { a.compress().0 }
pub fn e_decompress(b: [u8; 57]) -> Option<P> { CompressedEdwardsY(b).decompress() }
// ---- Edwards scalar multiplication ----------------------------------------
pub fn e_smul(a: &P, s: &S) -> P { a.scalar_mul(s) }
pub fn e_mul_rr(a: &P, s: &S) -> P { a * s }
pub fn e_mul_rv(a: &P, s: S) -> P { a * s }
pub fn e_mul_vr(a: P, s: &S) -> P { a * s }
pub fn e_mul_vv(a: P, s: S) -> P { a * s }
pub fn e_lmul_rr(a: &P, s: &S) -> P { s * a }
pub fn e_lmul_rv(a: P, s: &S) -> P { s * a }
pub fn e_lmul_vr(a: &P, s: S) -> P { s * a }
pub fn e_lmul_vv(a: P, s: S) -> P { s * a }
pub fn e_mula_r(a: &mut P, s: &S) { *a *= s }
pub fn e_mula_v(a: &mut P, s: S) { *a *= s }
pub fn e_mod_four(a: &P, s: &S) -> P { a.scalar_mod_four(s) }
// ---- Montgomery ------------------------------------------------------------
pub fn e_to_montgomery(a: &P) -> [u8; 56] { a.to_montgomery().0 }
pub fn m_mul_rr(b: [u8; 56], s: &S) -> [u8; 56] { (&MontgomeryPoint(b) * s).0 }
pub fn m_lmul_rr(b: [u8; 56], s: &S) -> [u8; 56] { (s * &MontgomeryPoint(b)).0 }
pub fn m_low_order(b: [u8; 56]) -> bool { MontgomeryPoint(b).is_low_order() }
pub fn m_generator() -> [u8; 56] { M::generator().0 }
pub fn m_proj_rt(b: [u8; 56]) -> [u8; 56] { MontgomeryPoint(b).to_projective().to_affine().0 }
pub fn m_as_bytes(b: &M) -> &[u8; 56] { b.as_bytes() }
pub fn m_eq(a: &M, b: &M) -> bool { a == b }
pub fn m_ct_eq(a: &M, b: &M) -> Choice { a.ct_eq(b) }
pub fn m_pselect(a: [u8; 56], b: [u8; 56], c: Choice) -> [u8; 56] {
    let mut x = MontgomeryPoint(a).to_projective();
    x.conditional_assign(&MontgomeryPoint(b).to_projective(), c);
    x.to_affine().0
}
#[cfg(feature = "zeroize")]
pub fn m_zeroize(a: &mut M) { zeroize::Zeroize::zeroize(a) }
// ---- Scalars ---------------------------------------------------------------
pub fn s_zero() -> S { S::zero() }
pub fn s_one() -> S { S::one() }
pub fn s_default() -> S { S::default() }
pub fn s_from_u32(a: u32) -> S { S::from(a) }
pub fn s_add(a: S, b: S) -> S { a + b }
pub fn s_sub(a: S, b: S) -> S { a - b }
pub fn s_mul(a: S, b: S) -> S { a * b }
pub fn s_halve(a: &S) -> S { a.halve() }
pub fn s_invert(a: &S) -> S { a.invert() }
pub fn s_eq(a: &S, b: &S) -> bool { a == b }
pub fn s_ct_eq(a: &S, b: &S) -> Choice { a.ct_eq(b) }
pub fn s_bits(a: &S) -> Vec<bool> { a.bits() }
pub fn s_from_bytes(b: [u8; 56]) -> S { S::from_bytes(b) }
pub fn s_to_bytes(a: &S) -> [u8; 56] { a.to_bytes() }
pub fn s_to_rfc(a: &S) -> [u8; 57] { a.to_bytes_rfc_8032() }
pub fn s_from_canonical(b: [u8; 57]) -> Option<S> { S::from_canonical_bytes(b) }
pub fn s_from_wide(b: &[u8; 114]) -> S { S::from_bytes_mod_order_wide(b) }
pub fn s_index(a: &S, i: usize) -> u32 { a[i] }
pub fn s_index_mut(a: &mut S, i: usize, v: u32) { a[i] = v }
#[cfg(feature = "rand")]
pub struct TapeRng<'a>(pub &'a [u8; 114]);
#[cfg(feature = "rand")]
impl<'a> rand_core::RngCore for TapeRng<'a> {
    fn next_u32(&mut self) -> u32 { unimplemented!() }
    fn next_u64(&mut self) -> u64 { unimplemented!() }
    fn fill_bytes(&mut self, dest: &mut [u8]) { rng_fill(dest) }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand_core::Error> { rng_fill(dest); Ok(()) }
}
#[cfg(feature = "rand")]
impl<'a> rand_core::CryptoRng for TapeRng<'a> {}
/// Havoc marker: the analyser gives every byte of `dest` a fresh unconstrained value.
#[cfg(feature = "rand")]
#[inline(never)]
pub fn rng_fill(dest: &mut [u8]) { for b in dest.iter_mut() { *b = 0 } }
#[cfg(feature = "rand")]
pub fn s_random(t: &[u8; 114]) -> S { let mut r = TapeRng(t); S::random(&mut r) }
// ---- Decaf -----------------------------------------------------------------
pub fn d_identity() -> D { D::identity() }
pub fn d_generator() -> D { D::generator() }
pub fn d_equals(a: &D, b: &D) -> bool { a.equals(b) }
pub fn d_add_rr(a: &D, b: &D) -> D { a + b }
pub fn d_add_vv(a: D, b: D) -> D { a + b }
pub fn d_sub_rr(a: &D, b: &D) -> D { a - b }
pub fn d_sub_vv(a: D, b: D) -> D { a - b }
pub fn d_sub_m(a: &D, b: &D) -> D { a.sub(b) }
pub fn d_neg_r(a: &D) -> D { -a }
pub fn d_neg_v(a: D) -> D { -a }
pub fn d_mul_rr(a: &D, s: &S) -> D { a * s }
pub fn d_mul_vv(a: D, s: S) -> D { a * s }
pub fn d_lmul_rr(a: &D, s: &S) -> D { s * a }
pub fn d_lmul_vv(a: D, s: S) -> D { s * a }
pub fn d_compress(a: &D) -> [u8; 56] { a.compress().0 }
pub fn d_decompress(b: [u8; 56]) -> Option<D> { CompressedDecaf(b).decompress() }
pub fn dc_identity() -> [u8; 56] { CompressedDecaf::identity().0 }
pub fn dc_as_bytes(a: &CompressedDecaf) -> &[u8] { a.as_bytes() }
pub fn dc_eq(a: &CompressedDecaf, b: &CompressedDecaf) -> bool { a == b }
pub fn dc_ct_eq(a: &CompressedDecaf, b: &CompressedDecaf) -> Choice { a.ct_eq(b) }
// ---- Ristretto ---------------------------------------------------------------
pub fn r_identity() -> RistrettoPoint { RistrettoPoint::identity() }
pub fn r_equals(a: &RistrettoPoint, b: &RistrettoPoint) -> bool { a.equals(b) }
pub fn rc_identity() -> CompressedRistretto { CompressedRistretto::identity() }
pub fn rc_eq(a: &CompressedRistretto, b: &CompressedRistretto) -> bool { a == b }
pub fn rc_as_bytes(a: &CompressedRistretto) -> &[u8] { a.as_bytes() }
// ---- unfinished API (declared, not implemented upstream) ----------------------
pub fn todo_m_to_edwards(a: &M) -> Option<P> { a.to_edwards(0) }
pub fn todo_r_encode(a: &RistrettoPoint) -> CompressedRistretto { a.encode() }
pub fn todo_rc_decode(a: &CompressedRistretto) -> Option<RistrettoPoint> { a.decode() }
