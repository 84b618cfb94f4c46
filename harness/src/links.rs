//! User-defined links: the public extension interface of the crate, exercised by the sessions.
use ndarray::Array1;
use ndarray_glm::{link::{Link, Transform}, num::Float, Linear, Logistic, Poisson};
use num_traits::Float as NF;

/// mu = omega^3 for the linear family; eta' vanishes at zero.
pub struct Cube;
impl Link<Linear<Cube>> for Cube {
    fn func<F: Float>(y: F) -> F { NF::cbrt(y) }
    fn func_inv<F: Float>(o: F) -> F { o * o * o }
}
impl Transform for Cube {
    fn nat_param<F: Float>(l: Array1<F>) -> Array1<F> { l.mapv(|o| o * o * o) }
    fn d_nat_param<F: Float>(l: &Array1<F>) -> Array1<F> { l.mapv(|o| F::from(3.).unwrap() * o * o) }
}
/// mu = sinh(omega) for the linear family: Fisher scoring overshoots.
pub struct Slinh;
impl Link<Linear<Slinh>> for Slinh {
    fn func<F: Float>(y: F) -> F { NF::signum(y) * NF::ln(NF::abs(y) + NF::sqrt(F::one() + y * y)) }
    fn func_inv<F: Float>(o: F) -> F { F::half() * (NF::exp(o) - NF::exp(-o)) }
}
impl Transform for Slinh {
    fn nat_param<F: Float>(l: Array1<F>) -> Array1<F> { l.mapv(|o| F::half() * (NF::exp(o) - NF::exp(-o))) }
    fn d_nat_param<F: Float>(l: &Array1<F>) -> Array1<F> { l.mapv(|o| F::half() * (NF::exp(o) + NF::exp(-o))) }
}
/// The logit, written as a user would.
pub struct LogitU;
impl Link<Logistic<LogitU>> for LogitU {
    fn func<F: Float>(y: F) -> F { NF::ln(y) - NF::ln(F::one() - y) }
    fn func_inv<F: Float>(o: F) -> F { if o > F::zero() { F::one() / (F::one() + NF::exp(-o)) } else { NF::exp(o) / (F::one() + NF::exp(o)) } }
}
impl Transform for LogitU {
    fn nat_param<F: Float>(l: Array1<F>) -> Array1<F> { l }
    fn d_nat_param<F: Float>(l: &Array1<F>) -> Array1<F> { Array1::ones(l.len()) }
}
/// The log, written as a user would.
pub struct LogU;
impl Link<Poisson<LogU>> for LogU {
    fn func<F: Float>(y: F) -> F { NF::ln(y) }
    fn func_inv<F: Float>(o: F) -> F { NF::exp(o) }
}
impl Transform for LogU {
    fn nat_param<F: Float>(l: Array1<F>) -> Array1<F> { l }
    fn d_nat_param<F: Float>(l: &Array1<F>) -> Array1<F> { Array1::ones(l.len()) }
}
/// The square-root link of the crate's documentation.
pub struct Sqrt;
impl Link<Poisson<Sqrt>> for Sqrt {
    fn func<F: Float>(mu: F) -> F { NF::sqrt(mu) }
    fn func_inv<F: Float>(o: F) -> F { o * o }
}
impl Transform for Sqrt {
    fn nat_param<F: Float>(l: Array1<F>) -> Array1<F> { l.mapv(|w| F::two() * NF::ln(w)) }
    fn d_nat_param<F: Float>(l: &Array1<F>) -> Array1<F> { l.mapv(|w| F::two() / w) }
}
