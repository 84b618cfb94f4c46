//! One instance of the crate's generic API per (family, link, precision); the crate's `Glm` trait is
//! private, so the generic code is a macro.
use crate::data::Raw;
use crate::links::*;
use ndarray::{Array1, Array2, ArrayBase, Axis, Data, Ix1, Ix2, s};
use ndarray_glm::error::RegressionError;
use ndarray_glm::link::{Link, Transform};
use ndarray_glm::*;
use std::collections::BTreeMap;

pub enum Out { S(f64), V(Vec<f64>), M(Vec<Vec<f64>>) }
pub type Res<T> = Result<T, String>;

#[derive(Clone, Debug)]
pub struct Opts { pub l1: f64, pub l2: f64, pub tol: Option<f64>, pub max_iter: Option<usize>, pub init: Option<Vec<f64>>, pub via: String }

pub struct FitInfo { pub res: Vec<f64>, pub like: f64, pub n_iter: usize, pub hist: Vec<(Vec<f64>, f64)>, pub o: (f64, f64, f64, usize) }

pub struct FitErr { pub kind: String, pub n_iter: usize, pub hist: Vec<(Vec<f64>, f64)> }

/// public parts of a built data set: y, offset, variance weights, frequencies, (internal) design
pub type Kept = (Vec<f64>, Option<Vec<f64>>, Option<Vec<f64>>, Option<Vec<f64>>, Vec<f64>);
pub trait DynModel { fn n_obs(&self) -> f64; fn n_eff(&self) -> f64; fn kept(&self) -> Kept; fn fit(&self, o: &Opts) -> Result<Box<dyn DynFit>, FitErr>; }
pub trait DynFit { fn info(&self) -> FitInfo; fn q(&self, name: &str, a: &[f64], x: &[Vec<f64>], k: usize, off: Option<&[f64]>) -> Res<Out>; }

pub trait Prec: num::Float { fn of(v: f64) -> Self; fn to(self) -> f64; }
impl Prec for f32 { fn of(v: f64) -> f32 { v as f32 } fn to(self) -> f64 { self as f64 } }
impl Prec for f64 { fn of(v: f64) -> f64 { v } fn to(self) -> f64 { self } }

pub fn a1<F: Prec>(v: &[f64]) -> Array1<F> { v.iter().map(|x| F::of(*x)).collect() }
fn v1<F: Prec, S: Data<Elem = F>>(a: &ArrayBase<S, Ix1>) -> Out { Out::V(a.iter().map(|x| (*x).to()).collect()) }
fn m2<F: Prec, S: Data<Elem = F>>(a: &ArrayBase<S, Ix2>) -> Out { Out::M(a.outer_iter().map(|r| r.iter().map(|x| (*x).to()).collect()).collect()) }
fn vv<F: Prec>(a: &Array1<F>) -> Vec<f64> { a.iter().map(|x| (*x).to()).collect() }
pub fn kind<F: num::Float>(e: &RegressionError<F>) -> String {
    match e {
        RegressionError::BadInput(_) => "BadInput", RegressionError::InvalidY(_) => "InvalidY", RegressionError::BuildError(_) => "BuildError",
        RegressionError::LinalgError { .. } => "Linalg", RegressionError::MaxIter { .. } => "MaxIter",
    }.to_string()
}

/// The design as an owned array whose view has the requested memory layout.
pub fn layout<T: Clone>(rows: usize, cols: usize, fill: T, at: impl Fn(usize, usize) -> T, how: &str) -> (Array2<T>, bool, bool) {
    match how {
        "F" => { let mut a = Array2::from_elem((cols, rows), fill); for i in 0..rows { for j in 0..cols { a[[j, i]] = at(i, j); } } (a.reversed_axes(), false, false) }
        "strided" => { let mut a = Array2::from_elem((2 * rows + 1, 2 * cols + 1), fill); for i in 0..rows { for j in 0..cols { a[[2 * i, 2 * j]] = at(i, j); } } (a, true, false) }
        "rev" => { let mut a = Array2::from_elem((rows, cols), fill); for i in 0..rows { for j in 0..cols { a[[rows - 1 - i, cols - 1 - j]] = at(i, j); } } (a, false, true) }
        _ => { let mut a = Array2::from_elem((rows, cols), fill); for i in 0..rows { for j in 0..cols { a[[i, j]] = at(i, j); } } (a, false, false) }
    }
}
macro_rules! viewed { ($t:expr, $rows:expr, $cols:expr) => { if $t.1 { $t.0.slice(s![0..2 * $rows;2, 0..2 * $cols;2]) } else if $t.2 { $t.0.slice(s![..;-1, ..;-1]) } else { $t.0.view() } } }

pub fn yconv_f32(v: f64) -> f32 { v as f32 }
pub fn yconv_f64(v: f64) -> f64 { v }
pub fn yconv_bool(v: f64) -> bool { v != 0. }
pub fn yconv_u8(v: f64) -> u8 { v as u8 }
pub fn yconv_u16(v: f64) -> u16 { v as u16 }
pub fn yconv_u32(v: f64) -> u32 { v as u32 }
pub fn yconv_u64(v: f64) -> u64 { v as u64 }
pub fn yconv_usize(v: f64) -> usize { v as usize }

macro_rules! opt_query {
    (yes, $e:expr) => { Ok($e) };
    (no, $e:expr) => { Err("NA".to_string()) };
}

macro_rules! inst {
    ($name:ident, $M:ty, $F:ty, [$($y:ident => $conv:ident),*], $lin:ident, $quant:ident) => {
        pub mod $name {
            use super::*;
            pub struct MM(pub &'static model::Model<$M, $F>);
            pub struct FF(pub Fit<'static, $M, $F>);
            pub fn build(r: &Raw, order: &[String]) -> Res<Box<dyn DynModel>> {
                let (n, k) = (r.x.len(), r.k);
                let zero: $F = <$F as Prec>::of(9.75);
                let xs = layout(n, k, zero, |i, j| <$F as Prec>::of(r.x[i][j]), &r.layout);
                let x = viewed!(xs, n, k);
                let ylay = if r.layout == "F" { "C" } else { r.layout.as_str() };
                match r.ytype.as_str() {
                    $(stringify!($y) => {
                        let ny = r.y.len();
                        let ys = layout(ny, 1, $conv(1.), |i, _| $conv(r.y[i]), ylay);
                        let yv = viewed!(ys, ny, 1);
                        let y = yv.index_axis(Axis(1), 0);
                        let mut b = ModelBuilder::<$M>::data(&y, &x);
                        for o in order {
                            b = match o.as_str() {
                                "off" => match &r.off { Some(v) => b.linear_offset(a1(v)), None => b },
                                "w" => match &r.w { Some(v) => b.var_weights(a1(v)), None => b },
                                "f" => match &r.f { Some(v) => b.freq_weights(v.iter().map(|t| *t as usize).collect()), None => b },
                                "icpt" => if r.icpt { b } else { b.no_constant() },
                                "std" => if r.std { b } else { b.no_standardize() },
                                _ => panic!("setter {o}"),
                            };
                        }
                        match b.build() {
                            Ok(m) => Ok(Box::new(MM(Box::leak(Box::new(m))))),
                            Err(e) => Err(kind(&e)),
                        }
                    })*
                    t => panic!("ytype {t}"),
                }
            }
            impl DynModel for MM {
                fn n_obs(&self) -> f64 { Prec::to(self.0.data.n_obs()) }
                fn n_eff(&self) -> f64 { Prec::to(self.0.data.n_eff()) }
                fn kept(&self) -> Kept {
                    let d = &self.0.data;
                    (vv(&d.y), d.linear_offset.as_ref().map(vv), d.weights.as_ref().map(vv), d.freqs.as_ref().map(vv), d.x.iter().map(|x| Prec::to(*x)).collect())
                }
                fn fit(&self, o: &Opts) -> Result<Box<dyn DynFit>, FitErr> {
                    let m = self.0;
                    let r = match o.via.as_str() {
                        "plain" => m.fit(),
                        "with" => {
                            let mut p = FitOptions::<$F>::default();
                            p.l1 = Prec::of(o.l1); p.l2 = Prec::of(o.l2);
                            if let Some(t) = o.tol { p.tol = Prec::of(t) }
                            if let Some(t) = o.max_iter { p.max_iter = t }
                            p.init_guess = o.init.as_ref().map(|b| a1(b));
                            m.with_options(p).fit()
                        }
                        _ => {
                            let mut c = m.fit_options();
                            if let Some(t) = o.max_iter { c = c.max_iter(t) }
                            if o.l1 != 0. { c = c.l1_reg(Prec::of(o.l1)) }
                            if o.l2 != 0. { c = c.l2_reg(Prec::of(o.l2)) }
                            if let Some(t) = o.tol { c = c.tol(Prec::of(t)) }
                            if let Some(b) = &o.init { c.options.init_guess = Some(a1(b)) }
                            c.fit()
                        }
                    };
                    match r {
                        Ok(f) => Ok(Box::new(FF(f))),
                        Err(e) => {
                            let kd = kind(&e);
                            let (n, h) = match e { RegressionError::MaxIter { n_iter, history } => (n_iter, history), _ => (0, vec![]) };
                            Err(FitErr { kind: kd, n_iter: n, hist: h.iter().map(|s| (vv(&s.guess), Prec::to(s.like))).collect() })
                        }
                    }
                }
            }
            impl DynFit for FF {
                fn info(&self) -> FitInfo {
                    let f = &self.0;
                    FitInfo { res: vv(&f.result), like: Prec::to(f.model_like), n_iter: f.n_iter,
                        hist: f.history.iter().map(|s| (vv(&s.guess), Prec::to(s.like))).collect(),
                        o: (Prec::to(f.options.l1), Prec::to(f.options.l2), Prec::to(f.options.tol), f.options.max_iter) }
                }
                fn q(&self, name: &str, a: &[f64], x: &[Vec<f64>], k: usize, off: Option<&[f64]>) -> Res<Out> {
                    let f = &self.0;
                    let e = |e: RegressionError<$F>| kind(&e);
                    match name {
                        "result" => Ok(v1(&f.result)),
                        "model_like" => Ok(Out::S(Prec::to(f.model_like))),
                        "options" => Ok(Out::V(vec![Prec::to(f.options.l1), Prec::to(f.options.l2), Prec::to(f.options.tol), f.options.max_iter as f64])),
                        "n_iter" => Ok(Out::S(f.n_iter as f64)),
                        "hist_like" => Ok(Out::V(f.history.iter().map(|s| Prec::to(s.like)).collect())),
                        "hist_last" => Ok(match f.history.last() { Some(s) => v1(&s.guess), None => Out::V(vec![]) }),
                        "aic" => Ok(Out::S(Prec::to(f.aic()))),
                        "bic" => Ok(Out::S(Prec::to(f.bic()))),
                        "cooks" => f.cooks().map(|v| v1(&v)).map_err(e),
                        "covariance" => f.covariance().map(|v| m2(v)).map_err(e),
                        "deviance" => Ok(Out::S(Prec::to(f.deviance()))),
                        "dispersion" => Ok(Out::S(Prec::to(f.dispersion()))),
                        "fisher" => Ok(m2(&f.fisher(&a1(a)))),
                        "hat" => f.hat().map(|v| m2(v)).map_err(e),
                        "infl_coef" => f.infl_coef().map(|v| m2(&v)).map_err(e),
                        "leverage" => f.leverage().map(|v| v1(&v)).map_err(e),
                        "loo_exact" => f.loo_exact().map(|v| m2(&v)).map_err(e),
                        "lr_test" => Ok(Out::S(Prec::to(f.lr_test()))),
                        "lr_against" => Ok(Out::S(Prec::to(f.lr_test_against(&a1(a))))),
                        "ndf" => Ok(Out::S(Prec::to(f.ndf()))),
                        "null_like" => Ok(Out::S(Prec::to(f.null_like()))),
                        "predict" => {
                            let t = layout(x.len(), k, <$F as Prec>::of(7.25), |i, j| <$F as Prec>::of(x[i][j]), if x.len() % 2 == 0 { "F" } else { "strided" });
                            let o: Option<Array1<$F>> = off.map(|o| a1(o));
                            Ok(v1(&f.predict(&viewed!(t, x.len(), k), o.as_ref())))
                        }
                        "resid_dev" => Ok(v1(&f.resid_dev())),
                        "resid_dev_std" => f.resid_dev_std().map(|v| v1(&v)).map_err(e),
                        "resid_part" => Ok(m2(&f.resid_part())),
                        "resid_pear" => Ok(v1(f.resid_pear())),
                        "resid_pear_std" => f.resid_pear_std().map(|v| v1(&v)).map_err(e),
                        "resid_resp" => Ok(v1(&f.resid_resp())),
                        "resid_student" => f.resid_student().map(|v| v1(&v)).map_err(e),
                        "resid_work" => Ok(v1(&f.resid_work())),
                        "score" => Ok(v1(&f.score(a1(a)))),
                        "score_test" => f.score_test().map(|v| Out::S(Prec::to(v))).map_err(e),
                        "score_against" => f.score_test_against(a1(a)).map(|v| Out::S(Prec::to(v))).map_err(e),
                        "test_ndf" => Ok(Out::S(f.test_ndf() as f64)),
                        "wald_test" => Ok(Out::S(Prec::to(f.wald_test()))),
                        "wald_against" => Ok(Out::S(Prec::to(f.wald_test_against(&a1(a))))),
                        "wald_z" => f.wald_z().map(|v| v1(&v)).map_err(e),
                        "r_sq" => opt_query!($lin, Out::S(Prec::to(f.r_sq()))),
                        "rss" => opt_query!($lin, Out::S(Prec::to(f.rss()))),
                        "p_lr" => Ok(Out::S(Prec::to(f.pvalue_lr_test()))),
                        "p_wald" => f.pvalue_wald().map(|v| v1(&v)).map_err(e),
                        "p_exact" => f.pvalue_exact().map(|v| v1(&v)).map_err(e),
                        "resid_quantile" => opt_query!($quant, v1(&f.resid_quantile())),
                        _ => panic!("query {name}"),
                    }
                }
            }
        }
    };
}
type B1 = Binomial<1>;
type B6 = Binomial<6>;
type B20 = Binomial<20>;
macro_rules! all {
    ($($stem:literal, $n64:ident, $n32:ident, $M:ty, [$($y:ident => $conv:ident),*], $lin:ident, $quant:ident;)*) => {
        $( inst!($n64, $M, f64, [$($y => $conv),*], $lin, $quant); inst!($n32, $M, f32, [$($y => $conv),*], $lin, $quant); )*
        type Builder = fn(&Raw, &[String]) -> Res<Box<dyn DynModel>>;
        pub fn builders() -> BTreeMap<String, Builder> {
            let mut m: BTreeMap<String, Builder> = BTreeMap::new();
            $( m.insert(format!("{}/f64", $stem), $n64::build); m.insert(format!("{}/f32", $stem), $n32::build); )*
            m
        }
    };
}
all! {
    "linear/id", lin64, lin32, Linear, [f64 => yconv_f64, f32 => yconv_f32], yes, yes;
    "linear/cube", cub64, cub32, Linear<Cube>, [f64 => yconv_f64, f32 => yconv_f32], no, yes;
    "linear/slinh", sli64, sli32, Linear<Slinh>, [f64 => yconv_f64, f32 => yconv_f32], no, yes;
    "logistic/logit", log64, log32, Logistic, [f64 => yconv_f64, f32 => yconv_f32, bool => yconv_bool], no, no;
    "logistic/cloglog", clo64, clo32, Logistic<logistic_link::Cloglog>, [f64 => yconv_f64, f32 => yconv_f32, bool => yconv_bool], no, no;
    "logistic/logit_u", lou64, lou32, Logistic<LogitU>, [f64 => yconv_f64, f32 => yconv_f32, bool => yconv_bool], no, no;
    "poisson/log", poi64, poi32, Poisson, [u8 => yconv_u8, u16 => yconv_u16, u32 => yconv_u32, u64 => yconv_u64, usize => yconv_usize], no, no;
    "poisson/sqrt", psq64, psq32, Poisson<Sqrt>, [u32 => yconv_u32], no, no;
    "poisson/log_u", pou64, pou32, Poisson<LogU>, [u32 => yconv_u32], no, no;
    "binomial1/logit", b1_64, b1_32, B1, [u16 => yconv_u16], no, no;
    "binomial6/logit", b6_64, b6_32, B6, [u16 => yconv_u16], no, no;
    "binomial20/logit", b20_64, b20_32, B20, [u16 => yconv_u16], no, no;
    "exponential/negrec", exc64, exc32, Exponential, [f64 => yconv_f64, f32 => yconv_f32], no, yes;
    "exponential/log", exl64, exl32, Exponential<exp_link::Log>, [f64 => yconv_f64, f32 => yconv_f32], no, yes;
    "gamma/negrec", gac64, gac32, Gamma, [f64 => yconv_f64, f32 => yconv_f32], no, yes;
    "gamma/log", gal64, gal32, Gamma<gamma_link::Log>, [f64 => yconv_f64, f32 => yconv_f32], no, yes;
    "invgaussian/negrecsq", igc64, igc32, InvGaussian, [f64 => yconv_f64, f32 => yconv_f32], no, no;
    "invgaussian/log", igl64, igl32, InvGaussian<inv_gauss_link::Log>, [f64 => yconv_f64, f32 => yconv_f32], no, no;
}

/// Direct use of the public link types: name -> (g, g^-1, eta, eta') at the given points.
pub fn link_fn(fam: &str, link: &str, dtype: &str, which: &str, v: &[f64]) -> Res<Vec<f64>> {
    fn go<F: Prec, M: Sized, L: Transform>(g: impl Fn(F) -> F, gi: impl Fn(F) -> F, which: &str, v: &[f64]) -> Vec<f64> where {
        let _ = std::marker::PhantomData::<M>;
        match which {
            "g" => v.iter().map(|x| g(F::of(*x)).to()).collect(),
            "ginv" => v.iter().map(|x| gi(F::of(*x)).to()).collect(),
            "nat" => vv(&L::nat_param(a1::<F>(v))),
            "dnat" => vv(&L::d_nat_param(&a1::<F>(v))),
            "adj" => vv(&L::adjust_variance(Array1::<F>::ones(v.len()), &a1::<F>(v))),
            "adje" => vv(&L::adjust_errors(Array1::<F>::ones(v.len()), &a1::<F>(v))),
            _ => panic!("link fn {which}"),
        }
    }
    macro_rules! lk { ($M:ty, $L:ty) => { if dtype == "f64" { Ok(go::<f64, $M, $L>(<$L as Link<$M>>::func, <$L as Link<$M>>::func_inv, which, v)) } else { Ok(go::<f32, $M, $L>(<$L as Link<$M>>::func, <$L as Link<$M>>::func_inv, which, v)) } } }
    match (fam, link) {
        ("logistic", "logit") => lk!(Logistic, logistic_link::Logit),
        ("logistic", "cloglog") => lk!(Logistic<logistic_link::Cloglog>, logistic_link::Cloglog),
        ("exponential", "negrec") => lk!(Exponential, exp_link::NegRec),
        ("exponential", "log") => lk!(Exponential<exp_link::Log>, exp_link::Log),
        ("gamma", "negrec") => lk!(Gamma, gamma_link::NegRec),
        ("gamma", "log") => lk!(Gamma<gamma_link::Log>, gamma_link::Log),
        ("invgaussian", "negrecsq") => lk!(InvGaussian, inv_gauss_link::NegRecSq),
        ("invgaussian", "log") => lk!(InvGaussian<inv_gauss_link::Log>, inv_gauss_link::Log),
        _ => Err("NA".into()),
    }
}
