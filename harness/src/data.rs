//! Raw data sets: seeded generation and the transformations (derivations) the specification asks for.
use crate::rng::Rng;
use serde_json::Value as J;

#[derive(Clone, Debug)]
pub struct Raw {
    pub fam: String,
    pub link: String,
    pub big_n: u32,
    pub dtype: String,
    pub ytype: String,
    pub y: Vec<f64>,
    pub x: Vec<Vec<f64>>,
    pub k: usize,
    pub off: Option<Vec<f64>>,
    pub w: Option<Vec<f64>>,
    pub f: Option<Vec<f64>>,
    pub icpt: bool,
    pub std: bool,
    pub layout: String,
    pub how: String,
    pub from: i64,
    pub arg: Vec<f64>,
    pub perm: Vec<usize>,
}

pub fn s(j: &J, k: &str, d: &str) -> String { j.get(k).and_then(|v| v.as_str()).unwrap_or(d).to_string() }
pub fn u(j: &J, k: &str, d: usize) -> usize { j.get(k).and_then(|v| v.as_u64()).map(|v| v as usize).unwrap_or(d) }
pub fn b(j: &J, k: &str, d: bool) -> bool { j.get(k).and_then(|v| v.as_bool()).unwrap_or(d) }
pub fn fl(j: &J, k: &str, d: f64) -> f64 {
    match j.get(k) { Some(J::String(t)) => t.parse().unwrap(), Some(v) => v.as_f64().unwrap_or(d), None => d }
}

fn positive_only(link: &str) -> bool { matches!(link, "negrec" | "negrecsq" | "sqrt") }

pub fn mean(fam: &str, n: f64, link: &str, om: f64) -> f64 {
    match link {
        "id" => om,
        "cube" => om * om * om,
        "slinh" => om.sinh(),
        "logit" | "logit_u" => (if fam == "binomial" { n } else { 1. }) / (1. + (-om).exp()),
        "cloglog" => -(-om.exp()).exp_m1(),
        "log" | "log_u" => om.exp(),
        "sqrt" => om * om,
        "negrec" => -1. / om,
        "negrecsq" => 1. / (-2. * om).sqrt(),
        _ => panic!("link {link}"),
    }
}

impl Raw {
    pub fn n(&self) -> usize { self.y.len() }

    pub fn generate(j: &J, sc: &J, rng: &mut Rng) -> Raw {
        let g = |k: &str, d: &str| { if j.get(k).is_some() { s(j, k, d) } else { s(sc, k, d) } };
        let fam = g("fam", "linear");
        let link = g("link", "id");
        let big_n = if j.get("N").is_some() { u(j, "N", 1) } else { u(sc, "N", 1) } as u32;
        let dtype = g("dtype", "f64");
        let ytype = g("ytype", "f64");
        let n = u(j, "n", 12);
        let k = u(j, "k", 2);
        let icpt = b(j, "icpt", true);
        let std = b(j, "std", true);
        let design = s(j, "design", "norm");
        let ykind = if (ytype == "bool" || fam != "logistic") && s(j, "ykind", "rand") == "frac" { "rand".into() } else { s(j, "ykind", "rand") };
        let posonly = positive_only(&link);
        let mut r = rng.fork(u(j, "salt", 0) as u64);
        // ---- design
        let mut x = vec![vec![0.; k]; n];
        let loc: Vec<f64> = (0..k).map(|c| 2. + 1.5 * c as f64 + r.unif()).collect();
        let sc_: Vec<f64> = (0..k).map(|c| [0.3, 7., 1.7, 0.05][c % 4] * (0.5 + r.unif())).collect();
        for i in 0..n {
            let common = r.norm();
            for c in 0..k {
                let z = r.norm();
                x[i][c] = match design.as_str() {
                    "norm" => z,
                    "corr" => 0.9 * common + 0.45 * z,
                    "shift" => loc[c] * 3. + sc_[c] * z,
                    "scaled" => sc_[c] * z,
                    "far" => (if dtype == "f32" { 20. } else { 200. }) * (1. + c as f64) + z,
                    "badscale" => [1e-4, 1e4, 1., 1e2][c % 4] * (z + 1.),
                    "bin" => if c == 0 { (z > 0.2) as u8 as f64 } else { z },
                    "int" => (z * 2.).round(),
                    "dyadic" => (z * 8.).round() / 8.,
                    "orth" => if (i >> c) & 1 == 1 { 1. } else { -1. },
                    "unif" => r.unif(),
                    _ => z,
                };
            }
            if k > 0 {
                let l = k - 1;
                match design.as_str() {
                    "const" => x[i][l] = 2.5,
                    "const01" => x[i][l] = 0.1,
                    "zero" => x[i][l] = 0.,
                    "dup" => x[i][l] = x[i][0],
                    "allzero" => x[i].iter_mut().for_each(|v| *v = 0.),
                    _ => {}
                }
            }
        }
        if design == "bin" && n >= 4 && k > 0 {
            for i in 0..n { x[i][0] = if i % 3 == 0 { 1. } else { 0. } }
        }
        if posonly && !icpt { for row in x.iter_mut() { for v in row.iter_mut() { *v = v.abs() + 0.3; } } }
        // ---- weights
        let kk = k + icpt as usize;
        let f = match s(j, "f", "none").as_str() {
            "none" => None,
            "ones" => Some(vec![1.; n]),
            "const" => Some(vec![3.; n]),
            "big" => Some((0..n).map(|_| [1., 2., 40., 300., if dtype == "f32" { 500. } else { 1000. }, if dtype == "f32" { 7. } else { 70000. }][r.below(6)]).collect()),
            "pos" => Some((0..n).map(|_| 1. + r.below(3) as f64).collect()),
            _ => Some((0..n).map(|_| r.below(4) as f64).collect::<Vec<_>>()),
        };
        let w = match s(j, "w", "none").as_str() {
            "none" => None,
            "ones" => Some(vec![1.; n]),
            "const" => Some(vec![2.5; n]),
            "huge" => Some((0..n).map(|_| (if dtype == "f32" { 1e3 } else { 1e5 }) * (0.4 + 1.6 * r.unif())).collect()),
            "tiny" => Some((0..n).map(|_| (if dtype == "f32" { 0.03 } else { 1e-4 }) * (0.4 + 1.6 * r.unif())).collect()),
            "dom" => { let a = if n > 0 { r.below(n) } else { 0 }; Some((0..n).map(|i| (0.4 + 1.6 * r.unif()) * if i == a { if dtype == "f32" { 40. } else { 400. } } else { 1. }).collect()) }
            "wide" => Some((0..n).map(|_| (1.5 * r.norm()).exp()).collect()),
            _ => Some((0..n).map(|_| 0.4 + 1.6 * r.unif()).collect::<Vec<_>>()),
        };
        let mut f = f;
        // ---- duplicate rows with opposite outcomes keep the logistic MLE finite
        let npair = if fam == "logistic" || (fam == "binomial" && big_n == 1) { (kk + 1).min(n / 2) } else { 0 };
        for p in 0..npair { x[n - 1 - p] = x[p].clone(); }
        if let Some(fv) = f.as_mut() {
            for p in 0..(kk + 1).min(n) { if fv[p] < 1. { fv[p] = 1. } }
            for p in 0..npair { if fv[n - 1 - p] < 1. { fv[n - 1 - p] = 1. } }
        }
        // ---- offsets
        let off_scale = if posonly { 0.1 } else { 0.5 };
        let off = match s(j, "off", "none").as_str() {
            "none" => None,
            "zero" => Some(vec![0.; n]),
            "large" => Some((0..n).map(|_| if posonly { -1. + 0.1 * r.norm().clamp(-2., 2.) } else { 3. + 2. * r.norm().clamp(-2., 2.) }).collect()),
            "const" => Some(vec![if posonly { -0.15 } else { 0.7 }; n]),
            _ => Some((0..n).map(|_| off_scale * r.norm().clamp(-2., 2.)).collect::<Vec<_>>()),
        };
        // ---- coefficients scaled to a sensible linear-predictor range
        let range = fl(j, "range", match link.as_str() {
            "id" => 3., "log" | "log_u" => 1., "logit" | "logit_u" => 1.5, "cloglog" => 1., "negrec" | "negrecsq" => 0.5,
            "sqrt" => 0.8, "slinh" => 1.5, "cube" => 1.2, _ => 1. });
        let mut beta: Vec<f64> = (0..k).map(|_| r.norm()).collect();
        if posonly && !icpt { beta.iter_mut().for_each(|b| *b = -b.abs() - 0.2); if link == "sqrt" { beta.iter_mut().for_each(|b| *b = -*b) } }
        let lin0: Vec<f64> = x.iter().map(|row| row.iter().zip(&beta).map(|(a, b)| a * b).sum()).collect();
        let cen = if icpt && n > 0 { lin0.iter().sum::<f64>() / n as f64 } else { 0. };
        let mx = lin0.iter().map(|l| (l - cen).abs()).fold(1e-9, f64::max);
        let large = ykind == "big" && fam == "poisson";
        let sgl = dtype == "f32"; // (in single precision the likelihood of large counts has no digits left)
        let b0 = if large && icpt { if link == "sqrt" { if sgl { 40. } else { 350. } } else if sgl { 7. } else { 12. } } else if !icpt { 0. } else { match link.as_str() { "negrec" | "negrecsq" => -1.2, "sqrt" => 2., "log" | "log_u" => 0.8, "cube" => 1.5, "cloglog" => -0.3, _ => 0.4 } };
        let scl = if posonly && !icpt { 2. / mx } else { range / mx };
        let om: Vec<f64> = (0..n).map(|i| {
            let o = off.as_ref().map(|o| o[i]).unwrap_or(0.);
            let raw = b0 + (lin0[i] - cen) * scl + o;
            if link == "negrec" || link == "negrecsq" { raw.min(-0.15) } else if link == "sqrt" { raw.max(0.2) } else { raw } }).collect();
        // ---- responses
        let noise = fl(j, "noise", 1.);
        let mut y: Vec<f64> = (0..n).map(|i| {
            let mu = mean(&fam, big_n as f64, &link, om[i]);
            match (fam.as_str(), ykind.as_str()) {
                ("linear", "perfect") => mu,
                ("linear", "zero") => 0.,
                ("linear", _) => mu + 0.7 * noise * r.norm(),
                ("logistic", "frac") => { let t = r.unif(); if t < 0.15 { 0. } else if t > 0.85 { 1. } else { (t * 16.).round() / 16. } }
                ("logistic", "true") => 1.,
                ("logistic", "false") => 0.,
                ("logistic", _) => (r.unif() < mu) as u8 as f64,
                ("poisson", "zero") => 0.,
                ("poisson", "big") => (mu + mu.sqrt() * r.norm()).clamp(0., 1e7).round(),
                ("poisson", _) => r.poisson(mu.min(200.)),
                ("binomial", "zero") => 0.,
                ("binomial", "full") => big_n as f64,
                ("binomial", _) => (0..big_n).filter(|_| r.unif() < mu / big_n as f64).count() as f64,
                ("invgaussian", _) => r.invgauss(mu, 25. / noise),
                _ => r.gamma(12. / noise) / (12. / noise) * mu,
            }
        }).collect();
        if ykind == "rand" || ykind == "big" {
            for p in 0..npair { y[n - 1 - p] = 1. - y[p]; }
            if fam == "poisson" { for p in 0..kk.min(n) { if y[p] < 1. { y[p] = 1. } } }
            if fam == "binomial" && big_n >= 2 { for p in 0..kk.min(n) { y[p] = y[p].clamp(1., big_n as f64 - 1.) } }
        }
        // ---- units of the response
        let ysc = fl(j, "yscale", 0.) as i32;
        if ysc != 0 && (link == "id" || (link == "log" && icpt && fam != "poisson")) {
            let c = 2f64.powi(if link == "log" { ysc / 2 } else if dtype == "f32" { ysc } else { 2 * ysc });
            for v in y.iter_mut() { *v *= c }
        }
        if design == "dyadic" && fam == "linear" { for v in y.iter_mut() { *v = (*v * 8.).round() / 8. } }
        let mut raw = Raw { fam, link, big_n, dtype, ytype, y, x, k, off, w, f, icpt, std, layout: s(j, "layout", "C"), how: "new".into(), from: 0, arg: vec![], perm: vec![] };
        raw.round();
        // numbers no model can make sense of
        if let Some(J::Array(items)) = j.get("poke") {
            for it in items {
                let v: f64 = it[2].as_str().unwrap().parse().unwrap();
                let at = |len: usize| (it[1].as_u64().unwrap() as usize) % len.max(1);
                match it[0].as_str().unwrap() {
                    "x" => if n > 0 && k > 0 { let a = at(n * k); raw.x[a / k][a % k] = v },
                    "col" => if k > 0 { let a = at(k); raw.x.iter_mut().for_each(|row| row[a] = v) },
                    "off" => { let o = raw.off.get_or_insert(vec![0.; n]); if n > 0 { let a = at(n); o[a] = v } },
                    "w" => { let o = raw.w.get_or_insert(vec![1.; n]); if n > 0 { let a = at(n); o[a] = v } },
                    "f" => { let o = raw.f.get_or_insert(vec![1.; n]); if n > 0 { let a = at(n); o[a] = v } },
                    "ws" => raw.w = Some(vec![v; n]),
                    "fs" => raw.f = Some(vec![v; n]),
                    other => panic!("poke {other}"),
                }
            }
        }
        // explicitly malformed inputs
        let resize = |v: &mut Option<Vec<f64>>, key: &str| {
            if let (Some(v), Some(J::Number(m))) = (v.as_mut(), j.get(key)) {
                let t = (v.len() as i64 + m.as_i64().unwrap()).max(0) as usize;
                v.resize(t, 1.);
            }
        };
        resize(&mut raw.off, "doff");
        resize(&mut raw.w, "dw");
        resize(&mut raw.f, "df");
        if let Some(J::Number(m)) = j.get("dy") {
            let t = (raw.y.len() as i64 + m.as_i64().unwrap()).max(0) as usize;
            let fill = raw.y.first().copied().unwrap_or(1.);
            raw.y.resize(t, fill);
        }
        for (key, v) in [("off1", &mut raw.off), ("w1", &mut raw.w), ("f1", &mut raw.f)] {
            if b(j, key, false) { if let Some(v) = v.as_mut() { v.truncate(1) } }
        }
        if let Some(J::String(bad)) = j.get("ybad") {
            let m = raw.y.len();
            let at = match s(j, "yat", "mid").as_str() { "first" => 0, "last" => m.max(1) - 1, _ => m / 2 };
            let v: f64 = bad.parse().unwrap();
            if m > 0 { raw.y[at] = if raw.ytype == "f32" { v as f32 as f64 } else { v }; }
        }
        raw
    }

    pub fn round(&mut self) {
        match self.ytype.as_str() {
            "f32" => self.y.iter_mut().for_each(|v| *v = *v as f32 as f64),
            "bool" => self.y.iter_mut().for_each(|v| *v = (*v != 0.) as u8 as f64),
            "u8" => self.y.iter_mut().for_each(|v| *v = *v as u8 as f64),
            "u16" => self.y.iter_mut().for_each(|v| *v = *v as u16 as f64),
            "u32" => self.y.iter_mut().for_each(|v| *v = *v as u32 as f64),
            "u64" | "usize" => self.y.iter_mut().for_each(|v| *v = *v as u64 as f64),
            _ => {}
        }
        if self.dtype == "f32" {
            let q = |v: &mut f64| *v = *v as f32 as f64;
            self.x.iter_mut().for_each(|r| r.iter_mut().for_each(q));
            if matches!(self.ytype.as_str(), "f32" | "f64") { self.y.iter_mut().for_each(q); }
            if let Some(o) = self.off.as_mut() { o.iter_mut().for_each(q) }
            if let Some(o) = self.w.as_mut() { o.iter_mut().for_each(q) }
        }
    }

    fn rows(&mut self, idx: &[usize]) {
        let pick = |v: &Vec<f64>| idx.iter().map(|&i| v[i]).collect::<Vec<_>>();
        self.y = pick(&self.y);
        self.x = idx.iter().map(|&i| self.x[i].clone()).collect();
        self.off = self.off.as_ref().map(pick);
        self.w = self.w.as_ref().map(pick);
        self.f = self.f.as_ref().map(pick);
    }

    pub fn derive(&self, j: &J, from: i64, rng: &mut Rng) -> Raw {
        let mut d = self.clone();
        let how = s(j, "how", "same");
        let n = self.n();
        let k = self.k;
        let mut r = rng.fork(77 + u(j, "salt", 0) as u64);
        let c = fl(j, "c", 1.);
        let i = u(j, "i", 0);
        d.how = how.clone();
        d.from = from;
        d.arg = vec![];
        d.perm = vec![];
        match how.as_str() {
            "same" => {}
            "rowperm" => { let p = r.perm(n); d.rows(&p); d.perm = p; }
            "rowrev" => { let p: Vec<usize> = (0..n).rev().collect(); d.rows(&p); d.perm = p; }
            "colperm" => { let p = r.perm(k); for row in d.x.iter_mut() { *row = p.iter().map(|&c| row[c]).collect(); } d.perm = p; }
            "replicate" => {
                let f = d.f.clone().unwrap_or(vec![1.; n]);
                let idx: Vec<usize> = (0..n).flat_map(|i| std::iter::repeat(i).take(f[i] as usize)).collect();
                d.rows(&idx); d.f = None; d.perm = idx;
            }
            "dropzero" => {
                let f = d.f.clone().unwrap_or(vec![1.; n]);
                let idx: Vec<usize> = (0..n).filter(|&i| f[i] > 0.).collect();
                d.rows(&idx); d.perm = idx;
            }
            "ones_f" => d.f = Some(vec![1.; n]),
            "ones_w" => d.w = Some(vec![1.; n]),
            "none_w" => d.w = None,
            "none_f" => d.f = None,
            "scale_w" => { d.w = Some(d.w.unwrap_or(vec![1.; n]).iter().map(|w| w * c).collect()); d.arg = vec![c]; }
            "zero_off" => d.off = Some(vec![0.; n]),
            "none_off" => d.off = None,
            "const_off" => { d.off = Some(d.off.unwrap_or(vec![0.; n]).iter().map(|o| o + c).collect()); d.arg = vec![c]; }
            "lin_off" => {
                let sc: Vec<f64> = (0..k).map(|j| self.x.iter().map(|r| r[j].abs()).fold(1e-9, f64::max)).collect();
                let g: Vec<f64> = (0..k).map(|j| c * (r.unif() - 0.5) / sc[j]).collect();
                let o = d.off.unwrap_or(vec![0.; n]);
                d.off = Some((0..n).map(|i| o[i] + d.x[i].iter().zip(&g).map(|(a, b)| a * b).sum::<f64>()).collect());
                d.arg = g;
            }
            "xshift" => { let a: Vec<f64> = (0..k).map(|_| (r.norm() * 4.).round() / 2.).collect(); for row in d.x.iter_mut() { for j in 0..k { row[j] += a[j] } } d.arg = a; }
            "xscale" => { let all = fl(j, "all", 0.); let a: Vec<f64> = (0..k).map(|_| if all != 0. { all } else { [0.25, 4., 2., -0.5, 16.][r.below(5)] }).collect(); for row in d.x.iter_mut() { for j in 0..k { row[j] *= a[j] } } d.arg = a; }
            "std" => d.std = !d.std,
            "dtype" => { d.dtype = if d.dtype == "f64" { "f32".into() } else { "f64".into() }; }
            "ytype" => d.ytype = s(j, "ytype", "f64"),
            "link" => d.link = s(j, "link", &self.link),
            "fam" => { d.fam = s(j, "fam", &self.fam); d.link = s(j, "link", &self.link); d.big_n = u(j, "N", 1) as u32; d.ytype = s(j, "ytype", &self.ytype); }
            "layout" => d.layout = s(j, "layout", "F"),
            "droprow" => { let idx: Vec<usize> = (0..n).filter(|&t| t != i).collect(); d.rows(&idx); d.perm = idx; }
            "f0" => { let mut f = d.f.unwrap_or(vec![1.; n]); f[i] = 0.; d.f = Some(f); d.perm = vec![i]; }
            "dropcol" => { for row in d.x.iter_mut() { row.remove(i); } d.k -= 1; d.perm = vec![i]; }
            "addcol" => { for row in d.x.iter_mut() { row.push(r.norm()); } d.k += 1; }
            "onescol" => { for row in d.x.iter_mut() { row.insert(0, 1.); } d.k += 1; d.icpt = false; }
            "nullx" => { for row in d.x.iter_mut() { row.clear(); } d.k = 0; }
            "noicpt" => d.icpt = false,
            "double_y" => { d.y.iter_mut().for_each(|v| *v *= c); d.arg = vec![c]; }
            "wpoke" => { if let Some(w) = d.w.as_mut() { w[i] *= c } d.perm = vec![i]; d.arg = vec![c]; }
            "ypoke" => { d.y[i] += c; d.perm = vec![i]; d.arg = vec![c]; }
            _ => panic!("derive {how}"),
        }
        d.round();
        d
    }
}
