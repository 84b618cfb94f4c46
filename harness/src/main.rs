//! Replays programs of API calls (enumerated by the TLA+ specification) against the real crate and
//! records what happened, one JSON line per session. Reals are pairs of 32-bit halves of an IEEE double.
mod data;
mod inst;
mod links;
mod rng;
use data::{Raw, b, fl, s, u};
use inst::*;
use rng::{Rng, hash};
use serde_json::{Value as J, json};
use std::io::{BufRead, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn r(v: f64) -> J { let t = v.to_bits(); json!([(t >> 32) as u32 as i32, t as u32 as i32]) }
fn rv(v: &[f64]) -> J { J::Array(v.iter().map(|x| r(*x)).collect()) }
fn rm(v: &[Vec<f64>]) -> J { J::Array(v.iter().map(|x| rv(x)).collect()) }

struct Slot { raw: Raw, model: Option<Box<dyn DynModel>> }
struct FSlot { m: usize, fit: Option<Box<dyn DynFit>>, res: Vec<f64> }
#[derive(Default)]
struct Prog { events: Vec<J>, pending: Option<J>, started: Option<Instant>, done: bool }

fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
    })
}

fn dims(raw: &Raw) -> usize { raw.k + raw.icpt as usize }

/// A coefficient vector of the requested kind, on the external scale.
fn coefs(kind: &str, raw: &Raw, base: &[f64], fits: &[Option<FSlot>], rng: &mut Rng) -> Vec<f64> {
    let kk = dims(raw);
    let colscale: Vec<f64> = (0..kk).map(|j| {
        if raw.icpt && j == 0 { 1. } else { let c = j - raw.icpt as usize; raw.x.iter().map(|r| r[c].abs()).fold(0., f64::max).max(1e-9) } }).collect();
    let (k0, arg) = kind.split_once(':').unwrap_or((kind, ""));
    match k0 {
        "result" => base.to_vec(),
        "zero" => vec![0.; kk],
        "near" => (0..kk).map(|j| base.get(j).copied().unwrap_or(0.) + 0.02 * rng.norm() / colscale[j]).collect(),
        "rand" => (0..kk).map(|j| base.get(j).copied().unwrap_or(0.) + 0.3 * rng.norm() / colscale[j]).collect(),
        "far" => (0..kk).map(|j| 3. * rng.norm() / colscale[j]).collect(),
        "icpt" => (0..kk).map(|j| if j == 0 { arg.parse().unwrap() } else { 0. }).collect(),
        "const" => vec![arg.parse().unwrap(); kk],
        "fit" => fits[arg.parse::<usize>().unwrap()].as_ref().map(|f| f.res.clone()).unwrap_or(vec![0.; kk]),
        "scale" => base.iter().map(|b| b * arg.parse::<f64>().unwrap()).collect(),
        _ => panic!("coefs {kind}"),
    }
}

fn optv(v: &Option<Vec<f64>>) -> J { rv(v.as_deref().unwrap_or(&[])) }

fn session(sc: &J, seed: u64, prog: &Arc<Mutex<Prog>>) {
    let sid = s(sc, "sid", "");
    let gen_ = s(sc, "rng", &sid); // scenarios can share their random data
    let base = Rng(hash(&format!("{seed}/{gen_}")));
    let table = builders();
    let mut models: Vec<Option<Slot>> = (0..16).map(|_| None).collect();
    let mut fits: Vec<Option<FSlot>> = (0..24).map(|_| None).collect();
    let push = |e: J| { let mut p = prog.lock().unwrap(); p.events.push(e); p.pending = None; };
    let pend = |e: J| { let mut p = prog.lock().unwrap(); p.pending = Some(e); };
    for (ln, op) in sc["prog"].as_array().unwrap().iter().enumerate() {
        let mut rng = base.fork(u(op, "salt", 0) as u64 * 131 + 7);
        match s(op, "op", "").as_str() {
            "model" => {
                let m = u(op, "m", 1);
                let mut raw = if let Some(from) = op.get("from").and_then(|v| v.as_u64()) {
                    let src = &models[from as usize].as_ref().unwrap().raw;
                    let mut c = src.clone();
                    let hows: Vec<J> = match op.get("hows") { Some(J::Array(a)) => a.clone(), _ => vec![op.clone()] };
                    let joined = hows.iter().map(|h| s(h, "how", "same")).collect::<Vec<_>>().join("+");
                    for h in &hows { c = c.derive(h, from as i64, &mut rng); }
                    c.how = joined;
                    c
                } else { Raw::generate(&op["data"], sc, &mut base.clone()) };
                if op.get("layout").is_some() { raw.layout = s(op, "layout", "C") }
                let order: Vec<String> = match op.get("order") {
                    Some(J::Array(a)) if !a.is_empty() => a.iter().map(|v| v.as_str().unwrap().to_string()).collect(),
                    _ => ["off", "w", "f", "icpt", "std"].iter().map(|v| v.to_string()).collect() };
                // a setter that is not called leaves its default
                let calls = |k: &str| order.iter().any(|o| o == k);
                if !calls("off") { raw.off = None }
                if !calls("w") { raw.w = None }
                if !calls("f") { raw.f = None }
                if !calls("icpt") { raw.icpt = true }
                if !calls("std") { raw.std = true }
                let called: Vec<&String> = order.iter().filter(|o| match o.as_str() { "off" => raw.off.is_some(), "w" => raw.w.is_some(), "f" => raw.f.is_some(),
                    "icpt" => !raw.icpt, "std" => !raw.std, o => panic!("setter {o}") }).collect();
                let fkey = if raw.fam == "binomial" { format!("binomial{}", raw.big_n) } else { raw.fam.clone() };
                let mut e = json!({"e": "model", "m": m, "fam": raw.fam, "link": raw.link, "N": raw.big_n, "dtype": raw.dtype, "ytype": raw.ytype,
                    "k": raw.k, "n": raw.x.len(), "y": rv(&raw.y), "x": rm(&raw.x), "hasoff": raw.off.is_some(), "off": optv(&raw.off), "hasw": raw.w.is_some(), "w": optv(&raw.w),
                    "hasf": raw.f.is_some(), "f": optv(&raw.f), "icpt": raw.icpt, "std": raw.std, "layout": raw.layout, "order": called,
                    "how": raw.how, "from": raw.from, "arg": rv(&raw.arg), "perm": raw.perm.iter().map(|p| p + 1).collect::<Vec<_>>(),
                    "out": "hang", "err": "", "n_obs": r(0.), "n_eff": r(0.), "ky": [], "khas": [], "koff": [], "kw": [], "kf": []});
                pend(e.clone());
                let bld = table.get(&format!("{fkey}/{}/{}", raw.link, raw.dtype)).unwrap_or_else(|| panic!("no builder {fkey}/{}/{}", raw.link, raw.dtype));
                let mut model = None;
                match guard(|| bld(&raw, &order)) {
                    Ok(Ok(md)) => { e["out"] = json!("ok");
                        let num = |v: Result<f64, String>| r(v.unwrap_or(f64::NAN));
                        e["n_obs"] = num(guard(|| md.n_obs())); e["n_eff"] = num(guard(|| md.n_eff()));
                        if let Ok(k) = guard(|| md.kept()) {
                            e["ky"] = rv(&k.0); e["khas"] = json!([k.1.is_some(), k.2.is_some(), k.3.is_some()]); e["koff"] = optv(&k.1); e["kw"] = optv(&k.2); e["kf"] = optv(&k.3);
                        } else { e["khas"] = json!([false, false, false]) }
                        model = Some(md); }
                    Ok(Err(k)) => { e["out"] = json!("err"); e["err"] = json!(k); }
                    Err(p) => { e["out"] = json!("panic"); e["err"] = json!(p); }
                }
                push(e);
                models[m] = Some(Slot { raw, model });
            }
            "peek" => {
                let m = u(op, "m", 1);
                let Some(md) = models[m].as_ref().and_then(|s| s.model.as_ref()) else { continue };
                let v = guard(|| {
                    let k = md.kept();
                    let mut v = vec![md.n_obs(), md.n_eff()];
                    v.extend(&k.0); for o in [&k.1, &k.2, &k.3] { v.extend(o.as_deref().unwrap_or(&[])) }
                    v.extend(&k.4);
                    v
                }).unwrap_or_default();
                push(json!({"e": "peek", "m": m, "v": rv(&v)}));
            }
            "fit" => {
                let (m, f) = (u(op, "m", 1), u(op, "f", 1));
                let Some(sl) = models[m].as_ref() else { continue };
                let Some(md) = sl.model.as_ref() else { continue };
                let basef = op.get("of").and_then(|v| v.as_u64()).and_then(|t| fits[t as usize].as_ref()).map(|t| t.res.clone()).unwrap_or_default();
                let ik = s(op, "init", "none");
                let q = |v: f64| if sl.raw.dtype == "f32" { v as f32 as f64 } else { v };
                let init = if ik == "none" || (ik == "result" && basef.is_empty()) { None } else { Some(coefs(&ik, &sl.raw, &basef, &fits, &mut rng).into_iter().map(q).collect::<Vec<_>>()) };
                let has = |k: &str| op.get(k).is_some() && s(op, k, "x") != "";
                let eps = if sl.raw.dtype == "f32" { f32::EPSILON as f64 } else { f64::EPSILON };
                let o = Opts { l1: q(fl(op, "l1", 0.)), l2: q(fl(op, "l2", 0.)), tol: if has("tol") { Some(q(fl(op, "tol", 0.))) } else { None },
                    max_iter: if has("max_iter") { Some(u(op, "max_iter", 128)) } else { None }, init, via: s(op, "via", "chain") };
                let mut e = json!({"e": "fit", "m": m, "f": f, "l1": r(o.l1), "l2": r(o.l2), "tol": r(o.tol.unwrap_or(eps)), "max_iter": o.max_iter.unwrap_or(128),
                    "hasinit": o.init.is_some(), "init": optv(&o.init), "initkind": ik, "out": "hang", "err": "", "n_iter": 0, "res": [], "like": r(0.), "hn": 0, "hx": [], "hb": [], "hl": [],
                    "echo": true});
                pend(e.clone());
                let hist = |e: &mut J, h: &[(Vec<f64>, f64)]| {
                    let n = h.len();
                    let keep: Vec<usize> = (0..n).filter(|i| n <= 150 || *i < 60 || *i + 60 >= n).collect();
                    e["hn"] = json!(n);
                    e["hx"] = json!(keep.iter().map(|i| i + 1).collect::<Vec<_>>());
                    e["hb"] = J::Array(keep.iter().map(|i| rv(&h[*i].0)).collect());
                    e["hl"] = J::Array(keep.iter().map(|i| r(h[*i].1)).collect());
                };
                let mut slot = FSlot { m, fit: None, res: basef };
                match guard(|| md.fit(&o).map(|ft| { let i = ft.info(); (ft, i) })) {
                    Ok(Ok((ft, i))) => {
                        e["out"] = json!("ok"); e["n_iter"] = json!(i.n_iter); e["res"] = rv(&i.res); e["like"] = r(i.like);
                        hist(&mut e, &i.hist);
                        let same = |a: f64, b: f64| a == b;
                        e["echo"] = json!(same(i.o.0, o.l1) && same(i.o.1, o.l2) && same(i.o.2, o.tol.unwrap_or(eps)) && i.o.3 == o.max_iter.unwrap_or(128));
                        slot.res = i.res; slot.fit = Some(ft);
                    }
                    Ok(Err(k)) => { e["out"] = json!("err"); e["err"] = json!(k.kind); e["n_iter"] = json!(k.n_iter); hist(&mut e, &k.hist); }
                    Err(p) => { e["out"] = json!("panic"); e["err"] = json!(p); }
                }
                push(e);
                fits[f] = Some(slot);
            }
            "obs" => {
                let f = u(op, "f", 1);
                let Some(fs) = fits[f].as_ref() else { continue };
                let Some(ft) = fs.fit.as_ref() else { continue };
                let raw = &models[fs.m].as_ref().unwrap().raw;
                let mut qs: Vec<J> = vec![];
                pend(json!({"e": "obs", "f": f, "q": [{"q": "hang", "st": "hang", "err": "", "v": [], "a": [], "x": [], "ho": false}]}));
                for q in op["q"].as_array().unwrap() {
                    let name = q.as_str().map(|t| t.to_string()).unwrap_or_else(|| s(q, "q", ""));
                    let at = s(q, "at", if matches!(name.as_str(), "fisher" | "score" | "lr_against" | "wald_against" | "score_against") { "result" } else { "" });
                    let mut qr = base.fork(u(q, "salt", 0) as u64 * 977 + 13);
                    let f32_ = raw.dtype == "f32";
                    let rd = |v: f64| if f32_ { v as f32 as f64 } else { v };
                    let mut a: Vec<f64> = if at.is_empty() { vec![] } else { coefs(&at, raw, &fs.res, &fits, &mut qr).into_iter().map(rd).collect() };
                    let mut x: Vec<Vec<f64>> = vec![];
                    let mut ho = false;
                    if name == "predict" {
                        x = match s(q, "x", "train").as_str() {
                            "train" => raw.x.clone(),
                            "empty" => vec![],
                            "one" => vec![raw.x[raw.x.len() / 2].clone()],
                            "zero" => vec![vec![0.; raw.k]; 3],
                            "same" => vec![raw.x[0].clone(); 4],
                            "far" => (0..7).map(|i| (0..raw.k).map(|j| rd(raw.x[(i * 3) % raw.x.len()][j] * [1., -2., 3.][i % 3])).collect()).collect(),
                            _ => (0..5).map(|i| (0..raw.k).map(|j| rd(raw.x[i % raw.x.len()][j] * (0.5 + qr.unif()) + 0.1 * qr.norm())).collect()).collect(),
                        };
                        match s(q, "off", "none").as_str() {
                            "none" => {}
                            "train" => { if let Some(o) = &raw.off { a = o.clone(); ho = true } }
                            "zero" => { a = vec![0.; x.len()]; ho = true }
                            "grid" => { let n = x.len() as f64; a = (0..x.len()).map(|i| rd(fl(q, "lo", -5.) + (fl(q, "hi", 5.) - fl(q, "lo", -5.)) * i as f64 / (n - 1.).max(1.))).collect(); ho = true }
                            _ => { a = (0..x.len()).map(|_| rd(0.2 * qr.norm())).collect(); ho = true }
                        }
                    }
                    let mut e = json!({"q": name, "st": "ok", "err": "", "v": [], "a": rv(&a), "x": rm(&x), "ho": ho, "at": at});
                    match guard(|| ft.q(&name, &a, &x, raw.k, if ho { Some(&a) } else { None })) {
                        Ok(Ok(Out::S(v))) => e["v"] = r(v),
                        Ok(Ok(Out::V(v))) => e["v"] = rv(&v),
                        Ok(Ok(Out::M(v))) => e["v"] = rm(&v),
                        Ok(Err(k)) => { if k == "NA" { continue } e["st"] = json!("err"); e["err"] = json!(k); }
                        Err(p) => { e["st"] = json!("panic"); e["err"] = json!(p); }
                    }
                    qs.push(e);
                }
                push(json!({"e": "obs", "f": f, "q": qs}));
            }
            "link" => {
                let (fam, link, dt) = (s(op, "fam", &s(sc, "fam", "")), s(op, "link", &s(sc, "link", "")), s(sc, "dtype", "f64"));
                let v: Vec<f64> = op["v"].as_array().unwrap().iter().map(|t| { let t: f64 = t.as_str().unwrap().parse().unwrap(); if dt == "f32" { t as f32 as f64 } else { t } }).collect();
                let which = s(op, "which", "g");
                let mut e = json!({"e": "link", "fam": fam, "link": link, "dtype": dt, "which": which, "a": rv(&v), "out": "ok", "v": []});
                match guard(|| link_fn(&fam, &link, &dt, &which, &v)) { Ok(Ok(o)) => e["v"] = rv(&o), Ok(Err(_)) => continue, Err(_) => e["out"] = json!("panic") }
                push(e);
            }
            o => panic!("op {o} at {ln}"),
        }
        let _ = b(op, "", false);
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|v| v.parse().ok()).unwrap_or(1);
    let limit: u64 = std::env::var("GLM_SESSION_S").ok().and_then(|v| v.parse().ok()).unwrap_or(25);
    std::panic::set_hook(Box::new(|_| {}));
    let file = std::fs::File::open(&args[1]).expect("scenario file");
    let scs: Vec<J> = std::io::BufReader::new(file).lines().map(|l| l.unwrap()).filter(|l| !l.trim().is_empty()).map(|l| serde_json::from_str(&l).unwrap()).collect();
    let scs = Arc::new(scs);
    let progs: Arc<Vec<Arc<Mutex<Prog>>>> = Arc::new(scs.iter().map(|_| Arc::new(Mutex::new(Prog::default()))).collect());
    let next = Arc::new(Mutex::new(0usize));
    let harness_err: Arc<Mutex<Option<String>>> = Arc::new(Mutex::new(None));
    let spawn = || {
        let (scs, progs, next, herr) = (scs.clone(), progs.clone(), next.clone(), harness_err.clone());
        std::thread::Builder::new().stack_size(16 << 20).spawn(move || loop {
            let i = { let mut n = next.lock().unwrap(); if *n >= scs.len() { return } *n += 1; *n - 1 };
            progs[i].lock().unwrap().started = Some(Instant::now());
            // errors here are the harness's own: every call into the crate is guarded separately
            if let Err(e) = guard(|| session(&scs[i], seed, &progs[i])) {
                let mut p = progs[i].lock().unwrap_or_else(|e| e.into_inner());
                match p.pending.take() {
                    // a call was under way: the session ends with it
                    Some(mut ev) => { ev["out"] = json!("panic"); ev["err"] = json!(e);
                        if let Some(q) = ev.get_mut("q").and_then(|q| q.get_mut(0)) { q["st"] = json!("panic") }
                        p.events.push(ev) }
                    None => *herr.lock().unwrap() = Some(format!("{}: {e}", scs[i]["sid"])),
                }
            }
            progs[i].lock().unwrap().done = true;
        }).unwrap();
    };
    let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
    for _ in 0..workers { spawn() }
    let mut hung = vec![false; scs.len()];
    loop {
        std::thread::sleep(Duration::from_millis(3));
        let mut open = 0;
        for (i, p) in progs.iter().enumerate() {
            if hung[i] { continue }
            let p = p.lock().unwrap();
            if p.done { continue }
            if let Some(t) = p.started { if t.elapsed().as_secs() > limit { hung[i] = true; drop(p); spawn(); continue } }
            open += 1;
        }
        if open == 0 { break }
        if harness_err.lock().unwrap().is_some() { break }
    }
    if let Some(e) = harness_err.lock().unwrap().as_ref() { eprintln!("harness: {e}"); std::process::exit(2) }
    let mut out = std::io::BufWriter::new(std::fs::File::create(&args[2]).expect("output"));
    for (i, sc) in scs.iter().enumerate() {
        let p = progs[i].lock().unwrap();
        let mut ev = p.events.clone();
        if hung[i] { if let Some(e) = &p.pending { ev.push(e.clone()) } }
        let o = json!({"sid": sc["sid"], "prop": s(sc, "prop", ""), "kind": s(sc, "kind", ""), "wp": b(sc, "wp", false), "ev": ev});
        writeln!(out, "{o}").unwrap();
    }
    out.flush().unwrap();
    std::process::exit(0);
}
