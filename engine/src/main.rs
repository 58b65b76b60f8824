mod accs;
mod dec;
mod enc;
mod ios;
mod leafs;
mod long;
mod util;
use util::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering;
use std::time::{Duration, Instant};

pub struct Ctx {
    pub prop: String, pub seed: u64, pub deadline: Instant, pub cases: u64, pub families: Vec<(String, u64)>, pub fails: Vec<(String, Fail)>, pub samples: Vec<String>,
    /// failures with one of these tags count as failures of the property too
    pub alias: &'static [&'static str],
    pub distinct: std::collections::HashSet<u64>,
}
thread_local! { static LAST_PANIC: std::cell::RefCell<String> = Default::default(); }

impl Ctx {
    pub fn full(&self) -> bool { self.fails.len() >= 3 || Instant::now() > self.deadline }
    /// runs one case; extra: properties a failure of this case violates besides the tags of the observation
    pub fn case(&mut self, family: &str, extra: &[&'static str], desc: &dyn Fn() -> String, f: &mut dyn FnMut() -> Ck) -> bool {
        self.cases += 1;
        match self.families.iter_mut().find(|x| x.0 == family) { Some(x) => x.1 += 1, None => self.families.push((family.into(), 1)) }
        let d = desc();
        beat(&|| d.clone());
        { use std::hash::{Hash, Hasher}; let mut h = std::collections::hash_map::DefaultHasher::new(); d.hash(&mut h); if self.distinct.len() < 2_000_000 { self.distinct.insert(h.finish()); } }
        if self.samples.len() < 3 || (self.cases % 9973 == 0 && self.samples.len() < 8) { self.samples.push(d.chars().take(300).collect()) }
        if let Some(mut x) = attempt(f) {
            x.tags.extend_from_slice(extra);
            x.case = d;
            if self.prop == "all" || x.tags.iter().any(|t| *t == self.prop || self.alias.contains(t)) { self.fails.push((family.into(), x)); return false }
        }
        true
    }
}
pub fn attempt(f: &mut dyn FnMut() -> Ck) -> Option<Fail> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(())) => None,
        Ok(Err(x)) => Some(x),
        Err(_) => Some(fail(&["C01"], format!("panic: {}", LAST_PANIC.with(|p| p.borrow().clone())))),
    }
}

fn dec_family(c: &mut Ctx, name: &str, root: Option<&'static str>, extra: &'static [&'static str], n: usize) {
    let mut r = Rng::new(c.seed ^ name.bytes().fold(0u64, |a: u64, b| a.wrapping_mul(131).wrapping_add(b as u64)));
    for _ in 0..n {
        if c.full() { return }
        let depth = r.range(1, 3);
        let g = dec::gen(&mut r, depth, root);
        for _ in 0..12 {
            let pl = dec::plan(&mut r);
            if attempt(&mut || dec::run(&g, &pl, None)).is_none() {
                if !c.case(name, extra, &|| format!("decode {:?} with {:?}", g, pl), &mut || Ok(())) { return }
                continue;
            }
            // a failure of the parts alone is not this combinator's
            let attributed = root.is_none() || !children(&g).iter().any(|x| dec_breaks(x, &mut r));
            let (g2, pl2) = shrink_dec(&g, &pl, &mut r, root.is_none());
            let ex: &[&'static str] = if attributed { extra } else { &[] };
            c.case(name, ex, &|| format!("decode {:?} with {:?}", g2, pl2), &mut || dec::run(&g2, &pl2, None));
            if c.full() { return }
            break;
        }
    }
}
fn children(g: &dec::G) -> Vec<dec::G> {
    use dec::G::*;
    match g {
        Length(_, x) | Max(_, x) | Collect(x) | CollectN(_, x) | Map(x) | TryMap(_, x) | MapErr(x) | Omit(_, x) | Peek(x) | MaybeEos(x) | Boxed(x) | RefMut(x) | SliceBig(x) => vec![(**x).clone()],
        Tuple(v) | Pair(_, v) => v.clone(),
        AndThen(x, v) => { let mut l = vec![(**x).clone()]; l.extend(v.clone()); l }
        _ => vec![],
    }
}
fn dec_breaks(g: &dec::G, r: &mut Rng) -> bool { (0..600).any(|_| { let pl = dec::plan(r); attempt(&mut || dec::run(g, &pl, None)).is_some() }) }
fn shrink_dec(g: &dec::G, pl: &dec::Plan, r: &mut Rng, down: bool) -> (dec::G, dec::Plan) {
    let mut g = g.clone();
    if down { loop { match children(&g).into_iter().find(|x| dec_breaks(x, r)) { Some(x) => g = x, None => break } } }
    let mut best = pl.clone();
    let mut have = attempt(&mut || dec::run(&g, pl, None)).is_some();
    for _ in 0..3000 {
        let p = dec::plan(r);
        if (!have || p.s.len() * 4 + p.items < best.s.len() * 4 + best.items) && attempt(&mut || dec::run(&g, &p, None)).is_some() { best = p; have = true }
    }
    (g, best)
}
fn enc_children(g: &enc::H) -> Vec<enc::H> {
    use enc::H::*;
    match g {
        Length(_, x) | Max(_, x) | MapFrom(x) | TryFrom(_, x) | MapErr(x) | Opt(x) | Repeat(x) | Pre(x) | Last(x) | Boxed(x) | RefMut(x) | SliceBig(x) => vec![(**x).clone()],
        Tuple(v) | Pair(_, v) => v.clone(),
        _ => vec![],
    }
}
fn enc_breaks(g: &enc::H, r: &mut Rng) -> bool { (0..600).any(|_| { let pl = enc::plan(g, r, false); attempt(&mut || enc::run(g, &pl)).is_some() }) }
fn enc_family(c: &mut Ctx, name: &str, root: Option<&'static str>, extra: &'static [&'static str], n: usize, quota: bool) {
    let mut r = Rng::new(c.seed ^ name.bytes().fold(5u64, |a: u64, b| a.wrapping_mul(131).wrapping_add(b as u64)));
    for _ in 0..n {
        if c.full() { return }
        let depth = r.range(1, 3);
        let g = enc::gen(&mut r, depth, root);
        for _ in 0..12 {
            let pl = enc::plan(&g, &mut r, quota);
            if attempt(&mut || enc::run(&g, &pl)).is_none() {
                c.case(name, extra, &|| format!("encode {:?} with {:?}", g, pl), &mut || Ok(()));
                continue;
            }
            let mut g2 = g.clone();
            if root.is_none() && !quota { while let Some(x) = enc_children(&g2).into_iter().find(|x| enc_breaks(x, &mut r)) { g2 = x } }
            let attributed = if quota { !enc_breaks(&g, &mut r) } else { root.is_none() || !enc_children(&g).iter().any(|x| enc_breaks(x, &mut r)) };
            let mut best = pl.clone();
            let mut have = attempt(&mut || enc::run(&g2, &pl)).is_some();
            let size = |p: &enc::Plan| format!("{:?}", p.items).len() + p.cuts.iter().sum::<usize>() / 16;
            for _ in 0..3000 {
                let p = enc::plan(&g2, &mut r, quota);
                if (!have || size(&p) < size(&best)) && attempt(&mut || enc::run(&g2, &p)).is_some() { best = p; have = true }
            }
            let ex: &[&'static str] = if attributed { extra } else { &[] };
            c.case(name, ex, &|| format!("encode {:?} with {:?}", g2, best), &mut || enc::run(&g2, &best));
            if c.full() { return }
            break;
        }
    }
}
fn slice_dec(c: &mut Ctx, n: usize) {
    let mut r = Rng::new(c.seed ^ 0x51);
    for _ in 0..n {
        if c.full() { return }
        let d = r.below(3);
        let g = dec::gen(&mut r, d, None);
        for _ in 0..8 {
            let pl = dec::plan(&mut r);
            let q: Vec<u64> = (0..r.range(1, 5)).map(|_| r.below(5) as u64).collect();
            if dec::has(&g, &|x| matches!(x, dec::G::Max(..))) { break }
            let mut f = || dec::run(&g, &pl, Some(&q));
            if attempt(&mut f).is_some() && dec_breaks(&g, &mut r) { break }
            c.case("slice decode", &["C09"], &|| format!("slice decode {:?} with {:?} quotas {:?}", g, pl, q), &mut f);
        }
    }
}

fn dispatch(c: &mut Ctx) {
    let p = c.prop.clone();
    let all = p == "all";
    let big = 1_000_000_000;
    let is = |x: &str| p == x || all;
    let n = if all { 1500 } else { big };
    let slices: Vec<(&str, Box<dyn Fn(&mut Ctx, usize)>)> = {
        let mut v: Vec<(&str, Box<dyn Fn(&mut Ctx, usize)>)> = vec![];
        if ["C01", "C02", "C05", "C06", "C21"].iter().any(|x| is(x)) {
            v.push(("", Box::new(|c, n| dec_family(c, "decoder grammar", None, &[], n))));
            v.push(("", Box::new(|c, n| enc_family(c, "encoder grammar", None, &[], n, false))));
            v.push(("", Box::new(slice_dec)));
            v.push(("", Box::new(|c, n| enc_family(c, "slice encode", None, &["C09"], n, true))));
        }
        if !all && ["C01", "C02", "C05", "C06"].iter().any(|x| is(x)) {
            // what a leaf codec writes or yields is its format
            let set = |c: &mut Ctx, on: bool| c.alias = if on && c.prop == "C02" { &["C03", "C04", "C18", "C20"] } else { &[] };
            v.push(("", Box::new(move |c, n| { set(c, true); leafs::bytes(c, n / 4); set(c, false) })));
            v.push(("", Box::new(move |c, _| { set(c, true); leafs::fixnum(c, 1); set(c, false) })));
            v.push(("", Box::new(move |c, n| { set(c, true); leafs::padding(c, n / 4); set(c, false) })));
            v.push(("", Box::new(move |c, n| { set(c, true); ios::mono(c, n / 4); set(c, false) })));
        }
        macro_rules! d { ($p:literal, $root:literal) => { if is($p) { v.push(("", Box::new(|c, n| dec_family(c, concat!("decode ", $root), Some($root), &[$p], n)))) } } }
        macro_rules! e { ($p:literal, $root:literal) => { if is($p) { v.push(("", Box::new(|c, n| enc_family(c, concat!("encode ", $root), Some($root), &[$p], n, false)))) } } }
        d!("C07", "length"); e!("C07", "length");
        d!("C08", "max"); e!("C08", "max");
        if is("C09") { v.push(("", Box::new(slice_dec))); v.push(("", Box::new(|c, n| enc_family(c, "slice encode", None, &["C09"], n, true)))); }
        d!("C09", "slice"); e!("C09", "slice");
        d!("C10", "collect"); d!("C10", "collectn");
        d!("C11", "tuple"); e!("C11", "tuple");
        e!("C12", "repeat"); e!("C12", "last");
        d!("C13", "map"); d!("C13", "trymap"); d!("C13", "maperr"); d!("C13", "andthen"); d!("C13", "omit"); d!("C13", "peek"); d!("C13", "maybeeos");
        d!("C13", "boxed"); d!("C13", "refmut"); e!("C13", "boxed"); e!("C13", "refmut");
        e!("C13", "mapfrom"); e!("C13", "tryfrom"); e!("C13", "maperr"); e!("C13", "opt"); e!("C13", "pre");
        if is("C03") { v.push(("", Box::new(|c, n| leafs::fixnum(c, n.min(60))))); }
        if is("C04") { v.push(("", Box::new(|c, n| leafs::bytes(c, n)))); }
        if is("C20") { v.push(("", Box::new(|c, n| leafs::padding(c, n)))); }
        if is("C17") { v.push(("", Box::new(|c, n| leafs::algebra(c, n)))); }
        if is("C14") { v.push(("", Box::new(|c, n| ios::buffers(c, n, false)))); }
        if is("C15") { v.push(("", Box::new(|c, n| ios::both(c, n, false)))); }
        if is("C16") { v.push(("", Box::new(|c, n| ios::helpers(c, n)))); }
        if is("C18") { v.push(("", Box::new(|c, n| ios::mono(c, n)))); }
        if is("C19") { v.push(("", Box::new(|c, n| ios::buffers(c, n, true)))); v.push(("", Box::new(|c, n| ios::both(c, n, true)))); }
        if ["C01", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13"].iter().any(|x| is(x)) { v.push(("", Box::new(|c, n| { let p = c.prop.clone(); accs::all(c, &p, n) }))); }
        if is("C21") { v.push(("", Box::new(|c, _| leafs::errors(c)))); }
        if !["C03", "C14", "C15", "C16", "C17", "C18", "C19", "C21"].contains(&&p[..]) { v.push(("", Box::new(|c, n| { let p = c.prop.clone(); long::all(c, &p, n) }))); }
        v
    };
    // equal slices of the time budget, in rounds
    let chunk = if all { n } else { 60 };
    let mut seed = c.seed;
    if slices.is_empty() { return }
    while !c.full() {
        for (_, f) in &slices { if c.full() { break } c.seed = seed; f(c, chunk); }
        seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        if all { break }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone()).unwrap_or(d.into());
    let prop = a[1].clone();
    let seed: u64 = get("--seed", "1").parse().unwrap();
    let budget: u64 = get("--budget-ms", "5000").parse().unwrap();
    let out = get("--out", "/dev/stdout");
    std::panic::set_hook(Box::new(|i| { let s = i.to_string(); LAST_PANIC.with(|p| *p.borrow_mut() = s.replace('\n', " ")); if std::env::var("ENGINE_DEBUG").is_ok() { eprintln!("{}", s) } }));
    let out2 = out.clone();
    let prop2 = prop.clone();
    std::thread::spawn(move || {
        // only processor time spent on one case counts: a busy machine is not an endless loop
        let cpu = || -> u64 { std::fs::read_to_string("/proc/self/stat").ok().and_then(|s| { let t: Vec<&str> = s.rsplit(')').next()?.split_whitespace().collect(); Some(t[11].parse::<u64>().ok()? + t[12].parse::<u64>().ok()?) }).unwrap_or(0) };
        let mut last = 0; let mut since = Instant::now(); let mut from = cpu();
        loop {
            std::thread::sleep(Duration::from_millis(200));
            let b = BEAT.load(Ordering::Relaxed);
            if b != last { last = b; since = Instant::now(); from = cpu() }
            if since.elapsed() > Duration::from_secs(8) && cpu().saturating_sub(from) > 600 {
                let what = CURRENT.lock().map(|c| c.clone()).unwrap_or_default();
                let j = serde_json::json!({"ok": false, "cases": b, "property": prop2, "failures": [{"family": "watchdog", "tags": ["C01", prop2], "what": "no answer within 6 s of processor time (endless loop)", "case": what}]});
                std::fs::write(&out2, j.to_string()).unwrap();
                std::process::exit(1);
            }
        }
    });
    let mut c = Ctx { prop: prop.clone(), seed, deadline: Instant::now() + Duration::from_millis(budget), cases: 0, families: vec![], fails: vec![], samples: vec![], alias: &[], distinct: Default::default() };
    dispatch(&mut c);
    let j = serde_json::json!({
        "ok": c.fails.is_empty(), "property": prop, "seed": seed, "cases": c.cases, "distinct": c.distinct.len(),
        "families": c.families.iter().map(|x| serde_json::json!([x.0, x.1])).collect::<Vec<_>>(), "samples": c.samples,
        "failures": c.fails.iter().map(|(f, x)| serde_json::json!({"family": f, "tags": x.tags, "what": x.what, "case": x.case})).collect::<Vec<_>>(),
    });
    std::fs::write(&out, format!("{}\n", j)).unwrap();
    std::process::exit(if c.fails.is_empty() { 0 } else { 1 });
}
