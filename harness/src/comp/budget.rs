//! TpsBudget and ExponentialBackoff
use serde_json::json;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};
use std::sync::{Arc, Barrier};
use std::time::Duration;
use tower::retry::backoff::{Backoff, ExponentialBackoff, ExponentialBackoffMaker, MakeBackoff};
use tower::retry::budget::{Budget, TpsBudget};
use tower::util::rng::Rng as TowerRng;
use vharness::*;

struct Bud {
    ctx: Ctx,
    clock: Clock,
    b: Arc<TpsBudget>,
    advs: Vec<u64>,
    cut: bool,
    unit: Duration,
    // how many very large deposits are left, and what one deposit amounts to
    huge: u32,
    dep: i64,
}
impl Bud {
    fn part(&self, o: &str) -> cut::Part<Bud> {
        let (b, h, dep) = (self.b.clone(), self.clock.rt.handle().clone(), o == "deposit");
        Box::new(move || {
            let _g = h.enter();
            let r = if dep {
                b.deposit();
                json!(["ok"])
            } else {
                json!(["ok", b.withdraw()])
            };
            Box::new(move |_| r)
        })
    }
}
impl Sut for Bud {
    fn ctx(&self) -> Ctx {
        self.ctx.clone()
    }
    fn apply(&mut self, o: &Op) -> J {
        let _g = self.clock.rt.enter();
        match o.op.as_str() {
            "deposit" => {
                for _ in 0..o.u(0) {
                    self.b.deposit();
                }
                json!(["ok"])
            }
            "withdraw" => json!(["ok", self.b.withdraw()]),
            "pair" => {
                drop(_g);
                let (a, b) = (self.part(o.s(0)), self.part(o.s(2)));
                let ctx = self.ctx.clone();
                let (ra, rb, log) = cut::both(self, &ctx, o.i(4), a, b);
                json!(["pair", ra, rb, log])
            }
            "burst" => {
                let (p, m) = (o.u(0), o.u(1));
                if p == 1 {
                    // (at one moment nothing changes after many refusals)
                    let (mut n, mut no) = (0, 0);
                    for _ in 0..m {
                        if self.b.withdraw() {
                            (n, no) = (n + 1, 0);
                        } else {
                            no += 1;
                        }
                        if no == 3000 {
                            break;
                        }
                    }
                    return json!(["ok", n]);
                }
                // the threads share the paused clock
                let got = Arc::new(AtomicI64::new(0));
                let bar = Arc::new(Barrier::new(p));
                let ts: Vec<_> = (0..p)
                    .map(|_| {
                        let (b, got, bar, h) = (self.b.clone(), got.clone(), bar.clone(), self.clock.rt.handle().clone());
                        std::thread::spawn(move || {
                            let _g = h.enter();
                            bar.wait();
                            for _ in 0..m {
                                if b.withdraw() {
                                    got.fetch_add(1, Ordering::SeqCst);
                                }
                            }
                        })
                    })
                    .collect();
                for t in ts {
                    t.join().unwrap();
                }
                json!(["ok", got.load(Ordering::SeqCst)])
            }
            "mix" => {
                let (p, m) = (o.u(0), o.u(1));
                let bar = Arc::new(Barrier::new(2 * p));
                let ts: Vec<_> = (0..2 * p)
                    .map(|i| {
                        let (b, bar, h) = (self.b.clone(), bar.clone(), self.clock.rt.handle().clone());
                        std::thread::spawn(move || {
                            let _g = h.enter();
                            bar.wait();
                            if i % 2 == 0 {
                                (0..m).for_each(|_| b.deposit());
                                0
                            } else {
                                (0..m).filter(|_| b.withdraw()).count()
                            }
                        })
                    })
                    .collect();
                json!(["ok", ts.into_iter().map(|t| t.join().unwrap()).sum::<usize>()])
            }
            "adv" => {
                drop(_g);
                self.clock.advance_by(self.unit * o.u(0) as u32);
                json!(["ok"])
            }
            x => panic!("harness: op {}", x),
        }
    }
    fn choose(&mut self, r: &mut Rng) -> Option<Op> {
        if !self.cut && self.huge > 0 && r.chance(1, 50) {
            // very many, as far as the checker's numbers go
            self.huge -= 1;
            let m = (100_000_000 / self.dep).clamp(1, 300_000);
            return Some(op("deposit", vec![json!(r.range(m / 4 + 1, m + 1))]));
        }
        if self.cut && r.chance(1, 2) {
            let mut one = || if r.chance(1, 3) { [json!("deposit"), json!([1])] } else { [json!("withdraw"), json!([])] };
            let ([a, aa], [b, ba]) = (one(), one());
            return Some(op("pair", vec![a, aa, b, ba, json!(cut::pick(r))]));
        }
        Some(match r.below(20) {
            x if self.cut && x < 7 => op("deposit", vec![json!(1)]),
            x if self.cut && (13..16).contains(&x) => op("withdraw", vec![]),
            0 if r.chance(1, 4) => op("deposit", vec![json!(r.range(100, 5000))]),
            0..=6 => op("deposit", vec![json!(r.range(1, 6))]),
            7..=12 => op("withdraw", vec![]),
            13 => op("burst", vec![json!(1), json!(if r.chance(1, 3) { r.range(100, if self.huge < 3 { 5_000_000 } else { 20_000 }) } else { r.range(1, 40) })]),
            14 if r.chance(1, 4) => op("burst", vec![json!(r.range(2, 4)), json!(r.range(1, 20))]),
            15 if r.chance(1, 4) => op("mix", vec![json!(r.range(1, 4)), json!(r.range(1, 20))]),
            _ => op("adv", vec![json!(r.pick(&self.advs).unwrap())]),
        })
    }
}

pub fn budget() -> Component {
    Component {
        name: "TpsBudget",
        boot: Box::new(|c| {
            let clock = Clock::new();
            let ttl = c["ttl"].as_u64().unwrap();
            let pct = c["pct"].as_u64().unwrap() as f32 / 100.0;
            let b = {
                let _g = clock.enter();
                if c["kind"] == "default" { TpsBudget::default() } else { TpsBudget::new(Duration::from_nanos(ttl * (1_000_000 / c["u"].as_u64().unwrap_or(1))), c["min"].as_u64().unwrap() as u32, pct) }
            };
            let advs = c["advs"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap()).collect()).unwrap_or_default();
            // what a deposit amounts to in the specification
            let pct = c["pct"].as_i64().unwrap();
            let (d, w) = if pct == 0 { (1, 1) } else if pct <= 100 { (1000, (200_000 + pct) / (2 * pct)) } else { (10 * pct, 1000) };
            let gcd = |mut a: i64, mut b: i64| {
                while b > 0 {
                    (a, b) = (b, a % b);
                }
                a
            };
            let dep = d / gcd(d, w);
            let unit = Duration::from_nanos(1_000_000 / c["u"].as_u64().unwrap_or(1));
            Box::new(Bud { ctx: Ctx::new(), clock, b: Arc::new(b), advs, cut: c["cut"] == json!(true), unit, huge: 3, dep })
        }),
        random_cfg: Box::new(|r, p| {
            let def = r.chance(1, 6);
            let u = if !def && r.chance(1, 5) { *r.pick(&[20, 1000]).unwrap() } else { 1 };
            let ttl = if def { 10_000 } else if u > 1 { *r.pick(&[1000 * u + 10, 1999 * u + 10, 1500 * u]).unwrap() } else { *r.pick(&[1000, 1000, 2000, 5000, 10_000, 60_000, 1500, 7770]).unwrap() };
            let w = ttl / 10;
            let advs = vec![1, w / 2, w / 2, w - 1, w, w + 1, w + w / 2, 2 * w, 3 * w + 1, 4 * w, ttl / 2, ttl - w, ttl, ttl + 1, 30 * w];
            let pct = if def { 20 } else { *r.pick(&[0, 10, 20, 25, 30, 50, 60, 70, 75, 90, 100, 100, 150, 200, 300, 350, 1000, 70_000, 100_000]).unwrap() };
            let min = if def { 10 } else { *r.pick(&[0, 0, 1, 2, 3, 10]).unwrap() };
            json!({"ttl": ttl, "u": u, "min": min, "pct": pct, "kind": (if def {"default"} else {"new"}), "advs": advs, "cut": p["cut"] == json!(true)})
        }),
    }
}

#[derive(Clone)]
struct Fixed(Arc<AtomicU64>);
impl TowerRng for Fixed {
    fn next_u64(&mut self) -> u64 {
        self.0.load(Ordering::SeqCst) << 61
    }
}
struct Back {
    ctx: Ctx,
    clock: Clock,
    f: Arc<AtomicU64>,
    mk: Option<ExponentialBackoffMaker<Fixed>>,
    // with the unit its maker was made with
    se: BTreeMap<usize, (ExponentialBackoff<Fixed>, u64)>,
    n: i64,
    unit: u64,
}
impl Sut for Back {
    fn ctx(&self) -> Ctx {
        self.ctx.clone()
    }
    fn apply(&mut self, o: &Op) -> J {
        let _g = self.clock.rt.enter();
        match o.op.as_str() {
            "new" => {
                let j = match o.i(2) {
                    -1 => -0.5,
                    201 => 100.5,
                    998 => f64::NAN,
                    999 => f64::INFINITY,
                    j => j as f64 / 2.0,
                };
                let unit = match o.s(3) {
                    "us" => 1_000,
                    // (tokio cuts sleeps off at 30 years)
                    "ds" => 100_000_000,
                    "tiny" => 1_024,
                    // 2^32 s
                    "eon" => 4_294_967_296_000_000_000,
                    _ => 1_000_000u64,
                };
                let dur = |n: i64| Duration::from_nanos(unit % 1_000_000_000) * n as u32 + Duration::from_secs(unit / 1_000_000_000 * n as u64);
                match ExponentialBackoffMaker::new(
                    if o.s(3) == "tiny" { Duration::from_nanos(o.i(0) as u64) } else { dur(o.i(0)) },
                    dur(o.i(1)),
                    j,
                    Fixed(self.f.clone()),
                ) {
                    Ok(m) => {
                        self.mk = Some(m);
                        self.unit = unit;
                        json!(["ok"])
                    }
                    Err(_) => json!(["invalid"]),
                }
            }
            "make" => {
                let s = self.mk.as_mut().unwrap().make_backoff();
                self.se.insert(o.u(0), (s, self.unit));
                json!(["ok"])
            }
            "next" => {
                self.f.store(o.u(1) as u64, Ordering::SeqCst);
                let now = tokio::time::Instant::now();
                let (b, unit) = self.se.get_mut(&o.u(0)).unwrap();
                let sl = b.next_backoff();
                let d = sl.deadline() - now;
                if *unit > 1 << 60 && d > Duration::from_secs(29 * 365 * 86_400) {
                    return json!(["far"]);
                }
                json!(["ok", ((d.as_nanos() + if *unit == 1_024 { 0 } else { *unit as u128 / 2 }) / *unit as u128) as u64])
            }
            x => panic!("harness: op {}", x),
        }
    }
    fn choose(&mut self, r: &mut Rng) -> Option<Op> {
        let ss: Vec<usize> = self.se.keys().copied().collect();
        let i = r.range(1, self.n);
        Some(match if self.mk.is_none() { 0 } else if ss.is_empty() { 2 } else { r.below(40) } {
            0 | 1 => {
                let max = *r.pick(&[1, 16, 320, 4800, 32000, 64_000, 1 << 20, 1 << 30, i32::MAX as i64 - 15]).unwrap();
                let min = *r.pick(&[0, 1, 3, 16, 48, 1600, 16_000, 32_000, 17 * 16, 2_000_000]).unwrap();
                if r.chance(1, 6) {
                    let max = *r.pick(&[1, 5, 100, 1 << 30, (1 << 30) - 1]).unwrap();
                    let min = *r.pick(&[0, 1, 3, 100, 1 << 29, 1 << 30]).unwrap();
                    return Some(op("new", vec![json!(min), json!(max), json!(r.pick(&[0, 1, 2, 20, 200]).unwrap()), json!("eon")]));
                }
                if r.chance(1, 5) {
                    let max = *r.pick(&[1, 5, 1 << 20, 1 << 22, 1 << 23, i32::MAX as i64]).unwrap();
                    let min = *r.pick(&[0, 1, 1, 2, 3, 100, 1000, 1024, 2000]).unwrap();
                    return Some(op("new", vec![json!(min), json!(max), json!(0), json!("tiny")]));
                }
                // the sums come out even
                let jit = if min % 16 != 0 || max > 1 << 20 { &[0][..] } else { &[0, 1, 2, 3, 4, 20, 200, 201, -1, 998, 999] };
                op("new", vec![json!(min), json!(max), json!(r.pick(jit).unwrap()), json!(r.pick(&["us", "ms", "ds"]).unwrap())])
            }
            2 | 3 if self.mk.is_some() => op("make", vec![json!(i)]),
            // one session grows long
            x if x < 24 => op("next", vec![json!(ss[0]), json!(r.range(0, 7))]),
            _ => op("next", vec![json!(r.pick(&ss)?), json!(r.range(0, 7))]),
        })
    }
}
pub fn backoff() -> Component {
    Component {
        name: "Backoff",
        boot: Box::new(|c| {
            let b = Back {
                ctx: Ctx::new(),
                clock: Clock::new(),
                f: Arc::new(AtomicU64::new(0)),
                mk: None,
                se: BTreeMap::new(),
                n: c["n"].as_i64().unwrap_or(2),
                unit: 1_000_000,
            };
            Box::new(b)
        }),
        random_cfg: Box::new(|_, _| json!({"n": 3})),
    }
}
