//! The on-chain tick bitmap under simulation: providers open and close positions in transactions
//! that may fail half-way, traders walk from tick to tick, the validator crashes and reloads the
//! account from what was committed. The reference is an ordered set of ticks.
use crate::harness::*;
use crate::rng::*;
use anchor_lang::prelude::{AccountInfo, AccountLoader, Pubkey};
use hmmcl_sandbox::state::tick_bitmap::PoolTickBitmap;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

const TICKS: i32 = 80_000;

#[derive(Clone, Serialize, Deserialize, Debug, PartialEq)]
pub enum Op {
    Activate(i32),
    Unset(i32),
    Active(i32),
    Next(i32, u8),
    /// Walk from this tick to the end in this direction, at most n ticks.
    Walk(i32, u8, u16),
}
#[derive(Clone, Serialize, Deserialize, Debug, PartialEq)]
pub enum Ev {
    /// A transaction; if `fail`, it is aborted after its last operation.
    Tx { ops: Vec<Op>, fail: bool },
    /// The validator restarts from the committed account.
    Crash,
}
#[derive(Clone, Serialize, Deserialize, Debug)]
pub struct Step {
    pub t: u64,
    pub ev: Ev,
}
#[derive(Clone, Serialize, Deserialize)]
pub struct Trace {
    pub bump: u8,
    pub steps: Vec<Step>,
}

struct World {
    prop: String,
    disk: Vec<u8>, // committed account data
    ram: Vec<u8>,  // the validator's working copy
    set: BTreeSet<i32>,
    bump: u8,
    viol: Option<Violation>,
    foreign: BTreeMap<String, u64>,
    st: Stats,
    at: usize,
    log: u64,
}
fn discriminator() -> [u8; 8] {
    <PoolTickBitmap as anchor_lang::Discriminator>::discriminator()
}
impl World {
    fn new(bump: u8, prop: &str) -> World {
        let mut disk = discriminator().to_vec();
        disk.resize(8 + std::mem::size_of::<PoolTickBitmap>(), 0);
        *disk.last_mut().unwrap() = bump;
        World {
            prop: prop.into(),
            ram: disk.clone(),
            disk,
            set: BTreeSet::new(),
            bump,
            viol: None,
            foreign: BTreeMap::new(),
            st: Stats::default(),
            at: 0,
            log: 0,
        }
    }
    fn bad(&mut self, class: &str, detail: String) {
        *self.foreign.entry(format!("B01|{}", class)).or_insert(0) += 1;
        if self.prop == "*" {
            eprintln!("B01|{}|{}", class, detail);
        } else if self.viol.is_none() {
            self.viol = Some(Violation { tag: "B01".into(), class: class.into(), detail, at_event: self.at });
        }
    }
    fn want_next(set: &BTreeSet<i32>, t: i32, dir: u8) -> Option<i32> {
        if dir == 0 {
            set.range(..t).next_back().copied()
        } else {
            set.range(t + 1..).next().copied()
        }
    }
    /// One instruction against the loaded account.
    fn op(&mut self, op: &Op, set: &mut BTreeSet<i32>) {
        let key = Pubkey::new_from_array([7; 32]);
        let owner = hmmcl_sandbox::id();
        let mut lam = 1u64;
        let mut data = std::mem::take(&mut self.ram);
        let mut said: Vec<(String, String)> = vec![];
        let res = {
            let info = AccountInfo::new(&key, false, true, &mut lam, &mut data, &owner, false, 0);
            std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let l: AccountLoader<PoolTickBitmap> = AccountLoader::try_from(&info).expect("account loads");
                match op {
                    Op::Activate(t) => l.load_mut().expect("mutable").activate_tick(*t),
                    Op::Unset(t) => l.load_mut().expect("mutable").unset_tick(*t),
                    Op::Active(t) => {
                        let got = l.load().expect("load").tick_is_active(*t);
                        if got != set.contains(t) {
                            said.push(("a tick's state is wrong".into(), format!("tick {} reported active: {}", t, got)));
                        }
                    }
                    Op::Next(t, d) => {
                        let got = l.load().expect("load").get_next_tick(*t, *d);
                        let want = World::want_next(set, *t, *d);
                        if got != want {
                            said.push(("next active tick is wrong".into(), format!("from {} {}: {:?} instead of {:?}", t, if *d == 0 { "down" } else { "up" }, got, want)));
                        }
                    }
                    Op::Walk(t, d, n) => {
                        let b = l.load().expect("load");
                        let (mut a, mut m) = (*t, *t);
                        for _ in 0..*n {
                            let got = b.get_next_tick(a, *d);
                            let want = World::want_next(set, m, *d);
                            if got != want {
                                said.push(("next active tick is wrong".into(), format!("walking {} from {}: at {} comes {:?} instead of {:?}", if *d == 0 { "down" } else { "up" }, t, m, got, want)));
                                break;
                            }
                            let Some(g) = got else { break };
                            a = g;
                            m = g;
                        }
                    }
                }
            }))
        };
        self.ram = data;
        match op {
            Op::Activate(t) => {
                set.insert(*t);
                self.st.hit("op.activate");
            }
            Op::Unset(t) => {
                set.remove(t);
                self.st.hit("op.unset");
            }
            Op::Active(_) => self.st.hit("op.query"),
            Op::Next(..) => self.st.hit("op.next tick"),
            Op::Walk(..) => self.st.hit("op.walk"),
        }
        for (c, d) in said {
            self.bad(&c, d);
        }
        if res.is_err() {
            self.bad("an operation fails", format!("{:?}", op));
        }
    }
    fn whole(&mut self) {
        self.st.hit("chk.whole map");
        let key = Pubkey::new_from_array([7; 32]);
        let owner = hmmcl_sandbox::id();
        let mut lam = 1u64;
        let mut data = self.ram.clone();
        let info = AccountInfo::new(&key, false, true, &mut lam, &mut data, &owner, false, 0);
        let set = self.set.clone();
        let bump = self.bump;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let l: AccountLoader<PoolTickBitmap> = AccountLoader::try_from(&info).expect("account loads");
            let b = l.load().expect("load");
            // every tick in and around the set, and a stride over the rest
            let mut probe: BTreeSet<i32> = set.iter().flat_map(|t| [t - 8, t - 1, *t, t + 1, t + 8]).collect();
            probe.extend((0..TICKS).step_by(997));
            for t in probe {
                if (0..TICKS).contains(&t) && b.tick_is_active(t) != set.contains(&t) {
                    return Some(format!("tick {} active: {}", t, b.tick_is_active(t)));
                }
            }
            (b.bump != bump).then(|| format!("bump {} instead of {}", b.bump, bump))
        }));
        match r {
            Ok(None) => {}
            Ok(Some(d)) => self.bad("a tick's state is wrong", d),
            Err(_) => self.bad("an operation fails", "reading the map".into()),
        }
    }
    fn exec(&mut self, at: usize, ev: &Ev) {
        self.at = at;
        self.st.events += 1;
        match ev {
            Ev::Tx { ops, fail } => {
                let mut set = self.set.clone();
                for o in ops {
                    self.op(o, &mut set);
                }
                if *fail {
                    self.st.hit("fault.transaction aborted");
                    self.ram = self.disk.clone();
                } else {
                    self.disk = self.ram.clone();
                    self.set = set;
                }
            }
            Ev::Crash => {
                self.st.hit("fault.crash and reload");
                self.ram = self.disk.clone();
            }
        }
        self.whole();
        let mut h = 0u64;
        for t in &self.set {
            h = mix(h ^ *t as u64);
        }
        self.st.states.insert(h);
        self.log = mix(self.log ^ h ^ hash_bytes(&self.ram));
    }
}
fn hash_bytes(b: &[u8]) -> u64 {
    b.chunks(8).fold(0, |h, c| {
        let mut v = [0u8; 8];
        v[..c.len()].copy_from_slice(c);
        mix(h ^ u64::from_le_bytes(v))
    })
}

fn tick(r: &mut Rng, near: &[i32], window: Option<(i32, u64)>) -> i32 {
    if let Some((base, width)) = window {
        // crowded bytes: neighbouring ticks, up to whole bytes full
        if r.chance(90) {
            return (base + r.below(width) as i32).clamp(0, TICKS - 1);
        }
    }
    let t = match r.below(12) {
        0 => 0,
        1 => TICKS - 1,
        2 => r.range(0, 40) as i32,
        3 => TICKS - 1 - r.range(0, 40) as i32,
        4 | 5 if !near.is_empty() => *r.pick(near) + *r.pick(&[-9, -8, -7, -1, 0, 1, 7, 8, 9]),
        6 | 7 if !near.is_empty() => *r.pick(near),
        8 => 8 * r.range(0, 9_999) as i32 + *r.pick(&[0, 7]),
        _ => r.range(0, TICKS as u64 - 1) as i32,
    };
    t.clamp(0, TICKS - 1)
}

pub struct BitmapSim;
impl Sim for BitmapSim {
    type Trace = Trace;
    const SYSTEM: &'static str = "bitmap";
    fn run(prop: &str, seed: u64, deep: bool) -> Report<Trace> {
        let mut r = Rng::new(seed);
        let mut w = World::new(r.u64() as u8, prop);
        let mut tr = Trace { bump: w.bump, steps: vec![] };
        // positions in the network's order: a provider activates both ends, and the last one to
        // leave a tick unsets it
        let mut refs: BTreeMap<i32, u32> = BTreeMap::new();
        let mut open: Vec<(i32, i32)> = vec![];
        let n = r.range(10, if deep { 160 } else { 60 });
        let abort = *r.pick(&[0, 5, 25]);
        let crash = *r.pick(&[0, 5, 20]);
        let window = if r.chance(25) { Some((tick(&mut r, &[], None) / 8 * 8, *r.pick(&[8, 9, 16, 24, 64]))) } else { None };
        let mut now = 0;
        let mut order = String::new();
        while (tr.steps.len() as u64) < n && w.viol.is_none() {
            now += r.log(1, 2000);
            let near: Vec<i32> = w.set.iter().copied().collect();
            let ev = if r.chance(crash) {
                Ev::Crash
            } else {
                let mut ops = vec![];
                let fail = r.chance(abort);
                let mut refs2 = refs.clone();
                let mut open2 = open.clone();
                for _ in 0..r.range(1, 3) {
                    match r.below(10) {
                        0..=3 => {
                            let (a, b) = (tick(&mut r, &near, window), tick(&mut r, &near, window));
                            for t in [a, b] {
                                let c = refs2.entry(t).or_insert(0);
                                if *c == 0 || r.chance(20) {
                                    ops.push(Op::Activate(t));
                                }
                                *c += 1;
                            }
                            open2.push((a, b));
                        }
                        4..=5 if !open2.is_empty() => {
                            let i = r.idx(open2.len());
                            let (a, b) = open2.swap_remove(i);
                            for t in [a, b] {
                                let c = refs2.get_mut(&t).unwrap();
                                *c -= 1;
                                if *c == 0 {
                                    ops.push(Op::Unset(t));
                                    if r.chance(15) {
                                        ops.push(Op::Unset(t));
                                    }
                                }
                            }
                        }
                        6 => ops.push(Op::Active(tick(&mut r, &near, window))),
                        7 => ops.push(Op::Walk(tick(&mut r, &near, window), r.below(2) as u8, 40)),
                        _ => ops.push(Op::Next(tick(&mut r, &near, window), r.below(2) as u8)),
                    }
                }
                // a transaction cut short leaves nothing behind
                if fail {
                    ops.truncate(r.range(1, ops.len().max(1) as u64) as usize);
                } else {
                    refs = refs2;
                    open = open2;
                }
                Ev::Tx { ops, fail }
            };
            order.push(match &ev {
                Ev::Crash => 'R',
                Ev::Tx { fail: true, .. } => 'x',
                Ev::Tx { ops, .. } => (b'a' + ops.len().min(20) as u8) as char,
            });
            tr.steps.push(Step { t: now, ev: ev.clone() });
            w.exec(tr.steps.len() - 1, &ev);
        }
        w.st.sim_ms = now;
        if w.set.len() >= 2 {
            w.st.orders.insert(mix(hash_str(&order) ^ w.log));
        }
        Report { viol: w.viol, foreign: w.foreign, trace: tr, stats: w.st, log: w.log }
    }
    fn replay(prop: &str, t: &Trace) -> Report<Trace> {
        let mut w = World::new(t.bump, prop);
        for (i, s) in t.steps.iter().enumerate() {
            if w.viol.is_some() {
                break;
            }
            w.exec(i, &s.ev);
        }
        Report { viol: w.viol, foreign: w.foreign, trace: t.clone(), stats: w.st, log: w.log }
    }
    fn len(t: &Trace) -> usize {
        t.steps.len()
    }
    fn without(t: &Trace, a: usize, b: usize) -> Trace {
        let mut n = t.clone();
        n.steps.drain(a..b);
        n
    }
    fn simpler(t: &Trace, i: usize) -> Vec<Trace> {
        let mut v = vec![];
        if let Ev::Tx { ops, fail } = &t.steps[i].ev {
            for j in 0..ops.len() {
                if ops.len() > 1 {
                    let mut n = t.clone();
                    let mut o = ops.clone();
                    o.remove(j);
                    n.steps[i].ev = Ev::Tx { ops: o, fail: *fail };
                    v.push(n);
                }
                if let Op::Walk(a, d, k) = &ops[j] {
                    let mut n = t.clone();
                    let mut o = ops.clone();
                    o[j] = if *k > 1 { Op::Walk(*a, *d, k / 2) } else { Op::Next(*a, *d) };
                    n.steps[i].ev = Ev::Tx { ops: o, fail: *fail };
                    v.push(n);
                }
            }
        }
        v
    }
    fn describe(t: &Trace, i: usize) -> String {
        format!("t={}ms {:?}", t.steps[i].t, t.steps[i].ev)
    }
    fn components() -> serde_json::Value {
        serde_json::json!({
            "real": ["PoolTickBitmap (state/tick_bitmap.rs)", "anchor AccountLoader (zero-copy account)"],
            "stub": ["account store and transaction commit"],
            "simulated": ["providers", "traders", "transaction aborts", "crash and reload", "virtual clock"],
        })
    }
    fn assumptions() -> Vec<String> {
        vec!["ticks 0 to 79999, the range the map has room for (its documentation's negative ticks are not implemented)".into(),
             "driven directly: the deployed instructions only write placeholder ticks".into()]
    }
    fn rule() -> String {
        "one evaluation is one simulated run (a seed). A run is non-trivial when at least two ticks are active at its end; runs are distinct when the order of operations or the history of maps differs".into()
    }
}
