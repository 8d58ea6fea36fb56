//! The on-chain program under simulation: clients, a lossy network, a leader that orders
//! transactions, forks, and an attacker, around the real program and the real token program.
use crate::dd::Dd;
use crate::esim::exact_tick;
use crate::harness::*;
use crate::model::Model;
use crate::rng::*;
use crate::rt::*;
use anchor_lang::{AccountDeserialize, AccountSerialize, InstructionData, ToAccountMetas};
use hmmcl_sandbox::cl_pool::cl_math::PoolMath;
use hmmcl_sandbox::state::pool_state::PoolState;
use hmmcl_sandbox::state::position_state::PositionState;
use hmmcl_sandbox::state::tick_state::TickState;
use serde::{Deserialize, Serialize};
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::program_option::COption;
use solana_program::program_pack::Pack;
use solana_program::pubkey::Pubkey;
use std::cmp::Reverse;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, VecDeque};
use std::rc::Rc;
use std::sync::Mutex;

struct Formulas;
impl PoolMath for Formulas {}

pub const USERS: usize = 4; // the last one is the attacker
const MALLORY: u8 = 3;
const MINTS: usize = 3;
const RICH: u64 = 1_000_000_000_000_000;

// ------------------------------------------------------------------ addresses
static CACHE: Mutex<Option<HashMap<String, Pubkey>>> = Mutex::new(None);
fn cached(name: String, f: impl FnOnce() -> Pubkey) -> Pubkey {
    if let Some(k) = CACHE.lock().unwrap().get_or_insert_with(HashMap::new).get(&name) {
        return *k;
    }
    let k = f();
    CACHE.lock().unwrap().get_or_insert_with(HashMap::new).insert(name, k);
    k
}
fn key(name: &str) -> Pubkey {
    Pubkey::new(solana_program::hash::hash(name.as_bytes()).as_ref())
}
fn pda(name: String, seeds: &[&[u8]]) -> Pubkey {
    cached(name, || {
        let (k, b) = Pubkey::find_program_address(seeds, &program());
        BUMPS.lock().unwrap().get_or_insert_with(HashMap::new).insert(k, b);
        k
    })
}
static BUMPS: Mutex<Option<HashMap<Pubkey, u8>>> = Mutex::new(None);
/// The canonical bump of one of the program's own addresses.
fn bump_of(k: &Pubkey) -> u8 {
    BUMPS.lock().unwrap().as_ref().and_then(|m| m.get(k).copied()).unwrap_or(0)
}
fn no_fee(f: &hmmcl_sandbox::state::fees::Fee) -> bool {
    (f.f_x, f.f_y, f.h_x, f.h_y) == (0, 0, 0, 0) && f.fee_scale == 12
}
pub fn wallet(u: u8) -> Pubkey {
    key(&format!("wallet {}", u))
}
pub fn mint(m: u8) -> Pubkey {
    key(&format!("mint {}", m))
}
fn lp_mint(p: u8) -> Pubkey {
    key(&format!("lp mint {}", p))
}
fn pool(p: u8) -> Pubkey {
    pda(format!("pool {}", p), &[b"pool_state_seed", lp_mint(p).as_ref()])
}
fn vault_of(p: u8, m: u8) -> Pubkey {
    pda(format!("vault {} {}", p, m), &[b"token_vault_seed", mint(m).as_ref(), lp_mint(p).as_ref()])
}
fn lp_vault(p: u8) -> Pubkey {
    pda(format!("lp vault {}", p), &[b"lp_token_vault_seed", pool(p).as_ref(), lp_mint(p).as_ref()])
}
fn bitmap(p: u8) -> Pubkey {
    pda(format!("bitmap {}", p), &[b"bitmap", pool(p).as_ref()])
}
fn tick_key(p: u8, t: u64) -> Pubkey {
    pda(format!("tick {} {}", p, t), &[b"tick", pool(p).as_ref(), &t.to_le_bytes()])
}
fn pos_key(p: u8, u: u8, lo: u64, hi: u64) -> Pubkey {
    pda(
        format!("pos {} {} {} {}", p, u, lo, hi),
        &[b"position", pool(p).as_ref(), wallet(u).as_ref(), &lo.to_le_bytes(), &hi.to_le_bytes()],
    )
}
fn tok(u: u8, m: u8) -> Pubkey {
    key(&format!("token account {} {}", u, m))
}
fn lp_tok(u: u8, p: u8) -> Pubkey {
    key(&format!("lp token account {} {}", u, p))
}

// ------------------------------------------------------------------ events
#[derive(Clone, Serialize, Deserialize, Debug, PartialEq)]
pub enum Ref {
    Pool(u8),
    Vault(u8, u8),
    LpVault(u8),
    Bitmap(u8),
    Tick(u8, u64),
    Pos(u8, u8, u64, u64),
    Mint(u8),
    LpMint(u8),
    Tok(u8, u8),
    LpTok(u8, u8),
    Wallet(u8),
    /// An account of the attacker's own making that looks like the given one.
    Fake(Box<Ref>),
    /// A genuine token account of this mint whose authority is the pool, but not its vault.
    Lookalike(u8, u8),
    Rogue,
}
#[derive(Clone, Serialize, Deserialize, Debug, PartialEq)]
pub enum Ix {
    InitPool { p: u8, u: u8, t: u64 },
    InitBitmap { p: u8, u: u8 },
    InitTick { p: u8, u: u8, t: u64 },
    Create { p: u8, u: u8, lo: u64, hi: u64 },
    Dep { p: u8, u: u8, lo: u64, hi: u64, cur: u64, x: u64, y: u64 },
    Wd { p: u8, u: u8, lo: u64, hi: u64, cur: u64, lp: u64 },
    Xfer { m: u8, from: u8, to: u8, n: u64 },
    LpXfer { p: u8, from: u8, to: u8, n: u64 },
    Donate { p: u8, m: u8, u: u8, n: u64 },
    Fund { what: Ref, u: u8, n: u64 },
    Freeze { m: u8, what: Ref, thaw: bool },
}
#[derive(Clone, Serialize, Deserialize, Debug, PartialEq)]
pub enum Mal {
    Acc { ix: u8, slot: u8, to: Ref },
    NoSign(u8),
    ReadOnly { ix: u8, slot: u8 },
    /// Arguments of a range request that do not match the accounts passed.
    Args { ix: u8, lo: u64, hi: u64, cur: u64 },
}
#[derive(Clone, Serialize, Deserialize, Debug, PartialEq)]
pub struct Tx {
    pub ixs: Vec<Ix>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub mal: Vec<Mal>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub calls: Option<u32>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub cpi: Option<u32>,
    /// Somebody else pays for it, and signs for that.
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub pay: Option<u8>,
}
impl Tx {
    fn of(ixs: Vec<Ix>) -> Tx {
        Tx { ixs, mal: vec![], calls: None, cpi: None, pay: None }
    }
}
#[derive(Clone, Serialize, Deserialize, Debug, PartialEq)]
pub enum Ev {
    Tx(Tx),
    /// The last n transactions were on an abandoned fork.
    Fork(u8),
    /// Two transactions no leader has ordered yet: both orders are tried on copies of the ledger.
    Pair(Tx, Tx),
    Exit { order: u64 },
}
#[derive(Clone, Serialize, Deserialize, Debug)]
pub struct Step {
    pub t: u64,
    pub via: String,
    pub ev: Ev,
}
#[derive(Clone, Serialize, Deserialize, Debug, PartialEq)]
pub struct PoolCfg {
    pub x: u8,
    pub y: u8,
    pub tick0: u64,
    /// The attacker can mint this pool's LP tokens: it must never open.
    #[serde(default)]
    pub foreign_lp: bool,
}
#[derive(Clone, Serialize, Deserialize)]
pub struct Trace {
    pub pools: Vec<PoolCfg>,
    pub freezable: bool,
    pub steps: Vec<Step>,
}

// ------------------------------------------------------------------ world
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Role {
    Pool(u8),
    Vault(u8, u8),
    LpVault(u8),
    Bitmap(u8),
    Tick(u8, u64),
    Pos(u8, u8, u64, u64),
    Mint(u8),
    LpMint(u8),
    Tok(u8, u8),
    LpTok(u8, u8),
}
fn role_key(r: &Role) -> Pubkey {
    match *r {
        Role::Tick(p, t) => tick_key(p, t),
        Role::Pos(p, u, lo, hi) => pos_key(p, u, lo, hi),
        Role::Bitmap(p) => bitmap(p),
        Role::Pool(p) => pool(p),
        _ => Pubkey::default(),
    }
}
#[derive(Clone, Default)]
struct Flow {
    inp: [u128; 2],
    out: [u128; 2],
}
#[derive(Clone, Default)]
struct Book {
    cfg: BTreeMap<u8, PoolState>,
    flow: BTreeMap<(u8, u8, u64, u64), Flow>,
    deposits: BTreeMap<u8, u64>,
}
pub struct World {
    pools: Vec<PoolCfg>,
    bank: Bank,
    book: Book,
    roles: BTreeMap<Pubkey, Role>,
    past: VecDeque<(Bank, Book, Tx)>,
    totals: Vec<u64>,
    prices: BTreeMap<u64, Dd>,
    prop: String,
    viol: Option<Violation>,
    foreign: BTreeMap<String, u64>,
    st: Stats,
    at: usize,
    log: u64,
    pub accepted: u64,
    pub last_cost: Cost,
}

fn parse<T: AccountDeserialize>(a: &Acc) -> Option<T> {
    if a.owner != program() {
        return None;
    }
    T::try_deserialize(&mut &a.data[..]).ok()
}
fn token(a: &Acc) -> Option<spl_token::state::Account> {
    if a.owner != spl_token::id() || a.data.len() != spl_token::state::Account::LEN {
        return None;
    }
    spl_token::state::Account::unpack(&a.data).ok()
}
fn mint_of(a: &Acc) -> Option<spl_token::state::Mint> {
    if a.owner != spl_token::id() || a.data.len() != spl_token::state::Mint::LEN {
        return None;
    }
    spl_token::state::Mint::unpack(&a.data).ok()
}
fn packed<T: Pack>(t: &T) -> Vec<u8> {
    let mut v = vec![0u8; T::LEN];
    T::pack_into_slice(t, &mut v);
    v
}
fn token_acc(m: Pubkey, owner: Pubkey, amount: u64) -> Acc {
    let t = spl_token::state::Account {
        mint: m,
        owner,
        amount,
        state: spl_token::state::AccountState::Initialized,
        ..Default::default()
    };
    Acc { lamports: 10_000_000, data: packed(&t), owner: spl_token::id(), exec: false }
}

impl World {
    fn new(pools: &[PoolCfg], freezable: bool, prop: &str) -> World {
        let mut b = Bank::new();
        let mut roles = BTreeMap::new();
        let mut put = |k: Pubkey, a: Acc| {
            b.insert(k, Rc::new(a));
        };
        reset_clock();
        for k in [sys(), spl_token::id(), program(), rogue()] {
            put(k, Acc { lamports: 1, data: vec![], owner: key("loader"), exec: true });
        }
        let rent = solana_program::rent::Rent::default();
        let mut rd = vec![];
        rd.extend(rent.lamports_per_byte_year.to_le_bytes());
        rd.extend(rent.exemption_threshold.to_le_bytes());
        rd.push(rent.burn_percent);
        put(rent_key(), Acc { lamports: 1, data: rd, owner: key("sysvar"), exec: false });
        for m in 0..MINTS as u8 {
            let t = spl_token::state::Mint {
                mint_authority: COption::Some(key("issuer")),
                supply: RICH * USERS as u64,
                decimals: [6, 9, 0, 8, 2, 12][m as usize % 6],
                is_initialized: true,
                freeze_authority: if freezable { COption::Some(wallet(0)) } else { COption::None },
            };
            put(mint(m), Acc { lamports: 10_000_000, data: packed(&t), owner: spl_token::id(), exec: false });
            roles.insert(mint(m), Role::Mint(m));
            for u in 0..USERS as u8 {
                put(tok(u, m), token_acc(mint(m), wallet(u), RICH));
                roles.insert(tok(u, m), Role::Tok(u, m));
            }
        }
        for u in 0..USERS as u8 {
            put(wallet(u), Acc { lamports: RICH, data: vec![], owner: sys(), exec: false });
        }
        for (p, c) in pools.iter().enumerate() {
            let p = p as u8;
            let t = spl_token::state::Mint {
                mint_authority: COption::Some(if c.foreign_lp { wallet(MALLORY) } else { pool(p) }),
                supply: 0,
                decimals: [6, 0, 9][p as usize % 3],
                is_initialized: true,
                freeze_authority: COption::None,
            };
            put(lp_mint(p), Acc { lamports: 10_000_000, data: packed(&t), owner: spl_token::id(), exec: false });
            roles.insert(lp_mint(p), Role::LpMint(p));
            for u in 0..USERS as u8 {
                put(lp_tok(u, p), token_acc(lp_mint(p), wallet(u), 0));
                roles.insert(lp_tok(u, p), Role::LpTok(u, p));
            }
            roles.insert(pool(p), Role::Pool(p));
            roles.insert(vault_of(p, c.x), Role::Vault(p, c.x));
            roles.insert(vault_of(p, c.y), Role::Vault(p, c.y));
            roles.insert(lp_vault(p), Role::LpVault(p));
            roles.insert(bitmap(p), Role::Bitmap(p));
        }
        World {
            pools: pools.to_vec(),
            bank: b,
            book: Book::default(),
            roles,
            past: VecDeque::new(),
            totals: vec![RICH * USERS as u64; MINTS],
            prices: BTreeMap::new(),
            prop: prop.into(),
            viol: None,
            foreign: BTreeMap::new(),
            st: Stats::default(),
            at: 0,
            log: 0,
            accepted: 0,
            last_cost: Cost::default(),
        }
    }
    fn bad(&mut self, tag: &str, class: &str, detail: String) {
        let mine = self.prop == tag || self.prop == "*";
        *self.foreign.entry(format!("{}|{}", tag, class)).or_insert(0) += 1;
        if self.prop == "*" {
            eprintln!("{}|{}|{}", tag, class, detail);
        }
        if mine && self.viol.is_none() && self.prop != "*" {
            self.viol = Some(Violation { tag: tag.into(), class: class.into(), detail, at_event: self.at });
        }
    }
    fn acc(&self, k: &Pubkey) -> Option<&Acc> {
        self.bank.get(k).map(|a| &**a)
    }
    fn pool_state(b: &Bank, p: u8) -> Option<PoolState> {
        b.get(&pool(p)).and_then(|a| parse(a))
    }
    fn tick_state(b: &Bank, p: u8, t: u64) -> Option<TickState> {
        b.get(&tick_key(p, t)).and_then(|a| parse(a))
    }
    fn pos_state(b: &Bank, p: u8, u: u8, lo: u64, hi: u64) -> Option<PositionState> {
        b.get(&pos_key(p, u, lo, hi)).and_then(|a| parse(a))
    }
    fn balance(b: &Bank, k: &Pubkey) -> u64 {
        b.get(k).and_then(|a| token(a)).map_or(0, |t| t.amount)
    }
    fn frozen(b: &Bank, k: &Pubkey) -> bool {
        b.get(k).and_then(|a| token(a)).map_or(true, |t| t.is_frozen())
    }
    /// Root price of a tick as the program places it, checked against 1.0001^(t/2).
    fn tt(&mut self, t: u64) -> Dd {
        if let Some(v) = self.prices.get(&t) {
            return *v;
        }
        if t > 1_500_000 {
            // far beyond the number format: nothing can be deposited there
            return Dd::f(1e32);
        }
        let x = exact_tick(t);
        let v = std::panic::catch_unwind(|| Formulas::tick_to_rp(t as u128))
            .map(|d| Dd::raw12(d.to_compute_scale().value, false))
            .unwrap_or(x);
        let rel = ((v - x) / x).to_f64().abs();
        if x.to_f64() < 1e6 && !(rel <= (t as f64 + 4.0) * 3e-12) {
            self.bad("L05", "tick price", format!("tick {} at root price {} instead of {}", t, v, x));
        }
        self.prices.insert(t, v);
        v
    }
    fn resolve(&mut self, r: &Ref) -> Pubkey {
        match r {
            Ref::Pool(p) => pool(*p),
            Ref::Vault(p, m) => vault_of(*p, *m),
            Ref::LpVault(p) => lp_vault(*p),
            Ref::Bitmap(p) => bitmap(*p),
            Ref::Tick(p, t) => tick_key(*p, *t),
            Ref::Pos(p, u, lo, hi) => pos_key(*p, *u, *lo, *hi),
            Ref::Mint(m) => mint(*m),
            Ref::LpMint(p) => lp_mint(*p),
            Ref::Tok(u, m) => tok(*u, *m),
            Ref::LpTok(u, p) => lp_tok(*u, *p),
            Ref::Wallet(u) => wallet(*u),
            Ref::Rogue => rogue(),
            Ref::Lookalike(p, m) => {
                let k = key(&format!("lookalike {} {}", p, m));
                if !self.bank.contains_key(&k) {
                    self.bank.insert(k, Rc::new(token_acc(mint(*m), pool(*p), 0)));
                }
                k
            }
            Ref::Fake(of) => {
                let real = self.resolve(of);
                let k = key(&format!("fake {:?}", of));
                let mut a = match self.acc(&real) {
                    Some(a) => a.clone(),
                    None => Acc { lamports: 0, data: vec![0; 200], owner: sys(), exec: false },
                };
                // same bytes, inflated balances, but owned by the attacker's own program
                if let Some(mut p) = parse::<PositionState>(&a) {
                    p.liquidity = 1_000_000_000_000_000_000_000_000;
                    let mut v = vec![];
                    if p.try_serialize(&mut v).is_ok() {
                        a.data[..v.len()].copy_from_slice(&v);
                    }
                } else if let Some(mut t) = token(&a) {
                    t.amount = RICH;
                    t.owner = wallet(MALLORY);
                    a.data = packed(&t);
                }
                a.owner = rogue();
                a.lamports = a.lamports.max(10_000_000);
                self.bank.insert(k, Rc::new(a));
                k
            }
        }
    }
    fn know(&mut self, p: u8, ts: &[u64]) {
        for t in ts {
            self.roles.insert(tick_key(p, *t), Role::Tick(p, *t));
        }
    }
    fn know_pos(&mut self, lo: u64, hi: u64) {
        for p in 0..self.pools.len() as u8 {
            for u in 0..USERS as u8 {
                self.roles.insert(pos_key(p, u, lo, hi), Role::Pos(p, u, lo, hi));
            }
        }
    }

    fn build(&mut self, ix: &Ix, args: Option<(u64, u64, u64)>) -> Instruction {
        use hmmcl_sandbox::{accounts as ac, instruction as ins};
        let me = program();
        let token_program = spl_token::id();
        let sysp = sys();
        match ix.clone() {
            Ix::InitPool { p, u, t } => {
                let c = self.pools[p as usize].clone();
                Instruction {
                    program_id: me,
                    accounts: ac::InitializePool {
                        authority: wallet(u),
                        payer: wallet(u),
                        pool_state: pool(p),
                        token_x_mint: mint(c.x),
                        token_y_mint: mint(c.y),
                        lp_token_mint: lp_mint(p),
                        token_x_vault: vault_of(p, c.x),
                        token_y_vault: vault_of(p, c.y),
                        lp_token_vault: lp_vault(p),
                        system_program: sysp,
                        token_program,
                        rent: rent_key(),
                    }
                    .to_account_metas(None),
                    data: ins::InitializePool { bootstrap_rp: 1, tick: t }.data(),
                }
            }
            Ix::InitBitmap { p, u } => Instruction {
                program_id: me,
                accounts: ac::InitializeBitmap { pool_state: pool(p), tick_bitmap: bitmap(p), payer: wallet(u), system_program: sysp }
                    .to_account_metas(None),
                data: ins::InitializeBitmap {}.data(),
            },
            Ix::InitTick { p, u, t } => {
                let (t2, _, _) = args.unwrap_or((t, 0, 0));
                for q in 0..self.pools.len() as u8 {
                    self.know(q, &[t, t2]);
                }
                Instruction {
                    program_id: me,
                    accounts: ac::InitializeTick { pool_state: pool(p), tick_state: tick_key(p, t), payer: wallet(u), system_program: sysp }
                        .to_account_metas(None),
                    data: ins::InitializeTick { tick: t2 }.data(),
                }
            }
            Ix::Create { p, u, lo, hi } => {
                let (l2, h2, _) = args.unwrap_or((lo, hi, 0));
                self.know_pos(lo, hi);
                self.know_pos(l2, h2);
                Instruction {
                    program_id: me,
                    accounts: ac::CreatePosition {
                        pool_state: pool(p),
                        position_state: pos_key(p, u, lo, hi),
                        lower_tick_state: tick_key(p, lo),
                        upper_tick_state: tick_key(p, hi),
                        user: wallet(u),
                        payer: wallet(u),
                        system_program: sysp,
                    }
                    .to_account_metas(None),
                    data: ins::CreatePosition { lower_tick: l2, upper_tick: h2 }.data(),
                }
            }
            Ix::Dep { p, u, lo, hi, cur, x, y } => {
                let (l2, h2, c2) = args.unwrap_or((lo, hi, cur));
                self.know_pos(lo, hi);
                let c = self.pools[p as usize].clone();
                Instruction {
                    program_id: me,
                    accounts: ac::Deposit {
                        pool_state: pool(p),
                        tick_bitmap: bitmap(p),
                        position_state: pos_key(p, u, lo, hi),
                        lower_tick_state: tick_key(p, lo),
                        upper_tick_state: tick_key(p, hi),
                        current_tick_state: tick_key(p, cur),
                        lp_token_mint: lp_mint(p),
                        user_token_x: tok(u, c.x),
                        user_token_y: tok(u, c.y),
                        token_x_vault: vault_of(p, c.x),
                        token_y_vault: vault_of(p, c.y),
                        lp_token_vault: lp_vault(p),
                        lp_token_to: lp_tok(u, p),
                        token_program,
                        user: wallet(u),
                        payer: wallet(u),
                    }
                    .to_account_metas(None),
                    data: ins::Deposit { lower_tick: l2, upper_tick: h2, current_tick: c2, token_x_amount: x, token_y_amount: y }.data(),
                }
            }
            Ix::Wd { p, u, lo, hi, cur, lp } => {
                let (l2, h2, c2) = args.unwrap_or((lo, hi, cur));
                self.know_pos(lo, hi);
                let c = self.pools[p as usize].clone();
                Instruction {
                    program_id: me,
                    accounts: ac::Withdraw {
                        pool_state: pool(p),
                        tick_bitmap: bitmap(p),
                        position_state: pos_key(p, u, lo, hi),
                        lower_tick_state: tick_key(p, lo),
                        upper_tick_state: tick_key(p, hi),
                        current_tick_state: tick_key(p, cur),
                        lp_token_mint: lp_mint(p),
                        user_token_x: tok(u, c.x),
                        user_token_y: tok(u, c.y),
                        token_x_vault: vault_of(p, c.x),
                        token_y_vault: vault_of(p, c.y),
                        lp_token_vault: lp_vault(p),
                        lp_token_user_account: lp_tok(u, p),
                        token_program,
                        user: wallet(u),
                        payer: wallet(u),
                    }
                    .to_account_metas(None),
                    data: ins::Withdraw { lower_tick: l2, upper_tick: h2, current_tick: c2, lp_token_amount: lp }.data(),
                }
            }
            Ix::Xfer { m, from, to, n } => spl_token::instruction::transfer(&token_program, &tok(from, m), &tok(to, m), &wallet(from), &[], n).unwrap(),
            Ix::LpXfer { p, from, to, n } => {
                spl_token::instruction::transfer(&token_program, &lp_tok(from, p), &lp_tok(to, p), &wallet(from), &[], n).unwrap()
            }
            Ix::Donate { p, m, u, n } => spl_token::instruction::transfer(&token_program, &tok(u, m), &vault_of(p, m), &wallet(u), &[], n).unwrap(),
            Ix::Fund { what, u, n } => {
                let k = self.resolve(&what);
                solana_program::system_instruction::transfer(&wallet(u), &k, n)
            }
            Ix::Freeze { m, what, thaw } => {
                let k = self.resolve(&what);
                if thaw {
                    spl_token::instruction::thaw_account(&token_program, &k, &mint(m), &wallet(0), &[]).unwrap()
                } else {
                    spl_token::instruction::freeze_account(&token_program, &k, &mint(m), &wallet(0), &[]).unwrap()
                }
            }
        }
    }
    fn compile(&mut self, tx: &Tx) -> (Vec<Instruction>, BTreeSet<Pubkey>) {
        let mut out = vec![];
        let mut signers = BTreeSet::new();
        for (i, ix) in tx.ixs.iter().enumerate() {
            let args = tx.mal.iter().find_map(|m| match m {
                Mal::Args { ix, lo, hi, cur } if *ix as usize == i => Some((*lo, *hi, *cur)),
                _ => None,
            });
            let mut n = self.build(ix, args);
            if let (Some(v), Some(slot)) = (tx.pay, payer_slot(ix)) {
                n.accounts[slot].pubkey = wallet(v);
            }
            for m in &n.accounts {
                if m.is_signer {
                    signers.insert(m.pubkey);
                }
            }
            for m in &tx.mal {
                match m {
                    Mal::Acc { ix, slot, to } if *ix as usize == i && (*slot as usize) < n.accounts.len() => {
                        n.accounts[*slot as usize].pubkey = self.resolve(to);
                    }
                    Mal::ReadOnly { ix, slot } if *ix as usize == i && (*slot as usize) < n.accounts.len() => {
                        n.accounts[*slot as usize].is_writable = false;
                    }
                    _ => {}
                }
            }
            out.push(n);
        }
        // the attacker can sign for himself, and for nobody else
        let tampered = !tx.mal.is_empty();
        for m in &tx.mal {
            if let Mal::NoSign(u) = m {
                signers.remove(&wallet(*u));
                for n in out.iter_mut() {
                    for a in n.accounts.iter_mut() {
                        if a.pubkey == wallet(*u) {
                            a.is_signer = false;
                        }
                    }
                }
            }
        }
        if tampered {
            for u in 0..USERS as u8 {
                if u != MALLORY {
                    signers.remove(&wallet(u));
                }
            }
            signers.insert(wallet(MALLORY));
        }
        // a message has one flag per account: the union over its instructions
        let mut flag: BTreeMap<Pubkey, (bool, bool)> = BTreeMap::new();
        for n in &out {
            for a in &n.accounts {
                let e = flag.entry(a.pubkey).or_insert((false, false));
                e.0 |= a.is_signer;
                e.1 |= a.is_writable;
            }
        }
        for n in out.iter_mut() {
            for a in n.accounts.iter_mut() {
                let f = flag[&a.pubkey];
                *a = AccountMeta { pubkey: a.pubkey, is_signer: f.0, is_writable: f.1 };
            }
        }
        (out, signers)
    }

    // ------------------------------------------------------------------ execution
    fn run_tx(&mut self, tx: &Tx) -> Result<(), String> {
        let (ixs, signers) = self.compile(tx);
        let before = (self.bank.clone(), self.book.clone());
        let lim = Limits { calls: tx.calls, cpi: tx.cpi };
        let mut cost = Cost::default();
        let r = execute(&mut self.bank, &ixs, &signers, &lim, &mut cost);
        self.st.add("syscalls", cost.calls as u64);
        if let Some(k) = cost.clock {
            self.st.hit(k);
        }
        self.last_cost = cost;
        match r {
            Err(e) => {
                if std::env::var("SIM_VERBOSE").is_ok() {
                    eprintln!("  [{}] refused: {} | {:?}", self.at, e, tx);
                }
                self.log = mix(self.log ^ hash_str(&e));
                Err(e)
            }
            Ok(done) => {
                if std::env::var("SIM_VERBOSE").is_ok() {
                    eprintln!("  [{}] ok | {:?}", self.at, tx);
                }
                self.accepted += 1;
                self.past.push_back((before.0, before.1, tx.clone()));
                if self.past.len() > 16 {
                    self.past.pop_front();
                }
                for (i, (d, ix)) in done.iter().zip(&tx.ixs).enumerate() {
                    let args = tx.mal.iter().find_map(|m| match m {
                        Mal::Args { ix, lo, hi, cur } if *ix as usize == i => Some((*lo, *hi, *cur)),
                        _ => None,
                    });
                    self.judge(ix, args, d, !tx.mal.is_empty());
                }
                self.invariants();
                Ok(())
            }
        }
    }

    /// What one committed instruction may have done, given who signed and what was asked for.
    fn judge(&mut self, ix: &Ix, args: Option<(u64, u64, u64)>, d: &IxDone, tampered: bool) {
        let ours = !matches!(ix, Ix::Xfer { .. } | Ix::LpXfer { .. } | Ix::Donate { .. } | Ix::Fund { .. } | Ix::Freeze { .. });
        if !ours {
            return;
        }
        let ctx = || format!("{:?}{} signed by {:?}", ix, if tampered { " (tampered)" } else { "" }, (0..USERS as u8).filter(|u| d.signers.contains(&wallet(*u))).collect::<Vec<_>>());
        self.st.hit(&format!("chk.effects of {}", ix_name(ix)));
        let mut pools: BTreeSet<u8> = BTreeSet::new();
        let mut dpos: Vec<((u8, u8, u64, u64), PositionState, PositionState)> = vec![];
        let mut dtok: Vec<(Pubkey, spl_token::state::Account, i128)> = vec![];
        let mut dsup: Vec<(Pubkey, i128)> = vec![];
        let mut dliq: BTreeMap<u8, (i128, u64)> = BTreeMap::new();
        let mut dtick: BTreeMap<(u8, u64), (i128, i128)> = BTreeMap::new();
        let mut created: Vec<Role> = vec![];
        for (k, b) in &d.after {
            let a = &d.before[k];
            if a == b {
                continue;
            }
            let role = self.roles.get(k).copied();
            if a.owner == program() || b.owner == program() {
                match role {
                    Some(Role::Pool(p)) | Some(Role::Bitmap(p)) | Some(Role::Tick(p, _)) | Some(Role::Pos(p, _, _, _)) => {
                        pools.insert(p);
                    }
                    _ => {
                        self.bad("L04", "state at a foreign address", format!("{} holds program state; {}", k, ctx()));
                        continue;
                    }
                }
                let role = role.unwrap();
                if a.owner == sys() && a.data.is_empty() {
                    created.push(role);
                    self.fresh(&role, ix, b, d);
                    continue;
                }
                if b.owner != program() || a.owner != program() {
                    self.bad("L04", "state account changes hands", format!("{:?}: {} -> {}; {}", role, a.owner, b.owner, ctx()));
                    continue;
                }
                match role {
                    Role::Pool(p) => {
                        let (Some(x), Some(y)) = (parse::<PoolState>(a), parse::<PoolState>(b)) else {
                            self.bad("L04", "state account becomes unreadable", format!("{:?}; {}", role, ctx()));
                            continue;
                        };
                        let liq = y.pool_global_state.liquidity as i128 - x.pool_global_state.liquidity as i128;
                        dliq.insert(p, (liq, x.pool_global_state.tick));
                        if config_bytes(&x) != config_bytes(&y) {
                            self.bad("L12", "pool configuration or price changes", format!("pool {}: {}; {}", p, pool_diff(&x, &y), ctx()));
                        }
                    }
                    Role::Pos(p, u, lo, hi) => {
                        let (Some(x), Some(y)) = (parse::<PositionState>(a), parse::<PositionState>(b)) else {
                            self.bad("L04", "state account becomes unreadable", format!("{:?}; {}", role, ctx()));
                            continue;
                        };
                        if x.liquidity != y.liquidity && !d.signers.contains(&wallet(u)) {
                            self.bad("L04", "position changed without its owner's signature", format!("{:?}: {} -> {}; {}", role, x.liquidity, y.liquidity, ctx()));
                        }
                        if (y.lower_tick, y.upper_tick, y.bump, y.liq_scale) != (lo, hi, x.bump, 12) || !no_fee(&y.last_collected_fee) {
                            self.bad("L12", "position identity changes", format!("{:?} became [{}, {}] bump {} scale {}; {}", role, y.lower_tick, y.upper_tick, y.bump, y.liq_scale, ctx()));
                        }
                        dpos.push(((p, u, lo, hi), x, y));
                    }
                    Role::Tick(p, t) => {
                        let (Some(x), Some(y)) = (parse::<TickState>(a), parse::<TickState>(b)) else {
                            self.bad("L04", "state account becomes unreadable", format!("{:?}; {}", role, ctx()));
                            continue;
                        };
                        if (y.tick, y.bump, y.liq_gross_scale, y.liq_net_scale) != (t, x.bump, 12, 12) || !no_fee(&y.tick_fee) {
                            self.bad("L12", "tick identity changes", format!("{:?} became tick {} bump {} scales {} {}; {}", role, y.tick, y.bump, y.liq_gross_scale, y.liq_net_scale, ctx()));
                        }
                        dtick.insert((p, t), (y.liq_gross as i128 - x.liq_gross as i128, net(&y) - net(&x)));
                    }
                    _ => {}
                }
            } else if let Some(tb) = token(b) {
                let ta = token(a);
                if let Some(Role::Vault(p, _)) | Some(Role::LpVault(p)) = role {
                    pools.insert(p);
                }
                match ta {
                    None => {
                        if let Some(r) = role {
                            created.push(r);
                            self.fresh(&r, ix, b, d);
                        }
                    }
                    Some(ta) => {
                        let mut same = ta.clone();
                        same.amount = tb.amount;
                        if same != tb {
                            self.bad("L04", "token account changes hands", format!("{:?}; {}", role, ctx()));
                        }
                        let dl = tb.amount as i128 - ta.amount as i128;
                        if dl < 0 && !matches!(role, Some(Role::Vault(..))) && !d.signers.contains(&ta.owner) {
                            self.bad("L04", "tokens taken without their owner's signature", format!("{:?} {}; {}", role, dl, ctx()));
                        }
                        dtok.push((*k, tb, dl));
                    }
                }
            } else if let Some(mb) = mint_of(b) {
                if let Some(ma) = mint_of(a) {
                    let mut same = ma.clone();
                    same.supply = mb.supply;
                    if same != mb || !matches!(role, Some(Role::LpMint(_))) {
                        self.bad("L04", "mint changes", format!("{:?} {:?} -> {:?}; {}", role, ma, mb, ctx()));
                    }
                    if let Some(Role::LpMint(p)) = role {
                        pools.insert(p);
                    }
                    dsup.push((*k, mb.supply as i128 - ma.supply as i128));
                }
            }
        }
        self.st.hit("chk.isolation");
        if pools.len() > 1 {
            self.bad("L09", "one request changes several pools", format!("{:?}; {}", pools, ctx()));
        }
        let named = match ix {
            Ix::InitPool { p, .. } | Ix::InitBitmap { p, .. } | Ix::InitTick { p, .. } | Ix::Create { p, .. } | Ix::Dep { p, .. } | Ix::Wd { p, .. } => *p,
            _ => unreachable!(),
        };
        if !tampered && pools.iter().any(|p| *p != named) {
            self.bad("L09", "a request changes another pool", format!("{:?}; {}", pools, ctx()));
        }
        match ix {
            Ix::InitPool { .. } | Ix::InitBitmap { .. } | Ix::InitTick { .. } | Ix::Create { .. } => {
                let moved = dpos.iter().any(|(_, a, b)| a.liquidity != b.liquidity) || dtok.iter().any(|t| t.2 != 0) || dsup.iter().any(|s| s.1 != 0) || dliq.values().any(|v| v.0 != 0) || dtick.values().any(|v| *v != (0, 0));
                if moved {
                    self.bad("L06", "an initialisation changes existing state", ctx());
                }
                if created.is_empty() {
                    self.bad("L06", "an initialisation of something that exists is accepted", ctx());
                }
                if !d.events.is_empty() {
                    self.bad("L02", "an initialisation reports a transfer", ctx());
                }
            }
            Ix::Dep { lo, hi, cur, x, y, .. } => {
                let (lo, hi, _cur) = args.unwrap_or((*lo, *hi, *cur));
                self.moved(true, lo, hi, (*x, *y), 0, d, &dpos, &dtok, &dsup, &dliq, &dtick, &created, tampered, &ctx());
            }
            Ix::Wd { lo, hi, cur, lp, .. } => {
                let (lo, hi, _cur) = args.unwrap_or((*lo, *hi, *cur));
                self.moved(false, lo, hi, (0, 0), *lp, d, &dpos, &dtok, &dsup, &dliq, &dtick, &created, tampered, &ctx());
            }
            _ => {}
        }
    }

    /// A newly created account.
    fn fresh(&mut self, role: &Role, ix: &Ix, b: &Acc, d: &IxDone) {
        self.st.hit("chk.new account");
        let ctx = format!("{:?} by {:?}", role, ix);
        match role {
            Role::Pool(p) => {
                let (Some(s), Ix::InitPool { t, .. }) = (parse::<PoolState>(b), ix) else {
                    return self.bad("L06", "unexpected new account", ctx);
                };
                let c = self.pools[*p as usize].clone();
                if c.foreign_lp {
                    self.bad("L06", "a pool opens over LP tokens somebody else can mint", ctx.clone());
                }
                let bumps = (bump_of(&pool(*p)), bump_of(&vault_of(*p, c.x)), bump_of(&vault_of(*p, c.y)), bump_of(&lp_vault(*p)));
                if (s.pool_state_bump, s.token_x_vault_bump, s.token_y_vault_bump, s.lp_token_vault_bump) != bumps && d.before.contains_key(&mint(c.x)) && d.before.contains_key(&mint(c.y)) {
                    self.bad("L06", "new pool remembers wrong bumps", ctx.clone());
                }
                let g = &s.pool_global_state;
                let rp = self.tt(*t);
                let fees = [g.global_fee.f_x, g.global_fee.f_y, g.global_fee.h_x, g.global_fee.h_y];
                let want = (mint(c.x), mint(c.y), lp_mint(*p), vault_of(*p, c.x), vault_of(*p, c.y));
                let got = (s.token_x_mint, s.token_y_mint, s.lp_token_mint, s.token_x_vault, s.token_y_vault);
                if want != got && d.before.contains_key(&mint(c.x)) && d.before.contains_key(&mint(c.y)) {
                    self.bad("L06", "new pool points at the wrong accounts", ctx.clone());
                }
                if g.liquidity != 0 || g.tick != *t || Dd::raw12(g.root_price, false) != rp || fees != [0; 4] || (g.liq_scale, g.rp_scale, g.global_fee.fee_scale) != (12, 12, 12) {
                    self.bad("L06", "new pool does not start empty at its price", format!("liquidity {} tick {} root price {} fees {:?}; {}", g.liquidity, g.tick, g.root_price, fees, ctx));
                }
                if !d.signers.contains(&s.authority) {
                    self.bad("L06", "new pool's authority did not sign", ctx);
                }
                self.book.cfg.insert(*p, s);
            }
            Role::Tick(_, t) => {
                let Some(s) = parse::<TickState>(b) else { return self.bad("L06", "unexpected new account", ctx) };
                if !matches!(ix, Ix::InitTick { .. }) || s.tick != *t || s.liq_gross != 0 || s.liq_net != 0 || s.liq_net_neg != 0 || (s.liq_gross_scale, s.liq_net_scale) != (12, 12) || !no_fee(&s.tick_fee) || s.bump != bump_of(&role_key(role)) {
                    self.bad("L06", "new tick does not start empty", format!("tick {} gross {} net {}; {}", s.tick, s.liq_gross, s.liq_net, ctx));
                }
            }
            Role::Pos(_, u, lo, hi) => {
                let Some(s) = parse::<PositionState>(b) else { return self.bad("L06", "unexpected new account", ctx) };
                if !matches!(ix, Ix::Create { .. }) || s.liquidity != 0 || (s.lower_tick, s.upper_tick) != (*lo, *hi) || lo >= hi || s.liq_scale != 12 || !no_fee(&s.last_collected_fee) || s.bump != bump_of(&role_key(role)) {
                    self.bad("L06", "new position does not start empty over its range", format!("[{}, {}] liquidity {}; {}", s.lower_tick, s.upper_tick, s.liquidity, ctx));
                }
                if !d.signers.contains(&wallet(*u)) {
                    self.bad("L04", "position opened without its owner's signature", ctx);
                }
            }
            Role::Bitmap(_) => {
                if !matches!(ix, Ix::InitBitmap { .. }) || b.data[8..].iter().take(10_000).any(|x| *x != 0) || b.data.get(10_008) != Some(&bump_of(&role_key(role))) {
                    self.bad("L06", "new bitmap does not start empty", ctx);
                }
            }
            Role::Vault(p, m) => {
                let Some(t) = token(b) else { return self.bad("L06", "unexpected new account", ctx) };
                if t.owner != pool(*p) || t.mint != mint(*m) || t.amount != 0 || t.delegate.is_some() || t.close_authority.is_some() {
                    self.bad("L06", "new vault is not the pool's", format!("{:?}; {}", t, ctx));
                }
            }
            Role::LpVault(p) => {
                let Some(t) = token(b) else { return self.bad("L06", "unexpected new account", ctx) };
                if t.owner != pool(*p) || t.mint != lp_mint(*p) || t.amount != 0 || t.delegate.is_some() || t.close_authority.is_some() {
                    self.bad("L06", "new vault is not the pool's", format!("{:?}; {}", t, ctx));
                }
            }
            _ => self.bad("L06", "unexpected new account", ctx),
        }
    }

    /// A committed deposit or withdrawal.
    #[allow(clippy::too_many_arguments)]
    fn moved(
        &mut self,
        dep: bool,
        lo: u64,
        hi: u64,
        offer: (u64, u64),
        lp: u64,
        d: &IxDone,
        dpos: &[((u8, u8, u64, u64), PositionState, PositionState)],
        dtok: &[(Pubkey, spl_token::state::Account, i128)],
        dsup: &[(Pubkey, i128)],
        dliq: &BTreeMap<u8, (i128, u64)>,
        dtick: &BTreeMap<(u8, u64), (i128, i128)>,
        created: &[Role],
        tampered: bool,
        ctx: &str,
    ) {
        if !created.is_empty() {
            self.bad("L06", "a transfer creates accounts", format!("{:?}; {}", created, ctx));
        }
        let changed: Vec<_> = dpos.iter().filter(|(_, a, b)| a.liquidity != b.liquidity).collect();
        if changed.len() > 1 {
            self.bad("L01", "one request changes several positions", ctx.into());
            return;
        }
        // which position and pool: the one that changed, or the one the instruction named
        let who = changed.first().map(|c| c.0).or_else(|| {
            d.after.keys().find_map(|k| match self.roles.get(k) {
                Some(Role::Pos(p, u, l, h)) => Some((*p, *u, *l, *h)),
                _ => None,
            })
        });
        let Some((p, u, plo, phi)) = who else {
            self.bad("L04", "accepted without a genuine position", ctx.into());
            return;
        };
        if (plo, phi) != (lo, hi) {
            self.bad("L01", "range differs from the position's", format!("position [{}, {}]; {}", plo, phi, ctx));
        }
        let raw = changed.first().map_or(0, |c| c.2.liquidity as i128 - c.1.liquidity as i128);
        let held = changed.first().map_or_else(
            || d.before.get(&pos_key(p, u, plo, phi)).and_then(|a| parse::<PositionState>(a)).map_or(0, |s| s.liquidity),
            |c| c.1.liquidity,
        );
        let one = 1_000_000_000_000i128;
        // ticks and pool follow the position (also implied by the global invariants)
        let pick = |t: u64| dtick.get(&(p, t)).copied().unwrap_or((0, 0));
        if pick(plo) != (raw, raw) || pick(phi) != (raw, -raw) {
            self.bad("L01", "ticks do not follow the position", format!("position {:+} ticks {:?} {:?}; {}", raw, pick(plo), pick(phi), ctx));
        }
        if let Some((dl, t)) = dliq.get(&p) {
            let want = if plo <= *t && *t < phi { raw } else { 0 };
            if *dl != want {
                self.bad("L01", "active liquidity does not follow the position", format!("{:+} instead of {:+}; {}", dl, want, ctx));
            }
        }
        // tokens
        let c = self.pools[p as usize].clone();
        let vx = vault_of(p, c.x);
        let vy = vault_of(p, c.y);
        let delta = |k: &Pubkey| dtok.iter().find(|t| t.0 == *k).map_or(0, |t| t.2);
        let (dx, dy) = (delta(&vx), delta(&vy));
        let sums = |m: Pubkey| dtok.iter().filter(|t| t.1.mint == m).map(|t| t.2).sum::<i128>();
        if sums(mint(c.x)) != 0 || sums(mint(c.y)) != 0 {
            self.bad("L02", "tokens created or lost", format!("X {:+} Y {:+}; {}", sums(mint(c.x)), sums(mint(c.y)), ctx));
        }
        // only the user's accounts, the pool's vaults and LP accounts take part
        for (k, t, dl) in dtok {
            let is_vault = *k == vx || *k == vy;
            let is_lp = t.mint == lp_mint(p);
            if *dl != 0 && !is_vault && !is_lp && t.owner != wallet(u) {
                for tag in ["L04", "L02"] {
                    self.bad(tag, "tokens of somebody else move", format!("{:?} {:+}; {}", self.roles.get(k), dl, ctx));
                }
            }
        }
        let supply = dsup.iter().find(|s| s.0 == lp_mint(p)).map_or(0, |s| s.1);
        let lps = sums(lp_mint(p));
        if supply != lps {
            self.bad("L02", "LP supply differs from LP balances", format!("{:+} vs {:+}; {}", supply, lps, ctx));
        }
        let gs = d.before.get(&pool(p)).and_then(|a| parse::<PoolState>(a)).map(|s| s.pool_global_state);
        let Some(gs) = gs else {
            self.bad("L04", "accepted without a genuine pool", ctx.into());
            return;
        };
        let (pa, pb) = (self.tt(plo), self.tt(phi));
        let rp = Dd::raw12(gs.root_price, false);
        let l = Dd::raw12(raw.unsigned_abs(), false);
        let (wx, wy) = Model::amounts(l, rp, pa, pb);
        let noise = |x: Dd, y: Dd| {
            let q = rp.max(pa).min(pb).to_f64();
            (1e-11 + x.to_f64() * 8e-12 + 4.0 * x.to_f64() * 1e-12 / (q * pb.to_f64()), 1e-11 + y.to_f64() * 8e-12)
        };
        let (tx, ty) = noise(wx, wy);
        let f = |v: i128| Dd::f(v as f64);
        let ev = parse_events(&d.events);
        if dep {
            self.st.hit("op.deposit");
            if raw < 0 {
                self.bad("L05", "a deposit lowers a position", format!("{:+}; {}", raw, ctx));
            }
            if dx < 0 || dy < 0 || dx > offer.0 as i128 || dy > offer.1 as i128 {
                self.bad("L05", "deposit debits more than offered", format!("X {} of {}, Y {} of {}; {}", dx, offer.0, dy, offer.1, ctx));
            }
            for (n, got, want, t) in [("X", dx, wx, tx), ("Y", dy, wy, ty)] {
                let e = (f(got) - want).to_f64();
                self.st.max("deposit debit below its value (noise)", -e / t);
                if e < -t {
                    self.bad("L03", "liquidity credited for less than its value", format!("{} {} debited for liquidity worth {}; {}", n, got, want, ctx));
                }
                // (a range on the far side of the price takes nothing at all of this token)
                if e >= 1.0 + t || got > 0 && want.is_zero() {
                    self.bad("L05", "deposit debits more than its liquidity is worth", format!("{} {} debited for liquidity worth {}; {}", n, got, want, ctx));
                }
            }
            // the offer's worth is credited
            let (ox, oy) = (f(offer.0 as i128), f(offer.1 as i128));
            let q = rp.max(pa).min(pb);
            let (qf, bf) = (q.to_f64(), pb.to_f64());
            let up = ((bf - qf) / (qf * bf)).max(0.0);
            let dn = (qf - pa.to_f64()).max(0.0);
            let dl = if up > 0.0 { 2e-12 * (1.0 + bf) / (bf - qf) + 2e-12 } else { 0.0 };
            let (nx, ny) = noise(ox, oy);
            let short_x = up == 0.0 || (ox - wx).to_f64() > 2.0 * dl * up + 2.0 * nx + 8e-12 * (1.0 + ox.to_f64());
            let short_y = dn == 0.0 || (oy - wy).to_f64() > 2.0 * (dl + 2e-12) * dn + 2.0 * ny + 8e-12 * (1.0 + oy.to_f64());
            if short_x && short_y {
                self.bad("L05", "deposit credits less than the offer supports", format!("liquidity {} worth {} and {}; {}", l, wx, wy, ctx));
            }
            let want_lp = raw / one;
            if supply != want_lp {
                self.bad("L05", "LP tokens minted differ from the liquidity credited", format!("{:+} for {}; {}", supply, l, ctx));
            }
            if dtok.iter().any(|t| t.1.mint == lp_mint(p) && t.2 < 0) {
                self.bad("L04", "a deposit takes LP tokens", ctx.into());
            }
            if !tampered && delta(&lp_tok(u, p)) != supply {
                for tag in ["L05", "L02"] {
                    self.bad(tag, "LP tokens do not reach the depositor", format!("{:+} of {}; {}", delta(&lp_tok(u, p)), supply, ctx));
                }
            }
            let fl = self.book.flow.entry((p, u, plo, phi)).or_default();
            fl.inp[0] += dx.max(0) as u128;
            fl.inp[1] += dy.max(0) as u128;
            *self.book.deposits.entry(p).or_insert(0) += 1;
            if ev != vec![("LiquidityAdded", [dx as u64, dy as u64, supply as u64])] {
                self.bad("L02", "report differs from what moved", format!("reported {:?}, moved X {} Y {} LP {}; {}", ev, dx, dy, supply, ctx));
            }
        } else {
            self.st.hit("op.withdrawal");
            if raw > 0 {
                self.bad("L13", "a withdrawal raises a position", format!("{:+}; {}", raw, ctx));
            }
            if lp as i128 * one > held as i128 {
                self.bad("L13", "more withdrawn than the position holds", format!("{} of {}; {}", lp, Dd::raw12(held, false), ctx));
            }
            if raw != -(lp as i128) * one {
                self.bad("L13", "liquidity removed differs from the LP tokens given", format!("{:+} for {}; {}", raw, lp, ctx));
            }
            if supply != -(lp as i128) {
                self.bad("L13", "LP tokens burned differ from the request", format!("{:+} for {}; {}", supply, lp, ctx));
            }
            // judged by what was asked for, whatever happened to the position
            let (wx, wy) = Model::amounts(Dd::f(lp as f64), rp, pa, pb);
            let (tx, ty) = noise(wx, wy);
            for (n, got, want, t) in [("X", -dx, wx, tx), ("Y", -dy, wy, ty)] {
                let e = (f(got) - want).to_f64();
                self.st.max("withdrawal above its value (noise)", e / t);
                if e > t {
                    for tag in ["L03", "L07"] {
                        self.bad(tag, "withdrawal pays more than its value", format!("{} {} paid for liquidity worth {}; {}", n, got, want, ctx));
                    }
                }
                if e <= -1.0 - t {
                    self.bad("L07", "withdrawal pays less than its value", format!("{} {} paid for liquidity worth {}; {}", n, got, want, ctx));
                }
            }
            let mine = |m: Pubkey| dtok.iter().filter(|t| t.1.mint == m && t.1.owner == wallet(u)).map(|t| t.2).sum::<i128>();
            if mine(mint(c.x)) != -dx || mine(mint(c.y)) != -dy {
                for tag in ["L07", "L02"] {
                    self.bad(tag, "withdrawal does not reach the provider", format!("X {} of {}, Y {} of {}; {}", mine(mint(c.x)), -dx, mine(mint(c.y)), -dy, ctx));
                }
            }
            let fl = self.book.flow.entry((p, u, plo, phi)).or_default();
            fl.out[0] += (-dx).max(0) as u128;
            fl.out[1] += (-dy).max(0) as u128;
            let fl = fl.clone();
            for i in 0..2 {
                if fl.out[i] > fl.inp[i] {
                    self.bad("L03", "a position paid out more than was paid in", format!("{:?} in, {:?} out; {}", fl.inp, fl.out, ctx));
                }
            }
            if ev != vec![("LiquidityRemoved", [-dx as u64, -dy as u64, lp])] {
                self.bad("L02", "report differs from what moved", format!("reported {:?}, moved X {} Y {} LP {}; {}", ev, -dx, -dy, lp, ctx));
            }
        }
    }

    fn invariants(&mut self) {
        self.st.hit("chk.ledger invariants");
        let roles: Vec<(Pubkey, Role)> = self.roles.iter().map(|(k, r)| (*k, *r)).collect();
        let mut gross: BTreeMap<(u8, u64), (u128, i128)> = BTreeMap::new();
        let mut poss: Vec<((u8, u8, u64, u64), u128)> = vec![];
        let mut ticks: Vec<((u8, u64), TickState)> = vec![];
        let mut held: BTreeMap<Pubkey, u128> = BTreeMap::new();
        let mut h = 0u64;
        for (k, a) in &self.bank {
            if let Some(t) = token(a) {
                *held.entry(t.mint).or_insert(0) += t.amount as u128;
                h = mix(h ^ t.amount);
            }
            if a.owner == program() && !self.roles.contains_key(k) {
                let k = *k;
                self.bad("L04", "state at a foreign address", format!("{}", k));
                return;
            }
        }
        for (k, r) in &roles {
            let Some(a) = self.bank.get(k) else { continue };
            match r {
                Role::Pos(p, u, lo, hi) => {
                    if let Some(s) = parse::<PositionState>(a) {
                        if s.liquidity > 0 {
                            poss.push(((*p, *u, *lo, *hi), s.liquidity));
                            h = mix(h ^ s.liquidity as u64);
                            let e = gross.entry((*p, *lo)).or_insert((0, 0));
                            e.0 += s.liquidity;
                            e.1 += s.liquidity as i128;
                            let e = gross.entry((*p, *hi)).or_insert((0, 0));
                            e.0 += s.liquidity;
                            e.1 -= s.liquidity as i128;
                        }
                    }
                }
                Role::Tick(p, t) => {
                    if let Some(s) = parse::<TickState>(a) {
                        ticks.push(((*p, *t), s));
                    }
                }
                _ => {}
            }
        }
        self.st.states.insert(h);
        self.log = mix(self.log ^ h);
        for (k, s) in &ticks {
            let w = gross.remove(k).unwrap_or((0, 0));
            if s.liq_gross != w.0 || net(s) != w.1 {
                self.bad("L01", "tick liquidity differs from the positions", format!("tick {:?}: gross {} net {} instead of {} {}", k, s.liq_gross, net(s), w.0, w.1));
            }
        }
        if let Some((k, _)) = gross.iter().next() {
            self.bad("L01", "a position ends at a tick that does not exist", format!("{:?}", k));
        }
        for p in 0..self.pools.len() as u8 {
            let Some(s) = World::pool_state(&self.bank, p) else { continue };
            let g = s.pool_global_state.clone();
            let mine: Vec<_> = poss.iter().filter(|x| x.0 .0 == p).cloned().collect();
            let act: u128 = mine.iter().filter(|x| x.0 .2 <= g.tick && g.tick < x.0 .3).map(|x| x.1).sum();
            if act != g.liquidity {
                self.bad("L01", "active liquidity differs from the positions in range", format!("pool {}: {} instead of {}", p, g.liquidity, act));
            }
            // solvency, at the pool's price
            let rp = Dd::raw12(g.root_price, false);
            let (mut cx, mut cy) = (Dd::ZERO, Dd::ZERO);
            for ((_, _, lo, hi), raw) in &mine {
                let (a, b) = Model::amounts(Dd::raw12(*raw, false), rp, self.tt(*lo), self.tt(*hi));
                cx += a;
                cy += b;
            }
            let c = self.pools[p as usize].clone();
            let (hx, hy) = (World::balance(&self.bank, &vault_of(p, c.x)), World::balance(&self.bank, &vault_of(p, c.y)));
            let slack = 1e-9 * (1 + self.book.deposits.get(&p).copied().unwrap_or(0)) as f64;
            for (n, have, want) in [("X", hx, cx), ("Y", hy, cy)] {
                let short = (want - Dd::f(have as f64)).to_f64();
                self.st.max("vault shortfall", short);
                if short > slack + want.to_f64() * 3e-11 {
                    self.bad("L03", "vault does not cover the positions", format!("pool {}: {} {} for claims of {}", p, n, have, want));
                }
            }
            // LP tokens are backed by liquidity
            let sup = self.bank.get(&lp_mint(p)).and_then(|a| mint_of(a)).map_or(0, |m| m.supply) as u128;
            let tot: u128 = mine.iter().map(|x| x.1).sum();
            if sup * 1_000_000_000_000 > tot {
                self.bad("L13", "LP tokens without liquidity behind them", format!("pool {}: supply {} liquidity {}", p, sup, Dd::raw12(tot, false)));
            }
            let dust = tot - (sup * 1_000_000_000_000).min(tot);
            if dust > self.book.deposits.get(&p).copied().unwrap_or(0) as u128 * 1_000_000_000_000 {
                self.bad("L13", "liquidity without LP tokens", format!("pool {}: supply {} liquidity {}", p, sup, Dd::raw12(tot, false)));
            }
            if *held.get(&lp_mint(p)).unwrap_or(&0) != sup {
                self.bad("L02", "LP supply differs from LP balances", format!("pool {}: {} vs {:?}", p, sup, held.get(&lp_mint(p))));
            }
            if let Some(c) = self.book.cfg.get(&p) {
                if config_bytes(c) != config_bytes(&s) {
                    let c = c.clone();
                    self.bad("L12", "pool configuration or price changes", format!("pool {}: {}", p, pool_diff(&c, &s)));
                }
            }
        }
        for m in 0..MINTS as u8 {
            let have = *held.get(&mint(m)).unwrap_or(&0);
            if have != self.totals[m as usize] as u128 {
                self.bad("L02", "tokens created or lost", format!("mint {}: {} instead of {}", m, have, self.totals[m as usize]));
            }
        }
    }

    // ------------------------------------------------------------------ requests that must be served
    /// Why this request must succeed in state `b` (None: it need not).
    fn must(&mut self, b: &Bank, ix: &Ix) -> Option<&'static str> {
        let missing = |k: Pubkey| b.get(&k).map_or(true, |a| a.owner == sys());
        match ix {
            Ix::InitPool { p, t, .. } => {
                let c = &self.pools[*p as usize];
                (!c.foreign_lp && missing(pool(*p)) && missing(vault_of(*p, c.x)) && *t <= 100_000).then_some("initialisation of a new pool")
            }
            Ix::InitBitmap { p, .. } => (World::pool_state(b, *p).is_some() && missing(bitmap(*p))).then_some("initialisation of a new bitmap"),
            Ix::InitTick { p, t, .. } => (World::pool_state(b, *p).is_some() && missing(tick_key(*p, *t))).then_some("initialisation of a new tick"),
            Ix::Create { p, u, lo, hi } => {
                let ok = lo < hi && World::tick_state(b, *p, *lo).is_some() && World::tick_state(b, *p, *hi).is_some() && missing(pos_key(*p, *u, *lo, *hi));
                ok.then_some("opening of a new position")
            }
            Ix::Dep { p, u, lo, hi, cur, x, y } => {
                let g = World::pool_state(b, *p)?.pool_global_state;
                let c = self.pools[*p as usize].clone();
                let ok = lo < hi
                    && !missing(bitmap(*p))
                    && g.tick == *cur
                    && World::tick_state(b, *p, *cur).is_some()
                    && World::tick_state(b, *p, *lo).is_some()
                    && World::tick_state(b, *p, *hi).is_some()
                    && World::pos_state(b, *p, *u, *lo, *hi).is_some()
                    && World::balance(b, &tok(*u, c.x)) >= *x
                    && World::balance(b, &tok(*u, c.y)) >= *y
                    && [tok(*u, c.x), tok(*u, c.y), vault_of(*p, c.x), vault_of(*p, c.y), lp_tok(*u, *p)].iter().all(|k| !World::frozen(b, k));
                let pb = self.tt(*hi).to_f64();
                // the fixed-point format ends somewhere above these amounts
                let fits = (*x as f64) * pb * pb < 2e13 && (*y as f64) < 2e13 && pb < 1e3;
                if ok && !fits {
                    self.st.hit("exempt.amounts beyond the number format");
                }
                (ok && fits).then_some("deposit")
            }
            Ix::Wd { p, u, lo, hi, cur, lp } => {
                let g = World::pool_state(b, *p)?.pool_global_state;
                let c = self.pools[*p as usize].clone();
                let s = World::pos_state(b, *p, *u, *lo, *hi)?;
                let ok = !missing(bitmap(*p))
                    && g.tick == *cur
                    && World::tick_state(b, *p, *cur).is_some()
                    && (*lp as u128) * 1_000_000_000_000 <= s.liquidity
                    && World::balance(b, &lp_tok(*u, *p)) >= *lp
                    && [tok(*u, c.x), tok(*u, c.y), vault_of(*p, c.x), vault_of(*p, c.y), lp_tok(*u, *p)].iter().all(|k| !World::frozen(b, k));
                let width = (self.tt(*hi) - self.tt(*lo)).to_f64();
                // nothing was ever deposited where no price can be computed
                let fits = *lp as f64 * width < 1e14 && !(s.liquidity == 0 && self.tt(*hi).to_f64() >= 1e3);
                if ok && !fits {
                    self.st.hit("exempt.amounts beyond the number format");
                }
                (ok && fits).then_some("withdrawal")
            }
            _ => None,
        }
    }

    fn exec(&mut self, at: usize, ev: &Ev) {
        self.at = at;
        self.st.events += 1;
        match ev {
            Ev::Tx(tx) => {
                let honest = tx.mal.is_empty() && tx.calls.is_none() && tx.cpi.is_none();
                let b0 = self.bank.clone();
                match self.run_tx(tx) {
                    Ok(()) => {
                        self.st.hit("tx.committed");
                        if !tx.mal.is_empty() {
                            self.st.hit("tx.tampered but harmless");
                        }
                    }
                    Err(e) => {
                        self.st.hit(if !tx.mal.is_empty() { "tx.attack refused" } else { "tx.refused" });
                        self.unchanged(&b0, tx);
                        if honest {
                            self.blame(tx, &e);
                        }
                    }
                }
            }
            Ev::Fork(n) => self.fork(*n as usize),
            Ev::Pair(a, b) => self.pair(a, b),
            Ev::Exit { order } => self.exit(*order),
        }
    }
    fn unchanged(&mut self, b0: &Bank, tx: &Tx) {
        let same = b0.iter().all(|(k, a)| self.bank.get(k).map_or(false, |b| a == b || self.roles.get(k).is_none()));
        if !same {
            self.bad("L04", "a refused transaction has an effect", format!("{:?}", tx));
        }
    }
    /// An honest transaction was refused: was any of its requests entitled to success?
    fn blame(&mut self, tx: &Tx, err: &str) {
        let mut b = self.bank.clone();
        for ix in &tx.ixs {
            let one = Tx { pay: tx.pay, ..Tx::of(vec![ix.clone()]) };
            let must = self.must(&b, ix);
            let (ixs, signers) = self.compile(&one);
            let r = execute(&mut b, &ixs, &signers, &Limits::default(), &mut Cost::default());
            if let Err(e) = r {
                if let Some(what) = must {
                    let tag = if what == "withdrawal" { "L08" } else { "L10" };
                    self.bad(tag, &format!("{} refused", what), format!("{:?} refused: {} ({})", ix, e, err));
                    if what.contains("new") {
                        self.bad("L06", &format!("{} refused", what), format!("{:?} refused: {} ({})", ix, e, err));
                    }
                }
                return;
            }
        }
        self.bad("L10", "requests pass one by one but not in one transaction", format!("{:?}: {}", tx, err));
    }

    /// The last n transactions are undone; executing them again must give the same ledger.
    fn fork(&mut self, n: usize) {
        let n = n.min(self.past.len());
        if n == 0 {
            return;
        }
        self.st.hit("fault.fork abandoned");
        let undone: Vec<_> = self.past.iter().skip(self.past.len() - n).cloned().collect();
        let tip = self.bank.clone();
        let (bank, book, _) = undone[0].clone();
        let mut again = bank.clone();
        for (_, _, tx) in &undone {
            // fakes are created outside of transactions: carry them over
            let (ixs, signers) = self.compile(tx);
            for (k, a) in &tip {
                if a.owner == rogue() || !again.contains_key(k) && self.roles.get(k).is_none() && a.owner == spl_token::id() {
                    again.insert(*k, a.clone());
                }
            }
            let lim = Limits { calls: tx.calls, cpi: tx.cpi };
            if let Err(e) = execute(&mut again, &ixs, &signers, &lim, &mut Cost::default()) {
                self.bad("L11", "a replayed transaction fails", format!("{:?}: {}", tx, e));
                break;
            }
        }
        self.st.hit("chk.replay of a fork");
        if let Some(k) = first_difference(&again, &tip, &self.roles, true) {
            if !self.foreign.contains_key("L11|a replayed transaction fails") {
                self.bad("L11", "replaying the same transactions gives another ledger", format!("{:?} differs after {:?}", k, undone.iter().map(|u| &u.2).collect::<Vec<_>>()));
            }
        }
        self.bank = bank;
        self.book = book;
        for _ in 0..n {
            self.past.pop_back();
        }
    }

    /// Two independent requests give the same ledger in either order.
    fn pair(&mut self, a: &Tx, b: &Tx) {
        let go = |w: &mut World, first: &Tx, second: &Tx| {
            let mut bank = w.bank.clone();
            let mut ok = vec![];
            for t in [first, second] {
                let (ixs, signers) = w.compile(t);
                ok.push(execute(&mut bank, &ixs, &signers, &Limits::default(), &mut Cost::default()).is_ok());
            }
            (bank, ok)
        };
        let (b1, o1) = go(self, a, b);
        let (b2, o2) = go(self, b, a);
        self.st.hit("chk.both orders");
        if o1[0] != o2[1] || o1[1] != o2[0] {
            self.bad("L11", "the order decides which request is served", format!("{:?} / {:?}: {:?} {:?}", a, b, o1, o2));
            return;
        }
        if o1[0] && o1[1] {
            self.st.hit("chk.both orders, both served");
        }
        if let Some(k) = first_difference(&b1, &b2, &self.roles, false) {
            self.bad("L11", "the order of two requests changes the ledger", format!("{:?} differs: {:?} / {:?}", k, a, b));
        }
    }

    /// Faults have stopped: every provider leaves.
    fn exit(&mut self, order: u64) {
        self.st.hit("chk.exit of all providers");
        let mut r = Rng::new(order);
        // the issuer thaws what it froze
        for k in self.bank.keys().copied().collect::<Vec<_>>() {
            if let Some(mut t) = self.bank.get(&k).and_then(|a| token(a)) {
                if t.is_frozen() {
                    t.state = spl_token::state::AccountState::Initialized;
                    let mut a = (*self.bank[&k]).clone();
                    a.data = packed(&t);
                    self.bank.insert(k, Rc::new(a));
                }
            }
        }
        for p in 0..self.pools.len() as u8 {
            let Some(s) = World::pool_state(&self.bank, p) else { continue };
            let cur = s.pool_global_state.tick;
            let mut own: Vec<(u8, u64, u64)> = vec![];
            for (k, r) in &self.roles {
                if let Role::Pos(q, u, lo, hi) = r {
                    if *q == p && self.bank.get(k).and_then(|a| parse::<PositionState>(a)).map_or(false, |s| s.liquidity > 0) {
                        own.push((*u, *lo, *hi));
                    }
                }
            }
            for i in (1..own.len()).rev() {
                own.swap(i, r.idx(i + 1));
            }
            if World::tick_state(&self.bank, p, cur).is_none() && !own.is_empty() {
                let _ = self.run_tx(&Tx::of(vec![Ix::InitTick { p, u: 0, t: cur }]));
            }
            for (u, lo, hi) in &own {
                let liq = World::pos_state(&self.bank, p, *u, *lo, *hi).map_or(0, |s| s.liquidity);
                let want = (liq / 1_000_000_000_000) as u64;
                // LP tokens are bought back from whoever holds them
                for v in 0..USERS as u8 {
                    let have = World::balance(&self.bank, &lp_tok(*u, p));
                    if have < want && v != *u {
                        let n = (want - have).min(World::balance(&self.bank, &lp_tok(v, p)));
                        if n > 0 {
                            let _ = self.run_tx(&Tx::of(vec![Ix::LpXfer { p, from: v, to: *u, n }]));
                        }
                    }
                }
                // in one go, or in parts where the amounts exceed the number format
                let mut todo = want.min(World::balance(&self.bank, &lp_tok(*u, p)));
                let mut part = todo;
                let mut tries = 0;
                while tries < 64 {
                    tries += 1;
                    let tx = Tx::of(vec![Ix::Wd { p, u: *u, lo: *lo, hi: *hi, cur, lp: part }]);
                    match self.run_tx(&tx) {
                        Ok(()) => {
                            todo -= part;
                            part = part.min(todo);
                            if todo == 0 {
                                break;
                            }
                        }
                        Err(e) => {
                            if part < 1_000_000_000_000 {
                                self.bad("L08", "a provider cannot leave", format!("{:?}: {}", tx, e));
                                break;
                            }
                            self.st.hit("op.withdrawal in parts");
                            part /= 4;
                        }
                    }
                }
            }
            let sup = self.bank.get(&lp_mint(p)).and_then(|a| mint_of(a)).map_or(0, |m| m.supply);
            let left: u128 = own.iter().map(|(u, lo, hi)| World::pos_state(&self.bank, p, *u, *lo, *hi).map_or(0, |s| s.liquidity)).sum();
            let n = self.book.deposits.get(&p).copied().unwrap_or(0) as u128;
            // LP tokens a provider had minted into the pool's own account are out of reach
            let stuck = World::balance(&self.bank, &lp_vault(p));
            if left > (n + stuck as u128) * 1_000_000_000_000 || (sup > stuck && !own.is_empty()) {
                self.bad("L08", "liquidity cannot be withdrawn", format!("pool {}: {} liquidity and {} LP tokens left after everybody left", p, Dd::raw12(left, false), sup));
            }
        }
    }
}

fn net(t: &TickState) -> i128 {
    if t.liq_net_neg != 0 {
        -(t.liq_net as i128)
    } else {
        t.liq_net as i128
    }
}
/// Everything of a pool that no request may change.
fn config_bytes(s: &PoolState) -> Vec<u8> {
    let mut c = s.clone();
    c.pool_global_state.liquidity = 0;
    let mut v = vec![];
    let _ = c.try_serialize(&mut v);
    v
}
fn pool_diff(a: &PoolState, b: &PoolState) -> String {
    let (x, y) = (&a.pool_global_state, &b.pool_global_state);
    format!("tick {} -> {}, root price {} -> {}, scales {:?} -> {:?}", x.tick, y.tick, x.root_price, y.root_price, (x.liq_scale, x.rp_scale), (y.liq_scale, y.rp_scale))
}
fn first_difference(a: &Bank, b: &Bank, roles: &BTreeMap<Pubkey, Role>, all: bool) -> Option<Role> {
    for (k, r) in roles {
        // what deposits and withdrawals write into the bitmap are placeholders
        if !all && matches!(r, Role::Bitmap(_)) {
            continue;
        }
        if a.get(k) != b.get(k) {
            return Some(*r);
        }
    }
    None
}
fn parse_events(v: &[Vec<u8>]) -> Vec<(&'static str, [u64; 3])> {
    use anchor_lang::Discriminator;
    let mut out = vec![];
    for e in v {
        let name = if e.len() >= 8 && e[..8] == hmmcl_sandbox::events::LiquidityAdded::discriminator() {
            "LiquidityAdded"
        } else if e.len() >= 8 && e[..8] == hmmcl_sandbox::events::LiquidityRemoved::discriminator() {
            "LiquidityRemoved"
        } else {
            "other"
        };
        let f = |i: usize| e.get(8 + 8 * i..16 + 8 * i).map_or(0, |s| u64::from_le_bytes(s.try_into().unwrap()));
        out.push((name, [f(0), f(1), f(2)]));
    }
    out
}
fn ix_name(ix: &Ix) -> &'static str {
    match ix {
        Ix::InitPool { .. } => "init pool",
        Ix::InitBitmap { .. } => "init bitmap",
        Ix::InitTick { .. } => "init tick",
        Ix::Create { .. } => "open position",
        Ix::Dep { .. } => "deposit",
        Ix::Wd { .. } => "withdraw",
        Ix::Xfer { .. } => "token transfer",
        Ix::LpXfer { .. } => "LP transfer",
        Ix::Donate { .. } => "donation",
        Ix::Fund { .. } => "funding",
        Ix::Freeze { .. } => "freeze",
    }
}
fn payer_slot(ix: &Ix) -> Option<usize> {
    match ix {
        Ix::InitPool { .. } => Some(1),
        Ix::InitBitmap { .. } | Ix::InitTick { .. } => Some(2),
        Ix::Create { .. } => Some(5),
        Ix::Dep { .. } | Ix::Wd { .. } => Some(15),
        _ => None,
    }
}
fn code(tx: &Tx) -> String {
    tx.ixs
        .iter()
        .map(|i| match i {
            Ix::InitPool { .. } => 'P',
            Ix::InitBitmap { .. } => 'B',
            Ix::InitTick { .. } => 'T',
            Ix::Create { .. } => 'C',
            Ix::Dep { .. } => 'D',
            Ix::Wd { .. } => 'W',
            Ix::Xfer { .. } => 'x',
            Ix::LpXfer { .. } => 'l',
            Ix::Donate { .. } => 'd',
            Ix::Fund { .. } => 'f',
            Ix::Freeze { .. } => 'z',
        })
        .collect::<String>()
        + if tx.mal.is_empty() { "" } else { "!" }
}

// ------------------------------------------------------------------ generator
struct Prof {
    n: u64,
    attack: u64,
    setup: u64,
    lp: u64,
    over: u64,
    pair: u64,
    fork: u64,
    other: u64,
    abort: u64,
    pools: Vec<usize>,
}
fn profile(prop: &str, r: &mut Rng, deep: bool) -> Prof {
    let mut p = Prof {
        n: r.range(12, if deep { 90 } else { 45 }),
        attack: 10,
        setup: 6,
        lp: 60,
        over: 6,
        pair: 4,
        fork: 4,
        other: 8,
        abort: 4,
        pools: vec![1, 1, 2],
    };
    match prop {
        "L04" => p.attack = 80,
        "L06" => {
            p.setup = 60;
            p.attack = 30;
            p.other = 20;
        }
        "L09" => {
            p.pools = vec![2, 2, 3];
            p.attack = 40;
        }
        "L11" => {
            p.pair = 40;
            p.fork = 15;
        }
        "L12" => p.attack = 30,
        "L13" => {
            p.over = 40;
            p.attack = 25;
        }
        _ => {}
    }
    if r.chance(30) && prop != "L04" {
        p.attack = 0;
    }
    if r.chance(40) {
        p.abort = 0;
    }
    p
}

struct Gen<'a> {
    w: &'a World,
    view: &'a Bank,
    r: &'a mut Rng,
    ticks: &'a [Vec<u64>],
    scale: u64,
}
impl<'a> Gen<'a> {
    fn amount(&mut self) -> u64 {
        match self.r.below(12) {
            0 => 0,
            1 => 1,
            2 => self.r.range(2, 30),
            3 if self.r.chance(20) => *self.r.pick(&[RICH, RICH / 2, u64::MAX, 1 << 63, RICH / 10]),
            3 => self.r.log(1, 10_000_000_000_000),
            _ => self.r.log(1, self.scale),
        }
    }
    fn range(&mut self, p: u8) -> (u64, u64) {
        let t = &self.ticks[p as usize];
        let mut a = *self.r.pick(t);
        let mut b = *self.r.pick(t);
        while a == b {
            b = *self.r.pick(t);
            if self.r.chance(10) {
                a = *self.r.pick(t);
            }
        }
        (a.min(b), a.max(b))
    }
    fn cur(&mut self, p: u8) -> u64 {
        World::pool_state(self.view, p).map_or(self.w.pools[p as usize].tick0, |s| s.pool_global_state.tick)
    }
    fn owned(&self, p: u8, u: u8) -> Vec<(u64, u64)> {
        self.w
            .roles
            .iter()
            .filter_map(|(k, r)| match r {
                Role::Pos(q, v, lo, hi) if *q == p && *v == u => self.view.get(k).and_then(|a| parse::<PositionState>(a)).map(|_| (*lo, *hi)),
                _ => None,
            })
            .collect()
    }
    /// What a client sends to get a deposit done, given what it sees.
    fn deposit(&mut self, p: u8, u: u8) -> Tx {
        let own = self.owned(p, u);
        let (lo, hi) = if !own.is_empty() && self.r.chance(50) { *self.r.pick(&own) } else { self.range(p) };
        let cur = self.cur(p);
        let mut ixs = vec![];
        for t in [lo, hi, cur] {
            let have = ixs.iter().any(|i| matches!(i, Ix::InitTick { t: q, .. } if *q == t));
            if World::tick_state(self.view, p, t).is_none() && !have {
                ixs.push(Ix::InitTick { p, u, t });
            }
        }
        if World::pos_state(self.view, p, u, lo, hi).is_none() {
            ixs.push(Ix::Create { p, u, lo, hi });
        }
        let (x, y) = (self.amount(), self.amount());
        let d = Ix::Dep { p, u, lo, hi, cur, x, y };
        if ixs.is_empty() || self.r.chance(75) {
            ixs.push(d);
        }
        Tx::of(ixs)
    }
    fn withdraw(&mut self, p: u8, u: u8, over: u64) -> Option<Tx> {
        let own = self.owned(p, u);
        if own.is_empty() {
            return None;
        }
        let (lo, hi) = *self.r.pick(&own);
        let s = World::pos_state(self.view, p, u, lo, hi)?;
        let l = (s.liquidity / 1_000_000_000_000) as u64;
        let bal = World::balance(self.view, &lp_tok(u, p));
        let lp = if self.r.chance(over) {
            match self.r.below(6) {
                0 => l.saturating_add(1),
                1 => l.saturating_add(self.r.log(1, 1_000_000)),
                2 => bal.saturating_add(1),
                3 => bal, // another position's tokens
                4 => *self.r.pick(&[u64::MAX, 1 << 63, u64::MAX / 1_000_000_000_000, 18_446_745]),
                _ => l.saturating_mul(2),
            }
        } else {
            match self.r.below(6) {
                0 => 1.min(l),
                1 => 0,
                2 | 3 => l.min(bal),
                4 => l / 2,
                _ => self.r.log(1, l.max(1)).min(bal),
            }
        };
        let cur = self.cur(p);
        Some(Tx::of(vec![Ix::Wd { p, u, lo, hi, cur, lp }]))
    }
    fn setup(&mut self, u: u8) -> Tx {
        let p = self.r.idx(self.w.pools.len()) as u8;
        let t0 = self.w.pools[p as usize].tick0;
        let ix = if World::pool_state(self.view, p).is_none() && self.r.chance(90) {
            Ix::InitPool { p, u, t: t0 }
        } else if self.view.get(&bitmap(p)).map_or(true, |a| a.owner == sys()) && self.r.chance(80) {
            Ix::InitBitmap { p, u }
        } else {
            match self.r.below(6) {
                0 => Ix::InitPool { p, u, t: self.r.range(0, 2 * t0 + 10) },
                1 => Ix::InitBitmap { p, u },
                2 | 3 => Ix::InitTick { p, u, t: *self.r.pick(&self.ticks[p as usize]) },
                _ => {
                    let (lo, hi) = self.range(p);
                    if self.r.chance(10) {
                        Ix::Create { p, u, lo, hi: lo }
                    } else if self.r.chance(15) {
                        Ix::Create { p, u, lo: hi, hi: lo }
                    } else {
                        Ix::Create { p, u, lo, hi }
                    }
                }
            }
        };
        Tx::of(vec![ix])
    }
    fn other(&mut self, u: u8, freezable: bool) -> Tx {
        let p = self.r.idx(self.w.pools.len()) as u8;
        let c = &self.w.pools[p as usize];
        let m = *self.r.pick(&[c.x, c.y]);
        let to = self.r.idx(USERS) as u8;
        let ix = match self.r.below(if freezable { 8 } else { 5 }) {
            0 => Ix::Xfer { m, from: u, to, n: self.r.log(1, RICH) },
            1 => Ix::LpXfer { p, from: u, to, n: self.r.log(1, World::balance(self.view, &lp_tok(u, p)).max(1)) },
            2 => Ix::Donate { p, m, u, n: self.amount() },
            3 | 4 => {
                let (lo, hi) = self.range(p);
                let what = match self.r.below(6) {
                    0 => Ref::Pool(p),
                    1 => Ref::Vault(p, m),
                    2 => Ref::Tick(p, lo),
                    3 => Ref::Pos(p, to, lo, hi),
                    4 => Ref::LpVault(p),
                    _ => Ref::Bitmap(p),
                };
                Ix::Fund { what, u, n: *self.r.pick(&[1, 890_880, 5_000_000, 1_000_000_000]) }
            }
            _ => {
                let what = if self.r.chance(50) { Ref::Vault(p, m) } else { Ref::Tok(self.r.idx(USERS) as u8, m) };
                Ix::Freeze { m, what, thaw: self.r.chance(60) }
            }
        };
        Tx::of(vec![ix])
    }
    /// A request of his own that would be served, with one account (sometimes two) replaced by
    /// a genuine one of the same kind: of another pool, provider, range, tick or token.
    fn one_lie(&mut self) -> Option<(Tx, Tx)> {
        let np = self.w.pools.len();
        let p = self.r.idx(np) as u8;
        let q = ((p as usize + if np > 1 { 1 + self.r.idx(np - 1) } else { 0 }) % np) as u8;
        let u = if self.r.chance(80) { MALLORY } else { self.r.idx(USERS) as u8 };
        let v = ((u as usize + 1 + self.r.idx(USERS - 1)) % USERS) as u8;
        let mut base = if self.r.chance(50) { self.withdraw(p, u, 10) } else { None }.unwrap_or_else(|| self.deposit(p, u));
        let (lo, hi, cur) = match base.ixs.last()? {
            Ix::Dep { lo, hi, cur, .. } | Ix::Wd { lo, hi, cur, .. } => (*lo, *hi, *cur),
            _ => return None,
        };
        let c = &self.w.pools[p as usize];
        let (cx, cy) = (c.x, c.y);
        let w2 = &self.w.pools[q as usize];
        let (qx, qy) = (w2.x, w2.y);
        let q_open = World::pool_state(self.view, q).is_some();
        let (mine, his) = (self.owned(p, u), self.owned(p, v));
        let any = |g: &mut Gen, l: &Vec<(u64, u64)>| if l.is_empty() { (lo, hi) } else { *g.r.pick(l) };
        let mut subs: Vec<(u8, Ref)> = vec![];
        let mut pre: Vec<Ix> = vec![];
        for _ in 0..if self.r.chance(25) { 2 } else { 1 } {
            let far = q != p && self.r.chance(50);
            let slot = *self.r.pick(&[0, 1, 2, 2, 2, 3, 3, 4, 4, 5, 5, 6, 7, 8, 9, 9, 10, 10, 11, 12, 12, 14, 15u8]);
            let to = match slot {
                0 => Ref::Pool(q),
                1 => Ref::Bitmap(q),
                2 if far => {
                    if q_open && World::pos_state(self.view, q, u, lo, hi).is_none() {
                        pre.push(Ix::Create { p: q, u, lo, hi });
                    }
                    Ref::Pos(q, u, lo, hi)
                }
                2 => {
                    if self.r.chance(50) {
                        let (a, b) = any(self, &his);
                        Ref::Pos(p, v, a, b)
                    } else {
                        let (a, b) = any(self, &mine);
                        Ref::Pos(p, u, a, b)
                    }
                }
                3 | 4 | 5 => {
                    let t = [lo, hi, cur][slot as usize - 3];
                    let (side, t) = if far {
                        (q, t)
                    } else {
                        let o = [lo, hi, cur, *self.r.pick(&self.ticks[p as usize])];
                        (p, *self.r.pick(&o))
                    };
                    if World::tick_state(self.view, side, t).is_none() && World::pool_state(self.view, side).is_some() {
                        pre.push(Ix::InitTick { p: side, u, t });
                    }
                    Ref::Tick(side, t)
                }
                6 => if far { Ref::LpMint(q) } else { Ref::Mint(cx) },
                7 | 8 => {
                    let (m, o) = if slot == 7 { (cx, cy) } else { (cy, cx) };
                    match self.r.below(5) {
                        0 => Ref::Tok(u, o),
                        1 => Ref::Vault(p, m),
                        2 => Ref::Vault(q, m),
                        _ => Ref::Tok(v, m),
                    }
                }
                9 | 10 => {
                    let (m, o, z) = if slot == 9 { (cx, cy, qx) } else { (cy, cx, qy) };
                    match self.r.below(8) {
                        0 => Ref::Vault(p, o),
                        1 => Ref::Tok(u, m),
                        2 => Ref::Lookalike(p, m),
                        3 => Ref::Vault(q, z),
                        4 => Ref::Tok(v, m),
                        _ => Ref::Vault(q, m),
                    }
                }
                11 => if far { Ref::LpVault(q) } else { Ref::LpTok(u, p) },
                12 => match self.r.below(4) {
                    0 => Ref::LpTok(u, q),
                    1 => Ref::LpVault(p),
                    _ => Ref::LpTok(v, p),
                },
                _ => Ref::Wallet(v),
            };
            subs.push((slot, to));
        }
        pre.retain(|i| !base.ixs.contains(i));
        pre.dedup();
        pre.append(&mut base.ixs);
        base.ixs = pre;
        let ix = base.ixs.len() as u8 - 1;
        let mut tx = base.clone();
        tx.mal = subs.into_iter().map(|(slot, to)| Mal::Acc { ix, slot, to }).collect();
        Some((base, tx))
    }
    /// The attacker takes a plausible request and bends it.
    fn attack(&mut self) -> Option<(Tx, Tx)> {
        if self.r.chance(40) {
            return self.one_lie();
        }
        let np = self.w.pools.len();
        let p = self.r.idx(np) as u8;
        let q = self.r.idx(np) as u8;
        let victim = self.r.idx(USERS - 1) as u8;
        let u = if self.r.chance(60) { MALLORY } else { victim };
        let v = if u == MALLORY { victim } else { MALLORY };
        let mut tx = match self.r.below(10) {
            0 => Tx::of(vec![{ let (lo, hi) = self.range(p); Ix::Create { p, u, lo, hi } }]),
            1 => self.setup(u),
            2..=5 => self.withdraw(p, u, 30).or_else(|| self.withdraw(p, v, 30))?,
            _ => self.deposit(p, u),
        };
        let mut base = tx.clone();
        let i = tx.ixs.len() - 1;
        let w2 = &self.w.pools[q as usize];
        let (qx, qy) = (w2.x, w2.y);
        let c = &self.w.pools[p as usize];
        let (cx, cy) = (c.x, c.y);
        let (lo, hi, cur) = match &tx.ixs[i] {
            Ix::Dep { lo, hi, cur, .. } | Ix::Wd { lo, hi, cur, .. } => (*lo, *hi, *cur),
            Ix::Create { lo, hi, .. } => (*lo, *hi, 0),
            Ix::InitTick { t, .. } => (*t, *t, *t),
            _ => (0, 0, 0),
        };
        let range = matches!(tx.ixs[i], Ix::Dep { .. } | Ix::Wd { .. });
        let other_range = self.range(p);
        let ot = *self.r.pick(&self.ticks[p as usize]);
        if u != MALLORY {
            tx.mal.push(Mal::NoSign(u));
            // he can at least pay for it
            if self.r.chance(50) && range {
                tx.mal.push(Mal::Acc { ix: i as u8, slot: 15, to: Ref::Wallet(MALLORY) });
            }
        }
        let own: Vec<(u64, u64)> = self.owned(p, v);
        let mut n = self.r.range(1, 2);
        let i8 = i as u8;
        if range && self.r.chance(30) {
            let sub = |slot: u8, to: Ref| Mal::Acc { ix: i8, slot, to };
            if u != MALLORY {
                // somebody else's request with the attacker in the user's place, wholly or in part
                let most = self.r.chance(40);
                let groups = [
                    vec![sub(15, Ref::Wallet(MALLORY))],
                    vec![sub(14, Ref::Wallet(MALLORY))],
                    vec![sub(7, Ref::Tok(MALLORY, cx)), sub(8, Ref::Tok(MALLORY, cy))],
                    vec![sub(12, Ref::LpTok(MALLORY, p))],
                ];
                for (k, g) in groups.into_iter().enumerate() {
                    if k == 0 || self.r.chance(if most { 90 } else { 45 }) {
                        tx.mal.extend(g);
                    }
                }
                // no more than he has LP tokens for
                if let Ix::Wd { lp, .. } = &mut tx.ixs[i] {
                    let have = World::balance(self.view, &lp_tok(MALLORY, p));
                    if have > 0 && self.r.chance(70) {
                        *lp = (*lp).min(have);
                        base = tx.clone();
                        base.mal.clear();
                    }
                }
            } else {
                // part of the accounts belong to another pool
                let groups: [Vec<Mal>; 8] = [
                    vec![sub(0, Ref::Pool(q))],
                    vec![sub(1, Ref::Bitmap(q))],
                    vec![sub(2, Ref::Pos(q, u, lo, hi))],
                    vec![sub(3, Ref::Tick(q, lo)), sub(4, Ref::Tick(q, hi)), sub(5, Ref::Tick(q, cur))],
                    vec![sub(6, Ref::LpMint(q)), sub(12, Ref::LpTok(u, q))],
                    vec![sub(9, Ref::Vault(q, qx)), sub(7, Ref::Tok(u, qx))],
                    vec![sub(10, Ref::Vault(q, qy)), sub(8, Ref::Tok(u, qy))],
                    vec![sub(11, Ref::LpVault(q))],
                ];
                let most = self.r.chance(50);
                for g in groups {
                    if self.r.chance(if most { 80 } else { 25 }) {
                        tx.mal.extend(g);
                    }
                }
            }
            n = self.r.below(4) / 3;
        }
        for _ in 0..n {
            // slots of deposit and withdrawal: 0 pool 1 bitmap 2 position 3 lower 4 upper 5 current
            // 6 lp mint 7 user x 8 user y 9 vault x 10 vault y 11 lp vault 12 lp account 13 token program 14 user 15 payer
            let side = if self.r_q() { q } else { p };
            let slot = if range { self.r.range(0, 15) as u8 } else { self.r.range(0, 11) as u8 };
            let wrap = |g: &mut Gen, r: Ref| if g.r.chance(50) { Ref::Fake(Box::new(r)) } else { r };
            let to = if range {
                match slot {
                    0 => wrap(self, Ref::Pool(q)),
                    1 => wrap(self, Ref::Bitmap(q)),
                    2 => {
                        let (a, b) = if own.is_empty() || self.r.chance(30) { other_range } else { *self.r.pick(&own) };
                        let (a, b) = if self.r.chance(40) { (lo, hi) } else { (a, b) };
                        let who = if self.r.chance(60) { v } else { u };
                        wrap(self, Ref::Pos(side, who, a, b))
                    }
                    3 => {
                        let t = if self.r.chance(50) { lo } else { ot };
                        wrap(self, Ref::Tick(side, t))
                    }
                    4 => {
                        let t = if self.r.chance(50) { hi } else { ot };
                        wrap(self, Ref::Tick(side, t))
                    }
                    5 => {
                        let t = if self.r.chance(50) { cur } else { ot };
                        wrap(self, Ref::Tick(side, t))
                    }
                    6 => wrap(self, if side != p { Ref::LpMint(q) } else { Ref::Mint(cx) }),
                    7 | 8 => {
                        let m = if slot == 7 { cx } else { cy };
                        match self.r.below(6) {
                            0 => Ref::Fake(Box::new(Ref::Tok(u, m))),
                            1 => Ref::Vault(p, m),
                            2 => Ref::Tok(u, if slot == 7 { cy } else { cx }),
                            3 => Ref::Tok(MALLORY, m),
                            _ => Ref::Tok(v, m),
                        }
                    }
                    9 | 10 => {
                        let m = if slot == 9 { cx } else { cy };
                        match self.r.below(7) {
                            0 => Ref::Fake(Box::new(Ref::Vault(p, m))),
                            1 => Ref::Lookalike(p, m),
                            2 => Ref::Tok(MALLORY, m),
                            3 => Ref::Tok(v, m),
                            4 => Ref::Vault(p, if slot == 9 { cy } else { cx }),
                            _ => Ref::Vault(q, if slot == 9 { qx } else { qy }),
                        }
                    }
                    11 => wrap(self, Ref::LpVault(q)),
                    12 => match self.r.below(5) {
                        0 => Ref::Fake(Box::new(Ref::LpTok(u, p))),
                        1 => Ref::LpVault(p),
                        2 => Ref::LpTok(u, q),
                        _ => Ref::LpTok(v, p),
                    },
                    13 => Ref::Rogue,
                    14 => Ref::Wallet(v),
                    _ => Ref::Wallet(v),
                }
            } else {
                let r = match self.r.below(7) {
                    0 => Ref::Pool(q),
                    1 => Ref::Tick(p, ot),
                    2 => Ref::Wallet(v),
                    3 => Ref::Rogue,
                    4 => Ref::Pos(p, v, lo, hi),
                    5 => Ref::Mint(qx),
                    _ => Ref::Vault(p, cx),
                };
                if self.r.chance(40) { Ref::Fake(Box::new(r)) } else { r }
            };
            match self.r.below(10) {
                0 => tx.mal.push(Mal::ReadOnly { ix: i as u8, slot }),
                1..=3 if range || matches!(tx.ixs[i], Ix::Create { .. } | Ix::InitTick { .. }) => {
                    let pick = |g: &mut Gen, t: u64| match g.r.below(7) {
                        0 => ot,
                        1 => t.wrapping_add(1),
                        2 => t.wrapping_sub(1),
                        _ => t,
                    };
                    let (l2, h2, c2) = (pick(self, lo), pick(self, hi), pick(self, cur));
                    let (l2, h2) = if self.r.chance(15) { (h2, l2) } else { (l2, h2) };
                    if l2 < 1 << 20 && h2 < 1 << 20 && c2 < 1 << 20 {
                        tx.mal.push(Mal::Args { ix: i as u8, lo: l2, hi: h2, cur: c2 });
                        // matching accounts for the changed arguments, sometimes
                        if range && self.r.chance(60) {
                            tx.mal.push(Mal::Acc { ix: i as u8, slot: 3, to: Ref::Tick(p, l2) });
                            tx.mal.push(Mal::Acc { ix: i as u8, slot: 4, to: Ref::Tick(p, h2) });
                            tx.mal.push(Mal::Acc { ix: i as u8, slot: 5, to: Ref::Tick(p, c2) });
                        }
                    }
                }
                _ => tx.mal.push(Mal::Acc { ix: i as u8, slot, to }),
            }
        }
        if tx.mal.is_empty() {
            tx.mal.push(Mal::NoSign(victim));
        }
        Some((base, tx))
    }
    fn r_q(&mut self) -> bool {
        self.r.chance(30)
    }
}

fn gen_ticks(r: &mut Rng, t0: u64) -> Vec<u64> {
    let mut v: BTreeSet<u64> = BTreeSet::new();
    if r.chance(60) {
        v.insert(t0);
    }
    if r.chance(40) {
        v.insert(t0 + 1);
    }
    if r.chance(40) {
        v.insert(t0.saturating_sub(1));
    }
    // far ends: full-range positions and ticks nobody can price
    if r.chance(30) {
        v.insert(t0 + r.log(4000, 90_000));
        v.insert(if r.chance(50) { 0 } else { r.below(t0 + 1) });
    }
    if r.chance(10) {
        let far = match r.below(4) {
            0 => r.range(60_000, 140_000),
            1 => r.range(100_000, 900_000),
            2 => r.log(1 << 20, 1 << 62),
            _ => u64::MAX - r.below(3),
        };
        v.insert(far);
    }
    while v.len() < 6 {
        let d = r.log(1, 4000);
        v.insert(if r.chance(50) { t0 + d } else { t0.saturating_sub(d) });
    }
    v.into_iter().collect()
}

fn generate(prop: &str, mut r: Rng, deep: bool) -> Report<Trace> {
    let p = profile(prop, &mut r, deep);
    let np = *r.pick(&p.pools);
    let pools: Vec<PoolCfg> = (0..np)
        .map(|_| {
            let x = r.idx(MINTS) as u8;
            let y = ((x as usize + 1 + r.idx(MINTS - 1)) % MINTS) as u8;
            let tick0 = match r.below(6) {
                0 => r.range(0, 30),
                1 => r.range(5_000, 40_000),
                2 if r.chance(40) => r.range(40_000, 100_000),
                _ => r.range(100, 5_000),
            };
            PoolCfg { x, y, tick0, foreign_lp: false }
        })
        .collect();
    let mut pools = pools;
    if r.chance(if prop == "L06" { 50 } else { 10 }) {
        let mut c = pools[0].clone();
        c.foreign_lp = true;
        pools.push(c);
    }
    let np = pools.len();
    let freezable = r.chance(25);
    if np > 1 && r.chance(50) {
        for c in pools.iter_mut() {
            c.tick0 = r.range(100, 300);
        }
        if r.chance(70) {
            let t = pools[0].tick0;
            pools.iter_mut().for_each(|c| c.tick0 = t);
        }
    }
    let mut ticks: Vec<Vec<u64>> = pools.iter().map(|c| gen_ticks(&mut r, c.tick0)).collect();
    if np > 1 && r.chance(50) {
        let t = ticks[0].clone();
        ticks.iter_mut().for_each(|x| *x = t.clone());
    }
    let mut w = World::new(&pools, freezable, prop);
    let mut tr = Trace { pools, freezable, steps: vec![] };
    let scale = r.log(100, 1_000_000_000_000);
    let drop = *r.pick(&[0, 0, 5, 15]);
    let dup = *r.pick(&[0, 0, 5, 15]);
    let delay = *r.pick(&[100, 2000, 20_000]);
    let stale = *r.pick(&[0, 20, 60]);
    let life = 60_000u64; // a blockhash is good for about a minute
    let mut q: BinaryHeap<Reverse<(u64, u64)>> = BinaryHeap::new();
    let mut pend: BTreeMap<u64, (u64, u64, Ev, String)> = BTreeMap::new(); // id, sent, event
    let mut seq = 0u64;
    let mut ids = 0u64;
    let mut on_chain: VecDeque<u64> = VecDeque::new();
    let mut now = 0u64;
    let mut views: Vec<Bank> = vec![w.bank.clone(); USERS];
    let mut order = String::new();
    let mut delivered = 0;
    let mut last_cost: HashMap<String, Cost> = HashMap::new();
    while delivered < p.n && w.viol.is_none() {
        now += r.log(1, 3000);
        let u = r.idx(USERS) as u8;
        if r.chance(stale) {
            w.st.hit("fault.request built on a stale view");
        } else {
            views[u as usize] = w.bank.clone();
        }
        let view = views[u as usize].clone();
        let ready = (0..np as u8).any(|q| World::pool_state(&view, q).is_some() && view.get(&bitmap(q)).map_or(false, |a| a.owner == program()));
        let mut g = Gen { w: &w, view: &view, r: &mut r, ticks: &ticks, scale };
        let live: Vec<u8> = (0..np as u8).filter(|q| World::pool_state(&view, *q).is_some()).collect();
        let total = p.setup + p.lp + p.attack + p.pair + p.fork + p.other;
        let mut pick = g.r.below(total);
        let mut choose = |n: u64| {
            if pick < n {
                pick = u64::MAX;
                true
            } else {
                if pick != u64::MAX {
                    pick -= n;
                }
                false
            }
        };
        let boot = !ready && g.r.chance(70);
        let mut attack = false;
        let ev = if boot {
            Some(Ev::Tx(g.setup(u)))
        } else if choose(p.lp) {
            let pl = if live.is_empty() { 0 } else { *g.r.pick(&live) };
            let t = if g.r.chance(40) { g.withdraw(pl, u, p.over) } else { None };
            let mut t = t.unwrap_or_else(|| g.deposit(pl, u));
            // several requests in one transaction, each made for the state before it
            while g.r.chance(8) {
                let m = if g.r.chance(50) { g.withdraw(pl, u, p.over) } else { Some(g.deposit(pl, u)) };
                for ix in m.map(|m| m.ixs).unwrap_or_default() {
                    let setup = matches!(ix, Ix::InitTick { .. } | Ix::Create { .. });
                    if !setup || !t.ixs.contains(&ix) {
                        t.ixs.push(ix);
                    }
                }
            }
            if g.r.chance(8) {
                t.pay = Some(g.r.idx(USERS) as u8);
            }
            Some(Ev::Tx(t))
        } else if choose(p.setup) {
            Some(Ev::Tx(g.setup(u)))
        } else if choose(p.attack) {
            attack = true;
            None
        } else if choose(p.pair) {
            let pl = if live.is_empty() { 0 } else { *g.r.pick(&live) };
            let v = ((u as usize + 1 + g.r.idx(USERS - 1)) % USERS) as u8;
            let mk = |g: &mut Gen, u: u8| -> Option<Tx> {
                let t = if g.r.chance(50) { g.withdraw(pl, u, 5) } else { Some(g.deposit(pl, u)) }?;
                // independent requests only: not the race for creating one tick
                let ix = t.ixs.last()?.clone();
                matches!(ix, Ix::Dep { .. } | Ix::Wd { .. }).then(|| Tx::of(vec![ix]))
            };
            match (mk(&mut g, u), mk(&mut g, v)) {
                (Some(a), Some(b)) => Some(Ev::Pair(a, b)),
                _ => None,
            }
        } else if choose(p.fork) {
            Some(Ev::Fork(g.r.range(1, 6) as u8))
        } else {
            Some(Ev::Tx(g.other(u, freezable)))
        };
        let mut ev = ev;
        if attack {
            // bend a request that would be served as it stands, so that one lie decides
            for _ in 0..5 {
                let mut g = Gen { w: &w, view: &view, r: &mut r, ticks: &ticks, scale };
                let Some((base, t)) = g.attack() else { continue };
                let (ixs, signers) = w.compile(&base);
                let mut b = w.bank.clone();
                let ok = execute(&mut b, &ixs, &signers, &Limits::default(), &mut Cost::default()).is_ok();
                ev = Some(Ev::Tx(t));
                if ok {
                    w.st.hit("fault.hostile variant of a servable request");
                    break;
                }
            }
        }
        let Some(mut ev) = ev else { continue };
        if let Ev::Tx(t) = &mut ev {
            if r.chance(p.abort) {
                let c = last_cost.get(&code(t)).cloned().unwrap_or(Cost { calls: 30, cpis: 3, clock: None });
                if r.chance(50) {
                    t.calls = Some(r.range(1, c.calls.max(1) as u64) as u32);
                    w.st.hit("fault.transaction cut off by its compute budget");
                } else {
                    t.cpi = Some(r.range(1, c.cpis.max(1) as u64) as u32);
                    w.st.hit("fault.cross-program call fails");
                }
            }
            if !t.mal.is_empty() {
                w.st.hit("fault.hostile transaction");
            }
            if t.ixs.iter().any(|i| matches!(i, Ix::Freeze { .. })) {
                w.st.hit("fault.token account frozen or thawed");
            }
            if t.ixs.iter().any(|i| matches!(i, Ix::Fund { .. })) {
                w.st.hit("fault.address funded before its creation");
            }
        }
        let d = r.log(1, delay);
        ids += 1;
        let is_tx = matches!(ev, Ev::Tx(_));
        if is_tx && r.chance(drop) {
            w.st.hit("fault.message lost");
            if r.chance(70) {
                // the client signs again with a fresh blockhash
                w.st.hit("fault.message retried after timeout");
                seq += 1;
                ids += 1;
                pend.insert(seq, (ids, now + 5000, ev, "retry".into()));
                q.push(Reverse((now + 5000 + d, seq)));
            }
        } else {
            seq += 1;
            pend.insert(seq, (ids, now, ev.clone(), String::new()));
            q.push(Reverse((now + d, seq)));
            if is_tx && r.chance(dup) {
                seq += 1;
                let again = r.chance(50);
                if again {
                    // an impatient client signs the same request anew: a different transaction
                    w.st.hit("fault.request sent twice");
                    ids += 1;
                } else {
                    w.st.hit("fault.message duplicated");
                }
                pend.insert(seq, (ids, now, ev, "duplicate".into()));
                q.push(Reverse((now + d + r.log(1, 5000), seq)));
            }
        }
        let mut last = 0;
        while let Some(&Reverse((t, s))) = q.peek() {
            if t > now || delivered >= p.n || w.viol.is_some() {
                break;
            }
            q.pop();
            let (id, sent, ev, via) = pend.remove(&s).unwrap();
            if s < last {
                w.st.hit("fault.message reordered");
            }
            last = last.max(s);
            if matches!(ev, Ev::Tx(_)) {
                if t > sent + life {
                    w.st.hit("fault.transaction expired");
                    continue;
                }
                if on_chain.contains(&id) {
                    w.st.hit("fault.duplicate dropped by the ledger");
                    continue;
                }
            }
            match &ev {
                Ev::Tx(tx) => {
                    order.push_str(&code(tx));
                    order.push((b'0' + (delivered % 7) as u8) as char);
                }
                Ev::Fork(n) => order.push_str(&format!("F{}", n)),
                Ev::Pair(..) => order.push('='),
                Ev::Exit { .. } => {}
            }
            tr.steps.push(Step { t, via, ev: ev.clone() });
            let at = tr.steps.len() - 1;
            if let Ev::Fork(n) = &ev {
                // abandoned transactions go back to the pool of pending ones, or are lost
                let n = (*n as usize).min(w.past.len());
                let lost: Vec<Tx> = w.past.iter().skip(w.past.len() - n).map(|x| x.2.clone()).collect();
                for tx in lost {
                    if r.chance(60) {
                        w.st.hit("fault.abandoned transaction executed again");
                        seq += 1;
                        ids += 1;
                        pend.insert(seq, (ids, now, Ev::Tx(tx), "after fork".into()));
                        q.push(Reverse((now + r.log(1, 4000), seq)));
                    } else {
                        w.st.hit("fault.abandoned transaction lost");
                    }
                }
            }
            let n0 = w.accepted;
            w.exec(at, &ev);
            if let Ev::Tx(tx) = &ev {
                if w.accepted > n0 {
                    on_chain.push_back(id);
                    last_cost.insert(code(tx), w.last_cost.clone());
                }
            }
            delivered += 1;
        }
    }
    if w.viol.is_none() {
        let ev = Ev::Exit { order: r.u64() };
        tr.steps.push(Step { t: now, via: "faults stopped".into(), ev: ev.clone() });
        w.exec(tr.steps.len() - 1, &ev);
    }
    finish(w, tr, now, order)
}

fn finish(mut w: World, tr: Trace, now: u64, order: String) -> Report<Trace> {
    w.st.sim_ms = now;
    if w.accepted >= 4 && order.len() >= 5 {
        w.st.orders.insert(hash_str(&format!("{}|{:?}", order, tr.pools)));
    }
    Report { viol: w.viol, foreign: w.foreign, trace: tr, stats: w.st, log: w.log }
}

pub struct LedgerSim;
impl Sim for LedgerSim {
    type Trace = Trace;
    const SYSTEM: &'static str = "ledger";
    fn run(prop: &str, seed: u64, deep: bool) -> Report<Trace> {
        generate(prop, Rng::new(seed), deep)
    }
    fn replay(prop: &str, t: &Trace) -> Report<Trace> {
        let mut w = World::new(&t.pools, t.freezable, prop);
        for (i, s) in t.steps.iter().enumerate() {
            if w.viol.is_some() {
                break;
            }
            w.exec(i, &s.ev);
        }
        finish(w, t.clone(), 0, String::new())
    }
    fn len(t: &Trace) -> usize {
        t.steps.len()
    }
    fn without(t: &Trace, a: usize, b: usize) -> Trace {
        let mut n = t.clone();
        n.steps.drain(a..b);
        n
    }
    fn simpler(t: &Trace, i: usize) -> Vec<Trace> {
        let mut v = vec![];
        let mut put = |ev: Ev| {
            if ev != t.steps[i].ev {
                let mut n = t.clone();
                n.steps[i].ev = ev;
                n.steps[i].via = String::new();
                v.push(n);
            }
        };
        if let Ev::Tx(tx) = &t.steps[i].ev {
            for j in 0..tx.mal.len() {
                let mut n = tx.clone();
                n.mal.remove(j);
                put(Ev::Tx(n));
            }
            if tx.ixs.len() > 1 && tx.mal.is_empty() {
                for j in 0..tx.ixs.len() {
                    let mut n = tx.clone();
                    n.ixs.remove(j);
                    put(Ev::Tx(n));
                }
            }
            for j in 0..tx.ixs.len() {
                let small = |x: u64| [x / 10, x / 2].into_iter().filter(move |y| *y > 0 && *y < x);
                match &tx.ixs[j] {
                    Ix::Dep { p, u, lo, hi, cur, x, y } => {
                        for z in small(*x) {
                            let mut n = tx.clone();
                            n.ixs[j] = Ix::Dep { p: *p, u: *u, lo: *lo, hi: *hi, cur: *cur, x: z, y: *y };
                            put(Ev::Tx(n));
                        }
                        for z in small(*y) {
                            let mut n = tx.clone();
                            n.ixs[j] = Ix::Dep { p: *p, u: *u, lo: *lo, hi: *hi, cur: *cur, x: *x, y: z };
                            put(Ev::Tx(n));
                        }
                    }
                    Ix::Wd { p, u, lo, hi, cur, lp } => {
                        for z in small(*lp) {
                            let mut n = tx.clone();
                            n.ixs[j] = Ix::Wd { p: *p, u: *u, lo: *lo, hi: *hi, cur: *cur, lp: z };
                            put(Ev::Tx(n));
                        }
                    }
                    _ => {}
                }
            }
        }
        if let Ev::Fork(n) = &t.steps[i].ev {
            if *n > 1 {
                put(Ev::Fork(1));
            }
        }
        v
    }
    fn describe(t: &Trace, i: usize) -> String {
        let s = &t.steps[i];
        format!("t={}ms {:?}{}", s.t, s.ev, if s.via.is_empty() { String::new() } else { format!(" ({})", s.via) })
    }
    fn components() -> serde_json::Value {
        serde_json::json!({
            "real": ["hmmcl_sandbox::entry (all instructions)", "anchor account validation", "spl-token processor", "program-derived address derivation"],
            "stub": ["system program", "rent sysvar", "account store, transaction commit and cross-program calls (with the runtime's privilege and ownership rules)"],
            "simulated": ["network", "clients", "attacker", "leader order", "forks", "compute budget", "token issuer", "virtual clock"],
        })
    }
    fn assumptions() -> Vec<String> {
        vec![
            "the runtime makes transactions atomic and ends them when a cross-program call fails, as Solana does; lamport rent collection is not modelled".into(),
            "the program has no swap instruction: price and fee growth stay as initialised".into(),
        ]
    }
    fn rule() -> String {
        "one evaluation is one simulated run (a seed): pools, ticks, network, clients and attacker are drawn from the seed. A run is non-trivial when at least four transactions were committed; runs are distinct when the executed transaction order or the pools differ".into()
    }
}
