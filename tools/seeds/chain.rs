//! A small in-process ledger for demonstrations: the real program and the real token program, a
//! stub of the system program, and the runtime's rules. Touches nothing outside of this process.
#![allow(dead_code)]
use solana_program::account_info::AccountInfo;
use solana_program::entrypoint::ProgramResult;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::program_error::ProgramError;
use solana_program::program_stubs::{set_syscall_stubs, SyscallStubs};
use solana_program::pubkey::Pubkey;
use solana_program::rent::Rent;
use solana_program::system_instruction::SystemInstruction;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub const MAX_GROW: usize = 10_240;

#[derive(Clone, PartialEq, Debug)]
pub struct Acc {
    pub lamports: u64,
    pub data: Vec<u8>,
    pub owner: Pubkey,
    pub exec: bool,
}
pub type Bank = BTreeMap<Pubkey, Rc<Acc>>;

pub fn sys() -> Pubkey {
    solana_program::system_program::id()
}
pub fn rent_key() -> Pubkey {
    solana_program::sysvar::rent::id()
}
pub fn rogue() -> Pubkey {
    Pubkey::new(solana_program::hash::hash(b"rogue program").as_ref())
}
pub fn program() -> Pubkey {
    hmmcl_sandbox::id()
}

/// What one successful instruction did.
pub struct IxDone {
    pub before: Bank, // accounts of the instruction, before
    pub after: Bank,
    pub events: Vec<Vec<u8>>,
    pub signers: BTreeSet<Pubkey>,
}

#[derive(Default, Clone, Debug)]
pub struct Cost {
    pub calls: u32,
    pub cpis: u32,
}

// ------------------------------------------------------------------ per-instruction arena
struct Slot {
    info: AccountInfo<'static>,
    own: *mut (Pubkey, Pubkey, u64), // key, owner, lamports
    _buf: Box<[u8]>,
    cap: usize,
}
struct Frame {
    program: Pubkey,
    privs: BTreeMap<Pubkey, (bool, bool)>,
    snap: BTreeMap<Pubkey, Acc>,
}
struct Rt {
    slots: BTreeMap<Pubkey, Slot>,
    stack: Vec<Frame>,
    events: Vec<Vec<u8>>,
    logs: Vec<String>,
    rent: Rent,
}
thread_local! {
    static RT: Cell<*mut Rt> = Cell::new(std::ptr::null_mut());
    static CALLS: Cell<u32> = Cell::new(0);
    static CPIS: Cell<u32> = Cell::new(0);
    static LIMIT: Cell<u32> = Cell::new(u32::MAX);
    static CPI_LIMIT: Cell<u32> = Cell::new(u32::MAX);
    static WHY: RefCell<String> = RefCell::new(String::new());
}
fn rt() -> &'static mut Rt {
    let p = RT.with(|r| r.get());
    assert!(!p.is_null(), "syscall outside of a transaction");
    unsafe { &mut *p }
}
/// The runtime ends a transaction on the spot: programs cannot catch this.
struct Abort;
fn abort(why: String) -> ! {
    WHY.with(|w| *w.borrow_mut() = why);
    std::panic::panic_any(Abort)
}
fn tick() {
    let n = CALLS.with(|c| {
        c.set(c.get() + 1);
        c.get()
    });
    if n > LIMIT.with(|l| l.get()) {
        abort("compute budget exhausted".into());
    }
}

impl Slot {
    fn new(key: Pubkey, a: &Acc) -> Slot {
        let cap = a.data.len() + MAX_GROW;
        let own = Box::into_raw(Box::new((key, a.owner, a.lamports)));
        let mut buf = vec![0u8; cap].into_boxed_slice();
        buf[..a.data.len()].copy_from_slice(&a.data);
        // the arena outlives every reference handed out: the AccountInfos die with it
        let info = unsafe {
            let k: &'static Pubkey = &*std::ptr::addr_of!((*own).0);
            let o: &'static Pubkey = &*std::ptr::addr_of!((*own).1);
            let l: &'static mut u64 = &mut *std::ptr::addr_of_mut!((*own).2);
            let d: &'static mut [u8] = std::slice::from_raw_parts_mut(buf.as_mut_ptr(), a.data.len());
            AccountInfo {
                key: k,
                is_signer: false,
                is_writable: false,
                lamports: Rc::new(RefCell::new(l)),
                data: Rc::new(RefCell::new(d)),
                owner: o,
                executable: a.exec,
                rent_epoch: 0,
            }
        };
        Slot { info, own, _buf: buf, cap }
    }
    fn now(&self) -> Acc {
        let lam = unsafe { **self.info.lamports.as_ptr() };
        let data = unsafe { (**self.info.data.as_ptr()).to_vec() };
        let owner = unsafe { std::ptr::read_volatile(std::ptr::addr_of!((*self.own).1)) };
        Acc { lamports: lam, data, owner, exec: self.info.executable }
    }
    fn set_owner(&self, o: Pubkey) {
        unsafe { std::ptr::write_volatile(std::ptr::addr_of_mut!((*self.own).1), o) }
    }
    fn resize(&mut self, n: usize) -> bool {
        let (p, len) = unsafe {
            let d = &mut **self.info.data.as_ptr();
            (d.as_mut_ptr(), d.len())
        };
        if n < len || n > self.cap {
            return false;
        }
        unsafe {
            *self.info.data.as_ptr() = std::slice::from_raw_parts_mut(p, n);
        }
        true
    }
    fn view(&self, signer: bool, writable: bool) -> AccountInfo<'static> {
        let mut i = self.info.clone();
        i.is_signer = signer;
        i.is_writable = writable;
        i
    }
}

impl Drop for Slot {
    fn drop(&mut self) {
        unsafe { drop(Box::from_raw(self.own)) }
    }
}

/// The runtime's rules for what a program may have done to the accounts it was given.
fn verify(f: &mut Frame, slots: &BTreeMap<Pubkey, Slot>) -> Result<(), String> {
    let (mut pre, mut post) = (0u128, 0u128);
    for (k, (_, w)) in &f.privs {
        let a = &f.snap[k];
        let b = slots[k].now();
        pre += a.lamports as u128;
        post += b.lamports as u128;
        if *a == b {
            continue;
        }
        if !*w {
            return Err(format!("read-only account {} modified", k));
        }
        if a.owner != b.owner && (a.owner != f.program || b.data.iter().any(|x| *x != 0)) {
            return Err(format!("illegal change of owner of {}", k));
        }
        if b.lamports < a.lamports && a.owner != f.program {
            return Err(format!("lamports of {} spent by a program that does not own it", k));
        }
        if a.data.len() != b.data.len() && f.program != sys() {
            return Err(format!("data of {} resized", k));
        }
        if a.data != b.data && a.owner != f.program {
            return Err(format!("data of {} modified by a program that does not own it", k));
        }
        f.snap.insert(*k, b);
    }
    if pre != post {
        return Err("lamports created or destroyed".into());
    }
    Ok(())
}

fn run_program(program: &Pubkey, accs: &[AccountInfo<'static>], data: &[u8]) -> ProgramResult {
    if *program == self::program() {
        hmmcl_sandbox::entry(program, accs, data)
    } else if *program == spl_token::id() {
        spl_token::processor::Processor::process(program, accs, data)
    } else if *program == sys() {
        system(accs, data)
    } else if *program == rogue() {
        // the attacker's program accepts everything and does nothing
        Ok(())
    } else {
        Err(ProgramError::IncorrectProgramId)
    }
}

fn system(accs: &[AccountInfo<'static>], data: &[u8]) -> ProgramResult {
    let ix: SystemInstruction =
        bincode::deserialize(data).map_err(|_| ProgramError::InvalidInstructionData)?;
    let r = rt();
    let need = |i: usize| accs.get(i).cloned().ok_or(ProgramError::NotEnoughAccountKeys);
    let transfer = |a: &AccountInfo, b: &AccountInfo, n: u64| -> ProgramResult {
        if !a.is_signer {
            return Err(ProgramError::MissingRequiredSignature);
        }
        if !a.data_is_empty() {
            return Err(ProgramError::InvalidArgument);
        }
        if a.lamports() < n {
            return Err(ProgramError::InsufficientFunds);
        }
        **a.lamports.borrow_mut() -= n;
        **b.lamports.borrow_mut() += n;
        Ok(())
    };
    match ix {
        SystemInstruction::CreateAccount { lamports, space, owner } => {
            let (a, b) = (need(0)?, need(1)?);
            if b.lamports() > 0 || !b.data_is_empty() || *b.owner != sys() {
                return Err(ProgramError::AccountAlreadyInitialized);
            }
            if !b.is_signer {
                return Err(ProgramError::MissingRequiredSignature);
            }
            let s = r.slots.get_mut(b.key).unwrap();
            if !s.resize(space as usize) {
                return Err(ProgramError::InvalidArgument);
            }
            s.set_owner(owner);
            transfer(&a, &b, lamports)
        }
        SystemInstruction::Transfer { lamports } => transfer(&need(0)?, &need(1)?, lamports),
        SystemInstruction::Allocate { space } => {
            let a = need(0)?;
            if !a.is_signer {
                return Err(ProgramError::MissingRequiredSignature);
            }
            if !a.data_is_empty() || *a.owner != sys() {
                return Err(ProgramError::AccountAlreadyInitialized);
            }
            if !r.slots.get_mut(a.key).unwrap().resize(space as usize) {
                return Err(ProgramError::InvalidArgument);
            }
            Ok(())
        }
        SystemInstruction::Assign { owner } => {
            let a = need(0)?;
            if !a.is_signer || *a.owner != sys() {
                return Err(ProgramError::MissingRequiredSignature);
            }
            r.slots[a.key].set_owner(owner);
            Ok(())
        }
        _ => Err(ProgramError::InvalidInstructionData),
    }
}

fn enter(program: Pubkey, metas: &[AccountMeta], privs: BTreeMap<Pubkey, (bool, bool)>, data: &[u8]) -> Result<(), String> {
    let r = rt();
    let snap = privs.keys().map(|k| (*k, r.slots[k].now())).collect();
    let accs: Vec<AccountInfo<'static>> = metas
        .iter()
        .map(|m| {
            let (s, w) = privs[&m.pubkey];
            r.slots[&m.pubkey].view(s, w)
        })
        .collect();
    r.stack.push(Frame { program, privs, snap });
    let res = run_program(&program, &accs, data);
    let mut f = rt().stack.pop().unwrap();
    res.map_err(|e| format!("{:?}", e))?;
    verify(&mut f, &rt().slots)
}

struct Stubs;
impl SyscallStubs for Stubs {
    fn sol_log(&self, m: &str) {
        tick();
        let r = rt();
        if r.logs.len() < 200 {
            r.logs.push(m.to_string());
        }
    }
    fn sol_log_data(&self, f: &[&[u8]]) {
        tick();
        let r = rt();
        if r.stack.last().map(|f| f.program) == Some(program()) {
            for x in f {
                r.events.push(x.to_vec());
            }
        }
    }
    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 {
        tick();
        unsafe { *(p as *mut Rent) = rt().rent };
        0
    }
    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        tick();
        let n = CPIS.with(|c| {
            c.set(c.get() + 1);
            c.get()
        });
        if n >= CPI_LIMIT.with(|l| l.get()) {
            abort(format!("injected failure of cross-program call {}", n));
        }
        let r = rt();
        let depth = r.stack.len();
        if depth >= 5 {
            abort("call depth".into());
        }
        let caller = r.stack.last_mut().expect("frame");
        if let Err(e) = verify(caller, &r.slots) {
            abort(e);
        }
        let me = caller.program;
        let mut pda = BTreeSet::new();
        for s in seeds {
            match Pubkey::create_program_address(s, &me) {
                Ok(k) => {
                    pda.insert(k);
                }
                Err(e) => abort(format!("bad signer seeds: {:?}", e)),
            }
        }
        if !caller.privs.contains_key(&ix.program_id) {
            abort("called program is not among the accounts".into());
        }
        let mut privs: BTreeMap<Pubkey, (bool, bool)> = BTreeMap::new();
        for m in &ix.accounts {
            let Some(&(s, w)) = caller.privs.get(&m.pubkey) else { abort(format!("unknown account {}", m.pubkey)) };
            if !infos.iter().any(|i| *i.key == m.pubkey) {
                abort(format!("account {} not passed to the call", m.pubkey));
            }
            if m.is_signer && !s && !pda.contains(&m.pubkey) {
                abort(format!("signer privilege of {} escalated", m.pubkey));
            }
            if m.is_writable && !w {
                abort(format!("writable privilege of {} escalated", m.pubkey));
            }
            let e = privs.entry(m.pubkey).or_insert((false, false));
            e.0 |= m.is_signer;
            e.1 |= m.is_writable;
        }
        // a failing callee ends the transaction
        if let Err(e) = enter(ix.program_id, &ix.accounts, privs, &ix.data) {
            abort(format!("cross-program call failed: {}", e));
        }
        let r = rt();
        let caller = r.stack.last_mut().expect("frame");
        let keys: Vec<Pubkey> = caller.snap.keys().copied().collect();
        for k in keys {
            caller.snap.insert(k, r.slots[&k].now());
        }
        Ok(())
    }
}

pub fn install() {
    set_syscall_stubs(Box::new(Stubs));
}

#[derive(Clone, Default, Debug)]
pub struct Limits {
    /// The transaction dies at this system call (compute budget, validator stop).
    pub calls: Option<u32>,
    /// This cross-program call fails.
    pub cpi: Option<u32>,
}

/// Executes a transaction; on success `bank` holds the effects and every instruction's
/// before/after view is returned; on failure `bank` is untouched.
pub fn execute(bank: &mut Bank, ixs: &[Instruction], signers: &BTreeSet<Pubkey>, lim: &Limits, cost: &mut Cost) -> Result<Vec<IxDone>, String> {
    CALLS.with(|c| c.set(0));
    CPIS.with(|c| c.set(0));
    LIMIT.with(|c| c.set(lim.calls.unwrap_or(u32::MAX)));
    CPI_LIMIT.with(|c| c.set(lim.cpi.unwrap_or(u32::MAX)));
    let mut work = bank.clone();
    let mut done = vec![];
    let mut res = Ok(());
    for ix in ixs {
        match one(&mut work, ix, signers) {
            Ok(d) => done.push(d),
            Err(e) => {
                res = Err(e);
                break;
            }
        }
    }
    cost.calls = CALLS.with(|c| c.get());
    cost.cpis = CPIS.with(|c| c.get());
    res?;
    *bank = work;
    Ok(done)
}

fn one(work: &mut Bank, ix: &Instruction, signers: &BTreeSet<Pubkey>) -> Result<IxDone, String> {
    let mut privs: BTreeMap<Pubkey, (bool, bool)> = BTreeMap::new();
    let mut slots = BTreeMap::new();
    let mut before = Bank::new();
    let empty = Rc::new(Acc { lamports: 0, data: vec![], owner: sys(), exec: false });
    for m in &ix.accounts {
        if m.is_signer && !signers.contains(&m.pubkey) {
            return Err(format!("signature of {} missing", m.pubkey));
        }
        let e = privs.entry(m.pubkey).or_insert((false, false));
        e.0 |= m.is_signer;
        e.1 |= m.is_writable;
    }
    for k in privs.keys() {
        let a = work.get(k).cloned().unwrap_or_else(|| empty.clone());
        slots.insert(*k, Slot::new(*k, &a));
        before.insert(*k, a);
    }
    let mut r = Box::new(Rt { slots, stack: vec![], events: vec![], logs: vec![], rent: Rent::default() });
    RT.with(|c| c.set(&mut *r as *mut Rt));
    WHY.with(|w| w.borrow_mut().clear());
    let signed = privs.iter().filter(|(_, p)| p.0).map(|(k, _)| *k).collect();
    let out = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| enter(ix.program_id, &ix.accounts, privs, &ix.data)));
    RT.with(|c| c.set(std::ptr::null_mut()));
    let out = match out {
        Ok(x) => x,
        Err(p) => {
            if p.is::<Abort>() {
                Err(WHY.with(|w| w.borrow().clone()))
            } else {
                let m = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_else(|| "panic".into());
                Err(format!("program panicked: {}", m))
            }
        }
    };
    if let Err(e) = out {
        let l = r.logs.iter().rev().find(|l| l.contains("Error") || l.contains("rror Code")).cloned().unwrap_or_default();
        return Err(format!("{} {}", e, l));
    }
    let mut after = Bank::new();
    for (k, s) in &r.slots {
        let n = s.now();
        let n = if *before[k] == n { before[k].clone() } else { Rc::new(n) };
        if n.lamports == 0 && n.data.is_empty() && !n.exec {
            work.remove(k);
        } else if n.lamports == 0 {
            // the runtime removes accounts without lamports at the end of a transaction
            work.remove(k);
        } else {
            work.insert(*k, n.clone());
        }
        after.insert(*k, n);
    }
    Ok(IxDone { before, after, events: std::mem::take(&mut r.events), signers: signed })
}

// ------------------------------------------------------------------ a world with two pools
use anchor_lang::{AccountDeserialize, InstructionData, ToAccountMetas};
use hmmcl_sandbox::state::pool_state::PoolState;
use hmmcl_sandbox::state::position_state::PositionState;
use hmmcl_sandbox::state::tick_state::TickState;
use hmmcl_sandbox::{accounts as ac, instruction as ins};
use solana_program::program_option::COption;
use solana_program::program_pack::Pack;
use spl_token::state::{Account as Token, AccountState, Mint};

pub const RICH: u64 = 1_000_000_000_000_000;
pub fn key(name: &str) -> Pubkey {
    Pubkey::new(solana_program::hash::hash(name.as_bytes()).as_ref())
}
fn pda(seeds: &[&[u8]]) -> Pubkey {
    Pubkey::find_program_address(seeds, &program()).0
}
pub fn wallet(u: u8) -> Pubkey {
    key(&format!("wallet {}", u))
}
pub fn mint(m: u8) -> Pubkey {
    key(&format!("mint {}", m))
}
pub fn lp_mint(p: u8) -> Pubkey {
    key(&format!("lp mint {}", p))
}
pub fn pool(p: u8) -> Pubkey {
    pda(&[b"pool_state_seed", lp_mint(p).as_ref()])
}
/// m = 0: X, 1: Y
pub fn vault(p: u8, m: u8) -> Pubkey {
    pda(&[b"token_vault_seed", mint(m).as_ref(), lp_mint(p).as_ref()])
}
pub fn lp_vault(p: u8) -> Pubkey {
    pda(&[b"lp_token_vault_seed", pool(p).as_ref(), lp_mint(p).as_ref()])
}
pub fn bitmap(p: u8) -> Pubkey {
    pda(&[b"bitmap", pool(p).as_ref()])
}
pub fn tick_key(p: u8, t: u64) -> Pubkey {
    pda(&[b"tick", pool(p).as_ref(), &t.to_le_bytes()])
}
pub fn pos_key(p: u8, u: u8, lo: u64, hi: u64) -> Pubkey {
    pda(&[b"position", pool(p).as_ref(), wallet(u).as_ref(), &lo.to_le_bytes(), &hi.to_le_bytes()])
}
pub fn tok(u: u8, m: u8) -> Pubkey {
    key(&format!("token account {} {}", u, m))
}
pub fn lp_tok(u: u8, p: u8) -> Pubkey {
    key(&format!("lp token account {} {}", u, p))
}
fn packed<T: Pack>(t: &T) -> Vec<u8> {
    let mut v = vec![0u8; T::LEN];
    T::pack_into_slice(t, &mut v);
    v
}
pub fn token_acc(m: Pubkey, owner: Pubkey, amount: u64) -> Acc {
    let t = Token { mint: m, owner, amount, state: AccountState::Initialized, ..Default::default() };
    Acc { lamports: 10_000_000, data: packed(&t), owner: spl_token::id(), exec: false }
}
pub fn mint_acc(authority: Pubkey, supply: u64) -> Acc {
    let t = Mint {
        mint_authority: COption::Some(authority),
        supply,
        decimals: 6,
        is_initialized: true,
        freeze_authority: COption::None,
    };
    Acc { lamports: 10_000_000, data: packed(&t), owner: spl_token::id(), exec: false }
}

pub struct Chain {
    pub bank: Bank,
}
pub const USERS: u8 = 4;

impl Chain {
    pub fn new() -> Chain {
        static ONCE: std::sync::Once = std::sync::Once::new();
        ONCE.call_once(install);
        let mut bank = Bank::new();
        let mut put = |k: Pubkey, a: Acc| {
            bank.insert(k, Rc::new(a));
        };
        for k in [sys(), spl_token::id(), program()] {
            put(k, Acc { lamports: 1, data: vec![], owner: key("loader"), exec: true });
        }
        let rent = Rent::default();
        let mut rd = vec![];
        rd.extend(rent.lamports_per_byte_year.to_le_bytes());
        rd.extend(rent.exemption_threshold.to_le_bytes());
        rd.push(rent.burn_percent);
        put(rent_key(), Acc { lamports: 1, data: rd, owner: key("sysvar"), exec: false });
        for m in 0..2 {
            put(mint(m), mint_acc(key("issuer"), RICH * USERS as u64));
            for u in 0..USERS {
                put(tok(u, m), token_acc(mint(m), wallet(u), RICH));
            }
        }
        for p in 0..2 {
            put(lp_mint(p), mint_acc(pool(p), 0));
            for u in 0..USERS {
                put(lp_tok(u, p), token_acc(lp_mint(p), wallet(u), 0));
            }
        }
        for u in 0..USERS {
            put(wallet(u), Acc { lamports: RICH, data: vec![], owner: sys(), exec: false });
        }
        Chain { bank }
    }
    /// Runs instructions as one transaction signed by these users.
    pub fn run(&mut self, ixs: &[Instruction], by: &[u8]) -> Result<Vec<IxDone>, String> {
        let signers = by.iter().map(|u| wallet(*u)).collect();
        execute(&mut self.bank, ixs, &signers, &Limits::default(), &mut Cost::default())
    }
    pub fn ok(&mut self, ixs: &[Instruction], by: &[u8]) -> Vec<IxDone> {
        self.run(ixs, by).expect("an ordinary request is refused")
    }
    pub fn open_pool(&mut self, p: u8, t: u64) {
        self.ok(&[init_pool(p, t), init_bitmap(p), init_tick(p, 0, t)], &[0]);
    }
    /// Ticks and position account of a range.
    pub fn open(&mut self, p: u8, u: u8, lo: u64, hi: u64) {
        for t in [lo, hi] {
            if !self.bank.contains_key(&tick_key(p, t)) {
                self.ok(&[init_tick(p, u, t)], &[u]);
            }
        }
        if !self.bank.contains_key(&pos_key(p, u, lo, hi)) {
            self.ok(&[create(p, u, lo, hi)], &[u]);
        }
    }
    fn load<T: AccountDeserialize>(&self, k: &Pubkey) -> T {
        T::try_deserialize(&mut &self.bank[k].data[..]).unwrap()
    }
    pub fn pool(&self, p: u8) -> PoolState {
        self.load(&pool(p))
    }
    pub fn tick(&self, p: u8, t: u64) -> TickState {
        self.load(&tick_key(p, t))
    }
    pub fn pos(&self, p: u8, u: u8, lo: u64, hi: u64) -> PositionState {
        self.load(&pos_key(p, u, lo, hi))
    }
    pub fn bal(&self, k: Pubkey) -> u64 {
        Token::unpack(&self.bank[&k].data).unwrap().amount
    }
    pub fn supply(&self, p: u8) -> u64 {
        Mint::unpack(&self.bank[&lp_mint(p)].data).unwrap().supply
    }
    pub fn net(&self, p: u8, t: u64) -> i128 {
        let s = self.tick(p, t);
        let v = s.liq_net as i128;
        if s.liq_net_neg == 1 {
            -v
        } else {
            v
        }
    }
}
pub fn init_pool(p: u8, t: u64) -> Instruction {
    Instruction {
        program_id: program(),
        accounts: ac::InitializePool {
            authority: wallet(0),
            payer: wallet(0),
            pool_state: pool(p),
            token_x_mint: mint(0),
            token_y_mint: mint(1),
            lp_token_mint: lp_mint(p),
            token_x_vault: vault(p, 0),
            token_y_vault: vault(p, 1),
            lp_token_vault: lp_vault(p),
            system_program: sys(),
            token_program: spl_token::id(),
            rent: rent_key(),
        }
        .to_account_metas(None),
        data: ins::InitializePool { bootstrap_rp: 1, tick: t }.data(),
    }
}
pub fn init_bitmap(p: u8) -> Instruction {
    Instruction {
        program_id: program(),
        accounts: ac::InitializeBitmap { pool_state: pool(p), tick_bitmap: bitmap(p), payer: wallet(0), system_program: sys() }.to_account_metas(None),
        data: ins::InitializeBitmap {}.data(),
    }
}
pub fn init_tick(p: u8, u: u8, t: u64) -> Instruction {
    Instruction {
        program_id: program(),
        accounts: ac::InitializeTick { pool_state: pool(p), tick_state: tick_key(p, t), payer: wallet(u), system_program: sys() }.to_account_metas(None),
        data: ins::InitializeTick { tick: t }.data(),
    }
}
pub fn create(p: u8, u: u8, lo: u64, hi: u64) -> Instruction {
    Instruction {
        program_id: program(),
        accounts: ac::CreatePosition {
            pool_state: pool(p),
            position_state: pos_key(p, u, lo, hi),
            lower_tick_state: tick_key(p, lo),
            upper_tick_state: tick_key(p, hi),
            user: wallet(u),
            payer: wallet(u),
            system_program: sys(),
        }
        .to_account_metas(None),
        data: ins::CreatePosition { lower_tick: lo, upper_tick: hi }.data(),
    }
}
pub fn deposit(p: u8, u: u8, lo: u64, hi: u64, cur: u64, x: u64, y: u64) -> Instruction {
    Instruction {
        program_id: program(),
        accounts: ac::Deposit {
            pool_state: pool(p),
            tick_bitmap: bitmap(p),
            position_state: pos_key(p, u, lo, hi),
            lower_tick_state: tick_key(p, lo),
            upper_tick_state: tick_key(p, hi),
            current_tick_state: tick_key(p, cur),
            lp_token_mint: lp_mint(p),
            user_token_x: tok(u, 0),
            user_token_y: tok(u, 1),
            token_x_vault: vault(p, 0),
            token_y_vault: vault(p, 1),
            lp_token_vault: lp_vault(p),
            lp_token_to: lp_tok(u, p),
            token_program: spl_token::id(),
            user: wallet(u),
            payer: wallet(u),
        }
        .to_account_metas(None),
        data: ins::Deposit { lower_tick: lo, upper_tick: hi, current_tick: cur, token_x_amount: x, token_y_amount: y }.data(),
    }
}
pub fn withdraw(p: u8, u: u8, lo: u64, hi: u64, cur: u64, lp: u64) -> Instruction {
    Instruction {
        program_id: program(),
        accounts: ac::Withdraw {
            pool_state: pool(p),
            tick_bitmap: bitmap(p),
            position_state: pos_key(p, u, lo, hi),
            lower_tick_state: tick_key(p, lo),
            upper_tick_state: tick_key(p, hi),
            current_tick_state: tick_key(p, cur),
            lp_token_mint: lp_mint(p),
            user_token_x: tok(u, 0),
            user_token_y: tok(u, 1),
            token_x_vault: vault(p, 0),
            token_y_vault: vault(p, 1),
            lp_token_vault: lp_vault(p),
            lp_token_user_account: lp_tok(u, p),
            token_program: spl_token::id(),
            user: wallet(u),
            payer: wallet(u),
        }
        .to_account_metas(None),
        data: ins::Withdraw { lower_tick: lo, upper_tick: hi, current_tick: cur, lp_token_amount: lp }.data(),
    }
}
