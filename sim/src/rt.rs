//! A small in-process ledger: accounts, transactions with all-or-nothing effect, cross-program
//! invocation with the privilege and ownership rules of the real runtime. The programs it runs are
//! real: the on-chain program of /repo and spl-token; the system program is a stub.
use solana_program::account_info::AccountInfo;
use solana_program::clock::Clock;
use solana_program::entrypoint::ProgramResult;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::program_error::ProgramError;
use solana_program::program_stubs::{set_syscall_stubs, SyscallStubs};
use solana_program::pubkey::Pubkey;
use solana_program::rent::Rent;
use solana_program::system_instruction::SystemInstruction;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub const MAX_GROW: usize = 10_240;

#[derive(Clone, PartialEq, Debug)]
pub struct Acc {
    pub lamports: u64,
    pub data: Vec<u8>,
    pub owner: Pubkey,
    pub exec: bool,
}
pub type Bank = BTreeMap<Pubkey, Rc<Acc>>;

pub fn sys() -> Pubkey {
    solana_program::system_program::id()
}
pub fn rent_key() -> Pubkey {
    solana_program::sysvar::rent::id()
}
pub fn rogue() -> Pubkey {
    Pubkey::new(solana_program::hash::hash(b"rogue program").as_ref())
}
pub fn program() -> Pubkey {
    hmmcl_sandbox::id()
}

/// What one successful instruction did.
pub struct IxDone {
    pub before: Bank, // accounts of the instruction, before
    pub after: Bank,
    pub events: Vec<Vec<u8>>,
    pub signers: BTreeSet<Pubkey>,
}

#[derive(Default, Clone, Debug)]
pub struct Cost {
    pub calls: u32,
    pub cpis: u32,
    pub clock: Option<&'static str>,
}

// ------------------------------------------------------------------ per-instruction arena
struct Slot {
    info: AccountInfo<'static>,
    own: *mut (Pubkey, Pubkey, u64), // key, owner, lamports
    _buf: Box<[u8]>,
    cap: usize,
}
struct Frame {
    program: Pubkey,
    privs: BTreeMap<Pubkey, (bool, bool)>,
    snap: BTreeMap<Pubkey, Acc>,
}
struct Rt {
    slots: BTreeMap<Pubkey, Slot>,
    stack: Vec<Frame>,
    events: Vec<Vec<u8>>,
    logs: Vec<String>,
    rent: Rent,
}
thread_local! {
    static RT: Cell<*mut Rt> = Cell::new(std::ptr::null_mut());
    static CALLS: Cell<u32> = Cell::new(0);
    static CPIS: Cell<u32> = Cell::new(0);
    static LIMIT: Cell<u32> = Cell::new(u32::MAX);
    static CPI_LIMIT: Cell<u32> = Cell::new(u32::MAX);
    static NOW: Cell<(u64, i64)> = Cell::new(EPOCH);
    static WHY: RefCell<String> = RefCell::new(String::new());
}
/// Slot and time at which every simulated history starts.
const EPOCH: (u64, i64) = (150_000_000, 1_660_000_000);
pub fn reset_clock() {
    NOW.with(|n| n.set(EPOCH));
}
/// Every execution, also a repeated one, happens at a later slot; validators' time jumps now and
/// then, back as well.
pub fn advance_clock() -> Option<&'static str> {
    NOW.with(|n| {
        let (s, t) = n.get();
        let h = crate::rng::mix(s ^ (t as u64).rotate_left(32));
        let (ds, dt, k) = match h % 16 {
            0 => (1, -((h >> 8) as i64 % 40), Some("fault.clock steps back")),
            1 => (1 + (h >> 8) % 500_000, (h >> 8) as i64 % 250_000, Some("fault.clock leaps ahead")),
            2 => (1, 0, Some("fault.clock stands still")),
            _ => (1 + (h >> 8) % 3, 1 + (h >> 16) as i64 % 2, None),
        };
        n.set((s + ds, t + dt));
        k
    })
}
fn rt() -> &'static mut Rt {
    let p = RT.with(|r| r.get());
    assert!(!p.is_null(), "syscall outside of a transaction");
    unsafe { &mut *p }
}
/// The runtime ends a transaction on the spot: programs cannot catch this.
struct Abort;
fn abort(why: String) -> ! {
    WHY.with(|w| *w.borrow_mut() = why);
    std::panic::panic_any(Abort)
}
fn tick() {
    let n = CALLS.with(|c| {
        c.set(c.get() + 1);
        c.get()
    });
    if n > LIMIT.with(|l| l.get()) {
        abort("compute budget exhausted".into());
    }
}

impl Slot {
    fn new(key: Pubkey, a: &Acc) -> Slot {
        let cap = a.data.len() + MAX_GROW;
        let own = Box::into_raw(Box::new((key, a.owner, a.lamports)));
        let mut buf = vec![0u8; cap].into_boxed_slice();
        buf[..a.data.len()].copy_from_slice(&a.data);
        // the arena outlives every reference handed out: the AccountInfos die with it
        let info = unsafe {
            let k: &'static Pubkey = &*std::ptr::addr_of!((*own).0);
            let o: &'static Pubkey = &*std::ptr::addr_of!((*own).1);
            let l: &'static mut u64 = &mut *std::ptr::addr_of_mut!((*own).2);
            let d: &'static mut [u8] = std::slice::from_raw_parts_mut(buf.as_mut_ptr(), a.data.len());
            AccountInfo {
                key: k,
                is_signer: false,
                is_writable: false,
                lamports: Rc::new(RefCell::new(l)),
                data: Rc::new(RefCell::new(d)),
                owner: o,
                executable: a.exec,
                rent_epoch: 0,
            }
        };
        Slot { info, own, _buf: buf, cap }
    }
    fn now(&self) -> Acc {
        let lam = unsafe { **self.info.lamports.as_ptr() };
        let data = unsafe { (**self.info.data.as_ptr()).to_vec() };
        let owner = unsafe { std::ptr::read_volatile(std::ptr::addr_of!((*self.own).1)) };
        Acc { lamports: lam, data, owner, exec: self.info.executable }
    }
    fn set_owner(&self, o: Pubkey) {
        unsafe { std::ptr::write_volatile(std::ptr::addr_of_mut!((*self.own).1), o) }
    }
    fn resize(&mut self, n: usize) -> bool {
        let (p, len) = unsafe {
            let d = &mut **self.info.data.as_ptr();
            (d.as_mut_ptr(), d.len())
        };
        if n < len || n > self.cap {
            return false;
        }
        unsafe {
            *self.info.data.as_ptr() = std::slice::from_raw_parts_mut(p, n);
        }
        true
    }
    fn view(&self, signer: bool, writable: bool) -> AccountInfo<'static> {
        let mut i = self.info.clone();
        i.is_signer = signer;
        i.is_writable = writable;
        i
    }
}

impl Drop for Slot {
    fn drop(&mut self) {
        unsafe { drop(Box::from_raw(self.own)) }
    }
}

/// The runtime's rules for what a program may have done to the accounts it was given.
fn verify(f: &mut Frame, slots: &BTreeMap<Pubkey, Slot>) -> Result<(), String> {
    let (mut pre, mut post) = (0u128, 0u128);
    for (k, (_, w)) in &f.privs {
        let a = &f.snap[k];
        let b = slots[k].now();
        pre += a.lamports as u128;
        post += b.lamports as u128;
        if *a == b {
            continue;
        }
        if !*w {
            return Err(format!("read-only account {} modified", k));
        }
        if a.owner != b.owner && (a.owner != f.program || b.data.iter().any(|x| *x != 0)) {
            return Err(format!("illegal change of owner of {}", k));
        }
        if b.lamports < a.lamports && a.owner != f.program {
            return Err(format!("lamports of {} spent by a program that does not own it", k));
        }
        if a.data.len() != b.data.len() && f.program != sys() {
            return Err(format!("data of {} resized", k));
        }
        if a.data != b.data && a.owner != f.program {
            return Err(format!("data of {} modified by a program that does not own it", k));
        }
        f.snap.insert(*k, b);
    }
    if pre != post {
        return Err("lamports created or destroyed".into());
    }
    Ok(())
}

fn run_program(program: &Pubkey, accs: &[AccountInfo<'static>], data: &[u8]) -> ProgramResult {
    if *program == self::program() {
        hmmcl_sandbox::entry(program, accs, data)
    } else if *program == spl_token::id() {
        spl_token::processor::Processor::process(program, accs, data)
    } else if *program == sys() {
        system(accs, data)
    } else if *program == rogue() {
        // the attacker's program accepts everything and does nothing
        Ok(())
    } else {
        Err(ProgramError::IncorrectProgramId)
    }
}

fn system(accs: &[AccountInfo<'static>], data: &[u8]) -> ProgramResult {
    let ix: SystemInstruction =
        bincode::deserialize(data).map_err(|_| ProgramError::InvalidInstructionData)?;
    let r = rt();
    let need = |i: usize| accs.get(i).cloned().ok_or(ProgramError::NotEnoughAccountKeys);
    let transfer = |a: &AccountInfo, b: &AccountInfo, n: u64| -> ProgramResult {
        if !a.is_signer {
            return Err(ProgramError::MissingRequiredSignature);
        }
        if !a.data_is_empty() {
            return Err(ProgramError::InvalidArgument);
        }
        if a.lamports() < n {
            return Err(ProgramError::InsufficientFunds);
        }
        **a.lamports.borrow_mut() -= n;
        **b.lamports.borrow_mut() += n;
        Ok(())
    };
    match ix {
        SystemInstruction::CreateAccount { lamports, space, owner } => {
            let (a, b) = (need(0)?, need(1)?);
            if b.lamports() > 0 || !b.data_is_empty() || *b.owner != sys() {
                return Err(ProgramError::AccountAlreadyInitialized);
            }
            if !b.is_signer {
                return Err(ProgramError::MissingRequiredSignature);
            }
            let s = r.slots.get_mut(b.key).unwrap();
            if !s.resize(space as usize) {
                return Err(ProgramError::InvalidArgument);
            }
            s.set_owner(owner);
            transfer(&a, &b, lamports)
        }
        SystemInstruction::Transfer { lamports } => transfer(&need(0)?, &need(1)?, lamports),
        SystemInstruction::Allocate { space } => {
            let a = need(0)?;
            if !a.is_signer {
                return Err(ProgramError::MissingRequiredSignature);
            }
            if !a.data_is_empty() || *a.owner != sys() {
                return Err(ProgramError::AccountAlreadyInitialized);
            }
            if !r.slots.get_mut(a.key).unwrap().resize(space as usize) {
                return Err(ProgramError::InvalidArgument);
            }
            Ok(())
        }
        SystemInstruction::Assign { owner } => {
            let a = need(0)?;
            if !a.is_signer || *a.owner != sys() {
                return Err(ProgramError::MissingRequiredSignature);
            }
            r.slots[a.key].set_owner(owner);
            Ok(())
        }
        _ => Err(ProgramError::InvalidInstructionData),
    }
}

fn enter(program: Pubkey, metas: &[AccountMeta], privs: BTreeMap<Pubkey, (bool, bool)>, data: &[u8]) -> Result<(), String> {
    let r = rt();
    let snap = privs.keys().map(|k| (*k, r.slots[k].now())).collect();
    let accs: Vec<AccountInfo<'static>> = metas
        .iter()
        .map(|m| {
            let (s, w) = privs[&m.pubkey];
            r.slots[&m.pubkey].view(s, w)
        })
        .collect();
    r.stack.push(Frame { program, privs, snap });
    let res = run_program(&program, &accs, data);
    let mut f = rt().stack.pop().unwrap();
    res.map_err(|e| format!("{:?}", e))?;
    verify(&mut f, &rt().slots)
}

struct Stubs;
impl SyscallStubs for Stubs {
    fn sol_log(&self, m: &str) {
        tick();
        let r = rt();
        if r.logs.len() < 200 {
            r.logs.push(m.to_string());
        }
    }
    fn sol_log_data(&self, f: &[&[u8]]) {
        tick();
        let r = rt();
        if r.stack.last().map(|f| f.program) == Some(program()) {
            for x in f {
                r.events.push(x.to_vec());
            }
        }
    }
    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 {
        tick();
        unsafe { *(p as *mut Rent) = rt().rent };
        0
    }
    fn sol_get_clock_sysvar(&self, p: *mut u8) -> u64 {
        tick();
        let (slot, t) = NOW.with(|n| n.get());
        let e = slot / 432_000;
        let c = Clock { slot, epoch_start_timestamp: t - (slot % 432_000 / 2) as i64, epoch: e, leader_schedule_epoch: e + 1, unix_timestamp: t };
        unsafe { *(p as *mut Clock) = c };
        0
    }
    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        tick();
        let n = CPIS.with(|c| {
            c.set(c.get() + 1);
            c.get()
        });
        if n >= CPI_LIMIT.with(|l| l.get()) {
            abort(format!("injected failure of cross-program call {}", n));
        }
        let r = rt();
        let depth = r.stack.len();
        if depth >= 5 {
            abort("call depth".into());
        }
        let caller = r.stack.last_mut().expect("frame");
        if let Err(e) = verify(caller, &r.slots) {
            abort(e);
        }
        let me = caller.program;
        let mut pda = BTreeSet::new();
        for s in seeds {
            match Pubkey::create_program_address(s, &me) {
                Ok(k) => {
                    pda.insert(k);
                }
                Err(e) => abort(format!("bad signer seeds: {:?}", e)),
            }
        }
        if !caller.privs.contains_key(&ix.program_id) {
            abort("called program is not among the accounts".into());
        }
        let mut privs: BTreeMap<Pubkey, (bool, bool)> = BTreeMap::new();
        for m in &ix.accounts {
            let Some(&(s, w)) = caller.privs.get(&m.pubkey) else { abort(format!("unknown account {}", m.pubkey)) };
            if !infos.iter().any(|i| *i.key == m.pubkey) {
                abort(format!("account {} not passed to the call", m.pubkey));
            }
            if m.is_signer && !s && !pda.contains(&m.pubkey) {
                abort(format!("signer privilege of {} escalated", m.pubkey));
            }
            if m.is_writable && !w {
                abort(format!("writable privilege of {} escalated", m.pubkey));
            }
            let e = privs.entry(m.pubkey).or_insert((false, false));
            e.0 |= m.is_signer;
            e.1 |= m.is_writable;
        }
        // a failing callee ends the transaction
        if let Err(e) = enter(ix.program_id, &ix.accounts, privs, &ix.data) {
            abort(format!("cross-program call failed: {}", e));
        }
        let r = rt();
        let caller = r.stack.last_mut().expect("frame");
        let keys: Vec<Pubkey> = caller.snap.keys().copied().collect();
        for k in keys {
            caller.snap.insert(k, r.slots[&k].now());
        }
        Ok(())
    }
}

pub fn install() {
    set_syscall_stubs(Box::new(Stubs));
}

#[derive(Clone, Default, Debug)]
pub struct Limits {
    /// The transaction dies at this system call (compute budget, validator stop).
    pub calls: Option<u32>,
    /// This cross-program call fails.
    pub cpi: Option<u32>,
}

/// Executes a transaction; on success `bank` holds the effects and every instruction's
/// before/after view is returned; on failure `bank` is untouched.
pub fn execute(bank: &mut Bank, ixs: &[Instruction], signers: &BTreeSet<Pubkey>, lim: &Limits, cost: &mut Cost) -> Result<Vec<IxDone>, String> {
    crate::harness::beat();
    cost.clock = advance_clock();
    CALLS.with(|c| c.set(0));
    CPIS.with(|c| c.set(0));
    LIMIT.with(|c| c.set(lim.calls.unwrap_or(u32::MAX)));
    CPI_LIMIT.with(|c| c.set(lim.cpi.unwrap_or(u32::MAX)));
    let mut work = bank.clone();
    let mut done = vec![];
    let mut res = Ok(());
    for ix in ixs {
        match one(&mut work, ix, signers) {
            Ok(d) => done.push(d),
            Err(e) => {
                res = Err(e);
                break;
            }
        }
    }
    cost.calls = CALLS.with(|c| c.get());
    cost.cpis = CPIS.with(|c| c.get());
    res?;
    *bank = work;
    Ok(done)
}

fn one(work: &mut Bank, ix: &Instruction, signers: &BTreeSet<Pubkey>) -> Result<IxDone, String> {
    let mut privs: BTreeMap<Pubkey, (bool, bool)> = BTreeMap::new();
    let mut slots = BTreeMap::new();
    let mut before = Bank::new();
    let empty = Rc::new(Acc { lamports: 0, data: vec![], owner: sys(), exec: false });
    for m in &ix.accounts {
        if m.is_signer && !signers.contains(&m.pubkey) {
            return Err(format!("signature of {} missing", m.pubkey));
        }
        let e = privs.entry(m.pubkey).or_insert((false, false));
        e.0 |= m.is_signer;
        e.1 |= m.is_writable;
    }
    for k in privs.keys() {
        let a = work.get(k).cloned().unwrap_or_else(|| empty.clone());
        slots.insert(*k, Slot::new(*k, &a));
        before.insert(*k, a);
    }
    let mut r = Box::new(Rt { slots, stack: vec![], events: vec![], logs: vec![], rent: Rent::default() });
    RT.with(|c| c.set(&mut *r as *mut Rt));
    WHY.with(|w| w.borrow_mut().clear());
    let signed = privs.iter().filter(|(_, p)| p.0).map(|(k, _)| *k).collect();
    let out = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| enter(ix.program_id, &ix.accounts, privs, &ix.data)));
    RT.with(|c| c.set(std::ptr::null_mut()));
    let out = match out {
        Ok(x) => x,
        Err(p) => {
            if p.is::<Abort>() {
                Err(WHY.with(|w| w.borrow().clone()))
            } else {
                let m = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_else(|| "panic".into());
                Err(format!("program panicked: {}", m))
            }
        }
    };
    if let Err(e) = out {
        let l = r.logs.iter().rev().find(|l| l.contains("Error") || l.contains("rror Code")).cloned().unwrap_or_default();
        return Err(format!("{} {}", e, l));
    }
    let mut after = Bank::new();
    for (k, s) in &r.slots {
        let n = s.now();
        let n = if *before[k] == n { before[k].clone() } else { Rc::new(n) };
        if n.lamports == 0 && n.data.is_empty() && !n.exec {
            work.remove(k);
        } else if n.lamports == 0 {
            // the runtime removes accounts without lamports at the end of a transaction
            work.remove(k);
        } else {
            work.insert(*k, n.clone());
        }
        after.insert(*k, n);
    }
    Ok(IxDone { before, after, events: std::mem::take(&mut r.events), signers: signed })
}
