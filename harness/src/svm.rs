//! A small in-memory Solana runtime that executes the *real* program code natively.
//!
//! * accounts are laid out as the BPF loader lays them out (so `AccountInfo::realloc` and `assign` work);
//! * CPIs are dispatched to the real token processors, to a hand-written system program, or to stand-ins;
//! * privilege escalation, ownership, lamport conservation, rent and rollback rules are enforced.
use anchor_lang::prelude::*;
use anchor_lang::solana_program::{
    self, entrypoint::ProgramResult, instruction::AccountMeta, instruction::Instruction,
    program_error::ProgramError, program_stubs, system_program, sysvar,
};
use std::alloc::Layout;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::{Arc, Once};

pub const MAX_INCREASE: usize = 10 * 1024;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Acc {
    pub lamports: u64,
    pub data: Vec<u8>,
    pub owner: Pubkey,
    pub executable: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct TimeNow {
    pub slot: u64,
    pub ts: i64,
}

#[derive(Clone, Debug)]
pub struct Bank {
    pub accs: BTreeMap<Pubkey, Arc<Acc>>,
    pub now: TimeNow,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum TxErr {
    Program { ix: usize, err: String, code: u32 },
    Panic { ix: usize, msg: String },
    Runtime { ix: usize, msg: String },
}

impl TxErr {
    /// anchor / program custom error code, if any
    pub fn code(&self) -> u32 {
        match self {
            TxErr::Program { code, .. } => *code,
            _ => 0,
        }
    }
}

/// One executed instruction (top level or CPI), in execution order.
#[derive(Clone, Debug)]
pub struct Call {
    pub height: usize,
    pub ix: Instruction,
    /// finished successfully
    pub ok: bool,
}

#[derive(Clone, Debug, Default)]
pub struct TxOut {
    pub err: Option<TxErr>,
    pub calls: Vec<Call>,
    pub logs: Vec<String>,
    /// the rogue program found its opportunity
    pub acted: bool,
}

/// A misbehaving external program: after its n-th ordinary call in which `victim` is a writable signer
/// it also does `deed` to the victim's account.
#[derive(Clone, Copy, Debug)]
pub struct Rogue {
    pub nth: usize,
    pub victim: Pubkey,
    pub deed: Deed,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Deed {
    Steal(u64),
    StealAll,
    Assign,
    Allocate(usize),
}

/// lamports, owner and data of the victim change as if the program had used its signature with the system program
fn misbehave(list: &[AccountInfo<'static>]) {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        let c = c.as_mut().unwrap();
        let Some(r) = c.rogue.as_mut() else { return };
        let Some(v) = list.iter().find(|i| *i.key == r.victim && i.is_signer && i.is_writable) else { return };
        if r.nth > 0 {
            r.nth -= 1;
            return;
        }
        let deed = r.deed;
        c.rogue = None;
        let other = list.iter().filter(|i| i.is_writable && i.key != v.key).max_by_key(|i| i.lamports());
        let shift = |from: &AccountInfo, to: &AccountInfo, n: u64| {
            let n = n.min(from.lamports());
            **from.lamports.borrow_mut() -= n;
            **to.lamports.borrow_mut() += n;
            n > 0
        };
        c.acted = match (deed, other) {
            (Deed::Steal(n), Some(o)) => shift(v, o, n),
            (Deed::StealAll, Some(o)) => shift(v, o, u64::MAX),
            (Deed::Assign, _) => {
                v.assign(&anchor_spl::token::ID);
                true
            }
            (Deed::Allocate(n), _) => v.realloc(n, false).is_ok(),
            _ => false,
        };
        c.stack.last_mut().unwrap().take_snapshot();
    })
}

impl TxOut {
    pub fn ok(&self) -> bool {
        self.err.is_none()
    }
    /// Events emitted through `emit_cpi!`, payload after the 8-byte event tag.
    pub fn events(&self) -> Vec<Vec<u8>> {
        self.calls
            .iter()
            .filter(|c| {
                c.height > 1
                    && c.ok
                    && c.ix.program_id == dynamic_bonding_curve::ID
                    && c.ix.data.len() > 8
                    && c.ix.data[..8] == anchor_lang::event::EVENT_IX_TAG_LE[..]
            })
            .map(|c| c.ix.data[8..].to_vec())
            .collect()
    }
    pub fn calls_to(&self, p: &Pubkey) -> Vec<&Call> {
        self.calls
            .iter()
            .filter(|c| c.height > 1 && c.ix.program_id == *p)
            .collect()
    }
}

struct Frame {
    program_id: Pubkey,
    /// key -> (signer, writable)
    privs: BTreeMap<Pubkey, (bool, bool)>,
    infos: Vec<AccountInfo<'static>>, // one per distinct key
    snap: Vec<(u64, Vec<u8>, Pubkey)>,
}

impl Frame {
    fn take_snapshot(&mut self) {
        self.snap = self
            .infos
            .iter()
            .map(|i| {
                (
                    **i.try_borrow_lamports().expect("lamports borrowed"),
                    unsafe { raw_data(i) }.to_vec(),
                    *i.owner,
                )
            })
            .collect();
    }

    /// runtime rules for what a program may have changed since the last snapshot
    fn verify(&self) -> std::result::Result<(), String> {
        let mut before: u128 = 0;
        let mut after: u128 = 0;
        for (i, (l0, d0, o0)) in self.infos.iter().zip(self.snap.iter()) {
            let l1 = **i.try_borrow_lamports().map_err(|_| "lamports still borrowed")?;
            let d1 = unsafe { raw_data(i) };
            before += *l0 as u128;
            after += l1 as u128;
            let writable = self.privs[i.key].1;
            let owned = *o0 == self.program_id;
            if l1 != *l0 {
                if !writable {
                    return Err(format!("ReadonlyLamportChange {}", i.key));
                }
                if l1 < *l0 && !owned {
                    return Err(format!("ExternalAccountLamportSpend {}", i.key));
                }
            }
            if *i.owner != *o0 {
                if !writable || !owned || d1.iter().any(|b| *b != 0) {
                    return Err(format!("ModifiedProgramId {}", i.key));
                }
            }
            if d1 != &d0[..] {
                if !writable {
                    return Err(format!("ReadonlyDataModified {}", i.key));
                }
                if !owned {
                    return Err(format!("ExternalAccountDataModified {}", i.key));
                }
            }
        }
        if before != after {
            return Err("UnbalancedInstruction".into());
        }
        Ok(())
    }
}

/// The account's bytes, whatever borrows are outstanding on the `RefCell`.
unsafe fn raw_data<'a>(i: &'a AccountInfo<'static>) -> &'a [u8] {
    let p: *const &mut [u8] = i.data.as_ptr();
    let s: &[u8] = &*p;
    std::slice::from_raw_parts(s.as_ptr(), s.len())
}

struct Ctx {
    now: TimeNow,
    stack: Vec<Frame>,
    calls: Vec<Call>,
    fatal: Option<String>,
    rogue: Option<Rogue>,
    acted: bool,
}

thread_local! {
    static CTX: RefCell<Option<Ctx>> = const { RefCell::new(None) };
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
}

struct Stubs;

impl program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, m: &str) {
        solana_msg::sol_log(m)
    }
    fn sol_log_data(&self, _f: &[&[u8]]) {}
    fn sol_log_compute_units(&self) {}
    fn sol_get_clock_sysvar(&self, var: *mut u8) -> u64 {
        CTX.with(|c| {
            let c = c.borrow();
            let now = &c.as_ref().expect("clock outside a transaction").now;
            unsafe {
                *(var as *mut Clock) = Clock {
                    slot: now.slot,
                    epoch_start_timestamp: now.ts,
                    epoch: now.slot / 432_000,
                    leader_schedule_epoch: now.slot / 432_000 + 1,
                    unix_timestamp: now.ts,
                }
            }
        });
        0
    }
    fn sol_get_rent_sysvar(&self, var: *mut u8) -> u64 {
        unsafe { *(var as *mut Rent) = Rent::default() }
        0
    }
    fn sol_get_stack_height(&self) -> u64 {
        CTX.with(|c| c.borrow().as_ref().map_or(1, |c| c.stack.len() as u64))
    }
    fn sol_get_processed_sibling_instruction(&self, index: usize) -> Option<Instruction> {
        CTX.with(|c| {
            let c = c.borrow();
            let c = c.as_ref()?;
            let h = c.stack.len();
            let mut seen = 0;
            for call in c.calls.iter().rev() {
                if call.height < h {
                    break;
                }
                if call.height == h {
                    if index + 1 == seen {
                        return Some(call.ix.clone());
                    }
                    seen += 1;
                }
            }
            None
        })
    }
    fn sol_invoke_signed(
        &self,
        ix: &Instruction,
        infos: &[AccountInfo],
        seeds: &[&[&[u8]]],
    ) -> ProgramResult {
        let infos: &[AccountInfo<'static>] = unsafe { std::mem::transmute(infos) };
        invoke(ix, infos, seeds)
    }
}

fn fatal<T>(msg: String) -> std::result::Result<T, ProgramError> {
    CTX.with(|c| {
        if let Some(c) = c.borrow_mut().as_mut() {
            if c.fatal.is_none() {
                c.fatal = Some(msg);
            }
        }
    });
    Err(ProgramError::Custom(0xFFFF_FFF0))
}

pub type Native = fn(&Pubkey, &[AccountInfo<'static>], &[u8]) -> ProgramResult;

thread_local! {
    static NATIVE: RefCell<BTreeMap<Pubkey, Native>> = const { RefCell::new(BTreeMap::new()) };
}

/// Registers a stand-in program for this thread.
pub fn register(id: Pubkey, f: Native) {
    NATIVE.with(|n| n.borrow_mut().insert(id, f));
}

/// CPI from a stand-in program (same rules as for any program).
pub fn cpi(ix: &Instruction, infos: &[AccountInfo<'static>], seeds: &[&[&[u8]]]) -> ProgramResult {
    solana_program::program::invoke_signed(ix, infos, seeds)
}

fn invoke(ix: &Instruction, infos: &[AccountInfo<'static>], seeds: &[&[&[u8]]]) -> ProgramResult {
    // --- privileges
    let mut privs: BTreeMap<Pubkey, (bool, bool)> = BTreeMap::new();
    for m in &ix.accounts {
        let e = privs.entry(m.pubkey).or_insert((false, false));
        e.0 |= m.is_signer;
        e.1 |= m.is_writable;
    }
    let pre = CTX.with(|c| -> std::result::Result<(), String> {
        let mut c = c.borrow_mut();
        let c = c.as_mut().ok_or("invoke outside a transaction")?;
        let frame = c.stack.last_mut().ok_or("no caller")?;
        let mut pdas = BTreeSet::new();
        for s in seeds {
            pdas.insert(
                Pubkey::create_program_address(s, &frame.program_id)
                    .map_err(|e| format!("bad signer seeds: {e:?}"))?,
            );
        }
        for (k, (s, w)) in &privs {
            let (cs, cw) = *frame
                .privs
                .get(k)
                .ok_or_else(|| format!("MissingAccount {k}"))?;
            if *w && !cw {
                return Err(format!("PrivilegeEscalation: writable {k}"));
            }
            if *s && !cs && !pdas.contains(k) {
                return Err(format!("PrivilegeEscalation: signer {k}"));
            }
        }
        if !frame.privs.contains_key(&ix.program_id) {
            return Err(format!("Unknown program {}", ix.program_id));
        }
        frame.verify()?;
        if c.stack.len() >= 5 {
            return Err("CallDepth".into());
        }
        if c.stack.last().unwrap().program_id != ix.program_id
            && c.stack.iter().any(|f| f.program_id == ix.program_id)
        {
            return Err("ReentrancyNotAllowed".into());
        }
        Ok(())
    });
    if let Err(m) = pre {
        return fatal(m);
    }
    let mut merged: BTreeMap<Pubkey, AccountInfo<'static>> = BTreeMap::new();
    for (k, (s, w)) in &privs {
        match infos.iter().find(|i| i.key == k) {
            Some(i) => {
                let mut i = i.clone();
                i.is_signer = *s;
                i.is_writable = *w;
                merged.insert(*k, i);
            }
            None => return fatal(format!("NotEnoughAccountKeys/MissingAccount {k}")),
        }
    }
    let list: Vec<AccountInfo<'static>> =
        ix.accounts.iter().map(|m| merged[&m.pubkey].clone()).collect();
    let r = run_program(ix, list, merged.into_values().collect(), privs);
    // the caller sees the callee's changes as legitimate
    CTX.with(|c| {
        if let Some(f) = c.borrow_mut().as_mut().and_then(|c| c.stack.last_mut()) {
            f.take_snapshot();
        }
    });
    match r {
        Ok(()) => Ok(()),
        // on chain a failed CPI aborts the whole transaction
        Err(e) => {
            let _ = fatal::<()>(format!("CPI to {} failed: {e:?}", ix.program_id));
            Err(e)
        }
    }
}

fn run_program(
    ix: &Instruction,
    list: Vec<AccountInfo<'static>>,
    distinct: Vec<AccountInfo<'static>>,
    privs: BTreeMap<Pubkey, (bool, bool)>,
) -> ProgramResult {
    let at = CTX.with(|c| {
        let mut c = c.borrow_mut();
        let c = c.as_mut().unwrap();
        let mut f = Frame {
            program_id: crate::mocks::alias(&ix.program_id),
            privs,
            infos: distinct,
            snap: vec![],
        };
        f.take_snapshot();
        c.stack.push(f);
        c.calls.push(Call {
            height: c.stack.len(),
            ix: ix.clone(),
            ok: false,
        });
        c.calls.len() - 1
    });
    let list: &'static [AccountInfo<'static>] = unsafe { std::mem::transmute(&list[..]) };
    let r = dispatch(ix, list);
    let v = CTX.with(|c| {
        let mut c = c.borrow_mut();
        let c = c.as_mut().unwrap();
        let f = c.stack.pop().unwrap();
        if r.is_ok() {
            c.calls[at].ok = true;
            f.verify()
        } else {
            Ok(())
        }
    });
    if let Err(m) = v {
        return fatal(m);
    }
    r
}

fn dispatch(ix: &Instruction, list: &'static [AccountInfo<'static>]) -> ProgramResult {
    let id = ix.program_id;
    if id == dynamic_bonding_curve::ID {
        dynamic_bonding_curve::entry(&id, list, &ix.data)
    } else if id == anchor_spl::token::ID {
        anchor_spl::token::spl_token::processor::Processor::process(&id, list, &ix.data)
    } else if id == anchor_spl::token_2022::ID {
        anchor_spl::token_2022::spl_token_2022::processor::Processor::process(&id, list, &ix.data)
    } else if id == system_program::ID {
        system(list, &ix.data)
    } else if let Some(f) = NATIVE.with(|n| n.borrow().get(&id).copied()) {
        f(&id, list, &ix.data)?;
        misbehave(list);
        Ok(())
    } else {
        fatal(format!("no such program {id}"))
    }
}

pub fn system(a: &[AccountInfo<'static>], data: &[u8]) -> ProgramResult {
    use solana_program::system_instruction::SystemInstruction::*;
    let ix = bincode::deserialize(data).map_err(|_| ProgramError::InvalidInstructionData)?;
    let need = |n: usize| {
        if a.len() < n {
            Err(ProgramError::NotEnoughAccountKeys)
        } else {
            Ok(())
        }
    };
    let transfer = |from: &AccountInfo, to: &AccountInfo, lamports: u64| -> ProgramResult {
        if lamports == 0 && from.key == to.key {
            return Ok(());
        }
        if !from.is_signer {
            return Err(ProgramError::MissingRequiredSignature);
        }
        if !from.data_is_empty() || *from.owner != system_program::ID {
            return Err(ProgramError::InvalidArgument);
        }
        if from.lamports() < lamports {
            return Err(ProgramError::Custom(1));
        }
        **from.try_borrow_mut_lamports()? -= lamports;
        **to.try_borrow_mut_lamports()? += lamports;
        Ok(())
    };
    let allocate = |to: &AccountInfo, space: u64| -> ProgramResult {
        if !to.is_signer {
            return Err(ProgramError::MissingRequiredSignature);
        }
        if !to.data_is_empty() || *to.owner != system_program::ID {
            return Err(ProgramError::Custom(0));
        }
        to.realloc(space as usize, true)
    };
    let assign = |to: &AccountInfo, owner: &Pubkey| -> ProgramResult {
        if to.owner == owner {
            return Ok(());
        }
        if !to.is_signer {
            return Err(ProgramError::MissingRequiredSignature);
        }
        to.assign(owner);
        Ok(())
    };
    match ix {
        CreateAccount {
            lamports,
            space,
            owner,
        } => {
            need(2)?;
            if a[1].lamports() > 0 {
                return Err(ProgramError::Custom(0)); // AccountAlreadyInUse
            }
            allocate(&a[1], space)?;
            assign(&a[1], &owner)?;
            transfer(&a[0], &a[1], lamports)
        }
        Transfer { lamports } => {
            need(2)?;
            transfer(&a[0], &a[1], lamports)
        }
        Allocate { space } => {
            need(1)?;
            allocate(&a[0], space)
        }
        Assign { owner } => {
            need(1)?;
            assign(&a[0], &owner)
        }
        _ => Err(ProgramError::InvalidInstructionData),
    }
}

static INIT: Once = Once::new();

pub fn init() {
    INIT.call_once(|| {
        program_stubs::set_syscall_stubs(Box::new(Stubs));
        let default = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |i| {
            let in_tx = CTX.with(|c| c.try_borrow().map(|c| c.is_some()).unwrap_or(true))
                || QUIET.with(|q| q.get());
            if in_tx {
                PANIC_MSG.with(|m| *m.borrow_mut() = i.to_string());
            } else {
                default(i)
            }
        }));
    });
}

thread_local! {
    pub static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Runs `f`, turning a panic into `Err(message)` (as the BPF VM aborts the transaction).
pub fn guarded<T>(f: impl FnOnce() -> T) -> std::result::Result<T, String> {
    init();
    let old = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(old));
    r.map_err(|_| PANIC_MSG.with(|m| m.borrow().clone()))
}

/// Runs `f` with the sysvars set but outside any instruction (for calling library functions).
pub fn with_clock<T>(now: &TimeNow, f: impl FnOnce() -> T) -> T {
    init();
    CTX.with(|c| {
        *c.borrow_mut() = Some(Ctx {
            now: now.clone(),
            stack: vec![],
            calls: vec![],
            fatal: None,
            rogue: None,
            acted: false,
        })
    });
    let r = f();
    CTX.with(|c| *c.borrow_mut() = None);
    r
}

struct Slot {
    ptr: *mut u8,
    layout: Layout,
}

impl Slot {
    // header 8 | key 32 | owner 32 | lamports 8 | len 8 | data ...   (data at 88: 8 mod 16)
    fn new(key: &Pubkey, a: &Acc) -> Slot {
        let cap = 88 + a.data.len() + MAX_INCREASE + 16;
        let layout = Layout::from_size_align(cap, 16).unwrap();
        unsafe {
            let ptr = std::alloc::alloc(layout);
            std::ptr::write_bytes(ptr, 0, 8);
            *(ptr.add(4) as *mut u32) = a.data.len() as u32;
            std::ptr::copy_nonoverlapping(key.as_ref().as_ptr(), ptr.add(8), 32);
            std::ptr::copy_nonoverlapping(a.owner.as_ref().as_ptr(), ptr.add(40), 32);
            *(ptr.add(72) as *mut u64) = a.lamports;
            *(ptr.add(80) as *mut u64) = a.data.len() as u64;
            std::ptr::copy_nonoverlapping(a.data.as_ptr(), ptr.add(88), a.data.len());
            std::ptr::write_bytes(ptr.add(88 + a.data.len()), 0, MAX_INCREASE);
            Slot { ptr, layout }
        }
    }
    fn info(&self, executable: bool) -> AccountInfo<'static> {
        unsafe {
            let len = *(self.ptr.add(80) as *const u64) as usize;
            AccountInfo {
                key: &*(self.ptr.add(8) as *const Pubkey),
                lamports: Rc::new(RefCell::new(&mut *(self.ptr.add(72) as *mut u64))),
                data: Rc::new(RefCell::new(std::slice::from_raw_parts_mut(
                    self.ptr.add(88),
                    len,
                ))),
                owner: &*(self.ptr.add(40) as *const Pubkey),
                rent_epoch: u64::MAX,
                is_signer: false,
                is_writable: false,
                executable,
            }
        }
    }
    fn read(&self, executable: bool) -> Acc {
        unsafe {
            let len = *(self.ptr.add(80) as *const u64) as usize;
            Acc {
                lamports: *(self.ptr.add(72) as *const u64),
                data: std::slice::from_raw_parts(self.ptr.add(88), len).to_vec(),
                owner: *(self.ptr.add(40) as *const Pubkey),
                executable,
            }
        }
    }
}

impl Drop for Slot {
    fn drop(&mut self) {
        unsafe { std::alloc::dealloc(self.ptr, self.layout) }
    }
}

fn describe(e: &ProgramError) -> (String, u32) {
    match e {
        ProgramError::Custom(c) => (format!("custom {c}"), *c),
        e => (format!("{e:?}"), 0),
    }
}

impl Bank {
    pub fn new() -> Bank {
        Bank {
            accs: BTreeMap::new(),
            now: TimeNow {
                slot: 1000,
                ts: 1_700_000_000,
            },
        }
    }

    pub fn get(&self, k: &Pubkey) -> Option<&Acc> {
        self.accs.get(k).map(|a| &**a)
    }
    pub fn put(&mut self, k: Pubkey, a: Acc) {
        self.accs.insert(k, Arc::new(a));
    }
    pub fn lamports(&self, k: &Pubkey) -> u64 {
        self.get(k).map_or(0, |a| a.lamports)
    }
    /// Balance of a token account of either token program (0 if there is none).
    pub fn tokens(&self, k: &Pubkey) -> u64 {
        match self.get(k) {
            Some(a) if a.data.len() >= 165 => {
                u64::from_le_bytes(a.data[64..72].try_into().unwrap())
            }
            _ => 0,
        }
    }
    /// Supply of a mint of either token program.
    pub fn supply(&self, k: &Pubkey) -> u64 {
        match self.get(k) {
            Some(a) if a.data.len() >= 82 => u64::from_le_bytes(a.data[36..44].try_into().unwrap()),
            _ => 0,
        }
    }
    /// Zero-copy account body (after the 8-byte discriminator).
    pub fn zc<T: bytemuck::Pod>(&self, k: &Pubkey) -> T {
        let a = self.get(k).expect("account missing");
        bytemuck::pod_read_unaligned(&a.data[8..8 + std::mem::size_of::<T>()])
    }
    pub fn set_zc<T: bytemuck::Pod>(&mut self, k: &Pubkey, v: &T) {
        let mut a = self.get(k).expect("account missing").clone();
        let b = bytemuck::bytes_of(v);
        a.data[8..8 + b.len()].copy_from_slice(b);
        self.put(*k, a);
    }
    pub fn advance(&mut self, secs: u64, slots: u64) {
        self.now.ts += secs as i64;
        self.now.slot += slots;
    }

    pub fn exec1(&mut self, ix: Instruction) -> TxOut {
        self.exec(&[ix], None)
    }

    /// Executes a transaction atomically. `rogue` makes one external program misbehave.
    pub fn exec(&mut self, ixs: &[Instruction], rogue: Option<Rogue>) -> TxOut {
        init();
        // message-level privileges
        let mut privs: BTreeMap<Pubkey, (bool, bool)> = BTreeMap::new();
        for ix in ixs {
            for m in &ix.accounts {
                let e = privs.entry(m.pubkey).or_insert((false, false));
                e.0 |= m.is_signer;
                e.1 |= m.is_writable;
            }
        }
        for k in [sysvar::instructions::ID, system_program::ID] {
            if let Some(e) = privs.get_mut(&k) {
                e.1 = false;
            }
        }
        for ix in ixs {
            privs.entry(ix.program_id).or_insert((false, false));
        }
        let sysvar_data = if privs.contains_key(&sysvar::instructions::ID) {
            let view: Vec<solana_program::sysvar::instructions::BorrowedInstruction> = ixs
                .iter()
                .map(|ix| solana_program::sysvar::instructions::BorrowedInstruction {
                    program_id: &ix.program_id,
                    accounts: ix
                        .accounts
                        .iter()
                        .map(|m| solana_program::sysvar::instructions::BorrowedAccountMeta {
                            pubkey: &m.pubkey,
                            is_signer: privs[&m.pubkey].0,
                            is_writable: privs[&m.pubkey].1,
                        })
                        .collect(),
                    data: &ix.data,
                })
                .collect();
            Some(solana_program::sysvar::instructions::construct_instructions_data(&view))
        } else {
            None
        };
        let mut slots: BTreeMap<Pubkey, (Slot, Acc, AccountInfo<'static>)> = BTreeMap::new();
        for k in privs.keys() {
            let a = if *k == sysvar::instructions::ID {
                Acc {
                    lamports: 1,
                    data: sysvar_data.clone().unwrap_or_default(),
                    owner: sysvar::ID,
                    executable: false,
                }
            } else {
                self.get(k).cloned().unwrap_or_default()
            };
            let s = Slot::new(k, &a);
            let i = s.info(a.executable);
            slots.insert(*k, (s, a, i));
        }
        CTX.with(|c| {
            *c.borrow_mut() = Some(Ctx {
                now: self.now.clone(),
                stack: vec![],
                calls: vec![],
                fatal: None,
                rogue,
                acted: false,
            })
        });
        solana_msg::LOGS.with(|l| l.borrow_mut().clear());
        let mut err = None;
        for (n, ix) in ixs.iter().enumerate() {
            if let Some((_, _, i)) = slots.get(&sysvar::instructions::ID) {
                solana_program::sysvar::instructions::store_current_index(
                    &mut i.data.borrow_mut()[..],
                    n as u16,
                );
            }
            // refresh infos: earlier instructions may have resized accounts
            let mut distinct = vec![];
            let mut ip: BTreeMap<Pubkey, (bool, bool)> = BTreeMap::new();
            for m in &ix.accounts {
                let e = ip.entry(m.pubkey).or_insert((false, false));
                *e = privs[&m.pubkey];
            }
            ip.entry(ix.program_id).or_insert((false, false));
            let mut by: BTreeMap<Pubkey, AccountInfo<'static>> = BTreeMap::new();
            for (k, (s, w)) in &ip {
                let (slot, a, _) = &slots[k];
                let mut i = slot.info(a.executable);
                i.is_signer = *s;
                i.is_writable = *w;
                distinct.push(i.clone());
                by.insert(*k, i);
            }
            // `original_data_len` is per instruction
            for k in ip.keys() {
                unsafe {
                    let p = slots[k].0.ptr;
                    *(p.add(4) as *mut u32) = *(p.add(80) as *const u64) as u32;
                }
            }
            let list: Vec<AccountInfo<'static>> =
                ix.accounts.iter().map(|m| by[&m.pubkey].clone()).collect();
            let r = catch_unwind(AssertUnwindSafe(|| run_program(ix, list, distinct, ip)));
            let fat = CTX.with(|c| c.borrow_mut().as_mut().and_then(|c| c.fatal.take()));
            match r {
                Err(_) => {
                    err = Some(TxErr::Panic {
                        ix: n,
                        msg: PANIC_MSG.with(|m| m.borrow().clone()),
                    })
                }
                Ok(r) => {
                    if let Err(e) = r {
                        let (s, code) = describe(&e);
                        err = Some(if code == 0xFFFF_FFF0 {
                            TxErr::Runtime {
                                ix: n,
                                msg: fat.unwrap_or_default(),
                            }
                        } else {
                            TxErr::Program {
                                ix: n,
                                err: s,
                                code,
                            }
                        });
                    } else if let Some(m) = fat {
                        err = Some(TxErr::Runtime { ix: n, msg: m });
                    }
                }
            }
            if err.is_some() {
                break;
            }
        }
        let ctx = CTX.with(|c| c.borrow_mut().take().unwrap());
        let mut out = TxOut {
            err,
            acted: ctx.acted,
            calls: ctx.calls,
            logs: solana_msg::LOGS.with(|l| std::mem::take(&mut *l.borrow_mut())),
        };
        if out.err.is_none() {
            // rent state: whatever was changed must be rent exempt or gone
            let rent = Rent::default();
            let mut changed = vec![];
            for (k, (slot, a, _)) in &slots {
                if *k == sysvar::instructions::ID {
                    continue;
                }
                let n = slot.read(a.executable);
                if n == *a {
                    continue;
                }
                if n.lamports > 0
                    && n.lamports < rent.minimum_balance(n.data.len())
                    && !(a.lamports > 0
                        && a.lamports < rent.minimum_balance(a.data.len())
                        && a.data.len() == n.data.len()
                        && n.lamports <= a.lamports)
                {
                    out.err = Some(TxErr::Runtime {
                        ix: ixs.len(),
                        msg: format!("InsufficientFundsForRent {k}"),
                    });
                    break;
                }
                changed.push((*k, n));
            }
            if out.err.is_none() {
                for (k, n) in changed {
                    if n.lamports == 0 {
                        self.accs.remove(&k);
                    } else {
                        self.put(k, n);
                    }
                }
            }
        }
        out
    }

    /// 128-bit digest of the whole bank (accounts and clock).
    pub fn digest(&self) -> u128 {
        use sha2::{Digest, Sha256};
        let mut h = Sha256::new();
        h.update(self.now.slot.to_le_bytes());
        h.update(self.now.ts.to_le_bytes());
        for (k, a) in &self.accs {
            if a.executable {
                continue;
            }
            h.update(k.as_ref());
            h.update(a.lamports.to_le_bytes());
            h.update(a.owner.as_ref());
            h.update((a.data.len() as u64).to_le_bytes());
            h.update(&a.data);
        }
        u128::from_le_bytes(h.finalize()[..16].try_into().unwrap())
    }
}

pub fn rw(k: Pubkey, signer: bool) -> AccountMeta {
    AccountMeta::new(k, signer)
}
