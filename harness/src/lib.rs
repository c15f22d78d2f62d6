//! Runs the real presale program natively: the program's entry function over accounts laid out as the
//! Solana runtime does, cross-program calls served by the real SPL token processors, and a small
//! system program.  Failed instructions roll back.
use anchor_lang::prelude::*;
use anchor_lang::solana_program::{
    entrypoint::{ProgramResult, MAX_PERMITTED_DATA_INCREASE},
    instruction::{AccountMeta, Instruction},
    program_error::ProgramError,
    program_stubs::{set_syscall_stubs, SyscallStubs},
    system_program,
};
use anchor_spl::token::spl_token;
use anchor_spl::token_2022::spl_token_2022;
use std::collections::BTreeMap;
use std::sync::Mutex;

#[derive(Clone, Debug, PartialEq)]
pub struct Acc {
    pub owner: Pubkey,
    pub lamports: u64,
    pub data: Vec<u8>,
    pub executable: bool,
}

#[derive(Clone, Debug)]
pub struct Cpi {
    pub program: Pubkey,
    pub metas: Vec<(Pubkey, bool, bool)>,
    pub data: Vec<u8>,
    /// addresses derived from the signer seeds given
    pub signers: Vec<Pubkey>,
}

#[derive(Clone, Debug)]
pub struct Outcome {
    pub ok: bool,
    pub err: String,
    pub code: Option<u32>,
    pub cpis: Vec<Cpi>,
}

#[derive(Clone, Default)]
pub struct World {
    pub accs: BTreeMap<Pubkey, Acc>,
    pub now: i64,
    pub epoch: u64,
}

struct Env {
    now: i64,
    epoch: u64,
    cpis: Vec<Cpi>,
    logs: bool,
    denied: bool,
}

static ENV: Mutex<Env> = Mutex::new(Env { now: 0, epoch: 0, cpis: vec![], logs: false, denied: false });

struct Stubs;

impl SyscallStubs for Stubs {
    fn sol_log(&self, m: &str) {
        if std::env::var("NRT_LOG").is_ok() {
            eprintln!("log: {m}");
        }
    }
    fn sol_log_data(&self, _: &[&[u8]]) {}
    fn sol_get_clock_sysvar(&self, p: *mut u8) -> u64 {
        let e = ENV.lock().unwrap();
        let c = Clock { slot: 1, epoch_start_timestamp: 0, epoch: e.epoch, leader_schedule_epoch: e.epoch + 1, unix_timestamp: e.now };
        unsafe { *(p as *mut Clock) = c };
        0
    }
    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 {
        unsafe { *(p as *mut Rent) = Rent::default() };
        0
    }
    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        invoke(ix, infos, seeds)
    }
}

fn invoke(ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
    let mut signers = vec![];
    for s in seeds {
        signers.push(Pubkey::create_program_address(s, &presale::ID).map_err(|_| ProgramError::InvalidSeeds)?);
    }
    let mut callee = vec![];
    for m in &ix.accounts {
        let ai = infos.iter().find(|a| *a.key == m.pubkey).ok_or(ProgramError::NotEnoughAccountKeys)?;
        let may_sign = infos.iter().any(|a| *a.key == m.pubkey && a.is_signer) || signers.contains(&m.pubkey);
        let may_write = infos.iter().any(|a| *a.key == m.pubkey && a.is_writable);
        if (m.is_signer && !may_sign) || (m.is_writable && !may_write) {
            ENV.lock().unwrap().denied = true;
            return Err(ProgramError::MissingRequiredSignature);
        }
        let mut c = ai.clone();
        c.is_signer = m.is_signer;
        c.is_writable = m.is_writable;
        callee.push(c);
    }
    ENV.lock().unwrap().cpis.push(Cpi {
        program: ix.program_id,
        metas: ix.accounts.iter().map(|m| (m.pubkey, m.is_signer, m.is_writable)).collect(),
        data: ix.data.clone(),
        signers,
    });
    if ix.program_id == system_program::ID {
        system(&callee, &ix.data)
    } else if ix.program_id == spl_token::ID {
        spl_token::processor::Processor::process(&spl_token::ID, &callee, &ix.data)
    } else if ix.program_id == spl_token_2022::ID {
        spl_token_2022::processor::Processor::process(&spl_token_2022::ID, &callee, &ix.data)
    } else {
        Ok(()) // memo, own event calls, hooks: recorded only
    }
}

fn u64_at(d: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(d[o..o + 8].try_into().unwrap())
}

fn system(a: &[AccountInfo], d: &[u8]) -> ProgramResult {
    let tag = u32::from_le_bytes(d[0..4].try_into().unwrap());
    let alloc = |ai: &AccountInfo, space: u64| -> ProgramResult {
        if !ai.is_signer || !ai.data_is_empty() || *ai.owner != system_program::ID {
            return Err(ProgramError::AccountAlreadyInitialized);
        }
        ai.realloc(space as usize, true)
    };
    let mv = |from: &AccountInfo, to: &AccountInfo, n: u64| -> ProgramResult {
        if !from.is_signer || from.lamports() < n || from.key == to.key {
            return Err(ProgramError::InsufficientFunds);
        }
        **from.try_borrow_mut_lamports()? -= n;
        **to.try_borrow_mut_lamports()? += n;
        Ok(())
    };
    let key = |o: usize| Pubkey::new_from_array(d[o..o + 32].try_into().unwrap());
    match tag {
        0 => {
            if a[1].lamports() > 0 {
                return Err(ProgramError::AccountAlreadyInitialized);
            }
            alloc(&a[1], u64_at(d, 12))?;
            a[1].assign(&key(20));
            mv(&a[0], &a[1], u64_at(d, 4))
        }
        1 => {
            if !a[0].is_signer {
                return Err(ProgramError::MissingRequiredSignature);
            }
            a[0].assign(&key(4));
            Ok(())
        }
        2 => mv(&a[0], &a[1], u64_at(d, 4)),
        8 => alloc(&a[0], u64_at(d, 4)),
        _ => Err(ProgramError::InvalidInstructionData),
    }
}

/// One account laid out as the runtime does (realloc and assign rely on it): flags and original length, key,
/// owner, lamports, length, data and room to grow.  Each starts on a 16-byte boundary, so that zero-copy data
/// after its 8-byte discriminator is aligned for this host's u128.
fn lay_out(k: &Pubkey, a: &Acc, signer: bool, writable: bool, bufs: &mut Vec<*mut [u128]>) -> AccountInfo<'static> {
    let n = a.data.len();
    let buf: &'static mut [u128] = Box::leak(vec![0u128; (88 + n + MAX_PERMITTED_DATA_INCREASE) / 16 + 2].into_boxed_slice());
    bufs.push(buf);
    let p = buf.as_mut_ptr() as *mut u8;
    unsafe {
        *p = 0xff;
        *(p.add(4) as *mut u32) = n as u32;
        std::ptr::copy_nonoverlapping(k.to_bytes().as_ptr(), p.add(8), 32);
        std::ptr::copy_nonoverlapping(a.owner.to_bytes().as_ptr(), p.add(40), 32);
        *(p.add(72) as *mut u64) = a.lamports;
        *(p.add(80) as *mut u64) = n as u64;
        std::ptr::copy_nonoverlapping(a.data.as_ptr(), p.add(88), n);
        AccountInfo {
            key: &*(p.add(8) as *const Pubkey),
            owner: &*(p.add(40) as *const Pubkey),
            lamports: std::rc::Rc::new(std::cell::RefCell::new(&mut *(p.add(72) as *mut u64))),
            data: std::rc::Rc::new(std::cell::RefCell::new(std::slice::from_raw_parts_mut(p.add(88), n))),
            is_signer: signer,
            is_writable: writable,
            executable: a.executable,
            rent_epoch: 0,
        }
    }
}

fn lay_out_all(w: &World, metas: &[AccountMeta], bufs: &mut Vec<*mut [u128]>) -> Vec<AccountInfo<'static>> {
    let mut v: Vec<AccountInfo<'static>> = vec![];
    for (i, m) in metas.iter().enumerate() {
        if let Some(j) = metas[..i].iter().position(|x| x.pubkey == m.pubkey) {
            let c = v[j].clone();
            v.push(c);
            continue;
        }
        let signer = metas.iter().any(|x| x.pubkey == m.pubkey && x.is_signer);
        let writable = metas.iter().any(|x| x.pubkey == m.pubkey && x.is_writable);
        let a = w.accs.get(&m.pubkey).cloned().unwrap_or(Acc { owner: system_program::ID, lamports: 0, data: vec![], executable: false });
        v.push(lay_out(&m.pubkey, &a, signer, writable, bufs));
    }
    v
}

pub fn init() {
    set_syscall_stubs(Box::new(Stubs));
    if std::env::var("NRT_LOG").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
}

impl World {
    pub fn run(&mut self, metas: &[AccountMeta], data: &[u8]) -> Outcome {
        let mut bufs = vec![];
        let infos: *mut [AccountInfo<'static>] = Box::into_raw(lay_out_all(self, metas, &mut bufs).into_boxed_slice());
        let o = self.run_on(metas, data, unsafe { &*infos });
        unsafe {
            drop(Box::from_raw(infos));
            for b in bufs {
                drop(Box::from_raw(b));
            }
        }
        o
    }

    fn run_on(&mut self, metas: &[AccountMeta], data: &[u8], infos: &'static [AccountInfo<'static>]) -> Outcome {
        {
            let mut e = ENV.lock().unwrap_or_else(|p| p.into_inner());
            e.now = self.now;
            e.epoch = self.epoch;
            e.cpis.clear();
            e.denied = false;
            let _ = e.logs;
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| presale::entry(&presale::ID, infos, data)));
        let (cpis, denied) = {
            let e = ENV.lock().unwrap_or_else(|p| p.into_inner());
            (e.cpis.clone(), e.denied)
        };
        let fail = |err: String, code: Option<u32>, cpis: Vec<Cpi>| Outcome { ok: false, err, code, cpis };
        match r {
            Err(_) => return fail("panic".into(), None, cpis),
            Ok(Err(ProgramError::Custom(c))) => return fail(format!("custom {c}"), Some(c), cpis),
            Ok(Err(e)) => return fail(format!("{e:?}"), None, cpis),
            Ok(Ok(())) => (),
        }
        if denied {
            return fail("privilege escalation".into(), None, cpis);
        }
        // the runtime's rules on what a program may leave behind
        let mut new = self.clone();
        let (mut before, mut after) = (0u128, 0u128);
        let mut done: Vec<Pubkey> = vec![];
        for (m, ai) in metas.iter().zip(infos) {
            if done.contains(&m.pubkey) {
                continue;
            }
            done.push(m.pubkey);
            let old = self.accs.get(&m.pubkey).cloned().unwrap_or(Acc { owner: system_program::ID, lamports: 0, data: vec![], executable: false });
            let now = Acc { owner: *ai.owner, lamports: ai.lamports(), data: ai.data.borrow().to_vec(), executable: old.executable };
            before += old.lamports as u128;
            after += now.lamports as u128;
            if now != old && !ai.is_writable {
                return fail("readonly account modified".into(), None, cpis);
            }
            if now.lamports == 0 {
                new.accs.remove(&m.pubkey);
            } else {
                new.accs.insert(m.pubkey, now);
            }
        }
        if before != after {
            return fail("unbalanced lamports".into(), None, cpis);
        }
        *self = new;
        Outcome { ok: true, err: String::new(), code: None, cpis }
    }
}

#[cfg(feature = "sim")]
pub mod kit;
#[cfg(feature = "sim")]
pub mod sim;
