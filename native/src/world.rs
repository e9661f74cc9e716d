//! Accounts, a token runtime behind solana's syscall stubs, and transaction atomicity.
use serum_dex::state::State;
use solana_program::{
    account_info::AccountInfo, entrypoint::ProgramResult, instruction::Instruction, program_error::ProgramError, program_pack::Pack, program_stubs, pubkey::Pubkey, rent::Rent,
};
use spl_token::state::{Account, AccountState, Mint};
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::Mutex;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { self.next() % n }
    pub fn range(&mut self, a: u64, b: u64) -> u64 { a + self.below(b - a + 1) }
    pub fn chance(&mut self, p: u64) -> bool { self.below(100) < p }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T { v[self.below(v.len() as u64) as usize] }
    pub fn key(&mut self) -> Pubkey {
        let mut b = [0u8; 32];
        for i in 0..4 { b[i * 8..i * 8 + 8].copy_from_slice(&self.next().to_le_bytes()); }
        Pubkey::new(&b)
    }
}

#[derive(Clone)]
pub struct Acct { pub key: Pubkey, pub owner: Pubkey, pub lamports: u64, pub words: Vec<u64>, pub off: usize, pub len: usize }
impl Acct {
    pub fn data(&self) -> &[u8] { unsafe { std::slice::from_raw_parts((self.words.as_ptr() as *const u8).add(self.off), self.len) } }
    pub fn data_mut(&mut self) -> &mut [u8] { unsafe { std::slice::from_raw_parts_mut((self.words.as_mut_ptr() as *mut u8).add(self.off), self.len) } }
    pub fn u64(&self, o: usize) -> u64 { let mut b = [0u8; 8]; b.copy_from_slice(&self.data()[o..o + 8]); u64::from_le_bytes(b) }
    pub fn u32(&self, o: usize) -> u32 { let mut b = [0u8; 4]; b.copy_from_slice(&self.data()[o..o + 4]); u32::from_le_bytes(b) }
    pub fn u128(&self, o: usize) -> u128 { let mut b = [0u8; 16]; b.copy_from_slice(&self.data()[o..o + 16]); u128::from_le_bytes(b) }
    pub fn key_at(&self, o: usize) -> Pubkey { Pubkey::new(&self.data()[o..o + 32]) }
}

pub static CTX: Mutex<(i64, [u8; 32], u64)> = Mutex::new((0, [0; 32], 0));
struct Stubs;
impl program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {}
    fn sol_get_rent_sysvar(&self, v: *mut u8) -> u64 { unsafe { *(v as *mut Rent) = Rent::default() }; 0 }
    fn sol_get_clock_sysvar(&self, v: *mut u8) -> u64 {
        let mut c = solana_program::clock::Clock::default();
        c.unix_timestamp = CTX.lock().unwrap().0;
        unsafe { *(v as *mut solana_program::clock::Clock) = c };
        0
    }
    fn sol_invoke_signed(&self, ins: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        let pid = Pubkey::new(&CTX.lock().unwrap().1);
        if ins.program_id != spl_token::ID { return Err(ProgramError::IncorrectProgramId); }
        let pdas: Vec<Pubkey> = seeds.iter().filter_map(|s| Pubkey::create_program_address(s, &pid).ok()).collect();
        let mut v = Vec::new();
        for m in ins.accounts.iter() {
            let mut a = infos.iter().find(|i| *i.key == m.pubkey).ok_or(ProgramError::NotEnoughAccountKeys)?.clone();
            a.is_signer = a.is_signer || pdas.contains(a.key);
            if m.is_signer && !a.is_signer { return Err(ProgramError::MissingRequiredSignature); }
            v.push(a);
        }
        CTX.lock().unwrap().2 += 1;
        spl_token::processor::Processor::process(&ins.program_id, &v, &ins.data)
    }
}

pub fn install() {
    program_stubs::set_syscall_stubs(Box::new(Stubs));
    std::panic::set_hook(Box::new(|_| {}));
}

#[derive(Clone)]
pub struct World { pub pid: Pubkey, pub a: Vec<Acct> }
pub type Meta = (usize, bool);
impl World {
    pub fn new(rng: &mut Rng) -> World {
        let pid = rng.key();
        World { pid, a: vec![] }
    }
    pub fn add(&mut self, key: Pubkey, owner: Pubkey, len: usize, off: usize) -> usize {
        let words = vec![0u64; (len + off + 7) / 8 + 1];
        self.a.push(Acct { key, owner, lamports: 60_000_000_000, words, off, len });
        self.a.len() - 1
    }
    /// unpadded length of a dex account
    pub fn dex(&mut self, key: Pubkey, n: usize) -> usize { let p = self.pid; self.add(key, p, n + 12, 3) }
    pub fn mint(&mut self, key: Pubkey) -> usize {
        let i = self.add(key, spl_token::ID, Mint::LEN, 0);
        let mut m = Mint::default();
        m.is_initialized = true;
        Mint::pack(m, self.a[i].data_mut()).unwrap();
        i
    }
    pub fn token(&mut self, key: Pubkey, mint: Pubkey, owner: Pubkey, amount: u64) -> usize {
        let i = self.add(key, spl_token::ID, Account::LEN, 0);
        let mut t = Account::default();
        t.state = AccountState::Initialized;
        t.mint = mint;
        t.owner = owner;
        t.amount = amount;
        Account::pack(t, self.a[i].data_mut()).unwrap();
        i
    }
    pub fn plain(&mut self, key: Pubkey) -> usize { self.add(key, solana_program::system_program::ID, 0, 0) }
    pub fn bal(&self, i: usize) -> u64 { self.a[i].u64(64) }

    /// one transaction: on Err or panic nothing changes
    pub fn exec(&mut self, data: &[u8], metas: &[Meta]) -> Result<(), String> {
        CTX.lock().unwrap().1 = self.pid.to_bytes();
        let saved: Vec<(usize, Acct)> = metas.iter().map(|m| (m.0, self.a[m.0].clone())).collect();
        let pid = self.pid;
        let mut infos: Vec<AccountInfo<'static>> = Vec::new();
        for (k, &(i, signer)) in metas.iter().enumerate() {
            if let Some(j) = metas[..k].iter().position(|m| m.0 == i) {
                let mut c = infos[j].clone();
                c.is_signer = signer;
                infos.push(c);
                continue;
            }
            let a: &'static mut Acct = unsafe { &mut *(&mut self.a[i] as *mut Acct) };
            let d: &'static mut [u8] = unsafe { std::slice::from_raw_parts_mut((a.words.as_mut_ptr() as *mut u8).add(a.off), a.len) };
            infos.push(AccountInfo { key: &a.key, is_signer: signer, is_writable: true, lamports: Rc::new(RefCell::new(&mut a.lamports)), data: Rc::new(RefCell::new(d)), owner: &a.owner, executable: false, rent_epoch: 0 });
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| State::process(&pid, &infos, data)));
        drop(infos);
        let r = match r { Ok(Ok(())) => Ok(()), Ok(Err(e)) => Err(format!("{:?}", e)), Err(p) => Err(format!("panic: {}", p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())) };
        if r.is_err() { for (i, a) in saved { self.a[i] = a; } }
        r
    }
}
