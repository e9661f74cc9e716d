//! poolsim <seed> <runs>: the real pool entry point (default implementation) and assert-owner on generated requests,
//! compared with a reference computed here from the documented behaviour. Token transfers run the real spl-token
//! processor behind solana's syscall stubs; a failed transaction is rolled back.
use borsh::{BorshDeserialize, BorshSerialize};
use serum_pool::schema::{fee_owner, AssetInfo, Basket, InitializePoolRequest, ParamDesc, PoolAction, PoolRequest, PoolRequestInner, PoolState};
use serum_pool::{pool_entrypoint, Pool, PoolContext};
use solana_program::account_info::AccountInfo;
use solana_program::entrypoint::ProgramResult;
use solana_program::instruction::Instruction;
use solana_program::program_error::ProgramError;
use solana_program::program_option::COption;
use solana_program::program_pack::Pack;
use solana_program::pubkey::Pubkey;
use solana_program::sysvar::rent::Rent;
use solana_program::{program_stubs, sysvar};
use spl_token::state::{Account, AccountState, Mint};
use std::cell::RefCell;
use std::panic;
use std::rc::Rc;
use std::sync::Mutex;

pub struct Rng(pub u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: u64) -> u64 { self.next() % n }
    fn chance(&mut self, p: u64) -> bool { self.below(100) < p }
    fn key(&mut self) -> Pubkey {
        let mut b = [0u8; 32];
        for i in 0..4 { b[i * 8..i * 8 + 8].copy_from_slice(&self.next().to_le_bytes()); }
        Pubkey::new(&b)
    }
    fn amount(&mut self) -> u64 {
        match self.below(7) { 0 => self.below(4), 1 => self.below(100), 2 => self.below(20_000), 3 => self.below(5_000_000), 4 => self.below(1 << 40), 5 => self.below(1 << 62), _ => self.below(1000) * 10_000 + self.below(3) }
    }
    fn rate(&mut self) -> u32 {
        match self.below(8) { 0 => 149, 1 => 150, 2 => 999_999, 3 => 1_000_000, 4 => 2500, 5 => self.below(2_000_000) as u32, 6 => 150 + self.below(500) as u32, _ => 0 }
    }
}

#[derive(Clone, PartialEq)]
struct Acc { key: Pubkey, owner: Pubkey, lamports: u64, data: Vec<u8>, signer: bool }

static PID: Mutex<([u8; 32], Vec<(Vec<u8>, Vec<u8>)>)> = Mutex::new(([0; 32], Vec::new()));
struct Stubs;
impl program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {}
    fn sol_invoke_signed(&self, ins: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        let pid = Pubkey::new(&PID.lock().unwrap().0);
        let pdas: Vec<Pubkey> = seeds.iter().filter_map(|s| Pubkey::create_program_address(s, &pid).ok()).collect();
        if ins.program_id != spl_token::ID {
            // the return-buffer program: remember what it was asked to write, and where
            if ins.accounts.len() != 1 { return Err(ProgramError::InvalidArgument); }
            let mut w = ins.program_id.as_ref().to_vec();
            w.extend_from_slice(ins.accounts[0].pubkey.as_ref());
            PID.lock().unwrap().1.push((w, ins.data.clone()));
            return Ok(());
        }
        let mut v = Vec::new();
        for m in ins.accounts.iter() {
            let mut a = infos.iter().find(|i| *i.key == m.pubkey).ok_or(ProgramError::NotEnoughAccountKeys)?.clone();
            if m.is_signer && !(a.is_signer || pdas.contains(a.key)) { return Err(ProgramError::MissingRequiredSignature); }
            a.is_signer = m.is_signer;
            v.push(a);
        }
        if !infos.iter().any(|i| *i.key == spl_token::ID) { return Err(ProgramError::NotEnoughAccountKeys); }
        spl_token::processor::Processor::process(&spl_token::ID, &v, &ins.data)
    }
}

struct Simple;
impl Pool for Simple {}

fn token(mint: &Pubkey, owner: &Pubkey, amount: u64, delegate: COption<Pubkey>, close: COption<Pubkey>) -> Vec<u8> {
    let mut d = vec![0u8; Account::LEN];
    let delegated_amount = if delegate.is_some() { u64::max_value() } else { 0 };
    Account::pack(Account { mint: *mint, owner: *owner, amount, delegate, state: AccountState::Initialized, is_native: COption::None, delegated_amount, close_authority: close }, &mut d).unwrap();
    d
}
fn mint(auth: COption<Pubkey>, supply: u64) -> Vec<u8> {
    let mut d = vec![0u8; Mint::LEN];
    Mint::pack(Mint { mint_authority: auth, supply, decimals: 6, is_initialized: true, freeze_authority: COption::None }, &mut d).unwrap();
    d
}
fn tok(a: &Acc) -> Option<Account> { if a.owner == spl_token::ID { Account::unpack(&a.data).ok() } else { None } }

/// runs the entry point on the accounts; on failure everything is as before
fn run(pid: &Pubkey, accs: &mut Vec<Acc>, data: &[u8]) -> Result<(), String> {
    // the same account may appear at several positions
    let mut uniq: Vec<Acc> = Vec::new();
    let mut pos = Vec::new();
    for a in accs.iter() {
        match uniq.iter().position(|u| u.key == a.key) { Some(i) => pos.push(i), None => { pos.push(uniq.len()); uniq.push(a.clone()) } }
    }
    PID.lock().unwrap().0.copy_from_slice(pid.as_ref());
    let mut work = uniq.clone();
    let r = {
        let infos: Vec<AccountInfo> = work.iter_mut().map(|a| {
            let signer = a.signer;
            AccountInfo { key: &a.key, is_signer: signer, is_writable: true, lamports: Rc::new(RefCell::new(&mut a.lamports)), data: Rc::new(RefCell::new(&mut a.data[..])), owner: &a.owner, executable: false, rent_epoch: 0 }
        }).collect();
        let v: Vec<AccountInfo> = pos.iter().map(|&i| infos[i].clone()).collect();
        let x = panic::catch_unwind(panic::AssertUnwindSafe(|| pool_entrypoint::<Simple>(pid, &v, data)));
        match x { Ok(Ok(())) => Ok(()), Ok(Err(e)) => Err(format!("{:?}", e)), Err(_) => Err("panic".to_string()) }
    };
    if r.is_ok() { for (k, &i) in pos.iter().enumerate() { accs[k] = work[i].clone(); } }
    r
}

fn fees(rate: u32, q: u64) -> (u64, u64, u64) {
    if q == 0 { return (0, 0, 0); }
    let total = ((q as u128 * rate as u128 + 999_999) / 1_000_000) as u64;
    let lqd = std::cmp::max((total as u128 * 2 / 5) as u64, ((q as u128 + 9_999) / 10_000) as u64);
    let r = std::cmp::min(lqd / 2, total - lqd);
    (lqd, total - lqd - r, r)
}

/// an account listed twice is one account
fn spread(accs: &mut Vec<Acc>, damaged: &str) {
    let k: usize = match damaged.split(' ').nth(1).and_then(|x| x.parse().ok()) { Some(k) => k, None => return };
    if k >= accs.len() { return; }
    let a = accs[k].clone();
    for x in accs.iter_mut() { if x.key == a.key { *x = a.clone(); } }
}

struct World { pid: Pubkey, nonce: u8, signer: Pubkey, n: usize, accs: Vec<Acc>, state: PoolState }

fn pda(rng: &mut Rng, pid: &Pubkey) -> (Pubkey, Pubkey, u8) {
    loop {
        let pool = rng.key(); let nonce = rng.below(256) as u8;
        if let Ok(s) = Pubkey::create_program_address(&[pool.as_ref(), &[nonce]], pid) { return (pool, s, nonce); }
    }
}

fn borsh<T: BorshSerialize>(t: &T) -> Vec<u8> { t.try_to_vec().unwrap() }
fn request(r: PoolRequestInner) -> Vec<u8> { borsh(&PoolRequest { tag: Default::default(), inner: r }) }

fn fail(cat: &str, seed: u64, what: String) -> ! {
    println!("MISMATCH seed {}", seed);
    println!("CAT {} {}", cat, what);
    std::process::exit(1)
}

/// a valid account list for Execute, then possibly damaged; the reference decides
fn execute(rng: &mut Rng, seed: u64) -> u64 {
    let pid = rng.key();
    let (pool, signer, nonce) = pda(rng, &pid);
    let n = rng.below(4) as usize;
    let np = rng.below(3) as usize;
    let rate = rng.rate();
    let pmint = rng.key();
    let user = rng.key();
    let mints: Vec<Pubkey> = (0..n).map(|_| rng.key()).collect();
    let vaults: Vec<Pubkey> = (0..n).map(|_| rng.key()).collect();
    let params: Vec<Pubkey> = (0..np).map(|_| rng.key()).collect();
    let (lqd, ini, refr, upt) = (rng.key(), rng.key(), rng.key(), rng.key());
    let tk = |key, data| Acc { key, owner: spl_token::ID, lamports: 1 << 40, data, signer: false };
    let supply = rng.amount();
    let st = PoolState { tag: Default::default(), pool_token_mint: pmint.into(), assets: (0..n).map(|i| AssetInfo { mint: mints[i].into(), vault_address: vaults[i].into() }).collect(),
        vault_signer: signer.into(), vault_signer_nonce: nonce, account_params: params.iter().map(|&p| ParamDesc { address: p.into(), writable: false }).collect(), name: "p".to_string(),
        lqd_fee_vault: lqd.into(), initializer_fee_vault: ini.into(), fee_rate: rate, admin_key: None, custom_state: vec![1, 2, 3] };
    let mut pd = borsh(&st); pd.resize(pd.len() + 40, 0);
    let get = rng.chance(20);
    let ubal = rng.amount();
    let q = if rng.chance(50) { ubal } else { rng.amount() };
    let q = if q > 1 << 60 && rng.chance(90) { q >> 20 } else { q };
    let mut accs = vec![Acc { key: pool, owner: pid, lamports: 1, data: pd.clone(), signer: false }, tk(pmint, mint(COption::Some(signer), supply))];
    for i in 0..n {
        let dele = rng.chance(10);
        let x = rng.amount();
        accs.push(tk(vaults[i], if dele { token(&mints[i], &user, x, COption::Some(signer), COption::None) } else { token(&mints[i], &signer, x, COption::None, COption::None) }));
    }
    accs.push(Acc { key: signer, owner: Pubkey::default(), lamports: 0, data: vec![], signer: false });
    let retp = rng.key();
    let mut lay = vec![];
    if get {
        lay.push(accs.len()); accs.push(Acc { key: rng.key(), owner: retp, lamports: 1, data: vec![0; 100], signer: false });
        accs.push(Acc { key: retp, owner: Pubkey::default(), lamports: 1, data: vec![], signer: false });
    } else {
        lay.push(accs.len()); accs.push(tk(upt, token(&pmint, &user, ubal, COption::None, COption::None)));
        for i in 0..n { let x = if rng.chance(60) { 1 << 62 } else { rng.amount() }; accs.push(tk(rng.key(), token(&mints[i], &user, x, COption::None, COption::None))); }
        accs.push(Acc { key: user, owner: Pubkey::default(), lamports: 1, data: vec![], signer: !rng.chance(4) });
        let ow = [rng.key(), rng.key()];
        let b = [rng.below(1000), rng.below(1000), rng.below(1000)];
        accs.push(tk(lqd, token(&pmint, &fee_owner::ID, b[0], COption::None, COption::None)));
        accs.push(tk(ini, token(&pmint, &ow[0], b[1], COption::None, COption::None)));
        accs.push(tk(refr, token(&pmint, &ow[1], b[2], COption::None, COption::None)));
        accs.push(Acc { key: spl_token::ID, owner: Pubkey::default(), lamports: 1, data: vec![], signer: false });
        // the user may be one of the fee accounts, or the referrer one of them
        let up = lay[0]; let l = accs.len() - 4;
        match rng.below(16) {
            0 => { let mut a = accs[l + 2].clone(); a.data = token(&pmint, &user, ubal, COption::None, COption::None); accs[up] = a.clone(); accs[l + 2] = a }
            1 => { let mut a = accs[l + 1].clone(); a.data = token(&pmint, &user, ubal, COption::None, COption::None); accs[up] = a.clone(); accs[l + 1] = a }
            2 => { accs[l + 2] = accs[l].clone() }
            3 => { accs[l + 2] = accs[l + 1].clone() }
            4 => { let mut a = accs[l].clone(); a.data = token(&pmint, &fee_owner::ID, ubal, COption::Some(user), COption::None); accs[up] = a.clone(); accs[l] = a }
            _ => {}
        }
    }
    for p in params.iter() { accs.push(Acc { key: *p, owner: Pubkey::default(), lamports: 1, data: vec![], signer: false }); }
    for _ in 0..rng.below(2) { accs.push(Acc { key: rng.key(), owner: Pubkey::default(), lamports: 1, data: vec![], signer: false }); }
    // damage
    let mut damaged = String::new();
    if rng.chance(35) {
        let k = rng.below(accs.len() as u64) as usize;
        damaged = format!("account {} ", k);
        let a = &mut accs[k];
        match rng.below(8) {
            0 => { a.key = rng.key(); damaged += "another key" }
            1 => { a.owner = rng.key(); damaged += "another owner" }
            2 => { if a.data.len() == Account::LEN { let mut t = Account::unpack(&a.data).unwrap(); t.mint = rng.key(); Account::pack(t, &mut a.data).unwrap(); damaged += "another mint" } }
            3 => { if a.data.len() == Account::LEN { let mut t = Account::unpack(&a.data).unwrap(); t.owner = rng.key(); Account::pack(t, &mut a.data).unwrap(); damaged += "another token owner" } }
            4 => { if a.data.len() == Mint::LEN { a.data = mint(COption::Some(rng.key()), supply); damaged += "another minter" } }
            5 => { if a.data.len() == Mint::LEN { a.data = mint(COption::None, supply); damaged += "no minter" } }
            6 => { for b in a.data.iter_mut() { *b = 0 } damaged += "zeroed" }
            _ => { let m = k; accs.truncate(m); damaged += "and later missing" }
        }
    }
    spread(&mut accs, &damaged);
    let kinds = rng.below(12);
    let act = match kinds { 0 => PoolAction::Swap(vec![1; n]), x if x % 2 == 0 => PoolAction::Create(q), _ => PoolAction::Redeem(q) };
    let data = request(if get { PoolRequestInner::GetBasket(act.clone()) } else { PoolRequestInner::Execute(act.clone()) });
    let before = accs.clone();
    PID.lock().unwrap().1.clear();
    let r = run(&pid, &mut accs, &data);
    let ret = PID.lock().unwrap().1.clone();
    let say = |w: &str| format!("{} | get_basket={} action={} q={} supply={} rate={} assets={} params={} damage=[{}] result={:?}", w, get, match &act { PoolAction::Create(_) => "create", PoolAction::Redeem(_) => "redeem", _ => "swap" }, q, supply, rate, n, np, damaged, r);
    // ---- reference: which accounts are acceptable
    let w = World { pid, nonce, signer, n, accs: before.clone(), state: st.clone() };
    let acct_ok = accounts_ok(&w, get, np);
    if !acct_ok { if r.is_ok() { fail("POOLACCT", seed, say("wrong accounts accepted")); } return 1; }
    let swap = matches!(act, PoolAction::Swap(_));
    let create = matches!(act, PoolAction::Create(_));
    if swap { if r.is_ok() { fail("POOLMONEY", seed, say("swap accepted")); } return 1; }
    // ---- reference: amounts
    if get {
        let b = basket(&before, n, supply, q, create);
        match (b, &r) {
            (Some(b), Ok(())) => {
                let mut want = vec![0u8; 8]; want.extend(borsh(&Basket { quantities: b }));
                let mut wh = before[lay[0] + 1].key.as_ref().to_vec(); wh.extend_from_slice(before[lay[0]].key.as_ref());
                if ret != vec![(wh, want)] { fail("POOLMONEY POOLACCT", seed, say("basket returned differs")); }
                if accs != before { fail("POOLMONEY", seed, say("asking for a basket changed accounts")); }
            }
            (None, Err(_)) => {}
            (x, _) => fail("POOLMONEY", seed, say(&format!("basket: expected {:?}", x))),
        }
        return 1;
    }
    let up = lay[0]; let au = up + 1 + n; let l = au + 1;
    let signs = Pubkey::create_program_address(&[before[0].key.as_ref(), &[w.nonce]], &w.pid) == Ok(w.signer);
    let exp = expect(signs, &before, n, supply, q, create, rate, up, l, au);
    match (exp, &r) {
        (Some((bal, sup)), Ok(())) => {
            for (k, v) in bal.iter() {
                let a = accs.iter().find(|a| a.key == *k).unwrap();
                if tok(a).unwrap().amount != *v { fail("POOLMONEY", seed, say(&format!("balance at position {:?}: expected {} found {}", accs.iter().position(|x| x.key == *k), v, tok(a).unwrap().amount))); }
            }
            let s2 = Mint::unpack(&accs[1].data).unwrap().supply;
            if s2 != sup { fail("POOLMONEY", seed, say(&format!("supply: expected {} found {}", sup, s2))); }
            if accs[0] != before[0] { fail("POOLACCT", seed, say("pool state changed")); }
        }
        (None, Err(_)) => {}
        (Some(_), Err(_)) => { if q <= 1 << 62 { fail("POOLMONEY POOLACCT", seed, say("valid request refused")); } }
        (None, Ok(())) => fail("POOLMONEY", seed, say("impossible request accepted")),
    }
    1
}

fn accounts_ok(w: &World, get: bool, np: usize) -> bool {
    let a = &w.accs; let n = w.n; let s = &w.state;
    let need = if get { 5 + n + np } else { 9 + 2 * n + np };
    if a.len() < need { return false; }
    if a[0].owner != w.pid { return false; }
    let mut d = &a[0].data[..];
    match PoolState::deserialize(&mut d) { Ok(x) => if x != *s { return false; }, Err(_) => return false }
    let m = Pubkey::from(s.pool_token_mint.clone());
    if a[1].key != m || a[1].owner != spl_token::ID { return false; }
    match Mint::unpack(&a[1].data) { Ok(x) => if x.mint_authority != COption::Some(w.signer) { return false; }, Err(_) => return false }
    let is = |x: &Acc, mint: &Pubkey, auth: Option<&Pubkey>| match tok(x) { Some(t) => t.mint == *mint && auth.map_or(true, |k| t.owner == *k || t.delegate == COption::Some(*k)), None => false };
    for i in 0..n {
        if a[2 + i].key != s.assets[i].vault_address.clone().into() { return false; }
        if !is(&a[2 + i], &s.assets[i].mint.clone().into(), Some(&w.signer)) { return false; }
    }
    if a[2 + n].key != w.signer { return false; }
    let p0;
    if get {
        if a[3 + n].owner != a[4 + n].key { return false; }
        p0 = 5 + n;
    } else {
        if !is(&a[3 + n], &m, None) { return false; }
        for i in 0..n { if !is(&a[4 + n + i], &s.assets[i].mint.clone().into(), None) { return false; } }
        let l = 5 + 2 * n;
        if a[l].key != s.lqd_fee_vault.clone().into() || a[l + 1].key != s.initializer_fee_vault.clone().into() { return false; }
        if !is(&a[l], &m, Some(&fee_owner::ID)) || !is(&a[l + 1], &m, None) || !is(&a[l + 2], &m, None) { return false; }
        if a[l + 3].key != spl_token::ID { return false; }
        p0 = l + 4;
    }
    (0..np).all(|i| a[p0 + i].key == s.account_params[i].address.clone().into())
}

fn basket(a: &[Acc], n: usize, supply: u64, q: u64, up: bool) -> Option<Vec<i64>> {
    if supply == 0 { return None; }
    let mut v = vec![];
    for i in 0..n {
        let held = tok(&a[2 + i]).unwrap().amount as u128;
        let x = (held * q as u128 + if up { supply as u128 - 1 } else { 0 }) / supply as u128;
        if x > i64::max_value() as u128 { return None; }
        v.push(x as i64);
    }
    Some(v)
}

/// balances after the request (by key) and the supply, or None if it must fail
fn expect(signs: bool, a: &[Acc], n: usize, supply: u64, q: u64, create: bool, rate: u32, up: usize, l: usize, au: usize) -> Option<(Vec<(Pubkey, u64)>, u64)> {
    if rate < 150 || rate >= 1_000_000 { return None; }
    let (mut f0, mut f1, mut f2) = fees(rate, q);
    let u = a[up].key;
    if a[l].key == u { f0 = 0; f1 = 0; f2 = 0; }
    if a[l + 1].key == u { f1 = 0; }
    if a[l + 2].key == u { f2 = 0; }
    let net = q - f0 - f1 - f2;
    let b = basket(a, n, supply, if create { q } else { net }, create)?;
    let mut bal: Vec<(Pubkey, u64)> = vec![];
    for x in a.iter() { if let Some(t) = tok(x) { if bal.iter().all(|(k, _)| *k != x.key) { bal.push((x.key, t.amount)); } } }
    let ctl = |x: &Acc, who: &Acc| { let t = tok(x).unwrap(); who.signer && (t.owner == who.key || t.delegate == COption::Some(who.key)) };
    fn mv(bal: &mut Vec<(Pubkey, u64)>, from: Option<Pubkey>, to: Option<Pubkey>, x: u64) -> Option<()> {
        if let Some(f) = from { let e = bal.iter_mut().find(|e| e.0 == f).unwrap(); if e.1 < x { return None; } e.1 -= x; }
        if let Some(t) = to { let e = bal.iter_mut().find(|e| e.0 == t).unwrap(); e.1 = e.1.checked_add(x)?; }
        Some(())
    }
    let sup;
    if create {
        for i in 0..n {
            if !ctl(&a[up + 1 + i], &a[au]) { return None; }
            mv(&mut bal, Some(a[up + 1 + i].key), Some(a[2 + i].key), b[i] as u64)?;
        }
        if q > 0 && !signs { return None; }
        sup = supply.checked_add(q)?;
        mv(&mut bal, None, Some(a[l].key), f0)?; mv(&mut bal, None, Some(a[l + 1].key), f1)?; mv(&mut bal, None, Some(a[l + 2].key), f2)?;
        mv(&mut bal, None, Some(u), net)?;
    } else {
        if !ctl(&a[up], &a[au]) { return None; }
        mv(&mut bal, Some(u), Some(a[l].key), f0)?; mv(&mut bal, Some(u), Some(a[l + 1].key), f1)?; mv(&mut bal, Some(u), Some(a[l + 2].key), f2)?;
        mv(&mut bal, Some(u), None, net)?;
        sup = supply.checked_sub(net)?;
        if n > 0 && !signs { return None; }
        for i in 0..n { mv(&mut bal, Some(a[2 + i].key), Some(a[up + 1 + i].key), b[i] as u64)?; }
    }
    Some((bal, sup))
}

fn initialize(rng: &mut Rng, seed: u64) -> u64 {
    let pid = rng.key();
    let (pool, signer, nonce) = pda(rng, &pid);
    let n = rng.below(4) as usize;
    let rate = if rng.chance(60) { 2500 } else { rng.rate() };
    let pmint = rng.key();
    let (lqd, ini) = (rng.key(), rng.key());
    let rent = Rent::default();
    let tk = |key, data: Vec<u8>| Acc { key, owner: spl_token::ID, lamports: rent.minimum_balance(data.len()), data, signer: false };
    let mints: Vec<Pubkey> = (0..n).map(|_| rng.key()).collect();
    let plen = if rng.chance(5) { 200 } else { 2000 };
    let mut accs = vec![Acc { key: pool, owner: pid, lamports: rent.minimum_balance(plen), data: vec![0; plen], signer: false }, tk(pmint, mint(COption::Some(signer), rng.below(100)))];
    for i in 0..n { let k = rng.key(); accs.push(tk(k, token(&mints[i], &signer, 5, COption::None, COption::None))); }
    accs.push(Acc { key: signer, owner: Pubkey::default(), lamports: 0, data: vec![], signer: false });
    let close = match rng.below(5) { 0 => COption::Some(signer), 1 => COption::Some(rng.key()), _ => COption::None };
    let dele = if rng.chance(10) { COption::Some(rng.key()) } else { COption::None };
    accs.push(tk(lqd, token(&pmint, &fee_owner::ID, 0, dele, close)));
    if rng.chance(50) { let k = accs.len() - 1; let mut t = Account::unpack(&accs[k].data).unwrap(); t.delegated_amount = 0; Account::pack(t, &mut accs[k].data).unwrap(); }
    let iow = rng.key();
    accs.push(tk(ini, token(&pmint, &iow, 0, COption::None, COption::None)));
    let mut rd = vec![0u8; 17];
    rd[..8].copy_from_slice(&rent.lamports_per_byte_year.to_le_bytes()); rd[8..16].copy_from_slice(&rent.exemption_threshold.to_le_bytes()); rd[16] = rent.burn_percent;
    accs.push(Acc { key: sysvar::rent::ID, owner: sysvar::ID, lamports: 1, data: rd, signer: false });
    let mut damaged = String::new();
    let mut bad_nonce = false;
    if rng.chance(50) {
        let k = rng.below(accs.len() as u64) as usize;
        damaged = format!("account {} ", k);
        let a = &mut accs[k];
        match rng.below(9) {
            0 => { a.key = rng.key(); damaged += "another key" }
            1 => { a.owner = rng.key(); damaged += "another owner" }
            2 => { if a.data.len() == Account::LEN { let mut t = Account::unpack(&a.data).unwrap(); t.mint = rng.key(); Account::pack(t, &mut a.data).unwrap(); damaged += "another mint" } }
            3 => { if a.data.len() == Account::LEN { let mut t = Account::unpack(&a.data).unwrap(); t.owner = rng.key(); Account::pack(t, &mut a.data).unwrap(); damaged += "another token owner" } }
            4 => { if a.data.len() == Mint::LEN { a.data = mint(COption::Some(rng.key()), 0); damaged += "another minter" } }
            5 => { a.lamports = a.lamports.saturating_sub(1); damaged += "one lamport less" }
            6 => { a.data.iter_mut().last().map(|b| *b = 1); damaged += "last byte one" }
            7 => { bad_nonce = true }
            _ => { accs.truncate(k); damaged += "and later missing" }
        }
    }
    spread(&mut accs, &damaged);
    let name = "x".repeat(rng.below(20) as usize);
    let req = InitializePoolRequest { vault_signer_nonce: if bad_nonce { nonce.wrapping_add(1) } else { nonce }, assets_length: n as u8, pool_name: name.clone(), fee_rate: rate, custom_data: vec![7] };
    let before = accs.clone();
    let r = run(&pid, &mut accs, &request(PoolRequestInner::Initialize(req.clone())));
    let say = |w: &str| format!("{} | initialize rate={} assets={} delegate={:?} close={:?} nonce {} damage=[{}] result={:?}", w, rate, n, dele.is_some(), close, if bad_nonce { "wrong" } else { "right" }, damaged, r);
    // reference
    let a = &before;
    let ok = (|| {
        if a.len() < 6 + n { return false; }
        if a[0].owner != pid || a[0].data.iter().any(|b| *b != 0) { return false; }
        let sg = a[2 + n].key;
        if Pubkey::create_program_address(&[a[0].key.as_ref(), &[req.vault_signer_nonce]], &pid) != Ok(sg) { return false; }
        if a[1].owner != spl_token::ID { return false; }
        match Mint::unpack(&a[1].data) { Ok(x) => if x.mint_authority != COption::Some(sg) { return false; }, Err(_) => return false }
        for i in 0..n { match tok(&a[2 + i]) { Some(t) => if t.owner != sg && t.delegate != COption::Some(sg) { return false; }, None => return false } }
        for &p in &[3 + n, 4 + n] { match tok(&a[p]) { Some(t) => if t.mint != a[1].key { return false; }, None => return false } }
        let t = tok(&a[3 + n]).unwrap();
        if t.owner != fee_owner::ID || t.delegate.is_some() { return false; }
        if let COption::Some(c) = t.close_authority { if c != sg { return false; } }
        if a[5 + n].key != sysvar::rent::ID { return false; }
        for p in (0..2 + n).chain(3 + n..5 + n) { if !rent.is_exempt(a[p].lamports, a[p].data.len()) { return false; } }
        rate >= 150 && rate < 1_000_000
    })();
    if !ok { if r.is_ok() { fail("POOLACCT", seed, say("unacceptable initialization accepted")); } return 1; }
    let st = PoolState { tag: Default::default(), pool_token_mint: a[1].key.into(), assets: (0..n).map(|i| AssetInfo { mint: tok(&a[2 + i]).unwrap().mint.into(), vault_address: a[2 + i].key.into() }).collect(),
        vault_signer: a[2 + n].key.into(), vault_signer_nonce: req.vault_signer_nonce, account_params: vec![], name, lqd_fee_vault: a[3 + n].key.into(), initializer_fee_vault: a[4 + n].key.into(), fee_rate: rate, admin_key: None, custom_state: vec![] };
    let enc = borsh(&st);
    if enc.len() > a[0].data.len() { if r.is_ok() { fail("POOLACCT", seed, say("state does not fit")); } return 1; }
    if r.is_err() { if a[5 + n].owner == sysvar::ID && a[5 + n].data.len() == 17 && damaged.find(&format!("account {} ", 5 + n)).is_none() { fail("POOLACCT", seed, say("valid initialization refused")); } return 1; }
    if accs[0].data[..enc.len()] != enc[..] { fail("POOLACCT", seed, say("another state was recorded")); }
    for i in 1..accs.len() { if accs[i] != before[i] { fail("POOLACCT", seed, say("an account changed")); } }
    // a second initialization is refused
    let saved = accs.clone();
    if run(&pid, &mut accs, &request(PoolRequestInner::Initialize(req))).is_ok() || accs != saved { fail("POOLACCT", seed, say("initialized twice")); }
    1
}

/// instructions without the pool tag, malformed ones, and uninitialized pools
fn entry(rng: &mut Rng, seed: u64) -> u64 {
    let pid = rng.key();
    let mut accs = vec![Acc { key: rng.key(), owner: pid, lamports: 1, data: vec![0; 300], signer: false }];
    for _ in 0..12 { accs.push(Acc { key: rng.key(), owner: Pubkey::default(), lamports: 1, data: vec![], signer: true }); }
    let mut d = match rng.below(3) { 0 => request(PoolRequestInner::Execute(PoolAction::Create(5))), 1 => request(PoolRequestInner::GetBasket(PoolAction::Redeem(5))), _ => (0..rng.below(40)).map(|_| rng.next() as u8).collect() };
    match rng.below(3) { 0 => { d.push(0) } 1 => { d.pop(); } _ => {} }
    if run(&pid, &mut accs, &d).is_ok() { fail("POOLACCT", seed, format!("instruction {:?} on an uninitialized pool accepted", d)); }
    1
}

fn owner(rng: &mut Rng, seed: u64) -> u64 {
    let n = rng.below(3);
    let mut b: Vec<u8> = Vec::new();
    let owner = rng.key(); let other = rng.key(); let key = rng.key();
    b.extend_from_slice(&n.to_le_bytes());
    for i in 0..n {
        b.extend_from_slice(&[0xff, (rng.below(2)) as u8, 1, 0, 0, 0, 0, 0]);
        b.extend_from_slice(if i == 0 { key.as_ref() } else { other.as_ref() });
        b.extend_from_slice(if i == 0 { owner.as_ref() } else { other.as_ref() });
        b.extend_from_slice(&rng.below(5).to_le_bytes());
        let dl = rng.below(5) * 8;
        b.extend_from_slice(&dl.to_le_bytes());
        b.resize(b.len() + dl as usize + 10240, 0);
        b.extend_from_slice(&0u64.to_le_bytes());
    }
    let mut inp: Vec<u8> = match rng.below(6) { 0 => other.as_ref().to_vec(), 1 => key.as_ref().to_vec(), 2 => { let mut v = owner.as_ref().to_vec(); let i = rng.below(32) as usize; v[i] ^= 1 << rng.below(8); v }, _ => owner.as_ref().to_vec() };
    match rng.below(6) { 0 => { inp.pop(); } 1 => { inp.push(rng.below(2) as u8) } 2 => { if rng.chance(20) { inp.clear() } } _ => {} }
    let want = n >= 1 && inp == owner.as_ref();
    b.extend_from_slice(&(inp.len() as u64).to_le_bytes());
    b.extend_from_slice(&inp);
    b.extend_from_slice(rng.key().as_ref());
    let mut w = vec![0u64; b.len() / 8 + 2];
    unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), w.as_mut_ptr() as *mut u8, b.len()); }
    let r = panic::catch_unwind(panic::AssertUnwindSafe(|| unsafe { serum_assert_owner::entrypoint(w.as_mut_ptr() as *mut u8) }));
    let ok = match r { Ok(x) => x == 0, Err(_) => false };
    if ok != want { fail("OWNER", seed, format!("{} accounts, owner {}, input {:?}: expected {} got {}", n, owner, inp, want, ok)); }
    1
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a[1].parse().unwrap(); let runs: u64 = a[2].parse().unwrap();
    panic::set_hook(Box::new(|_| {}));
    program_stubs::set_syscall_stubs(Box::new(Stubs));
    let mut rng = Rng(seed);
    let mut tx = 0;
    let what = a.get(3).map(|s| s.as_str()).unwrap_or("");
    for _ in 0..runs {
        tx += if what == "owner" { owner(&mut rng, seed) } else { match rng.below(20) { 0..=11 => execute(&mut rng, seed), 12..=18 => initialize(&mut rng, seed), _ => entry(&mut rng, seed) } };
    }
    println!("OK {} histories, {} transactions", runs, tx);
    let _ = |c: &PoolContext| c.total_pool_tokens();
}
