//! permsim <seed> <runs>: the real permissioned proxy (MarketProxy with OpenOrdersPda, ReferralFees and a probe) on generated
//! requests; the cross-program calls it makes are recorded and compared with a reference computed here from its documentation.
use anchor_lang::prelude::*;
use anchor_lang::solana_program::entrypoint::ProgramResult;
use anchor_lang::solana_program::instruction::Instruction;
use anchor_lang::solana_program::{program_stubs, system_program, sysvar};
use anchor_spl::dex;
use serum_dex::instruction::*;
use serum_dex::matching::{OrderType, Side};
use serum_dex_permissioned::{Context, MarketMiddleware, MarketProxy, OpenOrdersPda, ReferralFees};
use std::cell::RefCell;
use std::num::NonZeroU64;
use std::panic::{self, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::Mutex;

pub struct Rng(pub u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: u64) -> u64 { self.next() % n }
    fn chance(&mut self, p: u64) -> bool { self.below(100) < p }
    fn key(&mut self) -> Pubkey {
        let mut b = [0u8; 32];
        for i in 0..4 { b[i * 8..i * 8 + 8].copy_from_slice(&self.next().to_le_bytes()); }
        Pubkey::new(&b)
    }
    fn amount(&mut self) -> u64 { match self.below(4) { 0 => 1 + self.below(5), 1 => 1 + self.below(100_000), 2 => 1 + self.below(1 << 40), _ => 1 + self.below(1 << 62) } }
}

#[derive(Clone, PartialEq, Debug)]
struct Call { program: Pubkey, data: Vec<u8>, metas: Vec<(Pubkey, bool, bool)>, infos: Vec<Pubkey>, seeds: Vec<Vec<Vec<u8>>> }
static CALLS: Mutex<Vec<Call>> = Mutex::new(Vec::new());
static PROBE: Mutex<Vec<(u8, &'static str)>> = Mutex::new(Vec::new());

struct Stubs;
impl program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {}
    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 { unsafe { *(p as *mut Rent) = Rent::default() }; 0 }
    fn sol_invoke_signed(&self, ins: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        let c = Call { program: ins.program_id, data: ins.data.clone(), metas: ins.accounts.iter().map(|m| (m.pubkey, m.is_signer, m.is_writable)).collect(), infos: infos.iter().map(|i| *i.key).collect(),
            seeds: seeds.iter().map(|s| s.iter().map(|x| x.to_vec()).collect()).collect() };
        if c.program == system_program::ID {
            // the system program hands the account to its new owner
            let (at, owner) = match c.data[0] { 0 => (1, Some(&c.data[20..52])), 1 => (0, Some(&c.data[4..36])), _ => (0, None) };
            if c.data[0] == 0 || c.data[0] == 2 {
                let mut b = [0u8; 8]; b.copy_from_slice(&c.data[4..12]); let x = u64::from_le_bytes(b);
                for (j, add) in [(0usize, false), (1, true)].iter() {
                    if let Some(i) = infos.iter().find(|i| i.key == &c.metas[*j].0) { let mut l = i.lamports.borrow_mut(); **l = if *add { **l + x } else { **l - x }; }
                }
            }
            if let (Some(o), Some(i)) = (owner, infos.iter().find(|i| i.key == &c.metas[at].0)) {
                unsafe { std::ptr::write_volatile(i.owner as *const Pubkey as *mut Pubkey, Pubkey::new(o)) }
            }
        }
        CALLS.lock().unwrap().push(c);
        Ok(())
    }
}

/// the same call; the accounts made available to it may come in any order
fn same(g: &Call, w: &Call) -> bool { g.program == w.program && g.data == w.data && g.metas == w.metas && g.seeds == w.seeds && w.infos.iter().all(|k| g.infos.contains(k)) }

/// a middleware that only records that it was called
struct Probe(u8);
impl Probe { fn hit(&self, s: &'static str) -> ProgramResult { PROBE.lock().unwrap().push((self.0, s)); Ok(()) } }
impl MarketMiddleware for Probe {
    fn instruction(&mut self, _d: &mut &[u8]) -> ProgramResult { self.hit("instruction") }
    fn init_open_orders(&self, _c: &mut Context) -> ProgramResult { self.hit("init") }
    fn new_order_v3(&self, _c: &mut Context, _i: &mut NewOrderInstructionV3) -> ProgramResult { self.hit("new") }
    fn cancel_order_v2(&self, _c: &mut Context, _i: &mut CancelOrderInstructionV2) -> ProgramResult { self.hit("cancel") }
    fn cancel_order_by_client_id_v2(&self, _c: &mut Context, _i: &mut u64) -> ProgramResult { self.hit("cid") }
    fn settle_funds(&self, _c: &mut Context) -> ProgramResult { self.hit("settle") }
    fn close_open_orders(&self, _c: &mut Context) -> ProgramResult { self.hit("close") }
    fn consume_events(&self, _c: &mut Context, _l: &mut u16) -> ProgramResult { self.hit("consume") }
    fn consume_events_permissioned(&self, _c: &mut Context, _l: &mut u16) -> ProgramResult { self.hit("consumep") }
    fn prune(&self, _c: &mut Context, _l: &mut u16) -> ProgramResult { self.hit("prune") }
    fn fallback(&self, _c: &mut Context) -> ProgramResult { self.hit("fallback") }
}

#[derive(Clone)]
struct Acc { key: Pubkey, signer: bool, writable: bool, lamports: u64, data: Vec<u8>, owner: Pubkey }

fn seeds_of(dexid: &Pubkey, market: &Pubkey, user: &Pubkey, bump: u8) -> Vec<Vec<u8>> {
    vec![b"open-orders".to_vec(), dexid.to_bytes().to_vec(), market.to_bytes().to_vec(), user.to_bytes().to_vec(), vec![bump]]
}
fn pda(prog: &Pubkey, market: &Pubkey, user: &Pubkey) -> (Pubkey, u8) {
    Pubkey::find_program_address(&[b"open-orders", dex::ID.as_ref(), market.as_ref(), user.as_ref()], prog)
}
fn nz(r: &mut Rng) -> NonZeroU64 { NonZeroU64::new(r.amount()).unwrap() }

fn order(r: &mut Rng) -> NewOrderInstructionV3 {
    NewOrderInstructionV3 { side: if r.chance(50) { Side::Bid } else { Side::Ask }, limit_price: nz(r), max_coin_qty: nz(r), max_native_pc_qty_including_fees: nz(r),
        self_trade_behavior: match r.below(3) { 0 => SelfTradeBehavior::DecrementTake, 1 => SelfTradeBehavior::CancelProvide, _ => SelfTradeBehavior::AbortTransaction },
        order_type: match r.below(3) { 0 => OrderType::Limit, 1 => OrderType::ImmediateOrCancel, _ => OrderType::PostOnly }, client_order_id: r.next(), limit: r.below(65536) as u16, max_ts: r.next() as i64 & i64::MAX }
}

fn meta(a: &Acc) -> (Pubkey, bool, bool) { (a.key, a.signer, a.writable) }

fn one(r: &mut Rng, seed: u64) {
    let prog = r.key();
    let referral = r.key();
    // instruction, accounts it takes, (market, user, open orders, owner) positions
    let kind = r.below(12);
    let lim = r.below(65536) as u16;
    let (ix, name, need): (MarketInstruction, &'static str, usize) = match kind {
        0 | 1 | 10 => (MarketInstruction::NewOrderV3(order(r)), "new", 12),
        2 => (MarketInstruction::CancelOrderV2(CancelOrderInstructionV2 { side: if r.chance(50) { Side::Bid } else { Side::Ask }, order_id: (r.next() as u128) << 64 | r.next() as u128 }), "cancel", 6),
        3 => (MarketInstruction::CancelOrderByClientIdV2(r.next()), "cid", 6),
        4 | 11 => (MarketInstruction::SettleFunds, "settle", 10),
        5 => (MarketInstruction::CloseOpenOrders, "close", 4),
        6 => (MarketInstruction::Prune(lim), "prune", 7),
        7 => if r.chance(50) { (MarketInstruction::ConsumeEvents(lim), "consume", 4) } else { (MarketInstruction::ConsumeEventsPermissioned(lim), "consumep", 3) },
        8 => (MarketInstruction::InitOpenOrders, "init", 7),
        _ => match r.below(3) { 0 => (MarketInstruction::SweepFees, "fallback", 0), 1 => (MarketInstruction::DisableMarket, "fallback", 0), _ => (MarketInstruction::MatchOrders(lim), "fallback", 0) },
    };
    let pos: Option<(usize, usize, usize)> = match name { "new" => Some((0, 7, 1)), "cancel" | "cid" => Some((0, 4, 3)), "settle" => Some((0, 2, 1)), "close" => Some((3, 1, 0)), "init" => Some((4, 3, 2)), _ => None };
    let n = need + r.below(4) as usize;
    let n = if name == "init" { n.max(7) } else { n };
    let short = name != "init" && name != "fallback" && r.chance(4);
    let n = if short { r.below(need as u64) as usize } else { n };
    let mut accs: Vec<Acc> = (0..n).map(|_| Acc { key: r.key(), signer: r.chance(20), writable: r.chance(60), lamports: r.below(1 << 40), data: vec![0; 8], owner: r.key() }).collect();
    let mut bad = short;
    let mut unsigned = false;
    if let Some((_, u, _)) = pos { if u < n { accs[u].signer = r.chance(85); unsigned = !accs[u].signer; } }
    if unsigned { bad = true; }
    let lot = r.amount() >> if r.chance(80) { 30 } else { 0 };
    let lot = lot.max(1);
    if name == "new" && n > 0 { accs[0].data = (0..400).map(|_| r.next() as u8).collect(); accs[0].data[349..357].copy_from_slice(&lot.to_le_bytes()); }
    if name == "settle" && n > 9 {
        let mut d: Vec<u8> = (0..165).map(|_| r.next() as u8).collect();
        let right = r.chance(85);
        let k = if right { referral } else { let mut k = referral.to_bytes(); let j = r.below(32) as usize; k[j] ^= 1 << r.below(8); Pubkey::new(&k) };
        d[32..64].copy_from_slice(k.as_ref());
        accs[9].data = d;
        if !right { bad = true; }
    }
    let dexok = r.chance(94);
    if !dexok { bad = true; }
    let dexacc = Acc { key: if dexok { dex::ID } else { r.key() }, signer: false, writable: false, lamports: 1, data: vec![], owner: system_program::ID };
    let mut data = vec![];
    let mut bumps = (0u8, 0u8);
    if name == "init" {
        accs[0].key = dex::ID; accs[1].key = system_program::ID; accs[5].key = sysvar::rent::ID; accs[5].owner = sysvar::ID; accs[5].data = bincode_rent();
        let (p, b) = pda(&prog, &accs[4].key, &accs[3].key);
        let (q, c) = Pubkey::find_program_address(&[b"open-orders-init", dex::ID.as_ref(), accs[4].key.as_ref()], &prog);
        accs[2].key = p; accs[6].key = q; bumps = (b, c);
        accs[2].lamports = if r.chance(80) { 0 } else { 5 };
        accs[2].writable = true; accs[2].owner = system_program::ID; accs[2].data = vec![];
        accs[3].lamports = 1 << 50; accs[3].writable = true;
        if r.chance(40) {
            match r.below(6) { 0 => accs[2].key = r.key(), 1 => accs[6].key = r.key(), 2 => bumps.0 = b.wrapping_sub(1), 3 => bumps.1 = c.wrapping_sub(1), 4 => accs[1].key = r.key(), _ => accs[0].key = r.key() }
            bad = true;
        }
        data.push(0); data.push(bumps.0); data.push(bumps.1);
    } else { data.push(1 + r.below(255) as u8); }
    data.extend_from_slice(&ix.pack());
    // ---- expectation
    let mut want: Vec<Call> = vec![];
    let mut exp = accs.clone();
    let mut sd: Vec<Vec<Vec<u8>>> = vec![];
    let mut overflow = false;
    if !bad && name != "fallback" {
        if let Some((m, u, o)) = pos {
            let (mk, uk) = (accs[m].key, accs[u].key);
            sd.push(seeds_of(&dex::ID, &mk, &uk, if name == "init" { bumps.0 } else { pda(&prog, &mk, &uk).1 }));
            exp[u] = accs[o].clone(); exp[u].signer = true;
            if name == "init" {
                sd.push(vec![b"open-orders-init".to_vec(), dex::ID.to_bytes().to_vec(), mk.to_bytes().to_vec(), vec![bumps.1]]);
                exp = exp[2..].to_vec(); exp[4].signer = true;
            }
        }
        if name == "prune" { exp[5] = exp[4].clone(); }
    }
    let relay = Call { program: dex::ID, data: ix.pack(), metas: exp.iter().map(meta).collect(), infos: exp.iter().map(|a| a.key).collect(), seeds: sd };
    if !bad {
        if let MarketInstruction::NewOrderV3(o) = &ix {
            let amount = match o.side { Side::Bid => Some(o.max_native_pc_qty_including_fees.get()), Side::Ask => o.max_coin_qty.get().checked_mul(lot) };
            match amount {
                None => overflow = true,
                Some(x) => {
                    let i = spl_token::instruction::approve(&spl_token::ID, &accs[6].key, &accs[1].key, &accs[7].key, &[], x).unwrap();
                    let j = spl_token::instruction::revoke(&spl_token::ID, &accs[6].key, &accs[7].key, &[]).unwrap();
                    let mk = |i: Instruction, infos: Vec<Pubkey>| Call { program: i.program_id, data: i.data, metas: i.accounts.iter().map(|m| (m.pubkey, m.is_signer, m.is_writable)).collect(), infos, seeds: vec![] };
                    want = vec![mk(i, vec![accs[6].key, accs[1].key, accs[7].key]), relay.clone(), mk(j, vec![accs[6].key, accs[7].key])];
                }
            }
        } else if name != "fallback" { want = vec![relay.clone()]; }
    }
    if overflow { bad = true; }
    // ---- the real proxy
    CALLS.lock().unwrap().clear(); PROBE.lock().unwrap().clear();
    let mut all = vec![dexacc]; all.extend(accs.iter().cloned());
    let mut store = all.clone();
    let res = {
        let infos: Vec<AccountInfo> = store.iter_mut().map(|a| AccountInfo { key: &a.key, is_signer: a.signer, is_writable: a.writable, lamports: Rc::new(RefCell::new(&mut a.lamports)), data: Rc::new(RefCell::new(&mut a.data[..])), owner: &a.owner, executable: false, rent_epoch: 0 }).collect();
        let mut p = OpenOrdersPda::new(); let mut f = ReferralFees::new(referral); let mut a = Probe(0); let mut b = Probe(1);
        panic::catch_unwind(AssertUnwindSafe(|| MarketProxy::new().middleware(&mut a).middleware(&mut p).middleware(&mut f).middleware(&mut b).run(&prog, &infos, &data)))
    };
    let ok = matches!(res, Ok(Ok(())));
    let got = CALLS.lock().unwrap().clone();
    let probe = PROBE.lock().unwrap().clone();
    let desc = format!("{} accounts={} unsigned={} short={} dexok={} lot={} ix={:?} result={:?}", name, n, unsigned, short, dexok, lot, ix, res.map_err(|_| "panic"));
    let fail = |what: &str| { println!("MISMATCH seed {}\nCAT PERM {} | {}", seed, what, desc); std::process::exit(1); };
    if bad && ok { fail("a request that must be refused was relayed"); }
    if !bad && !ok { fail("a proper request was refused"); }
    if ok {
        let sys: Vec<&Call> = got.iter().filter(|c| c.program == system_program::ID).collect();
        let rest: Vec<Call> = got.iter().filter(|c| c.program != system_program::ID).cloned().collect();
        if rest.len() != want.len() || rest.iter().zip(want.iter()).any(|(g, w)| !same(g, w)) { fail(&format!("calls differ: got {:?} want {:?}", rest, want).chars().take(1500).collect::<String>()); }
        if name == "init" {
            if sys.is_empty() || sys.iter().any(|c| c.seeds.iter().any(|s| s != &relay.seeds[0])) { fail("the open-orders account is not created for the derived address"); }
            if !same(got.last().unwrap(), want.last().unwrap()) { fail("the relay does not come last"); }
            if accs[2].lamports == 0 {
                let c = sys[0]; let d = &c.data;
                if sys.len() != 1 || c.metas.len() != 2 || c.metas[0].0 != accs[3].key || c.metas[1].0 != accs[2].key || d.len() != 52 || d[12..20] != ((std::mem::size_of::<serum_dex::state::OpenOrders>() + 12) as u64).to_le_bytes() || d[20..52] != dex::ID.to_bytes() { fail("the open-orders account is created differently"); }
            }
        } else if !sys.is_empty() { fail("unexpected system call"); }
        let w: Vec<(u8, &'static str)> = vec![(0, "instruction"), (1, "instruction"), (0, name), (1, name)];
        if probe != w { fail(&format!("middlewares called {:?}", probe)); }
    }
}

fn bincode_rent() -> Vec<u8> {
    let r = Rent::default();
    let mut v = r.lamports_per_byte_year.to_le_bytes().to_vec(); v.extend_from_slice(&r.exemption_threshold.to_le_bytes()); v.push(r.burn_percent); v
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a[1].parse().unwrap(); let runs: u64 = a[2].parse().unwrap();
    panic::set_hook(Box::new(|_| {}));
    program_stubs::set_syscall_stubs(Box::new(Stubs));
    let mut r = Rng(seed);
    for _ in 0..runs { one(&mut r, seed); }
    println!("OK {} histories, {} transactions", runs, runs);
}
