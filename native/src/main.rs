//! dexsim <seed> <runs> <steps>: random histories through State::process, compared with the reference model after every transaction.
#![allow(dead_code)]
mod model;
mod parts;
mod world;
use model::*;
use serum_dex::instruction::{disable_authority, fee_sweeper, msrm_token, srm_token};
use solana_program::pubkey::Pubkey;
use std::collections::BTreeSet;
use world::*;

#[derive(Clone)]
struct User { own: usize, cw: usize, pw: usize, oo: usize, srm: Option<usize>, tier: u8 }
struct Sim { w: World, ids: Ids, other: Ids, us: Vec<User>, rng: Rng, log: Vec<String>, sweeper: usize, disabler: usize, recv: usize, tokprog: usize, rent: usize, dests: Vec<usize>, junk: Vec<usize>, full: u8 }

fn le<T: AsRef<[u8]>>(v: &mut Vec<u8>, x: T) { v.extend_from_slice(x.as_ref()); }
fn ins(d: u32) -> Vec<u8> { let mut v = vec![0u8]; le(&mut v, d.to_le_bytes()); v }

fn mk_market(w: &mut World, rng: &mut Rng, cmint: usize, pmint: usize, kind: u8, coin_lot: u64, pc_lot: u64, stable: bool, auths: (usize, usize, usize), errs: &mut BTreeSet<String>) -> Ids {
    let mkey: Pubkey = if stable { std::str::FromStr::from_str("77quYg4MGneUdjgXCunt9GgM1usmrxKY31twEy3WHwcS").unwrap() } else { rng.key() };
    let mut nonce = 0u64;
    let signer = loop { if let Ok(k) = Pubkey::create_program_address(&[mkey.as_ref(), &nonce.to_le_bytes()], &w.pid) { break k; } nonce += 1; };
    let msize = if kind == 0 { 376 } else { 376 + 96 + 992 };
    let market = w.dex(mkey, msize);
    let slab_nodes = 201 + rng.below(6) as usize;
    let evcap = 128 + rng.below(40) as usize;
    let k = rng.key(); let reqq = w.dex(k, 640);
    let k = rng.key(); let evq = w.dex(k, 32 + 88 * evcap + 8 * rng.below(11) as usize);
    let sl = 8 + 32 + 72 * slab_nodes + 8 * rng.below(9) as usize;
    let k = rng.key(); let bids = w.dex(k, sl);
    let k = rng.key(); let asks = w.dex(k, sl);
    let (cm, pm) = (w.a[cmint].key, w.a[pmint].key);
    let k = rng.key(); let cvault = w.token(k, cm, signer, 0);
    let k = rng.key(); let pvault = w.token(k, pm, signer, 0);
    let signer = w.plain(signer);
    let k = rng.key(); let rent = w.plain(k);
    let mut d = ins(0);
    let bps = rng.below(100) as u16; let dust = rng.below(1000);
    le(&mut d, coin_lot.to_le_bytes()); le(&mut d, pc_lot.to_le_bytes()); le(&mut d, bps.to_le_bytes()); le(&mut d, nonce.to_le_bytes()); le(&mut d, dust.to_le_bytes());
    let mut metas: Vec<Meta> = [market, reqq, evq, bids, asks, cvault, pvault, cmint, pmint, rent].iter().map(|&i| (i, false)).collect();
    if kind >= 1 { metas.push((auths.0, false)); metas.push((auths.1, false)); }
    if kind == 2 { metas.push((auths.2, false)); }
    if let Err(e) = w.exec(&d, &metas) { errs.insert(format!("RESULT init_market failed: {}", e)); }
    let ids = Ids { market, reqq, evq, bids, asks, cvault, pvault, cmint, pmint, signer, coin_lot, pc_lot, kind, oo_auth: auths.0, prune_auth: auths.1, crank_auth: auths.2, oos: vec![], tokens: vec![], slab_nodes, evcap, stable };
    // initial contents
    let m = &w.a[market];
    let key = |i: usize| w.a[i].key;
    let mut chk = |n: &str, ok: bool| { if !ok { errs.insert(format!("INIT market {}", n)); } };
    chk("padding", &m.data()[..5] == b"serum" && &m.data()[m.len - 7..] == b"padding");
    chk("flags", m.u64(5) == [3u64, 3 + 512, 3 + 512 + 1024][kind as usize]);
    for (n, o, v) in [("address", 1, key(market)), ("coin mint", 6, key(cmint)), ("pc mint", 10, key(pmint)), ("coin vault", 14, key(cvault)), ("pc vault", 20, key(pvault)), ("req q", 27, key(reqq)), ("event q", 31, key(evq)), ("bids", 35, key(bids)), ("asks", 39, key(asks))].iter() { chk(n, m.key_at(5 + o * 8) == *v); }
    for (n, o, v) in [("nonce", 5, nonce), ("coin deposits", 18, 0), ("coin fees", 19, 0), ("pc deposits", 24, 0), ("pc fees", 25, 0), ("dust", 26, dust), ("coin lot", 43, coin_lot), ("pc lot", 44, pc_lot), ("fee bps", 45, bps as u64), ("rebates", 46, 0)].iter() { chk(n, m.u64(5 + o * 8) == *v); }
    if kind >= 1 { chk("oo authority", m.key_at(5 + 376) == key(auths.0)); chk("prune authority", m.key_at(5 + 408) == key(auths.1)); chk("crank authority", m.key_at(5 + 440) == if kind == 2 { key(auths.2) } else { Pubkey::default() }); }
    ids
}

impl Sim {
    fn new(seed: u64, errs: &mut BTreeSet<String>) -> Sim {
        let mut rng = Rng(seed);
        let mut w = World::new(&mut rng);
        let k = rng.key(); let cmint = w.mint(k);
        let k = rng.key(); let pmint = w.mint(k);
        let kind = rng.pick(&[0u8, 0, 0, 1, 2]);
        let k = rng.key(); let a0 = w.plain(k);
        let k = rng.key(); let a1 = w.plain(k);
        let k = rng.key(); let a2 = w.plain(k);
        let lots = [1u64, 1, 3, 10, 100, 1000, 999];
        let (cl, pl) = (rng.pick(&lots), rng.pick(&lots));
        let stable = rng.chance(10);
        let mut ids = mk_market(&mut w, &mut rng, cmint, pmint, kind, cl, pl, stable, (a0, a1, a2), errs);
        let other = mk_market(&mut w, &mut rng, cmint, pmint, kind, cl, pl, false, (a0, a1, a2), errs);
        let tokprog = w.add(spl_token::ID, solana_program::bpf_loader::ID, 0, 0);
        let k = rng.key(); let rent = w.plain(k);
        let sweeper = w.plain(fee_sweeper::ID);
        let disabler = w.plain(disable_authority::ID);
        let (cm, pm) = (w.a[cmint].key, w.a[pmint].key);
        let k = rng.key(); let r2 = rng.key(); let recv = w.token(k, pm, r2, 0);
        let mut us = vec![];
        for _ in 0..rng.range(2, 5) {
            let k = rng.key(); let own = w.plain(k); let ok = w.a[own].key;
            let amt = if rng.chance(15) { rng.below(5000) } else { 1 << 50 };
            let k = rng.key(); let cw = w.token(k, cm, ok, amt);
            let k = rng.key(); let pw = w.token(k, pm, ok, amt);
            let k = rng.key(); let oo = w.dex(k, 3216);
            let (mut srm, mut t) = (None, tier(stable, 0, 0));
            if rng.chance(60) {
                let ms = rng.chance(25);
                let b = if ms { rng.below(2) } else { let s = rng.pick(&[0u64, 99, 100, 999, 1000, 10_000, 99_999, 100_000, 1_000_000, 5_000_000]) * 1_000_000; if s > 0 && rng.chance(30) { s - 1 } else { s } };
                let k = rng.key(); srm = Some(w.token(k, if ms { msrm_token::ID } else { srm_token::ID }, ok, b));
                t = if ms { tier(stable, 0, b) } else { tier(stable, b, 0) };
            }
            us.push(User { own, cw, pw, oo, srm, tier: t });
            ids.oos.push(oo);
            ids.tokens.push(cw); ids.tokens.push(pw);
        }
        ids.tokens.push(ids.cvault); ids.tokens.push(ids.pvault); ids.tokens.push(recv);
        let k = rng.key(); let d0 = w.plain(k);
        let k = rng.key(); let junk_dex = w.dex(k, 8192);
        let k = rng.key(); let j1 = w.plain(k);
        let mut junk = vec![junk_dex, j1];
        // copies with the wrong owner
        for i in [ids.market, ids.evq, ids.reqq, ids.bids, ids.asks, us[0].oo, ids.cvault, ids.pvault].iter() { let mut c = w.a[*i].clone(); c.owner = w.a[j1].key; c.key = rng.key(); w.a.push(c); junk.push(w.a.len() - 1); }
        let full = if rng.chance(12) { rng.range(1, 2) as u8 } else { 0 };
        Sim { full, w, ids, other, us, rng, log: vec![], sweeper, disabler, recv, tokprog, rent, dests: vec![d0], junk }
    }

    fn order(&mut self, u: &User, s: &Snap) -> (Req, i64) {
        let bid = self.rng.chance(50);
        let mid = 10;
        let price = if self.rng.chance(4) { self.rng.range(1, 1 << 20) } else { self.rng.range(1, 2 * mid) };
        let coin = if self.rng.chance(10) { self.rng.range(1, 5000) } else { self.rng.range(1, 40) };
        // histories that fill one side of the book
        let stack = self.full > 0 && self.rng.chance(93);
        let (bid, price, coin) = if stack { (self.full == 1, price % 20 + if self.full == 1 { 1 } else { 30 }, coin % 40 + 1) } else { (bid, price, coin) };
        let full = coin as u128 * price as u128 * self.ids.pc_lot as u128;
        let pc = (match self.rng.below(5) { 0 => full + taker_fee(u.tier, full), 1 => full, 2 => full + full / 50 + 5, 3 => self.rng.range(1, full.min(1 << 40) as u64 + 2) as u128, _ => full * 3 + self.rng.below(1000) as u128 } as u64).max(1);
        let limit = if self.rng.chance(15) { self.rng.below(3) as u16 } else { self.rng.range(1, 60) as u16 };
        let cid = if self.rng.chance(25) { 0 } else { self.rng.range(1, 12) };
        let _ = s;
        if stack { return (Req { bid, price, coin, pc: full as u64 + self.rng.below(3), stb: 0, ty: 0, cid, limit, id: 0, owner: Pubkey::default(), slot: 0, tier: u.tier, send: false }, i64::MAX); }
        let ts = if self.rng.chance(90) { i64::MAX } else { 1_650_000_000 + self.rng.below(3) as i64 - 1 };
        (Req { bid, price, coin, pc, stb: self.rng.below(3) as u8, ty: self.rng.pick(&[0u8, 0, 0, 1, 2]), cid, limit, id: 0, owner: Pubkey::default(), slot: 0, tier: u.tier, send: false }, ts)
    }
    fn enc(&self, r: &Req, ts: i64, short: bool) -> Vec<u8> {
        let mut d = vec![];
        le(&mut d, (!r.bid as u32).to_le_bytes()); le(&mut d, r.price.to_le_bytes()); le(&mut d, r.coin.to_le_bytes()); le(&mut d, r.pc.to_le_bytes());
        le(&mut d, (r.stb as u32).to_le_bytes()); le(&mut d, (r.ty as u32).to_le_bytes()); le(&mut d, r.cid.to_le_bytes()); le(&mut d, r.limit.to_le_bytes());
        if !short { le(&mut d, ts.to_le_bytes()); }
        d
    }
    /// open orders account usable by this user, initialising it where the instruction may
    fn oo_ready(&self, s: &mut Snap, u: &User, may_init: bool) -> Result<(), &'static str> {
        let mk = self.w.a[self.ids.market].key;
        let ok = self.w.a[u.own].key;
        let oo = s.oos.get_mut(&u.oo).unwrap();
        if oo.flags == 0 {
            if !may_init { return Err("not initialised"); }
            *oo = Oo { flags: 5, market: mk, owner: ok, cf: 0, ct: 0, pf: 0, pt: 0, slots: Default::default(), reb: 0 };
        }
        if oo.flags != 5 || oo.owner != ok || oo.market != mk { return Err("wrong orders account"); }
        Ok(())
    }

    /// runs one random transaction; returns the differences found
    fn step(&mut self, errs: &mut BTreeSet<String>) {
        let before = view(&self.w, &self.ids, errs);
        let b_other: Vec<Vec<u8>> = [self.other.market, self.other.evq, self.other.bids, self.other.asks, self.other.reqq, self.other.cvault, self.other.pvault].iter().map(|&i| self.w.a[i].data().to_vec()).collect();
        let mut s = before.clone();
        let ids = self.ids.clone();
        let ui = self.rng.below(self.us.len() as u64) as usize;
        let u = self.us[ui].clone();
        let ookey = self.w.a[u.oo].key;
        let dis = s.mk.flags & 128 != 0;
        let mkey = self.w.a[ids.market].key;
        CTX.lock().unwrap().0 = 1_650_000_000;
        // (name, data, metas, model result, positions where a foreign account or a missing signature must be refused)
        let name: String;
        let mut data;
        let mut metas: Vec<Meta>;
        let mut strict: Vec<usize>;
        let want: Result<(), &'static str>;
        let mut x = self.rng.below(1000);
        let fresh = s.oos[&u.oo].flags == 0;
        if ids.kind > 0 && fresh && self.rng.chance(70) { x = 950; }
        if self.full > 0 && (x >= 480 && x < 680 || x >= 975) && self.rng.chance(85) { x = 100; }
        if x >= 997 && self.rng.chance(75) { x = 100; }
        let fee_acc: Option<usize> = u.srm;
        if x < 480 {
            let (r, ts) = self.order(&u, &s);
            let rep = self.rng.chance(12);
            let multi = rep && self.rng.chance(50);
            let mut rs = vec![(r, ts)];
            if multi { for _ in 0..self.rng.below(3) { let o = self.order(&u, &s); rs.push(o); } }
            let bid = rs[0].0.bid;
            for q in rs.iter_mut() { q.0.bid = bid; }
            let foreign = self.rng.chance(4);
            let pu = if foreign { self.us[self.rng.below(self.us.len() as u64) as usize].clone() } else { u.clone() };
            let payer = if bid { pu.pw } else { pu.cw };
            let auth = pu.own == u.own;
            metas = vec![(ids.market, false), (u.oo, false), (ids.reqq, false), (ids.evq, false), (ids.bids, false), (ids.asks, false), (payer, false), (u.own, true), (ids.cvault, false), (ids.pvault, false), (self.tokprog, false), (self.rent, false)];
            let mut nofee = true;
            if let Some(f) = fee_acc { if self.rng.chance(80) { metas.push((f, false)); nofee = false; } }
            if nofee { for q in rs.iter_mut() { q.0.tier = tier(ids.stable, 0, 0); } }
            strict = if fresh { vec![0, 2, 3, 4, 5, 8, 9, 10] } else { vec![0, 1, 2, 3, 4, 5, 7, 8, 9, 10] };
            if !rep {
                let short = rs[0].1 == i64::MAX && self.rng.chance(30);
                data = ins(10); let e = self.enc(&rs[0].0, rs[0].1, short); le(&mut data, e);
            } else if !multi { data = ins(19); let e = self.enc(&rs[0].0, rs[0].1, false); le(&mut data, e); }
            else { data = ins(20); le(&mut data, (rs.len() as u64).to_le_bytes()); for q in rs.iter() { let e = self.enc(&q.0, q.1, false); le(&mut data, e); } }
            name = format!("{} {:?} payer={} srm={}", if rep { "replace" } else { "new_order" }, rs, payer, !nofee);
            want = (|| {
                if rep { self.oo_ready(&mut s, &u, false)?; let c: Vec<u64> = rs.iter().map(|q| q.0.cid).collect(); s.cancel_cids(&ids, u.oo, ookey, &c)?; }
                for (r, ts) in rs.iter() {
                    if dis { return Err("disabled"); }
                    self.oo_ready(&mut s, &u, ids.kind == 0)?;
                    if *ts < 1_650_000_000 { return Err("too late"); }
                    s.new_order(&ids, u.oo, ookey, r, payer, auth)?;
                }
                Ok(())
            })();
        } else if x < 560 {
            let (mut r, _) = self.order(&u, &s);
            r.send = true; r.ty = 1; r.stb = 2; r.cid = 0;
            let (mc, mp) = if self.rng.chance(70) { (0, 0) } else { (self.rng.below(20), self.rng.below(200 * ids.pc_lot)) };
            let foreign = self.rng.chance(5);
            let pu = if foreign { self.us[self.rng.below(self.us.len() as u64) as usize].clone() } else { u.clone() };
            metas = vec![(ids.market, false), (ids.reqq, false), (ids.evq, false), (ids.bids, false), (ids.asks, false), (pu.cw, false), (pu.pw, false), (u.own, true), (ids.cvault, false), (ids.pvault, false), (self.tokprog, false), (ids.signer, false)];
            let mut nofee = true;
            if let Some(f) = fee_acc { if self.rng.chance(80) { metas.push((f, false)); nofee = false; } }
            if nofee { r.tier = tier(ids.stable, 0, 0); }
            strict = vec![0, 1, 2, 3, 4, 7, 8, 9, 10, 11];
            data = ins(13);
            le(&mut data, (!r.bid as u32).to_le_bytes()); le(&mut data, r.price.to_le_bytes()); le(&mut data, r.coin.to_le_bytes()); le(&mut data, r.pc.to_le_bytes()); le(&mut data, mc.to_le_bytes()); le(&mut data, mp.to_le_bytes()); le(&mut data, r.limit.to_le_bytes());
            name = format!("send_take {:?} min {} {}", r, mc, mp);
            let auth = pu.own == u.own;
            want = if dis { Err("disabled") } else { s.send_take(&ids, &r, mc, mp, pu.cw, pu.pw, auth, auth) };
        } else if x < 680 {
            metas = vec![(ids.market, false), (ids.bids, false), (ids.asks, false), (u.oo, false), (u.own, true), (ids.evq, false)];
            strict = vec![0, 1, 2, 3, 4, 5];
            let slots: Vec<(bool, u128, u64)> = s.oos[&u.oo].slots.values().cloned().collect();
            match self.rng.below(3) {
                0 => {
                    let (b, id) = if !slots.is_empty() && self.rng.chance(85) { let q = self.rng.pick(&slots); (if self.rng.chance(5) { !q.0 } else { q.0 }, q.1) } else {
                        let b = self.rng.chance(50); let bk = if b { &s.bids } else { &s.asks }; let ks: Vec<u128> = bk.keys().cloned().collect(); (b, if ks.is_empty() { 77u128 } else { self.rng.pick(&ks) }) };
                    data = ins(11); le(&mut data, (!b as u32).to_le_bytes()); le(&mut data, id.to_le_bytes());
                    name = format!("cancel bid={} id={:#x}", b, id);
                    want = self.oo_ready(&mut s, &u, false).and_then(|_| s.cancel(&ids, u.oo, ookey, b, id));
                }
                1 => {
                    let cid = if !slots.is_empty() && self.rng.chance(80) { self.rng.pick(&slots).2 } else { self.rng.below(13) };
                    data = ins(12); le(&mut data, cid.to_le_bytes());
                    name = format!("cancel_by_cid {}", cid);
                    want = (|| { if cid == 0 { return Err("zero"); } self.oo_ready(&mut s, &u, false)?; let (b, id, _) = *s.oos[&u.oo].slots.values().find(|q| q.2 == cid).ok_or("no such client id")?; s.cancel(&ids, u.oo, ookey, b, id) })();
                }
                _ => {
                    let cids: Vec<u64> = (0..self.rng.below(9)).map(|_| self.rng.below(13)).collect();
                    data = ins(18); for c in cids.iter() { le(&mut data, c.to_le_bytes()); }
                    name = format!("cancel_by_cids {:?}", cids);
                    want = self.oo_ready(&mut s, &u, false).and_then(|_| s.cancel_cids(&ids, u.oo, ookey, &cids));
                }
            }
        } else if x < 850 {
            let perm = if ids.kind == 2 { self.rng.chance(90) } else { self.rng.chance(3) };
            let mut g: Vec<(usize, Pubkey)> = self.us.iter().map(|q| (q.oo, self.w.a[q.oo].key)).collect();
            if self.rng.chance(15) { let i = self.rng.below(g.len() as u64) as usize; g.remove(i); }
            g.sort_by_key(|q| { let b = q.1.to_bytes(); let mut k = [0u64; 4]; for i in 0..4 { let mut t = [0u8; 8]; t.copy_from_slice(&b[i * 8..i * 8 + 8]); k[i] = u64::from_le_bytes(t); } k });
            let limit = if self.rng.chance(50) { 1000 } else { self.rng.below(6) as u16 };
            metas = g.iter().map(|q| (q.0, false)).collect();
            let n = metas.len();
            metas.push((ids.market, false)); metas.push((ids.evq, false));
            strict = vec![n, n + 1];
            if perm { metas.push((ids.crank_auth, true)); strict.push(n + 2); data = ins(17); } else { metas.push((self.rent, false)); metas.push((self.rent, false)); data = ins(3); }
            le(&mut data, limit.to_le_bytes());
            name = format!("consume perm={} n={} limit={}", perm, n, limit);
            want = if perm != (ids.kind == 2) || metas.len() < if perm { 4 } else { 5 } { Err("permission") } else { s.consume(&g, limit, mkey) };
        } else if x < 910 {
            metas = vec![(ids.market, false), (u.oo, false), (u.own, true), (ids.cvault, false), (ids.pvault, false), (u.cw, false), (u.pw, false), (ids.signer, false), (self.tokprog, false)];
            strict = vec![0, 1, 2, 3, 4, 7, 8];
            let rf = if self.rng.chance(50) { Some(self.rng.pick(&[self.recv, self.us[0].pw])) } else { None };
            if let Some(r) = rf { metas.push((r, false)); }
            data = ins(5);
            name = format!("settle user {} referrer {:?}", ui, rf);
            want = (|| {
                self.oo_ready(&mut s, &u, false)?;
                let oo = s.oos.get_mut(&u.oo).unwrap();
                let (cf, pf, rb) = (oo.cf, oo.pf, oo.reb);
                oo.cf = 0; oo.pf = 0; oo.reb = 0; oo.ct -= cf; oo.pt -= pf;
                s.mk.cdep -= cf; s.mk.pdep -= pf; s.mk.reb -= rb;
                s.transfer(ids.cvault, u.cw, cf)?; s.transfer(ids.pvault, u.pw, pf)?;
                match rf { Some(r) if rb > 0 => s.transfer(ids.pvault, r, rb)?, _ => s.mk.fees += rb }
                Ok(())
            })();
        } else if x < 935 {
            metas = vec![(ids.market, false), (ids.pvault, false), (self.sweeper, true), (self.recv, false), (ids.signer, false), (self.tokprog, false)];
            strict = vec![0, 1, 2, 4, 5];
            data = ins(8);
            name = "sweep".into();
            want = if dis { Err("disabled") } else { let f = s.mk.fees; s.mk.fees = 0; s.transfer(ids.pvault, self.recv, f) };
        } else if x < 960 {
            let with = if ids.kind > 0 { self.rng.chance(90) } else { self.rng.chance(10) };
            metas = vec![(u.oo, false), (u.own, true), (ids.market, false), (self.rent, false)];
            strict = vec![0, 1, 2];
            if with { metas.push((ids.oo_auth, true)); strict.push(4); }
            data = ins(15);
            name = format!("init_oo user {} auth {}", ui, with);
            if !fresh { strict = vec![0, 1, 2]; } else { strict = if with { vec![4] } else { vec![] }; }
            if ids.kind == 0 && with { strict = vec![]; }
            want = if dis { Err("disabled") } else if fresh && with != (ids.kind > 0) { Err("authority") } else { self.oo_ready(&mut s, &u, true) };
        } else if x < 975 {
            let dest = self.dests[0];
            metas = vec![(u.oo, false), (u.own, true), (dest, false), (ids.market, false)];
            strict = vec![0, 1, 3];
            data = ins(14);
            name = format!("close user {}", ui);
            want = self.oo_ready(&mut s, &u, false).and_then(|_| {
                let oo = s.oos.get_mut(&u.oo).unwrap();
                if !oo.slots.is_empty() || oo.ct != 0 || oo.pt != 0 { return Err("not empty"); }
                oo.flags = 256;
                let l = s.lam[&u.oo];
                *s.lam.get_mut(&dest).unwrap() += l; *s.lam.get_mut(&u.oo).unwrap() = 0;
                Ok(())
            });
        } else if x < 997 {
            let limit = if self.rng.chance(10) { 0 } else { 60000u16 };
            metas = vec![(ids.market, false), (ids.bids, false), (ids.asks, false), (ids.prune_auth, true), (u.oo, false), (u.own, false), (ids.evq, false)];
            strict = vec![0, 1, 2, 3, 4, 5, 6];
            data = ins(16); le(&mut data, limit.to_le_bytes());
            name = format!("prune user {} limit {}", ui, limit);
            want = (|| {
                if dis || ids.kind == 0 { return Err("no prune authority"); }
                self.oo_ready(&mut s, &u, false)?;
                if limit == 0 { return Ok(()); }
                for b in [true, false].iter() {
                    // larger ids are visited first
                    let ks: Vec<u128> = (if *b { &s.bids } else { &s.asks }).iter().rev().filter(|q| q.1.owner == ookey).map(|q| *q.0).collect();
                    for k in ks { s.cancel(&ids, u.oo, ookey, *b, k)?; }
                }
                Ok(())
            })();
        } else {
            metas = vec![(ids.market, false), (self.disabler, true)];
            strict = vec![1];
            data = ins(7);
            name = "disable".into();
            want = if dis { Err("disabled") } else { s.mk.flags |= 128; Ok(()) };
        }
        // adversarial variations: a foreign account, a missing signature, damaged data
        let mut want = want;
        let mut note = String::new();
        if self.rng.chance(12) && !strict.is_empty() {
            let p = self.rng.pick(&strict);
            if metas[p].1 && (self.rng.chance(60) || name.starts_with("send_take")) { metas[p].1 = false; want = Err("missing signature"); note = format!(" [unsigned {}]", p); }
            else {
                let o = &self.other;
                let mut pool = vec![o.market, o.reqq, o.evq, o.bids, o.asks, o.cvault, o.pvault, o.signer, ids.market, ids.reqq, ids.evq, ids.bids, ids.asks, ids.cvault, ids.pvault, ids.signer, self.recv, self.rent, self.sweeper, self.disabler, self.tokprog, ids.prune_auth, ids.crank_auth, ids.oo_auth];
                for q in self.us.iter() { pool.push(q.own); pool.push(q.cw); pool.push(q.pw); pool.push(q.oo); }
                pool.extend(self.junk.iter());
                let n = self.rng.pick(&pool);
                if self.w.a[n].len == 3216 + 12 && self.w.a[n].u64(5) == 0 { self.log.push("skipped".into()); return; }
                if self.w.a[n].key != self.w.a[metas[p].0].key || self.w.a[n].owner != self.w.a[metas[p].0].owner { metas[p].0 = n; want = Err("wrong account"); note = format!(" [account {} replaced by {}]", p, n); }
            }
        } else if metas.len() == 13 && self.rng.chance(5) {
            let q = self.rng.pick(&(0..self.us.len()).collect::<Vec<_>>());
            if let (Some(f), true) = (self.us[q].srm, q != ui) { metas[12].0 = f; want = Err("foreign fee account"); note = " [fee account replaced]".into(); }
        } else if self.rng.chance(2) {
            match self.rng.below(3) { 0 => { data[0] = 1; } 1 => { data.pop(); } _ => { data.push(0); } }
            want = Err("bad data"); note = " [damaged data]".into();
        }
        let got = self.w.exec(&data, &metas);
        self.log.push(format!("{}{} -> {} (model: {:?})", name, note, match &got { Ok(()) => "ok".to_string(), Err(e) => e.clone() }, want));
        if got.is_ok() != want.is_ok() {
            let cat = if note.contains("unsigned") || note.contains("replaced") || matches!(want, Err("permission") | Err("authority") | Err("no prune authority") | Err("wrong orders account") | Err("disabled")) { "AUTH" } else { "RESULT" };
            errs.insert(format!("{} {} model {:?} got {:?}", cat, name.split(' ').next().unwrap(), want, got));
            return;
        }
        let exp = if got.is_ok() { s } else { before };
        let now = view(&self.w, &self.ids, errs);
        diff(&exp, &now, errs);
        let n_other: Vec<Vec<u8>> = [self.other.market, self.other.evq, self.other.bids, self.other.asks, self.other.reqq, self.other.cvault, self.other.pvault].iter().map(|&i| self.w.a[i].data().to_vec()).collect();
        if b_other != n_other { errs.insert("STATIC another market changed".into()); }
        // solvency of the vaults
        let (cb, pb) = (self.w.bal(ids.cvault), self.w.bal(ids.pvault));
        if cb != now.mk.cdep { errs.insert(format!("SOLVENCY coin vault {} deposits {}", cb, now.mk.cdep)); }
        if pb as u128 != now.mk.pdep as u128 + now.mk.fees as u128 + now.mk.reb as u128 { errs.insert(format!("SOLVENCY pc vault {} deposits {} fees {} rebates {}", pb, now.mk.pdep, now.mk.fees, now.mk.reb)); }
        if name.starts_with("close") && got.is_ok() {
            let k = self.rng.key(); let oo = self.w.dex(k, 3216);
            self.us[ui].oo = oo; self.ids.oos.push(oo);
        }
    }
}

fn main() {
    let a: Vec<u64> = std::env::args().skip(1).filter_map(|x| x.parse().ok()).collect();
    let (seed, runs, steps) = (a.get(0).cloned().unwrap_or(1), a.get(1).cloned().unwrap_or(50), a.get(2).cloned().unwrap_or(400));
    install();
    if std::env::args().nth(1).map_or(false, |x| x == "parts") {
        let e = parts::run(seed);
        if e.is_empty() { println!("OK 1 histories, 1 transactions (parts)"); return; }
        println!("MISMATCH parts (seed {})", seed);
        for x in e.iter() { println!("CAT {}", x); }
        std::process::exit(1);
    }
    let mut total = 0u64;
    let mut oks = 0u64;
    for r in 0..runs {
        let mut errs = BTreeSet::new();
        let mut sim = Sim::new(seed.wrapping_mul(1_000_003).wrapping_add(r), &mut errs);
        for _ in 0..steps {
            if !errs.is_empty() { break; }
            sim.step(&mut errs);
            total += 1;
            if sim.log.last().map_or(false, |l| l.contains("-> ok")) { oks += 1; }
        }
        if !errs.is_empty() {
            println!("MISMATCH run {} (seed {}) after {} transactions", r, seed, sim.log.len());
            for e in errs.iter() { println!("CAT {}", e); }
            println!("market kind {} coin_lot {} pc_lot {}; history (last 40 transactions):", sim.ids.kind, sim.ids.coin_lot, sim.ids.pc_lot);
            let n = sim.log.len();
            for l in sim.log.iter().skip(n.saturating_sub(40)) { println!("  {}", l); }
            std::process::exit(1);
        }
    }
    println!("OK {} histories, {} transactions, {} successful", runs, total, oks);
}
