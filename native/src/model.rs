//! Reference model of the exchange (written from the documented behaviour, integers in u128, no shared code with the dex)
//! and the canonical view of the real accounts it is compared with.
use crate::world::*;
use solana_program::pubkey::Pubkey;
use std::collections::{BTreeMap, BTreeSet, VecDeque};

#[derive(Clone, Debug, PartialEq)]
pub struct Order { pub owner: Pubkey, pub slot: u8, pub qty: u64, pub tier: u8, pub cid: u64 }
#[derive(Clone, Debug, PartialEq)]
pub struct Ev { pub flags: u8, pub slot: u8, pub tier: u8, pub released: u64, pub paid: u64, pub fee: u64, pub id: u128, pub owner: Pubkey, pub cid: u64 }
#[derive(Clone, Debug, PartialEq)]
pub struct Oo { pub flags: u64, pub market: Pubkey, pub owner: Pubkey, pub cf: u64, pub ct: u64, pub pf: u64, pub pt: u64, pub slots: BTreeMap<u8, (bool, u128, u64)>, pub reb: u64 }
#[derive(Clone, Debug, PartialEq)]
pub struct Mk { pub flags: u64, pub stat: Vec<u8>, pub cdep: u64, pub pdep: u64, pub fees: u64, pub reb: u64, pub seq: u64, pub evseq: u64 }
#[derive(Clone, Debug, PartialEq)]
pub struct Snap { pub mk: Mk, pub bids: BTreeMap<u128, Order>, pub asks: BTreeMap<u128, Order>, pub evs: VecDeque<Ev>, pub oos: BTreeMap<usize, Oo>, pub bal: BTreeMap<usize, u64>, pub lam: BTreeMap<usize, u64> }

pub const FILL: u8 = 1; pub const OUT: u8 = 2; pub const BID: u8 = 4; pub const MAKER: u8 = 8; pub const REL: u8 = 16;

#[derive(Clone)]
pub struct Ids {
    pub market: usize, pub reqq: usize, pub evq: usize, pub bids: usize, pub asks: usize, pub cvault: usize, pub pvault: usize, pub cmint: usize, pub pmint: usize, pub signer: usize,
    pub coin_lot: u64, pub pc_lot: u64, pub kind: u8, // 0 plain, 1 permissioned, 2 permissioned + crank authority
    pub oo_auth: usize, pub prune_auth: usize, pub crank_auth: usize,
    pub oos: Vec<usize>, pub tokens: Vec<usize>, pub slab_nodes: usize, pub evcap: usize, pub stable: bool,
}

pub fn read_slab(a: &Acct, want_flags: u64, errs: &mut BTreeSet<String>) -> BTreeMap<u128, Order> {
    let mut out = BTreeMap::new();
    let mut bad = |s: &str| { errs.insert(format!("SLAB {}", s)); };
    if &a.data()[..5] != b"serum" || &a.data()[a.len - 7..] != b"padding" { bad("padding"); return out; }
    if a.u64(5) != want_flags { bad("flags"); return out; }
    let h = 13;
    let (bump, nfree, fhead, root, leaves) = (a.u64(h), a.u64(h + 8), a.u32(h + 16), a.u32(h + 20), a.u64(h + 24));
    let node = |i: u32| h + 32 + 72 * i as usize;
    let cap = (a.len - 12 - 8 - 32) / 72;
    let mut used = BTreeSet::new();
    if leaves > 0 {
        // (handle, prefix bits known, prefix length)
        let mut st = vec![(root, 0u32, 0u128, 0u128)];
        while let Some((n, depth, mask, val)) = st.pop() {
            if n as usize >= cap || n as u64 >= bump || !used.insert(n) { bad("handle out of range or shared"); return out; }
            let o = node(n);
            let key = a.u128(o + 8);
            if key & mask != val { bad("key outside its subtree"); return out; }
            match a.u32(o) {
                1 => {
                    let p = a.u32(o + 4);
                    if p >= 128 || p < depth { bad("prefix length"); return out; }
                    let bit = 1u128 << (127 - p);
                    let m = if p == 0 { 0 } else { !0u128 << (128 - p) };
                    st.push((a.u32(o + 24), p + 1, m | bit, key & m));
                    st.push((a.u32(o + 28), p + 1, m | bit, (key & m) | bit));
                }
                2 => {
                    let d = a.data();
                    let ord = Order { slot: d[o + 4], tier: d[o + 5], owner: a.key_at(o + 24), qty: a.u64(o + 56), cid: a.u64(o + 64) };
                    if out.insert(key, ord).is_some() { bad("duplicate key"); }
                }
                _ => { bad("tag"); return out; }
            }
        }
    }
    if out.len() as u64 != leaves { bad("leaf count"); }
    let mut f = fhead;
    for k in 0..nfree {
        if f as u64 >= bump || !used.insert(f) { bad("free list"); return out; }
        let t = a.u32(node(f));
        if k + 1 == nfree { if t != 4 { bad("last free tag"); } } else { if t != 3 { bad("free tag"); } f = a.u32(node(f) + 4); }
    }
    if used.len() as u64 != bump { bad("leaked node"); }
    out
}

pub fn read_events(a: &Acct, errs: &mut BTreeSet<String>) -> (VecDeque<Ev>, u64) {
    let mut v = VecDeque::new();
    if &a.data()[..5] != b"serum" || &a.data()[a.len - 7..] != b"padding" || a.u64(5) != 1 + 16 { errs.insert("QUEUE header".into()); return (v, 0); }
    let (head, count, seq) = (a.u64(13), a.u64(21), a.u64(29));
    let cap = ((a.len - 12 - 32) / 88) as u64;
    if count > cap || head >= cap { errs.insert("QUEUE bounds".into()); return (v, seq); }
    for i in 0..count {
        let o = 37 + 88 * ((head + i) % cap) as usize;
        let d = a.data();
        v.push_back(Ev { flags: d[o], slot: d[o + 1], tier: d[o + 2], released: a.u64(o + 8), paid: a.u64(o + 16), fee: a.u64(o + 24), id: a.u128(o + 32), owner: a.key_at(o + 48), cid: a.u64(o + 80) });
    }
    (v, seq)
}

pub fn read_oo(a: &Acct, errs: &mut BTreeSet<String>) -> Oo {
    let b = 5;
    let (free, isbid) = (a.u128(b + 104), a.u128(b + 120));
    let mut slots = BTreeMap::new();
    let flags = a.u64(b);
    if flags & 1 != 0 {
        if &a.data()[..5] != b"serum" || &a.data()[a.len - 7..] != b"padding" { errs.insert("OO padding".into()); }
        for s in 0..128u8 {
            let m = 1u128 << s;
            let (id, cid) = (a.u128(b + 136 + 16 * s as usize), a.u64(b + 136 + 2048 + 8 * s as usize));
            if free & m == 0 { slots.insert(s, (isbid & m != 0, id, cid)); }
            else if id != 0 || cid != 0 || isbid & m != 0 { errs.insert("OO free slot not clean".into()); }
        }
    }
    Oo { flags, market: a.key_at(b + 8), owner: a.key_at(b + 40), cf: a.u64(b + 72), ct: a.u64(b + 80), pf: a.u64(b + 88), pt: a.u64(b + 96), slots, reb: a.u64(b + 136 + 2048 + 1024) }
}

pub fn view(w: &World, ids: &Ids, errs: &mut BTreeSet<String>) -> Snap {
    let m = &w.a[ids.market];
    let b = 5;
    let mut stat = m.data().to_vec();
    for o in [b, b + 18 * 8, b + 24 * 8, b + 25 * 8, b + 46 * 8].iter() { for k in 0..8 { stat[o + k] = 0; } }
    let (evs, evseq) = read_events(&w.a[ids.evq], errs);
    let rq = &w.a[ids.reqq];
    if rq.u64(21) != 0 { errs.insert("REQQ count".into()); }
    Snap {
        mk: Mk { flags: m.u64(b), stat, cdep: m.u64(b + 18 * 8), pdep: m.u64(b + 24 * 8), fees: m.u64(b + 25 * 8), reb: m.u64(b + 46 * 8), seq: rq.u64(29), evseq },
        bids: read_slab(&w.a[ids.bids], 1 + 32, errs),
        asks: read_slab(&w.a[ids.asks], 1 + 64, errs),
        evs,
        oos: ids.oos.iter().map(|&i| (i, read_oo(&w.a[i], errs))).collect(),
        bal: ids.tokens.iter().map(|&i| (i, w.bal(i))).collect(),
        lam: w.a.iter().enumerate().map(|(i, a)| (i, a.lamports)).collect(),
    }
}

pub fn diff(exp: &Snap, got: &Snap, out: &mut BTreeSet<String>) {
    let mut put = |c: &str, e: String, g: String| { if e != g { out.insert(format!("{} expected {} got {}", c, e, g)); } };
    macro_rules! f { ($c:expr, $e:expr, $g:expr) => { if $e != $g { put($c, format!("{:?}", $e), format!("{:?}", $g)); } }; }
    f!("FLAGS market", exp.mk.flags, got.mk.flags);
    if exp.mk.stat != got.mk.stat { put("STATIC market", "unchanged".into(), "changed".into()); }
    f!("TOTALS coin_deposits", exp.mk.cdep, got.mk.cdep);
    f!("TOTALS pc_deposits", exp.mk.pdep, got.mk.pdep);
    f!("TOTALS FEES pc_fees", exp.mk.fees, got.mk.fees);
    f!("TOTALS FEES referrer_rebates", exp.mk.reb, got.mk.reb);
    f!("SEQ next order id", exp.mk.seq, got.mk.seq);
    f!("QUEUE seq_num", exp.mk.evseq, got.mk.evseq);
    f!("BOOK bids", exp.bids, got.bids);
    f!("BOOK asks", exp.asks, got.asks);
    if exp.evs != got.evs {
        if exp.evs.len() != got.evs.len() { put("EVENTS count", exp.evs.len().to_string(), got.evs.len().to_string()); }
        for (i, (e, g)) in exp.evs.iter().zip(got.evs.iter()).enumerate() { if e != g { put("EVENTS", format!("[{}] {:?}", i, e), format!("{:?}", g)); break; } }
    }
    for (i, e) in exp.oos.iter() {
        let g = &got.oos[i];
        f!("OO flags", e.flags, g.flags);
        if e.flags & 1 == 0 { continue; }
        f!("OO owner", (e.market, e.owner), (g.market, g.owner));
        f!("FUNDS oo coin free/total", (e.cf, e.ct), (g.cf, g.ct));
        f!("FUNDS oo pc free/total", (e.pf, e.pt), (g.pf, g.pt));
        f!("SLOTS", e.slots, g.slots);
        f!("FUNDS FEES oo rebates", e.reb, g.reb);
    }
    f!("TOKENS balances", exp.bal, got.bal);
    f!("LAMPORTS", exp.lam, got.lam);
}

// ------------------------------------------------------------------ fee schedule
pub fn taker_rate(t: u8) -> u128 { let x: [u128; 8] = [40, 39, 38, 36, 34, 32, 30, 10]; (x[t as usize] << 64) / 100_000 }
pub fn taker_fee(t: u8, q: u128) -> u128 { let e = taker_rate(t) * q; (e >> 64) + ((e & ((1u128 << 64) - 1) != 0) as u128) }
pub fn unfee(t: u8, q: u128) -> u128 { (q << 64) / ((1u128 << 64) + taker_rate(t)) }
pub fn rebate(_t: u8, q: u128) -> u128 { q >> 64 }
pub fn tier(stable: bool, srm: u64, msrm: u64) -> u8 {
    if stable { return 7; }
    if msrm > 0 { return 6; }
    let s = srm / 1_000_000;
    if s >= 1_000_000 { 5 } else if s >= 100_000 { 4 } else if s >= 10_000 { 3 } else if s >= 1_000 { 2 } else if s >= 100 { 1 } else { 0 }
}

#[derive(Default, Clone, Debug)]
pub struct Proc { pub cu: u128, pub pu: u128, pub cc: u128, pub pc: u128, pub cd: u128, pub pd: u128 }
#[derive(Clone, Debug)]
pub struct Req { pub bid: bool, pub price: u64, pub coin: u64, pub pc: u64, pub stb: u8, pub ty: u8, pub cid: u64, pub limit: u16, pub id: u128, pub owner: Pubkey, pub slot: u8, pub tier: u8, pub send: bool }
type R<T> = Result<T, &'static str>;
fn c(x: u128) -> R<u64> { if x > u64::MAX as u128 { Err("overflow") } else { Ok(x as u64) } }
fn sub(a: u64, b: u128) -> R<u64> { if b > a as u128 { Err("underflow") } else { Ok(a - b as u64) } }

impl Snap {
    fn ev(&mut self, ids: &Ids, e: Ev) -> R<()> {
        if self.evs.len() >= ids.evcap { return Err("event queue full"); }
        self.evs.push_back(e);
        self.mk.evseq += 1;
        Ok(())
    }
    fn out(&mut self, ids: &Ids, bid: bool, rel: bool, unl: u128, still: u128, id: u128, owner: Pubkey, slot: u8, cid: u64) -> R<()> {
        let e = Ev { flags: OUT | if bid { BID } else { 0 } | if rel { REL } else { 0 }, slot, tier: 0, released: c(unl)?, paid: c(still)?, fee: 0, id, owner, cid };
        self.ev(ids, e)
    }
    pub fn new_id(&mut self, bid: bool, price: u64) -> u128 {
        let s = self.mk.seq;
        self.mk.seq += 1;
        ((price as u128) << 64) | (if bid { !s } else { s }) as u128
    }

    /// one incoming order against the book
    pub fn matching(&mut self, ids: &Ids, r: &Req) -> R<Proc> {
        let (cl, pl) = (ids.coin_lot as u128, ids.pc_lot as u128);
        let mut p = Proc::default();
        let (mut rem, mut budget) = (r.coin as u128, if r.bid { r.pc as u128 } else { 0 });
        let mut left = r.limit;
        loop {
            let best = if r.bid { self.asks.iter().next() } else { self.bids.iter().next_back() }.map(|(k, o)| (*k, o.clone()));
            let crossed = match &best { None => false, Some((k, _)) => { let bp = (*k >> 64) as u64; if r.bid { r.price >= bp } else { r.price <= bp } } };
            let mut q = 0u128;
            if crossed && left > 0 && r.ty != 2 {
                let (k, o) = best.as_ref().unwrap();
                q = rem.min(o.qty as u128);
                if r.bid { q = q.min(unfee(r.tier, budget) / pl / (*k >> 64)); }
            }
            if q == 0 {
                // nothing (more) to trade: post or release the rest
                let post = r.ty != 1 && !crossed;
                if r.bid {
                    let n = if post { rem.min(budget / pl / r.price as u128) } else { 0 };
                    let keep = n * r.price as u128 * pl;
                    if !r.send { p.pu += budget - keep; self.out(ids, true, false, budget - keep, keep, r.id, r.owner, r.slot, r.cid)?; }
                    if n > 0 { self.post(ids, r, n)?; }
                } else if post && rem > 0 {
                    if r.send { return Err("send take never posts"); }
                    self.post(ids, r, rem)?;
                } else if !r.send {
                    p.cu += rem;
                    self.out(ids, false, false, rem * cl, 0, r.id, r.owner, r.slot, r.cid)?;
                }
                return Ok(p);
            }
            left -= 1;
            let (k, o) = best.unwrap();
            let mp = k >> 64;
            if o.owner == r.owner {
                let (prov, take) = match r.stb { 0 => (q, q), 1 => (o.qty as u128, 0), _ => return Err("self trade") };
                let after = o.qty as u128 - prov;
                let unit = if r.bid { cl } else { mp * pl };
                self.out(ids, !r.bid, true, prov * unit, after * unit, k, o.owner, o.slot, o.cid)?;
                self.setq(!r.bid, k, after as u64);
                rem -= take;
                if r.bid {
                    let rel = take * mp * pl;
                    let still = budget - rel;
                    let end = rem == 0 || still == 0;
                    let rel = if end { budget } else { rel };
                    p.pu += rel;
                    self.out(ids, true, false, rel, if end { 0 } else { still }, r.id, r.owner, r.slot, r.cid)?;
                    if end { return Ok(p); }
                    budget = still;
                } else {
                    p.cu += take;
                    self.out(ids, false, false, take * cl, rem * cl, r.id, r.owner, r.slot, r.cid)?;
                    if rem == 0 { return Ok(p); }
                }
                continue;
            }
            let gross = q * mp * pl;
            let fee = taker_fee(r.tier, gross);
            let reb = rebate(o.tier, gross);
            let mfl = FILL | MAKER | if r.bid { 0 } else { BID };
            let (mpaid, mrecv) = if r.bid { (q * cl, gross + reb) } else { (gross - reb, q * cl) };
            self.ev(ids, Ev { flags: mfl, slot: o.slot, tier: o.tier, released: c(mrecv)?, paid: c(mpaid)?, fee: c(reb)?, id: k, owner: o.owner, cid: o.cid })?;
            let after = o.qty as u128 - q;
            if after == 0 { self.out(ids, !r.bid, true, 0, 0, k, o.owner, o.slot, o.cid)?; }
            self.setq(!r.bid, k, after as u64);
            rem -= q;
            let (tpaid, trecv) = if r.bid { (gross + fee, q * cl) } else { (q * cl, gross - fee) };
            if r.bid { budget -= gross + fee; p.cc += q; p.pd += gross + fee; } else { p.cd += q; p.pc += gross - fee; }
            if !r.send {
                let fl = FILL | if r.bid { BID } else { 0 };
                self.ev(ids, Ev { flags: fl, slot: r.slot, tier: r.tier, released: c(trecv)?, paid: c(tpaid)?, fee: c(fee)?, id: r.id, owner: r.owner, cid: r.cid })?;
            }
            let refr = fee / 5;
            self.mk.reb = c(self.mk.reb as u128 + refr)?;
            self.mk.fees = c(self.mk.fees as u128 + fee - reb - refr)?;
            self.mk.pdep = sub(self.mk.pdep, fee - reb)?;
            if rem == 0 || (r.bid && budget == 0) {
                // fully executed
                if r.bid {
                    if !r.send { p.pu += budget; self.out(ids, true, false, budget, 0, r.id, r.owner, r.slot, r.cid)?; }
                } else if !r.send { self.out(ids, false, false, 0, 0, r.id, r.owner, r.slot, r.cid)?; }
                return Ok(p);
            }
        }
    }
    fn setq(&mut self, bid: bool, k: u128, q: u64) {
        let b = if bid { &mut self.bids } else { &mut self.asks };
        if q == 0 { b.remove(&k); } else { b.get_mut(&k).unwrap().qty = q; }
    }
    fn post(&mut self, ids: &Ids, r: &Req, n: u128) -> R<()> {
        let o = Order { owner: r.owner, slot: r.slot, qty: c(n)?, tier: r.tier, cid: r.cid };
        let cap = ids.slab_nodes;
        let b = if r.bid { &mut self.bids } else { &mut self.asks };
        if !b.is_empty() && 2 * b.len() + 1 > cap {
            let k = if r.bid { *b.keys().next().unwrap() } else { *b.keys().next_back().unwrap() };
            let e = b.remove(&k).unwrap();
            b.insert(r.id, o);
            let unl = if r.bid { e.qty as u128 * (k >> 64) * ids.pc_lot as u128 } else { e.qty as u128 * ids.coin_lot as u128 };
            return self.out(ids, r.bid, true, unl, 0, k, e.owner, e.slot, e.cid);
        }
        b.insert(r.id, o);
        Ok(())
    }

    pub fn new_order(&mut self, ids: &Ids, oo_i: usize, oo_key: Pubkey, r: &Req, payer: usize, payer_authorised: bool) -> R<()> {
        let mut r = r.clone();
        let vault = if r.bid { ids.pvault } else { ids.cvault };
        let need = if r.bid { r.pc } else { c(r.coin as u128 * ids.coin_lot as u128).map_err(|_| "insufficient")? };
        let oo = self.oos.get_mut(&oo_i).unwrap();
        let from_free = need.min(if r.bid { oo.pf } else { oo.cf });
        let dep = need - from_free;
        if self.bal[&payer] < dep { return Err("insufficient funds"); }
        if r.bid { oo.pf -= from_free; oo.pt = c(oo.pt as u128 + dep as u128)?; self.mk.pdep = c(self.mk.pdep as u128 + dep as u128)?; }
        else { oo.cf -= from_free; oo.ct = c(oo.ct as u128 + dep as u128)?; self.mk.cdep = c(self.mk.cdep as u128 + dep as u128)?; }
        let id = self.new_id(r.bid, r.price);
        let oo = self.oos.get_mut(&oo_i).unwrap();
        let slot = (0..128u8).find(|s| !oo.slots.contains_key(s)).ok_or("no free slot")?;
        oo.slots.insert(slot, (r.bid, id, r.cid));
        r.id = id; r.slot = slot; r.owner = oo_key;
        let p = self.matching(ids, &r)?;
        let cl = ids.coin_lot as u128;
        let oo = self.oos.get_mut(&oo_i).unwrap();
        oo.ct = sub(c(oo.ct as u128 + p.cc * cl)?, p.cd * cl)?;
        oo.cf = c(oo.cf as u128 + (p.cc + p.cu) * cl)?;
        oo.pt = sub(c(oo.pt as u128 + p.pc)?, p.pd)?;
        oo.pf = c(oo.pf as u128 + p.pc + p.pu)?;
        if oo.cf > oo.ct || oo.pf > oo.pt { return Err("free over total"); }
        if dep > 0 {
            if !payer_authorised { return Err("payer not authorised"); }
            self.transfer(payer, vault, dep)?;
        }
        Ok(())
    }
    pub fn transfer(&mut self, from: usize, to: usize, n: u64) -> R<()> {
        if self.bal[&from] < n { return Err("insufficient tokens"); }
        *self.bal.get_mut(&from).unwrap() -= n;
        *self.bal.get_mut(&to).unwrap() += n;
        Ok(())
    }
    pub fn send_take(&mut self, ids: &Ids, r: &Req, min_coin: u64, min_pc: u64, cw: usize, pw: usize, auth_c: bool, auth_p: bool) -> R<()> {
        let mut r = r.clone();
        r.id = self.new_id(r.bid, r.price);
        r.owner = Pubkey::default();
        let p = self.matching(ids, &r)?;
        let cl = ids.coin_lot as u128;
        if r.bid {
            if p.cc < min_coin as u128 { return Err("min"); }
            let (d, wd) = (c(p.pd)?, c(p.cc * cl)?);
            self.mk.pdep = c(self.mk.pdep as u128 + p.pd)?;
            self.mk.cdep = sub(self.mk.cdep, p.cc * cl)?;
            if d > 0 { if !auth_p { return Err("auth"); } self.transfer(pw, ids.pvault, d)?; }
            self.transfer(ids.cvault, cw, wd)
        } else {
            if p.pc < min_pc as u128 { return Err("min"); }
            let (d, wd) = (c(p.cd * cl)?, c(p.pc)?);
            self.mk.cdep = c(self.mk.cdep as u128 + p.cd * cl)?;
            self.mk.pdep = sub(self.mk.pdep, p.pc)?;
            if d > 0 { if !auth_c { return Err("auth"); } self.transfer(cw, ids.cvault, d)?; }
            self.transfer(ids.pvault, pw, wd)
        }
    }
    pub fn cancel(&mut self, ids: &Ids, oo_i: usize, oo_key: Pubkey, bid: bool, id: u128) -> R<()> {
        let o = { let b = if bid { &self.bids } else { &self.asks }; b.get(&id).cloned().ok_or("not found")? };
        if o.owner != oo_key { return Err("not yours"); }
        let oo = self.oos.get_mut(&oo_i).unwrap();
        match oo.slots.get(&o.slot) { Some((sb, sid, _)) if *sb == bid && *sid == id => (), _ => return Err("slot") }
        let unl = if bid { o.qty as u128 * (id >> 64) * ids.pc_lot as u128 } else { o.qty as u128 * ids.coin_lot as u128 };
        if bid { oo.pf = c(oo.pf as u128 + unl)?; if oo.pf > oo.pt { return Err("free over total"); } } else { oo.cf = c(oo.cf as u128 + unl)?; if oo.cf > oo.ct { return Err("free over total"); } }
        self.setq(bid, id, 0);
        self.out(ids, bid, false, unl, 0, id, oo_key, o.slot, o.cid)
    }
    pub fn cancel_cids(&mut self, ids: &Ids, oo_i: usize, oo_key: Pubkey, cids: &[u64]) -> R<()> {
        let l: Vec<(bool, u128)> = self.oos[&oo_i].slots.values().filter(|(_, _, cid)| *cid != 0 && cids.contains(cid)).map(|(b, id, _)| (*b, *id)).collect();
        for (b, id) in l { match self.cancel(ids, oo_i, oo_key, b, id) { Err("not found") => (), x => x? } }
        Ok(())
    }
    pub fn consume(&mut self, given: &[(usize, Pubkey)], limit: u16, mkt: Pubkey) -> R<()> {
        for _ in 0..limit {
            let e = match self.evs.front() { None => break, Some(e) => e.clone() };
            let i = match given.iter().find(|g| g.1 == e.owner) { None => break, Some(g) => g.0 };
            let oo = self.oos.get_mut(&i).unwrap();
            if oo.flags != 1 + 4 || oo.market != mkt { return Err("account"); }
            let bid = e.flags & BID != 0;
            match oo.slots.get(&e.slot) { Some((sb, sid, _)) if *sb == bid && *sid == e.id => (), _ => return Err("slot") }
            if e.flags & FILL != 0 {
                if e.flags & MAKER != 0 {
                    if bid { oo.pt -= e.paid; oo.ct += e.released; oo.cf += e.released; oo.pf += e.fee; } else { oo.ct -= e.paid; oo.pt += e.released; oo.pf += e.released; }
                } else { oo.reb += e.fee / 5; }
            } else {
                if e.flags & REL != 0 { if bid { oo.pf += e.released } else { oo.cf += e.released } }
                if oo.pf > oo.pt || oo.cf > oo.ct { return Err("free over total"); }
                if e.paid == 0 { oo.slots.remove(&e.slot); }
            }
            self.evs.pop_front();
        }
        Ok(())
    }
}
