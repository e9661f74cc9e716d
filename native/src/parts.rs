//! The parts on their own: instruction format, queues, event and request records, book.
use crate::world::Rng;
use bytemuck::{bytes_of, Pod};
use serum_dex::critbit::{AnyNode, LeafNode, Slab, SlabView};
use serum_dex::instruction::*;
use serum_dex::matching::{OrderType, Side};
use serum_dex::state::{Event, EventQueueHeader, EventView, Queue, QueueHeader, Request, RequestQueueHeader, RequestView};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::num::NonZeroU64;

fn of<T: Pod>(b: &[u8]) -> T { *bytemuck::from_bytes::<T>(b) }

struct Rd<'a>(&'a [u8], usize);
impl<'a> Rd<'a> {
    fn n(&mut self, k: usize) -> u128 { let mut r = 0u128; for i in 0..k { r |= (self.0[self.1 + i] as u128) << (8 * i); } self.1 += k; r }
    fn u64(&mut self) -> u64 { self.n(8) as u64 }
    fn u16(&mut self) -> u16 { self.n(2) as u16 }
    fn nz(&mut self) -> Option<NonZeroU64> { NonZeroU64::new(self.u64()) }
    fn side(&mut self) -> Option<Side> { match self.n(4) { 0 => Some(Side::Bid), 1 => Some(Side::Ask), _ => None } }
    fn ot(&mut self) -> Option<OrderType> { match self.n(4) { 0 => Some(OrderType::Limit), 1 => Some(OrderType::ImmediateOrCancel), 2 => Some(OrderType::PostOnly), _ => None } }
    fn stb(&mut self) -> Option<SelfTradeBehavior> { match self.n(4) { 0 => Some(SelfTradeBehavior::DecrementTake), 1 => Some(SelfTradeBehavior::CancelProvide), 2 => Some(SelfTradeBehavior::AbortTransaction), _ => None } }
    fn o3(&mut self, ts: bool) -> Option<NewOrderInstructionV3> {
        let (side, p, c, q) = (self.side(), self.nz(), self.nz(), self.nz());
        let (stb, ot, id, limit) = (self.stb(), self.ot(), self.u64(), self.u16());
        let max_ts = if ts { self.u64() as i64 } else { i64::MAX };
        Some(NewOrderInstructionV3 { side: side?, limit_price: p?, max_coin_qty: c?, max_native_pc_qty_including_fees: q?, self_trade_behavior: stb?, order_type: ot?, client_order_id: id, limit, max_ts })
    }
    fn o1(&mut self) -> Option<NewOrderInstructionV1> {
        let (side, p, q, ot, id) = (self.side(), self.nz(), self.nz(), self.ot(), self.u64());
        Some(NewOrderInstructionV1 { side: side?, limit_price: p?, max_qty: q?, order_type: ot?, client_id: id })
    }
}

fn decode(b: &[u8]) -> Option<MarketInstruction> {
    use MarketInstruction::*;
    if b.len() < 5 || b[0] != 0 { return None; }
    let d = Rd(b, 1).n(4);
    let l = b.len() - 5;
    let mut r = Rd(b, 5);
    Some(match (d, l) {
        (0, 34) => InitializeMarket(InitializeMarketInstruction { coin_lot_size: r.u64(), pc_lot_size: r.u64(), fee_rate_bps: r.u16(), vault_signer_nonce: r.u64(), pc_dust_threshold: r.u64() }),
        (1, 32) => NewOrder(r.o1()?),
        (2, 2) => MatchOrders(r.u16()),
        (3, 2) => ConsumeEvents(r.u16()),
        (4, 53) => { let s = r.side()?; CancelOrder(CancelOrderInstruction { side: s, order_id: r.n(16), owner: [r.u64(), r.u64(), r.u64(), r.u64()], owner_slot: r.n(1) as u8 }) }
        (5, 0) => SettleFunds,
        (6, 8) => CancelOrderByClientId(r.u64()),
        (7, 0) => DisableMarket,
        (8, 0) => SweepFees,
        (9, 36) => { let o = r.o1()?; NewOrderV2(o.add_self_trade_behavior(r.stb()?)) }
        (10, 46) => NewOrderV3(r.o3(false)?),
        (10, 54) => NewOrderV3(r.o3(true)?),
        (11, 20) => { let s = r.side()?; CancelOrderV2(CancelOrderInstructionV2 { side: s, order_id: r.n(16) }) }
        (12, 8) => CancelOrderByClientIdV2(r.u64()),
        (13, 46) => { let (s, p, c, q) = (r.side(), r.nz(), r.nz(), r.nz()); SendTake(SendTakeInstruction { side: s?, limit_price: p?, max_coin_qty: c?, max_native_pc_qty_including_fees: q?, min_coin_qty: r.u64(), min_native_pc_qty: r.u64(), limit: r.u16() }) }
        (14, 0) => CloseOpenOrders,
        (15, 0) => InitOpenOrders,
        (16, 2) => Prune(r.u16()),
        (17, 2) => ConsumeEventsPermissioned(r.u16()),
        (18, n) if n % 8 == 0 && n <= 64 => { let mut a = [0u64; 8]; for i in 0..n / 8 { a[i] = r.u64(); } CancelOrdersByClientIds(a) }
        (19, 54) => ReplaceOrderByClientId(r.o3(true)?),
        (20, n) if n >= 8 && (n - 8) % 54 == 0 && n <= 8 + 8 * 54 => { if r.u64() != (n as u64 - 8) / 54 { return None; } let mut v = vec![]; for _ in 0..(n - 8) / 54 { v.push(r.o3(true)?); } ReplaceOrdersByClientIds(v) }
        _ => return None,
    })
}

const LENS: [&[usize]; 21] = [&[34], &[32], &[2], &[2], &[53], &[0], &[8], &[0], &[0], &[36], &[46, 54], &[20], &[8], &[46], &[0], &[0], &[2], &[2], &[0, 8, 16, 24, 32, 40, 48, 56, 64, 72], &[54], &[8, 62, 116, 170, 224, 278, 332, 386, 440, 494]];

fn wire(rng: &mut Rng, errs: &mut BTreeSet<String>) {
    for _ in 0..20000 {
        let d = rng.below(22);
        let mut l = if d < 21 { rng.pick(LENS[d as usize]) } else { rng.below(70) as usize };
        if rng.chance(5) { l = rng.below(600) as usize; }
        let mut b = vec![0u8];
        b.extend_from_slice(&(d as u32).to_le_bytes());
        for _ in 0..l { b.push(rng.next() as u8); }
        // plausible tags and counts
        let tag = |b: &mut Vec<u8>, o: usize, v: u64, k: usize| { if o + k <= b.len() { b[o..o + k].copy_from_slice(&v.to_le_bytes()[..k]); } };
        let bad = rng.chance(20);
        let mut t = |b: &mut Vec<u8>, o: usize, n: u64, rng: &mut Rng| { let v = if bad && rng.chance(20) { rng.pick(&[n, n + 1, 256, 1 << 16, 1 << 24]) } else { rng.below(n) }; tag(b, o, v, 4); };
        match d {
            1 | 9 => { t(&mut b, 5, 2, rng); t(&mut b, 25, 3, rng); t(&mut b, 37, 3, rng); }
            4 | 11 => t(&mut b, 5, 2, rng),
            10 | 19 => { t(&mut b, 5, 2, rng); t(&mut b, 33, 3, rng); t(&mut b, 37, 3, rng); }
            13 => t(&mut b, 5, 2, rng),
            20 => { let n = (l as u64).saturating_sub(8) / 54; tag(&mut b, 5, if bad && rng.chance(30) { n + 1 } else { n }, 8); for i in 0..n as usize { t(&mut b, 13 + 54 * i, 2, rng); t(&mut b, 41 + 54 * i, 3, rng); t(&mut b, 45 + 54 * i, 3, rng); } }
            _ => {}
        }
        if rng.chance(3) { for o in [9usize, 17, 25].iter() { if rng.chance(30) { tag(&mut b, *o, 0, 8); } } }
        if rng.chance(2) { b[0] = rng.below(3) as u8; }
        if rng.chance(2) { let n = rng.below(b.len() as u64 + 1) as usize; b.truncate(n); }
        let want = decode(&b);
        let got = std::panic::catch_unwind(|| MarketInstruction::unpack(&b));
        match got {
            Err(_) => { errs.insert(format!("WIRE unpack panics on {:?}", b)); return; }
            Ok(g) => if g != want { errs.insert(format!("WIRE unpack of {:?} gives {:?}, format says {:?}", b, g, want)); return; }
        }
        if let Some(i) = want { if MarketInstruction::unpack(&i.pack()) != Some(i.clone()) { errs.insert(format!("WIRE {:?} does not survive pack and unpack", i)); return; } }
    }
}

fn words<T: bytemuck::Pod>(x: &T) -> Vec<u64> { bytes_of(x).chunks_exact(8).map(|c| { let mut b = [0u8; 8]; b.copy_from_slice(c); u64::from_le_bytes(b) }).collect() }

fn ring<H: QueueHeader>(rng: &mut Rng, errs: &mut BTreeSet<String>, isev: bool, mk: impl Fn(u64) -> H::Item, id: impl Fn(&H::Item) -> u64) {
    let cap = rng.range(1, 9) as usize;
    let hdr = RefCell::new(H::zeroed());
    let buf: RefCell<Vec<H::Item>> = RefCell::new((0..cap).map(|_| mk(0)).collect());
    let mut m: VecDeque<u64> = VecDeque::new();
    let (mut seq, mut next) = (0u64, 1u64);
    let cat = "RING";
    for step in 0..400 {
        let h = hdr.borrow_mut();
        let b = std::cell::RefMut::map(buf.borrow_mut(), |v| &mut v[..]);
        let mut q = Queue::new(h, b);
        let mut bad = |s: &str| { errs.insert(format!("{} {} (step {}, capacity {})", cat, s, step, cap)); };
        match rng.below(10) {
            0..=4 => { let r = q.push_back(mk(next)); if m.len() == cap { match r { Err(x) if id(&x) == next => {} _ => bad("push onto a full queue") } } else { if r.is_err() { bad("push refused"); } m.push_back(next); next += 1; if isev { seq += 1; } } }
            5..=7 => { let r = q.pop_front().ok().map(|x| id(&x)); if r != m.pop_front() { bad("pop"); } }
            8 => { let k = rng.below(m.len() as u64 + 2); let r = q.revert_pushes(k); if k > m.len() as u64 { if r.is_ok() { bad("revert to more items"); } } else { if r.is_err() { bad("revert refused"); } if isev { seq -= m.len() as u64 - k; } m.truncate(k as usize); } }
            _ => { if q.peek_front().map(|x| id(x)) != m.front().cloned() || q.peek_front_mut().map(|x| id(x)) != m.front().cloned() { bad("peek"); } }
        }
        if q.len() != m.len() as u64 || q.empty() != m.is_empty() || q.full() != (m.len() == cap) { bad("length"); }
        if q.iter().map(|x| id(x)).collect::<Vec<_>>() != m.iter().cloned().collect::<Vec<_>>() { bad("items"); }
        drop(q);
        let w = words(&*hdr.borrow());
        if w[2] != m.len() as u64 || (isev && w[3] != seq) || (!isev && w[3] != 0) || w[0] != 0 { bad("header"); }
    }
}

fn put(b: &mut [u8], o: usize, v: u128, k: usize) { b[o..o + k].copy_from_slice(&v.to_le_bytes()[..k]); }

fn codec(rng: &mut Rng, errs: &mut BTreeSet<String>) {
    for _ in 0..4000 {
        // event record
        let mut b = [0u8; 88];
        let fill = rng.chance(50); let bid = rng.chance(50); let x = rng.chance(50);
        b[0] = if fill { 1 } else { 2 } | if bid { 4 } else { 0 } | if x { if fill { 8 } else { 16 } } else { 0 };
        b[1] = rng.next() as u8; if fill { b[2] = rng.below(8) as u8; }
        let v: Vec<u64> = (0..9).map(|_| if rng.chance(20) { 0 } else { rng.next() }).collect();
        put(&mut b, 8, v[0] as u128, 8); put(&mut b, 16, v[1] as u128, 8); if fill { put(&mut b, 24, v[2] as u128, 8); }
        let oid = (v[3] as u128) << 64 | v[4] as u128; put(&mut b, 32, oid, 16);
        let owner = [v[5], v[6], v[7], v[8]]; for i in 0..4 { put(&mut b, 48 + 8 * i, owner[i] as u128, 8); }
        let cid = if rng.chance(30) { 0 } else { rng.next() }; put(&mut b, 80, cid as u128, 8);
        let e: Event = of(&b);
        let r = std::panic::catch_unwind(|| e.as_view().ok());
        let ok = match r {
            Ok(Some(EventView::Fill { side, maker, native_qty_paid, native_qty_received, native_fee_or_rebate, order_id, owner: o, owner_slot, fee_tier, client_order_id })) => {
                let same = fill && (side == Side::Bid) == bid && maker == x && native_qty_received == v[0] && native_qty_paid == v[1] && native_fee_or_rebate == v[2] && order_id == oid && o == owner && owner_slot == b[1] && fee_tier as u8 == b[2] && client_order_id == NonZeroU64::new(cid);
                same && bytes_of(&Event::new(EventView::Fill { side, maker, native_qty_paid, native_qty_received, native_fee_or_rebate, order_id, owner: o, owner_slot, fee_tier, client_order_id })) == &b[..]
            }
            Ok(Some(EventView::Out { side, release_funds, native_qty_unlocked, native_qty_still_locked, order_id, owner: o, owner_slot, client_order_id })) => {
                let same = !fill && (side == Side::Bid) == bid && release_funds == x && native_qty_unlocked == v[0] && native_qty_still_locked == v[1] && order_id == oid && o == owner && owner_slot == b[1] && client_order_id == NonZeroU64::new(cid);
                same && bytes_of(&Event::new(EventView::Out { side, release_funds, native_qty_unlocked, native_qty_still_locked, order_id, owner: o, owner_slot, client_order_id })) == &b[..]
            }
            _ => false,
        };
        if !ok { errs.insert(format!("CODEC event record {:?}", &b[..])); return; }
        // request record
        let mut b = [0u8; 80];
        let new = rng.chance(50); let t = rng.below(3);
        b[0] = if new { 1 } else { 2 } | if bid { 4 } else { 0 } | if new { [0u8, 16, 8][t as usize] } else { 0 };
        b[1] = rng.next() as u8; if new { b[2] = rng.below(8) as u8; b[3] = rng.below(3) as u8; }
        let q = if new { v[0].max(1) } else { v[0] };
        put(&mut b, 8, q as u128, 8); if new { put(&mut b, 16, v[1] as u128, 8); }
        put(&mut b, 24, oid, 16); for i in 0..4 { put(&mut b, 40 + 8 * i, owner[i] as u128, 8); }
        put(&mut b, 72, cid as u128, 8);
        let e: Request = of(&b);
        let r = std::panic::catch_unwind(|| e.as_view().ok());
        let ok = match r {
            Ok(Some(RequestView::NewOrder { side, order_type, owner_slot, fee_tier, order_id, max_coin_qty, native_pc_qty_locked, owner: o, client_order_id, self_trade_behavior })) => {
                let same = new && (side == Side::Bid) == bid && order_type as u8 as u64 == t && owner_slot == b[1] && fee_tier as u8 == b[2] && order_id == oid && max_coin_qty.get() == q && native_pc_qty_locked == NonZeroU64::new(v[1]) && o == owner && client_order_id == NonZeroU64::new(cid) && self_trade_behavior as u8 == b[3];
                same && bytes_of(&Request::new(RequestView::NewOrder { side, order_type, owner_slot, fee_tier, order_id, max_coin_qty, native_pc_qty_locked, owner: o, client_order_id, self_trade_behavior })) == &b[..]
            }
            Ok(Some(RequestView::CancelOrder { side, order_id, cancel_id, expected_owner_slot, expected_owner, client_order_id })) => {
                let same = !new && (side == Side::Bid) == bid && order_id == oid && cancel_id == q && expected_owner_slot == b[1] && expected_owner == owner && client_order_id == NonZeroU64::new(cid);
                same && bytes_of(&Request::new(RequestView::CancelOrder { side, order_id, cancel_id, expected_owner_slot, expected_owner, client_order_id })) == &b[..]
            }
            _ => false,
        };
        if !ok { errs.insert(format!("CODEC request record {:?}", &b[..])); return; }
    }
}

fn leaf(rng: &mut Rng, key: u128) -> LeafNode {
    let mut b = [0u8; 72];
    b[0] = 2; b[4] = rng.below(128) as u8; b[5] = rng.below(8) as u8;
    put(&mut b, 8, key, 16);
    for i in 0..6 { put(&mut b, 24 + 8 * i, rng.next() as u128, 8); }
    of(&b)
}

fn tree(rng: &mut Rng, errs: &mut BTreeSet<String>) {
    let cap = rng.range(1, 40) as usize;
    let mut bytes = vec![0u8; 32 + 72 * cap + rng.below(72) as usize];
    let mut m: BTreeMap<u128, Vec<u8>> = BTreeMap::new();
    let style = rng.below(4);
    let mut log: Vec<String> = vec![];
    for step in 0..300 {
        let s = Slab::new(&mut bytes);
        let key = match style { 0 => rng.below(24) as u128, 1 => (rng.below(6) as u128) << 64 | rng.below(6) as u128, 2 => 1u128 << rng.below(128), _ => if rng.chance(50) && !m.is_empty() { let k: Vec<u128> = m.keys().cloned().collect(); rng.pick(&k) ^ (1u128 << rng.below(128)) } else { (rng.next() as u128) << 64 | rng.next() as u128 } };
        let mut err = None;
        match rng.below(12) {
            0..=5 => {
                let l = leaf(rng, key);
                log.push(format!("insert {:x}", key));
                let need = if m.contains_key(&key) { 0 } else if m.is_empty() { 1 } else { 2 };
                let used = if m.is_empty() { 0 } else { 2 * m.len() - 1 };
                match s.insert_leaf(&l) {
                    Ok((h, old)) => {
                        if need + used > cap { err = Some("insert beyond capacity"); }
                        if old.map(|o| bytes_of(&o).to_vec()) != m.insert(key, bytes_of(&l).to_vec()) { err = Some("insert replaced leaf"); }
                        if s.get(h).and_then(|n| n.as_leaf()) != Some(&l) { err = Some("insert handle"); }
                    }
                    Err(_) => if need + used <= cap { err = Some("insert refused although there is room"); }
                }
            }
            6..=8 => {
                let k = if !m.is_empty() && rng.chance(70) { let k: Vec<u128> = m.keys().cloned().collect(); rng.pick(&k) } else { key };
                log.push(format!("remove {:x}", k));
                if s.remove_by_key(k).map(|l| bytes_of(&l).to_vec()) != m.remove(&k) { err = Some("remove_by_key"); }
            }
            9 => { log.push("remove_min".into()); let k = m.keys().next().cloned(); if s.remove_min().map(|l| bytes_of(&l).to_vec()) != k.and_then(|k| m.remove(&k)) { err = Some("remove_min"); } }
            10 => { log.push("remove_max".into()); let k = m.keys().next_back().cloned(); if s.remove_max().map(|l| bytes_of(&l).to_vec()) != k.and_then(|k| m.remove(&k)) { err = Some("remove_max"); } }
            _ => if let Some(h) = s.find_min() { log.push("set quantity of the smallest".into()); let k = *m.keys().next().unwrap(); let q = rng.next(); if let Some(l) = s.get_mut(h).and_then(|n| n.as_leaf_mut()) { l.set_quantity(q); } let v = m.get_mut(&k).unwrap(); put(v, 56, q as u128, 8); },
        }
        let mn = s.find_min().and_then(|h| s.get(h)).and_then(|n| n.as_leaf()).map(|l| bytes_of(l).to_vec());
        let mx = s.find_max().and_then(|h| s.get(h)).and_then(|n| n.as_leaf()).map(|l| bytes_of(l).to_vec());
        if mn.as_ref() != m.values().next() { err = err.or(Some("find_min")); }
        if mx.as_ref() != m.values().next_back() { err = err.or(Some("find_max")); }
        let mut all: BTreeMap<u128, Vec<u8>> = BTreeMap::new();
        for h in 0..cap as u32 { if let Some(l) = s.get(h).and_then(|n: &AnyNode| n.as_leaf()) { all.insert(l.order_id(), bytes_of(l).to_vec()); } }
        if all != m { err = err.or(Some("contents")); }
        if let Some(e) = err { errs.insert(format!("TREE {} after {} operations on {} nodes: {}", e, step + 1, cap, log.join(", "))); return; }
    }
}

pub fn run(seed: u64) -> BTreeSet<String> {
    let mut errs = BTreeSet::new();
    let mut rng = Rng(seed.wrapping_mul(7_777_777).wrapping_add(5));
    wire(&mut rng, &mut errs);
    codec(&mut rng, &mut errs);
    for _ in 0..60 {
        let e = |n: u64| { let mut b = [0u8; 88]; put(&mut b, 8, n as u128, 8); of::<Event>(&b) };
        let r = |n: u64| { let mut b = [0u8; 80]; put(&mut b, 8, n as u128, 8); of::<Request>(&b) };
        let guard = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            ring::<EventQueueHeader>(&mut rng, &mut errs, true, e, |x| words(x)[1]);
            ring::<RequestQueueHeader>(&mut rng, &mut errs, false, r, |x| words(x)[1]);
        }));
        if guard.is_err() { errs.insert("RING queue operation panics".into()); }
    }
    for _ in 0..300 {
        let mut e2 = BTreeSet::new();
        let guard = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| tree(&mut rng, &mut e2)));
        if guard.is_err() { e2.insert("TREE book operation panics".into()); }
        errs.extend(e2);
    }
    errs
}
