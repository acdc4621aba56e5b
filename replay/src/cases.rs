use crate::oracle::{self as o, NoteParts, RawAction};
use crate::H;
use ff::{Field, PrimeField};
use group::{Group, GroupEncoding};
use incrementalmerkletree::{Hashable, Level};
use nonempty::NonEmpty;
use orchard::builder::{BuildError, Builder, BundleMetadata, BundleType, InProgress, OutputInfo, SpendError, SpendInfo, Unauthorized, Unproven};
use orchard::bundle::{Authorized, BatchValidator, Flags};
use orchard::circuit::{Instance, ProvingKey, VerifyingKey};
use orchard::keys::*;
use orchard::note::*;
use orchard::note_encryption::{CompactAction, OrchardDomain};
use orchard::primitives::redpallas::{self, Binding, SpendAuth, VerificationKey};
use orchard::tree::{MerkleHashOrchard, MerklePath};
use orchard::value::*;
use orchard::{Action, Address, Anchor, Bundle, Note, Proof};
use pasta_curves::pallas::{Base, Point, Scalar};
use rand::{RngCore, SeedableRng};
use std::convert::TryFrom;
use zcash_note_encryption::{batch, try_compact_note_decryption, try_note_decryption, try_output_recovery_with_ovk, BatchDomain, Domain, EphemeralKeyBytes, ShieldedOutput};

const SCOPES: [Scope; 2] = [Scope::External, Scope::Internal];
type Unproved = Bundle<InProgress<Unproven, Unauthorized>, i64>;

pub fn all(h: &mut H) {
    values(h);
    if h.any(&["P03", "P12"]) {
        commitments(h);
    }
    if h.any(&["P10", "P11", "P12", "P22"]) {
        keys(h);
    }
    if h.any(&["P10", "P12", "P18"]) {
        near_keys(h);
    }
    if h.any(&["P07", "P08", "P12", "P13", "P14"]) {
        notes(h);
    }
    if h.any(&["P09", "P12"]) {
        trees(h);
    }
    if h.on("P12") {
        encodings(h);
    }
    if h.any(&["P15", "P16", "P17", "P06", "P14", "P13", "P12", "P02", "P24", "P03", "P18"]) {
        bundles(h);
    }
    if h.any(&["P02", "P04", "P20", "P21", "P18"]) {
        building(h);
    }
    if h.on("P05") {
        circuits(h);
    }
    if h.any(&["P03", "P04", "P05", "P06", "P18", "P19", "P24"]) {
        proving(h);
    }
}

/// Keys that differ in one byte of their encoding are different keys.
fn near_keys(h: &mut H) {
    for _ in 0..3 {
        let (b, sk) = spending_key(h);
        let fvk = FullViewingKey::from(&sk);
        let raw = fvk.to_bytes();
        for i in 0..96 {
            for _ in 0..12 {
                let mut r = raw;
                let x = 1 + h.below(255) as u8;
                r[i] ^= if i % 32 == 31 { 1 << (x % 6) } else { x };
                let Some(f) = FullViewingKey::from_bytes(&r) else { continue };
                for p in ["P10", "P12", "P18"] {
                    h.check(p, "keys that differ in one byte", f != fvk && (i >= 32) == (SpendValidatingKey::from(f.clone()) == SpendValidatingKey::from(fvk.clone())), || format!("sk {} viewing key byte {i}: {}", hex(&b), hex(&r)));
                }
                if i >= 32 {
                    let same = SCOPES.iter().any(|s| f.to_ivk(*s) == fvk.to_ivk(*s)) ;
                    h.check("P10", "incoming keys of keys that differ in one byte", !same, || format!("sk {} viewing key byte {i}: {}", hex(&b), hex(&r)));
                }
                break;
            }
        }
        for i in 0..64 {
            let ivk = fvk.to_ivk(SCOPES[i % 2]);
            let mut r = ivk.to_bytes();
            r[i] ^= 1 << h.below(6);
            if let Some(k) = ct(IncomingViewingKey::from_bytes(&r)) {
                for p in ["P10", "P12"] {
                    h.check(p, "incoming keys that differ in one byte", k != ivk, || hex(&r));
                }
            }
        }
    }
}

fn memo(h: &mut H) -> [u8; 512] {
    let mut m = [0; 512];
    match h.below(6) {
        0 => (),
        1 => m[0] = 0xf6,
        2 => m = [0xff; 512],
        3 => m[..4].copy_from_slice(b"text"),
        _ => h.rng.fill_bytes(&mut m),
    }
    m
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn nv(v: u64) -> NoteValue {
    NoteValue::from_raw(v)
}
fn ct<T>(c: subtle::CtOption<T>) -> Option<T> {
    Option::from(c)
}

// ---------------------------------------------------------------- values

fn vs(v: i128) -> ValueSum {
    if v < 0 { nv(0) - nv((-v) as u64) } else { nv(v as u64) - nv(0) }
}

fn values(h: &mut H) {
    if !h.on("P01") {
        return;
    }
    const M: i128 = u64::MAX as i128;
    let mut n = 0;
    while n < 20000 && h.more() {
        n += 1;
        let (a, b) = (h.v64(), h.v64());
        let x = a as i128 - b as i128;
        let r = h.run(&["P01"], "difference of note values", || format!("{a} - {b}"), || nv(a) - nv(b));
        h.check("P01", "difference of note values", r.map_or(true, |r| r == vs(x)), || format!("{a} - {b}"));
        h.check("P01", "note value round trip", nv(a).inner() == a, || format!("{a}"));
        let y = if h.below(2) == 0 { h.v64() as i128 } else { -(h.v64() as i128) };
        let y = match h.below(4) { 0 => (M - x).clamp(-M, M), 1 => (-M - x).clamp(-M, M), _ => y };
        let s = h.run(&["P01"], "sum of two value sums", || format!("{x} + {y}"), || vs(x) + vs(y)).flatten();
        let want = if (x + y).abs() <= M { Some(vs(x + y)) } else { None };
        h.check("P01", "sum of two value sums", s == want, || format!("{x} + {y} = {s:?}, expected {want:?}"));
        let i = h.run(&["P01"], "conversion to i64", || format!("{x}"), || i64::try_from(vs(x)).ok()).flatten();
        h.check("P01", "conversion to i64", i == i64::try_from(x).ok(), || format!("{x} -> {i:?}"));
        let len = h.below(5);
        let mut l = vec![];
        for _ in 0..len {
            let v = h.v64() as i128;
            l.push(if h.below(2) == 0 { v } else { -v });
        }
        if h.below(2) == 0 {
            if let Some(f) = l.first().copied() {
                l.push(-f);
            }
        }
        let mut acc = Some(0i128);
        for v in &l {
            acc = acc.map(|a| a + v).filter(|a| a.abs() <= M);
        }
        let r: Result<ValueSum, OverflowError> = l.iter().map(|v| vs(*v)).sum();
        h.check("P01", "sum of a list", r.is_ok() == acc.is_some() && r.as_ref().ok().copied() == acc.map(vs), || format!("{l:?} -> {r:?}"));
        let tmp: Vec<ValueSum> = l.iter().map(|v| vs(*v)).collect();
        let r: Result<ValueSum, OverflowError> = tmp.iter().sum();
        h.check("P01", "sum of a list of references", r.is_ok() == acc.is_some() && r.as_ref().ok().copied() == acc.map(vs), || format!("{l:?} -> {r:?}"));
    }
    for v in [i64::MIN as i128 - 1, i64::MIN as i128, i64::MIN as i128 + 1, -1, 0, 1, i64::MAX as i128, i64::MAX as i128 + 1, M, -M] {
        let i = i64::try_from(vs(v)).ok();
        h.check("P01", "conversion to i64", i == i64::try_from(v).ok(), || format!("{v} -> {i:?}"));
        h.check("P01", "sum of two value sums", vs(v) + vs(0) == Some(vs(v)), || format!("{v} + 0"));
    }
}

fn trapdoor(s: &Scalar) -> ValueCommitTrapdoor {
    ValueCommitTrapdoor::from_bytes(s.to_repr()).unwrap()
}

fn commitments(h: &mut H) {
    let mut n = 0;
    while n < 400 && h.more() {
        n += 1;
        let v = h.v64() as i128 * if h.below(2) == 0 { 1 } else { -1 };
        let w = match h.below(3) { 0 => -v, _ => h.v64() as i128 };
        let (r, s) = match h.below(4) { 0 => (Scalar::ZERO, -Scalar::ONE), _ => (Scalar::random(&mut h.rng), Scalar::random(&mut h.rng)) };
        let a = h.run(&["P03"], "value commitment", || format!("{v}"), || ValueCommitment::derive(vs(v), trapdoor(&r)));
        let Some(a) = a else { continue };
        h.check("P03", "value commitment", a.to_bytes() == o::value_commit(v, &r).to_bytes(), || format!("v = {v}, r = {r:?}"));
        let b = ValueCommitment::derive(vs(w), trapdoor(&s));
        let sum = o::value_commit(v, &r) + o::value_commit(w, &s);
        h.check("P03", "sum of two commitments", (a.clone() + &b).to_bytes() == sum.to_bytes(), || format!("v = {v}, {w}"));
        h.check("P03", "difference of two commitments", (a.clone() - b.clone()).to_bytes() == (o::value_commit(v, &r) - o::value_commit(w, &s)).to_bytes(), || format!("v = {v}, {w}"));
        let c: ValueCommitment = [a.clone(), b.clone()].iter().sum();
        let d: ValueCommitment = [a.clone(), b.clone()].into_iter().sum();
        h.check("P03", "sum of a list of commitments", c.to_bytes() == sum.to_bytes() && d.to_bytes() == sum.to_bytes(), || format!("v = {v}, {w}"));
        let t: ValueCommitTrapdoor = [trapdoor(&r), trapdoor(&s)].iter().sum();
        let e = ValueCommitment::derive(vs(0), t.clone());
        let f = ValueCommitment::derive(vs(0), trapdoor(&r) + &trapdoor(&s));
        h.check("P03", "sum of trapdoors", e.to_bytes() == o::value_commit(0, &(r + s)).to_bytes() && f.to_bytes() == e.to_bytes(), || format!("{r:?} + {s:?}"));
        let k = 1 + h.below(5) as i128;
        let list: Vec<ValueCommitment> = (0..k).map(|_| a.clone()).collect();
        let twice = o::value_commit(v, &r) * Scalar::from(k as u64);
        let (c, e): (ValueCommitment, ValueCommitment) = (list.iter().sum(), list.iter().cloned().collect::<Vec<_>>().iter().sum());
        h.check("P03", "sum of equal commitments", c.to_bytes() == twice.to_bytes() && e.to_bytes() == c.to_bytes(), || format!("{k} times v = {v}"));
        let z = (a.clone() - a.clone()) + &b;
        h.check("P03", "a commitment minus itself", z.to_bytes() == b.to_bytes(), || format!("v = {v}, {w}"));
        let t: ValueCommitTrapdoor = (0..k).map(|_| trapdoor(&r)).collect::<Vec<_>>().iter().sum();
        h.check("P03", "sum of equal trapdoors", ValueCommitment::derive(vs(0), t).to_bytes() == o::value_commit(0, &(r * Scalar::from(k as u64))).to_bytes(), || format!("{k} times {r:?}"));
        let b = a.to_bytes();
        h.check("P03", "commitment encoding", ct(ValueCommitment::from_bytes(&b)).map(|c| c.to_bytes()) == Some(b), || hex(&b));
        let raw = point_bytes(h);
        let want = ct(Point::from_bytes(&raw)).is_some();
        let got = ct(ValueCommitment::from_bytes(&raw)).map(|c| c.to_bytes());
        for p in ["P03", "P12"] {
            h.check(p, "commitment decoding", got == if want { Some(raw) } else { None }, || hex(&raw));
        }
        let raw = field_bytes(h);
        let got = ct(ValueCommitTrapdoor::from_bytes(raw)).is_some();
        for p in ["P03", "P12"] {
            h.check(p, "trapdoor decoding", got == ct(Scalar::from_repr(raw)).is_some(), || hex(&raw));
        }
    }
}

/// A 32-byte string: valid, nearly valid or random point encodings.
fn point_bytes(h: &mut H) -> [u8; 32] {
    let mut b = match h.below(6) {
        0 => [0; 32],
        1 => h.bytes(),
        2 => Base::ZERO.to_repr(),
        _ => Point::random(&mut h.rng).to_bytes(),
    };
    match h.below(6) {
        0 => b[31] ^= 0x80,
        1 => b[h.below(32) as usize] ^= 1 << h.below(8),
        2 => b[31] |= 0x40,
        _ => {}
    }
    b
}

/// A 32-byte string around the field moduli.
fn field_bytes(h: &mut H) -> [u8; 32] {
    let mut b = match h.below(7) {
        0 => [0; 32],
        1 => h.bytes(),
        2 => (-Base::ONE).to_repr(),
        3 => (-Scalar::ONE).to_repr(),
        4 => {
            let mut b = (-Base::ONE).to_repr();
            b[0] = b[0].wrapping_add(1 + h.below(3) as u8);
            b
        }
        5 => {
            let mut b = (-Scalar::ONE).to_repr();
            b[0] = b[0].wrapping_add(1 + h.below(3) as u8);
            b
        }
        _ => Base::random(&mut h.rng).to_repr(),
    };
    if h.below(4) == 0 {
        b[31] |= 0x80 >> h.below(2);
    }
    b
}

// ---------------------------------------------------------------- keys

fn spending_key(h: &mut H) -> ([u8; 32], SpendingKey) {
    loop {
        let b: [u8; 32] = match h.below(8) { 0 => [h.below(256) as u8; 32], _ => h.bytes() };
        if let Some(sk) = ct(SpendingKey::from_bytes(b)) {
            return (b, sk);
        }
    }
}

fn index(h: &mut H) -> [u8; 11] {
    match h.below(4) {
        0 => [0; 11],
        1 => [0xff; 11],
        2 => {
            let mut b = [0; 11];
            b[..8].copy_from_slice(&h.v64().to_le_bytes());
            b
        }
        _ => h.bytes(),
    }
}

fn keys(h: &mut H) {
    let mut n = 0;
    while n < 60 && h.more() {
        n += 1;
        let (b, sk) = spending_key(h);
        let k = o::keys(&b);
        let d = || format!("sk = {}", hex(&b));
        let Some(fvk) = h.run(&["P10"], "viewing key", d, || FullViewingKey::from(&sk)) else { continue };
        h.check("P10", "full viewing key of a spending key", fvk.to_bytes() == k.fvk_bytes, d);
        h.check("P10", "spending key round trip", *sk.to_bytes() == b, d);
        let ask = SpendAuthorizingKey::from(&sk);
        let alpha = Scalar::random(&mut h.rng);
        let rsk: [u8; 32] = ask.randomize(&alpha).into();
        h.check("P10", "spend authorizing key", rsk == (k.ask + alpha).to_repr(), d);
        let ak = SpendValidatingKey::from(fvk.clone());
        let rk: [u8; 32] = ak.randomize(&alpha).into();
        h.check("P10", "spend validating key", rk == (o::h2c("z.cash:Orchard", b"G") * (k.ask + alpha)).to_bytes(), d);
        h.check("P10", "decoded viewing key is the same", FullViewingKey::from_bytes(&fvk.to_bytes()).as_ref() == Some(&fvk), d);
        let mut w = vec![];
        let io = fvk.write(&mut w).is_ok() && FullViewingKey::read(&w[..]).ok().as_ref() == Some(&fvk) && w == k.fvk_bytes;
        h.check("P12", "viewing key write and read", io, d);
        h.check("P12", "viewing key short read", FullViewingKey::read(&w[..95]).is_err(), d);
        for s in 0..2 {
            let ivk = fvk.to_ivk(SCOPES[s]);
            let mut want = [0; 64];
            want[..32].copy_from_slice(&k.dk[s]);
            want[32..].copy_from_slice(&k.ivk[s].to_repr());
            h.check("P10", "incoming viewing key", ivk.to_bytes() == want, || format!("{} scope {s}", d()));
            h.check("P10", "outgoing viewing key", *fvk.to_ovk(SCOPES[s]).as_ref() == k.ovk[s], || format!("{} scope {s}", d()));
            h.check("P12", "incoming viewing key round trip", ct(IncomingViewingKey::from_bytes(&want)).map(|i| i.to_bytes()) == Some(want), || hex(&want));
            for _ in 0..3 {
                let j = index(h);
                let dj = || format!("{} scope {s} index {}", d(), hex(&j));
                let div = o::diversifier(&k.dk[s], &j);
                let want = o::address(&k.ivk[s], &div);
                let ji = DiversifierIndex::from(j);
                let a = ivk.address_at(ji);
                h.check("P11", "address at an index", a.to_raw_address_bytes() == want && fvk.address_at(ji, SCOPES[s]) == a, dj);
                h.check("P11", "address of a diversifier", ivk.address(Diversifier::from_bytes(div)) == a && fvk.address(Diversifier::from_bytes(div), SCOPES[s]) == a, dj);
                h.check("P11", "index of an address", ivk.diversifier_index(&a) == Some(ji), dj);
                h.check("P11", "scope of an address", fvk.scope_for_address(&a) == Some(SCOPES[s]), dj);
                h.check("P11", "diversifier of an address", *a.diversifier().as_array() == div, dj);
                // The same diversifier under other keys, other diversifiers under the same transmission key.
                let (ob, other) = spending_key(h);
                let other = FullViewingKey::from(&other);
                let foreign = other.address(a.diversifier(), SCOPES[s]);
                if ob != b {
                    h.check("P11", "foreign address with a known diversifier", ivk.diversifier_index(&foreign).is_none() && fvk.scope_for_address(&foreign).is_none(), dj);
                }
                let cross = fvk.to_ivk(SCOPES[1 - s]).diversifier_index(&a);
                h.check("P11", "address under the other scope", cross.is_none(), dj);
                let mut raw = want;
                raw[..11].copy_from_slice(&h.bytes::<11>());
                if raw != want {
                    let mixed = Address::from_raw_address_bytes(&raw).unwrap();
                    h.check("P11", "another diversifier with a known transmission key", fvk.scope_for_address(&mixed).is_none(), || hex(&raw));
                }
            }
        }
        // Encodings of viewing keys and addresses.
        let mut raw = k.fvk_bytes;
        let part = h.below(4) as usize;
        let x = match part { 0 => point_bytes(h), 3 => [0; 32], _ => field_bytes(h) };
        let at = 32 * if part == 3 { 0 } else { part };
        raw[at..at + 32].copy_from_slice(&x);
        let want = {
            let a: [u8; 32] = raw[..32].try_into().unwrap();
            let ok = a[31] & 0x80 == 0 && a != [0; 32] && ct(Point::from_bytes(&a)).is_some();
            ok && ct(Base::from_repr(raw[32..64].try_into().unwrap())).is_some() && ct(Scalar::from_repr(raw[64..].try_into().unwrap())).is_some()
        };
        let got = h.run(&["P12", "P10"], "viewing key decoding", || hex(&raw), || FullViewingKey::from_bytes(&raw).map(|f| f.to_bytes())).flatten();
        for p in ["P12", "P10"] {
            h.check(p, "viewing key decoding", got == if want { Some(raw) } else { None }, || format!("{} -> {:?}", hex(&raw), got.map(|g| hex(&g))));
        }
        if let Some(f) = FullViewingKey::from_bytes(&raw).filter(|_| want) {
            let k = o::view_keys(Scalar::ZERO, raw[..32].try_into().unwrap(), Base::from_repr(raw[32..64].try_into().unwrap()).unwrap(), Scalar::from_repr(raw[64..].try_into().unwrap()).unwrap());
            for s in 0..2 {
                let got = h.run(&["P10", "P11"], "derivation from a decoded key", || hex(&raw), || {
                    (f.to_ivk(SCOPES[s]).to_bytes(), *f.to_ovk(SCOPES[s]).as_ref(), f.address_at(0u32, SCOPES[s]).to_raw_address_bytes())
                });
                let ivk = [k.dk[s], k.ivk[s].to_repr()].concat();
                let adr = o::address(&k.ivk[s], &o::diversifier(&k.dk[s], &[0; 11]));
                if let Some((a, b, c)) = got {
                    h.check("P10", "keys derived from a decoded key", a[..] == ivk[..] && b == k.ovk[s], || format!("{} scope {s}", hex(&raw)));
                    h.check("P11", "address of a decoded key", c == adr, || format!("{} scope {s}", hex(&raw)));
                }
            }
        }
        let mut ivk = [0; 64];
        ivk[..32].copy_from_slice(&h.bytes::<32>());
        let x = field_bytes(h);
        ivk[32..].copy_from_slice(&x);
        let want = x != [0; 32] && ct(Base::from_repr(x)).is_some();
        let got = ct(IncomingViewingKey::from_bytes(&ivk)).map(|i| i.to_bytes());
        for p in ["P12", "P10"] {
            h.check(p, "incoming viewing key decoding", got == if want { Some(ivk) } else { None }, || hex(&ivk));
        }
        let mut raw = [0; 43];
        raw[..11].copy_from_slice(&h.bytes::<11>());
        let x = point_bytes(h);
        raw[11..].copy_from_slice(&x);
        let want = x != [0; 32] && ct(Point::from_bytes(&x)).is_some();
        let got = ct(Address::from_raw_address_bytes(&raw)).map(|a| a.to_raw_address_bytes());
        for p in ["P12", "P11"] {
            h.check(p, "address decoding", got == if want { Some(raw) } else { None }, || hex(&raw));
        }
        h.check("P12", "outgoing viewing key", *OutgoingViewingKey::from(b).as_ref() == b, d);
        // ZIP 32
        let mut seed = vec![0; 32 + h.below(221) as usize];
        h.rng.fill_bytes(&mut seed);
        let coin = match h.below(4) { 0 => 133, 1 => 0x7fff_ffff, 2 => 0x8000_0000, _ => h.rng.next_u32() };
        let acct = h.rng.next_u32() & 0x7fff_ffff;
        let got = h.run(&["P22"], "account key", || format!("coin {coin:x}"), || SpendingKey::from_zip32_seed(&seed, coin, zip32::AccountId::try_from(acct).unwrap()).ok().map(|s| *s.to_bytes())).flatten();
        let want = if coin >= 1 << 31 { None } else { Some(o::zip32(&seed, &[0x8000_0020, coin | 1 << 31, acct | 1 << 31])) };
        h.check("P22", "account key", got == want, || format!("seed {} coin {coin:x} account {acct:x}", hex(&seed)));
    }
}

// ---------------------------------------------------------------- notes

fn parts(n: &Note) -> NoteParts {
    NoteParts { addr: n.recipient().to_raw_address_bytes(), v: n.value().inner(), rho: Base::from_repr(n.rho().to_bytes()).unwrap(), rseed: *n.rseed().as_bytes() }
}

fn note_for(h: &mut H, to: Address, v: u64) -> Note {
    loop {
        let rho = match h.below(6) { 0 => Base::ZERO, 1 => -Base::ONE, _ => Base::random(&mut h.rng) };
        let rho = Rho::from_bytes(&rho.to_repr()).unwrap();
        let b = h.bytes();
        if let Some(rs) = ct(RandomSeed::from_bytes(b, &rho)) {
            if let Some(n) = ct(Note::from_parts(to, nv(v), rho, rs)) {
                return n;
            }
        }
    }
}

fn address(h: &mut H) -> (FullViewingKey, o::Keys, Scope, Address) {
    let (b, sk) = spending_key(h);
    let s = h.below(2) as usize;
    let f = FullViewingKey::from(&sk);
    let a = f.address_at(DiversifierIndex::from(index(h)), SCOPES[s]);
    (f, o::keys(&b), SCOPES[s], a)
}

fn notes(h: &mut H) {
    let mut n = 0;
    while n < 60 && h.more() {
        n += 1;
        let (fvk, k, scope, to) = address(h);
        let v = h.v64();
        let note = note_for(h, to, v);
        let p = parts(&note);
        let d = || format!("{:?}", parts(&note));
        let cm = p.cm();
        let cmx = cm.as_ref().map(o::x_of);
        let ecm: ExtractedNoteCommitment = note.commitment().into();
        h.check("P07", "note commitment", Some(ecm.to_bytes()) == cmx.map(|c| c.to_repr()), d);
        h.check("P07", "note parts", note.value() == nv(v) && note.recipient() == to, d);
        h.check("P08", "nullifier", note.nullifier(&fvk).to_bytes() == p.nullifier(&k.nk).to_repr(), d);
        let (other, ok, ..) = address(h);
        h.check("P08", "nullifier under another key", note.nullifier(&other).to_bytes() == p.nullifier(&ok.nk).to_repr(), d);
        // Note plaintexts.
        let mut memo = [0u8; 512];
        h.rng.fill_bytes(&mut memo);
        let np = OrchardDomain::note_plaintext_bytes(&note, &memo);
        let mut want = vec![2u8];
        want.extend_from_slice(&p.addr[..11]);
        want.extend_from_slice(&v.to_le_bytes());
        want.extend_from_slice(&p.rseed);
        want.extend_from_slice(&memo);
        h.check("P13", "note plaintext", np.0[..] == want[..], d);
        let compact = CompactAction::from_parts(Nullifier::from_bytes(&note.rho().to_bytes()).unwrap(), ecm, EphemeralKeyBytes([0; 32]), [0; 52]);
        let dom = OrchardDomain::for_compact_action(&compact);
        h.check("P13", "memo", dom.extract_memo(&np) == memo, d);
        let ivk = fvk.to_ivk(scope).prepare();
        for _ in 0..4 {
            let mut q = want[..52].to_vec();
            match h.below(4) {
                0 => q[0] = h.below(256) as u8,
                1 => q[0] ^= 1 << h.below(8),
                2 => {
                    let i = 1 + h.below(51) as usize;
                    q[i] ^= 1 << h.below(8);
                }
                _ => {}
            }
            let got = h.run(&["P13"], "note plaintext decoding", || hex(&q), || dom.parse_note_plaintext_without_memo_ivk(&ivk, &q)).flatten();
            let s = SCOPES.iter().position(|s| *s == scope).unwrap();
            let want = NoteParts { addr: o::address(&k.ivk[s], &q[1..12].try_into().unwrap()), v: u64::from_le_bytes(q[12..20].try_into().unwrap()), rho: p.rho, rseed: q[20..52].try_into().unwrap() };
            let ok = q[0] == 2 && !bool::from(want.esk().is_zero()) && want.cm().is_some();
            let same = match &got {
                None => !ok,
                Some((n, a)) => ok && a.to_raw_address_bytes() == want.addr && format!("{:?}", parts(n)) == format!("{want:?}"),
            };
            h.check("P13", "note plaintext decoding", same, || format!("{} -> {got:?}", hex(&q)));
            let pk_d = OrchardDomain::get_pk_d(&note);
            let mut full = zcash_note_encryption::NotePlaintextBytes([0; 564]);
            full.0[..52].copy_from_slice(&q);
            let got = dom.parse_note_plaintext_without_memo_ovk(&pk_d, &full);
            let same = match &got {
                None => q[0] != 2,
                Some((n, a)) => q[0] == 2 && a.to_raw_address_bytes()[11..] == p.addr[11..] && a.to_raw_address_bytes()[..11] == q[1..12] && parts(n).v == u64::from_le_bytes(q[12..20].try_into().unwrap()) && parts(n).rseed[..] == q[20..52] && parts(n).rho == p.rho,
            };
            h.check("P13", "note plaintext decoding with the transmission key", same, || format!("{} -> {got:?}", hex(&q)));
        }
        // Key agreement.
        let esk = OrchardDomain::derive_esk(&note).unwrap();
        let epk = OrchardDomain::ka_derive_public(&note, &esk);
        let epkb = OrchardDomain::epk_bytes(&epk);
        h.check("P14", "ephemeral key", epkb.0 == p.epk(), d);
        h.check("P07", "ephemeral key", epkb.0 == p.epk(), d);
        let send = OrchardDomain::kdf(OrchardDomain::ka_agree_enc(&esk, &OrchardDomain::get_pk_d(&note)), &epkb);
        let recv = OrchardDomain::kdf(OrchardDomain::ka_agree_dec(&ivk, &OrchardDomain::prepare_epk(OrchardDomain::epk(&epkb).unwrap())), &epkb);
        let want = o::kdf(&(p.pk_d() * p.esk()), &epkb.0);
        h.check("P14", "symmetric key", AsRef::<[u8]>::as_ref(&send) == want && AsRef::<[u8]>::as_ref(&recv) == want, d);
        let cv = ValueCommitment::derive(vs(v as i128), trapdoor(&Scalar::random(&mut h.rng)));
        let ovk = h.bytes::<32>();
        let ock = OrchardDomain::derive_ock(&OutgoingViewingKey::from(ovk), &cv, &ecm.to_bytes(), &epkb);
        h.check("P14", "outgoing cipher key", AsRef::<[u8]>::as_ref(&ock) == o::ock(&ovk, &cv.to_bytes(), &ecm.to_bytes(), &epkb.0), d);
        let op = OrchardDomain::outgoing_plaintext_bytes(&note, &esk);
        let mut want = p.addr[11..].to_vec();
        want.extend_from_slice(&p.esk().to_repr());
        h.check("P13", "outgoing plaintext", op.0[..] == want[..], d);
        h.check("P13", "transmission key of an outgoing plaintext", OrchardDomain::extract_pk_d(&op) == Some(OrchardDomain::get_pk_d(&note)), d);
        let back = OrchardDomain::extract_esk(&op).map(|e| OrchardDomain::epk_bytes(&OrchardDomain::ka_derive_public(&note, &e)).0);
        h.check("P13", "ephemeral secret of an outgoing plaintext", back == Some(p.epk()), d);
        let mut op = op;
        let (x, y) = (point_bytes(h), field_bytes(h));
        op.0[..32].copy_from_slice(&x);
        op.0[32..].copy_from_slice(&y);
        let okx = x != [0; 32] && ct(Point::from_bytes(&x)).is_some();
        let oky = y != [0; 32] && ct(Scalar::from_repr(y)).is_some();
        h.check("P13", "invalid outgoing plaintext", OrchardDomain::extract_pk_d(&op).is_some() == okx && OrchardDomain::extract_esk(&op).is_some() == oky, || format!("{} {}", hex(&x), hex(&y)));
        let e = OrchardDomain::epk(&EphemeralKeyBytes(x)).map(|e| OrchardDomain::epk_bytes(&e).0);
        h.check("P12", "ephemeral key decoding", e == if okx { Some(x) } else { None }, || hex(&x));
        // Random seeds: the zero ephemeral secret cannot be hit; the rest must be accepted.
        let rs = h.bytes();
        h.check("P07", "random seed", ct(RandomSeed::from_bytes(rs, &note.rho())).map(|r| *r.as_bytes()) == Some(rs), d);
    }
    if h.on("P14") {
        for n in [0usize, 1, 2, 3, 63, 64, 65, 100, 300] {
            let mut items = vec![];
            for _ in 0..n {
                let (f, _, s, to) = address(h);
                let note = note_for(h, to, 3);
                let esk = OrchardDomain::derive_esk(&note).unwrap();
                let epkb = OrchardDomain::epk_bytes(&OrchardDomain::ka_derive_public(&note, &esk));
                let _ = (f, s);
                items.push((h.below(4) > 0, note, epkb));
            }
            let secret = |n: &Note| OrchardDomain::ka_agree_enc(&OrchardDomain::derive_esk(n).unwrap(), &OrchardDomain::get_pk_d(n));
            let got = h.run(&["P14"], "batched key derivation", || format!("{n} items"), || OrchardDomain::batch_kdf(items.iter().map(|(some, note, e)| (if *some { Some(secret(note)) } else { None }, e))));
            let want: Vec<Option<[u8; 32]>> = items.iter().map(|(some, note, e)| if *some { Some(o::kdf(&(parts(note).pk_d() * parts(note).esk()), &e.0)) } else { None }).collect();
            if let Some(got) = got {
                let got: Vec<Option<[u8; 32]>> = got.into_iter().map(|k| k.map(|k| AsRef::<[u8]>::as_ref(&k).try_into().unwrap())).collect();
                h.check("P14", "batched key derivation", got == want, || format!("{n} items, present: {:?}", items.iter().map(|i| i.0).collect::<Vec<_>>()));
            }
        }
    }
}

// ---------------------------------------------------------------- tree

fn nodes(p: &[Base; 32]) -> [MerkleHashOrchard; 32] {
    p.iter().map(|x| MerkleHashOrchard::from_bytes(&x.to_repr()).unwrap()).collect::<Vec<_>>().try_into().unwrap()
}

fn path_for(h: &mut H) -> (u32, [Base; 32], MerklePath) {
    let pos = match h.below(5) { 0 => 0, 1 => u32::MAX, 2 => 1 << h.below(32), 3 => !(1u32 << h.below(32)), _ => h.rng.next_u32() };
    let mut p = [Base::ZERO; 32];
    for x in p.iter_mut() {
        *x = match h.below(8) { 0 => Base::ZERO, 1 => -Base::ONE, _ => Base::random(&mut h.rng) };
    }
    (pos, p, MerklePath::from_parts(pos, nodes(&p)))
}

fn trees(h: &mut H) {
    let mut n = 0;
    while n < 60 && h.more() {
        n += 1;
        let (pos, p, path) = path_for(h);
        let leaf = match h.below(5) { 0 => Base::ZERO, 1 => -Base::ONE, _ => Base::random(&mut h.rng) };
        let cmx = ExtractedNoteCommitment::from_bytes(&leaf.to_repr()).unwrap();
        let got = h.run(&["P09"], "root of a path", || format!("position {pos:#x}"), || path.root(cmx).to_bytes());
        h.check("P09", "root of a path", got.map_or(true, |g| g == o::merkle_root(leaf, pos, &p).to_repr()), || format!("position {pos:#x}, leaf {leaf:?}"));
        h.check("P09", "leaf of a commitment", MerkleHashOrchard::from_cmx(&cmx).to_bytes() == leaf.to_repr(), || format!("{leaf:?}"));
        let l = h.below(32) as u8;
        let node = |x: &Base| MerkleHashOrchard::from_bytes(&x.to_repr()).unwrap();
        let (a, b) = (p[0], p[1]);
        let got = h.run(&["P09"], "node hash", || format!("level {l}"), || MerkleHashOrchard::combine(Level::from(l), &node(&a), &node(&b)).to_bytes());
        h.check("P09", "node hash", got == Some(o::merkle_node(l, &a, &b).to_repr()), || format!("level {l} {a:?} {b:?}"));
        let raw = field_bytes(h);
        let want = if ct(Base::from_repr(raw)).is_some() { Some(raw) } else { None };
        let r = [ct(Anchor::from_bytes(raw)).map(|a| a.to_bytes()), ct(MerkleHashOrchard::from_bytes(&raw)).map(|a| a.to_bytes())];
        for p in ["P09", "P12"] {
            h.check(p, "anchor and node encodings", r[0] == want && r[1] == want, || hex(&raw));
        }
    }
    let mut e = Base::from(2);
    h.check("P09", "empty leaf", MerkleHashOrchard::empty_leaf().to_bytes() == e.to_repr(), String::new);
    for l in 0..=32u8 {
        h.check("P09", "empty subtree root", MerkleHashOrchard::empty_root(Level::from(l)).to_bytes() == e.to_repr(), || format!("level {l}"));
        if l < 32 {
            e = o::merkle_node(l, &e, &e);
        }
    }
    h.check("P09", "empty tree", Anchor::empty_tree().to_bytes() == e.to_repr(), String::new);
}

fn encodings(h: &mut H) {
    for b in 0..=255u8 {
        let f = Flags::from_byte(b);
        let ok = match f { Some(f) => b < 4 && f.to_byte() == b && f.spends_enabled() == (b & 1 == 1) && f.outputs_enabled() == (b & 2 == 2), None => b > 3 };
        h.check("P12", "flags", ok, || format!("{b:#x}"));
    }
    let mut n = 0;
    while n < 2000 && h.more() {
        n += 1;
        let raw = field_bytes(h);
        let want = if ct(Base::from_repr(raw)).is_some() { Some(raw) } else { None };
        h.check("P12", "nullifier", ct(Nullifier::from_bytes(&raw)).map(|x| x.to_bytes()) == want, || hex(&raw));
        h.check("P12", "extracted commitment", ct(ExtractedNoteCommitment::from_bytes(&raw)).map(|x| x.to_bytes()) == want, || hex(&raw));
        h.check("P12", "rho", ct(Rho::from_bytes(&raw)).map(|x| x.to_bytes()) == want, || hex(&raw));
        let p = point_bytes(h);
        let want = if ct(Point::from_bytes(&p)).is_some() { Some(p) } else { None };
        let got = VerificationKey::<SpendAuth>::try_from(p).ok().map(|k| <[u8; 32]>::from(&k));
        h.check("P12", "verification key", got == want, || hex(&p));
        let got = VerificationKey::<Binding>::try_from(p).ok().map(|k| <[u8; 32]>::from(&k));
        h.check("P12", "binding verification key", got == want, || hex(&p));
        let s: [u8; 64] = h.bytes();
        h.check("P12", "signature", <[u8; 64]>::from(&redpallas::Signature::<SpendAuth>::from(s)) == s, || hex(&s));
        let pr: Vec<u8> = s[..(n % 64) as usize].to_vec();
        h.check("P12", "proof", Proof::new(pr.clone()).as_ref() == &pr[..], || hex(&pr));
        let d: [u8; 11] = h.bytes();
        h.check("P12", "diversifier", *Diversifier::from_bytes(d).as_array() == d, || hex(&d));
    }
}

// ---------------------------------------------------------------- bundles of arbitrary content

fn sig_b(h: &mut H) -> [u8; 64] {
    h.bytes()
}

fn raw_action(h: &mut H) -> RawAction {
    RawAction {
        nf: Base::random(&mut h.rng).to_repr(),
        rk: if h.below(12) == 0 { [0; 32] } else { Point::random(&mut h.rng).to_bytes() },
        cmx: Base::random(&mut h.rng).to_repr(),
        epk: Point::random(&mut h.rng).to_bytes(),
        enc: h.bytes(),
        out: h.bytes(),
        cv: if h.below(12) == 0 { [0; 32] } else { Point::random(&mut h.rng).to_bytes() },
        sig: sig_b(h),
    }
}
fn real_action(r: &RawAction) -> Action<redpallas::Signature<SpendAuth>> {
    Action::from_parts(
        Nullifier::from_bytes(&r.nf).unwrap(),
        VerificationKey::try_from(r.rk).unwrap(),
        ExtractedNoteCommitment::from_bytes(&r.cmx).unwrap(),
        TransmittedNoteCiphertext { epk_bytes: r.epk, enc_ciphertext: r.enc, out_ciphertext: r.out },
        ValueCommitment::from_bytes(&r.cv).unwrap(),
        r.sig.into(),
    )
}
fn raw_of<A>(a: &Action<A>, sig: [u8; 64]) -> RawAction {
    RawAction { nf: a.nullifier().to_bytes(), rk: a.rk().into(), cmx: a.cmx().to_bytes(), epk: a.encrypted_note().epk_bytes, enc: a.encrypted_note().enc_ciphertext, out: a.encrypted_note().out_ciphertext, cv: a.cv_net().to_bytes(), sig }
}
fn same_raw(a: &RawAction, b: &RawAction) -> bool {
    format!("{a:?}") == format!("{b:?}")
}
fn a_flags(h: &mut H) -> Flags {
    Flags::from_byte(h.below(4) as u8).unwrap()
}
fn digest32(b: &blake2b_simd::Hash) -> [u8; 32] {
    b.as_bytes().try_into().unwrap()
}

fn bundles(h: &mut H) {
    let mut n = 0;
    if h.any(&["P16", "P17"]) {
        let empty: [u8; 32] = digest32(&orchard::bundle::commitments::hash_bundle_txid_empty());
        h.check("P16", "digest of an absent bundle", empty == o::txid_digest(&[], 0, 0, &[0; 32]), String::new);
        let e = digest32(&orchard::bundle::commitments::hash_bundle_auth_empty());
        h.check("P17", "digest of an absent bundle", e == o::empty_auth(), String::new);
    }
    while n < 60 && h.more() {
        n += 1;
        let count = if n == 1 { 300 } else { [1usize, 2, 3, 5, 17, 40, 70][h.below(7) as usize] };
        let raws: Vec<RawAction> = (0..count).map(|_| raw_action(h)).collect();
        let flags = a_flags(h);
        let bal = match h.below(5) { 0 => i64::MIN, 1 => i64::MAX, 2 => 0, 3 => -1, _ => h.rng.next_u64() as i64 };
        let anchor = Base::random(&mut h.rng).to_repr();
        let bsig = sig_b(h);
        let mut proof = vec![0; [0usize, 1, 100, 5000, 65535, 65536, 65537, 140000][h.below(8) as usize]];
        h.rng.fill_bytes(&mut proof);
        let b: Bundle<Authorized, i64> = Bundle::from_parts(
            NonEmpty::from_vec(raws.iter().map(real_action).collect()).unwrap(),
            flags,
            bal,
            Anchor::from_bytes(anchor).unwrap(),
            Authorized::from_parts(Proof::new(proof.clone()), bsig.into()),
        );
        let d = || format!("{count} actions, flags {:#x}, balance {bal}", flags.to_byte());
        let got = h.run(&["P16"], "txid digest", d, || <[u8; 32]>::from(b.commitment()));
        h.check("P16", "txid digest", got == Some(o::txid_digest(&raws, flags.to_byte(), bal, &anchor)), d);
        h.check("P17", "authorizing digest", digest32(&b.authorizing_commitment().0) == o::auth_digest(&proof, &raws, &bsig), d);
        let bvk = h.run(&["P03"], "binding key", d, || <[u8; 32]>::from(&b.binding_validating_key()));
        let mut want = Point::identity();
        for r in &raws {
            want += Point::from_bytes(&r.cv).unwrap();
        }
        want -= o::value_commit(bal as i128, &Scalar::ZERO);
        for p in ["P03", "P19"] {
            h.check(p, "binding key", bvk == Some(want.to_bytes()), d);
        }
        // Public inputs of arbitrary actions, as seen by Debug output.
        for (r, a) in raws.iter().zip(b.actions().iter()) {
            let got = h.run(&["P06"], "instance", d, || format!("{:?}", a.to_instance(flags, Anchor::from_bytes(anchor).unwrap())));
            let want = Instance::from_parts(
                Anchor::from_bytes(anchor).unwrap(),
                ValueCommitment::from_bytes(&r.cv).unwrap(),
                Nullifier::from_bytes(&r.nf).unwrap(),
                VerificationKey::try_from(r.rk).unwrap(),
                ExtractedNoteCommitment::from_bytes(&r.cmx).unwrap(),
                flags.spends_enabled(),
                flags.outputs_enabled(),
            );
            h.check("P06", "instance", got == Some(format!("{want:?}")), d);
        }
        // Changing the amount type or the authorization changes nothing else.
        let c = b.clone().try_map_value_balance(|v| Ok::<i128, ()>(v as i128 * 3)).unwrap();
        let ok = *c.value_balance() == bal as i128 * 3 && c.flags() == &flags && c.anchor().to_bytes() == anchor && c.authorization().proof().as_ref() == &proof[..]
            && <[u8; 64]>::from(c.authorization().binding_signature()) == bsig
            && c.actions().len() == count && c.actions().iter().zip(&raws).all(|(a, r)| same_raw(&raw_of(a, a.authorization().into()), r));
        h.check("P02", "changing the amount type", ok, d);
        let same = |c: &Bundle<Authorized, i64>| {
            *c.value_balance() == bal && c.flags() == &flags && c.anchor().to_bytes() == anchor && c.authorization().proof().as_ref() == &proof[..] && <[u8; 64]>::from(c.authorization().binding_signature()) == bsig
                && c.actions().len() == count && c.actions().iter().zip(&raws).all(|(a, r)| same_raw(&raw_of(a, a.authorization().into()), r))
        };
        let c = b.clone().map_authorization(&mut (), |_, _, s| s, |_, a| a);
        let e = b.clone().try_map_authorization(&mut (), |_, _, s| Ok::<_, ()>(s), |_, a| Ok(a));
        for p in ["P02", "P17", "P18"] {
            h.check(p, "changing the authorization", same(&c) && e.as_ref().map_or(false, &same), d);
        }
        h.check("P02", "failing to change the amount type", b.clone().try_map_value_balance(|_| Err::<i64, u8>(7)).err() == Some(7), d);
        // Compact actions keep their parts.
        for (r, a) in raws.iter().zip(b.actions().iter()) {
            let ca = CompactAction::from(a);
            let ok = ca.nullifier().to_bytes() == r.nf && ca.cmx().to_bytes() == r.cmx && ShieldedOutput::<OrchardDomain, 52>::ephemeral_key(&ca).0 == r.epk && ShieldedOutput::<OrchardDomain, 52>::enc_ciphertext(&ca)[..] == r.enc[..52] && ca.rho().to_bytes() == r.nf && a.rho().to_bytes() == r.nf;
            for p in ["P12", "P13", "P15"] {
                h.check(p, "compact action", ok, d);
            }
        }
    }
    if h.any(&["P15", "P13", "P14"]) {
        scanning(h);
    }
}

fn scanning(h: &mut H) {
    let mut n = 0;
    while n < 25 && h.more() {
        n += 1;
        let outs = [1usize, 2, 3, 6, 20][h.below(5) as usize];
        let who: Vec<(FullViewingKey, o::Keys, Scope, Address)> = (0..4).map(|_| address(h)).collect();
        let mut b = Builder::new(BundleType::Transactional { flags: Flags::ENABLED, bundle_required: false }, Anchor::empty_tree());
        let mut want = vec![];
        for _ in 0..outs {
            let w = h.below(4) as usize;
            let v = h.v64() >> 8;
            let memo = memo(h);
            let ovk = if h.below(3) > 0 { Some(h.below(3) as usize) } else { None };
            b.add_output(ovk.map(|o| who[o].0.to_ovk(who[o].2)), who[w].3, nv(v), Some(memo)).unwrap();
            want.push((w, v, memo, ovk));
        }
        let (b, meta) = b.build::<i64>(&mut h.rng).unwrap().unwrap();
        let at: Vec<usize> = (0..outs).map(|i| meta.output_action_index(i).unwrap()).collect();
        let count = b.actions().len();
        let dup = h.below(2) == 0;
        let list: Vec<usize> = { let mut l: Vec<usize> = (0..3).collect(); if dup { l.insert(0, 2); l.push(0); } if h.below(2) == 0 { l.reverse(); } l };
        let ivks: Vec<IncomingViewingKey> = list.iter().map(|i| who[*i].0.to_ivk(who[*i].2)).collect();
        let d = || format!("{outs} outputs to {:?}, keys {list:?}, actions {at:?}", want.iter().map(|w| w.0).collect::<Vec<_>>());
        let got = h.run(&["P15"], "decrypting with a list of keys", d, || b.decrypt_outputs_with_keys(&ivks));
        let mut exp = vec![];
        for i in 0..count {
            if let Some(o) = at.iter().position(|a| *a == i) {
                if let Some(k) = list.iter().position(|k| *k == want[o].0) {
                    exp.push((i, k, o));
                }
            }
        }
        if let Some(got) = got {
            let ok = got.len() == exp.len() && got.iter().zip(&exp).all(|((idx, ivk, note, addr, memo), (i, k, o))| idx == i && ivk == &ivks[*k] && note.value() == nv(want[*o].1) && *addr == who[want[*o].0].3 && note.recipient() == *addr && *memo == want[*o].2);
            h.check("P15", "decrypting with a list of keys", ok, d);
            for (idx, _, note, ..) in &got {
                let a = &b.actions()[*idx];
                let cm: ExtractedNoteCommitment = note.commitment().into();
                for p in ["P13", "P15"] {
                    h.check(p, "decrypted note", cm.to_bytes() == a.cmx().to_bytes() && parts(note).epk() == a.encrypted_note().epk_bytes && note.rho().to_bytes() == a.nullifier().to_bytes(), d);
                }
            }
        }
        let ovks: Vec<OutgoingViewingKey> = list.iter().map(|i| who[*i].0.to_ovk(who[*i].2)).collect();
        let got = h.run(&["P15"], "recovering with a list of keys", d, || b.recover_outputs_with_ovks(&ovks));
        let mut expo = vec![];
        for i in 0..count {
            if let Some(o) = at.iter().position(|a| *a == i) {
                if let Some(k) = list.iter().position(|k| Some(*k) == want[o].3) {
                    expo.push((i, k, o));
                }
            }
        }
        if let Some(got) = got {
            let ok = got.len() == expo.len() && got.iter().zip(&expo).all(|((idx, ovk, note, addr, memo), (i, k, o))| idx == i && ovk.as_ref() == ovks[*k].as_ref() && note.value() == nv(want[*o].1) && *addr == who[want[*o].0].3 && *memo == want[*o].2);
            h.check("P15", "recovering with a list of keys", ok, d);
        }
        for i in (0..count + 3).chain([255, 256, 257, 256 + count, 65536, 65537, 1 << 32, usize::MAX]) {
            for (x, k) in ivks.iter().enumerate().take(2) {
                let got = h.run(&["P15"], "decrypting one action", d, || b.decrypt_output_with_key(i, k));
                let o = at.iter().position(|a| *a == i).filter(|o| want[*o].0 == list[x]);
                let ok = match (got.flatten(), o) { (None, None) => true, (Some((n, a, m)), Some(o)) => n.value() == nv(want[o].1) && a == who[want[o].0].3 && m == want[o].2, _ => false };
                h.check("P15", "decrypting one action", ok, || format!("{} index {i}", d()));
                let got = h.run(&["P15"], "recovering one action", d, || b.recover_output_with_ovk(i, &ovks[x]));
                let o = at.iter().position(|a| *a == i).filter(|o| want[*o].3 == Some(list[x]));
                let ok = match (got.flatten(), o) { (None, None) => true, (Some((n, a, m)), Some(o)) => n.value() == nv(want[o].1) && a == who[want[o].0].3 && m == want[o].2, _ => false };
                h.check("P15", "recovering one action", ok, || format!("{} index {i}", d()));
            }
        }
        // Compact and batched scanning agree with single decryption.
        let prep: Vec<PreparedIncomingViewingKey> = ivks.iter().map(|k| k.prepare()).collect();
        let compact: Vec<(OrchardDomain, CompactAction)> = b.actions().iter().map(|a| (OrchardDomain::for_action(a), CompactAction::from(a))).collect();
        let res = h.run(&["P14", "P15"], "batched scanning", d, || batch::try_compact_note_decryption(&prep, &compact));
        if let Some(res) = res {
            for (i, r) in res.iter().enumerate() {
                let e = exp.iter().find(|e| e.0 == i);
                let single = prep.iter().find_map(|k| try_compact_note_decryption(&compact[i].0, k, &compact[i].1));
                let ok = match (r, e, &single) { (None, None, None) => true, (Some(((n, a), k)), Some(e), Some((m, c))) => *k == e.1 && n.value() == nv(want[e.2].1) && n == m && a == c, _ => false };
                for p in ["P14", "P13", "P15"] {
                    h.check(p, "batched scanning", ok, || format!("{} action {i}", d()));
                }
            }
        }
        // Damaged ephemeral keys: nothing is decrypted and nothing panics.
        let a = b.actions().iter().next().unwrap();
        let mut r = raw_of(a, [0; 64]);
        r.epk = point_bytes(h);
        let bad = real_action(&r);
        let dom = OrchardDomain::for_action(&bad);
        if r.epk != a.encrypted_note().epk_bytes {
            for k in &prep {
                let x = h.run(&["P13", "P14"], "damaged ephemeral key", || hex(&r.epk), || try_note_decryption(&dom, k, &bad).is_some());
                h.check("P13", "damaged ephemeral key", x == Some(false), || hex(&r.epk));
            }
            let x = h.run(&["P13"], "damaged ephemeral key", || hex(&r.epk), || try_output_recovery_with_ovk(&dom, &ovks[0], &bad, bad.cv_net(), &bad.encrypted_note().out_ciphertext).is_some());
            h.check("P13", "damaged ephemeral key", x == Some(false), || hex(&r.epk));
        }
    }
}

// ---------------------------------------------------------------- building

struct Req {
    kind: BundleType,
    spends: Vec<(FullViewingKey, o::Keys, Scope, Note, [u8; 32])>,
    outs: Vec<(Address, u64, [u8; 512], Option<OutgoingViewingKey>, FullViewingKey, Scope)>,
}

fn anchor_for(leafs: &[Base]) -> (Base, Vec<MerklePath>) {
    // A tree whose first leaves are the given ones.
    let mut empty = vec![Base::from(2)];
    for l in 0..32u8 {
        let e = empty[l as usize];
        empty.push(o::merkle_node(l, &e, &e));
    }
    let mut row = leafs.to_vec();
    let mut auth: Vec<Vec<Base>> = vec![vec![]; leafs.len()];
    let mut at: Vec<usize> = (0..leafs.len()).collect();
    for l in 0..32u8 {
        for (i, p) in at.iter_mut().enumerate() {
            auth[i].push(row.get(*p ^ 1).copied().unwrap_or(empty[l as usize]));
            *p >>= 1;
        }
        row = row.chunks(2).map(|c| o::merkle_node(l, &c[0], c.get(1).unwrap_or(&empty[l as usize]))).collect();
        if row.is_empty() {
            row.push(empty[l as usize + 1]);
        }
    }
    let paths = auth
        .into_iter()
        .enumerate()
        .map(|(i, a)| MerklePath::from_parts(i as u32, a.iter().map(|x| MerkleHashOrchard::from_bytes(&x.to_repr()).unwrap()).collect::<Vec<_>>().try_into().unwrap()))
        .collect();
    (row[0], paths)
}

fn sum_fits(spends: &[u64], outs: &[u64]) -> (Option<i64>, bool) {
    const M: i128 = u64::MAX as i128;
    let mut acc = 0i128;
    let mut prefix = true;
    for v in spends.iter().map(|v| *v as i128).chain(outs.iter().map(|v| -(*v as i128))) {
        acc += v;
        prefix &= acc.abs() <= M;
    }
    (i64::try_from(acc).ok(), prefix)
}

fn request(h: &mut H, ns: usize, no: usize, small: bool) -> Req {
    let val = |h: &mut H| if small { h.v64() % 1_000_000_000_000 } else { h.v64() };
    let spends = (0..ns)
        .map(|_| {
            let (b, sk) = spending_key(h);
            let f = FullViewingKey::from(&sk);
            let scope = SCOPES[h.below(2) as usize];
            let a = f.address_at(DiversifierIndex::from(index(h)), scope);
            let v = val(h);
            let n = note_for(h, a, v);
            (f, o::keys(&b), scope, n, b)
        })
        .collect();
    let outs = (0..no)
        .map(|_| {
            let (f, _, s, a) = address(h);
            let mut memo = [0; 512];
            h.rng.fill_bytes(&mut memo);
            let ovk = if h.below(3) > 0 { Some(f.to_ovk(Scope::External)) } else { None };
            let v = if h.below(3) == 0 { 0 } else { val(h) };
            (a, v, memo, ovk, f, s)
        })
        .collect();
    let flags = match (ns > 0, no > 0) {
        (true, true) => 3,
        (true, false) => [1, 3][h.below(2) as usize],
        (false, true) => [2, 3][h.below(2) as usize],
        (false, false) => h.below(4) as u8,
    };
    let kind = if ns == 0 && h.below(4) == 0 { BundleType::Coinbase } else { BundleType::Transactional { flags: Flags::from_byte(flags).unwrap(), bundle_required: h.below(2) == 0 } };
    Req { kind, spends, outs }
}

fn building(h: &mut H) {
    anchors_and_flags(h);
    one_stray_spend(h);
    let mut n = 0;
    while n < 150 && h.more() {
        n += 1;
        let (ns, no) = match n {
            12 if h.on("P21") => (1, 260),
            14 if h.on("P21") => (70, 2),
            _ => (h.below(5) as usize, h.below(6) as usize),
        };
        let small = h.below(3) > 0;
        let req = request(h, ns, no, small || ns + no > 20);
        let seed = h.bytes();
        if let Some((b, meta)) = build_one(h, &req, seed) {
            built(h, &req, &b, &meta);
        }
    }
}

fn desc(r: &Req) -> String {
    format!("{:?}, spends {:?}, outputs {:?}", r.kind, r.spends.iter().map(|s| (s.3.value().inner(), s.2)).collect::<Vec<_>>(), r.outs.iter().map(|o| (o.1, o.3.is_some())).collect::<Vec<_>>())
}

fn build_one(h: &mut H, req: &Req, seed: [u8; 32]) -> Option<(Unproved, BundleMetadata)> {
    let leaves: Vec<Base> = req.spends.iter().map(|s| o::x_of(&parts(&s.3).cm().unwrap())).collect();
    let (root, paths) = anchor_for(&leaves);
    let anchor = Anchor::from_bytes(root.to_repr()).unwrap();
    let mut b = Builder::new(req.kind, anchor);
    for (s, p) in req.spends.iter().zip(paths) {
        let r = b.add_spend(s.0.clone(), s.3, p);
        h.check("P20", "adding an owned spend with the right anchor", r.is_ok(), || desc(req));
        r.ok()?;
    }
    for x in &req.outs {
        let r = b.add_output(x.3.clone(), x.0, nv(x.1), Some(x.2));
        h.check("P20", "adding an output", r.is_ok(), || desc(req));
        r.ok()?;
    }
    let sv: Vec<u64> = req.spends.iter().map(|s| s.3.value().inner()).collect();
    let ov: Vec<u64> = req.outs.iter().map(|s| s.1).collect();
    let (total, prefix) = sum_fits(&sv, &ov);
    let vb = h.run(&["P02"], "value balance of a builder", || desc(req), || b.value_balance::<i64>().ok()).flatten();
    h.check("P02", "value balance of a builder", if prefix { vb == total } else { vb.is_none() || vb == total }, || format!("{} -> {vb:?}, expected {total:?}", desc(req)));
    let narrow: Option<i8> = b.value_balance::<i8>().ok();
    h.check("P02", "value balance in a narrow type", narrow.is_none() || narrow.map(|x| x as i64) == total, || desc(req));
    let r = h.run(&["P02", "P04", "P18", "P20", "P21"], "building", || desc(req), || b.build::<i64>(rand_chacha::ChaCha20Rng::from_seed(seed)))?;
    let want = req.kind.num_actions(sv.len(), ov.len()).ok();
    match r {
        Err(e) => {
            let ovf = matches!(e, BuildError::ValueSum(_));
            h.check("P02", "a bundle whose balance fits is built", !(ovf && prefix && total.is_some()) || total.is_none(), || format!("{}: {e}", desc(req)));
            h.check("P20", "building a valid request", ovf, || format!("{}: {e}", desc(req)));
            None
        }
        Ok(None) => {
            let nothing = sv.is_empty() && ov.is_empty() && !matches!(req.kind, BundleType::Transactional { bundle_required: true, .. });
            h.check("P20", "nothing is built", nothing, || desc(req));
            None
        }
        Ok(Some((b, m))) => {
            h.check("P02", "value balance of a bundle", Some(*b.value_balance()) == total, || format!("{} -> {}, expected {total:?}", desc(req), b.value_balance()));
            let required = matches!(req.kind, BundleType::Transactional { bundle_required: true, .. });
            let min = if matches!(req.kind, BundleType::Coinbase) { 0 } else { 2 };
            let count = if sv.is_empty() && ov.is_empty() && !required { 0 } else { sv.len().max(ov.len()).max(min) };
            h.check("P20", "number of actions", count > 0 && b.actions().len() == count && want == Some(count), || format!("{}: {} actions", desc(req), b.actions().len()));
            let f = match req.kind { BundleType::Transactional { flags, .. } => flags, BundleType::Coinbase => Flags::SPENDS_DISABLED };
            h.check("P20", "flags and anchor of a bundle", *b.flags() == f && b.anchor().to_bytes() == root.to_repr(), || desc(req));
            Some((b, m))
        }
    }
}

fn built(h: &mut H, req: &Req, b: &Unproved, meta: &BundleMetadata) {
    let count = b.actions().len();
    let mut seen = vec![false; count];
    for (i, s) in req.spends.iter().enumerate() {
        let at = meta.spend_action_index(i);
        let nf = parts(&s.3).nullifier(&s.1.nk).to_repr();
        let ok = at.map_or(false, |a| a < count && !seen[a] && b.actions()[a].nullifier().to_bytes() == nf);
        for p in ["P21", "P04"] {
            h.check(p, "spend is in the action given by the metadata", ok, || format!("{}: spend {i} at {at:?}", desc(req)));
        }
        if let Some(a) = at.filter(|a| *a < count) {
            seen[a] = true;
        }
        let hits = b.actions().iter().filter(|a| a.nullifier().to_bytes() == nf).count();
        h.check("P21", "a spend is in exactly one action", hits == 1, || format!("{}: spend {i} in {hits}", desc(req)));
    }
    h.check("P21", "no other spends in the metadata", meta.spend_action_index(req.spends.len()).is_none() && meta.output_action_index(req.outs.len()).is_none(), || desc(req));
    let mut seen = vec![false; count];
    for (i, x) in req.outs.iter().enumerate() {
        let at = meta.output_action_index(i);
        let ivk = x.4.to_ivk(x.5);
        let Some(a) = at.filter(|a| *a < count && !seen[*a]) else {
            h.check("P21", "output is in the action given by the metadata", false, || format!("{}: output {i} at {at:?}", desc(req)));
            continue;
        };
        seen[a] = true;
        let act = &b.actions()[a];
        let dec = b.decrypt_output_with_key(a, &ivk);
        let ok = dec.as_ref().map_or(false, |(n, ad, m)| n.value() == nv(x.1) && *ad == x.0 && *m == x.2);
        for p in ["P21", "P04"] {
            h.check(p, "output is in the action given by the metadata", ok, || format!("{}: output {i} at {a}: {dec:?}", desc(req)));
        }
        if let Some((n, ..)) = dec {
            let p = parts(&n);
            let ok = p.rho.to_repr() == act.nullifier().to_bytes() && p.cm().map(|c| o::x_of(&c).to_repr()) == Some(act.cmx().to_bytes()) && p.epk() == act.encrypted_note().epk_bytes;
            h.check("P04", "new note of an action", ok, || format!("{}: output {i}", desc(req)));
        }
        if let Some(ovk) = &x.3 {
            let rec = b.recover_output_with_ovk(a, ovk);
            h.check("P04", "recovery by the sender", rec.map_or(false, |(n, ad, m)| n.value() == nv(x.1) && ad == x.0 && m == x.2), || format!("{}: output {i}", desc(req)));
        }
        if i > 20 && i % 64 != 0 {
            continue;
        }
        let hits = b.decrypt_outputs_with_keys(&[ivk]).len();
        h.check("P21", "an output is in exactly one action", hits == 1, || format!("{}: output {i} in {hits}", desc(req)));
    }
    // The binding key matches (P03/P04): the builder itself asserts it against the trapdoors used.
    let mut nfs: Vec<_> = b.actions().iter().map(|a| a.nullifier().to_bytes()).collect();
    nfs.sort();
    nfs.dedup();
    h.check("P04", "distinct nullifiers", nfs.len() == count, || desc(req));
}

fn anchors_and_flags(h: &mut H) {
    if !h.on("P20") {
        return;
    }
    for flags in 0..4u8 {
        for required in [false, true] {
            let f = Flags::from_byte(flags).unwrap();
            let kind = BundleType::Transactional { flags: f, bundle_required: required };
            h.check("P20", "flags of a bundle type", kind.flags() == f, || format!("{kind:?}"));
            for s in 0..5usize {
                for t in 0..5usize {
                    let want = if s > 0 && flags & 1 == 0 || t > 0 && flags & 2 == 0 { None } else if s + t == 0 && !required { Some(0) } else { Some(s.max(t).max(2)) };
                    h.check("P20", "number of actions", kind.num_actions(s, t).ok() == want, || format!("{kind:?} {s} {t}"));
                    let want = if s > 0 { None } else { Some(t) };
                    h.check("P20", "number of actions", BundleType::Coinbase.num_actions(s, t).ok() == want, || format!("coinbase {s} {t}"));
                }
            }
        }
    }
    h.check("P20", "flags of a bundle type", BundleType::Coinbase.flags() == Flags::SPENDS_DISABLED, String::new);
    for v in [0u64, 1, 2, 255, 1 << 32, i64::MAX as u64, 1 << 63, u64::MAX] {
        for flags in 0..4u8 {
            for right in [false, true] {
                for owner in [false, true] {
                    let (f, _, _, a) = address(h);
                    let (g, ..) = address(h);
                    let note = note_for(h, a, v);
                    let (pos, p, path) = path_for(h);
                    let leaf = o::x_of(&parts(&note).cm().unwrap());
                    let root = if right { o::merkle_root(leaf, pos, &p) } else { Base::random(&mut h.rng) };
                    let anchor = Anchor::from_bytes(root.to_repr()).unwrap();
                    let fl = Flags::from_byte(flags).unwrap();
                    let kind = BundleType::Transactional { flags: fl, bundle_required: false };
                    let key = if owner { f } else { g };
                    let mut b = Builder::new(kind, anchor);
                    let d = || format!("value {v}, flags {flags}, right anchor {right}, owner {owner}");
                    let r = b.add_spend(key.clone(), note, MerklePath::from_parts(pos, nodes(&p)));
                    let ok = match &r {
                        Ok(()) => flags & 1 == 1 && owner && (right || v == 0),
                        Err(SpendError::SpendsDisabled) => flags & 1 == 0,
                        Err(SpendError::FvkMismatch) => !owner,
                        Err(SpendError::AnchorMismatch) => owner && !right && v != 0,
                    };
                    h.check("P20", "adding a spend", ok, || format!("{}: {r:?}", d()));
                    let r = b.add_output(None, a, nv(v), None);
                    h.check("P20", "adding an output", r.is_ok() == (flags & 2 == 2), d);
                    let si = SpendInfo::new(key, note, path);
                    h.check("P20", "spend information needs the owner", si.is_some() == owner, d);
                    if let Some(si) = si {
                        let r = orchard::builder::bundle::<i64>(&mut h.rng, anchor, kind, vec![si], vec![]);
                        let ok = match &r {
                            Ok(Some(_)) => flags & 1 == 1 && (right || v == 0),
                            Err(BuildError::SpendsDisabled) => flags & 1 == 0,
                            Err(BuildError::AnchorMismatch) => !right && v != 0,
                            Err(BuildError::ValueSum(_)) => v > i64::MAX as u64,
                            _ => false,
                        };
                        h.check("P20", "building from a spend", ok || (v > i64::MAX as u64 && flags & 1 == 1), d);
                    }
                    let r = orchard::builder::bundle::<i64>(&mut h.rng, anchor, kind, vec![], vec![OutputInfo::new(None, a, nv(v >> 2), None)]);
                    let ok = match &r { Ok(Some(_)) => flags & 2 == 2, Err(BuildError::OutputsDisabled) => flags & 2 == 0, _ => false };
                    h.check("P20", "building from an output", ok, d);
                }
            }
        }
    }
}

/// Lists of spends of which at most one leads to another anchor.
fn one_stray_spend(h: &mut H) {
    if !h.on("P20") {
        return;
    }
    for round in 0..24 {
        let ns = 1 + h.below(4) as usize;
        let no = h.below(3) as usize;
        let req = request(h, ns, no, true);
        let leaves: Vec<Base> = req.spends.iter().map(|s| o::x_of(&parts(&s.3).cm().unwrap())).collect();
        let (root, mut paths) = anchor_for(&leaves);
        let anchor = Anchor::from_bytes(root.to_repr()).unwrap();
        let stray = if round % 4 == 0 { None } else { Some(h.below(ns as u64) as usize) };
        if let Some(i) = stray {
            let (_, _, p) = path_for(h);
            paths[i] = p;
        }
        let zero = stray.map_or(false, |i| req.spends[i].3.value().inner() == 0);
        let spends: Vec<SpendInfo> = req.spends.iter().zip(paths).map(|(s, p)| SpendInfo::new(s.0.clone(), s.3, p).unwrap()).collect();
        let outs: Vec<OutputInfo> = req.outs.iter().map(|x| OutputInfo::new(x.3.clone(), x.0, nv(x.1), Some(x.2))).collect();
        let kind = BundleType::Transactional { flags: Flags::ENABLED, bundle_required: false };
        let r = orchard::builder::bundle::<i64>(&mut h.rng, anchor, kind, spends, outs);
        let ok = match &r {
            Ok(Some(_)) => stray.is_none() || zero,
            Err(BuildError::AnchorMismatch) => stray.is_some() && !zero,
            _ => false,
        };
        h.check("P20", "every spend of a bundle leads to its anchor", ok, || format!("{}, spend {stray:?} leads elsewhere: built {}", desc(&req), r.is_ok()));
    }
}

// ---------------------------------------------------------------- proofs and signatures

/// The constraint system accepts the witness of any valid action, at the edges of every component.
fn circuits(h: &mut H) {
    let top = Base::from(2).pow_vartime([254]);
    let edges = [Base::ZERO, Base::ONE, -Base::ONE, top, top - Base::ONE, top + Base::from_u128(45560315531419706090280762371685220352), Base::from(2).pow_vartime([130]), Base::from(2).pow_vartime([249]) - Base::ONE];
    let values = [(0, 0), (0, u64::MAX), (u64::MAX, 0), (u64::MAX, u64::MAX), (1 << 63, 0), (0, (1 << 63) | 5), (1 << 58, (1 << 58) - 1), (255, 256), (1 << 48, 1 << 52), (0, 1), (1, 0)];
    let mut n = 0;
    while n < 24 && h.more() {
        let pick = |h: &mut H| if h.below(3) == 0 { Base::random(&mut h.rng) } else { edges[h.below(8) as usize] };
        let (v_old, v_new) = if n < values.len() { values[n] } else { (h.v64(), h.v64()) };
        n += 1;
        let (b, sk) = spending_key(h);
        let mut raw = FullViewingKey::from(&sk).to_bytes();
        raw[32..64].copy_from_slice(&pick(h).to_repr());
        let Some(fvk) = FullViewingKey::from_bytes(&raw) else { continue };
        let scope = SCOPES[h.below(2) as usize];
        let to = fvk.address_at(h.rng.next_u64(), scope);
        let make = |h: &mut H, to: Address, v: u64, rho: Rho| loop {
            let bytes = h.bytes();
            if let Some(n) = ct(RandomSeed::from_bytes(bytes, &rho)).and_then(|rs| ct(Note::from_parts(to, nv(v), rho, rs))) {
                return n;
            }
        };
        let rho = pick(h);
        let old = make(h, to, v_old, Rho::from_bytes(&rho.to_repr()).unwrap());
        let nf = old.nullifier(&fvk);
        let other = FullViewingKey::from(&spending_key(h).1);
        let j = h.rng.next_u64();
        let new = make(h, other.address_at(j, scope), v_new, Rho::from_bytes(&nf.to_bytes()).unwrap());
        let (pos, path, mp) = path_for(h);
        let alpha = match h.below(4) { 0 => Scalar::ZERO, 1 => -Scalar::ONE, _ => Scalar::random(&mut h.rng) };
        let rcv = match h.below(4) { 0 => Scalar::ZERO, 1 => -Scalar::ONE, _ => Scalar::random(&mut h.rng) };
        let d = || format!("sk {} nullifier key {} position {pos}, spending {v_old} with rho {} at {}, creating {v_new}, alpha {}, rcv {}", hex(&b), hex(&raw[32..64]), hex(&rho.to_repr()), hex(&old.recipient().to_raw_address_bytes()), hex(&alpha.to_repr()), hex(&rcv.to_repr()));
        let Some(spend) = SpendInfo::new(fvk.clone(), old, mp) else {
            h.check("P05", "a witness for the owner", false, d);
            continue;
        };
        let c = h.run(&["P05"], "making the witness", d, || orchard::circuit::Circuit::from_action_context(spend, new, alpha, ct(ValueCommitTrapdoor::from_bytes(rcv.to_repr())).unwrap())).flatten();
        let Some(c) = c else {
            h.check("P05", "making the witness", false, d);
            continue;
        };
        let (cm_old, cm_new) = (parts(&old).cm().unwrap(), parts(&new).cm().unwrap());
        let xy = |p: &Point| { let a = group::Curve::to_affine(p); let c = pasta_curves::arithmetic::CurveAffine::coordinates(&a).map(|c| [*c.x(), *c.y()]); ct_or(c) };
        let cv = xy(&o::value_commit(v_old as i128 - v_new as i128, &rcv));
        let rk: [u8; 32] = (&SpendValidatingKey::from(fvk).randomize(&alpha)).into();
        let rk = xy(&Point::from_bytes(&rk).unwrap());
        let root = o::merkle_root(o::x_of(&cm_old), pos, &path);
        let inputs = vec![root, cv[0], cv[1], Base::from_repr(nf.to_bytes()).unwrap(), rk[0], rk[1], o::x_of(&cm_new), Base::ONE, Base::ONE];
        let r = h.run(&["P05"], "laying out the circuit", d, || halo2_proofs::dev::MockProver::run(11, &c, vec![inputs]).map(|p| p.verify().is_ok()));
        h.check("P05", "the constraints accept the witness of a valid action", matches!(r, Some(Ok(true))), d);
    }
}

fn ct_or(c: subtle::CtOption<[Base; 2]>) -> [Base; 2] {
    ct(c).unwrap_or([Base::ZERO; 2])
}

fn proving(h: &mut H) {
    let (pk, vk) = (ProvingKey::build(), VerifyingKey::build());
    let mut n = 0;
    // (spends, outputs)
    let plan = [(1usize, 0usize), (0, 1), (2, 1), (1, 2), (0, 0), (3, 1), (2, 2)];
    let mut kept: Vec<(Bundle<Authorized, i64>, [u8; 32])> = vec![];
    while n < 40 && h.more() {
        let (ns, no) = plan[n % plan.len()];
        n += 1;
        let mut req = request(h, ns, no, true);
        if n == 1 {
            req.kind = BundleType::Transactional { flags: Flags::OUTPUTS_DISABLED, bundle_required: false };
            let f = &req.spends[0];
            let a = f.0.address_at(5u32, Scope::Internal);
            let note = note_for(h, a, 12345);
            req.spends[0].3 = note;
            req.spends[0].2 = Scope::Internal;
        }
        if ns == 0 && no == 0 {
            req.kind = BundleType::Transactional { flags: Flags::ENABLED, bundle_required: true };
        }
        if n == 2 {
            req.kind = BundleType::Transactional { flags: Flags::SPENDS_DISABLED, bundle_required: false };
            req.outs[0].1 = 0;
        }
        let seed = h.bytes();
        let Some((b, meta)) = build_one(h, &req, seed) else { continue };
        built(h, &req, &b, &meta);
        let d = || format!("case {n}: {}", desc(&req));
        let sighash = h.bytes::<32>();
        if h.on("P18") {
            signing(h, &req, &pk, sighash);
        }
        let seed = h.bytes::<32>();
        let proved = h.run(&["P05", "P24", "P06", "P18"], "creating a proof", d, || b.create_proof(&pk, rand_chacha::ChaCha20Rng::from_seed(seed)));
        let proved = match proved {
            Some(Ok(p)) => p,
            Some(Err(e)) => {
                for p in ["P05", "P24"] {
                    h.check(p, "creating a proof", false, || format!("{}: {e}", d()));
                }
                continue;
            }
            None => continue,
        };
        let asks: Vec<SpendAuthorizingKey> = req.spends.iter().map(|s| SpendAuthorizingKey::from(&SpendingKey::from_bytes(s.4).unwrap())).collect();
        let Some(Ok(done)) = h.run(&["P18"], "signing", d, || proved.apply_signatures(&mut rand_chacha::ChaCha20Rng::from_seed(seed), sighash, &asks)) else {
            h.check("P18", "signing", false, d);
            continue;
        };
        let v = h.run(&["P05", "P24", "P06"], "verifying a proof", d, || done.verify_proof(&vk).is_ok());
        for p in ["P05", "P24", "P06"] {
            h.check(p, "an honest proof verifies", v == Some(true), d);
        }
        for p in ["P18", "P04"] {
            h.check(p, "every spend is signed", done.actions().iter().all(|a| a.rk().verify(&sighash, a.authorization()).is_ok()), d);
        }
        for p in ["P18", "P03"] {
            h.check(p, "binding signature", done.binding_validating_key().verify(&sighash, done.authorization().binding_signature()).is_ok(), d);
        }
        // Any public input changed: the proof must not verify, and nothing may panic.
        if h.any(&["P06", "P24", "P05"]) {
            let raws: Vec<RawAction> = done.actions().iter().map(|a| raw_of(a, a.authorization().into())).collect();
            for what in 0..9usize {
                let i = h.below(raws.len() as u64) as usize;
                let mut rs = raws.clone();
                let mut flags = *done.flags();
                let mut anchor = done.anchor().to_bytes();
                match what {
                    0 => rs[i].nf = Base::random(&mut h.rng).to_repr(),
                    1 => rs[i].rk = [0; 32],
                    2 => rs[i].rk = (-Point::from_bytes(&rs[i].rk).unwrap()).to_bytes(),
                    3 => rs[i].cmx = Base::random(&mut h.rng).to_repr(),
                    4 => rs[i].cv = [0; 32],
                    5 => rs[i].cv = (-Point::from_bytes(&rs[i].cv).unwrap()).to_bytes(),
                    6 => anchor = Base::random(&mut h.rng).to_repr(),
                    7 => flags = Flags::from_byte(flags.to_byte() ^ 1).unwrap(),
                    _ => flags = Flags::from_byte(flags.to_byte() ^ 2).unwrap(),
                }
                let bad: Bundle<Authorized, i64> = Bundle::from_parts(NonEmpty::from_vec(rs.iter().map(real_action).collect()).unwrap(), flags, *done.value_balance(), Anchor::from_bytes(anchor).unwrap(), done.authorization().clone());
                let v = h.run(&["P05", "P24", "P06"], "verifying with a changed public input", d, || bad.verify_proof(&vk).is_ok());
                for p in ["P06", "P24"] {
                    h.check(p, "a changed public input is rejected", v == Some(false), || format!("{} change {what} of action {i}", d()));
                }
            }
            let mut rs = raws.clone();
            rs.rotate_left(1);
            let bad: Bundle<Authorized, i64> = Bundle::from_parts(NonEmpty::from_vec(rs.iter().map(real_action).collect()).unwrap(), *done.flags(), *done.value_balance(), *done.anchor(), done.authorization().clone());
            if rs.len() > 1 {
                h.check("P24", "exchanged actions are rejected", bad.verify_proof(&vk).is_err(), d);
            }
            for (g, rs) in [("a missing action is rejected", raws[..raws.len() - 1].to_vec()), ("an additional action is rejected", { let mut r = raws.clone(); r.push(raws[0].clone()); r })] {
                if !rs.is_empty() {
                    let bad: Bundle<Authorized, i64> = Bundle::from_parts(NonEmpty::from_vec(rs.iter().map(real_action).collect()).unwrap(), *done.flags(), *done.value_balance(), *done.anchor(), done.authorization().clone());
                    let v = h.run(&["P24"], g, d, || bad.verify_proof(&vk).is_err());
                    h.check("P24", g, v == Some(true), d);
                }
            }
            for cut in [0, 1, 31, 32, done.authorization().proof().as_ref().len() - 1] {
                let pr = Proof::new(done.authorization().proof().as_ref()[..cut].to_vec());
                let bad = Bundle::from_parts(done.actions().clone(), *done.flags(), *done.value_balance(), *done.anchor(), Authorized::from_parts(pr, done.authorization().binding_signature().clone()));
                let v = h.run(&["P24"], "a shortened proof is rejected", d, || bad.verify_proof(&vk).is_err());
                h.check("P24", "a shortened proof is rejected", v == Some(true), || format!("{cut} bytes"));
            }
        }
        if h.on("P19") {
            kept.push((done, sighash));
            batches(h, &vk, &kept);
        }
    }
}

/// The same bundle every time: the builder only depends on its arguments and its randomness.
fn prepared(h: &mut H, req: &Req, pk: &ProvingKey, sighash: [u8; 32], seed: [u8; 32]) -> Option<(Bundle<InProgress<Proof, orchard::builder::PartiallyAuthorized>, i64>, BundleMetadata)> {
    let (b, meta) = build_one(h, req, seed)?;
    let p = b.create_proof(pk, rand_chacha::ChaCha20Rng::from_seed([1; 32])).ok()?;
    Some((p.prepare(rand_chacha::ChaCha20Rng::from_seed([2; 32]), sighash), meta))
}

fn signing(h: &mut H, req: &Req, pk: &ProvingKey, sighash: [u8; 32]) {
    let seed = h.bytes();
    let d = || desc(req);
    let Some((p, meta)) = prepared(h, req, pk, sighash, seed) else { return };
    let rng = || rand_chacha::ChaCha20Rng::from_seed([3; 32]);
    if req.spends.is_empty() {
        let r = p.append_signatures(&[[0; 64].into()]);
        h.check("P18", "a signature for nothing is rejected", matches!(r, Err(BuildError::InvalidExternalSignature)), d);
        let Some((p, _)) = prepared(h, req, pk, sighash, seed) else { return };
        let ok = match p.finalize() { Ok(b) => fully(&b, &sighash), Err(_) => false };
        h.check("P18", "dummy spends are signed", ok, d);
        return;
    }
    let asks: Vec<SpendAuthorizingKey> = req.spends.iter().map(|s| SpendAuthorizingKey::from(&SpendingKey::from_bytes(s.4).unwrap())).collect();
    let other = SpendAuthorizingKey::from(&spending_key(h).1);
    let p = asks.iter().skip(1).fold(p, |p, a| p.sign(rng(), a)).sign(rng(), &other);
    let left = format!("{p:?}").matches("SigningMetadata").count();
    h.check("P18", "exactly the unsigned spend is left", left == 1, || format!("{}: {left} left", d()));
    let fin = p.sign(rng(), &asks[0]).finalize();
    h.check("P18", "signing one key after the other", fin.as_ref().map_or(false, |b| fully(b, &sighash)), d);
    let Ok(signed) = fin else { return };
    let good: Vec<redpallas::Signature<SpendAuth>> = (0..asks.len()).map(|i| signed.actions()[meta.spend_action_index(i).unwrap()].authorization().clone()).collect();
    // Signatures made elsewhere, in any order.
    let mut order: Vec<usize> = (0..good.len()).collect();
    if h.below(2) == 0 {
        order.reverse();
    }
    let sigs: Vec<_> = order.iter().map(|i| good[*i].clone()).collect();
    let Some((p, _)) = prepared(h, req, pk, sighash, seed) else { return };
    let ok = match h.run(&["P18"], "external signatures", d, || p.append_signatures(&sigs)) {
        Some(Ok(p)) => p.finalize().map_or(false, |b| fully(&b, &sighash)),
        _ => false,
    };
    h.check("P18", "external signatures", ok, d);
    let cases: Vec<(&str, Vec<redpallas::Signature<SpendAuth>>)> = vec![
        ("a repeated external signature is rejected", vec![good[0].clone(), good[0].clone()]),
        ("a wrong external signature is rejected", { let mut v = good.clone(); v.push([7; 64].into()); v }),
        ("a changed external signature is rejected", { let mut b = <[u8; 64]>::from(&good[0]); b[50] ^= 1; vec![b.into()] }),
    ];
    for (g, l) in cases {
        let Some((p, _)) = prepared(h, req, pk, sighash, seed) else { return };
        let r = h.run(&["P18"], g, d, || p.append_signatures(&l));
        h.check("P18", g, matches!(r, Some(Err(BuildError::InvalidExternalSignature))), d);
    }
    let mut sh = sighash;
    sh[31] ^= 1;
    let Some((p, _)) = prepared(h, req, pk, sh, seed) else { return };
    h.check("P18", "signatures over another digest are rejected", matches!(p.append_signatures(&good[..1]), Err(BuildError::InvalidExternalSignature)), d);
    let Some((p, _)) = prepared(h, req, pk, sighash, seed) else { return };
    let p = asks.iter().skip(1).fold(p, |p, a| p.sign(rng(), a));
    h.check("P18", "a missing signature is reported", matches!(p.finalize(), Err(BuildError::MissingSignatures)), d);
}

fn fully(b: &Bundle<Authorized, i64>, sighash: &[u8; 32]) -> bool {
    b.actions().iter().all(|a| a.rk().verify(sighash, a.authorization()).is_ok()) && b.binding_validating_key().verify(sighash, b.authorization().binding_signature()).is_ok()
}

fn batches(h: &mut H, vk: &VerifyingKey, kept: &[(Bundle<Authorized, i64>, [u8; 32])]) {
    h.check("P19", "an empty batch", BatchValidator::new().validate(vk, &mut h.rng.clone()), String::new);
    let run = |h: &mut H, l: &[(Bundle<Authorized, i64>, [u8; 32])]| {
        let mut v = BatchValidator::new();
        for (b, s) in l {
            v.add_bundle(b, *s);
        }
        v.validate(vk, &mut h.rng.clone())
    };
    let d = || format!("{} bundles, balances {:?}", kept.len(), kept.iter().map(|k| *k.0.value_balance()).collect::<Vec<_>>());
    let r = run(h, kept);
    h.check("P19", "valid bundles", r, d);
    let which = kept.len() - 1;
    let (b, s) = kept[which].clone();
    let n = b.actions().len();
    for what in 0..n + 4 {
        let mut sh = s;
        let mut i = 0;
        let mut bad = b.clone().map_authorization(
            &mut (),
            |_, _, sig| {
                i += 1;
                if i - 1 == what {
                    let mut x = <[u8; 64]>::from(&sig);
                    x[40] ^= 1;
                    x.into()
                } else {
                    sig
                }
            },
            |_, a| {
                if what == n {
                    let mut x = <[u8; 64]>::from(a.binding_signature());
                    x[40] ^= 1;
                    Authorized::from_parts(a.proof().clone(), x.into())
                } else if what == n + 1 {
                    let mut x = a.proof().as_ref().to_vec();
                    let at = x.len() / 2;
                    x[at] ^= 1;
                    Authorized::from_parts(Proof::new(x), a.binding_signature().clone())
                } else {
                    a
                }
            },
        );
        if what == n + 2 {
            sh[0] ^= 1;
        }
        if what == n + 3 {
            bad = Bundle::from_parts(bad.actions().clone(), *bad.flags(), bad.value_balance().wrapping_add(1), *bad.anchor(), bad.authorization().clone());
        }
        let mut l = kept.to_vec();
        l[which] = (bad, sh);
        if h.below(2) == 0 {
            l.reverse();
        }
        let r = run(h, &l);
        h.check("P19", "one damaged component", !r, || format!("{}: component {what} of bundle {which} ({n} actions)", d()));
    }
    // A damaged first bundle among many signatures.
    let many: Vec<_> = (0..24).map(|_| kept[0].clone()).collect();
    if kept.len() == 2 {
        let mut l = many.clone();
        let mut i = 0;
        l[0].0 = l[0].0.clone().map_authorization(&mut (), |_, _, sig| { i += 1; if i == 1 { [1; 64].into() } else { sig } }, |_, a| a);
        let r = run(h, &l);
        h.check("P19", "a damaged first signature among many", !r, d);
    }
}
