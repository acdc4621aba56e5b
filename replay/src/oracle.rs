//! The protocol's definitions, written from the specification and independent of the crate under
//! test (only its dependencies for field, group and hash primitives are shared).
use aes::Aes256;
use blake2b_simd::Params;
use ff::{Field, FromUniformBytes, PrimeField, PrimeFieldBits};
use fpe::ff1::{BinaryNumeralString, FF1};
use group::{Curve, Group, GroupEncoding};
use halo2_gadgets::{poseidon::primitives as poseidon, sinsemilla::primitives as sinsemilla};
use halo2_proofs::arithmetic::{CurveAffine, CurveExt};
use pasta_curves::pallas::{Base, Point, Scalar};

pub fn prf(key: &[u8], dom: u8, parts: &[&[u8]]) -> [u8; 64] {
    let mut s = Params::new().hash_length(64).personal(b"Zcash_ExpandSeed").to_state();
    s.update(key).update(&[dom]);
    for p in parts {
        s.update(p);
    }
    s.finalize().as_bytes().try_into().unwrap()
}
pub fn to_scalar(b: [u8; 64]) -> Scalar {
    Scalar::from_uniform_bytes(&b)
}
pub fn to_base(b: [u8; 64]) -> Base {
    Base::from_uniform_bytes(&b)
}
pub fn h2c(dom: &str, m: &[u8]) -> Point {
    Point::hash_to_curve(dom)(m)
}
pub fn x_of(p: &Point) -> Base {
    Option::from(p.to_affine().coordinates().map(|c| *c.x())).unwrap_or(Base::ZERO)
}
pub fn bits(b: &Base, n: usize) -> Vec<bool> {
    b.to_le_bits().iter().by_vals().take(n).collect()
}
pub fn byte_bits(b: &[u8]) -> Vec<bool> {
    b.iter().flat_map(|x| (0..8).map(move |i| (x >> i) & 1 == 1)).collect()
}
pub fn scalar_of_base(b: &Base) -> Scalar {
    // The base field is the smaller one: reduction does nothing.
    Scalar::from_repr(b.to_repr()).unwrap()
}

#[derive(Clone)]
pub struct Keys {
    pub ask: Scalar,
    pub ak: [u8; 32],
    pub nk: Base,
    pub rivk: [Scalar; 2],
    pub ivk: [Base; 2],
    pub dk: [[u8; 32]; 2],
    pub ovk: [[u8; 32]; 2],
    pub fvk_bytes: [u8; 96],
}

pub fn keys(sk: &[u8; 32]) -> Keys {
    let mut ask = to_scalar(prf(sk, 6, &[]));
    let g = h2c("z.cash:Orchard", b"G");
    let mut ak = (g * ask).to_bytes();
    if ak[31] & 0x80 != 0 {
        ask = -ask;
        ak = (g * ask).to_bytes();
    }
    let nk = to_base(prf(sk, 7, &[]));
    let rivk = to_scalar(prf(sk, 8, &[]));
    view_keys(ask, ak, nk, rivk)
}

pub fn view_keys(ask: Scalar, ak: [u8; 32], nk: Base, rivk: Scalar) -> Keys {
    let nkb = nk.to_repr();
    let rint = to_scalar(prf(&rivk.to_repr(), 0x83, &[&ak, &nkb]));
    let rivk = [rivk, rint];
    let mut fvk_bytes = [0; 96];
    fvk_bytes[..32].copy_from_slice(&ak);
    fvk_bytes[32..64].copy_from_slice(&nkb);
    fvk_bytes[64..].copy_from_slice(&rivk[0].to_repr());
    let mut k = Keys { ask, ak, nk, rivk, ivk: [Base::ZERO; 2], dk: [[0; 32]; 2], ovk: [[0; 32]; 2], fvk_bytes };
    for s in 0..2 {
        let r = prf(&k.rivk[s].to_repr(), 0x82, &[&ak, &nkb]);
        k.dk[s].copy_from_slice(&r[..32]);
        k.ovk[s].copy_from_slice(&r[32..]);
        let akx = Base::from_repr(ak).unwrap();
        let msg: Vec<bool> = bits(&akx, 255).into_iter().chain(bits(&nk, 255)).collect();
        k.ivk[s] = sinsemilla::CommitDomain::new("z.cash:Orchard-CommitIvk").short_commit(msg.into_iter(), &k.rivk[s]).unwrap();
    }
    k
}

pub fn diversifier(dk: &[u8; 32], j: &[u8; 11]) -> [u8; 11] {
    let ff = FF1::<Aes256>::new(dk, 2).unwrap();
    ff.encrypt(&[], &BinaryNumeralString::from_bytes_le(j)).unwrap().to_bytes_le().try_into().unwrap()
}
pub fn g_d(d: &[u8; 11]) -> Point {
    let p = h2c("z.cash:Orchard-gd", d);
    if bool::from(p.is_identity()) { h2c("z.cash:Orchard-gd", b"") } else { p }
}
pub fn address(ivk: &Base, d: &[u8; 11]) -> [u8; 43] {
    let mut a = [0; 43];
    a[..11].copy_from_slice(d);
    a[11..].copy_from_slice(&(g_d(d) * scalar_of_base(ivk)).to_bytes());
    a
}

#[derive(Clone, Debug)]
pub struct NoteParts {
    pub addr: [u8; 43],
    pub v: u64,
    pub rho: Base,
    pub rseed: [u8; 32],
}
impl NoteParts {
    pub fn esk(&self) -> Scalar {
        to_scalar(prf(&self.rseed, 4, &[&self.rho.to_repr()]))
    }
    pub fn rcm(&self) -> Scalar {
        to_scalar(prf(&self.rseed, 5, &[&self.rho.to_repr()]))
    }
    pub fn psi(&self) -> Base {
        to_base(prf(&self.rseed, 9, &[&self.rho.to_repr()]))
    }
    pub fn g_d(&self) -> Point {
        g_d(&self.addr[..11].try_into().unwrap())
    }
    pub fn pk_d(&self) -> Point {
        Point::from_bytes(&self.addr[11..].try_into().unwrap()).unwrap()
    }
    pub fn cm(&self) -> Option<Point> {
        let m: Vec<bool> = byte_bits(&self.g_d().to_bytes())
            .into_iter()
            .chain(byte_bits(&self.addr[11..]))
            .chain(byte_bits(&self.v.to_le_bytes()))
            .chain(bits(&self.rho, 255))
            .chain(bits(&self.psi(), 255))
            .collect();
        Option::from(sinsemilla::CommitDomain::new("z.cash:Orchard-NoteCommit").commit(m.into_iter(), &self.rcm()))
    }
    pub fn nullifier(&self, nk: &Base) -> Base {
        let prf_nf = poseidon::Hash::<_, poseidon::P128Pow5T3, poseidon::ConstantLength<2>, 3, 2>::init().hash([*nk, self.rho]);
        let k = h2c("z.cash:Orchard", b"K");
        x_of(&(k * scalar_of_base(&(prf_nf + self.psi())) + self.cm().unwrap()))
    }
    pub fn epk(&self) -> [u8; 32] {
        (self.g_d() * self.esk()).to_bytes()
    }
}

pub fn merkle_node(level: u8, l: &Base, r: &Base) -> Base {
    let msg: Vec<bool> = (0..10).map(|i| (level >> i.min(7)) & 1 == 1 && i < 8).chain(bits(l, 255)).chain(bits(r, 255)).collect();
    Option::from(sinsemilla::HashDomain::new("z.cash:Orchard-MerkleCRH").hash(msg.into_iter())).unwrap_or(Base::ZERO)
}
pub fn merkle_root(leaf: Base, pos: u32, path: &[Base; 32]) -> Base {
    let mut node = leaf;
    for l in 0..32u8 {
        node = if (pos >> l) & 1 == 0 { merkle_node(l, &node, &path[l as usize]) } else { merkle_node(l, &path[l as usize], &node) };
    }
    node
}

/// `[v]V + [r]R` for a signed `v`.
pub fn value_commit(v: i128, r: &Scalar) -> Point {
    let m = Scalar::from_u128(v.unsigned_abs());
    h2c("z.cash:Orchard-cv", b"v") * (if v < 0 { -m } else { m }) + h2c("z.cash:Orchard-cv", b"r") * r
}

pub fn kdf(secret: &Point, epk: &[u8; 32]) -> [u8; 32] {
    Params::new().hash_length(32).personal(b"Zcash_OrchardKDF").to_state().update(&secret.to_bytes()).update(epk).finalize().as_bytes().try_into().unwrap()
}
pub fn ock(ovk: &[u8; 32], cv: &[u8; 32], cmx: &[u8; 32], epk: &[u8; 32]) -> [u8; 32] {
    Params::new().hash_length(32).personal(b"Zcash_Orchardock").to_state().update(ovk).update(cv).update(cmx).update(epk).finalize().as_bytes().try_into().unwrap()
}

fn b2b(p: &[u8; 16], m: &[u8]) -> [u8; 32] {
    Params::new().hash_length(32).personal(p).hash(m).as_bytes().try_into().unwrap()
}
#[derive(Clone, Debug)]
pub struct RawAction {
    pub nf: [u8; 32],
    pub rk: [u8; 32],
    pub cmx: [u8; 32],
    pub epk: [u8; 32],
    pub enc: [u8; 580],
    pub out: [u8; 80],
    pub cv: [u8; 32],
    pub sig: [u8; 64],
}
pub fn txid_digest(acts: &[RawAction], flags: u8, balance: i64, anchor: &[u8; 32]) -> [u8; 32] {
    if acts.is_empty() {
        return b2b(b"ZTxIdOrchardHash", &[]);
    }
    let (mut c, mut m, mut n) = (vec![], vec![], vec![]);
    for a in acts {
        c.extend_from_slice(&a.nf);
        c.extend_from_slice(&a.cmx);
        c.extend_from_slice(&a.epk);
        c.extend_from_slice(&a.enc[..52]);
        m.extend_from_slice(&a.enc[52..564]);
        n.extend_from_slice(&a.cv);
        n.extend_from_slice(&a.rk);
        n.extend_from_slice(&a.enc[564..]);
        n.extend_from_slice(&a.out);
    }
    let mut h = vec![];
    h.extend_from_slice(&b2b(b"ZTxIdOrcActCHash", &c));
    h.extend_from_slice(&b2b(b"ZTxIdOrcActMHash", &m));
    h.extend_from_slice(&b2b(b"ZTxIdOrcActNHash", &n));
    h.push(flags);
    h.extend_from_slice(&balance.to_le_bytes());
    h.extend_from_slice(anchor);
    b2b(b"ZTxIdOrchardHash", &h)
}
pub fn auth_digest(proof: &[u8], acts: &[RawAction], bsig: &[u8; 64]) -> [u8; 32] {
    let mut h = proof.to_vec();
    for a in acts {
        h.extend_from_slice(&a.sig);
    }
    h.extend_from_slice(bsig);
    b2b(b"ZTxAuthOrchaHash", &h)
}
pub fn empty_auth() -> [u8; 32] {
    b2b(b"ZTxAuthOrchaHash", &[])
}

pub fn zip32(seed: &[u8], path: &[u32]) -> [u8; 32] {
    let i = Params::new().hash_length(64).personal(b"ZcashIP32Orchard").hash(seed);
    let (mut sk, mut c): ([u8; 32], [u8; 32]) = (i.as_bytes()[..32].try_into().unwrap(), i.as_bytes()[32..].try_into().unwrap());
    for p in path {
        let r = prf(&c, 0x81, &[&sk, &p.to_le_bytes()]);
        sk.copy_from_slice(&r[..32]);
        c.copy_from_slice(&r[32..]);
    }
    sk
}
