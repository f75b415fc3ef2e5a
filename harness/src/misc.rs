//! C14, C18 - C21, C24, C25.
use std::error::Error;
use std::fmt::{self, Display, Formatter};

use amplify::num::u5;
use commit_verify::merkle::MerkleBuoy;
use commit_verify::{
    CommitId, CommitVerify, CommitmentProtocol, ConvolveCommit, ConvolveCommitProof,
    ConvolveVerifyError, DigestExt, EmbedCommitProof, EmbedCommitVerify, EmbedVerifyError,
    ReservedBytes, Ripemd160, Sha256, TryCommitVerify, VerifyEq, VerifyError,
};
use single_use_seals::{
    ClientSideWitness, NoWitness, PublishedWitness, SealError, SealWitness, SingleUseSeal,
};
use strict_encoding::{
    DecodeError, StrictDecode, StrictDumb, StrictEncode, StrictReader, StrictType,
};

use crate::refs::{enc, h32, tagged, TAG_STRICT};
use crate::sym;

pub enum Proto {}
impl CommitmentProtocol for Proto {}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Refused(u16);
impl Display for Refused {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { f.write_str("refused") }
}
impl Error for Refused {}

// ---------------------------------------------------------------- C18
/// Commitment whose equality ignores a part of the data.
#[derive(Clone, Debug)]
struct Cmt {
    id: u32,
    noise: u32,
}
impl PartialEq for Cmt {
    fn eq(&self, o: &Cmt) -> bool { self.id == o.id }
}
impl Eq for Cmt {}
struct Msg18 {
    v: u32,
    fails: bool,
    noise: u32,
}
fn mix(v: u32) -> u32 { v.wrapping_mul(0x9E37_79B1) ^ 0x5bd1_e995 }
impl CommitVerify<Msg18, Proto> for Cmt {
    fn commit(m: &Msg18) -> Self { Cmt { id: mix(m.v), noise: m.noise } }
}
struct TryCmt(Cmt);
impl PartialEq for TryCmt {
    fn eq(&self, o: &TryCmt) -> bool { self.0 == o.0 }
}
impl Eq for TryCmt {}
impl TryCommitVerify<Msg18, Proto> for TryCmt {
    type Error = Refused;
    fn try_commit(m: &Msg18) -> Result<Self, Refused> {
        if m.fails {
            Err(Refused(m.noise as u16))
        } else {
            Ok(TryCmt(Cmt { id: mix(m.v), noise: m.noise }))
        }
    }
}

// ---------------------------------------------------------------- C19
/// Container and proof with arbitrary (symbolic) behaviour: each operation is a different mixing of
/// its arguments, may fail depending on them, and equality ignores the noise.
#[derive(Clone, Debug)]
struct Cont {
    v: u32,
    noise: u32,
}
impl VerifyEq for Cont {
    fn verify_eq(&self, o: &Self) -> bool { self.v == o.v }
}
#[derive(Clone, Debug)]
struct EProof {
    p: u32,
    /// containers this proof can't restore
    bad: u32,
    /// what restoring reports in that case
    kind: u8,
    noise: u32,
}
impl VerifyEq for EProof {
    fn verify_eq(&self, o: &Self) -> bool { self.p == o.p }
}
#[derive(Clone)]
struct Msg19 {
    m: u32,
    /// container value the message can't be embedded into
    bad: u32,
    code: u16,
}
fn f_restore(p: u32, c: u32) -> u32 { p.wrapping_mul(3).wrapping_add(c.wrapping_mul(5)) }
fn f_embed(c: u32, m: u32) -> u32 { c.wrapping_mul(7).wrapping_add(m.wrapping_mul(11)) ^ 0x55 }
fn f_proof(c: u32, m: u32) -> u32 { c.wrapping_mul(13).wrapping_sub(m.wrapping_mul(17)) ^ 0xAA00 }
impl EmbedCommitProof<Msg19, Cont, Proto> for EProof {
    fn restore_original_container(&self, c: &Cont) -> Result<Cont, EmbedVerifyError<Refused>> {
        if c.v == self.bad {
            return Err(match self.kind {
                0 => EmbedVerifyError::InvalidProof,
                1 => EmbedVerifyError::CommitmentMismatch,
                2 => EmbedVerifyError::ProofMismatch,
                _ => EmbedVerifyError::InvalidMessage(Refused(self.noise as u16)),
            });
        }
        Ok(Cont { v: f_restore(self.p, c.v), noise: self.noise })
    }
}
impl EmbedCommitVerify<Msg19, Proto> for Cont {
    type Proof = EProof;
    type CommitError = Refused;
    fn embed_commit(&mut self, msg: &Msg19) -> Result<EProof, Refused> {
        if self.v == msg.bad {
            return Err(Refused(msg.code));
        }
        let p = f_proof(self.v, msg.m);
        self.v = f_embed(self.v, msg.m);
        Ok(EProof { p, bad: 0, kind: 0, noise: sym::u32() })
    }
}
/// An honest scheme: the proof is the original container.
#[derive(Clone, Debug, PartialEq, Eq)]
struct Honest(u32, u32);
#[derive(Clone, Debug, PartialEq, Eq)]
struct HonestProof(u32, u32);
impl EmbedCommitProof<u32, Honest, Proto> for HonestProof {
    fn restore_original_container(&self, c: &Honest) -> Result<Honest, EmbedVerifyError<Refused>> {
        if mix(self.0) ^ self.1 != c.1 {
            return Err(EmbedVerifyError::InvalidProof);
        }
        Ok(Honest(self.0, self.1))
    }
}
impl EmbedCommitVerify<u32, Proto> for Honest {
    type Proof = HonestProof;
    type CommitError = Refused;
    fn embed_commit(&mut self, msg: &u32) -> Result<HonestProof, Refused> {
        let p = HonestProof(self.0, self.1);
        self.1 ^= mix(self.0);
        self.0 = f_embed(self.0, *msg);
        Ok(p)
    }
}

// ---------------------------------------------------------------- C20
#[derive(Clone)]
struct Orig(u32);
#[derive(Clone)]
struct CCmt {
    v: u32,
    noise: u32,
}
impl VerifyEq for CCmt {
    fn verify_eq(&self, o: &Self) -> bool { self.v == o.v }
}
#[derive(Clone)]
struct CProof {
    p: u32,
    suppl: u32,
    noise: u32,
}
impl VerifyEq for CProof {
    fn verify_eq(&self, o: &Self) -> bool { self.p == o.p && self.suppl == o.suppl }
}
struct Msg20 {
    m: u32,
    bad: u32,
}
fn g_restore(p: u32, c: u32) -> u32 { p.wrapping_mul(3).wrapping_sub(c.wrapping_mul(5)) }
fn g_cmt(o: u32, s: u32, m: u32) -> u32 {
    o.wrapping_mul(7).wrapping_add(m.wrapping_mul(11)).wrapping_add(s.wrapping_mul(19)) ^ 0x55
}
fn g_proof(o: u32, s: u32, m: u32) -> u32 {
    o.wrapping_mul(13).wrapping_sub(m.wrapping_mul(17)).wrapping_add(s.wrapping_mul(23))
}
impl ConvolveCommitProof<Msg20, Orig, Proto> for CProof {
    type Suppl = u32;
    fn restore_original(&self, c: &CCmt) -> Orig { Orig(g_restore(self.p, c.v)) }
    fn extract_supplement(&self) -> &u32 { &self.suppl }
}
impl ConvolveCommit<Msg20, CProof, Proto> for Orig {
    type Commitment = CCmt;
    type CommitError = Refused;
    fn convolve_commit(&self, s: &u32, m: &Msg20) -> Result<(CCmt, CProof), Refused> {
        if self.0.wrapping_add(s.wrapping_mul(29)) == m.bad {
            return Err(Refused(0));
        }
        Ok((
            CCmt { v: g_cmt(self.0, *s, m.m), noise: sym::u32() },
            CProof { p: g_proof(self.0, *s, m.m), suppl: *s, noise: sym::u32() },
        ))
    }
}

// ---------------------------------------------------------------- C21
#[derive(Clone, PartialEq, Eq, Debug, Default, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = "Harness")]
pub struct TSeal {
    key: u32,
    id: u32,
}
impl Display for TSeal {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { f.write_str("seal") }
}
#[derive(Clone, PartialEq, Eq, Debug, StrictType, StrictDumb, StrictEncode, StrictDecode, serde::Serialize, serde::Deserialize)]
#[strict_type(lib = "Harness")]
pub struct TPub {
    id: u32,
    key: u32,
    expect: u32,
    code: u16,
}
#[derive(Clone, PartialEq, Eq, Debug, StrictType, StrictDumb, StrictEncode, StrictDecode, serde::Serialize, serde::Deserialize)]
#[strict_type(lib = "Harness")]
pub struct TCli {
    key: u32,
    bad: u32,
    code: u16,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct PubErr(u16);
impl Display for PubErr {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { f.write_str("pub") }
}
impl Error for PubErr {}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct CliErr(u16);
impl Display for CliErr {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { f.write_str("cli") }
}
impl Error for CliErr {}
fn s_included(seal: &TSeal, msg: u32, w: &SealWitness<TSeal>) -> bool {
    seal.key == msg.wrapping_mul(3).wrapping_add(w.published.key).wrapping_add(w.client.key.wrapping_mul(5))
}
fn s_proof(cli: &TCli, msg: u32) -> Option<u32> {
    (msg != cli.bad).then(|| msg.wrapping_mul(7).wrapping_add(cli.key))
}
impl TSeal {
    pub fn any() -> TSeal { TSeal { key: sym::u32(), id: sym::u32() } }
}
impl TPub {
    pub fn any() -> TPub { TPub { id: sym::u32(), key: sym::u32(), expect: sym::u32(), code: sym::u16() } }
}
impl TCli {
    pub fn any() -> TCli { TCli { key: sym::u32(), bad: sym::u32(), code: sym::u16() } }
}
impl SingleUseSeal for TSeal {
    type Message = u32;
    type PubWitness = TPub;
    type CliWitness = TCli;
    fn is_included(&self, msg: u32, w: &SealWitness<Self>) -> bool { s_included(self, msg, w) }
}
impl ClientSideWitness for TCli {
    type Seal = TSeal;
    type Proof = u32;
    type Error = CliErr;
    fn convolve_commit(&self, msg: u32) -> Result<u32, CliErr> {
        s_proof(self, msg).ok_or(CliErr(self.code))
    }
    fn merge(&mut self, _: Self) -> Result<(), impl Error> { Ok::<_, CliErr>(()) }
}
impl PublishedWitness<TSeal> for TPub {
    type PubId = u32;
    type Error = PubErr;
    fn pub_id(&self) -> u32 { self.id }
    fn verify_commitment(&self, proof: u32) -> Result<(), PubErr> {
        if proof == self.expect { Ok(()) } else { Err(PubErr(self.code)) }
    }
}

fn seals21(n: u64) -> (SealWitness<TSeal>, Vec<TSeal>, u32) {
    let w = SealWitness::<TSeal>::new(
        TPub { id: sym::u32(), key: sym::u32(), expect: sym::u32(), code: sym::u16() },
        TCli { key: sym::u32(), bad: sym::u32(), code: sym::u16() },
    );
    let seals = (0..n).map(|_| TSeal { key: sym::u32(), id: sym::u32() }).collect();
    (w, seals, sym::u32())
}
fn check21(w: &SealWitness<TSeal>, seals: &[TSeal], msg: u32, r: &Result<(), SealError<TSeal>>) {
    let first = seals.iter().find(|s| !s_included(s, msg, w));
    match (first, s_proof(&w.client, msg)) {
        (Some(s), _) => {
            let ok = matches!(r, Err(SealError::NotIncluded(x, id)) if x == s && *id == w.published.id);
            sym::check(ok, "first seal not included is reported with the publication id");
            sym::cover("not included");
        }
        (None, None) => {
            let ok = matches!(r, Err(SealError::Client(e)) if e.0 == w.client.code);
            sym::check(ok, "client-side error is passed on");
            sym::cover("client");
        }
        (None, Some(p)) if p != w.published.expect => {
            let ok = matches!(r, Err(SealError::Published(e)) if e.0 == w.published.code);
            sym::check(ok, "publication error is passed on");
            sym::cover("published");
        }
        _ => {
            sym::check(r.is_ok(), "valid closing is accepted");
            sym::cover("ok");
        }
    }
}
fn eq21(a: &Result<(), SealError<TSeal>>, b: &Result<(), SealError<TSeal>>) -> bool {
    match (a, b) {
        (Ok(()), Ok(())) => true,
        (Err(SealError::NotIncluded(a, b)), Err(SealError::NotIncluded(c, d))) => a == c && b == d,
        (Err(SealError::Client(a)), Err(SealError::Client(b))) => a == b,
        (Err(SealError::Published(a)), Err(SealError::Published(b))) => a == b,
        _ => false,
    }
}

// ---------------------------------------------------------------- C24
fn reserved<const LEN: usize, const VAL: u8>() {
    // the default is the reserved value
    let d = ReservedBytes::<LEN, VAL>::default();
    sym::check(enc(&d) == [VAL; LEN], "default serializes to the reserved bytes");
    sym::check(
        h32(d.commit_id()) == tagged(TAG_STRICT, &[VAL; LEN]),
        "reserved bytes are committed to",
    );
    // deserialization of any bytes, with something behind them
    let b: [u8; LEN] = sym::bytes();
    let mut data = b.to_vec();
    data.push(sym::byte());
    let mut r = StrictReader::in_memory::<{ usize::MAX }>(&data[..]);
    match ReservedBytes::<LEN, VAL>::strict_decode(&mut r) {
        Ok(v) => {
            sym::check(b == [VAL; LEN], "only the reserved value is accepted");
            sym::check(v == d, "decoded value is the reserved one");
            sym::check(enc(&v) == [VAL; LEN], "reserved field serializes to the reserved bytes");
            sym::check(v.commit_id() == d.commit_id(), "commitment of a decoded field");
            sym::check(r.into_cursor().position() == LEN as u64, "exactly the field is consumed");
            sym::cover("accepted");
        }
        Err(e) => {
            sym::check(b != [VAL; LEN], "the reserved value is accepted");
            sym::check(matches!(e, DecodeError::DataIntegrityError(_)), "data integrity error");
            sym::cover("refused");
        }
    }
    // truncated input
    if LEN > 0 {
        let n = sym::choose(LEN as u32) as usize;
        let mut r = StrictReader::in_memory::<{ usize::MAX }>(&b[..n]);
        sym::check(
            ReservedBytes::<LEN, VAL>::strict_decode(&mut r).is_err(),
            "truncated field is refused",
        );
    }
}
fn reserved_from<const LEN: usize, const VAL: u8>() {
    let b: [u8; LEN] = sym::bytes();
    sym::allow_panic(true);
    let v = ReservedBytes::<LEN, VAL>::from(b);
    sym::allow_panic(false);
    sym::check(b == [VAL; LEN], "construction from a different array is refused");
    sym::check(enc(&v) == [VAL; LEN], "constructed field serializes to the reserved bytes");
    sym::cover("end");
}

// ---------------------------------------------------------------- C25
trait Depth: Copy + Eq + std::ops::SubAssign<u8> + Default {
    fn mk(d: u8) -> Self;
    fn get(self) -> u8;
}
impl Depth for u5 {
    fn mk(d: u8) -> u5 { u5::with(d) }
    fn get(self) -> u8 { self.to_u8() }
}
impl Depth for u8 {
    fn mk(d: u8) -> u8 { d }
    fn get(self) -> u8 { self }
}
/// Nodes are laid out from the left edge of the tree; `total` is the covered width in units of the
/// smallest possible node (depth 31). All is written without branching on the depths.
/// Long cross-sections: their first nodes.
fn prefix(shape: u64) -> Vec<u8> {
    match shape {
        0 => vec![],
        // a comb whose nodes grow: each push surfaces
        1 => [31].into_iter().chain((3..=31).rev()).collect(),
        // a comb whose nodes shrink
        2 => (1..=29).collect(),
        // nodes of one size
        3 => vec![6; 61],
        4 => vec![9; 300],
        // combs which grow inside of those which shrink
        5 => (2..=12).flat_map(|d| [[d].to_vec(), if d == 12 { [14, 14, 13].to_vec() } else { vec![] }].concat()).collect(),
        // a growing comb after a half
        6 => [1, 2, 31, 31].into_iter().chain((6..=30).rev()).collect(),
        // pairs of children of nodes of one size, then larger ones
        _ => [vec![8; 64], vec![5; 5], vec![16; 127], vec![31, 31]].concat(),
    }
}
fn buoy<D: Depth>(n: u64, max_depth: u8, shape: u64) {
    let prefix = prefix(shape);
    let d0 = if prefix.is_empty() { sym::byte() } else { prefix[0] };
    sym::assume(d0 >= 1 && d0 <= max_depth);
    let mut b = MerkleBuoy::<D>::new(D::mk(d0));
    sym::check(b.level().get() == d0, "level before any push");
    let full = 1u32 << 31;
    let mut total = 1u32 << (31 - d0);
    for k in 0..n as usize + prefix.len().max(1) - 1 {
        let d = if k + 1 < prefix.len() { prefix[k + 1] } else { sym::byte() };
        sym::assume(d <= max_depth);
        if d == 0 {
            let lvl = b.level();
            let s = b.push(D::mk(0));
            sym::check(!s, "zero depth does not surface");
            sym::check(b.level() == lvl, "zero depth changes nothing");
            sym::cover("zero");
            continue;
        }
        let size = 1u32 << (31 - d);
        // a node of a cross-section starts at a multiple of its size and lies inside of the tree
        sym::assume(total & (size - 1) == 0);
        sym::assume(size <= full - total);
        let after = total + size;
        let was = b.level();
        let surfaced = b.push(D::mk(d));
        // size of the largest complete subtree ending here: the lowest set bit
        let low = after & after.wrapping_neg();
        let lvl = b.level().get();
        sym::check(lvl <= 31 && 1u32 << (31 - lvl) == low, "level is the depth of the completed subtree");
        // the tracked subtree grows: the whole covered part is one complete subtree
        sym::check(surfaced == (after & (after - 1) == 0), "surfaces exactly when the tracked subtree grows");
        if surfaced {
            sym::cover("surfaced");
        }
        let _ = was;
        total = after;
    }
    sym::cover("end");
}

// ---------------------------------------------------------------- C14
fn len_prefix<const MAX: usize>(max: usize, len: usize) -> Vec<u8> {
    let w = match max {
        0..=0xFF => 1,
        0x100..=0xFFFF => 2,
        0x1_0000..=0xFF_FFFF => 3,
        _ => 4,
    };
    (len as u32).to_le_bytes()[..w].to_vec()
}
fn input<D: DigestExt<N>, const N: usize, const MAX: usize>(
    hash: fn(&[u8]) -> [u8; N],
    len: usize,
    symbolic: usize,
) {
    let tag_len = sym::choose(4) as usize;
    let tag = sym::vec(tag_len);
    let mut data = vec![0x5Au8; len];
    let k = symbolic.min(len);
    sym::fill(&mut data[..k]);
    sym::fill(&mut data[len - k.min(len - k)..]);
    let pre = sym::vec(sym::choose(2) as usize);
    let mut h = D::from_tag(&tag);
    h.input_raw(&pre);
    h.input_with_len::<MAX>(&data);
    let post = sym::vec(sym::choose(2) as usize);
    h.input_raw(&post);
    let r = h.finish();
    let t = hash(&tag);
    let mut want = vec![];
    want.extend_from_slice(&t);
    want.extend_from_slice(&t);
    want.extend_from_slice(&pre);
    want.extend(len_prefix::<MAX>(MAX, len));
    want.extend_from_slice(&data);
    want.extend_from_slice(&post);
    sym::check(r == hash(&want), "tagged hash of the raw and length-prefixed data");
    sym::cover("end");
}
fn input_any<D: DigestExt<N>, const N: usize>(hash: fn(&[u8]) -> [u8; N]) {
    let len = sym::choose(sym::arg(1) as u32 + 1) as usize;
    macro_rules! go { ($($i:literal => $m:literal),*) => { match sym::choose(13) { $( $i => {
        if len > $m { return; }
        input::<D, N, $m>(hash, len, 64)
    } )* _ => {} } } }
    go!(0 => 0, 1 => 1, 2 => 0x7F, 3 => 0xFE, 4 => 0xFF, 5 => 0x100, 6 => 0xFFFE, 7 => 0xFFFF,
        8 => 0x10000, 9 => 0xFFFFFF, 10 => 0x1000000, 11 => 0xFFFFFFFE, 12 => 0xFFFFFFFF);
}
fn input_edge<D: DigestExt<N>, const N: usize>(hash: fn(&[u8]) -> [u8; N]) {
    match sym::arg(1) {
        0 => input::<D, N, 0xFF>(hash, 255, 255),
        1 => input::<D, N, 0x100>(hash, 255, 255),
        2 => input::<D, N, 0x100>(hash, 256, 256),
        3 => input::<D, N, 0xFFFF>(hash, 300, 300),
        4 => input::<D, N, 0xFFFFFF>(hash, 300, 300),
        5 => input::<D, N, 0xFFFFFFFF>(hash, 300, 300),
        6 => input::<D, N, 0xFFFF>(hash, 0xFFFF, 8),
        7 => input::<D, N, 0x10000>(hash, 0xFFFF, 8),
        8 => input::<D, N, 0x10000>(hash, 0x10000, 8),
        9 => input::<D, N, 0xFFFFFF>(hash, 0x12345, 8),
        10 => input::<D, N, 0x1000000>(hash, 0x12345, 8),
        _ => input::<D, N, 0xFFFFFFFF>(hash, 0x12345, 8),
    }
}
/// Two sequences of chunks with the same declared maxima.
fn unambiguous<D: DigestExt<N>, const N: usize>() {
    let n = sym::arg(1);
    let max = sym::arg(2) as u32 + 1;
    let mut a = D::from_tag("t");
    let mut b = D::from_tag("t");
    let mut same = true;
    let kinds: Vec<u32> = (0..n).map(|_| sym::choose(4)).collect();
    for k in kinds {
        let x = sym::vec(sym::choose(max) as usize);
        let y = sym::vec(sym::choose(max) as usize);
        same &= x == y;
        for (h, v) in [(&mut a, &x), (&mut b, &y)] {
            match k {
                0 => h.input_with_len::<0x10>(v),
                1 => h.input_with_len::<0x1000>(v),
                2 => h.input_with_len::<0x10000>(v),
                _ => h.input_with_len::<0xFFFFFFFF>(v),
            }
        }
    }
    sym::check((a.finish() == b.finish()) == same, "different chunk sequences never collide");
    sym::cover("end");
}

harnesses! {
    fn h_c14_small() {
        if sym::arg(0) == 0 { input_any::<Sha256, 32>(sym::sha256) } else { input_any::<Ripemd160, 20>(sym::ripemd160) }
    }
    fn h_c14_edge() {
        if sym::arg(0) == 0 { input_edge::<Sha256, 32>(sym::sha256) } else { input_edge::<Ripemd160, 20>(sym::ripemd160) }
    }
    fn h_c14_pairs() {
        if sym::arg(0) == 0 { unambiguous::<Sha256, 32>() } else { unambiguous::<Ripemd160, 20>() }
    }

    fn h_c18_commit() {
        let m = Msg18 { v: sym::u32(), fails: false, noise: sym::u32() };
        let c = Cmt { id: sym::u32(), noise: sym::u32() };
        let r = CommitVerify::<Msg18, Proto>::verify(&c, &m);
        if Cmt::commit(&m) == c {
            sym::check(r == Ok(()), "matching message verifies");
            sym::cover("ok");
        } else {
            sym::check(r == Err(VerifyError::InvalidCommitment), "mismatch is an invalid commitment");
            sym::cover("mismatch");
        }
        let own = Cmt::commit(&m);
        sym::check(CommitVerify::<Msg18, Proto>::verify(&own, &m).is_ok(), "own message verifies");
    }
    fn h_c18_try() {
        let m = Msg18 { v: sym::u32(), fails: sym::fork(), noise: sym::u32() };
        let c = TryCmt(Cmt { id: sym::u32(), noise: sym::u32() });
        let r = TryCommitVerify::<Msg18, Proto>::verify(&c, &m);
        match TryCmt::try_commit(&m) {
            Err(_) => {
                sym::check(r == Err(VerifyError::InvalidMessage), "impossible message is an invalid message");
                sym::cover("message");
            }
            Ok(x) if x == c => {
                sym::check(r == Ok(()), "matching message verifies");
                sym::cover("ok");
            }
            Ok(_) => {
                sym::check(r == Err(VerifyError::InvalidCommitment), "mismatch is an invalid commitment");
                sym::cover("mismatch");
            }
        }
    }

    fn h_c19_verify() {
        let c = Cont { v: sym::u32(), noise: sym::u32() };
        let p = EProof { p: sym::u32(), bad: sym::u32(), kind: sym::choose(4) as u8, noise: sym::u32() };
        let m = Msg19 { m: sym::u32(), bad: sym::u32(), code: sym::u16() };
        let r = c.verify(&m, &p);
        // reference
        if c.v == p.bad {
            let want = p.restore_original_container(&c).err();
            sym::check(r.err() == want, "unrestorable container is passed on");
            sym::cover("restore");
            return;
        }
        let orig = f_restore(p.p, c.v);
        if orig == m.bad {
            sym::check(r == Err(EmbedVerifyError::InvalidMessage(Refused(m.code))), "non-embeddable message with the cause");
            sym::cover("message");
        } else if f_proof(orig, m.m) != p.p {
            sym::check(r == Err(EmbedVerifyError::ProofMismatch), "non-reproduced proof");
            sym::cover("proof");
        } else if f_embed(orig, m.m) != c.v {
            sym::check(r == Err(EmbedVerifyError::CommitmentMismatch), "differing container");
            sym::cover("mismatch");
        } else {
            sym::check(r == Ok(()), "reproduced commitment verifies");
            sym::cover("ok");
        }
    }
    fn h_c19_honest() {
        let mut c = Honest(sym::u32(), sym::u32());
        let m = sym::u32();
        let orig = c.clone();
        let p = match c.embed_commit(&m) { Ok(p) => p, Err(_) => return };
        sym::check(c.verify(&m, &p).is_ok(), "honest commitment verifies");
        let m2 = sym::u32();
        let r = c.verify(&m2, &p);
        sym::check(r.is_ok() == (f_embed(orig.0, m2) == c.0), "other messages verify only if they give the same container");
        sym::cover("end");
    }

    fn h_c20_verify() {
        let p = CProof { p: sym::u32(), suppl: sym::u32(), noise: sym::u32() };
        let c = CCmt { v: sym::u32(), noise: sym::u32() };
        let m = Msg20 { m: sym::u32(), bad: sym::u32() };
        let r = p.verify(&m, &c);
        let o = g_restore(p.p, c.v);
        if o.wrapping_add(p.suppl.wrapping_mul(29)) == m.bad {
            sym::check(r == Err(ConvolveVerifyError::ImpossibleMessage), "impossible message");
            sym::cover("message");
        } else if g_proof(o, p.suppl, m.m) != p.p {
            sym::check(r == Err(ConvolveVerifyError::InvalidProof), "invalid proof");
            sym::cover("proof");
        } else if g_cmt(o, p.suppl, m.m) != c.v {
            sym::check(r == Err(ConvolveVerifyError::CommitmentMismatch), "commitment mismatch");
            sym::cover("mismatch");
        } else {
            sym::check(r == Ok(()), "reproduced commitment verifies");
            sym::cover("ok");
        }
        let _ = (p.noise, c.noise);
    }

    fn h_c21_list() {
        let n = sym::choose(sym::arg(0) as u32 + 1) as u64;
        let (w, seals, msg) = seals21(n);
        let r = w.verify_seals_closing(&seals, msg);
        check21(&w, &seals, msg, &r);
        // owned seals are treated the same way
        let r2 = w.verify_seals_closing(seals.clone(), msg);
        sym::check(eq21(&r, &r2), "owned and borrowed seals");
    }
    // a long list
    fn h_c21_long() {
        let (w, seals, msg) = seals21(sym::arg(0));
        let r = w.verify_seals_closing(&seals, msg);
        check21(&w, &seals, msg, &r);
    }
    fn h_c21_single() {
        let (w, seals, msg) = seals21(1);
        let r = w.verify_seal_closing(&seals[0], msg);
        check21(&w, &seals, msg, &r);
        let l = w.verify_seals_closing([&seals[0]], msg);
        sym::check(eq21(&r, &l), "single seal is a one-element list");
        // a seal type without client-side witness
        sym::check(
            NoWitness::<TSeal>::default().convolve_commit(msg) == Ok(msg),
            "no client-side witness: the message itself is published",
        );
        sym::cover("end");
    }

    fn h_c24() {
        match sym::arg(0) {
            0 => reserved::<0, 0>(),
            1 => reserved::<1, 0>(),
            2 => reserved::<4, 0>(),
            3 => reserved::<4, 0xFF>(),
            4 => reserved::<8, 0>(),
            5 => reserved::<3, 0x5A>(),
            6 => reserved::<16, 1>(),
            7 => reserved::<32, 0>(),
            _ => reserved::<64, 0x80>(),
        }
    }
    fn h_c24_from() {
        match sym::arg(0) {
            0 => reserved_from::<0, 0>(),
            1 => reserved_from::<1, 0>(),
            2 => reserved_from::<4, 0>(),
            3 => reserved_from::<4, 0xFF>(),
            4 => reserved_from::<8, 0>(),
            5 => reserved_from::<3, 0x5A>(),
            6 => reserved_from::<16, 1>(),
            7 => reserved_from::<32, 0>(),
            _ => reserved_from::<64, 0x80>(),
        }
    }

    fn h_c25() {
        if sym::arg(1) == 0 {
            buoy::<u5>(sym::arg(0), 31, sym::arg(2))
        } else {
            buoy::<u8>(sym::arg(0), 31, sym::arg(2))
        }
    }
}
