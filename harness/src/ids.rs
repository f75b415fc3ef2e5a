//! C10 - C13, C26: merklization, commitment ids, layouts, derived encodings.
use std::collections::{BTreeMap, BTreeSet};

use amplify::confinement::Confined;
use amplify::num::{u256, u5};
use amplify::{Bytes32, Wrapper};
use commit_verify::merkle::{MerkleLeaves, MerkleNode, NodeBranching};
use commit_verify::mpc::{Leaf, Message, ProtocolId};
use commit_verify::{
    CommitColType, CommitEncode, CommitEngine, CommitId, CommitStep, CommitmentId, CommitmentLayout, Conceal, DigestExt,
    MerkleHash, Sha256, StrictHash,
};
use strict_encoding::{Sizing, StrictDecode, StrictDumb, StrictEncode, StrictType};
use strict_types::typesys::TypeFqn;

use crate::refs::{self, h32, tagged, H, TAG_MERKLE, TAG_STRICT};
use crate::sym;

const LIB: &str = "HarnessLib";
const TAG_A: &str = "urn:harness:a#2024";
const TAG_B: &str = "urn:harness:b";

macro_rules! id {
    ($name:ident, $tag:expr) => {
        #[derive(Wrapper, Copy, Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug, From)]
        #[wrapper(Deref, BorrowSlice)]
        #[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
        #[strict_type(lib = LIB)]
        pub struct $name(
            #[from]
            #[from([u8; 32])]
            Bytes32,
        );
        impl CommitmentId for $name {
            const TAG: &'static str = $tag;
        }
        impl From<Sha256> for $name {
            fn from(h: Sha256) -> Self { h.finish().into() }
        }
    };
}
id!(IdA, TAG_A);
id!(IdB, TAG_B);
id!(IdE, "");

macro_rules! value {
    ($(#[$m:meta])* $name:ident $body:tt) => {
        #[derive(Copy, Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug)]
        #[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
        #[strict_type(lib = LIB)]
        $(#[$m])*
        pub struct $name $body
    };
    ($(#[$m:meta])* $name:ident $body:tt;) => {
        #[derive(Copy, Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug)]
        #[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
        #[strict_type(lib = LIB)]
        $(#[$m])*
        pub struct $name $body;
    };
}

// ---------------------------------------------------------------- leaves
value!(#[derive(CommitEncode)] #[commit_encode(strategy = strict, id = MerkleHash)] Lf { at: u16, data: [u8; 8] });
impl Lf {
    fn any(at: u16) -> Lf { Lf { at, data: sym::bytes() } }
    fn hash(&self) -> H {
        let mut v = self.at.to_le_bytes().to_vec();
        v.extend_from_slice(&self.data);
        tagged(TAG_MERKLE, &v)
    }
}
/// A leaf most of which are empty: for lists of great length.
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
struct Sparse(Option<u16>);
impl CommitEncode for Sparse {
    type CommitmentId = MerkleHash;
    fn commit_encode(&self, e: &mut CommitEngine) {
        if let Some(x) = self.0 {
            e.commit_to_serialized(&x)
        }
    }
}
/// A leaf with a tag of its own cannot be, so the second kind is the multi-message leaf.
fn any_leaf() -> (Leaf, H) {
    if sym::fork() {
        let (p, m) = (sym::bytes(), sym::bytes());
        (Leaf::inhabited(ProtocolId::from(p), Message::from(m)), refs::leaf_inhabited(&p, &m))
    } else {
        let (e, p) = (sym::u64(), sym::u32());
        (Leaf::entropy(e, p), refs::leaf_entropy(e, p))
    }
}
fn any_node() -> (MerkleNode, H) {
    let kind = sym::choose(3) as u8;
    let depth = sym::byte();
    let width = sym::bytes::<32>();
    let (a, b) = (sym::bytes::<32>(), sym::bytes::<32>());
    let n = MerkleNode {
        branching: [NodeBranching::Void, NodeBranching::Single, NodeBranching::Branch][kind as usize],
        depth,
        width: u256::from_le_bytes(width),
        node1: MerkleHash::from(a),
        node2: MerkleHash::from(b),
    };
    let mut v = vec![kind, depth];
    v.extend_from_slice(&width);
    v.extend_from_slice(&a);
    v.extend_from_slice(&b);
    (n, tagged(TAG_MERKLE, &v))
}
fn root<const MAX: usize>(l: &[Lf]) -> H
where Confined<Vec<Lf>, 0, MAX>: MerkleLeaves<Leaf = Lf> {
    match Confined::<Vec<Lf>, 0, MAX>::try_from(l.to_vec()) {
        Ok(c) => h32(MerkleHash::merklize(&c).as_slice()),
        Err(_) => [0; 32],
    }
}
fn root_set<const MAX: usize>(l: &[Lf]) -> H
where Confined<BTreeSet<Lf>, 0, MAX>: MerkleLeaves<Leaf = Lf> {
    match Confined::<BTreeSet<Lf>, 0, MAX>::try_from_iter(l.iter().rev().copied()) {
        Ok(c) => h32(MerkleHash::merklize(&c).as_slice()),
        Err(_) => [0; 32],
    }
}

// ---------------------------------------------------------------- committed values
value!(Pair { a: u8, b: u16 });
value!(Num(pub u32););
value!(#[derive(CommitEncode)] #[commit_encode(strategy = strict, id = StrictHash)] Hashed { x: u16, y: u8 });
value!(Open { secret: u32, public: u8 });
value!(Closed { public: u8, digest: u16 });
impl Conceal for Open {
    type Concealed = Closed;
    fn conceal(&self) -> Closed { Closed { public: self.public, digest: (self.secret >> 16) as u16 ^ self.secret as u16 } }
}

#[derive(Clone, Debug, StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
struct Big {
    list: Confined<Vec<Num>, 0, M24>,
    end: u8,
}
impl Conceal for Big {
    type Concealed = Big;
    fn conceal(&self) -> Big { Big { list: self.list.clone(), end: !self.end } }
}
#[derive(Clone, Debug, StrictDumb, StrictType, StrictEncode, StrictDecode, CommitEncode)]
#[strict_type(lib = LIB)]
#[commit_encode(strategy = strict, id = StrictHash)]
struct BigHashed {
    list: Confined<Vec<Num>, 0, M24>,
}

/// One committed part.
#[derive(Clone, PartialEq)]
enum Part {
    Ser(Pair),
    SerNum(Num),
    SerU64(u64),
    Opt(Option<Num>),
    Hash(Hashed),
    Merkle(Vec<Lf>),
    MerkleSet(Vec<Lf>),
    Con(Open),
    List8(Vec<Num>),
    List16(Vec<Num>),
    List24(Vec<Num>),
    List32(Vec<Num>),
    Set8(Vec<Num>),
    Set16(Vec<Num>),
    Map8(Vec<(Num, Pair)>),
    Map24(Vec<(Num, Pair)>),
    ListB(Vec<Num>),
    SetB(Vec<Num>),
    MapB(Vec<(Num, Pair)>),
    OptPair(Option<Pair>),
}
const PARTS: u32 = 20;

/// How variants of parts are taken: all, or a given one.
static mut VARIANT: Option<u32> = None;
fn pick(n: u32) -> u32 {
    match unsafe { VARIANT } {
        Some(k) => k % n,
        None => sym::choose(n),
    }
}
/// Many parts of all kinds in a given order.
fn many_parts(n: u64, seed: u64, max: u32) -> Vec<Part> {
    let v = (0..n)
        .map(|i| {
            let x = (i + seed).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 32;
            unsafe { VARIANT = Some((x >> 8) as u32) };
            any_part((x % PARTS as u64) as u32, max)
        })
        .collect();
    unsafe { VARIANT = None };
    v
}

fn nums(max: u32) -> Vec<Num> { (0..pick(max + 1)).map(|_| Num(sym::u32())).collect() }
/// Sorted by the (constant) lowest byte.
fn sorted(max: u32) -> Vec<Num> {
    (0..pick(max + 1)).map(|i| Num(sym::u32() & 0x00FF_FFFF | (i + 1) << 24)).collect()
}
fn any_part(k: u32, max: u32) -> Part {
    let pair = || Pair { a: sym::byte(), b: sym::u16() };
    match k {
        0 => Part::Ser(pair()),
        1 => Part::SerNum(Num(sym::u32())),
        2 => Part::SerU64(sym::u64()),
        3 => Part::Opt(if pick(2) == 1 { Some(Num(sym::u32())) } else { None }),
        4 => Part::Hash(Hashed { x: sym::u16(), y: sym::byte() }),
        5 => Part::Merkle((0..pick(max + 1)).map(|_| Lf::any(sym::u16())).collect()),
        6 => Part::MerkleSet((0..pick(max + 1)).map(|i| Lf::any(i as u16)).collect()),
        7 => Part::Con(Open { secret: sym::u32(), public: sym::byte() }),
        8 => Part::List8(nums(max)),
        9 => Part::List16(nums(max)),
        10 => Part::List24(nums(max)),
        11 => Part::List32(nums(max)),
        12 => Part::Set8(sorted(max)),
        13 => Part::Set16(sorted(max)),
        14 => Part::Map8(sorted(max).into_iter().map(|n| (n, pair())).collect()),
        16 => Part::ListB((0..=pick(max + 1)).map(|_| Num(sym::u32())).collect()),
        17 => Part::SetB(sorted(max)),
        18 => Part::MapB((0..=pick(max + 1)).map(|i| (Num(sym::u32() & 0x00FF_FFFF | (i + 1) << 24), pair())).collect()),
        19 => Part::OptPair(if pick(2) == 1 { Some(pair()) } else { None }),
        _ => Part::Map24(sorted(max).into_iter().map(|n| (n, pair())).collect()),
    }
}
fn col<const MIN: usize, const MAX: usize>(v: &[Num]) -> Confined<Vec<Num>, MIN, MAX> { Confined::try_from(v.to_vec()).ok().unwrap() }
fn set<const MIN: usize, const MAX: usize>(v: &[Num]) -> Confined<BTreeSet<Num>, MIN, MAX> {
    Confined::try_from_iter(v.iter().rev().copied()).ok().unwrap()
}
fn map<const MIN: usize, const MAX: usize>(v: &[(Num, Pair)]) -> Confined<BTreeMap<Num, Pair>, MIN, MAX> {
    Confined::try_from_iter(v.iter().rev().copied()).ok().unwrap()
}
const M8: usize = 0xFF;
const M16: usize = 0xFFFF;
const M24: usize = 0xFF_FFFF;
const M32: usize = 0xFFFF_FFFF;

impl Part {
    fn commit(&self, e: &mut CommitEngine) {
        match self {
            Part::Ser(v) => e.commit_to_serialized(v),
            Part::SerNum(v) => e.commit_to_serialized(v),
            Part::SerU64(v) => e.commit_to_serialized(v),
            Part::Opt(v) => e.commit_to_option(v),
            Part::Hash(v) => e.commit_to_hash(v),
            Part::Merkle(v) => e.commit_to_merkle(&Confined::<Vec<Lf>, 0, M16>::try_from(v.clone()).ok().unwrap()),
            Part::MerkleSet(v) => {
                e.commit_to_merkle(&Confined::<BTreeSet<Lf>, 0, M32>::try_from_iter(v.iter().rev().copied()).ok().unwrap())
            }
            Part::Con(v) => e.commit_to_concealed(v),
            Part::List8(v) => e.commit_to_linear_list(&col::<0, M8>(v)),
            Part::List16(v) => e.commit_to_linear_list(&col::<0, M16>(v)),
            Part::List24(v) => e.commit_to_linear_list(&col::<0, M24>(v)),
            Part::List32(v) => e.commit_to_linear_list(&col::<0, M32>(v)),
            Part::Set8(v) => e.commit_to_linear_set(&set::<0, M8>(v)),
            Part::Set16(v) => e.commit_to_linear_set(&set::<0, M16>(v)),
            Part::Map8(v) => e.commit_to_linear_map(&map::<0, M8>(v)),
            Part::Map24(v) => e.commit_to_linear_map(&map::<0, M24>(v)),
            Part::ListB(v) => e.commit_to_linear_list(&col::<1, 1000>(v)),
            Part::SetB(v) => e.commit_to_linear_set(&set::<0, 20>(v)),
            Part::MapB(v) => e.commit_to_linear_map(&map::<1, 70000>(v)),
            Part::OptPair(v) => e.commit_to_option(v),
        }
    }
    /// Bytes hashed for the part.
    fn bytes(&self) -> Vec<u8> {
        let mut o = vec![];
        let len = |o: &mut Vec<u8>, n: usize, w: usize| o.extend_from_slice(&(n as u64).to_le_bytes()[..w]);
        let pair = |o: &mut Vec<u8>, p: &Pair| {
            o.push(p.a);
            o.extend_from_slice(&p.b.to_le_bytes());
        };
        let list = |o: &mut Vec<u8>, v: &[Num], w: usize| {
            len(o, v.len(), w);
            for n in v {
                o.extend_from_slice(&n.0.to_le_bytes());
            }
        };
        match self {
            Part::Ser(p) => pair(&mut o, p),
            Part::SerNum(n) => o.extend_from_slice(&n.0.to_le_bytes()),
            Part::SerU64(n) => o.extend_from_slice(&n.to_le_bytes()),
            Part::Opt(None) => o.push(0),
            Part::Opt(Some(n)) => {
                o.push(1);
                o.extend_from_slice(&n.0.to_le_bytes());
            }
            Part::OptPair(None) => o.push(0),
            Part::OptPair(Some(p)) => {
                o.push(1);
                pair(&mut o, p);
            }
            Part::Hash(h) => {
                let mut v = h.x.to_le_bytes().to_vec();
                v.push(h.y);
                o.extend_from_slice(&tagged(TAG_STRICT, &v));
            }
            Part::Merkle(v) | Part::MerkleSet(v) => {
                let l: Vec<H> = v.iter().map(Lf::hash).collect();
                o.extend_from_slice(&refs::merkle(&l));
            }
            Part::Con(v) => {
                let c = v.conceal();
                o.push(c.public);
                o.extend_from_slice(&c.digest.to_le_bytes());
            }
            Part::List8(v) | Part::Set8(v) | Part::SetB(v) => list(&mut o, v, 1),
            Part::List16(v) | Part::Set16(v) | Part::ListB(v) => list(&mut o, v, 2),
            Part::List24(v) => list(&mut o, v, 3),
            Part::List32(v) => list(&mut o, v, 4),
            Part::Map8(v) | Part::Map24(v) | Part::MapB(v) => {
                len(&mut o, v.len(), if let Part::Map8(_) = self { 1 } else { 3 });
                for (k, p) in v {
                    o.extend_from_slice(&k.0.to_le_bytes());
                    pair(&mut o, p);
                }
            }
        }
        o
    }
    fn step(&self) -> CommitStep {
        let f = |n: &'static str| TypeFqn::from(n);
        let (pair, num) = (|| f("HarnessLib.Pair"), || f("HarnessLib.Num"));
        let c = |t: CommitColType, max: u64, v: TypeFqn| CommitStep::Collection(t, Sizing::new(0, max), v);
        match self {
            Part::Ser(_) => CommitStep::Serialized(pair()),
            Part::SerNum(_) | Part::Opt(_) => CommitStep::Serialized(num()),
            Part::SerU64(_) => CommitStep::Serialized(f("_.U64")),
            Part::Hash(_) => CommitStep::Hashed(f("HarnessLib.Hashed")),
            Part::Merkle(_) | Part::MerkleSet(_) => CommitStep::Merklized(f("HarnessLib.Lf")),
            Part::Con(_) => CommitStep::Concealed(f("HarnessLib.Open")),
            Part::List8(_) => c(CommitColType::List, 0xFF, num()),
            Part::List16(_) => c(CommitColType::List, 0xFFFF, num()),
            Part::List24(_) => c(CommitColType::List, 0xFF_FFFF, num()),
            Part::List32(_) => c(CommitColType::List, 0xFFFF_FFFF, num()),
            Part::Set8(_) => c(CommitColType::Set, 0xFF, num()),
            Part::Set16(_) => c(CommitColType::Set, 0xFFFF, num()),
            Part::Map8(_) => c(CommitColType::Map { key: num() }, 0xFF, pair()),
            Part::ListB(_) => CommitStep::Collection(CommitColType::List, Sizing::new(1, 1000), num()),
            Part::SetB(_) => c(CommitColType::Set, 20, num()),
            Part::MapB(_) => CommitStep::Collection(CommitColType::Map { key: num() }, Sizing::new(1, 70000), pair()),
            Part::OptPair(_) => CommitStep::Serialized(pair()),
            Part::Map24(_) => c(CommitColType::Map { key: num() }, 0xFF_FFFF, pair()),
        }
    }
}

harnesses! {
    // merklization of `n` leaves
    fn h_c10() {
        let (n, kind) = (sym::arg(0) as usize, sym::arg(1));
        let l: Vec<Lf> = (0..n).map(|i| Lf::any(i as u16)).collect();
        let want = refs::merkle(&l.iter().map(Lf::hash).collect::<Vec<_>>());
        let got = match kind {
            0 => root::<M8>(&l),
            1 => root::<M16>(&l),
            2 => root::<M32>(&l),
            3 => root_set::<M8>(&l),
            4 => root_set::<M16>(&l),
            _ => root_set::<M32>(&l),
        };
        sym::check(got == want, "the root of a list or set is that of the standard");
        sym::cover("end");
    }
    // very long lists: some leaves, first, last and about the middle, have content
    fn h_c10_long() {
        let n = sym::arg(0) as usize;
        let l: Vec<Sparse> =
            (0..n).map(|i| Sparse(if i < 2 || i + 2 >= n || (i > n / 2 - 2 && i < n / 2 + 2) { Some(sym::u16()) } else { None })).collect();
        let empty = tagged(TAG_MERKLE, &[]);
        let h: Vec<H> = l.iter().map(|x| x.0.map(|x| tagged(TAG_MERKLE, &x.to_le_bytes())).unwrap_or(empty)).collect();
        let want = refs::merkle(&h);
        if let Ok(c) = Confined::<Vec<Sparse>, 0, M32>::try_from(l) {
            sym::check(h32(MerkleHash::merklize(&c).as_slice()) == want, "the root of a long list is that of the standard");
            sym::cover("end");
        }
    }
    // collections with a lower bound, multi-message leaves, order
    fn h_c10_more() {
        let n = sym::arg(0) as usize;
        let (l, h): (Vec<Leaf>, Vec<H>) = (0..n).map(|_| any_leaf()).unzip();
        let want = refs::merkle(&h);
        if let Ok(c) = Confined::<Vec<Leaf>, 1, M32>::try_from(l.clone()) {
            sym::check(h32(MerkleHash::merklize(&c).as_slice()) == want, "the root of multi-message leaves is that of the standard");
        }
        if let Ok(c) = Confined::<Vec<Leaf>, 0, M8>::try_from(l) {
            sym::check(h32(MerkleHash::merklize(&c).as_slice()) == want, "the root does not depend on the size limits");
            sym::cover("end");
        }
    }
    // two lists
    fn h_c11() {
        let (n, m, kind) = (sym::arg(0) as usize, sym::arg(1) as usize, sym::arg(2));
        let a: Vec<Lf> = (0..n).map(|_| Lf::any(sym::u16())).collect();
        let b: Vec<Lf> = (0..m).map(|_| Lf::any(sym::u16())).collect();
        let (x, y) = match kind {
            0 => (root::<M8>(&a), root::<M8>(&b)),
            1 => (root::<M16>(&a), root::<M8>(&b)),
            _ => (root::<M16>(&a), root::<M32>(&b)),
        };
        let mut same = n == m;
        for i in 0..n.min(m) {
            same = same & (a[i].at == b[i].at) & (a[i].data == b[i].data);
        }
        sym::check((x == y) == same, "two lists have the same root exactly if they are the same");
        sym::cover("end");
    }
    fn h_c11_leaf() {
        let (n, m) = (sym::arg(0) as usize, sym::arg(1) as usize);
        let (a, _): (Vec<Leaf>, Vec<H>) = (0..n).map(|_| any_leaf()).unzip();
        let (b, _): (Vec<Leaf>, Vec<H>) = (0..m).map(|_| any_leaf()).unzip();
        let same = a == b;
        let (Ok(a), Ok(b)) = (Confined::<Vec<Leaf>, 0, M16>::try_from(a), Confined::<Vec<Leaf>, 0, M16>::try_from(b)) else { return };
        sym::check((MerkleHash::merklize(&a) == MerkleHash::merklize(&b)) == same, "two lists of multi-message leaves have the same root exactly if they are the same");
        sym::cover("end");
    }
    // nodes
    fn h_c11_node() {
        let (a, x) = any_node();
        let (b, _) = any_node();
        let (i, j) = (a.commit_id(), b.commit_id());
        sym::check(h32(i.as_slice()) == x, "a node has the standard hash");
        let same = (a.branching == b.branching) & (a.depth == b.depth) & (a.width == b.width) & (a.node1 == b.node1) & (a.node2 == b.node2);
        sym::check((i == j) == same, "distinct nodes have distinct hashes");
        sym::cover("end");
    }
    fn h_c11_make() {
        let d = sym::byte();
        let w = sym::u64();
        let (a, b) = (sym::bytes(), sym::bytes());
        const V: H = [0xFF; 32];
        let (ma, mb) = (MerkleHash::from(a), MerkleHash::from(b));
        let w32 = w as u32;
        let d5 = d & 31;
        let (got, made, want) = match sym::choose(6) {
            0 => (MerkleHash::void(d, w), MerkleNode::void(d, w), refs::node(0, d, w, &V, &V)),
            1 => (MerkleHash::single(d, w, ma), MerkleNode::single(d, w, ma), refs::node(1, d, w, &a, &V)),
            2 => (MerkleHash::branches(d, w, ma, mb), MerkleNode::branches(d, w, ma, mb), refs::node(2, d, w, &a, &b)),
            3 => (MerkleHash::void(u5::with(d5), w32), MerkleNode::void(u5::with(d5), w32), refs::node(0, d5, w32 as u64, &V, &V)),
            4 => (MerkleHash::single(u5::with(d5), w32, ma), MerkleNode::single(u5::with(d5), w32, ma), refs::node(1, d5, w32 as u64, &a, &V)),
            _ => (MerkleHash::branches(u5::with(d5), w32, ma, mb), MerkleNode::branches(u5::with(d5), w32, ma, mb), refs::node(2, d5, w32 as u64, &a, &b)),
        };
        sym::check(h32(got.as_slice()) == want, "a node made of its parts has the standard hash");
        sym::check(h32(made.commit_id().as_slice()) == want, "the hash of a node commits to its parts");
        sym::cover("end");
    }

    // sequences of committed parts; argument 1: kind of the first part
    fn h_c12() {
        let (n, first, max) = (sym::arg(0), sym::arg(1) as u32, sym::arg(2) as u32);
        let tag = [TAG_A, "", "urn:harness:a tag which is longer than one block of the hash function, to be sure"][sym::choose(3) as usize];
        let mut e = CommitEngine::new(tag);
        let mut data = vec![];
        let mut steps = vec![];
        for i in 0..n {
            let k = if i == 0 { first } else { sym::choose(PARTS) };
            let p = any_part(k, max);
            p.commit(&mut e);
            data.extend_from_slice(&p.bytes());
            steps.push(p.step());
        }
        if sym::arg(3) == 0 {
            sym::check(e.finish().finish() == tagged(tag, &data), "the id is the hash of the tag twice and all parts");
        } else {
            let layout = match sym::choose(3) {
                0 => e.finish_layout().1.to_vec(),
                1 => e.as_layout().to_vec(),
                _ => e.into_layout().to_vec(),
            };
            sym::check(layout.len() == steps.len(), "the layout has one entry per part");
            for (a, b) in layout.iter().zip(&steps) {
                sym::check(a == b, "an entry of the layout has the kind, names and sizes of the part");
            }
        }
        sym::cover("end");
    }
    // very many parts: number, order, most elements
    fn h_c12_long() {
        let parts = many_parts(sym::arg(0), sym::arg(1), sym::arg(2) as u32);
        let mut e = CommitEngine::new(TAG_A);
        let mut data = vec![];
        for p in &parts {
            p.commit(&mut e);
            data.extend_from_slice(&p.bytes());
        }
        let layout = e.as_layout().to_vec();
        sym::check(layout.len() == parts.len(), "the layout has one entry per part");
        let mut same = true;
        for (a, p) in layout.iter().zip(&parts) {
            same = same & (*a == p.step());
        }
        sym::check(same, "an entry of the layout has the kind, names and sizes of the part");
        sym::check(e.finish().finish() == tagged(TAG_A, &data), "the id is the hash of the tag twice and all parts");
        sym::cover("end");
    }
    // two values of one type: the same kinds of parts
    fn h_c12_pairs() {
        let (first, max) = (sym::arg(0) as u32, sym::arg(1) as u32);
        let second = sym::choose(PARTS);
        let mk = |e: &mut CommitEngine| {
            let (p, q) = (any_part(first, max), any_part(second, max));
            p.commit(e);
            q.commit(e);
            (p, q)
        };
        let (mut a, mut b) = (CommitEngine::new(TAG_A), CommitEngine::new(TAG_A));
        let (p, q) = (mk(&mut a), mk(&mut b));
        let (x, y) = (a.finish().finish(), b.finish().finish());
        let part = |a: &Part, b: &Part| match (a, b) {
            (Part::Con(a), Part::Con(b)) => a.conceal() == b.conceal(),
            (a, b) => a == b,
        };
        let same = part(&p.0, &q.0) & part(&p.1, &q.1);
        sym::check((x == y) == same, "two values share an id exactly if all committed parts are the same");
        sym::cover(if same { "same" } else { "different" });
    }
    // large parts: kind, number of elements (of 4 or 7 bytes)
    fn h_c12_big() {
        let (kind, n) = (sym::arg(0), sym::arg(1) as u32);
        let at = |i: u32| i == 0 || i == n / 2 || i + 1 == n;
        let v: Vec<Num> = (0..n).map(|i| Num(i << 8 | if at(i) { sym::byte() as u32 } else { i.wrapping_mul(7) & 0xFF })).collect();
        let mut e = CommitEngine::new(TAG_A);
        let mut data = vec![];
        let nums = |data: &mut Vec<u8>| {
            for x in &v {
                data.extend_from_slice(&x.0.to_le_bytes());
            }
        };
        let len = |w: usize| (n as u64).to_le_bytes()[..w].to_vec();
        match kind {
            0 | 1 => {
                if kind == 0 { e.commit_to_linear_list(&col::<0, M24>(&v)) } else { e.commit_to_linear_list(&col::<1, M32>(&v)) }
                data.extend_from_slice(&len(3 + kind as usize));
                nums(&mut data);
            }
            2 => {
                e.commit_to_linear_set(&Confined::<BTreeSet<Num>, 0, M24>::try_from_iter(v.iter().copied()).ok().unwrap());
                data.extend_from_slice(&len(3));
                nums(&mut data);
            }
            3 => {
                let v: Vec<(Num, Pair)> = v.iter().map(|x| (*x, Pair { a: 5, b: if at(x.0 >> 8) { sym::u16() } else { 9 } })).collect();
                let m = Confined::<BTreeMap<Num, Pair>, 0, M24>::try_from_iter(v.iter().copied()).ok().unwrap();
                e.commit_to_linear_map(&m);
                data.extend_from_slice(&len(3));
                for (k, p) in &v {
                    data.extend_from_slice(&k.0.to_le_bytes());
                    data.push(p.a);
                    data.extend_from_slice(&p.b.to_le_bytes());
                }
            }
            4 | 5 | 6 => {
                let big = Big { list: col::<0, M24>(&v), end: sym::byte() };
                if kind == 5 {
                    data.push(1);
                }
                data.extend_from_slice(&len(3));
                nums(&mut data);
                data.push(if kind == 6 { !big.end } else { big.end });
                match kind {
                    4 => e.commit_to_serialized(&big),
                    5 => e.commit_to_option(&Some(big)),
                    _ => e.commit_to_concealed(&big),
                }
            }
            _ => {
                let h = BigHashed { list: col::<0, M24>(&v) };
                let mut d = len(3);
                nums(&mut d);
                data.extend_from_slice(&tagged(TAG_STRICT, &d));
                e.commit_to_hash(&h);
            }
        }
        let last = Num(sym::u32());
        e.commit_to_serialized(&last);
        data.extend_from_slice(&last.0.to_le_bytes());
        sym::check(e.finish().finish() == tagged(TAG_A, &data), "the id is the hash of the tag twice and all of every part");
        sym::cover("end");
    }
    // the same parts under two tags
    fn h_c12_tags() {
        let p = any_part(sym::choose(PARTS), 1);
        let (mut a, mut b) = (CommitEngine::new(TAG_A), CommitEngine::new(TAG_B));
        p.commit(&mut a);
        p.commit(&mut b);
        sym::check(a.finish().finish() != b.finish().finish(), "the same parts under different tags do not share an id");
        sym::cover("end");
    }
    // a type with an encoding of its own
    fn h_c12_type() {
        let v = Custom { a: sym::u16(), list: nums(2), leaves: (0..sym::choose(3)).map(|_| Lf::any(sym::u16())).collect(), open: Open { secret: sym::u32(), public: sym::byte() } };
        let parts = [Part::SerU64(v.a as u64), Part::List16(v.list.clone()), Part::Merkle(v.leaves.clone()), Part::Con(v.open)];
        let mut data = vec![];
        for p in &parts {
            data.extend_from_slice(&p.bytes());
        }
        if sym::arg(0) == 0 {
            sym::check(h32(v.commit_id().as_slice()) == tagged(TAG_B, &data), "the id of a value is the hash of the tag of its id type and its parts");
            let (h, _) = v.commit().finish_layout();
            sym::check(h.finish() == tagged(TAG_B, &data), "the finished engine gives the id");
            sym::cover("end");
            return;
        }
        let l = Custom::commitment_layout();
        sym::check(*l.idty() == TypeFqn::from("HarnessLib.IdB"), "the layout names the id type");
        sym::check(l.tag() == TAG_B, "the layout has the tag of the id type");
        let of = v.commit().into_layout();
        sym::check(of.len() == 4 && l.fields().len() == 4, "the layout has one entry per part");
        for i in 0..4 {
            sym::check(of[i] == parts[i].step() && l.fields()[i] == parts[i].step(), "the layout does not depend on the values");
        }
        sym::cover("end");
    }

    // layouts of the library's own types
    fn h_c13_types() {
        let f = |n: &'static str| TypeFqn::from(n);
        let one = |l: commit_verify::CommitLayout, idty: &'static str, tag: &str, step: CommitStep| {
            sym::check(*l.idty() == f(idty), "the layout names the id type");
            sym::check(l.tag() == tag, "the layout has the tag of the id type");
            sym::check(l.fields().len() == 1 && l.fields()[0] == step, "the layout has the one part of the type");
            sym::cover("layout");
        };
        match sym::choose(8) {
            0 => one(MerkleNode::commitment_layout(), "CommitVerify.MerkleHash", TAG_MERKLE, CommitStep::Serialized(f("CommitVerify.MerkleNode"))),
            1 => one(Leaf::commitment_layout(), "CommitVerify.MerkleHash", TAG_MERKLE, CommitStep::Serialized(f("CommitVerify.Leaf"))),
            2 => one(Hashed::commitment_layout(), "CommitVerify.StrictHash", TAG_STRICT, CommitStep::Serialized(f("HarnessLib.Hashed"))),
            3 => one(
                commit_verify::mpc::MerkleBlock::commitment_layout(), "CommitVerify.Commitment", refs::TAG_MPC,
                CommitStep::Concealed(f("CommitVerify.MerkleConcealed")),
            ),
            4 => one(
                commit_verify::mpc::MerkleConcealed::commitment_layout(), "CommitVerify.Commitment", refs::TAG_MPC,
                CommitStep::Serialized(f("CommitVerify.MerkleConcealed")),
            ),
            5 => one(Trans::commitment_layout(), "HarnessLib.IdA", TAG_A, CommitStep::Serialized(f("HarnessLib.Pair"))),
            6 => one(List::commitment_layout(), "HarnessLib.IdA", TAG_A, CommitStep::Merklized(f("HarnessLib.Lf"))),
            _ => one(Secret::commitment_layout(), "HarnessLib.IdE", "", CommitStep::Concealed(f("HarnessLib.Shown"))),
        }
        sym::cover("end");
    }

    // rendering of layouts of up to `n` parts
    fn h_c31() {
        let (n, first) = (sym::arg(0), sym::arg(1) as u32);
        let mut parts = vec![];
        for i in 0..n {
            let k = if i == 0 { first } else { sym::choose(PARTS) };
            parts.push(any_part(k, 1));
        }
        let want: Vec<Entry> = parts.iter().map(Part::entry).collect();
        unsafe { SHOWN = parts };
        match sym::choose(3) {
            0 => rendered::<IdA>("IdA", TAG_A, &want),
            1 => rendered::<IdB>("IdB", TAG_B, &want),
            _ => rendered::<IdE>("IdE", "", &want),
        }
        sym::cover("end");
    }
    // many parts
    fn h_c31_long() {
        let parts = many_parts(sym::arg(0), sym::arg(1), 1);
        let want: Vec<Entry> = parts.iter().map(Part::entry).collect();
        let kinds: Vec<_> = want.iter().map(|e| (e.kind.to_string(), e.name.to_string())).collect();
        unsafe { SHOWN = parts };
        rendered::<IdB>("IdB", TAG_B, &want);
        let text = Parts::<IdB>::commitment_layout().to_string();
        let lines: Vec<&str> = text.lines().filter(|l| l.starts_with("  ") && !l.starts_with("    ")).collect();
        let mut same = lines.len() == kinds.len();
        for (l, (k, n)) in lines.iter().zip(&kinds) {
            let l = l.trim_start();
            same = same & l.starts_with(k.as_str()) && l[k.len()..].starts_with(' ') && l[k.len() + 1..].starts_with(n.as_str());
        }
        sym::check(same, "the text of a layout has a line per part");
        sym::cover("end");
    }
    // names and values of attributes, predicates, text
    fn h_c31_text() {
        let k = sym::arg(0) as u32;
        let p = any_part(k, 1);
        let e = p.entry();
        unsafe { SHOWN = vec![p] };
        let l = Parts::<IdB>::commitment_layout();
        let mut want = format!("commitment IdB, hasher SHA256, tagged {TAG_B}\n  {} {}", e.kind, e.name);
        match (e.len, e.concealed) {
            (Some(len), _) => want.push_str(&format!(", len {len}")),
            (None, Some(name)) => want.push_str(&format!(", concealed {name}")),
            (None, None) => {}
        }
        want.push('\n');
        match (e.key, e.val) {
            (Some(k), Some(v)) => want.push_str(&format!("    mapKey {k}\n    mapValue {v}\n")),
            (None, Some(v)) => want.push_str(&format!("    element {v}\n")),
            _ => {}
        }
        sym::check(l.to_string() == want, "the text of a layout has a line per part");
        sym::cover("end");
    }

    // derived encodings
    fn h_c26() {
        match sym::arg(0) {
            // strict: struct with named fields
            0 => {
                let v = Rec { a: sym::u16(), b: Pair { a: sym::byte(), b: sym::u16() }, c: if sym::fork() { Some(sym::byte()) } else { None } };
                let mut d = v.a.to_le_bytes().to_vec();
                d.push(v.b.a);
                d.extend_from_slice(&v.b.b.to_le_bytes());
                match v.c {
                    None => d.push(0),
                    Some(x) => d.extend_from_slice(&[1, x]),
                }
                derived(&v, TAG_A, &d, CommitStep::Serialized(TypeFqn::from("HarnessLib.Rec")));
            }
            // tuple
            1 => {
                let v = Tup(sym::byte(), sym::u64());
                let mut d = vec![v.0];
                d.extend_from_slice(&v.1.to_le_bytes());
                derived(&v, TAG_B, &d, CommitStep::Serialized(TypeFqn::from("HarnessLib.Tup")));
            }
            // enum of constants
            2 => {
                let k = sym::choose(3) as usize;
                let v = [Kind::A, Kind::B, Kind::C][k];
                derived(&v, "", &[[3, 7, 200][k]], CommitStep::Serialized(TypeFqn::from("HarnessLib.Kind")));
            }
            // enum with data
            3 => {
                let (v, d) = match sym::choose(4) {
                    0 => {
                        let (x, y) = (sym::bytes::<4>(), sym::byte());
                        let mut d = vec![8];
                        d.extend_from_slice(&x);
                        d.push(y);
                        (Sum::One { x, y }, d)
                    }
                    1 => {
                        let (x, y) = (sym::byte(), sym::u32());
                        let mut d = vec![2, x];
                        d.extend_from_slice(&y.to_le_bytes());
                        (Sum::Two(x, y), d)
                    }
                    2 => (Sum::Three, vec![3]),
                    _ => (Sum::Four(), vec![4]),
                };
                derived(&v, TAG_A, &d, CommitStep::Serialized(TypeFqn::from("HarnessLib.Sum")));
            }
            // transparent: the inner value only
            4 => {
                let p = Pair { a: sym::byte(), b: sym::u16() };
                let mut d = vec![p.a];
                d.extend_from_slice(&p.b.to_le_bytes());
                derived(&Trans(p), TAG_A, &d, CommitStep::Serialized(TypeFqn::from("HarnessLib.Pair")));
            }
            5 => {
                let n = sym::u32();
                derived(&TransNum(n), TAG_B, &n.to_le_bytes(), CommitStep::Serialized(TypeFqn::from("_.U32")));
            }
            // conceal
            6 => {
                let v = Secret { key: sym::u32(), shown: sym::byte() };
                derived(&v, "", &[v.shown, (v.key >> 24) as u8], CommitStep::Concealed(TypeFqn::from("HarnessLib.Shown")));
            }
            // conceal: enum
            7 => {
                let k = sym::u16();
                let (v, d) = if sym::fork() { (Hidden::Open(k), vec![(k >> 8) as u8, 0]) } else { (Hidden::Void, vec![0xEE, 1]) };
                derived(&v, TAG_B, &d, CommitStep::Concealed(TypeFqn::from("HarnessLib.Shown")));
            }
            // merklize
            8 => {
                let v = List((0..sym::choose(5)).map(|_| Lf::any(sym::u16())).collect());
                let r = refs::merkle(&v.0.iter().map(Lf::hash).collect::<Vec<_>>());
                derived(&v, TAG_A, &r, CommitStep::Merklized(TypeFqn::from("HarnessLib.Lf")));
            }
            // the library's own types
            9 => {
                let (l, h) = any_leaf();
                sym::check(h32(l.commit_id().as_slice()) == h, "a leaf commits to its serialization");
                let (n, h) = any_node();
                sym::check(h32(n.commit_id().as_slice()) == h, "a node commits to its serialization");
            }
            // generic type
            _ => {
                let v = Gen { head: sym::byte(), body: Pair { a: sym::byte(), b: sym::u16() } };
                let mut d = vec![v.head];
                d.push(v.body.a);
                d.extend_from_slice(&v.body.b.to_le_bytes());
                sym::check(h32(v.commit_id()) == tagged(TAG_B, &d), "the id commits to what the strategy names, under the tag of the id type");
            }
        }
        sym::cover("end");
    }
    // two values of a derived type
    fn h_c26_pairs() {
        let rec = || Rec { a: sym::u16(), b: Pair { a: sym::byte(), b: sym::u16() }, c: if sym::fork() { Some(sym::byte()) } else { None } };
        let sum = || match sym::choose(4) {
            0 => Sum::One { x: sym::bytes(), y: sym::byte() },
            1 => Sum::Two(sym::byte(), sym::u32()),
            2 => Sum::Three,
            _ => Sum::Four(),
        };
        match sym::choose(2) {
            0 => {
                let (a, b) = (rec(), rec());
                sym::check((a.commit_id() == b.commit_id()) == (a == b), "distinct values have distinct ids");
            }
            _ => {
                let (a, b) = (sum(), sum());
                sym::check((a.commit_id() == b.commit_id()) == (a == b), "distinct values have distinct ids");
            }
        }
        sym::cover("end");
    }
}

fn derived<T: CommitEncode>(v: &T, tag: &str, data: &[u8], step: CommitStep)
where T::CommitmentId: std::borrow::Borrow<[u8]> {
    sym::check(h32(v.commit_id()) == tagged(tag, data), "the id commits to what the strategy names, under the tag of the id type");
    if sym::arg(1) == 1 {
        let l = v.commit().into_layout();
        sym::check(l.len() == 1 && l[0] == step, "the layout records the strategy");
    }
}

value!(#[derive(CommitEncode)] #[commit_encode(strategy = strict, id = IdA)] Rec { a: u16, b: Pair, c: Option<u8> });
value!(#[derive(CommitEncode)] #[commit_encode(strategy = strict, id = IdB)] Tup(u8, u64););

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB, tags = repr, into_u8, try_from_u8)]
#[derive(CommitEncode)]
#[commit_encode(strategy = strict, id = IdE)]
#[repr(u8)]
pub enum Kind {
    #[strict_type(dumb)]
    A = 3,
    B = 7,
    C = 200,
}

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB, tags = custom)]
#[derive(CommitEncode)]
#[commit_encode(strategy = strict, id = IdA)]
pub enum Sum {
    #[strict_type(tag = 8)]
    One { x: [u8; 4], y: u8 },
    #[strict_type(tag = 2)]
    Two(u8, u32),
    #[strict_type(dumb, tag = 3)]
    Three,
    #[strict_type(tag = 4)]
    Four(),
}

#[derive(Wrapper, Copy, Clone, PartialEq, Eq, Debug, From)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
#[derive(CommitEncode)]
#[commit_encode(strategy = transparent, id = IdA)]
pub struct Trans(Pair);

#[derive(Wrapper, Copy, Clone, PartialEq, Eq, Debug, From)]
#[derive(CommitEncode)]
#[commit_encode(strategy = transparent, id = IdB)]
pub struct TransNum(u32);

value!(#[derive(CommitEncode)] #[commit_encode(strategy = conceal, id = IdE)] Secret { key: u32, shown: u8 });
value!(Shown { shown: u8, digest: u8 });
impl Conceal for Secret {
    type Concealed = Shown;
    fn conceal(&self) -> Shown { Shown { shown: self.shown, digest: (self.key >> 24) as u8 } }
}
impl Conceal for Shown {
    type Concealed = Shown;
    fn conceal(&self) -> Shown { *self }
}

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
#[derive(StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB, tags = order)]
#[derive(CommitEncode)]
#[commit_encode(strategy = conceal, id = IdB)]
pub enum Hidden {
    Open(u16),
    Void,
}
impl StrictDumb for Hidden {
    fn strict_dumb() -> Self { Hidden::Void }
}
impl Conceal for Hidden {
    type Concealed = Shown;
    fn conceal(&self) -> Shown {
        match self {
            Hidden::Open(k) => Shown { shown: (k >> 8) as u8, digest: 0 },
            Hidden::Void => Shown { shown: 0xEE, digest: 1 },
        }
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
#[derive(CommitEncode)]
#[commit_encode(strategy = merklize, id = IdA)]
pub struct List(Vec<Lf>);
impl StrictDumb for List {
    fn strict_dumb() -> Self { List(vec![]) }
}
impl MerkleLeaves for List {
    type Leaf = Lf;
    fn merkle_leaves(&self) -> impl ExactSizeIterator<Item = &Lf> { self.0.iter() }
}

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
#[derive(CommitEncode)]
#[commit_encode(strategy = strict, id = IdB)]
pub struct Gen<T: Copy + StrictDumb + StrictEncode + StrictDecode> {
    head: u8,
    body: T,
}

struct Custom {
    a: u16,
    list: Vec<Num>,
    leaves: Vec<Lf>,
    open: Open,
}
impl StrictDumb for Custom {
    fn strict_dumb() -> Self { Custom { a: 0, list: vec![], leaves: vec![], open: Open::strict_dumb() } }
}
impl CommitEncode for Custom {
    type CommitmentId = IdB;
    fn commit_encode(&self, e: &mut CommitEngine) {
        e.commit_to_serialized(&(self.a as u64));
        e.commit_to_linear_list(&col::<0, M16>(&self.list));
        e.commit_to_merkle(&Confined::<Vec<Lf>, 0, M16>::try_from(self.leaves.clone()).ok().unwrap());
        e.commit_to_concealed(&self.open);
    }
}

// ---------------------------------------------------------------- rendering
/// The parts committed by the type below.
static mut SHOWN: Vec<Part> = vec![];
struct Parts<I>(std::marker::PhantomData<I>);
impl<I> StrictDumb for Parts<I> {
    fn strict_dumb() -> Self { Parts(std::marker::PhantomData) }
}
impl<I: CommitmentId> CommitEncode for Parts<I> {
    type CommitmentId = I;
    #[allow(static_mut_refs)]
    fn commit_encode(&self, e: &mut CommitEngine) {
        for p in unsafe { SHOWN.iter() } {
            p.commit(e)
        }
    }
}
/// What the rendering of a part shows.
struct Entry {
    kind: &'static str,
    name: &'static str,
    len: Option<&'static str>,
    range: Option<(u64, u64)>,
    concealed: Option<&'static str>,
    key: Option<&'static str>,
    val: Option<&'static str>,
}
impl Part {
    fn entry(&self) -> Entry {
        let plain = |kind, name| Entry { kind, name, len: None, range: None, concealed: None, key: None, val: None };
        let col = |kind, len, range| Entry { kind, name: "Num", len: Some(len), range: Some(range), concealed: None, key: None, val: Some("Num") };
        let map = |len, range| Entry { kind: "map", name: "Pair", len: Some(len), range: Some(range), concealed: None, key: Some("Num"), val: Some("Pair") };
        match self {
            Part::Ser(_) | Part::OptPair(_) => plain("serialized", "Pair"),
            Part::SerNum(_) | Part::Opt(_) => plain("serialized", "Num"),
            Part::SerU64(_) => plain("serialized", "U64"),
            Part::Hash(_) => plain("hashed", "Hashed"),
            Part::Merkle(_) | Part::MerkleSet(_) => plain("merklized", "Lf"),
            Part::Con(_) => Entry { concealed: Some("Open"), ..plain("concealed", "Open") },
            Part::List8(_) => col("list", "0..MAX8", (0, 0xFF)),
            Part::List16(_) => col("list", "0..MAX16", (0, 0xFFFF)),
            Part::List24(_) => col("list", "0..MAX24", (0, 0xFF_FFFF)),
            Part::List32(_) => col("list", "0..MAX32", (0, 0xFFFF_FFFF)),
            Part::Set8(_) => col("set", "0..MAX8", (0, 0xFF)),
            Part::Set16(_) => col("set", "0..MAX16", (0, 0xFFFF)),
            Part::ListB(_) => col("list", "1..1000", (1, 1000)),
            Part::SetB(_) => col("set", "0..20", (0, 20)),
            Part::Map8(_) => map("0..MAX8", (0, 0xFF)),
            Part::Map24(_) => map("0..MAX24", (0, 0xFF_FFFF)),
            Part::MapB(_) => map("1..70000", (1, 70000)),
        }
    }
}
fn rendered<I: CommitmentId>(id: &str, tag: &'static str, want: &[Entry]) {
    use commit_verify::vesper::{Attr, Pred};
    use strict_types::layout::vesper::LenRange;

    let v = Parts::<I>::commitment_layout().to_vesper();
    sym::check(v.subject.as_str() == id && v.predicate == Pred::Commitment && v.comment.is_none(), "the commitment is that of the id type");
    let a = v.attributes.as_slice();
    sym::check(a.len() == 2 && a[0] == Attr::Hasher && a[1] == Attr::Tagged(tag), "the commitment shows the hash function and the tag");
    sym::check(v.content.len() == want.len(), "every part has its entry");
    for (e, w) in v.content.iter().zip(want) {
        let kind = match w.kind {
            "serialized" => Pred::Serialized,
            "hashed" => Pred::Hashed,
            "merklized" => Pred::Merklized,
            "concealed" => Pred::Concealed,
            "list" => Pred::List,
            "set" => Pred::Set,
            _ => Pred::Map,
        };
        sym::check(e.predicate == kind && e.subject.as_str() == w.name && e.comment.is_none(), "an entry has the kind and the name of the part");
        let a = e.attributes.as_slice();
        match (w.range, w.concealed) {
            (Some((min, max)), _) => {
                sym::check(a.len() == 1 && a[0] == Attr::LenRange(LenRange::from(Sizing::new(min, max))), "an entry has the size limits of the collection")
            }
            (None, Some(name)) => match a {
                [Attr::Concealed(f)] => sym::check(f.name.as_str() == name, "an entry names what is concealed"),
                _ => sym::check(false, "an entry names what is concealed"),
            },
            (None, None) => sym::check(a.is_empty(), "other parts have no attributes"),
        }
        let c = e.content.as_slice();
        let one = |i: usize, p: Pred, n: &str| c[i].predicate == p && c[i].subject.as_str() == n && c[i].attributes.is_empty() && c[i].content.is_empty();
        match (w.key, w.val) {
            (Some(k), Some(v)) => sym::check(c.len() == 2 && one(0, Pred::MapKey, k) && one(1, Pred::MapValue, v), "a map shows its keys and values"),
            (None, Some(v)) => sym::check(c.len() == 1 && one(0, Pred::Element, v), "a collection shows its elements"),
            _ => sym::check(c.is_empty(), "other parts have no content"),
        }
    }
}
