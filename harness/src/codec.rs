//! C15: consensus serialization; C29: serde.
use amplify::num::u5;
use client_side_validation::Status;
use commit_verify::merkle::{MerkleHash, MerkleNode, NodeBranching};
use commit_verify::mpc::{
    Commitment, InvalidProof, Leaf, MerkleBlock, MerkleConcealed, MerkleProof, MerkleTree, Message, Method, ProtocolId,
};
use commit_verify::{Conceal, ConvolveVerifyError, ReservedBytes, StrictHash};
use single_use_seals::SealWitness;
use strict_encoding::{StrictDecode, StrictDeserialize, StrictEncode, StrictReader, StrictSerialize};

use crate::misc::{TCli, TPub, TSeal};
use crate::refs::{self, dec, enc, h32, H};
use crate::spec::*;
use crate::status::{Fail, Issue, Note, Rep, Seal, Warn};
use crate::{sym, tok};

// ---------------------------------------------------------------- reference parser
struct P<'a>(&'a [u8], usize);
impl P<'_> {
    fn take(&mut self, n: usize) -> Option<&[u8]> {
        let r = self.0.get(self.1..self.1 + n)?;
        self.1 += n;
        Some(r)
    }
    fn u8(&mut self) -> Option<u8> { self.take(1).map(|b| b[0]) }
    fn num(&mut self, n: usize) -> Option<u64> {
        let mut b = [0u8; 8];
        b[..n].copy_from_slice(self.take(n)?);
        Some(u64::from_le_bytes(b))
    }
    fn h(&mut self) -> Option<H> { self.take(32).map(h32) }
    fn is(c: bool) -> Option<()> { if c { Some(()) } else { None } }

    fn leaf(&mut self) -> Option<()> {
        match self.u8()? {
            0x10 => self.take(64).map(|_| ()),
            0x11 => self.take(12).map(|_| ()),
            _ => None,
        }
    }
    fn node(&mut self) -> Option<()> {
        P::is(self.u8()? <= 2)?;
        self.take(1 + 32 + 64).map(|_| ())
    }
    fn concealed(&mut self) -> Option<()> {
        P::is(self.u8()? < 32)?;
        self.take(2 + 32).map(|_| ())
    }
    fn proof(&mut self) -> Option<()> {
        P::is(self.u8()? == 0)?;
        self.take(6)?;
        let n = self.u8()?;
        for _ in 0..n {
            self.h()?;
        }
        P::is(n < 32)
    }
    /// `shape`: the nodes must form a cross-section.
    fn block(&mut self, shape: bool) -> Option<()> {
        P::is(self.u8()? == 0)?;
        let depth = self.u8()?;
        P::is(depth < 32)?;
        let cof = self.num(2)? as u16;
        let n = self.num(4)?;
        let mut nodes = vec![];
        for _ in 0..n {
            match self.u8()? {
                0 => {
                    let d = self.u8()?;
                    P::is(d < 32)?;
                    self.h()?;
                    nodes.push((d, None));
                }
                1 => {
                    let p = self.h()?;
                    self.h()?;
                    nodes.push((depth, Some(p)));
                }
                _ => return None,
            }
        }
        P::is(n > 0)?;
        match self.u8()? {
            0 => {}
            1 => self.take(8).map(|_| ())?,
            _ => return None,
        }
        if !shape {
            return Some(());
        }
        let mut at = 0u64;
        for (d, p) in nodes {
            P::is(d <= depth)?;
            let span = 1u64 << (depth - d);
            P::is(at & (span - 1) == 0 && at + span <= 1 << depth)?;
            if let Some(p) = p {
                P::is(refs::slot(&p, depth, cof) as u64 == at)?;
            }
            at += span;
        }
        P::is(at == 1 << depth)
    }
    fn tree(&mut self) -> Option<()> {
        P::is(self.u8()? == 0)?;
        P::is(self.u8()? < 32)?;
        self.take(8 + 2)?;
        let n = self.num(3)?;
        let mut last: Option<H> = None;
        for _ in 0..n {
            let k = self.h()?;
            self.h()?;
            if let Some(l) = last {
                P::is(l < k)?;
            }
            last = Some(k);
        }
        let n = self.num(3)?;
        let mut last = None;
        for _ in 0..n {
            let k = self.num(4)?;
            self.take(64)?;
            if let Some(l) = last {
                P::is(l < k)?;
            }
            last = Some(k);
        }
        Some(())
    }
}

/// Deserializes from the beginning; the number of bytes used.
fn read<T: StrictDecode>(b: &[u8]) -> Option<(T, usize)> {
    let mut r = StrictReader::in_memory::<{ usize::MAX }>(b);
    let v = T::strict_decode(&mut r).ok()?;
    Some((v, r.into_cursor().position() as usize))
}

fn compare<T: StrictEncode + StrictDecode + PartialEq>(b: &[u8], want: Option<usize>) -> Option<T> {
    let got = read::<T>(b);
    match (&got, want) {
        (Some((v, used)), Some(n)) => {
            sym::check(*used == n, "a value is deserialized from the bytes of the standard encoding");
            let e = enc(v);
            sym::check(e == b[..n], "a deserialized value serializes to the same bytes");
            sym::check(dec::<T>(&e).as_ref() == Some(v), "a value survives serialization");
            sym::cover("accepted");
        }
        (Some((v, used)), None) => {
            sym::check(enc(v) == b[..*used], "a deserialized value serializes to the same bytes");
            sym::check(false, "malformed bytes are refused");
        }
        (None, Some(_)) => sym::check(false, "well-formed bytes are accepted"),
        (None, None) => sym::cover("refused"),
    }
    got.map(|x| x.0)
}
pub fn same<T: StrictEncode + StrictDecode + PartialEq>(v: &T, b: &[u8]) {
    let e = enc(v);
    sym::check(e == b, "a value serializes in the published field order, widths and tags");
    sym::check(dec::<T>(&e).as_ref() == Some(v), "a value survives serialization");
}
pub fn document<T: StrictSerialize + StrictDeserialize + PartialEq>(v: &T, b: &[u8]) {
    match v.to_strict_serialized::<{ amplify::confinement::U24 }>() {
        Ok(e) => {
            sym::check(e.as_slice() == b, "the serialized document is the serialization of the value");
            match T::from_strict_serialized(e) {
                Ok(x) => sym::check(x == *v, "a document survives serialization"),
                Err(_) => sym::check(false, "a document is deserialized"),
            }
        }
        Err(_) => sym::check(false, "a document is serialized"),
    }
    let mut long = b.to_vec();
    long.push(sym::byte());
    let Ok(long) = amplify::confinement::Confined::try_from(long) else { return };
    sym::check(T::from_strict_serialized::<{ amplify::confinement::U24 }>(long).is_err(), "a document with data after its end is refused");
}

fn cut(b: &mut Vec<u8>, cut: bool) {
    if cut {
        let n = sym::choose(b.len() as u32) as usize;
        b.truncate(n);
    }
}

/// A compressed tree made of the given number of levels.
fn proof_of(n: u8) -> (MerkleProof, Vec<u8>, u32, u16, Vec<H>) {
    let (pos, cof) = (sym::u32(), sym::u16());
    let path: Vec<H> = (0..n).map(|_| sym::bytes()).collect();
    (proof_with(pos, cof, &path), proof_bytes(pos, cof, &path), pos, cof, path)
}
fn concealed(depth: u8, cof: u16, root: &H) -> Vec<u8> {
    let mut v = vec![depth];
    v.extend_from_slice(&cof.to_le_bytes());
    v.extend_from_slice(root);
    v
}

macro_rules! h256 {
    ($($t:ident)*) => { match sym::choose([$(stringify!($t)),*].len() as u32) { k => {
        let mut i = 0;
        $(
            if k == i {
                let b = sym::bytes::<32>();
                let v = $t::from(b);
                same(&v, &b);
                sym::check(h32(v.as_slice()) == b, "the bytes of an id are those it is made of");
                let len = sym::choose(34) as usize;
                compare::<$t>(&sym::vec(len), (len >= 32).then_some(32));
            }
            i += 1;
        )*
        let _ = i;
    } } };
}

harnesses! {
    // ids and hashes
    fn h_c15_ids() {
        h256!(ProtocolId Message Commitment MerkleHash StrictHash);
        sym::cover("end");
    }
    // values of the simple structures
    fn h_c15_values() {
        match sym::arg(0) {
            0 => {
                let (p, m): (H, H) = (sym::bytes(), sym::bytes());
                let mut b = vec![0x10];
                b.extend_from_slice(&p);
                b.extend_from_slice(&m);
                same(&Leaf::inhabited(pid(&p), msg(&m)), &b);
                match dec::<Leaf>(&b) {
                    Some(Leaf::Inhabited { protocol, message }) => sym::check(protocol == pid(&p) && message == msg(&m), "a leaf has the deserialized fields"),
                    _ => sym::check(false, "the kind of a leaf survives"),
                }
            }
            1 => {
                let (e, p) = (sym::u64(), sym::u32());
                let mut b = vec![0x11];
                b.extend_from_slice(&e.to_le_bytes());
                b.extend_from_slice(&p.to_le_bytes());
                same(&Leaf::entropy(e, p), &b);
                match dec::<Leaf>(&b) {
                    Some(Leaf::Entropy { entropy, pos }) => sym::check(entropy == e && pos == p, "a leaf has the deserialized fields"),
                    _ => sym::check(false, "the kind of a leaf survives"),
                }
            }
            2 => {
                let k = sym::choose(3) as usize;
                let (d, w, x, y) = (sym::byte(), sym::bytes::<32>(), sym::bytes::<32>(), sym::bytes::<32>());
                let n = MerkleNode {
                    branching: [NodeBranching::Void, NodeBranching::Single, NodeBranching::Branch][k],
                    depth: d,
                    width: amplify::num::u256::from_le_bytes(w),
                    node1: MerkleHash::from(x),
                    node2: MerkleHash::from(y),
                };
                let mut b = vec![k as u8, d];
                b.extend_from_slice(&w);
                b.extend_from_slice(&x);
                b.extend_from_slice(&y);
                same(&n, &b);
                same(&n.branching, &b[..1]);
                same(&Method::Sha256t, &[0]);
            }
            _ => {
                let (p, b, pos, cof, path) = proof_of(sym::arg(1) as u8);
                same(&p, &b);
                sym::check(p.pos() == pos && p.cofactor() == cof && p.method() == Method::Sha256t, "a proof has the deserialized fields");
                let got: Vec<H> = p.as_path().iter().map(|h| h32(h.as_slice())).collect();
                sym::check(got == path, "a proof has the deserialized path");
                sym::check(p.depth().to_u8() as usize == path.len() && p.width_limit() as u64 == 1 << path.len(), "depth and width of a proof are those of its path");
                sym::check(p.to_path().as_slice() == p.as_path(), "the path given out is that of the proof");
                let q = p.clone();
                sym::check(q.into_path().as_slice() == p.as_path(), "the path taken out is that of the proof");
            }
        }
        sym::cover("end");
    }
    // values of trees and what is derived from them
    fn h_c15_tree() {
        let (depth, mode, cof) = (sym::arg(0) as u8, sym::arg(1), sym::arg(2) as u16);
        let spec = spec_mode(depth, mode, cof);
        let t = tree_mode(&spec, mode);
        let bytes = tree_bytes(&spec);
        same(&t, &bytes);
        let mut b = MerkleBlock::from(&t);
        let bb = spec.block_bytes(spec.mask(), true, true);
        same(&b, &bb);
        document(&b, &bb);
        sym::check(b.method() == Method::Sha256t && b.depth() == u5::with(depth) && b.cofactor() == cof && b.entropy() == Some(spec.entropy), "a block has the fields of its tree");
        same(&b.conceal(), &concealed(depth, cof, &spec.root()));
        for s in spec.occupied() {
            if let Ok(p) = b.to_merkle_proof(pid(&spec.pid(s))) {
                same(&p, &spec.proof_bytes(s));
            }
        }
        let keep = submask(spec.mask());
        if b.conceal_except(mask_pids(&spec, keep)).is_ok() {
            same(&b, &spec.block_bytes(keep, false, false));
        }
        sym::cover("end");
    }
    // any bytes of a length
    fn h_c15_bytes() {
        let (kind, len) = (sym::arg(0), sym::arg(1) as usize);
        let mut b = sym::vec(len);
        if sym::arg(2) == 1 {
            cut(&mut b, true);
        }
        match kind {
            0 => {
                let mut p = P(&b, 0);
                let w = p.leaf().map(|_| p.1);
                compare::<Leaf>(&b, w);
            }
            1 => {
                let mut p = P(&b, 0);
                let w = p.node().map(|_| p.1);
                compare::<MerkleNode>(&b, w);
            }
            2 => {
                let mut p = P(&b, 0);
                let w = p.concealed().map(|_| p.1);
                if let Some(c) = compare::<MerkleConcealed>(&b, w) {
                    sym::check(c.conceal() == c, "the concealed form of a concealed block is itself");
                }
            }
            3 => {
                compare::<Method>(&b, (b.len() > 0 && b[0] == 0).then_some(1));
            }
            4 => {
                compare::<NodeBranching>(&b, (b.len() > 0 && b[0] < 3).then_some(1));
            }
            5 => {
                if b.len() > 7 {
                    sym::concretize(b[7] as u64);
                }
                let mut p = P(&b, 0);
                let w = p.proof().map(|_| p.1);
                compare::<MerkleProof>(&b, w);
            }
            _ => {}
        }
    }
    // a path of the declared length; argument 1: actual number of hashes, argument 2: further bytes
    fn h_c15_proof() {
        let (declared, actual, more) = (sym::arg(0) as u8, sym::arg(1) as usize, sym::arg(2) as usize);
        let mut b = sym::vec(8 + actual * 32 + more);
        b[0] = if sym::fork() { 0 } else { sym::byte() };
        b[7] = declared;
        cut(&mut b, sym::arg(3) == 1);
        let mut p = P(&b, 0);
        let w = p.proof().map(|_| p.1);
        compare::<MerkleProof>(&b, w);
    }
    // a block: depth, declared number of nodes, number of bytes for nodes, kinds of nodes free if argument 3
    fn h_c15_block() {
        let (depth, n, len) = (sym::arg(0) as u8, sym::arg(1) as u32, sym::arg(2) as usize);
        let mut b = sym::vec(8 + len);
        b[1] = depth;
        b[4..8].copy_from_slice(&n.to_le_bytes());
        let cof = [0, 1, 2, 0xFFFF][sym::choose(4) as usize] as u16;
        b[2..4].copy_from_slice(&cof.to_le_bytes());
        let mut p = P(&b, 0);
        let w = p.block(true).map(|_| p.1);
        compare::<MerkleBlock>(&b, w);
    }
    // a block of well-formed nodes and anything else
    fn h_c15_nodes() {
        let (depth, n) = (sym::arg(0) as u8, sym::arg(1) as u32);
        let cof = [0, 1, 2, 0xFFFF][sym::arg(3) as usize] as u16;
        let mut b = vec![0, depth];
        b.extend_from_slice(&cof.to_le_bytes());
        b.extend_from_slice(&n.to_le_bytes());
        for _ in 0..n {
            if sym::fork() {
                b.push(1);
                b.extend_from_slice(&sym::bytes::<64>());
            } else {
                b.push(0);
                b.push(if sym::arg(4) == 1 { sym::byte() } else { sym::choose(depth as u32 + 2) as u8 });
                b.extend_from_slice(&sym::bytes::<32>());
            }
        }
        b.push(sym::byte());
        b.extend_from_slice(&sym::vec(if sym::arg(2) == 1 { 8 } else { [0, 7, 8, 9][sym::choose(4) as usize] }));
        cut(&mut b, sym::arg(2) == 1);
        let mut p = P(&b, 0);
        let w = p.block(true).map(|_| p.1);
        compare::<MerkleBlock>(&b, w);
    }
    // a tree: declared numbers of entries, missing bytes
    fn h_c15_entries() {
        let (n, m, mode) = (sym::arg(0) as u32, sym::arg(1) as u32, sym::arg(2));
        let mut b = vec![if mode == 1 { sym::byte() } else { 0 }, if mode == 1 { sym::byte() } else { 3 }];
        b.extend_from_slice(&sym::bytes::<10>());
        b.extend_from_slice(&n.to_le_bytes()[..3]);
        for _ in 0..n {
            b.extend_from_slice(&sym::bytes::<64>());
        }
        b.extend_from_slice(&m.to_le_bytes()[..3]);
        for _ in 0..m {
            b.extend_from_slice(&sym::bytes::<68>());
        }
        cut(&mut b, mode == 2);
        let mut p = P(&b, 0);
        let w = p.tree().map(|_| p.1);
        compare::<MerkleTree>(&b, w);
    }

    // serde; argument 0: structure, argument 1: 0 compact, 1 self-describing, 2 human-readable
    fn h_c29() {
        let mode = sym::arg(1);
        let h = |n: usize| -> H {
            // hexadecimal text of all bytes would need a path for each digit
            let mut b = [0x5A; 32];
            if mode == 2 { b[n] = sym::byte() } else { b = sym::bytes() }
            b
        };
        let (x, y) = (h(3), if mode == 2 { [0xC3; 32] } else { sym::bytes() });
        match sym::arg(0) {
            0 => {
                lossless(&ProtocolId::from(x));
                lossless(&Message::from(y));
                lossless(&Commitment::from(x));
            }
            1 => {
                lossless(&MerkleHash::from(x));
                lossless(&StrictHash::from(amplify::Bytes32::from(if mode == 2 { x } else { y })));
            }
            2 => lossless(&Method::Sha256t),
            3 => {
                let n = sym::arg(2) as usize;
                let path: Vec<H> = (0..n).map(|i| if i == 0 { x } else if mode == 2 { [i as u8; 32] } else { sym::bytes() }).collect();
                lossless(&proof_with(sym::u32(), sym::u16(), &path));
            }
            4 => {
                let d = sym::byte();
                sym::assume(d < 32);
                if let Some(c) = dec::<MerkleConcealed>(&concealed(if mode == 2 { sym::concretize(d as u64) as u8 } else { d }, sym::u16(), &x)) {
                    lossless(&c);
                } else {
                    sym::check(false, "a concealed block is deserialized");
                }
            }
            5 => {
                let p = h(0);
                let m = [sym::u32(), sym::u32(), sym::u32()];
                // the fields are private
                let mut b = [0u8; 44];
                b[..32].copy_from_slice(&p);
                for i in 0..3 {
                    b[32 + i * 4..36 + i * 4].copy_from_slice(&m[i].to_le_bytes());
                }
                if std::mem::size_of::<InvalidProof>() == 44 {
                    let e: InvalidProof = unsafe { std::mem::transmute_copy(&b) };
                    lossless(&e);
                }
            }
            6 => lossless(&[ConvolveVerifyError::CommitmentMismatch, ConvolveVerifyError::ImpossibleMessage, ConvolveVerifyError::InvalidProof][sym::choose(3) as usize]),
            7 => {
                lossless(&ReservedBytes::<0>::default());
                lossless(&ReservedBytes::<4>::default());
                lossless(&ReservedBytes::<3, 0xFF>::default());
                lossless(&ReservedBytes::<16, 1>::default());
                lossless(&Holder { a: sym::byte(), r: default!(), b: sym::u16(), s: default!() });
            }
            8 => {
                let n = sym::arg(2) as u32;
                let mut s = Status::<Rep>::default();
                s.seal_issues = (0..sym::choose(n + 1)).map(|_| Issue { seal: Seal(sym::u16()), code: sym::u16() }).collect();
                s.failures = (0..sym::choose(n + 1)).map(|_| Fail(sym::u16())).collect();
                s.warnings = (0..sym::choose(n + 1)).map(|_| Warn(sym::u16())).collect();
                s.info = (0..sym::choose(n + 1)).map(|_| Note(sym::u16())).collect();
                lossless(&s);
            }
            _ => {
                let w = SealWitness::<TSeal>::new(TPub::any(), TCli::any());
                let t = tok::to(&w, mode);
                sym::check(t.is_some(), "a value is serialized");
                if let Some(t) = t {
                    match tok::from::<SealWitness<TSeal>>(t, mode) {
                        Some(v) => sym::check(v.published == w.published && v.client == w.client, "a deserialized value equals the serialized one"),
                        None => sym::check(false, "a serialized value is deserialized"),
                    }
                }
            }
        }
        sym::cover("end");
    }
    // blocks of a tree
    fn h_c29_block() {
        let (depth, mode, cof) = (sym::arg(0) as u8, sym::arg(1), sym::arg(2) as u16);
        let spec = spec_mode(depth, mode, cof);
        let t = tree_mode(&spec, mode);
        let mut b = MerkleBlock::from(&t);
        SERDE.with(|m| m.set(sym::arg(4)));
        lossless(&b);
        if sym::fork() {
            let keep = submask(spec.mask());
            if b.conceal_except(mask_pids(&spec, keep)).is_ok() {
                lossless(&b);
            }
        } else if let Some(c) = tok::from::<MerkleConcealed>(tok::to(&b.conceal(), sym::arg(4)).unwrap(), sym::arg(4)) {
            sym::check(c == t.conceal(), "the concealed form survives");
        } else {
            sym::check(false, "a serialized value is deserialized");
        }
        sym::cover("end");
    }
}

thread_local! {
    pub static SERDE: std::cell::Cell<u64> = const { std::cell::Cell::new(99) };
}
pub fn lossless<T: serde::Serialize + serde::de::DeserializeOwned + PartialEq>(v: &T) {
    let mode = match SERDE.with(|m| m.get()) {
        99 => sym::arg(1),
        m => m,
    };
    let Some(t) = tok::to(v, mode) else {
        sym::check(false, "a value is serialized");
        return;
    };
    match tok::from::<T>(t, mode) {
        Some(x) => sym::check(x == *v, "a deserialized value equals the serialized one"),
        None => sym::check(false, "a serialized value is deserialized"),
    }
}

#[derive(Clone, PartialEq, Eq, Debug, serde::Serialize, serde::Deserialize)]
struct Holder {
    a: u8,
    r: ReservedBytes<7>,
    b: u16,
    s: ReservedBytes<2, 9>,
}
