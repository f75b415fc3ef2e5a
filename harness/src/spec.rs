//! Reference model of a multi-message tree (LNPBP-4) and the ways to build one with the real code.
#![allow(dead_code)]

use amplify::confinement::Confined;
use amplify::num::u5;
use commit_verify::mpc::{
    Commitment, LeafNotKnown, MerkleBlock, MerkleProof, MerkleTree, Message, MessageMap, Method, MultiSource,
    ProtocolId,
};
use commit_verify::TryCommitVerify;

use crate::refs::{self, dec, H};
use crate::sym;

#[derive(Clone)]
pub struct Spec {
    pub depth: u8,
    pub cof: u16,
    pub entropy: u64,
    /// Protocol and message per occupied slot.
    pub slots: Vec<Option<(H, H)>>,
    /// `nodes[d][i]`: i-th node of depth d.
    pub nodes: Vec<Vec<H>>,
}

impl Spec {
    pub fn new(depth: u8, cof: u16, entropy: u64, slots: Vec<Option<(H, H)>>) -> Spec {
        let mut level: Vec<H> = slots
            .iter()
            .enumerate()
            .map(|(i, s)| match s {
                Some((p, m)) => refs::leaf_inhabited(p, m),
                None => refs::leaf_entropy(entropy, i as u32),
            })
            .collect();
        let mut nodes = vec![level.clone()];
        let mut d = depth;
        while d > 0 {
            d -= 1;
            level = level.chunks(2).map(|c| refs::branch(d, 1u64 << depth, &c[0], &c[1])).collect();
            nodes.push(level.clone());
        }
        nodes.reverse();
        Spec { depth, cof, entropy, slots, nodes }
    }
    pub fn width(&self) -> usize { 1usize << self.depth }
    pub fn root(&self) -> H { self.nodes[0][0] }
    pub fn leaves(&self) -> Vec<H> { self.nodes[self.depth as usize].clone() }
    pub fn commitment(&self) -> H { refs::commitment(self.depth, self.cof, &self.root()) }
    pub fn occupied(&self) -> Vec<usize> { (0..self.width()).filter(|i| self.slots[*i].is_some()).collect() }
    pub fn mask(&self) -> u32 { self.occupied().iter().map(|i| 1u32 << i).sum() }
    pub fn pid(&self, slot: usize) -> H { self.slots[slot].unwrap().0 }
    pub fn msg(&self, slot: usize) -> H { self.slots[slot].unwrap().1 }

    /// Serialization of the block which reveals the slots of `keep` only; `full` has every empty slot
    /// as a node of its own.
    pub fn block_bytes(&self, keep: u32, full: bool, entropy: bool) -> Vec<u8> {
        let list: Vec<usize> = (0..32).filter(|s| keep >> s & 1 == 1).collect();
        self.block_bytes_of(&list, full, entropy)
    }
    pub fn block_bytes_of(&self, keep: &[usize], full: bool, entropy: bool) -> Vec<u8> {
        let mut cs = Vec::new();
        let mut n = 0u32;
        self.section(0, 0, keep, full, &mut cs, &mut n);
        let mut v = vec![0, self.depth];
        v.extend_from_slice(&self.cof.to_le_bytes());
        v.extend_from_slice(&n.to_le_bytes());
        v.extend_from_slice(&cs);
        if entropy {
            v.push(1);
            v.extend_from_slice(&self.entropy.to_le_bytes());
        } else {
            v.push(0);
        }
        v
    }
    fn section(&self, d: u8, i: usize, keep: &[usize], full: bool, out: &mut Vec<u8>, n: &mut u32) {
        let span = self.depth - d;
        let first = i << span;
        let any = full || keep.iter().any(|s| s >> span == i);
        if d == self.depth {
            *n += 1;
            if keep.contains(&first) {
                let (p, m) = self.slots[first].unwrap();
                out.push(1);
                out.extend_from_slice(&p);
                out.extend_from_slice(&m);
                return;
            }
        } else if any {
            self.section(d + 1, i * 2, keep, full, out, n);
            self.section(d + 1, i * 2 + 1, keep, full, out, n);
            return;
        } else {
            *n += 1;
        }
        out.push(0);
        out.push(d);
        out.extend_from_slice(&self.nodes[d as usize][i]);
    }

    /// Hashes of the path to a slot, from the root downwards.
    pub fn path(&self, slot: usize) -> Vec<H> {
        (1..=self.depth).map(|d| self.nodes[d as usize][(slot >> (self.depth - d)) ^ 1]).collect()
    }
    pub fn proof_bytes(&self, slot: usize) -> Vec<u8> { proof_bytes(slot as u32, self.cof, &self.path(slot)) }
}

pub fn proof_bytes(pos: u32, cof: u16, path: &[H]) -> Vec<u8> {
    let mut v = vec![0];
    v.extend_from_slice(&pos.to_le_bytes());
    v.extend_from_slice(&cof.to_le_bytes());
    v.push(path.len() as u8);
    for h in path {
        v.extend_from_slice(h);
    }
    v
}

pub fn proof_with(pos: u32, cof: u16, path: &[H]) -> MerkleProof {
    dec::<MerkleProof>(&proof_bytes(pos, cof, path)).expect("proof is decodable")
}

pub fn pid(h: &H) -> ProtocolId { ProtocolId::from(*h) }
pub fn msg(h: &H) -> Message { Message::from(*h) }
pub fn cid(c: &Commitment) -> H { refs::h32(c.as_slice()) }
pub fn pid_of(p: &ProtocolId) -> H { refs::h32(p.as_slice()) }
pub fn msg_of(p: &Message) -> H { refs::h32(p.as_slice()) }

/// The protocol named by the error.
pub fn unknown(e: &LeafNotKnown) -> Option<H> {
    if std::mem::size_of::<LeafNotKnown>() == 32 {
        Some(unsafe { std::mem::transmute_copy::<LeafNotKnown, H>(e) })
    } else {
        None
    }
}

/// Protocol id for a slot: the first byte is constant (it orders the ids), the rest is symbolic.
/// `order` 1 reverses the order of the protocol ids against the slots.
fn slot_pid(depth: u8, slot: usize, order: u64) -> H {
    let mut p = sym::bytes::<32>();
    p[0] = if order == 1 && depth <= 4 { (slot as u8) | (0xF - slot as u8 & 0xF) << 4 } else { slot as u8 };
    p
}

pub fn source(spec: &Spec) -> MultiSource {
    let messages: MessageMap = Confined::try_from_iter(spec.slots.iter().flatten().map(|(p, m)| (pid(p), msg(m)))).unwrap();
    MultiSource {
        method: Method::Sha256t,
        min_depth: u5::with(spec.depth),
        messages,
        static_entropy: Some(spec.entropy),
    }
}

/// Messages in the slots of `mask`, cofactor zero.
pub fn spec_plain(depth: u8, mask: u32, order: u64) -> Spec {
    let mut slots = Vec::new();
    for s in 0..1usize << depth {
        slots.push(if mask >> s & 1 == 1 { Some((slot_pid(depth, s, order), sym::bytes())) } else { None });
    }
    Spec::new(depth, 0, sym::u64(), slots)
}

/// Tree built by the committing procedure.
pub fn commit(spec: &Spec) -> MerkleTree {
    match MerkleTree::try_commit(&source(spec)) {
        Ok(t) => t,
        Err(_) => {
            sym::check(false, "a tree for distinct slots is built");
            loop {}
        }
    }
}

/// Messages in the slots of `mask` of a tree with a cofactor; the first byte of the ids is constant and
/// orders them (against the slots with `order` 1), the rest is any value giving the slot.
pub fn spec_cof(depth: u8, mask: u32, cof: u16, order: u64) -> Spec {
    let m = (1u64 << depth).saturating_sub(cof as u64).max(1);
    let mut slots = Vec::new();
    for s in 0..1usize << depth {
        slots.push(if mask >> s & 1 == 1 {
            let mut p = sym::bytes::<32>();
            p[0] = if order == 1 { 0xFF - s as u8 } else { s as u8 };
            sym::assume(sym::urem256(&p, m) == s as u64);
            Some((p, sym::bytes()))
        } else {
            None
        });
    }
    Spec::new(depth, cof, sym::u64(), slots)
}
/// Serialization of the tree; the ids must differ in their first byte, which must be constant.
pub fn tree_bytes(spec: &Spec) -> Vec<u8> {
    let mut sorted = spec.occupied();
    sorted.sort_by_key(|s| (spec.pid(*s)[0], if spec.width() > 32 { (spec.pid(*s)[1], if spec.width() > 256 { spec.pid(*s)[2] } else { 0 }) } else { (0, 0) }));
    let mut v = vec![0, spec.depth];
    v.extend_from_slice(&spec.entropy.to_le_bytes());
    v.extend_from_slice(&spec.cof.to_le_bytes());
    let n = (sorted.len() as u32).to_le_bytes();
    v.extend_from_slice(&n[..3]);
    for s in sorted {
        v.extend_from_slice(&spec.pid(s));
        v.extend_from_slice(&spec.msg(s));
    }
    v.extend_from_slice(&n[..3]);
    for s in spec.occupied() {
        v.extend_from_slice(&(s as u32).to_le_bytes());
        v.extend_from_slice(&spec.pid(s));
        v.extend_from_slice(&spec.msg(s));
    }
    v
}

/// The number of protocols with `pid == p` kept, as slots.
pub fn mask_pids(spec: &Spec, mask: u32) -> Vec<ProtocolId> {
    spec.occupied().iter().filter(|s| mask >> **s & 1 == 1).map(|s| pid(&spec.pid(*s))).collect()
}

/// Any subset of the given mask.
pub fn submask(mask: u32) -> u32 {
    let mut k = 0;
    for s in 0..32 {
        if mask >> s & 1 == 1 && sym::fork() {
            k |= 1 << s;
        }
    }
    k
}

pub fn block(bytes: &[u8]) -> Option<MerkleBlock> { dec(bytes) }

/// How the tree comes about: mode 0/1 committed with cofactor zero (ids in slot order or reversed),
/// mode 2/3 deserialized with the given cofactor.
pub fn spec_mode(depth: u8, mode: u64, cof: u16) -> Spec {
    let width = 1u64 << depth;
    let m = if mode < 2 { width } else { width.saturating_sub(cof as u64).max(1) };
    let full = ((1u64 << m) - 1) as u32;
    spec_mask(depth, mode, cof, partmask(full))
}
/// Any subset; split over several runs by its first bits: argument 3 is `parts << 8 | part` for a power
/// of two `parts`, or zero.
pub fn partmask(full: u32) -> u32 {
    let a = sym::arg(3) as u32;
    let (parts, part) = (a >> 8, a & 0xFF);
    if parts == 0 {
        return submask(full);
    }
    part & full | submask(full & !(parts - 1))
}
pub fn spec_mask(depth: u8, mode: u64, cof: u16, mask: u32) -> Spec {
    if depth == 0 && mask == 0 {
        sym::assume(false);
    }
    if mode < 2 { spec_plain(depth, mask, mode) } else { spec_cof(depth, mask, cof, mode - 2) }
}
pub fn tree_mode(spec: &Spec, mode: u64) -> MerkleTree {
    if mode < 2 {
        commit(spec)
    } else {
        match dec::<MerkleTree>(&tree_bytes(spec)) {
            Some(t) => t,
            None => {
                sym::check(false, "the tree is deserialized");
                loop {}
            }
        }
    }
}
