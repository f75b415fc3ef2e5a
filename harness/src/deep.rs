//! Few messages in trees of any depth: everything but their leaves is arbitrary hashes.
use std::collections::BTreeMap;

use commit_verify::mpc::{MergeError, MerkleBlock, Proof, ProtocolId};
use commit_verify::{CommitId, Conceal};

use crate::codec::{lossless, same, SERDE};
use crate::refs::{self, dec, enc, H};
use crate::spec::*;
use crate::sym;

struct Sparse {
    depth: u8,
    cof: u16,
    /// In the order of slots.
    leaves: Vec<(u32, H, H)>,
    nodes: BTreeMap<(u8, u32), H>,
}

fn positions(depth: u8, m: u64, set: u64) -> Vec<u32> {
    let all = ((1u64 << depth) - 1) as u32;
    let (p, q) = (0x5555_5555 & all, 0x6d2b_4e95 & all);
    let top = 1 << (depth - 1);
    let mid = 1 << (depth / 2);
    let v = match set {
        0 => vec![0, all],
        1 => vec![p & !1, p | 1],
        2 => vec![p, p ^ mid],
        3 => vec![q, q ^ top, q ^ 1],
        4 => vec![0, top, all - 1, all],
        5 => vec![q, q ^ mid, q ^ (mid >> 1)],
        _ => vec![all ^ top, top, top | mid],
    };
    let mut v: Vec<u32> = v.into_iter().map(|x| x.min((m - 1) as u32)).collect();
    v.sort();
    v.dedup();
    v
}

impl Sparse {
    fn new(depth: u8, cof: u16, set: u64) -> Sparse {
        let m = (1u64 << depth).saturating_sub(cof as u64).max(1);
        let mut leaves = vec![];
        for (k, s) in positions(depth, m, set).into_iter().enumerate() {
            let mut p: H = sym::bytes();
            if cof == 0 {
                p[..4].copy_from_slice(&s.to_le_bytes());
            } else {
                p[0] = (k as u8) << 4 | s as u8 & 0xF;
                sym::assume(sym::urem256(&p, m) == s as u64);
            }
            leaves.push((s, p, sym::bytes()));
        }
        let mut s = Sparse { depth, cof, leaves, nodes: BTreeMap::new() };
        s.fill(0, 0);
        s
    }
    fn inside(&self, d: u8, i: u32, s: u32) -> bool { s >> (self.depth - d) == i }
    fn fill(&mut self, d: u8, i: u32) -> H {
        let h = match self.leaves.iter().find(|l| self.inside(d, i, l.0)) {
            None => sym::bytes(),
            Some((_, p, m)) if d == self.depth => refs::leaf_inhabited(p, m),
            Some(_) => {
                let (a, b) = (self.fill(d + 1, i * 2), self.fill(d + 1, i * 2 + 1));
                refs::branch(d, 1 << self.depth, &a, &b)
            }
        };
        self.nodes.insert((d, i), h);
        h
    }
    /// The tree with another message in the k-th leaf.
    fn with_message(&self, k: usize, m: H) -> Sparse {
        let mut t = Sparse { depth: self.depth, cof: self.cof, leaves: self.leaves.clone(), nodes: self.nodes.clone() };
        let (s, p, _) = t.leaves[k];
        t.leaves[k].2 = m;
        let mut h = refs::leaf_inhabited(&p, &m);
        for d in (0..=t.depth).rev() {
            t.nodes.insert((d, s >> (t.depth - d)), h);
            if d > 0 {
                let i = s >> (t.depth - d);
                let o = t.nodes[&(d, i ^ 1)];
                h = if i & 1 == 1 { refs::branch(d - 1, 1 << t.depth, &o, &h) } else { refs::branch(d - 1, 1 << t.depth, &h, &o) };
            }
        }
        t
    }
    fn root(&self) -> H { self.nodes[&(0, 0)] }
    fn commitment(&self) -> H { refs::commitment(self.depth, self.cof, &self.root()) }
    /// The canonical block which reveals the given ones of the leaves.
    fn block_bytes(&self, keep: u32, entropy: Option<u64>) -> Vec<u8> {
        let (mut n, mut cs) = (0u32, vec![]);
        self.section(0, 0, keep, &mut n, &mut cs);
        let mut v = vec![0, self.depth];
        v.extend_from_slice(&self.cof.to_le_bytes());
        v.extend_from_slice(&n.to_le_bytes());
        v.extend_from_slice(&cs);
        match entropy {
            Some(e) => {
                v.push(1);
                v.extend_from_slice(&e.to_le_bytes());
            }
            None => v.push(0),
        }
        v
    }
    fn section(&self, d: u8, i: u32, keep: u32, n: &mut u32, out: &mut Vec<u8>) {
        let kept = self.leaves.iter().enumerate().find(|(k, l)| keep >> k & 1 == 1 && self.inside(d, i, l.0));
        match kept {
            Some((_, (_, p, m))) if d == self.depth => {
                out.push(1);
                out.extend_from_slice(p);
                out.extend_from_slice(m);
            }
            Some(_) => {
                self.section(d + 1, i * 2, keep, n, out);
                self.section(d + 1, i * 2 + 1, keep, n, out);
                return;
            }
            None => {
                out.extend_from_slice(&[0, d]);
                out.extend_from_slice(&self.nodes[&(d, i)]);
            }
        }
        *n += 1;
    }
    fn proof_bytes(&self, k: usize) -> Vec<u8> {
        let s = self.leaves[k].0;
        let path: Vec<H> = (1..=self.depth).map(|d| self.nodes[&(d, s >> (self.depth - d) ^ 1)]).collect();
        proof_bytes(s, self.cof, &path)
    }
    fn any(&self) -> u32 { submask((1 << self.leaves.len()) - 1) }
    fn all(&self) -> u32 { (1 << self.leaves.len()) - 1 }
    fn pids(&self, keep: u32) -> Vec<ProtocolId> { self.leaves.iter().enumerate().filter(|(k, _)| keep >> k & 1 == 1).map(|(_, l)| pid(&l.1)).collect() }
    /// The block with the given leaves: deserialized or, if there is one, out of its proof.
    fn block(&self, keep: u32) -> MerkleBlock {
        let b = if keep.count_ones() == 1 && sym::fork() {
            let k = keep.trailing_zeros() as usize;
            let (_, p, m) = &self.leaves[k];
            dec::<commit_verify::mpc::MerkleProof>(&self.proof_bytes(k)).and_then(|x| MerkleBlock::with(&x, pid(p), msg(m)).ok())
        } else {
            dec::<MerkleBlock>(&self.block_bytes(keep, None))
        };
        match b {
            Some(b) => b,
            None => {
                sym::check(false, "a block of the tree is deserialized or made of a proof");
                loop {}
            }
        }
    }
}
fn setup() -> Sparse { Sparse::new(sym::arg(0) as u8, sym::arg(2) as u16, sym::arg(1)) }

harnesses! {
    // C04, C15, C29: values of any block of a deep tree and its serializations
    fn h_deep_block() {
        let t = setup();
        let k = t.any();
        let e = if sym::fork() { Some(sym::u64()) } else { None };
        let bytes = t.block_bytes(k, e);
        let Some(b) = dec::<MerkleBlock>(&bytes) else {
            sym::check(false, "a block of the tree is deserialized");
            return;
        };
        sym::check(cid(&b.commit_id()) == t.commitment(), "the block has the standard value");
        sym::check(b.entropy() == e, "the block has the entropy serialized");
        let conc = b.conceal();
        let mut con = vec![t.depth];
        con.extend_from_slice(&t.cof.to_le_bytes());
        con.extend_from_slice(&t.root());
        sym::check(enc(&conc) == con, "the concealed block is depth, cofactor and root");
        sym::check(cid(&conc.commit_id()) == t.commitment(), "the concealed block has the standard value");
        same(&b, &bytes);
        sym::cover("end");
    }
    fn h_deep_serde() {
        let t = setup();
        SERDE.with(|f| f.set(sym::arg(3)));
        lossless(&t.block(t.all()));
        sym::cover("end");
    }
    // C06, C07: concealing
    fn h_deep_conceal() {
        let t = setup();
        let k1 = t.any();
        let e = if sym::fork() { Some(sym::u64()) } else { None };
        let Some(mut b) = dec::<MerkleBlock>(&t.block_bytes(k1, e)) else {
            sym::check(false, "a block of the tree is deserialized");
            return;
        };
        let k2 = t.any();
        let lost = k2 & !k1;
        if lost == 0 {
            sym::check(b.conceal_except(t.pids(k2)).is_ok(), "revealed protocols may be kept");
            sym::check(enc(&b) == t.block_bytes(k2, None), "the block holds the kept protocols and single hashes only");
            sym::cover("kept");
        } else {
            match b.conceal_except(t.pids(k2)) {
                Ok(_) => sym::check(false, "a concealed protocol is refused"),
                Err(x) => {
                    if let Some(x) = unknown(&x) {
                        let mut named = false;
                        for p in t.pids(lost) {
                            named = named | (p == pid(&x));
                        }
                        sym::check(named, "the error names a concealed protocol");
                    }
                }
            }
            sym::cover("refused");
        }
        sym::check(cid(&b.commit_id()) == t.commitment(), "the commitment is unchanged after concealing");
    }
    // C08, C09: merging and proofs
    fn h_deep_merge() {
        let t = setup();
        let (k1, k2) = (partmask(t.all()), t.any());
        let mut a = t.block(k1);
        let done = if k2.count_ones() == 1 && sym::fork() {
            let k = k2.trailing_zeros() as usize;
            let (_, p, m) = &t.leaves[k];
            let proof = dec::<commit_verify::mpc::MerkleProof>(&t.proof_bytes(k)).expect("proof is decodable");
            sym::cover("path");
            a.merge_reveal_path(&proof, pid(p), msg(m)).is_ok()
        } else {
            a.merge_reveal(t.block(k2)).is_ok()
        };
        let u = k1 | k2;
        sym::check(done, "blocks and proofs of one tree are merged");
        sym::check(enc(&a) == t.block_bytes(u, None), "the merged block reveals the union of both in canonical form");
        sym::check(cid(&a.commit_id()) == t.commitment(), "the merged block has the same commitment");
        for (k, (_, p, m)) in t.leaves.iter().enumerate() {
            match a.to_merkle_proof(pid(p)) {
                Ok(x) => {
                    sym::check(u >> k & 1 == 1, "no proof of a concealed protocol");
                    sym::check(enc(&x) == t.proof_bytes(k), "the proof is the path to the slot");
                    match x.convolve(pid(p), msg(m)) {
                        Ok(c) => sym::check(cid(&c) == t.commitment(), "the proof of a protocol opens to the commitment"),
                        Err(_) => sym::check(false, "the proof of a protocol is accepted"),
                    }
                    sym::cover("proof");
                }
                Err(_) => sym::check(u >> k & 1 == 0, "a revealed protocol has a proof"),
            }
        }
        sym::cover("end");
    }
    // C08, C27: blocks of trees which may differ in one message
    fn h_deep_match() {
        let t = setup();
        let k = t.leaves.len() / 2;
        let m = sym::bytes();
        let t2 = t.with_message(k, m);
        let equal = m == t.leaves[k].2;
        sym::check((t.commitment() == t2.commitment()) == equal, "trees which differ in a message have different commitments");
        let (mut a, b) = (t.block(t.any()), t2.block(t.any()));
        let before = enc(&a);
        sym::check(a.matches(&b) == equal, "blocks match exactly when they have the same commitment");
        match a.merge_reveal(b) {
            Ok(_) => {
                sym::check(equal, "merged only with the same commitment");
                sym::cover("same");
            }
            Err(MergeError::UnrelatedBlocks { base_root, merged_root }) => {
                sym::check(!equal, "refused only with another commitment");
                sym::check(cid(&base_root) == t.commitment() && cid(&merged_root) == t2.commitment(), "the error names both commitments");
                sym::check(enc(&a) == before, "a refused merge leaves the base untouched");
                sym::cover("unrelated");
            }
            Err(_) => sym::check(false, "no other error"),
        }
        sym::cover("end");
    }
    // C28: listings
    fn h_deep_lists() {
        let t = setup();
        let k = t.any();
        let b = t.block(k);
        let mut left = t.pids(k);
        for p in b.known_protocol_ids() {
            match left.iter().position(|x| *x == p) {
                Some(i) => drop(left.remove(i)),
                None => sym::check(false, "the known protocols are revealed, each is listed once"),
            }
        }
        sym::check(left.is_empty(), "every revealed protocol is known");
        let map = b.to_known_message_map();
        sym::check(map.len() == k.count_ones() as usize, "the message map has one entry per revealed protocol");
        for (i, (_, p, m)) in t.leaves.iter().enumerate() {
            if k >> i & 1 == 1 {
                sym::check(map.get(&pid(p)) == Some(&msg(m)), "the message map has the revealed messages");
            }
        }
        let mut seen = 0;
        for (p, proof) in b.into_known_proofs() {
            for (i, (_, q, _)) in t.leaves.iter().enumerate() {
                if p == pid(q) {
                    sym::check(k >> i & 1 == 1 && seen >> i & 1 == 0, "the known proofs are those of revealed protocols, each is listed once");
                    sym::check(enc(&proof) == t.proof_bytes(i), "a known proof is the path to the slot");
                    seen |= 1 << i;
                }
            }
        }
        sym::check(seen == k, "every revealed protocol has a known proof");
        sym::cover("end");
    }
}
