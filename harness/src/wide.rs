//! Trees too wide for arbitrary occupancy: few messages at given slots, everything else entropy.
use commit_verify::mpc::{MerkleBlock, MerkleTree, Proof, ProtocolId};
use commit_verify::{CommitId, Conceal};

use crate::codec::{document, lossless, same, SERDE};
use crate::refs::{self, enc, H};
use crate::spec::*;
use crate::sym;

/// Slots of the messages. The factored width is `m`.
fn slots(m: usize, set: u64) -> Vec<usize> {
    let last = m - 1;
    let mid = m / 2;
    let mut v = match set {
        0 => vec![0],
        1 => vec![last],
        2 => vec![0, last],
        3 => vec![mid - 1, mid],
        4 => vec![0, mid, last],
        5 => vec![last - 1, last],
        6 => vec![1, mid - 1, mid + 1],
        7 => vec![0, 1, 2, 3],
        // many messages
        8 => (0..m).step_by(3).collect(),
        9 => (0..m).collect(),
        10 => (0..m).filter(|i| i % 64 < 40).collect(),
        _ => (mid - 3..m).collect(),
    };
    v.dedup();
    v
}

/// Arguments: depth, 0/1 committed (cofactor zero) or 2 deserialized, cofactor, set of slots.
fn setup() -> (Spec, MerkleTree, Vec<usize>) {
    let (depth, mode, cof) = (sym::arg(0) as u8, sym::arg(1), sym::arg(2) as u16);
    let m = if mode < 2 { 1u64 << depth } else { (1u64 << depth).saturating_sub(cof as u64).max(1) };
    let taken = slots(m as usize, sym::arg(3));
    let mut all = vec![None; 1 << depth];
    for (k, s) in taken.iter().enumerate() {
        let mut p: H = sym::bytes();
        if mode < 2 {
                let at = (*s as u32).to_le_bytes();
            p[..3].copy_from_slice(&at[..3]);
        } else {
            (p[0], p[1]) = (*s as u8, k as u8);
            if depth > 8 {
                p[2] = (k >> 8) as u8;
            }
            sym::assume(sym::urem256(&p, m) == *s as u64);
        }
        all[*s] = Some((p, sym::bytes()));
    }
    let spec = Spec::new(depth, if mode < 2 { 0 } else { cof }, sym::u64(), all);
    let tree = tree_mode(&spec, mode);
    (spec, tree, taken)
}

/// Any of few; of many every choice of three, with others.
fn any_of(list: &[usize]) -> Vec<usize> { any_with(list, 0) }
fn any_with(list: &[usize], shift: usize) -> Vec<usize> {
    let n = list.len();
    let free = |i: usize| n < 5 || i == 0 || i == n / 2 || i + 1 == n;
    (0..n).filter(|i| if free(*i) { sym::fork() } else { (i + shift) % 5 < 2 || (i + shift) / 50 % 3 == 1 }).map(|i| list[i]).collect()
}
/// All of few, some of many.
fn some_of(list: &[usize]) -> Vec<usize> {
    let n = list.len();
    (0..n).filter(|i| n < 9 || *i < 2 || i + 2 > n || i % 41 == 0).map(|i| list[i]).collect()
}
fn pids(spec: &Spec, list: &[usize]) -> Vec<ProtocolId> { list.iter().map(|s| pid(&spec.pid(*s))).collect() }
fn concealed(spec: &Spec, full: &MerkleBlock, keep: &[usize]) -> MerkleBlock {
    let mut b = full.clone();
    sym::check(b.conceal_except(pids(spec, keep)).is_ok(), "revealed protocols may be kept");
    b
}

harnesses! {
    // C04: the root and the value
    fn h_wide_root() {
        let (spec, tree, _) = setup();
        sym::check(refs::h32(tree.root().as_slice()) == spec.root(), "the root of the tree is the merklization of all slots");
        sym::check(cid(&tree.commit_id()) == spec.commitment(), "the tree has the standard value");
        sym::cover("end");
    }
    // C04, C06: block of the tree
    fn h_wide_block() {
        let (spec, tree, _) = setup();
        let block = MerkleBlock::from(&tree);
        let c = spec.commitment();
        sym::check(cid(&block.commit_id()) == c, "the block has the standard value");
        let conc = block.conceal();
        let mut con = vec![spec.depth];
        con.extend_from_slice(&spec.cof.to_le_bytes());
        con.extend_from_slice(&spec.root());
        sym::check(enc(&conc) == con, "the concealed block is depth, cofactor and root");
        sym::check(cid(&conc.commit_id()) == c, "the concealed block has the standard value");
        sym::check(tree.conceal() == conc, "the concealed tree is the concealed block");
        sym::cover("end");
    }
    // C01, C09: proofs
    fn h_wide_open() {
        let (spec, tree, taken) = setup();
        let block = MerkleBlock::from(&tree);
        let c = spec.commitment();
        for s in &some_of(&taken) {
            let (p, m) = (pid(&spec.pid(*s)), msg(&spec.msg(*s)));
            match block.to_merkle_proof(p) {
                Ok(proof) => {
                    sym::check(enc(&proof) == spec.proof_bytes(*s), "the proof is the path to the slot");
                    match proof.convolve(p, m) {
                        Ok(x) => sym::check(cid(&x) == c, "the proof of a protocol opens to the commitment"),
                        Err(_) => sym::check(false, "the proof of a protocol is accepted"),
                    }
                    sym::cover("opened");
                }
                Err(_) => sym::check(false, "a revealed protocol has a proof"),
            }
        }
        sym::cover("end");
    }
    fn h_wide_proofs() {
        let (spec, tree, mut left) = setup();
        let c = spec.commitment();
        for (p, proof) in tree.into_proofs() {
            let Some(k) = left.iter().position(|s| pid(&spec.pid(*s)) == p) else {
                sym::check(false, "the tree gives the proofs of its protocols");
                return;
            };
            let s = left.remove(k);
            match proof.convolve(p, msg(&spec.msg(s))) {
                Ok(x) => sym::check(cid(&x) == c, "a proof out of the tree opens to the commitment of the tree"),
                Err(_) => sym::check(false, "a proof out of the tree is accepted"),
            }
        }
        sym::check(left.is_empty(), "the tree gives one proof per message");
        sym::cover("end");
    }
    // C06, C07: concealing
    fn h_wide_conceal() {
        let (spec, tree, taken) = setup();
        let c = spec.commitment();
        let keep = any_of(&taken);
        let mut b = concealed(&spec, &MerkleBlock::from(&tree), &keep);
        sym::check(cid(&b.commit_id()) == c, "the commitment is unchanged after concealing");
        sym::check(enc(&b) == spec.block_bytes_of(&keep, false, false), "the block holds the kept protocols and single hashes only");
        let keep = any_of(&keep);
        sym::check(b.conceal_except(pids(&spec, &keep)).is_ok(), "revealed protocols may be kept");
        sym::check(cid(&b.commit_id()) == c, "the commitment is unchanged after concealing twice");
        sym::check(enc(&b) == spec.block_bytes_of(&keep, false, false), "the block concealed twice holds the kept protocols only");
        sym::cover("end");
    }
    // C08: merging
    fn h_wide_merge() {
        let (spec, tree, taken) = setup();
        let full = MerkleBlock::from(&tree);
        let (k1, k2) = (any_of(&taken), any_with(&taken, 3));
        let union: Vec<usize> = taken.iter().copied().filter(|s| k1.contains(s) || k2.contains(s)).collect();
        let mut a = concealed(&spec, &full, &k1);
        sym::check(a.merge_reveal(concealed(&spec, &full, &k2)).is_ok(), "blocks of one tree are merged");
        sym::check(enc(&a) == spec.block_bytes_of(&union, false, false), "the merged block reveals the union of both in canonical form");
        sym::check(cid(&a.commit_id()) == spec.commitment(), "the merged block has the same commitment");
        sym::cover("end");
    }
    // C08, C09: merging proofs
    fn h_wide_path() {
        let (spec, tree, taken) = setup();
        let full = MerkleBlock::from(&tree);
        let k = any_of(&taken);
        let mut a = concealed(&spec, &full, &k);
        let mut known = k;
        for s in &some_of(&taken) {
            if taken.len() > 8 || sym::fork() {
                let (p, m) = (pid(&spec.pid(*s)), msg(&spec.msg(*s)));
                let Ok(proof) = full.to_merkle_proof(p) else {
                    sym::check(false, "a revealed protocol has a proof");
                    return;
                };
                sym::check(a.merge_reveal_path(&proof, p, m).is_ok(), "a proof of the same tree is merged");
                if !known.contains(s) {
                    known.push(*s);
                }
                sym::cover("path");
            }
        }
        sym::check(enc(&a) == spec.block_bytes_of(&known, false, false), "the block reveals the merged paths in canonical form");
        for s in &some_of(&known) {
            match a.to_merkle_proof(pid(&spec.pid(*s))) {
                Ok(x) => sym::check(enc(&x) == spec.proof_bytes(*s), "the proof out of a merged block is the path to the slot"),
                Err(_) => sym::check(false, "a merged protocol has a proof"),
            }
        }
        sym::cover("end");
    }
    // C15: serialization
    fn h_wide_codec() {
        let (spec, tree, taken) = setup();
        let bytes = tree_bytes(&spec);
        same(&tree, &bytes);
        let mut b = MerkleBlock::from(&tree);
        let bb = spec.block_bytes_of(&taken, true, true);
        same(&b, &bb);
        document(&b, &bb);
        if let Some(s) = taken.last() {
            if let Ok(p) = b.to_merkle_proof(pid(&spec.pid(*s))) {
                same(&p, &spec.proof_bytes(*s));
            }
        }
        let keep = any_of(&taken);
        if b.conceal_except(pids(&spec, &keep)).is_ok() {
            let bb = spec.block_bytes_of(&keep, false, false);
            same(&b, &bb);
            document(&b, &bb);
        }
        sym::cover("end");
    }
    // C29: serde. Argument 4: format
    fn h_wide_serde() {
        let (spec, tree, taken) = setup();
        SERDE.with(|m| m.set(sym::arg(4)));
        let mut b = MerkleBlock::from(&tree);
        lossless(&b);
        if b.conceal_except(pids(&spec, &any_of(&taken))).is_ok() {
            lossless(&b);
        }
        sym::cover("end");
    }
    // C28: listings
    fn h_wide_lists() {
        let (spec, tree, taken) = setup();
        let c = spec.commitment();
        let mut b = MerkleBlock::from(&tree);
        let known = if sym::fork() {
            taken
        } else {
            let k = any_of(&taken);
            b = concealed(&spec, &b, &k);
            k
        };
        let find = |left: &[usize], p: &ProtocolId| left.iter().position(|s| pid(&spec.pid(*s)) == *p);
        let mut left = known.clone();
        for p in b.known_protocol_ids() {
            match find(&left, &p) {
                Some(i) => drop(left.remove(i)),
                None => sym::check(false, "the known protocols are revealed, each is listed once"),
            }
        }
        sym::check(left.is_empty(), "every revealed protocol is known");
        let map = b.to_known_message_map();
        sym::check(map.len() == known.len(), "the message map has one entry per revealed protocol");
        for s in &known {
            sym::check(map.get(&pid(&spec.pid(*s))) == Some(&msg(&spec.msg(*s))), "the message map has the revealed messages");
        }
        let some = some_of(&known);
        let mut left = known.clone();
        for (p, proof) in b.into_known_proofs() {
            let Some(i) = find(&left, &p) else {
                sym::check(false, "the known proofs are those of revealed protocols, each is listed once");
                return;
            };
            let s = left.remove(i);
            if some.contains(&s) {
                match proof.convolve(p, msg(&spec.msg(s))) {
                    Ok(x) => sym::check(cid(&x) == c, "a known proof opens to the commitment of the block"),
                    Err(_) => sym::check(false, "a known proof is accepted"),
                }
            } else {
                sym::check(enc(&proof) == spec.proof_bytes(s), "a known proof is the path to the slot");
            }
        }
        sym::check(left.is_empty(), "every revealed protocol has a known proof");
        sym::cover("end");
    }
    // C28: as many proofs as protocols
    fn h_wide_count() {
        let (spec, tree, taken) = setup();
        let b = concealed(&spec, &MerkleBlock::from(&tree), &taken);
        sym::check(b.known_protocol_ids().count() == taken.len(), "every revealed protocol is known");
        sym::check(b.to_known_message_map().len() == taken.len(), "the message map has one entry per revealed protocol");
        let mut left = taken.clone();
        for (p, proof) in b.into_known_proofs() {
            let Some(i) = left.iter().position(|s| pid(&spec.pid(*s)) == p) else {
                sym::check(false, "the known proofs are those of revealed protocols, each is listed once");
                return;
            };
            let s = left.remove(i);
            if s == taken[0] || s + 1 == spec.width() {
                sym::check(enc(&proof) == spec.proof_bytes(s), "a known proof is the path to the slot");
            }
        }
        sym::check(left.is_empty(), "every revealed protocol has a known proof");
        sym::cover("end");
    }
    // C27: matching of what reveals different parts of one tree, and of trees differing in one message
    fn h_wide_match() {
        let (spec, tree, taken) = setup();
        let full = MerkleBlock::from(&tree);
        let mut slots = spec.slots.clone();
        let s = taken[taken.len() / 2];
        let m = sym::bytes();
        slots[s] = Some((spec.pid(s), m));
        let same = m == spec.msg(s);
        let spec2 = Spec::new(spec.depth, spec.cof, spec.entropy, slots);
        let tree2 = tree_mode(&spec2, sym::arg(1));
        let full2 = MerkleBlock::from(&tree2);
        sym::check(tree.matches(&tree2) == same, "trees match exactly when they have the same commitment");
        let k = any_of(&taken);
        sym::check(concealed(&spec, &full, &k).matches(&full2) == same, "blocks match exactly when they have the same commitment");
        sym::check(full.matches(&concealed(&spec2, &full2, &k)) == same, "blocks match exactly when they have the same commitment");
        sym::cover("end");
    }
}
