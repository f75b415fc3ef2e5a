//! C01, C04, C06 - C09, C27, C28: trees, blocks and proofs of committed messages.
use commit_verify::mpc::{MergeError, MerkleBlock, MerkleProof, MerkleTree, Proof, ProtocolId};
use commit_verify::{CommitId, Conceal};

use crate::refs::{self, dec, enc, H};
use crate::spec::*;
use crate::sym;

fn setup() -> (Spec, MerkleTree) {
    let (depth, mode, cof) = (sym::arg(0) as u8, sym::arg(1), sym::arg(2) as u16);
    let spec = spec_mode(depth, mode, cof);
    let tree = tree_mode(&spec, mode);
    (spec, tree)
}
/// A tree with all slots taken.
fn setup_full() -> (Spec, MerkleTree) {
    let (depth, mode, cof) = (sym::arg(0) as u8, sym::arg(1), sym::arg(2) as u16);
    let m = if mode < 2 { 1u64 << depth } else { (1u64 << depth).saturating_sub(cof as u64).max(1) };
    let spec = spec_mask(depth, mode, cof, ((1u64 << m) - 1) as u32);
    let tree = tree_mode(&spec, mode);
    (spec, tree)
}

/// A protocol id which no slot holds.
fn absent(spec: &Spec) -> H {
    let mut p = [0xA5u8; 32];
    p[31] = sym::byte();
    for s in spec.occupied() {
        sym::assume(spec.pid(s) != p);
    }
    p
}

fn conceal(spec: &Spec, block: &mut MerkleBlock, keep: u32) {
    if block.conceal_except(mask_pids(spec, keep)).is_err() {
        sym::check(false, "revealed protocols may be kept");
    }
}
fn concealed(spec: &Spec, tree: &MerkleTree, keep: u32) -> MerkleBlock {
    let mut b = MerkleBlock::from(tree);
    conceal(spec, &mut b, keep);
    b
}
fn proof_of(b: &MerkleBlock, p: &H) -> MerkleProof {
    match b.to_merkle_proof(pid(p)) {
        Ok(x) => x,
        Err(_) => {
            sym::check(false, "a revealed protocol has a proof");
            loop {}
        }
    }
}
fn same_params(b: &MerkleBlock, spec: &Spec) {
    sym::check(
        b.depth().to_u8() == spec.depth && b.cofactor() == spec.cof && b.width_limit() as usize == spec.width(),
        "depth, cofactor and width are those of the tree",
    );
}

/// A block of arbitrary shape: every subtree is a hash or split; leaves are hashes or protocols.
enum Nd {
    Hash(H),
    Leaf(H, H),
    Split(Box<Nd>, Box<Nd>, H),
}
struct Shape {
    depth: u8,
    cof: u16,
    n: u32,
    cs: Vec<u8>,
    leaves: Vec<(H, H)>,
    top: Nd,
}
impl Nd {
    fn hash(&self) -> H {
        match self {
            Nd::Hash(h) | Nd::Split(_, _, h) => *h,
            Nd::Leaf(p, m) => refs::leaf_inhabited(p, m),
        }
    }
    fn any(&self, keep: &[ProtocolId]) -> bool {
        match self {
            Nd::Hash(_) => false,
            Nd::Leaf(p, _) => keep.contains(&pid(p)),
            Nd::Split(a, b, _) => a.any(keep) || b.any(keep),
        }
    }
    fn coarse(&self, d: u8, keep: &[ProtocolId], n: &mut u32, out: &mut Vec<u8>) {
        if let (Nd::Split(a, b, _), true) = (self, self.any(keep)) {
            a.coarse(d + 1, keep, n, out);
            b.coarse(d + 1, keep, n, out);
            return;
        }
        *n += 1;
        if let (Nd::Leaf(p, m), true) = (self, self.any(keep)) {
            out.push(1);
            out.extend_from_slice(p);
            out.extend_from_slice(m);
            return;
        }
        out.extend_from_slice(&[0, d]);
        out.extend_from_slice(&self.hash());
    }
}
impl Shape {
    /// The block with nothing but the given protocols.
    fn coarse(&self, keep: &[ProtocolId]) -> Vec<u8> {
        let (mut n, mut cs) = (0, vec![]);
        self.top.coarse(0, keep, &mut n, &mut cs);
        let mut v = vec![0, self.depth];
        v.extend_from_slice(&self.cof.to_le_bytes());
        v.extend_from_slice(&n.to_le_bytes());
        v.extend_from_slice(&cs);
        v.push(0);
        v
    }
    /// Any cofactor without protocols, some cofactors with them.
    fn any(depth: u8) -> (Shape, H) {
        let k = sym::choose(5) as usize;
        let cof = if k == 0 { sym::u16() } else { [0, 1, 2, 0xFFFF][k - 1] };
        let mut s = Shape { depth, cof, n: 0, cs: vec![], leaves: vec![], top: Nd::Hash([0; 32]) };
        s.top = s.node(0, 0, k > 0);
        let root = s.top.hash();
        if k > 0 && s.leaves.is_empty() {
            sym::assume(false);
        }
        (s, root)
    }
    fn node(&mut self, d: u8, i: u32, open: bool) -> Nd {
        let m = (1u64 << self.depth).saturating_sub(self.cof as u64).max(1);
        if open && d == self.depth && (i as u64) < m && sym::fork() {
            let (p, m) = (sym::bytes(), sym::bytes());
            sym::assume(refs::slot(&p, self.depth, self.cof) == i);
            self.n += 1;
            self.cs.push(1);
            self.cs.extend_from_slice(&p);
            self.cs.extend_from_slice(&m);
            self.leaves.push((p, m));
            return Nd::Leaf(p, m);
        }
        if d < self.depth && sym::fork() {
            let l = self.node(d + 1, i * 2, open);
            let r = self.node(d + 1, i * 2 + 1, open);
            let h = refs::branch(d, 1 << self.depth, &l.hash(), &r.hash());
            return Nd::Split(Box::new(l), Box::new(r), h);
        }
        let h = sym::bytes();
        self.n += 1;
        self.cs.push(0);
        self.cs.push(d);
        self.cs.extend_from_slice(&h);
        Nd::Hash(h)
    }
    fn bytes(&self, entropy: bool) -> Vec<u8> {
        let mut v = vec![0, self.depth];
        v.extend_from_slice(&self.cof.to_le_bytes());
        v.extend_from_slice(&self.n.to_le_bytes());
        v.extend_from_slice(&self.cs);
        v.push(entropy as u8);
        if entropy {
            v.extend_from_slice(&sym::u64().to_le_bytes());
        }
        v
    }
}

/// Number of shapes of a block of a tree with all slots taken.
fn shapes(depth: u8) -> u32 {
    if depth == 0 { 2 } else { shapes(depth - 1).pow(2) + 1 }
}
fn cut_node(spec: &Spec, d: u8, i: usize, k: u32, n: &mut u32, shown: &mut u32, out: &mut Vec<u8>) {
    if d == spec.depth && k == 1 {
        let Some((p, m)) = spec.slots[i] else {
            sym::assume(false);
            return;
        };
        *n += 1;
        *shown |= 1 << i;
        out.push(1);
        out.extend_from_slice(&p);
        out.extend_from_slice(&m);
        return;
    }
    if k > 0 {
        let w = shapes(spec.depth - d - 1);
        cut_node(spec, d + 1, i * 2, (k - 1) / w, n, shown, out);
        cut_node(spec, d + 1, i * 2 + 1, (k - 1) % w, n, shown, out);
        return;
    }
    *n += 1;
    out.extend_from_slice(&[0, d]);
    out.extend_from_slice(&spec.nodes[d as usize][i]);
}
/// The block of a tree with the k-th shape and the slots it reveals.
fn cut(spec: &Spec, k: u32, entropy: bool) -> (Vec<u8>, u32) {
    let (mut n, mut shown, mut cs) = (0, 0, vec![]);
    cut_node(spec, 0, 0, k, &mut n, &mut shown, &mut cs);
    let mut v = vec![0, spec.depth];
    v.extend_from_slice(&spec.cof.to_le_bytes());
    v.extend_from_slice(&n.to_le_bytes());
    v.extend_from_slice(&cs);
    v.push(entropy as u8);
    if entropy {
        v.extend_from_slice(&spec.entropy.to_le_bytes());
    }
    (v, shown)
}

/// Position patterns in deep trees.
fn pattern(depth: u8, k: u32) -> u32 {
    let all = ((1u64 << depth) - 1) as u32;
    match k {
        0 => 0,
        1 => all,
        2 => 0x5555_5555 & all,
        3 => 0xAAAA_AAAA & all,
        4 => 1 & all,
        5 => all & !1,
        _ => 0x6d2b_4e95 & all,
    }
}

harnesses! {
    // every message opens
    fn h_c01() {
        let (spec, tree) = setup();
        let id = tree.commit_id();
        let block = MerkleBlock::from(&tree);
        sym::check(block.commit_id() == id, "the block has the commitment of the tree");
        for s in spec.occupied() {
            let (p, m) = (pid(&spec.pid(s)), msg(&spec.msg(s)));
            match proof_of(&block, &spec.pid(s)).convolve(p, m) {
                Ok(x) => {
                    sym::check(x == id, "the proof of a protocol opens to the commitment of the tree");
                    sym::cover("opened");
                }
                Err(_) => sym::check(false, "the proof of a protocol is accepted"),
            }
        }
        let mut left = spec.occupied();
        for (p, proof) in tree.into_proofs() {
            let Some(k) = left.iter().position(|s| pid(&spec.pid(*s)) == p) else {
                sym::check(false, "the tree gives the proofs of its protocols");
                return;
            };
            let s = left.remove(k);
            match proof.convolve(p, msg(&spec.msg(s))) {
                Ok(x) => sym::check(x == id, "a proof out of the tree opens to the commitment of the tree"),
                Err(_) => sym::check(false, "a proof out of the tree is accepted"),
            }
        }
        sym::check(left.is_empty(), "the tree gives one proof per message");
        sym::cover("end");
    }

    // deep proofs: any path of 0..31 hashes
    fn h_c04_proof() {
        let depth = sym::arg(0) as u8;
        let pos = pattern(depth, sym::arg(1) as u32);
        let cof = if sym::arg(2) == 0 { 0 } else { sym::arg(2) as u16 };
        let path: Vec<H> = (0..depth).map(|_| sym::bytes()).collect();
        let (p, m) = (sym::bytes(), sym::bytes());
        sym::assume(refs::slot(&p, depth, cof) == pos);
        let proof = proof_with(pos, cof, &path);
        let mut h = refs::leaf_inhabited(&p, &m);
        for d in (0..depth).rev() {
            let right = pos >> (depth - 1 - d) & 1 == 1;
            h = if right { refs::branch(d, 1 << depth, &path[d as usize], &h) } else { refs::branch(d, 1 << depth, &h, &path[d as usize]) };
        }
        if sym::arg(3) == 0 {
            match proof.convolve(pid(&p), msg(&m)) {
                Ok(c) => sym::check(cid(&c) == refs::commitment(depth, cof, &h), "the opened proof has the standard value"),
                Err(_) => sym::check(false, "a proof at the right slot is accepted"),
            }
        }
        match MerkleBlock::with(&proof, pid(&p), msg(&m)) {
            Ok(b) => {
                if sym::arg(3) == 0 {
                    sym::check(cid(&b.commit_id()) == refs::commitment(depth, cof, &h), "the block of a proof has the standard value");
                } else {
                    sym::check(b.depth().to_u8() == depth && b.cofactor() == cof, "depth and cofactor of the proof");
                    let back = b.clone().into_merkle_proof(pid(&p));
                    sym::check(back == Ok(proof), "the proof of the block of a proof is that proof");
                }
            }
            Err(_) => sym::check(false, "a proof at the right slot gives a block"),
        }
        sym::cover("end");
    }

    // values of trees, partially concealed blocks and proofs
    fn h_c04() {
        let (spec, tree) = setup();
        let c = spec.commitment();
        sym::check(refs::h32(tree.root().as_slice()) == spec.root(), "the root of the tree is the merklization of all slots");
        sym::check(cid(&tree.commit_id()) == c, "the tree has the standard value");
        let mut con = vec![spec.depth];
        con.extend_from_slice(&spec.cof.to_le_bytes());
        con.extend_from_slice(&spec.root());
        sym::check(enc(&tree.conceal()) == con, "the concealed tree is depth, cofactor and root");
        sym::check(cid(&tree.conceal().commit_id()) == c, "the concealed tree has the standard value");
        let keep = submask(spec.mask());
        let b = concealed(&spec, &tree, keep);
        sym::check(cid(&b.commit_id()) == c, "the block has the standard value");
        sym::check(enc(&b.conceal()) == con, "the concealed block is depth, cofactor and root");
        if keep.count_ones() == 1 {
            let s = keep.trailing_zeros() as usize;
            match b.into_merkle_proof(pid(&spec.pid(s))) {
                Ok(x) => match x.convolve(pid(&spec.pid(s)), msg(&spec.msg(s))) {
                    Ok(x) => sym::check(cid(&x) == c, "the opened proof has the standard value"),
                    Err(_) => sym::check(false, "the proof opens"),
                },
                Err(_) => sym::check(false, "the block gives a proof"),
            }
            sym::cover("proof");
        }
        sym::cover("end");
    }

    // blocks of any shape
    fn h_c04_shape() {
        let depth = sym::arg(0) as u8;
        let (shape, root) = Shape::any(depth);
        let Some(b) = block(&shape.bytes(sym::fork())) else {
            sym::check(false, "the block is deserialized");
            return;
        };
        sym::check(cid(&b.commit_id()) == refs::commitment(depth, shape.cof, &root), "a block of any shape has the standard value");
        sym::cover("end");
    }

    // concealing and the commitment
    fn h_c06() {
        let (spec, tree) = setup();
        let c = spec.commitment();
        let mut b = MerkleBlock::from(&tree);
        sym::check(b.conceal() == tree.conceal(), "the concealed block is the concealed tree");
        let k1 = submask(spec.mask());
        let mut pids = mask_pids(&spec, k1);
        let unknown = sym::fork();
        if unknown {
            pids.insert(sym::choose(pids.len() as u32 + 1) as usize, pid(&absent(&spec)));
        }
        let ok = b.conceal_except(&pids).is_ok();
        sym::check(cid(&b.commit_id()) == c, "the commitment is unchanged after concealing");
        same_params(&b, &spec);
        sym::cover(if ok { "concealed" } else { "refused" });
        let k2 = submask(spec.mask());
        let ok = b.conceal_except(mask_pids(&spec, k2)).is_ok();
        sym::check(cid(&b.commit_id()) == c, "the commitment is unchanged after concealing twice");
        same_params(&b, &spec);
        sym::check(b.conceal() == tree.conceal(), "the block concealed twice conceals to the same triple");
        sym::cover(if ok { "concealed again" } else { "refused again" });
    }

    // concealing blocks of any shape
    fn h_c06_shape() {
        let depth = sym::arg(0) as u8;
        let (shape, root) = Shape::any(depth);
        for i in 0..shape.leaves.len() {
            for j in 0..i {
                sym::assume(shape.leaves[i].0 != shape.leaves[j].0);
            }
        }
        let Some(mut b) = block(&shape.bytes(sym::fork())) else {
            sym::check(false, "the block is deserialized");
            return;
        };
        let c = refs::commitment(depth, shape.cof, &root);
        let mut keep = Vec::<ProtocolId>::new();
        for (p, _) in &shape.leaves {
            if sym::fork() {
                keep.push(pid(p));
            }
        }
        let before = b.conceal();
        let ok = b.conceal_except(&keep).is_ok();
        if sym::arg(1) == 1 {
            sym::check(ok, "revealed protocols may be kept");
            let known: Vec<ProtocolId> = b.known_protocol_ids().collect();
            sym::check(known == keep, "the block reveals what was kept");
            let map = b.to_known_message_map();
            for (p, m) in &shape.leaves {
                if keep.contains(&pid(p)) {
                    sym::check(map.get(&pid(p)) == Some(&msg(m)), "the kept messages are the original ones");
                }
            }
            sym::check(b.entropy().is_none(), "no entropy remains");
            // the nodes are those of the coarsest cross-section
            sym::check(enc(&b) == shape.coarse(&keep), "every subtree without a kept leaf is one hash");
            sym::cover("end");
            return;
        }
        sym::check(cid(&b.commit_id()) == c, "the commitment is unchanged");
        sym::check(b.depth().to_u8() == depth && b.cofactor() == shape.cof, "depth and cofactor are unchanged");
        sym::check(b.conceal() == before, "the concealed triple is unchanged");
        sym::cover("end");
    }

    // what a concealed block holds
    fn h_c07() {
        let (spec, tree) = setup();
        let mut b = MerkleBlock::from(&tree);
        let k1 = submask(spec.mask());
        let mut pids = mask_pids(&spec, k1);
        match sym::choose(4) {
            0 => {}
            1 => pids.reverse(),
            2 => {
                let twice = pids.clone();
                pids.extend(twice);
            }
            _ => {
                // refused; whatever is named is not revealed
                let a = absent(&spec);
                let mut a2 = a;
                a2[30] = 0xA4;
                for s in spec.occupied() {
                    sym::assume(spec.pid(s) != a2);
                }
                pids.insert(0, pid(&a));
                pids.push(pid(&a2));
                match b.conceal_except(&pids) {
                    Ok(_) => sym::check(false, "an unknown protocol is refused"),
                    Err(e) => {
                        if let Some(x) = unknown(&e) {
                            sym::check(x == a || x == a2, "the error names an unknown protocol");
                        }
                        sym::cover("refused");
                    }
                }
                return;
            }
        }
        sym::check(b.conceal_except(&pids).is_ok(), "revealed protocols may be kept");
        sym::check(enc(&b) == spec.block_bytes(k1, false, false), "the block holds the kept protocols and single hashes only");
        sym::cover("kept");
        // again: a protocol just concealed is not known any more
        let k2 = submask(spec.mask());
        let lost = k2 & !k1;
        match b.conceal_except(mask_pids(&spec, k2)) {
            Ok(_) => {
                sym::check(lost == 0, "a concealed protocol is refused");
                sym::check(enc(&b) == spec.block_bytes(k2, false, false), "the block concealed twice holds the kept protocols only");
                sym::cover("kept again");
            }
            Err(e) => {
                sym::check(lost != 0, "a revealed protocol is not refused");
                if let Some(x) = unknown(&e) {
                    let mut named = false;
                    for s in spec.occupied() {
                        if lost >> s & 1 == 1 && spec.pid(s) == x {
                            named = true;
                        }
                    }
                    sym::check(named, "the error names a concealed protocol");
                }
                sym::cover("refused again");
            }
        }
    }
    fn h_c07_one() {
        let (spec, tree) = setup();
        for s in spec.occupied() {
            let mut b = MerkleBlock::from(&tree);
            sym::check(b.conceal_other(pid(&spec.pid(s))).is_ok(), "a revealed protocol may be kept");
            sym::check(enc(&b) == spec.block_bytes(1 << s, false, false), "only the one protocol is revealed");
            sym::cover("one");
        }
        let mut b = MerkleBlock::from(&tree);
        let a = absent(&spec);
        match b.conceal_other(pid(&a)) {
            Ok(_) => sym::check(false, "an unknown protocol is refused"),
            Err(e) => {
                if let Some(x) = unknown(&e) {
                    sym::check(x == a, "the error names the protocol");
                }
            }
        }
        sym::cover("end");
    }

    // merging concealed blocks of one tree
    fn h_c08() {
        let (spec, tree) = setup_full();
        let c = spec.commitment();
        let k1 = partmask(spec.mask());
        let k2 = submask(spec.mask());
        if (k2.count_ones() as u64) > sym::arg(4) {
            sym::assume(false);
        }
        let b2 = concealed(&spec, &tree, k2);
        let expect = spec.block_bytes(k1 | k2, false, false);
        let mut a = concealed(&spec, &tree, k1);
        match a.merge_reveal(b2) {
            Ok(_) => sym::check(enc(&a) == expect, "the merged block reveals the union of both in canonical form"),
            Err(_) => sym::check(false, "blocks of one tree are merged"),
        }
        sym::check(cid(&a.commit_id()) == c, "the merged block has the same commitment");
        if k2 & !k1 == 0 {
            sym::cover("part");
        }
        sym::cover("end");
    }
    // blocks of any shape of one tree, which may know its entropy, and opened proofs
    fn h_c08_shapes() {
        let (spec, _) = setup_full();
        let c = spec.commitment();
        let a = sym::arg(3) as u32;
        let (parts, part) = ((a >> 8).max(1), a & 0xFF);
        let all = shapes(spec.depth);
        let k = part + parts * sym::choose(all.div_ceil(parts));
        sym::assume(k < all);
        let (bytes, k1) = cut(&spec, k, sym::fork());
        let Some(mut base) = block(&bytes) else {
            sym::check(false, "a block of the tree is deserialized");
            return;
        };
        let k2;
        let done = if sym::fork() {
            let (bytes, k) = cut(&spec, sym::choose(all), sym::fork());
            k2 = k;
            let Some(b) = block(&bytes) else {
                sym::check(false, "a block of the tree is deserialized");
                return;
            };
            sym::cover("block");
            base.merge_reveal(b).is_ok()
        } else {
            let s = sym::choose(spec.width() as u32) as usize;
            if spec.slots[s].is_none() {
                sym::assume(false);
            }
            k2 = 1 << s;
            sym::cover("path");
            base.merge_reveal_path(&proof_with(s as u32, spec.cof, &spec.path(s)), pid(&spec.pid(s)), msg(&spec.msg(s))).is_ok()
        };
        let u = k1 | k2;
        sym::check(done, "blocks and proofs of one tree are merged");
        sym::check(cid(&base.commit_id()) == c, "the merged block has the same commitment");
        sym::check(base.known_protocol_ids().count() == u.count_ones() as usize, "the merged block reveals no more than the union");
        for s in spec.occupied() {
            if u >> s & 1 == 1 {
                sym::check(enc(&proof_of(&base, &spec.pid(s))) == spec.proof_bytes(s), "the proof out of a merged block is the path to the slot");
            }
        }
        sym::check(base.conceal_except(mask_pids(&spec, u)).is_ok(), "the merged block reveals the union");
        sym::check(enc(&base) == spec.block_bytes(u, false, false), "the merged block reveals the messages of the union");
        sym::cover("end");
    }
    // the other way around
    fn h_c08_rev() {
        let (spec, tree) = setup_full();
        let k1 = partmask(spec.mask());
        let k2 = submask(spec.mask());
        if (k2.count_ones() as u64) > sym::arg(4) {
            sym::assume(false);
        }
        let mut b2 = concealed(&spec, &tree, k2);
        match b2.merge_reveal(concealed(&spec, &tree, k1)) {
            Ok(_) => sym::check(enc(&b2) == spec.block_bytes(k1 | k2, false, false), "the merged block reveals the union of both in canonical form"),
            Err(_) => sym::check(false, "blocks of one tree are merged"),
        }
        sym::cover("end");
    }
    // sparse trees, the full block and opened proofs
    fn h_c08_path() {
        let (spec, tree) = setup();
        let full = MerkleBlock::from(&tree);
        let k1 = submask(spec.mask());
        let mut a = concealed(&spec, &tree, k1);
        let mut k = k1;
        for s in spec.occupied() {
            if sym::fork() {
                let proof = proof_of(&full, &spec.pid(s));
                match a.merge_reveal_path(&proof, pid(&spec.pid(s)), msg(&spec.msg(s))) {
                    Ok(_) => {
                        k |= 1 << s;
                        sym::cover("path");
                    }
                    Err(_) => sym::check(false, "an opened proof of the tree is merged"),
                }
            }
        }
        sym::check(enc(&a) == spec.block_bytes(k, false, false), "the block reveals its own and the opened protocols");
        // the full block
        let mut f = full.clone();
        sym::check(f.merge_reveal(a.clone()).is_ok(), "a part is merged into the full block");
        sym::check(f == full, "merging a part changes nothing");
        sym::check(a.merge_reveal(full).is_ok(), "the full block is merged into a part");
        sym::check(enc(&a) == spec.block_bytes(spec.mask(), true, false), "everything is revealed");
        sym::cover("end");
    }
    // blocks of a different commitment
    fn h_c08_unrelated() {
        let (spec, tree) = setup();
        let k1 = submask(spec.mask());
        let mut a = concealed(&spec, &tree, k1);
        // the same protocols in the same slots with other messages, or another entropy
        let mut slots = spec.slots.clone();
        for s in slots.iter_mut().flatten() {
            s.1 = sym::bytes();
        }
        let spec2 = Spec::new(spec.depth, spec.cof, sym::u64(), slots);
        let (c1, c2) = (spec.commitment(), spec2.commitment());
        let b = match block(&spec2.block_bytes(submask(spec.mask()), false, false)) {
            Some(b) => b,
            None => {
                sym::check(false, "the other block is deserialized");
                return;
            }
        };
        let before = enc(&a);
        let single = b.known_protocol_ids().count() == 1;
        let res = if single && sym::fork() {
            let p = b.known_protocol_ids().next().unwrap();
            let m = *b.to_known_message_map().get(&p).unwrap();
            let proof = match b.into_merkle_proof(p) {
                Ok(x) => x,
                Err(_) => {
                    sym::check(false, "the other block has a proof");
                    return;
                }
            };
            sym::cover("proof");
            a.merge_reveal_path(&proof, p, m)
        } else {
            a.merge_reveal(b)
        };
        match res {
            Ok(_) => {
                sym::check(c1 == c2, "merged only with the same commitment");
                sym::cover("same");
            }
            Err(MergeError::UnrelatedBlocks { base_root, merged_root }) => {
                sym::check(c1 != c2, "refused only with another commitment");
                sym::check(cid(&base_root) == c1 && cid(&merged_root) == c2, "the error names both commitments");
                sym::check(enc(&a) == before, "a refused merge leaves the base untouched");
                sym::cover("unrelated");
            }
            Err(_) => sym::check(false, "no other error"),
        }
    }
    // a tree of another depth or cofactor, an opened proof at a wrong slot
    fn h_c08_params() {
        let (spec, tree) = setup_full();
        let mut a = concealed(&spec, &tree, submask(spec.mask()));
        let before = enc(&a);
        if sym::fork() {
            let keep = submask(spec.mask());
            let mut bytes = spec.block_bytes(keep, false, false);
            let c = if keep == 0 { sym::u16() } else { [0, 1, 2, 3, 500][sym::choose(5) as usize] };
            // another cofactor
            bytes[2..4].copy_from_slice(&c.to_le_bytes());
            sym::assume(c != spec.cof);
            match block(&bytes) {
                Some(b) => {
                    let other = b.commit_id();
                    match a.merge_reveal(b) {
                        Err(MergeError::UnrelatedBlocks { base_root, merged_root }) => {
                            sym::check(cid(&base_root) == spec.commitment() && merged_root == other, "the error names both commitments");
                            sym::cover("cofactor");
                        }
                        _ => sym::check(false, "a block with another cofactor is unrelated"),
                    }
                }
                None => {
                    let mut moved = false;
                    for s in spec.occupied() {
                        if keep >> s & 1 == 1 {
                            moved = moved | (refs::slot(&spec.pid(s), spec.depth, c) != s as u32);
                        }
                    }
                    sym::check(moved, "a block with every protocol in its slot is deserialized");
                }
            }
        } else {
            // proof at a wrong slot
            let s = sym::choose(spec.width() as u32) as usize;
            let pos = sym::u32();
            if spec.slots[s].is_none() {
                sym::assume(false);
            }
            sym::assume(pos != s as u32);
            let proof = proof_with(pos, spec.cof, &spec.path(s));
            match a.merge_reveal_path(&proof, pid(&spec.pid(s)), msg(&spec.msg(s))) {
                Err(MergeError::InvalidProof(_)) => sym::cover("position"),
                _ => sym::check(false, "a proof at a wrong slot is refused"),
            }
        }
        sym::check(enc(&a) == before, "a refused merge leaves the base untouched");
    }

    // proofs and single-leaf blocks
    fn h_c09() {
        let (spec, tree) = setup();
        let k1 = submask(spec.mask());
        let b = concealed(&spec, &tree, k1);
        for s in spec.occupied() {
            let p = spec.pid(s);
            if k1 >> s & 1 == 0 {
                match b.to_merkle_proof(pid(&p)) {
                    Ok(_) => sym::check(false, "no proof of a concealed protocol"),
                    Err(_) => sym::cover("refused"),
                }
                continue;
            }
            let proof = proof_of(&b, &p);
            sym::check(enc(&proof) == spec.proof_bytes(s), "the proof is the path to the slot");
            sym::check(
                proof.pos() == s as u32
                    && proof.cofactor() == spec.cof
                    && proof.method() == b.method()
                    && proof.depth() == tree.depth()
                    && proof.width_limit() as usize == spec.width(),
                "position, cofactor, method and depth of the proof",
            );
            match MerkleBlock::with(&proof, pid(&p), msg(&spec.msg(s))) {
                Ok(x) => {
                    sym::check(enc(&x) == spec.block_bytes(1 << s, false, false), "the block of a proof is the concealed block");
                    let mut y = b.clone();
                    sym::check(y.conceal_other(pid(&p)).is_ok() && x == y, "the block of a proof equals the block with everything else concealed");
                }
                Err(_) => sym::check(false, "the block of a proof is built"),
            }
            sym::cover("proof");
        }
        match b.to_merkle_proof(pid(&absent(&spec))) {
            Ok(_) => sym::check(false, "no proof of an absent protocol"),
            Err(_) => sym::cover("end"),
        }
    }
    fn h_c09_full() {
        let (spec, tree) = setup();
        let full = MerkleBlock::from(&tree);
        for s in spec.occupied() {
            sym::check(enc(&proof_of(&full, &spec.pid(s))) == spec.proof_bytes(s), "the proof out of the full block is the path to the slot");
        }
        let k1 = submask(spec.mask());
        let k2 = submask(spec.mask() & !k1);
        let mut a = concealed(&spec, &tree, k1);
        sym::check(a.merge_reveal(concealed(&spec, &tree, k2)).is_ok(), "merged");
        for s in spec.occupied() {
            if (k1 | k2) >> s & 1 == 1 {
                sym::check(enc(&proof_of(&a, &spec.pid(s))) == spec.proof_bytes(s), "the proof out of a merged block is the path to the slot");
                sym::cover("merged");
            }
        }
        sym::cover("end");
    }

    // matching
    fn h_c27() {
        let (spec, tree) = setup();
        let mut slots = spec.slots.clone();
        let other = sym::choose(3);
        for s in slots.iter_mut().flatten() {
            if other == 1 {
                s.1 = sym::bytes();
            }
        }
        let spec2 = Spec::new(spec.depth, spec.cof, if other == 2 { sym::u64() } else { spec.entropy }, slots);
        let tree2 = tree_mode(&spec2, sym::arg(1));
        let same = spec.commitment() == spec2.commitment();
        sym::check(tree.matches(&tree2) == same, "trees match exactly when they have the same commitment");
        sym::check((tree == tree2) <= tree.matches(&tree2), "equal trees match");
        let a = concealed(&spec, &tree, submask(spec.mask()));
        let b = concealed(&spec2, &tree2, submask(spec2.mask()));
        sym::check(a.matches(&b) == same, "blocks match exactly when they have the same commitment");
        sym::cover(if same { "same" } else { "different" });
    }
    // trees and blocks differing in the cofactor only
    fn h_c27_params() {
        let depth = sym::arg(0) as u8;
        let (shape, _) = Shape::any(depth);
        let bytes = shape.bytes(false);
        let mut bytes2 = bytes.clone();
        // protocols keep their slots with some cofactors only
        let c = if shape.leaves.is_empty() { sym::u16() } else { sym::choose(4) as u16 };
        bytes2[2..4].copy_from_slice(&c.to_le_bytes());
        match (block(&bytes), block(&bytes2)) {
            (Some(a), Some(b)) => {
                let same = c == shape.cof;
                sym::check(a.matches(&b) == same, "blocks of different cofactors do not match");
                sym::cover(if same { "same" } else { "different" });
            }
            (Some(_), None) => {
                let mut moved = false;
                for (p, _) in &shape.leaves {
                    moved = moved | (refs::slot(p, depth, shape.cof) != refs::slot(p, depth, c));
                }
                sym::check(moved, "a block with every protocol in its slot is deserialized");
            }
            _ => sym::check(false, "blocks are deserialized"),
        }
    }
    // proofs
    fn h_c27_proof() {
        let (spec, tree) = setup_full();
        let full = MerkleBlock::from(&tree);
        let n = spec.occupied().len() as u32;
        let (s, t) = (sym::choose(n) as usize, sym::choose(n) as usize);
        let a = proof_of(&full, &spec.pid(s));
        let b = proof_of(&full, &spec.pid(t));
        let half = spec.width() / 2;
        if s == t {
            sym::check(a.matches(&b), "a proof matches itself");
        } else if (s < half) == (t < half) {
            sym::check(a.matches(&b), "proofs of one half of one tree match");
            sym::cover("one half");
        } else {
            sym::check(a.matches(&b), "proofs of different halves of one tree match");
        }
        // another cofactor
        let mut x = spec.proof_bytes(t);
        let c = sym::u16();
        sym::assume(c != spec.cof);
        x[5..7].copy_from_slice(&c.to_le_bytes());
        match dec::<MerkleProof>(&x) {
            Some(x) => sym::check(!a.matches(&x), "proofs of different cofactors do not match"),
            None => sym::check(false, "the proof is deserialized"),
        }
        sym::cover("end");
    }
    fn h_c27_proof2() {
        let depth = sym::arg(0) as u8;
        let width = 1u32 << depth;
        let (s, t) = (sym::choose(width) as usize, sym::choose(width) as usize);
        let mk = |s: usize| {
            let path: Vec<H> = (0..depth).map(|_| sym::bytes()).collect();
            let leaf: H = sym::bytes();
            let mut h = leaf;
            for d in (0..depth).rev() {
                let q = &path[d as usize];
                h = if s >> (depth - 1 - d) & 1 == 1 { refs::branch(d, 1 << depth, q, &h) } else { refs::branch(d, 1 << depth, &h, q) };
            }
            (proof_with(s as u32, 0, &path), h, path.first().copied())
        };
        let (a, ra, fa) = mk(s);
        let (b, rb, fb) = mk(t);
        if ra != rb {
            if depth == 0 {
                sym::check(!a.matches(&b), "proofs of different trees without a path do not match");
            } else if fa != fb {
                sym::check(!a.matches(&b), "proofs of different trees with different paths do not match");
                sym::cover("different");
            } else {
                sym::check(!a.matches(&b), "proofs of different trees with the same first path hash do not match");
            }
        }
        sym::cover("end");
    }

    // listings
    fn h_c28() {
        let (spec, tree) = setup();
        let id = tree.commit_id();
        let k1 = submask(spec.mask());
        let mut b = MerkleBlock::from(&tree);
        let concealed = sym::fork();
        let k = if concealed {
            conceal(&spec, &mut b, k1);
            k1
        } else {
            if k1 != 0 {
                sym::assume(false);
            }
            spec.mask()
        };
        let slots: Vec<usize> = spec.occupied().into_iter().filter(|s| k >> s & 1 == 1).collect();
        let find = |left: &[usize], p: &ProtocolId| left.iter().position(|s| pid(&spec.pid(*s)) == *p);
        let mut left = slots.clone();
        for p in b.known_protocol_ids() {
            match find(&left, &p) {
                Some(i) => drop(left.remove(i)),
                None => sym::check(false, "the known protocols are revealed, each is listed once"),
            }
        }
        sym::check(left.is_empty(), "every revealed protocol is known");
        let map = b.to_known_message_map();
        sym::check(map.len() == slots.len(), "the message map has one entry per revealed protocol");
        for s in &slots {
            sym::check(map.get(&pid(&spec.pid(*s))) == Some(&msg(&spec.msg(*s))), "the message map has the revealed messages");
        }
        let mut left = slots.clone();
        for (p, proof) in b.clone().into_known_proofs() {
            let Some(i) = find(&left, &p) else {
                sym::check(false, "the known proofs are those of revealed protocols, each is listed once");
                return;
            };
            let s = left.remove(i);
            match proof.convolve(p, msg(&spec.msg(s))) {
                Ok(c) => sym::check(c == id, "a known proof opens to the commitment of the block"),
                Err(_) => sym::check(false, "a known proof is accepted"),
            }
            sym::cover("proof");
        }
        sym::check(left.is_empty(), "every revealed protocol has a known proof");
        sym::cover("end");
    }
}
