//! C02, C03, C05, C16, C17: openings, slots, tree construction, untrusted data.
use amplify::confinement::Confined;
use amplify::num::u5;
use commit_verify::mpc::{Error, MerkleBlock, MerkleProof, MerkleTree, Message, Method, MultiSource, ProtocolId};
use commit_verify::{VerifyError, CommitId, Conceal, TryCommitVerify};

use crate::refs::{self, dec, enc, H};
use crate::spec::*;
use crate::{sym, tok};
use crate::tok::Tok;

/// Cofactors which make all moduli of a small tree (and some larger ones), or a few for deep trees.
fn any_cof(depth: u8) -> u16 {
    if depth <= 3 {
        let w = 1u16 << depth;
        let k = sym::choose(w as u32 + 2) as u16;
        if k <= w { k } else { 0xFFFF }
    } else {
        [0, 1, 3, 500, 0xFFFF][sym::choose(5) as usize]
    }
}
fn any_proof(depth: u8, cof: u16) -> (MerkleProof, u32, Vec<H>) {
    let pos = sym::u32();
    let path: Vec<H> = (0..depth).map(|_| sym::bytes()).collect();
    (proof_with(pos, cof, &path), pos, path)
}
fn no_panic_block(b: &MerkleBlock) {
    let _ = b.commit_id();
    let _ = b.conceal();
    let _ = b.width_limit();
    let _ = b.factored_width();
    let _ = b.protocol_id_pos(ProtocolId::from([7u8; 32]));
    let ids: Vec<ProtocolId> = b.known_protocol_ids().collect();
    let _ = b.to_known_message_map();
    for p in &ids {
        let _ = b.to_merkle_proof(*p);
    }
    let _ = b.clone().into_known_proofs().count();
}

/// Serialized block of `n` nodes with any content.
/// `free`: any depth byte of a node, otherwise those up to one more than that of the tree.
fn any_block(depth: u8, cof: u16, n: u32, free: bool) -> Vec<u8> {
    let mut v = vec![0, depth];
    v.extend_from_slice(&cof.to_le_bytes());
    v.extend_from_slice(&n.to_le_bytes());
    for _ in 0..n {
        if sym::fork() {
            v.push(1);
            v.extend_from_slice(&sym::bytes::<64>());
        } else {
            v.push(0);
            v.push(if free { sym::byte() } else { sym::choose(depth as u32 + 2) as u8 });
            v.extend_from_slice(&sym::bytes::<32>());
        }
    }
    v.push(0);
    v
}

/// The list of nodes within the tokens of a block.
fn nodes_of(t: &mut Tok) -> Option<&mut Vec<Tok>> {
    let seq = |t: &Tok| matches!(t, Tok::Seq(s) if matches!(s.first(), Some(Tok::Variant(..))));
    match t {
        Tok::Struct(f) => f.iter_mut().map(|x| &mut x.1).find(|t| seq(t)).and_then(|t| if let Tok::Seq(s) = t { Some(s) } else { None }),
        _ => None,
    }
}
/// Replaces all numbers by any.
fn any_numbers(t: &mut Tok) {
    match t {
        Tok::U(v, w) => {
            *v = match *w {
                1 => sym::byte() as u64,
                2 => sym::u16() as u64,
                4 => sym::u32() as u64,
                _ => sym::u64(),
            }
        }
        Tok::Bytes(b) => sym::fill(b),
        Tok::Some(t) | Tok::Variant(_, _, t) => any_numbers(t),
        Tok::Seq(s) => s.iter_mut().for_each(any_numbers),
        Tok::Map(s) => s.iter_mut().for_each(|x| any_numbers(&mut x.1)),
        Tok::Struct(s) => s.iter_mut().for_each(|x| any_numbers(&mut x.1)),
        _ => {}
    }
}
/// A block received through serde: `n` nodes with any content.
fn any_serde_block(depth: u8, cof: u16, n: u32) -> Option<MerkleBlock> {
    // prototypes of nodes
    let mut proto = vec![];
    for leaf in [false, true] {
        let mut v = vec![0, 0, 0, 0, 1, 0, 0, 0, leaf as u8];
        v.extend_from_slice(&[0; 64][..if leaf { 64 } else { 33 }]);
        v.push(0);
        let mut t = tok::to(&block(&v)?, sym::arg(3))?;
        proto.push(nodes_of(&mut t)?[0].clone());
    }
    let mut v = vec![0, depth];
    v.extend_from_slice(&cof.to_le_bytes());
    v.extend_from_slice(&[1, 0, 0, 0, 0, 0]);
    v.extend_from_slice(&[0; 32]);
    v.push(0);
    let mut t = tok::to(&block(&v)?, sym::arg(3))?;
    let list = nodes_of(&mut t)?;
    list.clear();
    for _ in 0..n {
        let mut x = proto[sym::choose(2) as usize].clone();
        any_numbers(&mut x);
        list.push(x);
    }
    sym::cover("made");
    tok::from(t, sym::arg(3))
}

/// Sorted distinct ids with `bits` symbolic bits: the lowest ones (place 0), or half of them in the
/// first byte and the other half in byte `place`.
fn any_pids(n: usize, bits: u32, place: usize) -> Vec<H> {
    let mut pids = Vec::<H>::new();
    for i in 0..n {
        let mut p = [0u8; 32];
        let v = sym::u16() & ((1u32 << bits) - 1) as u16;
        if place == 0 {
            p[..2].copy_from_slice(&v.to_le_bytes());
        } else {
            let low = bits / 2;
            p[0] = (v & ((1u16 << low) - 1)) as u8;
            p[place] = (v >> low) as u8;
        }
        // sorted, which is no restriction: the source is a map
        if i > 0 {
            sym::assume(pids[i - 1] < p);
        }
        if place > 0 {
            // remainders of wide numbers are constants then
            p[0] = sym::concretize(p[0] as u64) as u8;
            p[place] = sym::concretize(p[place] as u64) as u8;
        }
        pids.push(p);
    }
    pids
}

/// Ids for which every size before the given one has a collision: pairs which differ by a multiple of many
/// moduli. The last one is on its own.
fn ids_for(min: u8, depth: u8, cof: u16) -> Vec<H> {
    let target = (1u64 << depth) - cof as u64;
    let mut moduli = vec![];
    let (mut d, mut before) = (min, 1u64);
    'all: loop {
        for c in 0..=before.min(500) {
            if (d, c) == (depth, cof as u64) {
                break 'all;
            }
            moduli.push((1u64 << d) - c);
        }
        before = 1 << d;
        d += 1;
        if d > depth {
            break;
        }
    }
    let gcd = |mut a: u64, mut b: u64| {
        while b > 0 {
            (a, b) = (b, a % b);
        }
        a
    };
    let le = |x: &[u64; 4]| {
        let mut p = [0u8; 32];
        for k in 0..4 {
            p[k * 8..k * 8 + 8].copy_from_slice(&x[k].to_le_bytes());
        }
        p
    };
    let mut taken = vec![false; target as usize];
    let mut out = vec![];
    let mut start = 0u64;
    // the next number which has, as well as its sum with the offset, a free slot
    let mut place = |off: &[u64; 4], out: &mut Vec<H>| {
        for _ in 0..10_000 {
            start += 1;
            let (a, b) = (le(&[start, 0, 0, 0]), le(&[off[0].wrapping_add(start), off[1], off[2], off[3]]));
            let (s, t) = (refs::slot(&a, depth, cof) as usize, refs::slot(&b, depth, cof) as usize);
            if taken[s] || taken[t] || t == s || off[0] > u64::MAX - start {
                continue;
            }
            (taken[s], taken[t]) = (true, true);
            out.push(a);
            out.push(b);
            return;
        }
        sym::assume(false);
    };
    let mut x = [1u64, 0, 0, 0];
    for m in moduli.iter().rev() {
        let f = m / gcd(*m, refs::slot_of(&le(&x), *m));
        let (mut y, mut carry) = ([0u64; 4], 0u128);
        for k in 0..4 {
            let v = x[k] as u128 * f as u128 + carry;
            y[k] = v as u64;
            carry = v >> 64;
        }
        if carry > 0 || y[3] >> 58 > 0 || refs::slot_of(&le(&y), target) == 0 {
            place(&x, &mut out);
            x = [*m, 0, 0, 0];
        } else {
            x = y;
        }
    }
    if x != [1, 0, 0, 0] {
        place(&x, &mut out);
    }
    let mut alone = [0u8; 32];
    alone[..3].fill(0xFF);
    out.push(alone);
    out
}

/// All messages of a tree open.
fn all_open(tree: MerkleTree, pids: &[H], msgs: &[H]) {
    let id = tree.commit_id();
    let block = MerkleBlock::from(&tree);
    sym::check(block.commit_id() == id, "the block has the commitment of the tree");
    for (p, m) in pids.iter().zip(msgs) {
        let Ok(proof) = block.to_merkle_proof(pid(p)) else {
            sym::check(false, "every message has a proof");
            return;
        };
        match proof.convolve(pid(p), msg(m)) {
            Ok(x) => sym::check(x == id, "the proof of a protocol opens to the commitment of the tree"),
            Err(_) => sym::check(false, "the proof of a protocol is accepted"),
        }
        sym::check(tree.protocol_id_pos(pid(p)) == proof.pos(), "the proof is for the slot of the protocol");
    }
    let mut count = 0;
    for (p, proof) in tree.into_proofs() {
        let Some(k) = pids.iter().position(|q| pid(q) == p) else {
            sym::check(false, "the tree gives the proofs of its protocols");
            return;
        };
        count += 1;
        match proof.convolve(p, msg(&msgs[k])) {
            Ok(x) => sym::check(x == id, "a proof out of the tree opens to the commitment of the tree"),
            Err(_) => sym::check(false, "a proof out of the tree is accepted"),
        }
    }
    sym::check(count == pids.len(), "the tree gives one proof per message");
}

harnesses! {
    // trees with a cofactor, any ids which need it: arguments are the number of messages, the depth and
    // cofactor to come out and the minimal depth
    fn h_c05_cofactor() {
        let (n, depth, cof, min) = (sym::arg(0) as usize, sym::arg(1) as u8, sym::arg(2) as u16, sym::arg(3) as u8);
        let low = sym::choose(2) as u8 * 0xFF;
        let pids: Vec<H> = (0..n as u8)
            .map(|i| {
                // all collide for powers of two
                let mut p = [0x3Cu8; 32];
                if sym::arg(4) == 0 {
                    p = sym::bytes();
                } else {
                    for k in [2, 17, 31] {
                        p[k] = sym::byte();
                    }
                }
                p[..2].copy_from_slice(&[low, i]);
                p
            })
            .collect();
        let mut d = min;
        loop {
            let (until, target) = if d == depth { (cof, true) } else { ((1u16 << d) / 2 , false) };
            let until = if d == min && !target { 1 } else { until };
            for c in 1..=until {
                let m = (1u32 << d) - c as u32;
                if target && c == cof {
                    break;
                }
                let r = sym::choose(m);
                for p in &pids {
                    sym::assume(refs::slot(p, d, c) == r);
                }
            }
            if target {
                break;
            }
            d += 1;
        }
        let m = (1u32 << depth) - cof as u32;
        let mut slots = Vec::<u32>::new();
        for p in &pids {
            let s = sym::choose(m);
            if slots.contains(&s) {
                sym::assume(false);
            }
            sym::assume(refs::slot(p, depth, cof) == s);
            slots.push(s);
        }
        let msgs: Vec<H> = (0..n).map(|_| sym::bytes()).collect();
        let messages = Confined::try_from_iter(pids.iter().zip(&msgs).map(|(p, m)| (pid(p), msg(m)))).unwrap();
        let entropy = sym::u64();
        let source = MultiSource { method: Method::Sha256t, min_depth: u5::with(min), messages, static_entropy: Some(entropy) };
        let Ok(tree) = MerkleTree::try_commit(&source) else {
            sym::check(false, "few messages are committed");
            return;
        };
        let mut b = vec![0, depth];
        b.extend_from_slice(&entropy.to_le_bytes());
        b.extend_from_slice(&cof.to_le_bytes());
        b.extend_from_slice(&[n as u8, 0, 0]);
        for i in 0..n {
            b.extend_from_slice(&pids[i]);
            b.extend_from_slice(&msgs[i]);
        }
        b.extend_from_slice(&[n as u8, 0, 0]);
        for s in 0..m {
            if let Some(i) = slots.iter().position(|x| *x == s) {
                b.extend_from_slice(&s.to_le_bytes());
                b.extend_from_slice(&pids[i]);
                b.extend_from_slice(&msgs[i]);
            }
        }
        sym::check(enc(&tree) == b, "the tree has the least depth and cofactor and every message in its slot");
        sym::cover("built");
        all_open(tree, &pids, &msgs);
        sym::cover("end");
    }

    // every committed message opens, whatever the ids (sets of ids which need a cofactor included)
    fn h_c01_commit() {
        let (n, bits, min) = (sym::arg(0) as usize, sym::arg(1) as u32, sym::arg(2) as u8);
        let pids = any_pids(n, bits, sym::arg(3) as usize);
        let msgs: Vec<H> = (0..n).map(|_| sym::bytes()).collect();
        let messages = Confined::try_from_iter(pids.iter().zip(&msgs).map(|(p, m)| (pid(p), msg(m)))).unwrap();
        let source = MultiSource { method: Method::Sha256t, min_depth: u5::with(min), messages, static_entropy: Some(sym::u64()) };
        let Ok(tree) = MerkleTree::try_commit(&source) else {
            sym::check(false, "few messages are committed");
            return;
        };
        sym::cover(if tree.cofactor() > 0 { "cofactor" } else if tree.depth().to_u8() > min { "deeper" } else { "first" });
        all_open(tree, &pids, &msgs);
        sym::cover("end");
    }

    // two proofs of one protocol
    fn h_c02() {
        let (d1, d2) = (sym::arg(0) as u8, sym::arg(1) as u8);
        let (c1, c2) = (any_cof(d1), any_cof(d2));
        let p = sym::bytes();
        let (m1, m2): (H, H) = (sym::bytes(), sym::bytes());
        let (a, _, _) = any_proof(d1, c1);
        let (b, _, _) = any_proof(d2, c2);
        match (a.convolve(pid(&p), msg(&m1)), b.convolve(pid(&p), msg(&m2))) {
            (Ok(x), Ok(y)) => {
                sym::check(x != y || m1 == m2, "two messages of one protocol never have the same commitment");
                sym::check(x != y || a == b, "two proofs giving the same commitment for a protocol are the same");
                sym::check(x != y || (d1 == d2 && c1 == c2), "the commitment binds depth and cofactor");
                sym::cover("both");
            }
            _ => sym::cover("refused"),
        }
    }
    // crafted proofs against a tree
    fn h_c02_tree() {
        let (depth, mode, cof) = (sym::arg(0) as u8, sym::arg(1), sym::arg(2) as u16);
        let spec = spec_mode(depth, mode, cof);
        let tree = tree_mode(&spec, mode);
        let id = tree.commit_id();
        let d = sym::choose(depth as u32 + 2) as u8;
        let c = [cof, cof ^ 1][sym::choose(2) as usize];
        let (p, m) = (sym::bytes::<32>(), sym::bytes::<32>());
        let (proof, ..) = any_proof(d, c);
        match proof.convolve(pid(&p), msg(&m)) {
            Ok(x) => {
                let mut held = false;
                for s in spec.occupied() {
                    held = held | ((spec.pid(s) == p) & (spec.msg(s) == m));
                }
                sym::check(x != id || held, "the commitment of a tree opens to messages of the tree only");
                sym::cover("accepted");
            }
            Err(_) => sym::cover("refused"),
        }
    }

    // acceptance by position, for any position and path
    fn h_c03() {
        let depth = sym::arg(0) as u8;
        let cof = any_cof(depth);
        let (proof, pos, _) = any_proof(depth, cof);
        let p = sym::bytes();
        let m = sym::bytes();
        let slot = refs::slot(&p, depth, cof);
        sym::check((slot as u64) < (1u64 << depth), "the slot is smaller than the width");
        let how = sym::choose(3);
        let ok = match how {
            0 => proof.convolve(pid(&p), msg(&m)).map(|_| ()),
            1 => MerkleBlock::with(&proof, pid(&p), msg(&m)).map(|_| ()),
            _ => {
                let Some(mut b) = block(&Spec::new(0, 0, 0, vec![None]).block_bytes(0, false, false)) else { return };
                match b.merge_reveal_path(&proof, pid(&p), msg(&m)) {
                    Ok(_) => Ok(()),
                    Err(commit_verify::mpc::MergeError::InvalidProof(e)) => Err(e),
                    Err(_) => Ok(()),
                }
            }
        };
        match ok {
            Ok(()) => {
                sym::check(pos == slot, "accepted only at the slot of the protocol");
                sym::cover("accepted");
            }
            Err(e) => {
                sym::check(pos != slot, "refused only at a slot which is not that of the protocol");
                let Some(t) = tok::to(&e, 1) else {
                    sym::check(false, "the error is serializable");
                    return;
                };
                sym::check(tok::field(&t, "protocolId").and_then(tok::raw) == Some(p.to_vec()), "the error names the protocol");
                sym::check(tok::num(tok::field(&t, "expected")) == Some(slot as u64), "the error names the expected position");
                sym::check(tok::num(tok::field(&t, "actual")) == Some(pos as u64), "the error names the actual position");
                sym::check(tok::num(tok::field(&t, "width")) == Some(1u64 << depth), "the error names the width");
                sym::cover("refused");
            }
        }
    }
    // deep proofs: constant position on the accepting side
    fn h_c03_deep() {
        let depth = sym::arg(0) as u8;
        let cof = sym::arg(1) as u16;
        let all = ((1u64 << depth) - 1) as u32;
        let at = [0, 1, all >> 1, all & !1, all, all.wrapping_sub(cof as u32)][sym::choose(6) as usize];
        let p = sym::bytes();
        let slot = refs::slot(&p, depth, cof);
        let path: Vec<H> = (0..depth).map(|_| sym::bytes()).collect();
        let pos = if sym::fork() {
            sym::assume(slot == at);
            at
        } else {
            let x = sym::u32();
            sym::assume(slot != x);
            x
        };
        let proof = proof_with(pos, cof, &path);
        match proof.convolve(pid(&p), Message::from([9u8; 32])) {
            Ok(_) => {
                sym::check(pos == slot, "accepted only at the slot of the protocol");
                sym::cover("accepted");
            }
            Err(e) => {
                sym::check(pos != slot, "refused only at a slot which is not that of the protocol");
                let Some(t) = tok::to(&e, 1) else { return };
                sym::check(tok::num(tok::field(&t, "expected")) == Some(slot as u64), "the error names the expected position");
                sym::check(tok::num(tok::field(&t, "actual")) == Some(pos as u64), "the error names the actual position");
                sym::check(tok::num(tok::field(&t, "width")) == Some(1u64 << depth), "the error names the width");
                sym::cover("refused");
            }
        }
    }
    // trees and blocks ask for the same slot
    fn h_c03_same() {
        let depth = sym::choose(32) as u8;
        let cof = if sym::arg(0) == 1 { sym::u16() } else { any_cof(depth) };
        let mut t = vec![0, depth];
        t.extend_from_slice(&sym::bytes::<8>());
        t.extend_from_slice(&cof.to_le_bytes());
        t.extend_from_slice(&[0; 6]);
        let mut b = vec![0, depth];
        b.extend_from_slice(&cof.to_le_bytes());
        b.extend_from_slice(&[1, 0, 0, 0, 0, 0]);
        b.extend_from_slice(&sym::bytes::<32>());
        b.push(0);
        let (Some(t), Some(b)) = (dec::<MerkleTree>(&t), block(&b)) else {
            sym::check(false, "trees and blocks of any depth and cofactor are deserialized");
            return;
        };
        let p = sym::bytes();
        let slot = refs::slot(&p, depth, cof);
        let x = t.protocol_id_pos(pid(&p));
        sym::check(x == slot, "the slot in a tree is the id modulo the factored width");
        sym::check(b.protocol_id_pos(pid(&p)) == slot, "the slot in a block is the id modulo the factored width");
        if sym::arg(0) == 0 {
            sym::check((x as u64) < (1u64 << depth), "the slot is smaller than the width");
        }
        sym::check(t.width_limit() as u64 == 1u64 << depth && b.width_limit() as u64 == 1u64 << depth, "the width is two to the depth");
        sym::cover("end");
    }

    // where the sizes end. Argument: set of pairs of ids which share a slot
    fn h_c05_limit() {
        let kind = sym::arg(0);
        let w = 1u64 << 31;
        let min = if kind < 3 { 31 } else { 30 };
        let w0 = vec![1u64 << 30, (1u64 << 30) - 1];
        let upto = |n: u64| (0..n).map(|c| w - c).collect::<Vec<u64>>();
        let chunks = |n: u64| upto(n).chunks(8).map(|c| c.to_vec()).collect::<Vec<_>>();
        // the differences within pairs, as products
        let pairs: Vec<Vec<u64>> = match kind {
            0 => vec![upto(2)],
            1 => vec![upto(1)],
            2 => vec![vec![w - 1]],
            3 => vec![[w0, vec![2]].concat()],
            4 => vec![w0, upto(7)],
            5 => [vec![w0], chunks(501)].concat(),
            _ => [vec![w0], chunks(500)].concat(),
        };
        let mut pids: Vec<H> = vec![];
        for (k, factors) in pairs.iter().enumerate() {
            let (mut a, mut b) = ([0u8; 32], [0u8; 32]);
            b[0] = 1;
            for f in factors {
                let mut carry = 0u64;
                for x in b.iter_mut() {
                    let v = *x as u64 * f + carry;
                    *x = v as u8;
                    carry = v >> 8;
                }
            }
            a[31] = k as u8 + 1;
            b[31] = b[31].wrapping_add(a[31]);
            pids.push(a);
            pids.push(b);
        }
        let mut free = [0u8; 32];
        free[9] = sym::byte() & 3;
        pids.push(free);
        let n = pids.len();
        pids.sort();
        let msgs: Vec<H> = (0..n).map(|_| sym::bytes()).collect();
        let mut want = None;
        let mut d = min;
        'all: while d <= 31 {
            for c in 0..=if d == min { 1 } else { 500 } {
                let mut slots = std::collections::BTreeSet::new();
                let mut ok = true;
                for p in &pids {
                    if !slots.insert(sym::concretize(refs::slot(p, d, c) as u64)) {
                        ok = false;
                        break;
                    }
                }
                if ok {
                    want = Some((d, c));
                    break 'all;
                }
            }
            d += 1;
        }
        let messages = Confined::try_from_iter(pids.iter().zip(&msgs).map(|(p, m)| (pid(p), msg(m)))).unwrap();
        let source = MultiSource { method: Method::Sha256t, min_depth: u5::with(min), messages, static_entropy: Some(sym::u64()) };
        match (MerkleTree::try_commit(&source), want) {
            (Err(e), None) => {
                sym::check(e == Error::CantFitInMaxSlots(n), "refused where no size fits");
                sym::cover("refused");
            }
            (Ok(t), Some((d, c))) => {
                sym::check(t.depth().to_u8() == d && t.cofactor() == c, "the tree has the least depth and cofactor");
                sym::cover("built");
            }
            (Err(_), Some(_)) => sym::check(false, "committed where a size fits"),
            (Ok(_), None) => sym::check(false, "refused where no size fits"),
        }
        sym::cover("end");
    }
    // tree construction
    fn h_c05() {
        let (n, bits, min) = (sym::arg(0) as usize, sym::arg(1) as u32, sym::arg(2) as u8);
        let pids = any_pids(n, bits, sym::arg(3) as usize);
        let msgs: Vec<H> = (0..n).map(|_| sym::bytes()).collect();
        let messages = Confined::try_from_iter(pids.iter().zip(&msgs).map(|(p, m)| (pid(p), msg(m)))).unwrap();
        let entropy = if sym::fork() { Some(sym::u64()) } else { None };
        let source = MultiSource { method: Method::Sha256t, min_depth: u5::with(min), messages, static_entropy: entropy };
        let tree = match MerkleTree::try_commit(&source) {
            Err(e) => {
                sym::check(n == 0 && min == 0 && e == Error::Empty, "fails only for nothing to commit to");
                sym::cover("empty");
                return;
            }
            Ok(t) => t,
        };
        sym::check(n > 0 || min > 0, "nothing to commit to is refused");
        let (depth, cof) = (sym::concretize(tree.depth().to_u8() as u64) as u8, sym::concretize(tree.cofactor() as u64) as u16);
        // smaller sizes have collisions
        let mut d = min;
        let mut before = 1u32;
        'all: loop {
            let width = 1u32 << d;
            for c in 0..=before.min(500) as u16 {
                if (d, c) == (depth, cof) {
                    break 'all;
                }
                let mut collision = false;
                for i in 0..n {
                    for j in 0..i {
                        collision = collision | (refs::slot(&pids[i], d, c) == refs::slot(&pids[j], d, c));
                    }
                }
                sym::check(collision, "every smaller depth or cofactor has two protocols in one slot");
            }
            before = width;
            d += 1;
            if d > 31 {
                sym::check(false, "depth and cofactor are among those allowed");
                return;
            }
        }
        sym::cover(if depth > min { "deeper" } else if cof > 0 { "cofactor" } else { "first" });
        // contents
        if let Some(e) = entropy {
            sym::check(tree.entropy() == e, "the tree has the requested entropy");
        }
        let b = enc(&tree);
        let mut head = vec![0, depth];
        head.extend_from_slice(&tree.entropy().to_le_bytes());
        head.extend_from_slice(&cof.to_le_bytes());
        head.extend_from_slice(&[n as u8, 0, 0]);
        for i in 0..n {
            head.extend_from_slice(&pids[i]);
            head.extend_from_slice(&msgs[i]);
        }
        head.extend_from_slice(&[n as u8, 0, 0]);
        let ok = b.len() == head.len() + n * 68 && b[..head.len()] == head[..];
        sym::check(ok, "the tree has the parameters and all messages");
        if !ok {
            return;
        }
        for i in 0..n {
            let slot = refs::slot(&pids[i], depth, cof);
            let mut placed = false;
            for j in 0..n {
                let e = &b[head.len() + j * 68..][..68];
                let mut w = [0u8; 68];
                w[..4].copy_from_slice(&slot.to_le_bytes());
                w[4..36].copy_from_slice(&pids[i]);
                w[36..].copy_from_slice(&msgs[i]);
                placed = placed | (*e == w[..]);
                if j < i {
                    sym::check(refs::slot(&pids[j], depth, cof) != slot, "no two protocols share a slot");
                }
            }
            sym::check(placed, "every message is in the slot of its protocol");
        }
        // again
        match MerkleTree::try_commit(&source) {
            Ok(t2) => {
                let mut b2 = enc(&t2);
                if entropy.is_none() && b2.len() == b.len() {
                    b2[2..10].copy_from_slice(&b[2..10]);
                }
                sym::check(b2 == b, "building again gives the same tree, except for random entropy");
            }
            Err(_) => sym::check(false, "building again succeeds"),
        }
        sym::cover("end");
    }
    // many messages: ids are pseudo-random but for some bits of one of them; arguments are the number of
    // messages, seed, minimal depth, number of free bits, whose they are. With seed zero the ids are made
    // for the depth and cofactor given as further arguments.
    fn h_c05_many() {
        let (mut n, min, bits, mut free) = (sym::arg(0) as usize, sym::arg(2) as u8, sym::arg(3) as u32, sym::arg(4) as usize);
        let mut x = sym::arg(1);
        let mut next = || {
            // splitmix64
            x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
            let mut z = x;
            z = (z ^ z >> 30).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            z = (z ^ z >> 27).wrapping_mul(0x94D0_49BB_1331_11EB);
            z ^ z >> 31
        };
        let mut pids: Vec<H> = (0..n)
            .map(|_| {
                let mut p = [0u8; 32];
                for k in 0..4 {
                    p[k * 8..k * 8 + 8].copy_from_slice(&next().to_le_bytes());
                }
                p
            })
            .collect();
        if sym::arg(1) == 0 {
            pids = ids_for(min, sym::arg(5) as u8, sym::arg(6) as u16);
            n = pids.len();
            free = n - 1;
        }
        pids.sort();
        let open = sym::u16() & ((1u32 << bits) - 1) as u16;
        let [a, b] = open.to_le_bytes();
        pids[free][9] = a;
        pids[free][31] = b;
        // the sizes in order: the least one without collision
        let (mut d, mut before) = (min, 1u32);
        let mut taken = vec![0u32; 1];
        let mut round = 0u32;
        let (depth, cof) = 'all: loop {
            let width = 1u32 << d;
            if width >= n as u32 {
                taken.resize(width as usize, 0);
                for c in 0..=before.min(500) as u16 {
                    round += 1;
                    let mut slots = Vec::with_capacity(n);
                    let mut ok = true;
                    for (i, p) in pids.iter().enumerate() {
                        if i != free {
                            let s = refs::slot(p, d, c);
                            ok = taken[s as usize] != round;
                            if !ok {
                                break;
                            }
                            taken[s as usize] = round;
                            slots.push(s);
                        }
                    }
                    if !ok {
                        continue;
                    }
                    let s = refs::slot(&pids[free], d, c);
                    let mut hit = false;
                    for t in &slots {
                        hit = hit | (*t == s);
                    }
                    if !hit {
                        break 'all (d, c);
                    }
                }
            }
            before = width;
            d += 1;
            if d > 20 {
                sym::assume(false);
            }
        };
        if sym::arg(1) == 0 && (depth, cof as u64) == (sym::arg(5) as u8, sym::arg(6)) {
            sym::cover("target");
        }
        let msgs: Vec<H> = (0..n).map(|_| sym::bytes()).collect();
        let messages = Confined::try_from_iter(pids.iter().zip(&msgs).map(|(p, m)| (pid(p), msg(m)))).unwrap();
        let entropy = sym::u64();
        let source = MultiSource { method: Method::Sha256t, min_depth: u5::with(min), messages, static_entropy: Some(entropy) };
        let Ok(tree) = MerkleTree::try_commit(&source) else {
            sym::check(false, "few messages are committed");
            return;
        };
        sym::observe(&[depth, cof as u8, (cof >> 8) as u8]);
        sym::check(tree.depth().to_u8() == depth && tree.cofactor() == cof, "the tree has the least depth and cofactor");
        let mut head = vec![0, depth];
        head.extend_from_slice(&entropy.to_le_bytes());
        head.extend_from_slice(&cof.to_le_bytes());
        head.extend_from_slice(&[n as u8, 0, 0]);
        for i in 0..n {
            head.extend_from_slice(&pids[i]);
            head.extend_from_slice(&msgs[i]);
        }
        head.extend_from_slice(&[n as u8, 0, 0]);
        let mut order: Vec<(u32, usize)> = (0..n).map(|i| (sym::concretize(refs::slot(&pids[i], depth, cof) as u64) as u32, i)).collect();
        order.sort();
        for (s, i) in order {
            head.extend_from_slice(&s.to_le_bytes());
            head.extend_from_slice(&pids[i]);
            head.extend_from_slice(&msgs[i]);
        }
        sym::check(enc(&tree) == head, "the tree has the parameters and every message in its slot");
        sym::cover("end");
    }
    // C18: a tree as the commitment of its messages. Arguments: depth, occupancy
    fn h_c18_tree() {
        let (depth, mask) = (sym::arg(0) as u8, sym::arg(1) as u32);
        let spec = spec_plain(depth, mask, 0);
        let tree = commit(&spec);
        let mut src = source(&spec);
        let mut want = true;
        let some = spec.occupied();
        match sym::choose(6) {
            0 => {}
            1 => {
                let e = sym::u64();
                src.static_entropy = Some(e);
                want = e == spec.entropy;
            }
            2 => {
                src.min_depth = u5::with(depth + 1);
                want = false;
            }
            3 => {
                let s = some[some.len() / 2];
                let m: H = sym::bytes();
                want = m == spec.msg(s);
                let all = src.messages.iter().map(|(k, v)| (*k, if *k == pid(&spec.pid(s)) { msg(&m) } else { *v }));
                src.messages = Confined::try_from_iter(all).unwrap();
            }
            4 => {
                // the smaller depth may do
                src.messages = Confined::try_from_iter(src.messages.iter().skip(1).map(|(k, v)| (*k, *v))).unwrap();
                want = false;
            }
            _ => {
                src.min_depth = u5::ZERO;
                src.messages = Default::default();
                sym::check(tree.verify(&src) == Err(VerifyError::InvalidMessage), "messages which can't be committed to are invalid");
                sym::cover("message");
                return;
            }
        }
        let r = tree.verify(&src);
        sym::check(r == if want { Ok(()) } else { Err(VerifyError::InvalidCommitment) }, "a tree verifies exactly the messages it is made of");
        sym::cover(if want { "ok" } else { "mismatch" });
    }
    // random entropy is not constant: both halves of the drawn number reach the tree
    fn h_c05_entropy() {
        let source = MultiSource { min_depth: u5::with(sym::arg(0) as u8), ..MultiSource::default() };
        match (MerkleTree::try_commit(&source), MerkleTree::try_commit(&source)) {
            (Ok(a), Ok(b)) => {
                let want = sym::u64();
                sym::cover("end");
                if a.entropy() == want && b.entropy() != want {
                    sym::cover("drawn");
                }
            }
            _ => sym::check(false, "an empty tree of the minimal depth is built"),
        }
    }

    // verifying an untrusted proof
    // a proof received through serde; argument 1: format
    fn h_c16_serde() {
        let n = sym::arg(0) as usize;
        let tokens = || -> Option<Tok> {
            let mut t = tok::to(&proof_with(0, 0, &[[0; 32]]), sym::arg(1))?;
            any_numbers(&mut t);
            let Tok::Struct(f) = &mut t else { return None };
            let path = f.iter_mut().find_map(|x| if let Tok::Seq(s) = &mut x.1 { Some(s) } else { None })?;
            let one = path.pop()?;
            for _ in 0..n {
                let mut x = one.clone();
                any_numbers(&mut x);
                path.push(x);
            }
            Some(t)
        };
        let Some(t) = tokens() else {
            sym::check(false, "a proof has a serde representation");
            return;
        };
        let Some(proof) = tok::from::<MerkleProof>(t, sym::arg(1)) else {
            sym::cover("refused");
            return;
        };
        sym::cover("decoded");
        let (pos, cof) = (proof.pos(), proof.cofactor());
        let _ = proof.factored_width();
        let _ = proof.merkle_root();
        let p = sym::bytes();
        let m = Message::from(sym::bytes::<32>());
        sym::assume(cof == if sym::fork() && n < 16 { 0xFFFF } else { 0 });
        let len = n.min(31) as u8;
        if sym::fork() {
            sym::assume(pos == 5 & ((1u64 << len) - 1) as u32);
        } else {
            sym::assume(pos != refs::slot(&p, len, cof));
        }
        if proof.convolve(pid(&p), m).is_ok() {
            sym::cover("accepted");
        }
        if let Ok(b) = MerkleBlock::with(&proof, pid(&p), m) {
            no_panic_block(&b);
        }
        sym::cover("end");
    }
    fn h_c16() {
        let len = sym::arg(0) as u8;
        let pos = sym::u32();
        let cof = if sym::arg(1) == 1 { sym::u16() } else { any_cof(len.min(31)) };
        let mut v = vec![0];
        v.extend_from_slice(&pos.to_le_bytes());
        v.extend_from_slice(&cof.to_le_bytes());
        v.push(len);
        for _ in 0..len {
            v.extend_from_slice(&sym::bytes::<32>());
        }
        let Some(proof) = dec::<MerkleProof>(&v) else {
            sym::cover("undecodable");
            return;
        };
        sym::cover("decoded");
        if sym::arg(1) == 1 {
            let _ = proof.depth();
            let _ = proof.width_limit();
            let _ = proof.factored_width();
            let _ = proof.merkle_root();
            let _ = proof.to_path();
            let _ = proof.as_path().len();
            sym::cover("end");
            return;
        }
        let p = sym::bytes();
        if sym::arg(2) == 1 {
            // a deep path: the position is not split upon
            let at = [0, 0xFFFF_FFFF, 0x7FFF_FFFE, 0x5555_5555][sym::choose(4) as usize] & ((1u64 << len.min(31)) - 1) as u32;
            if sym::fork() {
                sym::assume(pos == at);
            } else {
                sym::assume(pos != refs::slot(&p, len.min(31), cof));
            }
        }
        let m = Message::from(sym::bytes::<32>());
        match sym::choose(3) {
            0 => {
                if proof.convolve(pid(&p), m).is_ok() {
                    sym::cover("accepted");
                }
            }
            1 => {
                if let Ok(b) = MerkleBlock::with(&proof, pid(&p), m) {
                    no_panic_block(&b);
                    sym::cover("block");
                }
            }
            _ => {
                let spec = spec_plain(1, 3, 0);
                let mut b = MerkleBlock::from(&commit(&spec));
                let _ = b.conceal_other(pid(&spec.pid(0)));
                if b.merge_reveal_path(&proof, pid(&p), m).is_ok() {
                    sym::cover("merged");
                }
            }
        }
        sym::cover("end");
    }

    // untrusted blocks
    fn h_c17() {
        let (depth, cof, n) = (sym::arg(0) as u8, sym::arg(1) as u16, sym::arg(2) as u32);
        let Some(b) = block(&any_block(depth, cof, n, sym::arg(3) == 0)) else {
            sym::cover("undecodable");
            return;
        };
        sym::cover("decoded");
        no_panic_block(&b);
        sym::cover("end");
    }
    // a deep block: the path to a slot. Arguments: depth, slot, cofactor, node of any depth, leaf in the slot
    fn h_c17_deep() {
        let (depth, slot, cof) = (sym::arg(0) as u8, sym::arg(1) as u32, sym::arg(2) as u16);
        let mut order = vec![];
        for d in 1..=depth {
            if slot >> (depth - d) & 1 == 1 {
                order.push(d);
            }
        }
        let at = order.len();
        order.push(depth);
        for d in (1..=depth).rev() {
            if slot >> (depth - d) & 1 == 0 {
                order.push(d);
            }
        }
        let odd = sym::arg(3) as usize;
        let mut v = vec![0, depth];
        v.extend_from_slice(&cof.to_le_bytes());
        v.extend_from_slice(&(order.len() as u32).to_le_bytes());
        let mut right = true;
        for (i, d) in order.iter().enumerate() {
            if i == at && sym::arg(4) == 1 {
                let p: H = sym::bytes();
                right = refs::slot(&p, depth, cof) == slot;
                v.push(1);
                v.extend_from_slice(&p);
                v.extend_from_slice(&sym::bytes::<32>());
                continue;
            }
            let d = if i == odd {
                let x = sym::byte();
                right = x == *d;
                x
            } else {
                *d
            };
            v.extend_from_slice(&[0, d]);
            v.extend_from_slice(&sym::bytes::<32>());
        }
        v.push(0);
        let Some(mut b) = block(&v) else {
            sym::check(!right, "nodes which form a cross-section are accepted");
            sym::cover("refused");
            return;
        };
        sym::check(right, "nodes which do not form a cross-section are refused");
        let id = b.commit_id();
        no_panic_block(&b);
        let c = b.clone();
        let none: [ProtocolId; 0] = [];
        let _ = b.conceal_except(none);
        no_panic_block(&b);
        sym::check(b.commit_id() == id, "the commitment is unchanged after concealing");
        let _ = b.merge_reveal(c.clone());
        no_panic_block(&b);
        if let Some(p) = c.known_protocol_ids().next() {
            if let Ok(proof) = c.to_merkle_proof(p) {
                let m = c.to_known_message_map().get(&p).copied().unwrap();
                let _ = b.merge_reveal_path(&proof, p, m);
                sym::check(b.commit_id() == id, "the commitment is unchanged after merging");
            }
        }
        sym::cover("decoded");
    }
    // a block received through serde; argument 3: format
    fn h_c17_serde() {
        let Some(b) = any_serde_block(sym::arg(0) as u8, sym::arg(1) as u16, sym::arg(2) as u32) else {
            sym::cover("refused");
            return;
        };
        sym::cover("decoded");
        no_panic_block(&b);
        let mut c = b.clone();
        let keep: Vec<ProtocolId> = b.known_protocol_ids().take(1).collect();
        let _ = c.conceal_except(&keep);
        no_panic_block(&c);
        let _ = c.merge_reveal(b);
        no_panic_block(&c);
        sym::cover("end");
    }
    fn h_c17_conceal() {
        let (depth, cof, n) = (sym::arg(0) as u8, sym::arg(1) as u16, sym::arg(2) as u32);
        let Some(mut b) = block(&any_block(depth, cof, n, sym::arg(3) == 0)) else {
            sym::cover("undecodable");
            return;
        };
        let mut keep: Vec<ProtocolId> = b.known_protocol_ids().collect();
        keep.retain(|_| sym::fork());
        if sym::fork() {
            keep.push(ProtocolId::from(sym::bytes::<32>()));
        }
        let _ = b.conceal_except(&keep);
        no_panic_block(&b);
        sym::cover("end");
    }
    fn h_c17_merge() {
        let (depth, cof, n, n2) = (sym::arg(0) as u8, sym::arg(1) as u16, sym::arg(2) as u32, sym::arg(3) as u32);
        let (Some(mut a), Some(b)) = (block(&any_block(depth, cof, n, false)), block(&any_block(depth, cof, n2, false))) else {
            sym::cover("undecodable");
            return;
        };
        match a.merge_reveal(b) {
            Ok(_) => {
                no_panic_block(&a);
                sym::cover("merged");
            }
            Err(_) => sym::cover("unrelated"),
        }
    }
    // symbolic parameters of an undivided block
    fn h_c17_params() {
        let mut v = vec![0, sym::byte()];
        v.extend_from_slice(&sym::bytes::<2>());
        v.extend_from_slice(&[1, 0, 0, 0, 0]);
        v.extend_from_slice(&sym::bytes::<33>());
        v.push(sym::byte());
        if sym::fork() {
            v.extend_from_slice(&sym::bytes::<8>());
        }
        let Some(mut b) = block(&v) else {
            sym::cover("undecodable");
            return;
        };
        sym::cover("decoded");
        let _ = b.commit_id();
        let _ = b.conceal();
        let _ = b.width_limit();
        let _ = b.factored_width();
        let _ = b.to_known_message_map();
        let x = b.clone();
        let _ = b.merge_reveal(x);
        sym::cover("end");
    }
}
