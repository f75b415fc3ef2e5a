//! Reference definitions, written from the LNPBP-4, LNPBP-81 and strict encoding specifications and
//! not from the code under test.
#![allow(dead_code)]

use strict_encoding::{StrictDecode, StrictEncode, StrictReader, StrictWriter};

use crate::sym;

pub type H = [u8; 32];

pub const TAG_MERKLE: &str = "urn:ubideco:merkle:node#2024-01-31";
pub const TAG_MPC: &str = "urn:ubideco:mpc:commitment#2024-01-31";
pub const TAG_STRICT: &str = "urn:ubideco:strict-types:value-hash#2024-02-10";

/// Strict serialization by the code under test.
pub fn enc<T: StrictEncode>(v: &T) -> Vec<u8> {
    let w = StrictWriter::in_memory::<{ usize::MAX }>();
    match v.strict_encode(w) {
        Ok(w) => w.unbox().unconfine(),
        Err(_) => {
            sym::check(false, "serialization must not fail");
            Vec::new()
        }
    }
}

/// Strict deserialization by the code under test; all bytes have to be consumed.
pub fn dec<T: StrictDecode>(b: &[u8]) -> Option<T> {
    let mut r = StrictReader::in_memory::<{ usize::MAX }>(b);
    let v = T::strict_decode(&mut r).ok()?;
    if r.into_cursor().position() as usize != b.len() {
        return None;
    }
    Some(v)
}

pub fn h32(v: impl std::borrow::Borrow<[u8]>) -> H {
    let mut h = [0u8; 32];
    h.copy_from_slice(v.borrow());
    h
}

pub fn tagged(tag: &str, data: &[u8]) -> H {
    let t = sym::sha256(tag.as_bytes());
    let mut v = Vec::with_capacity(64 + data.len());
    v.extend_from_slice(&t);
    v.extend_from_slice(&t);
    v.extend_from_slice(data);
    sym::sha256(&v)
}

pub fn leaf_inhabited(pid: &H, msg: &H) -> H {
    let mut v = Vec::with_capacity(65);
    v.push(0x10);
    v.extend_from_slice(pid);
    v.extend_from_slice(msg);
    tagged(TAG_MERKLE, &v)
}

pub fn leaf_entropy(entropy: u64, pos: u32) -> H {
    let mut v = Vec::with_capacity(13);
    v.push(0x11);
    v.extend_from_slice(&entropy.to_le_bytes());
    v.extend_from_slice(&pos.to_le_bytes());
    tagged(TAG_MERKLE, &v)
}

pub fn node(branching: u8, depth: u8, width: u64, n1: &H, n2: &H) -> H {
    let mut v = Vec::with_capacity(98);
    v.push(branching);
    v.push(depth);
    v.extend_from_slice(&width.to_le_bytes());
    v.extend_from_slice(&[0u8; 24]);
    v.extend_from_slice(n1);
    v.extend_from_slice(n2);
    tagged(TAG_MERKLE, &v)
}

pub fn branch(depth: u8, width: u64, n1: &H, n2: &H) -> H { node(2, depth, width, n1, n2) }

/// LNPBP-81 root of a list of leaf hashes.
pub fn merkle(leaves: &[H]) -> H {
    if leaves.len() == 1 {
        return leaves[0];
    }
    sub(leaves, 0, leaves.len() as u64)
}
fn sub(leaves: &[H], depth: u8, width: u64) -> H {
    const V: H = [0xFF; 32];
    match leaves {
        [] => node(0, depth, width, &V, &V),
        [a] => node(1, depth, width, a, &V),
        [a, b] => node(2, depth, width, a, b),
        _ => {
            let d = (leaves.len() + 1) / 2;
            let l = sub(&leaves[..d], depth + 1, width);
            let r = sub(&leaves[d..], depth + 1, width);
            node(2, depth, width, &l, &r)
        }
    }
}

/// LNPBP-4 commitment.
pub fn commitment(depth: u8, cofactor: u16, root: &H) -> H {
    let mut v = Vec::with_capacity(35);
    v.push(depth);
    v.extend_from_slice(&cofactor.to_le_bytes());
    v.extend_from_slice(root);
    tagged(TAG_MPC, &v)
}

/// LNPBP-4 slot of a protocol.
pub fn slot(pid: &H, depth: u8, cofactor: u16) -> u32 {
    let w = 1u64 << depth;
    let m = w.saturating_sub(cofactor as u64).max(1);
    sym::urem256(pid, m) as u32
}

/// Remainder of a little-endian number.
pub fn slot_of(p: &H, m: u64) -> u64 { sym::urem256(p, m) }
