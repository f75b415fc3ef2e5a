//! C30, C32: text and byte forms of ids, error reports.
use std::fmt::{self, Display, Formatter};
use std::str::FromStr;

use amplify::hex::{FromHex, ToHex};
use amplify::{Bytes32, FromSliceError, Wrapper};
use client_side_validation::Validity;
use commit_verify::mpc::{self, Commitment, MergeError, MerkleBlock, Message, ProtocolId};
use commit_verify::{CommitId, ConvolveVerifyError, EmbedVerifyError, MerkleHash, StrictHash};
use single_use_seals::{ClientSideWitness, PublishedWitness, SealError, SealWitness, SingleUseSeal};
use strict_encoding::{StrictDecode, StrictDumb, StrictEncode, StrictType};

use crate::misc::{TCli, TPub, TSeal};
use crate::spec::{msg, pid, proof_with, Spec};
use crate::{refs, sym};

const FIXED: [u8; 32] = [
    0x01, 0xf0, 0x7e, 0x00, 0xff, 0x10, 0x99, 0xa5, 0x5a, 0xc3, 0x3c, 0x80, 0x08, 0x21, 0x12, 0xee, 0x0d, 0xd0, 0x64, 0x46, 0xb7, 0x7b, 0x29, 0x92,
    0x03, 0x30, 0xfa, 0xaf, 0x18, 0x81, 0xcd, 0x02,
];
fn digit(n: u8, upper: bool) -> u8 {
    match (n < 10, upper) {
        (true, _) => b'0' + n,
        (false, true) => b'A' + n - 10,
        (false, false) => b'a' + n - 10,
    }
}
fn hex(v: &[u8], upper: bool) -> Vec<u8> { v.iter().flat_map(|b| [digit(b >> 4, upper), digit(b & 15, upper)]).collect() }
/// Value of a hexadecimal digit.
fn value(c: u8) -> Option<u8> {
    match c {
        b'0'..=b'9' => Some(c - b'0'),
        b'a'..=b'f' => Some(c - b'a' + 10),
        b'A'..=b'F' => Some(c - b'A' + 10),
        _ => None,
    }
}

macro_rules! forms {
    ($t:ident, $show:ident, $parse:ident, $value:ident) => {
        fn $show() {
            let pos = sym::choose(32) as usize;
            let mut b = FIXED;
            b[pos] = sym::byte();
            let v = $t::from(b);
            let (lower, upper) = (hex(&b, false), hex(&b, true));
            sym::check(v.to_string().as_bytes() == lower, "an id is shown as 64 lowercase digits in the order of its bytes");
            sym::check(format!("{v:x}").as_bytes() == lower, "the lowercase form has the same digits");
            sym::check(format!("{v:X}").as_bytes() == upper, "the uppercase form has the same digits");
            sym::check(v.to_hex().as_bytes() == lower, "the digits of an id are its shown form");
            for s in [lower, upper] {
                let s = String::from_utf8(s).unwrap();
                sym::check($t::from_str(&s) == Ok(v), "the shown form gives the id back");
                sym::check($t::from_hex(&s) == Ok(v), "the digits of an id give it back");
            }
            sym::cover("end");
        }
        fn $parse() {
            let len = if sym::fork() { 64 } else { sym::choose(71) as usize };
            let mut b = hex(&FIXED, false);
            b.resize(70, b'7');
            b.truncate(len);
            let mut ok = len == 64;
            let mut want = FIXED;
            if len > 0 {
                let pos = match len {
                    64 => sym::choose(64) as usize,
                    _ => [0, len / 2, len - 1][sym::choose(3) as usize],
                };
                b[pos] = sym::byte();
                match value(b[pos]) {
                    None => ok = false,
                    Some(d) if pos < 64 => {
                        let w = &mut want[pos / 2];
                        *w = if pos % 2 == 0 { *w & 15 | d << 4 } else { *w & 0xF0 | d };
                    }
                    _ => {}
                }
            }
            let Ok(s) = std::str::from_utf8(&b) else { return };
            for r in [$t::from_str(s), $t::from_hex(s)] {
                match r {
                    Ok(v) => {
                        sym::check(ok, "only 64 hexadecimal digits are an id");
                        sym::check(v.as_slice() == &want[..], "the digits are those of the id");
                        sym::cover("ok");
                    }
                    Err(_) => {
                        sym::check(!ok, "64 hexadecimal digits of any case are an id");
                        sym::cover("refused");
                    }
                }
            }
        }
        fn $value() {
            let (a, b) = (sym::bytes::<32>(), sym::bytes::<32>());
            let (x, y) = ($t::from(a), $t::from(b));
            sym::check((x == y) == (a == b), "ids are equal exactly if their bytes are");
            sym::check(x.cmp(&y) == a.cmp(&b), "ids are ordered as their bytes");
            sym::check(x.partial_cmp(&y) == Some(a.cmp(&b)), "the order is total");
            sym::check(x.as_slice() == &a[..], "the bytes of an id are those it was made of");
            sym::check(x.to_byte_array() == a && x.into_inner() == Bytes32::from(a), "the inner value of an id are its bytes");
            sym::check($t::from(Bytes32::from(a)) == x && $t::from_inner(Bytes32::from(a)) == x, "an id is the same whatever it is made of");
            let i = sym::choose(32) as usize;
            sym::check(x[i] == a[i], "bytes of an id have its order");
            sym::check(x[..i] == a[..i] && x[i..] == a[i..], "ranges of an id have its order");
            sym::cover("end");
        }
    };
}
forms!(ProtocolId, p_show, p_parse, p_value);
forms!(Message, m_show, m_parse, m_value);
forms!(Commitment, c_show, c_parse, c_value);
forms!(MerkleHash, h_show, h_parse, h_value);
forms!(StrictHash, s_show, s_parse, s_value);

harnesses! {
    fn h_c30_show() { [p_show, m_show, c_show, h_show, s_show][sym::arg(0) as usize]() }
    fn h_c30_parse() { [p_parse, m_parse, c_parse, h_parse, s_parse][sym::arg(0) as usize]() }
    fn h_c30_value() { [p_value, m_value, c_value, h_value, s_value][sym::arg(0) as usize]() }
    fn h_c30_slice() {
        let len = sym::choose(sym::arg(0) as u32 + 1) as usize;
        let b = sym::vec(len);
        let r: [Result<Vec<u8>, FromSliceError>; 3] = [
            ProtocolId::copy_from_slice(&b).map(|v| v.as_slice().to_vec()),
            Message::copy_from_slice(&b).map(|v| v.as_slice().to_vec()),
            Commitment::copy_from_slice(&b).map(|v| v.as_slice().to_vec()),
        ];
        for r in r {
            match r {
                Ok(v) => {
                    sym::check(len == 32 && v == b, "an id made of a slice has its 32 bytes");
                    sym::cover("ok");
                }
                Err(e) => {
                    sym::check(len != 32, "a slice of 32 bytes is an id");
                    sym::check(e.actual == len && e.expected == 32, "the error has the actual and expected length");
                    sym::cover("refused");
                }
            }
        }
    }
    // error reports of seals
    fn h_c32_seals() {
        let (seal, id, code) = (sym::byte(), sym::choose(3) as u16, sym::byte());
        let e = match sym::choose(3) {
            0 => SealError::<Named>::NotIncluded(Named(seal), [0u16, 7, 65535][id as usize]),
            1 => SealError::Published(NamedErr(code, true)),
            _ => SealError::Client(NamedErr(code, false)),
        };
        let text = e.to_string();
        let source = std::error::Error::source(&e).map(|s| s.to_string());
        match e {
            SealError::NotIncluded(..) => {
                sym::check(text.contains(&Named(seal).to_string()), "the report names the seal");
                sym::check(text.contains(["witness 0", "witness 7", "witness 65535"][id as usize]), "the report names the publication");
                sym::check(source.is_none(), "the seal is the cause itself");
                sym::cover("not included");
            }
            SealError::Published(e) => {
                sym::check(text == e.to_string() && source == Some(e.to_string()), "the report is that of the publication");
                sym::cover("published");
            }
            SealError::Client(e) => {
                sym::check(text == e.to_string() && source == Some(e.to_string()), "the report is that of the client-side witness");
                sym::cover("client");
            }
        }
    }
    // error reports of multi-message commitments
    fn h_c32_mpc() {
        match sym::choose(5) {
            // a proof with a wrong position
            k @ (0 | 1) => {
                let mut p = [0x5Au8; 32];
                p[31] = sym::byte();
                p[0] = 3;
                let path = [[1u8; 32], [2; 32], [3; 32]];
                let slot = refs::slot(&p, 3, 0);
                let pos = slot ^ 5;
                let proof = proof_with(pos, 0, &path);
                let text = if k == 0 {
                    proof.convolve(pid(&p), msg(&[9; 32])).err().map(|e| e.to_string())
                } else {
                    let mut b = MerkleBlock::strict_dumb();
                    let e = b.merge_reveal_path(&proof, pid(&p), msg(&[9; 32])).err();
                    sym::check(matches!(e, Some(MergeError::InvalidProof(_))), "a proof with a wrong position is refused");
                    e.map(|e| e.to_string())
                };
                let Some(t) = text else {
                    sym::check(false, "a proof with a wrong position is refused");
                    return;
                };
                sym::check(has(&t, &hex(&p, false)), "the report names the protocol");
                let n = numbers(&t);
                sym::check(n.contains(&(slot as u64)) && n.contains(&(pos as u64)) && n.contains(&8), "the report names both positions and the width");
                sym::cover("position");
            }
            // an unknown protocol
            2 => {
                let mut p = FIXED;
                let i = sym::choose(32) as usize;
                p[i] = sym::byte();
                let b = MerkleBlock::strict_dumb();
                let r = b.to_merkle_proof(pid(&p));
                match r {
                    Ok(_) => return,
                    Err(e) => sym::check(has(&e.to_string(), &hex(&p, false)), "the report names the protocol"),
                }
                sym::cover("unknown");
            }
            // unrelated blocks
            3 => {
                let mut a = refs::dec::<MerkleBlock>(&Spec::new(0, 0, 0, vec![None]).block_bytes(0, false, false)).unwrap();
                let b = MerkleBlock::strict_dumb();
                let (x, y) = (a.commit_id(), b.commit_id());
                match a.merge_reveal(b) {
                    Err(e) => {
                        let t = e.to_string();
                        sym::check(has(&t, format!("base {x}").as_bytes()) && has(&t, format!("merged-in {y}").as_bytes()), "the report names both commitments");
                        sym::cover("unrelated");
                    }
                    Ok(_) => sym::check(x == y, "unrelated blocks are not merged"),
                }
            }
            // errors of the commitment
            _ => {
                let n = [0usize, 1, 70000, 1 << 31][sym::choose(4) as usize];
                sym::check(numbers(&mpc::Error::TooManyMessages(n).to_string()).contains(&(n as u64)), "the report has the number of messages");
                sym::check(numbers(&mpc::Error::CantFitInMaxSlots(n).to_string()).contains(&(n as u64)), "the report has the number of messages");
                let texts = [mpc::Error::Empty.to_string(), mpc::Error::TooManyMessages(n).to_string(), mpc::Error::CantFitInMaxSlots(n).to_string()];
                sym::check(texts[0] != texts[1] && texts[1] != texts[2] && texts[0] != texts[2], "different errors have different reports");
                sym::cover("commit");
            }
        }
    }
    // error reports of commitment schemes, verdicts
    fn h_c32_schemes() {
        let code = sym::byte();
        let e = [
            EmbedVerifyError::CommitmentMismatch,
            EmbedVerifyError::InvalidProof,
            EmbedVerifyError::ProofMismatch,
            EmbedVerifyError::InvalidMessage(NamedErr(code, true)),
        ];
        let t: Vec<String> = e.iter().map(|e| e.to_string()).collect();
        for i in 0..4 {
            for j in 0..i {
                sym::check(t[i] != t[j], "different errors have different reports");
            }
        }
        sym::check(has(&t[3], NamedErr(code, true).to_string().as_bytes()), "the report tells why the message is invalid");
        let c = [ConvolveVerifyError::CommitmentMismatch, ConvolveVerifyError::ImpossibleMessage, ConvolveVerifyError::InvalidProof].map(|e| e.to_string());
        sym::check(c[0] != c[1] && c[1] != c[2] && c[0] != c[2], "different errors have different reports");
        let v = [Validity::Valid, Validity::SealIssues, Validity::Invalid];
        sym::check(v[0].to_string() == "valid" && v[2].to_string() == "invalid" && has(&v[1].to_string(), b"seal issues"), "a verdict is shown as what it is");
        sym::check(v[0] != v[1] && v[1] != v[2] && v[0] != v[2], "verdicts are distinct");
        sym::cover("end");
    }

    // strict serialization of seal witnesses
    fn h_c33_values() {
        let w = SealWitness::<TSeal>::new(TPub::any(), TCli::any());
        let b = refs::enc(&w);
        let mut want = refs::enc(&w.published);
        want.extend_from_slice(&refs::enc(&w.client));
        sym::check(b == want, "a witness is serialized as its published part followed by its client-side part");
        match refs::dec::<SealWitness<TSeal>>(&b) {
            Some(v) => {
                sym::check(v.published == w.published && v.client == w.client, "a deserialized witness equals the serialized one");
                let (m, seals) = (sym::u32(), [TSeal::any(), TSeal::any()]);
                let n = sym::choose(3) as usize;
                let (x, y) = (w.verify_seals_closing(&seals[..n], m), v.verify_seals_closing(&seals[..n], m));
                sym::check(x.is_ok() == y.is_ok(), "a deserialized witness closes the same seals");
            }
            None => sym::check(false, "a serialized witness is deserialized"),
        }
        sym::cover("end");
    }
    fn h_c33_bytes() {
        let len = sym::choose(sym::arg(0) as u32 + 1) as usize;
        let b = sym::vec(len);
        let full = refs::enc(&TPub::any()).len() + refs::enc(&TCli::any()).len();
        match refs::dec::<SealWitness<TSeal>>(&b) {
            Some(v) => {
                sym::check(len == full, "only a complete witness is deserialized");
                sym::check(refs::enc(&v) == b, "the serialization of a witness is unique");
                sym::cover("accepted");
            }
            None => {
                sym::check(len != full, "a complete witness is deserialized");
                sym::cover("refused");
            }
        }
    }
}

fn has(t: &str, n: &[u8]) -> bool { t.as_bytes().windows(n.len()).any(|w| w == n) }
/// Decimal numbers of a text which are words of their own.
fn numbers(t: &str) -> Vec<u64> {
    t.split(|c: char| !c.is_ascii_alphanumeric()).filter(|w| w.len() <= 20).filter_map(|w| w.parse().ok()).collect()
}

#[derive(Copy, Clone, PartialEq, Eq, Debug, Default, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = "Harness")]
struct Named(u8);
impl Display for Named {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { write!(f, "[{}]", (b'A' + (self.0 & 15)) as char) }
}
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
struct NamedErr(u8, bool);
impl Display for NamedErr {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        write!(f, "<{}{}>", (b'A' + (self.0 & 15)) as char, if self.1 { "published" } else { "client" })
    }
}
impl std::error::Error for NamedErr {}
#[derive(Copy, Clone, PartialEq, Eq, Debug, Default, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = "Harness")]
struct NamedPub(u16);
#[derive(Copy, Clone, PartialEq, Eq, Debug, Default, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = "Harness")]
struct NamedCli(u16);
impl SingleUseSeal for Named {
    type Message = u8;
    type PubWitness = NamedPub;
    type CliWitness = NamedCli;
    fn is_included(&self, _: u8, _: &SealWitness<Self>) -> bool { true }
}
impl ClientSideWitness for NamedCli {
    type Seal = Named;
    type Proof = u8;
    type Error = NamedErr;
    fn convolve_commit(&self, msg: u8) -> Result<u8, NamedErr> { Ok(msg) }
    fn merge(&mut self, _: Self) -> Result<(), impl std::error::Error> { Ok::<_, NamedErr>(()) }
}
impl PublishedWitness<Named> for NamedPub {
    type PubId = u16;
    type Error = NamedErr;
    fn pub_id(&self) -> u16 { self.0 }
    fn verify_commitment(&self, _: u8) -> Result<(), NamedErr> { Ok(()) }
}
