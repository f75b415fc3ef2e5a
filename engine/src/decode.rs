//! Decoding of function bodies into a compact executable form.

use crate::ll::*;
use std::collections::HashMap;

#[derive(Clone, Copy, Debug)]
pub enum Op {
    R(u32),
    C(u64),
    K(u32),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum BinK {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Debug)]
pub struct Edge {
    pub to: u32, // block
    pub copies: Box<[(u32, Op)]>,
}

#[derive(Debug)]
pub enum Callee {
    Fn(u32),
    Ext(u32), // index in the table of external names
    Ind(Op),
}

#[derive(Debug)]
pub enum Inst {
    Bin(BinK, u32, u32, Op, Op),           // op, width, dst, a, b
    VBin(BinK, u32, u32, u32, Op, Op),     // op, lanes, lane width, dst
    Icmp(Pred, u32, u32, Op, Op),          // pred, width, dst
    VIcmp(Pred, u32, u32, u32, Op, Op),    // pred, lanes, lane width, dst
    Zext(u32, Op, u32, u32),               // dst, a, from, to
    Sext(u32, Op, u32, u32),
    Trunc(u32, Op, u32, u32),
    VCast(u8, u32, Op, u32, u32, u32),     // kind(z,s,t), dst, a, lanes, from, to
    Copy(u32, Op),
    Alloca(u32, u32),                      // dst, frame offset
    Gep(u32, Op, u64, Box<[(Op, u32, u64)]>),
    Load(u32, Op, Ty),
    LoadI(u32, Op, u32, u32),              // dst, addr, width(bits), bytes
    Store(Op, Op, Ty),                     // value, addr
    Select(u32, Op, Op, Op, Ty),
    VSelect(u32, Op, Op, Op, u32, u32),
    Br(Edge),
    CondBr(Op, Edge, Edge),
    Switch(Op, u32, Edge, Vec<(u64, u32)>, Vec<Edge>),
    Call(Option<u32>, Callee, Box<[Op]>, Option<Edge>, Box<[Ty]>, Ty),
    Ret(Option<Op>),
    Unreachable,
    ExtractV(u32, Op, Box<[u32]>),
    InsertV(u32, Op, Op, Box<[u32]>),
    Rmw(u32, u8, Op, Op, u32),             // dst, op, addr, val, width
    CmpXchg(u32, Op, Op, Op, u32),
    Nop,
    ExtractE(u32, Op, Op, u32, u32),       // dst, vec, idx, lanes, lw
    InsertE(u32, Op, Op, Op, u32, u32),
    Shuffle(u32, Op, Op, Box<[i32]>, u32, u32), // dst,a,b,mask,lanes of a,lw
    Bad(String),
}

pub struct Func {
    pub idx: u32,
    pub name: String,
    pub nregs: u32,
    pub nparams: u32,
    pub frame: u32,
    pub insts: Vec<Inst>,
    pub dbg: Vec<u32>,
    pub blocks: Vec<u32>, // start index
    pub block_of: Vec<u32>,
    pub covered: std::cell::UnsafeCell<Vec<bool>>,
}

/// what the decoder needs from the engine
pub trait Env {
    /// constant → operand
    fn konst(&mut self, t: &Ty, c: &Cv) -> Op;
    fn callee(&mut self, name: &str) -> Callee;
}

struct D<'a> {
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
    phis: Vec<Vec<(u32, Vec<(String, Opnd, Ty)>)>>, // per block
    env: &'a mut dyn Env,
}

impl<'a> D<'a> {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn opnd(&mut self, l: &mut Lex, t: &Ty) -> Opnd {
        if l.eat(b'%') {
            let n = l.name();
            return Opnd::Reg(self.reg(&n));
        }
        Opnd::Const(l.cval(t))
    }
    fn conv(&mut self, t: &Ty, o: &Opnd) -> Op {
        match o {
            Opnd::Reg(r) => Op::R(*r),
            Opnd::Const(c) => self.env.konst(t, c),
        }
    }
    fn op(&mut self, l: &mut Lex, t: &Ty) -> Op {
        let o = self.opnd(l, t);
        self.conv(t, &o)
    }
    fn label(&mut self, l: &mut Lex) -> String {
        assert!(l.eat_word("label"), "label: {}", l.rest());
        l.expect(b'%');
        l.name()
    }
    fn edge(&mut self, from: &str, to: &str) -> Edge {
        let b = self.labels[to];
        let mut copies = vec![];
        for i in 0..self.phis[b as usize].len() {
            let (dst, inc) = self.phis[b as usize][i].clone();
            let (_, o, t) = inc.iter().find(|x| x.0 == from).unwrap_or_else(|| panic!("phi edge {} -> {}", from, to)).clone();
            let op = self.conv(&t, &o);
            copies.push((dst, op));
        }
        Edge { to: b, copies: copies.into() }
    }
}

fn bink(w: &str) -> Option<BinK> {
    Some(match w {
        "add" => BinK::Add,
        "sub" => BinK::Sub,
        "mul" => BinK::Mul,
        "udiv" => BinK::UDiv,
        "sdiv" => BinK::SDiv,
        "urem" => BinK::URem,
        "srem" => BinK::SRem,
        "shl" => BinK::Shl,
        "lshr" => BinK::LShr,
        "ashr" => BinK::AShr,
        "and" => BinK::And,
        "or" => BinK::Or,
        "xor" => BinK::Xor,
        _ => return None,
    })
}

fn pred(w: &str) -> Pred {
    match w {
        "eq" => Pred::Eq,
        "ne" => Pred::Ne,
        "ult" => Pred::Ult,
        "ule" => Pred::Ule,
        "ugt" => Pred::Ugt,
        "uge" => Pred::Uge,
        "slt" => Pred::Slt,
        "sle" => Pred::Sle,
        "sgt" => Pred::Sgt,
        "sge" => Pred::Sge,
        _ => panic!("pred {}", w),
    }
}

pub fn decode(m: &Module, idx: u32, env: &mut dyn Env) -> Func {
    let def = &m.fns[idx as usize];
    let head = &m.text[def.start..def.body];
    let body = &m.text[def.body..def.end];
    let mut d = D { regs: HashMap::new(), labels: HashMap::new(), phis: vec![], env };
    // parameters
    let at = head.find('@').unwrap();
    let mut l = Lex { s: head.as_bytes(), p: at + 1 };
    l.name();
    l.expect(b'(');
    let mut nparams = 0;
    let mut unnamed = 0u32;
    if !l.eat(b')') {
        loop {
            if l.peek() == b'.' {
                break; // varargs
            }
            let t = l.ty();
            let _ = t;
            // attributes up to % or , or )
            loop {
                let c = l.peek();
                if c == b'%' || c == b',' || c == b')' {
                    break;
                }
                if c == b'"' {
                    l.name();
                    if l.eat(b'=') {
                        l.name();
                    }
                    continue;
                }
                if c == b'(' {
                    l.skip_group();
                    continue;
                }
                l.word();
            }
            let n = if l.eat(b'%') {
                l.name()
            } else {
                unnamed += 1;
                (unnamed - 1).to_string()
            };
            if n.parse::<u32>().is_ok() {
                unnamed = n.parse::<u32>().unwrap() + 1;
            }
            let r = d.reg(&n);
            assert_eq!(r, nparams);
            nparams += 1;
            if l.eat(b')') {
                break;
            }
            l.expect(b',');
        }
    }
    // first pass: blocks, joined logical lines
    let mut blocks: Vec<(String, Vec<String>)> = vec![];
    let mut lines = body.lines().peekable();
    let mut first = true;
    while let Some(line) = lines.next() {
        if line.is_empty() || line.starts_with(';') {
            continue;
        }
        let lb = line.as_bytes()[0];
        if lb != b' ' {
            // label
            let mut lx = Lex { s: line.as_bytes(), p: 0 };
            let n = lx.name();
            blocks.push((n, vec![]));
            first = false;
            continue;
        }
        if first {
            // unlabelled entry block
            blocks.push((unnamed.to_string(), vec![]));
            first = false;
        }
        let t = line.trim_start();
        if t.starts_with(';') || t.starts_with("#dbg") {
            continue;
        }
        let mut s = t.to_string();
        if t.starts_with("switch ") {
            while !s.contains(']') {
                s.push(' ');
                s.push_str(lines.next().unwrap().trim());
            }
        } else if t.contains("invoke ") && !t.contains(" unwind label ") {
            s.push(' ');
            s.push_str(lines.next().unwrap().trim());
        } else if t.contains("= landingpad") {
            while let Some(nx) = lines.peek() {
                let n = nx.trim();
                if n.starts_with("cleanup") || n.starts_with("catch ") || n.starts_with("filter ") {
                    lines.next();
                } else {
                    break;
                }
            }
        }
        blocks.last_mut().unwrap().1.push(s);
    }
    for (i, b) in blocks.iter().enumerate() {
        d.labels.insert(b.0.clone(), i as u32);
    }
    // phis
    for b in &blocks {
        let mut ph = vec![];
        for s in &b.1 {
            if let Some(i) = s.find(" = phi ") {
                let dst = {
                    let mut lx = Lex { s: s.as_bytes(), p: 1 };
                    lx.name()
                };
                let r = d.reg(&dst);
                let mut lx = Lex { s: s.as_bytes(), p: i + 7 };
                let t = lx.ty();
                let mut inc = vec![];
                loop {
                    lx.expect(b'[');
                    let o = d.opnd(&mut lx, &t);
                    lx.expect(b',');
                    lx.expect(b'%');
                    let lab = lx.name();
                    lx.expect(b']');
                    inc.push((lab, o, t.clone()));
                    if !(lx.eat(b',') && lx.peek() == b'[') {
                        break;
                    }
                }
                ph.push((r, inc));
            }
        }
        d.phis.push(ph);
    }
    let mut insts = vec![];
    let mut dbg = vec![];
    let mut starts = vec![];
    let mut block_of = vec![];
    let mut frame: u64 = 0;
    for (bi, (bn, ls)) in blocks.iter().enumerate() {
        starts.push(insts.len() as u32);
        for s in ls {
            if s.contains(" = phi ") {
                continue;
            }
            let di = s.rfind("!dbg !").map(|i| s[i + 6..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap()).unwrap_or(0);
            let n0 = insts.len();
            inst(&mut d, bn, s, &mut insts, &mut frame);
            for _ in n0..insts.len() {
                dbg.push(di);
                block_of.push(bi as u32);
            }
        }
    }
    Func {
        idx,
        name: def.name.clone(),
        nregs: d.regs.len() as u32,
        nparams,
        frame: frame as u32,
        insts,
        dbg,
        covered: std::cell::UnsafeCell::new(vec![false; starts.len()]),
        blocks: starts,
        block_of,
    }
}

fn inst(d: &mut D, bn: &str, s: &str, out: &mut Vec<Inst>, frame: &mut u64) {
    let mut l = Lex::new(s);
    let mut dst = 0u32;
    let mut has_dst = false;
    if l.peek() == b'%' {
        l.p += 1;
        let n = l.name();
        dst = d.reg(&n);
        has_dst = true;
        l.expect(b'=');
    }
    let mut w = l.word();
    while matches!(w, "tail" | "musttail" | "notail") {
        w = l.word();
    }
    if let Some(k) = bink(w) {
        while matches!(l.peek_word(), "nuw" | "nsw" | "exact" | "disjoint") {
            l.word();
        }
        let t = l.ty();
        let a = d.op(&mut l, &t);
        l.expect(b',');
        let b = d.op(&mut l, &t);
        match &t {
            Ty::Int(w) => out.push(Inst::Bin(k, *w, dst, a, b)),
            Ty::Vec(n, e) => {
                if matches!(k, BinK::And | BinK::Or | BinK::Xor) {
                    out.push(Inst::Bin(k, t.bits(), dst, a, b))
                } else {
                    out.push(Inst::VBin(k, *n as u32, e.bits(), dst, a, b))
                }
            }
            _ => out.push(Inst::Bad(s.into())),
        }
        return;
    }
    match w {
        "icmp" => {
            if l.peek_word() == "samesign" {
                l.word();
            }
            let p = pred(l.word());
            let t = l.ty();
            let a = d.op(&mut l, &t);
            l.expect(b',');
            let b = d.op(&mut l, &t);
            match &t {
                Ty::Int(_) | Ty::Ptr => out.push(Inst::Icmp(p, t.bits(), dst, a, b)),
                Ty::Vec(n, e) => out.push(Inst::VIcmp(p, *n as u32, e.bits(), dst, a, b)),
                _ => out.push(Inst::Bad(s.into())),
            }
        }
        "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
            while matches!(l.peek_word(), "nuw" | "nsw" | "nneg") {
                l.word();
            }
            let t = l.ty();
            let a = d.op(&mut l, &t);
            assert!(l.eat_word("to"), "{}", s);
            let t2 = l.ty();
            if let (Ty::Vec(n, e), Ty::Vec(_, e2)) = (&t, &t2) {
                if w != "bitcast" {
                    let k = match w {
                        "zext" => 0,
                        "sext" => 1,
                        _ => 2,
                    };
                    out.push(Inst::VCast(k, dst, a, *n as u32, e.bits(), e2.bits()));
                    return;
                }
            }
            let (f, g) = (t.bits(), t2.bits());
            out.push(match w {
                "zext" => Inst::Zext(dst, a, f, g),
                "sext" => Inst::Sext(dst, a, f, g),
                "trunc" => Inst::Trunc(dst, a, f, g),
                _ if f == g => Inst::Copy(dst, a),
                _ if f > g => Inst::Trunc(dst, a, f, g),
                _ => Inst::Zext(dst, a, f, g),
            });
        }
        "freeze" => {
            let t = l.ty();
            let a = d.op(&mut l, &t);
            out.push(Inst::Copy(dst, a));
        }
        "alloca" => {
            l.eat_word("inalloca");
            let t = l.ty();
            let mut n = 1u64;
            let mut al = t.align().max(1);
            while l.eat(b',') {
                if l.eat_word("align") {
                    al = l.word().parse().unwrap();
                } else if l.peek() == b'!' {
                    break;
                } else {
                    let it = l.ty();
                    match d.op(&mut l, &it) {
                        Op::C(x) => n = x,
                        _ => {
                            out.push(Inst::Bad(s.into()));
                            return;
                        }
                    }
                }
            }
            *frame = (*frame + al - 1) / al * al;
            out.push(Inst::Alloca(dst, *frame as u32));
            *frame += (t.size() * n).max(1);
        }
        "getelementptr" => {
            while matches!(l.peek_word(), "inbounds" | "nuw" | "nusw") {
                l.word();
            }
            let t = l.ty();
            l.expect(b',');
            let bt = l.ty();
            let base = d.op(&mut l, &bt);
            let mut off = 0u64;
            let mut idx = vec![];
            let mut cur = t.clone();
            let mut k = 0;
            while l.eat(b',') {
                if l.peek() == b'!' {
                    break;
                }
                let it = l.ty();
                if !matches!(it, Ty::Int(_)) {
                    out.push(Inst::Bad(s.into()));
                    return;
                }
                let o = d.op(&mut l, &it);
                let scale = if k == 0 {
                    cur.size()
                } else {
                    match &cur {
                        Ty::Struct(..) => {
                            let Op::C(i) = o else { panic!("gep struct index") };
                            off = off.wrapping_add(cur.field_off(i as usize));
                            cur = cur.field(i as usize).clone();
                            k += 1;
                            continue;
                        }
                        Ty::Arr(_, e) | Ty::Vec(_, e) => {
                            let e = (**e).clone();
                            let sz = e.size();
                            cur = e;
                            sz
                        }
                        _ => panic!("gep {}", s),
                    }
                };
                k += 1;
                match o {
                    Op::C(v) => {
                        let v = crate::expr::sx64(v, it.bits());
                        off = off.wrapping_add((v as u64).wrapping_mul(scale));
                    }
                    _ => idx.push((o, it.bits(), scale)),
                }
            }
            out.push(Inst::Gep(dst, base, off, idx.into()));
        }
        "load" => {
            while matches!(l.peek_word(), "atomic" | "volatile") {
                l.word();
            }
            let t = l.ty();
            l.expect(b',');
            let pt = l.ty();
            let a = d.op(&mut l, &pt);
            match &t {
                Ty::Int(w) if *w <= 64 => out.push(Inst::LoadI(dst, a, *w, (*w + 7) / 8)),
                Ty::Ptr => out.push(Inst::LoadI(dst, a, 64, 8)),
                _ => out.push(Inst::Load(dst, a, t)),
            }
        }
        "store" => {
            while matches!(l.peek_word(), "atomic" | "volatile") {
                l.word();
            }
            let t = l.ty();
            let v = d.op(&mut l, &t);
            l.expect(b',');
            let pt = l.ty();
            let a = d.op(&mut l, &pt);
            out.push(Inst::Store(v, a, t));
        }
        "select" => {
            while !l.at_type() {
                l.word();
            }
            let ct = l.ty();
            let c = d.op(&mut l, &ct);
            l.expect(b',');
            let t = l.ty();
            let a = d.op(&mut l, &t);
            l.expect(b',');
            let t2 = l.ty();
            let b = d.op(&mut l, &t2);
            if let (Ty::Vec(n, _), Ty::Vec(_, e)) = (&ct, &t) {
                out.push(Inst::VSelect(dst, c, a, b, *n as u32, e.bits()));
            } else {
                out.push(Inst::Select(dst, c, a, b, t));
            }
        }
        "br" => {
            if l.peek_word() == "label" {
                let to = d.label(&mut l);
                let e = d.edge(bn, &to);
                out.push(Inst::Br(e));
            } else {
                let t = l.ty();
                let c = d.op(&mut l, &t);
                l.expect(b',');
                let t1 = d.label(&mut l);
                l.expect(b',');
                let t2 = d.label(&mut l);
                let e1 = d.edge(bn, &t1);
                let e2 = d.edge(bn, &t2);
                out.push(Inst::CondBr(c, e1, e2));
            }
        }
        "switch" => {
            let t = l.ty();
            let v = d.op(&mut l, &t);
            l.expect(b',');
            let df = d.label(&mut l);
            l.expect(b'[');
            let mut cases = vec![];
            let mut edges = vec![];
            let mut seen: HashMap<String, u32> = HashMap::new();
            while !l.eat(b']') {
                let ct = l.ty();
                let c = d.op(&mut l, &ct);
                l.expect(b',');
                let lab = d.label(&mut l);
                let Op::C(cv) = c else {
                    out.push(Inst::Bad(s.into()));
                    return;
                };
                let ei = match seen.get(&lab) {
                    Some(i) => *i,
                    None => {
                        let e = d.edge(bn, &lab);
                        edges.push(e);
                        seen.insert(lab, edges.len() as u32 - 1);
                        edges.len() as u32 - 1
                    }
                };
                cases.push((cv, ei));
            }
            let de = d.edge(bn, &df);
            out.push(Inst::Switch(v, t.bits(), de, cases, edges));
        }
        "ret" => {
            let t = l.ty();
            if t == Ty::Void {
                out.push(Inst::Ret(None));
            } else {
                let v = d.op(&mut l, &t);
                out.push(Inst::Ret(Some(v)));
            }
        }
        "unreachable" => out.push(Inst::Unreachable),
        "call" | "invoke" => {
            // flags, calling convention, return attributes
            l.attrs_to_type();
            let rt = l.ty();
            if l.peek() == b'(' {
                // function type of a variadic call
                l.skip_group();
            }
            let c = l.peek();
            if l.peek_word() == "asm" {
                // only empty inline assembly (black_box barriers) is understood
                let rest = l.rest();
                let empty = rest.contains("asm sideeffect \"\"") || rest.contains("asm \"\"");
                if empty && rt == Ty::Void {
                    out.push(Inst::Nop);
                } else {
                    out.push(Inst::Bad(s.into()));
                }
                return;
            }
            let mut ind = None;
            let mut name = String::new();
            if c == b'@' {
                l.p += 1;
                name = l.name();
            } else if c == b'%' {
                l.p += 1;
                let n = l.name();
                ind = Some(d.reg(&n));
            } else {
                out.push(Inst::Bad(s.into()));
                return;
            }
            if name.starts_with("llvm.lifetime")
                || name.starts_with("llvm.assume")
                || name.starts_with("llvm.experimental.noalias")
                || name.starts_with("llvm.dbg")
                || name.starts_with("llvm.prefetch")
                || name.starts_with("llvm.x86.sse2.pause")
            {
                out.push(Inst::Nop);
                return;
            }
            l.expect(b'(');
            let mut args = vec![];
            let mut tys = vec![];
            if !l.eat(b')') {
                loop {
                    let t = l.ty();
                    l.attrs_to_operand();
                    let o = if t == Ty::Other { Op::C(0) } else { d.op(&mut l, &t) };
                    args.push(o);
                    tys.push(t);
                    if l.eat(b')') {
                        break;
                    }
                    l.expect(b',');
                }
            }
            let callee = match ind {
                Some(r) => Callee::Ind(Op::R(r)),
                None => d.env.callee(&name),
            };
            let edge = if w == "invoke" {
                let r = l.rest();
                let i = r.find("to label %").unwrap() + 10;
                let mut lx = Lex { s: r.as_bytes(), p: i };
                let lab = lx.name();
                Some(d.edge(bn, &lab))
            } else {
                None
            };
            out.push(Inst::Call(if has_dst { Some(dst) } else { None }, callee, args.into(), edge, tys.into(), rt));
        }
        "extractvalue" => {
            let t = l.ty();
            let a = d.op(&mut l, &t);
            let mut ix = vec![];
            while l.eat(b',') {
                if l.peek() == b'!' {
                    break;
                }
                ix.push(l.word().parse().unwrap());
            }
            out.push(Inst::ExtractV(dst, a, ix.into()));
        }
        "insertvalue" => {
            let t = l.ty();
            let a = d.op(&mut l, &t);
            l.expect(b',');
            let t2 = l.ty();
            let b = d.op(&mut l, &t2);
            let mut ix = vec![];
            while l.eat(b',') {
                if l.peek() == b'!' {
                    break;
                }
                ix.push(l.word().parse().unwrap());
            }
            out.push(Inst::InsertV(dst, a, b, ix.into()));
        }
        "atomicrmw" => {
            l.eat_word("volatile");
            let k = match l.word() {
                "xchg" => 0,
                "add" => 1,
                "sub" => 2,
                "and" => 3,
                "or" => 4,
                "xor" => 5,
                _ => 99,
            };
            let pt = l.ty();
            let a = d.op(&mut l, &pt);
            l.expect(b',');
            let t = l.ty();
            let v = d.op(&mut l, &t);
            out.push(Inst::Rmw(dst, k, a, v, t.bits()));
        }
        "cmpxchg" => {
            while matches!(l.peek_word(), "weak" | "volatile") {
                l.word();
            }
            let pt = l.ty();
            let a = d.op(&mut l, &pt);
            l.expect(b',');
            let t = l.ty();
            let c = d.op(&mut l, &t);
            l.expect(b',');
            let t2 = l.ty();
            let n = d.op(&mut l, &t2);
            out.push(Inst::CmpXchg(dst, a, c, n, t.bits()));
        }
        "fence" => out.push(Inst::Nop),
        "extractelement" => {
            let t = l.ty();
            let a = d.op(&mut l, &t);
            l.expect(b',');
            let it = l.ty();
            let i = d.op(&mut l, &it);
            let Ty::Vec(n, e) = &t else { panic!() };
            out.push(Inst::ExtractE(dst, a, i, *n as u32, e.bits()));
        }
        "insertelement" => {
            let t = l.ty();
            let a = d.op(&mut l, &t);
            l.expect(b',');
            let et = l.ty();
            let v = d.op(&mut l, &et);
            l.expect(b',');
            let it = l.ty();
            let i = d.op(&mut l, &it);
            let Ty::Vec(n, e) = &t else { panic!() };
            out.push(Inst::InsertE(dst, a, v, i, *n as u32, e.bits()));
        }
        "shufflevector" => {
            let t = l.ty();
            let a = d.op(&mut l, &t);
            l.expect(b',');
            let t2 = l.ty();
            let b = d.op(&mut l, &t2);
            l.expect(b',');
            let mt = l.ty();
            let Ty::Vec(mn, _) = &mt else { panic!() };
            let mc = l.cval(&mt);
            let mask: Vec<i32> = match mc {
                Cv::Zero => vec![0; *mn as usize],
                Cv::Undef => vec![-1; *mn as usize],
                Cv::Agg(v) => v
                    .iter()
                    .map(|(_, c)| match c {
                        Cv::Int(l) => l[0] as i32,
                        _ => -1,
                    })
                    .collect(),
                Cv::Splat(b) => match &b.1 {
                    Cv::Int(l) => vec![l[0] as i32; *mn as usize],
                    _ => vec![-1; *mn as usize],
                },
                _ => panic!("shuffle mask {}", s),
            };
            let Ty::Vec(n, e) = &t else { panic!() };
            out.push(Inst::Shuffle(dst, a, b, mask.into(), *n as u32, e.bits()));
        }
        _ => out.push(Inst::Bad(s.into())),
    }
}
