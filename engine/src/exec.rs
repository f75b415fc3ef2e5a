//! Symbolic execution.

use crate::decode::*;
use crate::expr::*;
use crate::ll::*;
use crate::smt::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val {
    I(u64),
    X(Eid),
    A(Rc<Vec<Val>>),
}

const STACK: u32 = 0x1000_0000;
const GLOB: u32 = 0x2000_0000;
const FUNC: u32 = 0x3000_0000;
const EXTF: u32 = 0x3800_0000;

#[derive(Clone)]
pub struct Obj {
    data: Vec<u8>,
    sym: Option<Vec<(Eid, u32)>>,
}

type Chunk = [Option<Rc<Obj>>; 32];

#[derive(Clone)]
struct Frame {
    f: &'static Func,
    ip: u32,
    base: u32,
    ret: Option<u32>,
    edge: *const Edge, // normal destination of an invoke, or null
}

pub struct Wit {
    model: Model,
    cache: RefCell<HashMap<Eid, Limbs, FxBuild>>,
}

#[derive(Clone)]
pub struct State {
    regs: Vec<Val>,
    frames: Vec<Frame>,
    heap: Vec<Rc<Chunk>>,
    heap_next: u32,
    free: Vec<u32>,
    stack: Vec<Rc<Obj>>,
    globs: Rc<HashMap<u32, Rc<Obj>>>,
    cons: Vec<Eid>,
    facts: Rc<HashSet<Eid>>,
    subst: Rc<HashMap<Eid, Eid>>,
    smask: u128,
    smemo: Rc<RefCell<HashMap<Eid, Eid>>>,
    wit: Option<Rc<Wit>>,
    vars: Vec<u32>, // widths
    pending: Option<Eid>,
    allow_panic: bool,
    observes: Vec<Vec<(Eid, u32, u8)>>,
    covers: Vec<String>,
    steps0: u64,
}

#[derive(Default, Clone)]
pub struct Violation {
    pub kind: String,
    pub id: String,
    pub loc: String,
    pub stack: Vec<String>,
    pub inputs: Vec<Vec<u8>>,
    pub validated: bool,
    pub count: u64,
    pub covers: Vec<String>,
}

pub struct Engine {
    pub m: &'static Module,
    pub p: Pool,
    pub smt: Smt,
    funcs: Vec<Option<&'static Func>>,
    exts: Vec<String>,
    ext_idx: HashMap<String, u32>,
    globals: Vec<Option<Rc<Obj>>>,
    pend_globals: Vec<u32>,
    consts: Vec<Val>,
    panic_fn: Vec<u8>,
    work: Vec<State>,
    pub args: Vec<u64>,
    qcache: HashMap<Vec<Eid>, Option<(HashMap<u32, Limbs>, Vec<(Eid, Limbs)>)>>,
    // statistics and results
    pub steps: u64,
    pub paths_ok: u64,
    pub paths_assume: u64,
    pub paths_panic: u64,
    pub forks: u64,
    pub checks: u64,
    pub checks_trivial: u64,
    pub checks_solver: u64,
    reltab: Vec<u64>,
    pub trace_calls: Option<String>,
    pub cache_hits: u64,
    pub covers: BTreeMap<String, u64>,
    pub violations: BTreeMap<String, Vec<Violation>>,
    pub traces: Vec<(Vec<Vec<u8>>, Vec<Vec<u8>>, Vec<String>)>,
    pub max_traces: usize,
    pub seed: u64,
    pub max_steps: u64,
    pub max_paths: u64,
    pub deadline: Option<std::time::Instant>,
    pub nowit: u64,
    pub verbose: bool,
    pub max_path_steps: u64,
    pub notes: Vec<String>,
}

type R<T> = Result<T, String>;

/// what a single instruction tells the loop
enum Flow {
    Next,
    Jumped,
    /// path is over
    End,
}

enum Stop {
    Ok,
    Assume,
    Panic,
}

impl Env for Engine {
    fn konst(&mut self, t: &Ty, c: &Cv) -> Op {
        let v = self.cval(t, c);
        match v {
            Val::I(x) => Op::C(x),
            _ => {
                self.consts.push(v);
                Op::K(self.consts.len() as u32 - 1)
            }
        }
    }
    fn callee(&mut self, name: &str) -> Callee {
        let name = self.m.resolve(name);
        if let Some(i) = self.m.fn_by_name.get(name) {
            if !is_intercepted(name) {
                return Callee::Fn(*i);
            }
        }
        Callee::Ext(self.ext(name))
    }
}

fn is_intercepted(name: &str) -> bool {
    is_panic(name) || name.contains("18handle_alloc_error") || name.contains("4std7process5abort")
}

fn is_panic(name: &str) -> bool {
    (name.contains("4core9panicking") || name.contains("3std9panicking"))
        && !name.contains("panic_count")
        && !name.contains("9panicking9panicking")
        && !name.contains("8take_hook")
        && !name.contains("8set_hook")
}

impl Engine {
    pub fn new(m: &'static Module, timeout_ms: u32) -> Engine {
        let nf = m.fns.len();
        let ng = m.globals.len();
        let panic_fn = m.fns.iter().map(|f| is_intercepted(&f.name) as u8).collect();
        Engine {
            m,
            p: Pool::new(),
            smt: Smt::new(timeout_ms),
            funcs: vec![None; nf],
            exts: vec![],
            ext_idx: HashMap::new(),
            globals: vec![None; ng],
            pend_globals: vec![],
            consts: vec![],
            panic_fn,
            work: vec![],
            args: vec![],
            qcache: HashMap::new(),
            steps: 0,
            paths_ok: 0,
            paths_assume: 0,
            paths_panic: 0,
            forks: 0,
            checks: 0,
            checks_trivial: 0,
            checks_solver: 0,
            reltab: vec![],
            trace_calls: std::env::var("SYMX_TRACE").ok(),
            cache_hits: 0,
            covers: BTreeMap::new(),
            violations: BTreeMap::new(),
            traces: vec![],
            max_traces: 0,
            seed: 1,
            max_steps: u64::MAX,
            max_paths: u64::MAX,
            deadline: None,
            nowit: 0,
            verbose: false,
            max_path_steps: u64::MAX,
            notes: vec![],
        }
    }
    fn ext(&mut self, name: &str) -> u32 {
        if let Some(i) = self.ext_idx.get(name) {
            return *i;
        }
        let i = self.exts.len() as u32;
        self.exts.push(name.to_string());
        self.ext_idx.insert(name.to_string(), i);
        i
    }

    // ---------- constants and globals ----------
    fn mkv(&self, e: Eid) -> Val {
        if self.p.w(e) <= 64 {
            if let Some(l) = self.p.is_const(e) {
                return Val::I(l[0]);
            }
        }
        Val::X(e)
    }
    fn sym_addr(&mut self, name: &str) -> u64 {
        let name = self.m.resolve(name).to_string();
        if let Some(i) = self.m.fn_by_name.get(&name) {
            return ((FUNC + i) as u64) << 32;
        }
        if let Some(i) = self.m.global_by_name.get(&name) {
            let i = *i;
            if self.globals[i as usize].is_none() {
                self.globals[i as usize] = Some(Rc::new(Obj { data: vec![], sym: None }));
                self.pend_globals.push(i);
            }
            return ((GLOB + i) as u64) << 32;
        }
        // declared only; weak symbols are absent
        let weak = ["statx", "gettid", "__cxa_thread_atexit_impl", "__dso_handle", "gnu_get_libc_version", "copy_file_range"];
        if weak.contains(&name.as_str()) {
            return 0;
        }
        ((EXTF + self.ext(&name)) as u64) << 32
    }
    fn cval(&mut self, t: &Ty, c: &Cv) -> Val {
        match t {
            Ty::Struct(f, _) => {
                let f = f.clone();
                let v = match c {
                    Cv::Agg(v) => v.iter().map(|(t, c)| self.cval(t, c)).collect(),
                    _ => f.iter().map(|t| self.cval(t, &Cv::Zero)).collect(),
                };
                Val::A(Rc::new(v))
            }
            Ty::Arr(n, e) => {
                let e = e.clone();
                let v = match c {
                    Cv::Agg(v) => v.iter().map(|(t, c)| self.cval(t, c)).collect(),
                    Cv::Bytes(b) => b.iter().map(|x| Val::I(*x as u64)).collect(),
                    _ => (0..*n).map(|_| self.cval(&e, &Cv::Zero)).collect(),
                };
                Val::A(Rc::new(v))
            }
            Ty::Vec(n, e) => {
                let lanes: Vec<Eid> = match c {
                    Cv::Agg(v) => v
                        .iter()
                        .map(|(t, c)| {
                            let x = self.cval(t, c);
                            self.ex(&x, t.bits())
                        })
                        .collect(),
                    Cv::Splat(b) => {
                        let x = self.cval(&b.0, &b.1);
                        let y = self.ex(&x, e.bits());
                        vec![y; *n as usize]
                    }
                    Cv::Bytes(b) => b.iter().map(|x| self.p.cst(*x as u64, 8)).collect(),
                    _ => vec![self.p.cst(0, e.bits()); *n as usize],
                };
                let r = self.p.concat(&lanes);
                self.mkv(r)
            }
            Ty::Int(_) | Ty::Ptr => {
                let w = t.bits();
                match c {
                    Cv::Int(l) => {
                        if w <= 64 {
                            Val::I(l[0] & mask64(w))
                        } else {
                            let neg = (*l.last().unwrap() >> 63) == 1;
                            let mut v: Vec<u64> =
                                (0..nl(w)).map(|i| l.get(i).copied().unwrap_or(if neg { !0 } else { 0 })).collect();
                            norm(&mut v, w);
                            Val::X(self.p.cstl(v.into(), w))
                        }
                    }
                    Cv::Null | Cv::Undef | Cv::Zero => {
                        if w <= 64 {
                            Val::I(0)
                        } else {
                            Val::X(self.p.cst(0, w))
                        }
                    }
                    Cv::Global(n) => Val::I(self.sym_addr(n)),
                    Cv::Cast(t1, v, _) => {
                        let x = self.cval(t1, v);
                        match x {
                            // entry of a relative lookup table: the difference of two addresses
                            Val::I(x) if w == 32 && matches!(&**v, Cv::Bin(o, ..) if o == "sub") => {
                                self.reltab.push(x);
                                Val::I(0x7a00_0000 + self.reltab.len() as u64 - 1)
                            }
                            Val::I(x) => Val::I(x & mask64(w)),
                            _ => panic!("constant cast"),
                        }
                    }
                    Cv::Bin(op, t1, a, b) => {
                        let (x, y) = (self.cval(t1, a), self.cval(t1, b));
                        let (Val::I(x), Val::I(y)) = (x, y) else { panic!("constant {}", op) };
                        let r = match op.as_str() {
                            "add" => x.wrapping_add(y),
                            "sub" => x.wrapping_sub(y),
                            _ => x ^ y,
                        };
                        Val::I(r & mask64(w))
                    }
                    Cv::Gep(t1, b, idx) => {
                        let Val::I(mut a) = self.cval(&Ty::Ptr, b) else { panic!() };
                        let mut cur = t1.clone();
                        for (k, (it, iv)) in idx.iter().enumerate() {
                            let Val::I(i) = self.cval(it, iv) else { panic!() };
                            let i = sx64(i, it.bits());
                            if k == 0 {
                                a = a.wrapping_add((i as u64).wrapping_mul(cur.size()));
                            } else {
                                a = a.wrapping_add(cur.field_off(i as usize));
                                cur = cur.field(i as usize).clone();
                            }
                        }
                        Val::I(a)
                    }
                    _ => panic!("constant {:?} of {:?}", c, t),
                }
            }
            _ => Val::I(0),
        }
    }
    fn put_const(&mut self, o: &mut Obj, off: usize, t: &Ty, c: &Cv) {
        match (t, c) {
            (_, Cv::Zero) | (_, Cv::Undef) | (_, Cv::Null) => {}
            (_, Cv::Bytes(b)) => o.data[off..off + b.len()].copy_from_slice(b),
            (Ty::Struct(..), Cv::Agg(v)) | (Ty::Arr(..), Cv::Agg(v)) => {
                for (i, (ft, fc)) in v.iter().enumerate() {
                    let fo = t.field_off(i) as usize;
                    self.put_const(o, off + fo, ft, fc);
                }
            }
            _ => {
                let v = self.cval(t, c);
                let w = t.bits();
                let e = self.ex(&v, w);
                let l = self.p.is_const(e).expect("constant").to_vec();
                let n = t.store_size() as usize;
                let b = big::to_bytes(&l, w);
                o.data[off..off + n].copy_from_slice(&b[..n]);
            }
        }
    }
    fn materialize(&mut self) {
        while let Some(i) = self.pend_globals.pop() {
            let g = &self.m.globals[i as usize];
            let line = &self.m.text[g.line.0..g.line.1];
            let mut l = Lex { s: line.as_bytes(), p: 1 };
            l.name();
            l.expect(b'=');
            let mut ext = false;
            loop {
                let c = l.peek();
                if c == b'(' {
                    l.skip_group();
                    continue;
                }
                let w = l.word();
                if w == "external" || w == "extern_weak" {
                    ext = true;
                }
                if w == "global" || w == "constant" {
                    break;
                }
                assert!(!w.is_empty(), "global {}", line);
            }
            let t = l.ty();
            let mut o = Obj { data: vec![0; (t.size() as usize).max(1)], sym: None };
            if !ext {
                let c = l.cval(&t);
                self.put_const(&mut o, 0, &t, &c);
            }
            self.globals[i as usize] = Some(Rc::new(o));
        }
    }
    fn func(&mut self, i: u32) -> &'static Func {
        if let Some(f) = self.funcs[i as usize] {
            return f;
        }
        let m = self.m;
        let f = decode(m, i, self);
        self.materialize();
        let f: &'static Func = Box::leak(Box::new(f));
        self.funcs[i as usize] = Some(f);
        f
    }

    // ---------- values ----------
    fn ex(&mut self, v: &Val, w: u32) -> Eid {
        match v {
            Val::I(x) => self.p.cst(*x, w),
            Val::X(e) => {
                debug_assert_eq!(self.p.w(*e), w);
                *e
            }
            Val::A(_) => panic!("aggregate as a scalar"),
        }
    }
    #[inline(always)]
    fn get(&self, st: &State, base: usize, o: Op) -> Val {
        match o {
            Op::R(r) => st.regs[base + r as usize].clone(),
            Op::C(c) => Val::I(c),
            Op::K(k) => self.consts[k as usize].clone(),
        }
    }

    // ---------- memory ----------
    fn obj<'a>(&'a self, st: &'a State, id: u32) -> Option<&'a Obj> {
        if id < STACK {
            st.heap.get((id / 32) as usize).and_then(|c| c[(id % 32) as usize].as_deref())
        } else if id < GLOB {
            st.stack.get((id - STACK) as usize).map(|o| &**o)
        } else if id < FUNC {
            if let Some(o) = st.globs.get(&id) {
                return Some(o);
            }
            self.globals.get((id - GLOB) as usize).and_then(|o| o.as_deref())
        } else {
            None
        }
    }
    fn obj_mut<'a>(&'a mut self, st: &'a mut State, id: u32) -> Option<&'a mut Obj> {
        if id < STACK {
            let c = st.heap.get_mut((id / 32) as usize)?;
            let c = Rc::make_mut(c);
            c[(id % 32) as usize].as_mut().map(|o| Rc::make_mut(o))
        } else if id < GLOB {
            st.stack.get_mut((id - STACK) as usize).map(|o| Rc::make_mut(o))
        } else if id < FUNC {
            if !st.globs.contains_key(&id) {
                let o = self.globals.get((id - GLOB) as usize)?.clone()?;
                Rc::make_mut(&mut st.globs).insert(id, o);
            }
            Rc::make_mut(&mut st.globs).get_mut(&id).map(|o| Rc::make_mut(o))
        } else {
            None
        }
    }
    fn check_range(&self, st: &State, addr: u64, n: u64) -> R<()> {
        let id = (addr >> 32) as u32;
        let off = addr & 0xffff_ffff;
        match self.obj(st, id) {
            Some(o) if off + n <= o.data.len() as u64 => Ok(()),
            Some(o) => Err(format!("MEM out-of-bounds access of {} bytes at offset {} of object {:#x} of {} bytes", n, off, id, o.data.len())),
            None => Err(format!("MEM access of {} bytes at invalid address {:#x}", n, addr)),
        }
    }
    fn load(&mut self, st: &State, addr: u64, w: u32, n: u32) -> R<Val> {
        let id = (addr >> 32) as u32;
        let off = (addr & 0xffff_ffff) as usize;
        let n = n as usize;
        let parts: Vec<(Eid, u32, u8)>;
        {
            let o = match self.obj(st, id) {
                Some(o) => o,
                None => return Err(format!("MEM load of {} bytes at invalid address {:#x}", n, addr)),
            };
            if off + n > o.data.len() {
                return Err(format!("MEM load of {} bytes at offset {} of object {:#x} of {} bytes", n, off, id, o.data.len()));
            }
            let symbolic = match &o.sym {
                None => false,
                Some(s) => s[off..off + n].iter().any(|x| x.0 != 0),
            };
            if !symbolic {
                let d = &o.data[off..off + n];
                if n <= 8 {
                    let mut b = [0u8; 8];
                    b[..n].copy_from_slice(d);
                    let v = u64::from_le_bytes(b) & mask64(w);
                    if w <= 64 {
                        return Ok(Val::I(v));
                    }
                }
                let mut l = big::from_bytes(d).to_vec();
                l.resize(nl(w), 0);
                norm(&mut l, w);
                let e = self.p.cstl(l.into(), w);
                return Ok(self.mkv(e));
            }
            let s = o.sym.as_ref().unwrap();
            parts = (off..off + n).map(|i| (s[i].0, s[i].1, o.data[i])).collect();
        }
        let e = self.join(&parts);
        let fw = n as u32 * 8;
        let e = if w < fw {
            self.p.extract(e, 0, w)
        } else if w > fw {
            self.p.zext(e, w)
        } else {
            e
        };
        Ok(self.mkv(e))
    }
    /// bytes (expression 0 = concrete) to one term
    fn join(&mut self, parts: &[(Eid, u32, u8)]) -> Eid {
        let mut out = vec![];
        let mut i = 0;
        while i < parts.len() {
            let (e, k, d) = parts[i];
            if e == 0 {
                let mut j = i;
                let mut bs = vec![];
                while j < parts.len() && parts[j].0 == 0 {
                    bs.push(parts[j].2);
                    j += 1;
                }
                let c = self.p.cstl(big::from_bytes(&bs), bs.len() as u32 * 8);
                out.push(c);
                i = j;
                let _ = d;
            } else {
                let mut j = i + 1;
                while j < parts.len() && parts[j].0 == e && parts[j].1 == k + (j - i) as u32 {
                    j += 1;
                }
                let x = self.p.extract(e, k * 8, (j - i) as u32 * 8);
                out.push(x);
                i = j;
            }
        }
        self.p.concat(&out)
    }
    fn store_bytes(&mut self, st: &mut State, addr: u64, parts: &[(Eid, u32, u8)]) -> R<()> {
        let id = (addr >> 32) as u32;
        let off = (addr & 0xffff_ffff) as usize;
        self.check_range(st, addr, parts.len() as u64)?;
        let anysym = parts.iter().any(|p| p.0 != 0);
        let o = self.obj_mut(st, id).unwrap();
        for (i, p) in parts.iter().enumerate() {
            o.data[off + i] = p.2;
        }
        if anysym && o.sym.is_none() {
            o.sym = Some(vec![(0, 0); o.data.len()]);
        }
        if let Some(s) = &mut o.sym {
            for (i, p) in parts.iter().enumerate() {
                s[off + i] = (p.0, p.1);
            }
        }
        Ok(())
    }
    fn store_conc(&mut self, st: &mut State, addr: u64, d: &[u8]) -> R<()> {
        let id = (addr >> 32) as u32;
        let off = (addr & 0xffff_ffff) as usize;
        let n = d.len();
        match self.obj_mut(st, id) {
            Some(o) if off + n <= o.data.len() => {
                o.data[off..off + n].copy_from_slice(d);
                if let Some(s) = &mut o.sym {
                    for x in &mut s[off..off + n] {
                        *x = (0, 0)
                    }
                }
                Ok(())
            }
            _ => self.check_range(st, addr, n as u64).and(Err("MEM store".into())),
        }
    }
    fn split(&mut self, e: Eid, n: usize) -> Vec<(Eid, u32, u8)> {
        // constant bytes of concatenations are stored as concrete bytes
        let mut out = Vec::with_capacity(n);
        for i in 0..n {
            let b = self.p.extract(e, i as u32 * 8, 8);
            match self.p.is_const(b) {
                Some(l) => out.push((0, 0, l[0] as u8)),
                None => out.push((e, i as u32, 0)),
            }
        }
        out
    }
    fn store(&mut self, st: &mut State, addr: u64, v: &Val, t: &Ty) -> R<()> {
        match t {
            Ty::Int(_) | Ty::Ptr | Ty::Vec(..) => {
                let n = t.store_size() as usize;
                let w = t.bits();
                match v {
                    Val::I(x) if n <= 8 => self.store_conc(st, addr, &x.to_le_bytes()[..n]),
                    _ => {
                        let mut e = self.ex(v, w);
                        if (n as u32) * 8 != w {
                            e = self.p.zext(e, n as u32 * 8);
                        }
                        if let Some(l) = self.p.is_const(e) {
                            let b = big::to_bytes(l, n as u32 * 8);
                            return self.store_conc(st, addr, &b);
                        }
                        let parts = self.split(e, n);
                        self.store_bytes(st, addr, &parts)
                    }
                }
            }
            Ty::Struct(f, _) => {
                let Val::A(a) = v else { panic!() };
                for i in 0..f.len() {
                    self.store(st, addr + t.field_off(i), &a[i], &f[i])?;
                }
                Ok(())
            }
            Ty::Arr(n, e) => {
                let Val::A(a) = v else { panic!() };
                for i in 0..*n {
                    self.store(st, addr + t.field_off(i as usize), &a[i as usize], e)?;
                }
                Ok(())
            }
            _ => Err(format!("store of {:?}", t)),
        }
    }
    fn load_ty(&mut self, st: &State, addr: u64, t: &Ty) -> R<Val> {
        match t {
            Ty::Int(_) | Ty::Ptr | Ty::Vec(..) => self.load(st, addr, t.bits(), t.store_size() as u32),
            Ty::Struct(f, _) => {
                let mut v = vec![];
                for i in 0..f.len() {
                    v.push(self.load_ty(st, addr + t.field_off(i), &f[i])?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Arr(n, e) => {
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load_ty(st, addr + t.field_off(i as usize), e)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            _ => Err(format!("load of {:?}", t)),
        }
    }
    fn read_parts(&self, st: &State, addr: u64, n: u64) -> R<Vec<(Eid, u32, u8)>> {
        if n == 0 {
            return Ok(vec![]);
        }
        self.check_range(st, addr, n)?;
        let o = self.obj(st, (addr >> 32) as u32).unwrap();
        let off = (addr & 0xffff_ffff) as usize;
        Ok((off..off + n as usize)
            .map(|i| match &o.sym {
                Some(s) => (s[i].0, s[i].1, o.data[i]),
                None => (0, 0, o.data[i]),
            })
            .collect())
    }
    fn copy(&mut self, st: &mut State, dst: u64, src: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        self.check_range(st, src, n)?;
        let so = (src & 0xffff_ffff) as usize;
        let o = self.obj(st, (src >> 32) as u32).unwrap();
        let symbolic = match &o.sym {
            None => false,
            Some(s) => s[so..so + n as usize].iter().any(|x| x.0 != 0),
        };
        if !symbolic {
            if n <= 256 {
                let mut buf = [0u8; 256];
                buf[..n as usize].copy_from_slice(&o.data[so..so + n as usize]);
                return self.store_conc(st, dst, &buf[..n as usize]);
            }
            let v = o.data[so..so + n as usize].to_vec();
            return self.store_conc(st, dst, &v);
        }
        let parts = self.read_parts(st, src, n)?;
        self.store_bytes(st, dst, &parts)
    }
    fn term(&mut self, st: &State, addr: u64, n: u64) -> R<Eid> {
        let parts = self.read_parts(st, addr, n)?;
        Ok(self.join(&parts))
    }
    fn conc_bytes(&self, st: &State, addr: u64, n: u64) -> Option<Vec<u8>> {
        let p = self.read_parts(st, addr, n).ok()?;
        if p.iter().any(|x| x.0 != 0) {
            return None;
        }
        Some(p.iter().map(|x| x.2).collect())
    }
    fn malloc(&mut self, st: &mut State, n: u64) -> R<u64> {
        if n > 1 << 30 {
            return Err(format!("allocation of {} bytes", n));
        }
        let id = match st.free.pop() {
            Some(i) => i,
            None => {
                st.heap_next += 1;
                st.heap_next - 1
            }
        };
        let ch = (id / 32) as usize;
        while st.heap.len() <= ch {
            st.heap.push(Rc::new(Default::default()));
        }
        Rc::make_mut(&mut st.heap[ch])[(id % 32) as usize] = Some(Rc::new(Obj { data: vec![0; n as usize], sym: None }));
        Ok((id as u64) << 32)
    }
    fn mfree(&mut self, st: &mut State, a: u64) -> R<()> {
        if a == 0 {
            return Ok(());
        }
        let id = (a >> 32) as u32;
        if id >= STACK || a & 0xffff_ffff != 0 || self.obj(st, id).is_none() {
            return Err(format!("MEM free of {:#x}", a));
        }
        Rc::make_mut(&mut st.heap[(id / 32) as usize])[(id % 32) as usize] = None;
        st.free.push(id);
        Ok(())
    }

    // ---------- path conditions ----------
    fn resolve(&mut self, st: &State, e: Eid) -> Eid {
        if self.p.is_const(e).is_some() {
            return e;
        }
        if self.p.w(e) == 1 {
            if st.facts.contains(&e) {
                return 1;
            }
            let n = self.p.not(e);
            if st.facts.contains(&n) {
                return 0;
            }
        }
        if self.p.vars[e as usize] & st.smask != 0 {
            let mut memo = st.smemo.borrow_mut();
            let r = self.p.subst(e, &st.subst, st.smask, &mut memo);
            drop(memo);
            if r != e {
                if self.p.w(r) == 1 && self.p.is_const(r).is_none() {
                    if st.facts.contains(&r) {
                        return 1;
                    }
                    let n = self.p.not(r);
                    if st.facts.contains(&n) {
                        return 0;
                    }
                }
                return r;
            }
        }
        e
    }
    fn add_fact(&mut self, st: &mut State, e: Eid, implied: bool) {
        match self.p.n(e).clone() {
            Node::Const(_) => return,
            Node::Bin(Bop::And, a, b) => {
                self.add_fact(st, a, implied);
                self.add_fact(st, b, implied);
                Rc::make_mut(&mut st.facts).insert(e);
                return;
            }
            Node::Not(x) => {
                if let Node::Bin(Bop::Or, a, b) = *self.p.n(x) {
                    let (na, nb) = (self.p.not(a), self.p.not(b));
                    self.add_fact(st, na, implied);
                    self.add_fact(st, nb, implied);
                    Rc::make_mut(&mut st.facts).insert(e);
                    return;
                }
            }
            _ => {}
        }
        if !Rc::make_mut(&mut st.facts).insert(e) {
            return;
        }
        if !implied {
            st.cons.push(e);
        }
        // substitutions: conditions become constants, terms equal to a constant too
        let mut add: Vec<(Eid, Eid)> = vec![(e, 1)];
        match *self.p.n(e) {
            Node::Not(x) => add.push((x, 0)),
            Node::Eq(a, b) if self.p.is_const(b).is_some() => add.push((a, b)),
            _ => {
                let n = self.p.not(e);
                add.push((n, 0));
            }
        }
        let s = Rc::make_mut(&mut st.subst);
        for (k, v) in add {
            s.insert(k, v);
            st.smask |= self.p.vars[k as usize];
        }
        st.smemo = Rc::new(RefCell::new(HashMap::new()));
    }
    fn slice(&self, st: &State, e: Eid) -> Vec<Eid> {
        let mut m = self.p.vars[e as usize];
        let mut inn = vec![false; st.cons.len()];
        loop {
            let mut ch = false;
            for (i, c) in st.cons.iter().enumerate() {
                let v = self.p.vars[*c as usize];
                if !inn[i] && v & m != 0 {
                    inn[i] = true;
                    if v & !m != 0 {
                        m |= v;
                    }
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        let mut q: Vec<Eid> = st.cons.iter().enumerate().filter(|(i, _)| inn[*i]).map(|(_, c)| *c).collect();
        q.push(e);
        q.sort();
        q.dedup();
        q
    }
    /// None = unsatisfiable
    fn query(&mut self, q: Vec<Eid>) -> R<Option<(HashMap<u32, Limbs>, Vec<(Eid, Limbs)>)>> {
        if q.contains(&0) {
            return Ok(None);
        }
        if let Some(r) = self.qcache.get(&q) {
            self.cache_hits += 1;
            return Ok(r.clone());
        }
        let r = match self.smt.check(&mut self.p, &q, true) {
            Res::Unsat => None,
            Res::Sat(m, h) => Some((m, h)),
            Res::Unknown => {
                return Err(format!(
                    "solver timeout/unknown on a query of {} constraints; last: {}",
                    q.len(),
                    self.p.show(*q.last().unwrap(), 5)
                ))
            }
        };
        self.qcache.insert(q, r.clone());
        Ok(r)
    }
    fn wit_bool(&self, w: &Wit, e: Eid) -> bool {
        self.p.eval(e, &w.model, &mut w.cache.borrow_mut())[0] == 1
    }
    /// witness out of the old one and a model of the slice; None if it can't be completed
    fn rewit(&mut self, st: &State, extra: Eid, m: &HashMap<u32, Limbs>, hs: &[(Eid, Limbs)]) -> Option<Rc<Wit>> {
        let mut model: Model = match &st.wit {
            Some(w) => w.model.clone(),
            None => (0..st.vars.len()).map(|i| Some(default_val(i as u32, st.vars[i]))).collect(),
        };
        for (i, v) in m {
            if (*i as usize) < model.len() {
                model[*i as usize] = Some(v.clone());
            }
        }
        let mut cons: Vec<Eid> = st.cons.clone();
        cons.push(extra);
        let try_ = |p: &Pool, model: &Model| -> Option<Rc<Wit>> {
            let w = Wit { model: model.clone(), cache: RefCell::new(HashMap::with_hasher(FxBuild)) };
            for c in cons.iter().rev() {
                if p.eval(*c, &w.model, &mut w.cache.borrow_mut())[0] != 1 {
                    return None;
                }
            }
            Some(Rc::new(w))
        };
        if let Some(w) = try_(&self.p, &model) {
            return Some(w);
        }
        if hs.is_empty() {
            return None;
        }
        // carry values of hash terms over to real hash values
        let mut slots: Vec<(u32, usize, Eid)> = vec![];
        for (vi, v) in m {
            let w = *st.vars.get(*vi as usize)?;
            let vb = big::to_bytes(v, w);
            for (h, hv) in hs {
                let hb = big::to_bytes(hv, self.p.w(*h));
                if vb.len() >= hb.len() {
                    for o in 0..=vb.len() - hb.len() {
                        if vb[o..o + hb.len()] == hb[..] {
                            slots.push((*vi, o, *h));
                        }
                    }
                }
            }
        }
        if slots.is_empty() {
            return None;
        }
        for _ in 0..40 {
            let mut cache = HashMap::with_hasher(FxBuild);
            let mut next = model.clone();
            for (vi, o, h) in &slots {
                let real = self.p.eval(*h, &model, &mut cache);
                let rb = big::to_bytes(&real, self.p.w(*h));
                let w = st.vars[*vi as usize];
                let mut vb = big::to_bytes(next[*vi as usize].as_ref().unwrap(), w);
                vb[*o..*o + rb.len()].copy_from_slice(&rb);
                next[*vi as usize] = Some(big::from_bytes(&vb));
            }
            if next == model {
                break;
            }
            model = next;
        }
        try_(&self.p, &model)
    }
    fn feasible(&mut self, st: &State, e: Eid) -> R<Option<Option<Rc<Wit>>>> {
        let q = self.slice(st, e);
        match self.query(q)? {
            None => Ok(None),
            Some((m, h)) => {
                let w = self.rewit(st, e, &m, &h);
                if w.is_none() {
                    self.nowit += 1;
                }
                Ok(Some(w))
            }
        }
    }
    /// decide a condition on the current path, forking the other alternative off; the forked state executes the current
    /// instruction again
    fn decide(&mut self, st: &mut State, c: Eid) -> R<bool> {
        let c = self.resolve(st, c);
        if c <= 1 {
            return Ok(c == 1);
        }
        let nc = self.p.not(c);
        if let Some(w) = st.wit.clone() {
            let b = self.wit_bool(&w, c);
            let (this, other) = if b { (c, nc) } else { (nc, c) };
            match self.feasible(st, other)? {
                None => self.add_fact(st, this, true),
                Some(w2) => {
                    let mut o = st.clone();
                    o.wit = w2;
                    self.add_fact(&mut o, other, false);
                    self.fork(o)?;
                    self.add_fact(st, this, false);
                }
            }
            return Ok(b);
        }
        let ft = self.feasible(st, c)?;
        let ff = self.feasible(st, nc)?;
        match (ft, ff) {
            (None, None) => Err("INFEASIBLE".into()),
            (Some(w), None) => {
                st.wit = w;
                self.add_fact(st, c, true);
                Ok(true)
            }
            (None, Some(w)) => {
                st.wit = w;
                self.add_fact(st, nc, true);
                Ok(false)
            }
            (Some(w1), Some(w2)) => {
                let mut o = st.clone();
                o.wit = w2;
                self.add_fact(&mut o, nc, false);
                self.fork(o)?;
                st.wit = w1;
                self.add_fact(st, c, false);
                Ok(true)
            }
        }
    }
    fn fork(&mut self, o: State) -> R<()> {
        self.forks += 1;
        if self.work.len() > 200_000 {
            return Err("too many pending paths".into());
        }
        self.work.push(o);
        Ok(())
    }
    fn concretize(&mut self, st: &mut State, e: Eid) -> R<u64> {
        loop {
            let e = self.resolve(st, e);
            if let Some(v) = self.p.as_u64(e) {
                return Ok(v);
            }
            let w = self.p.w(e);
            if w > 64 {
                return Err("concretization of a wide value".into());
            }
            let v = match st.wit.clone() {
                Some(wt) => self.p.eval(e, &wt.model, &mut wt.cache.borrow_mut())[0],
                None => {
                    let q = self.slice(st, 1);
                    let _ = q;
                    // any feasible value: ask the solver bit by bit through a fresh model of the slice
                    let t = self.p.eq(e, e);
                    let _ = t;
                    let eb = e_bool(&mut self.p, e);
                    let mut q = self.slice(st, eb);
                    q.retain(|x| *x != e_bool(&mut self.p, e));
                    match self.query(q)? {
                        None => return Err("INFEASIBLE".into()),
                        Some((m, _)) => {
                            let mut model: Model = vec![None; st.vars.len()];
                            for (i, v) in m {
                                if (i as usize) < model.len() {
                                    model[i as usize] = Some(v);
                                }
                            }
                            self.p.eval(e, &model, &mut HashMap::with_hasher(FxBuild))[0]
                        }
                    }
                }
            };
            let k = self.p.cst(v, w);
            let c = self.p.eq(e, k);
            if self.decide(st, c)? {
                return Ok(v);
            }
        }
    }
    fn addr(&mut self, st: &mut State, v: &Val) -> R<u64> {
        match v {
            Val::I(x) => Ok(*x),
            Val::X(e) => self.concretize(st, *e),
            _ => Err("aggregate address".into()),
        }
    }

    // ---------- reporting ----------
    fn stack_trace(&self, st: &State) -> Vec<String> {
        let mut out = vec![];
        for f in st.frames.iter().rev() {
            let d = f.f.dbg[f.ip as usize];
            let l = self.m.loc(d);
            if l.is_empty() {
                out.push(f.f.name.clone());
            }
            for (func, file, line) in l {
                out.push(format!("{} {}:{}", func, file, line));
            }
            if out.len() > 60 {
                break;
            }
        }
        out
    }
    fn inputs(&self, st: &State, w: Option<&Rc<Wit>>, m: Option<&HashMap<u32, Limbs>>) -> Vec<Vec<u8>> {
        (0..st.vars.len())
            .map(|i| {
                let wd = st.vars[i];
                let l = match (w, m) {
                    (Some(w), _) => w.model[i].clone(),
                    (None, Some(m)) => m.get(&(i as u32)).cloned(),
                    _ => None,
                };
                let l = l.unwrap_or_else(|| default_val(i as u32, wd));
                big::to_bytes(&l, wd)
            })
            .collect()
    }
    fn violation(&mut self, st: &State, kind: &str, id: &str, loc: String, w: Option<Rc<Wit>>, m: Option<HashMap<u32, Limbs>>) {
        let stack = self.stack_trace(st);
        let key = format!("{}|{}|{}", kind, id, loc);
        let v = Violation {
            kind: kind.into(),
            id: id.into(),
            loc,
            stack,
            inputs: self.inputs(st, w.as_ref(), m.as_ref()),
            validated: w.is_some(),
            count: 1,
            covers: st.covers.clone(),
        };
        let e = self.violations.entry(key).or_default();
        if e.len() < 6 {
            e.push(v);
        } else {
            let l = e.len();
            e[l - 1].count += 1;
        }
    }
    fn panic_info(&mut self, st: &State, args: &[Val]) -> (String, String) {
        let rd = |a: &Val| match a {
            Val::I(x) => Some(*x),
            _ => None,
        };
        let mut loc = String::from("?");
        if let Some(l) = args.last().and_then(|a| rd(a)) {
            if let Some(b) = self.conc_bytes(st, l, 24) {
                let u = |i: usize| u64::from_le_bytes(b[i..i + 8].try_into().unwrap());
                let (p, n) = (u(0), u(8));
                if n < 400 {
                    if let Some(s) = self.conc_bytes(st, p, n) {
                        let ln = u32::from_le_bytes(b[16..20].try_into().unwrap());
                        let s = String::from_utf8_lossy(&s).trim_end_matches('\0').to_string();
                        loc = format!("{}:{}", s, ln);
                    }
                }
            }
        }
        let mut msg = String::new();
        if let Some(p) = args.first().and_then(|a| rd(a)) {
            let mut a = p;
            while let Some(b) = self.conc_bytes(st, a, 1) {
                if b[0] == 0 || msg.len() > 160 {
                    break;
                }
                if b[0].is_ascii_graphic() || b[0] == b' ' {
                    msg.push(b[0] as char);
                } else {
                    msg.push('?');
                }
                a += 1;
            }
        }
        (loc, msg)
    }

    // ---------- main loop ----------
    pub fn run(&mut self, harness: &str) -> R<()> {
        let fi = *self.m.fn_by_name.get(harness).ok_or_else(|| format!("no harness {}", harness))?;
        let f = self.func(fi);
        let mut st = State {
            regs: vec![Val::I(0); f.nregs as usize],
            frames: vec![],
            heap: vec![],
            heap_next: 1,
            free: vec![],
            stack: vec![],
            globs: Rc::new(HashMap::new()),
            cons: vec![],
            facts: Rc::new(HashSet::new()),
            subst: Rc::new(HashMap::new()),
            smask: 0,
            smemo: Rc::new(RefCell::new(HashMap::new())),
            wit: Some(Rc::new(Wit { model: vec![], cache: RefCell::new(HashMap::with_hasher(FxBuild)) })),
            vars: vec![],
            pending: None,
            allow_panic: false,
            observes: vec![],
            covers: vec![],
            steps0: 0,
        };
        st.frames.push(Frame { f, ip: 0, base: 0, ret: None, edge: std::ptr::null() });
        st.stack.push(Rc::new(Obj { data: vec![0; f.frame as usize], sym: None }));
        self.work.push(st);
        while let Some(mut st) = self.work.pop() {
            match self.run_state(&mut st) {
                Ok(Stop::Ok) => {
                    self.paths_ok += 1;
                    for c in &st.covers {
                        *self.covers.entry(c.clone()).or_default() += 1;
                    }
                    // reservoir sample of the explored paths, replayed natively by the driver
                    let slot = if self.traces.len() < self.max_traces {
                        Some(self.traces.len())
                    } else if self.max_traces > 0 {
                        self.seed = self.seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                        let r = (self.seed >> 33) % self.paths_ok;
                        if (r as usize) < self.max_traces { Some(r as usize) } else { None }
                    } else {
                        None
                    };
                    if let Some(slot) = slot {
                        if let Some(w) = st.wit.clone() {
                            let ins = self.inputs(&st, Some(&w), None);
                            let obs: Vec<Vec<u8>> = st
                                .observes
                                .iter()
                                .map(|o| {
                                    o.iter()
                                        .map(|(e, k, d)| {
                                            if *e == 0 {
                                                *d
                                            } else {
                                                let v = self.p.eval(*e, &w.model, &mut w.cache.borrow_mut());
                                                (v[(*k / 8) as usize] >> (8 * (k % 8))) as u8
                                            }
                                        })
                                        .collect()
                                })
                                .collect();
                            let t = (ins, obs, st.covers.clone());
                            if slot < self.traces.len() {
                                self.traces[slot] = t;
                            } else {
                                self.traces.push(t);
                            }
                        }
                    }
                }
                Ok(Stop::Assume) => self.paths_assume += 1,
                Ok(Stop::Panic) => self.paths_panic += 1,
                Err(e) if e == "INFEASIBLE" => self.paths_assume += 1,
                Err(e) if e.starts_with("MEM ") => {
                    let w = st.wit.clone();
                    self.violation(&st, "memory", &e, String::new(), w, None);
                    self.paths_panic += 1;
                }
                Err(e) => {
                    let t = self.stack_trace(&st);
                    return Err(format!("{}\n  at {}", e, t.join("\n  at ")));
                }
            }
            if self.paths_ok + self.paths_assume + self.paths_panic > self.max_paths {
                return Err(format!("path limit {} exceeded", self.max_paths));
            }
        }
        Ok(())
    }

    fn run_state(&mut self, st: &mut State) -> R<Stop> {
        let mut tmp: Vec<Val> = vec![];
        let mut n = 0u64;
        loop {
            let fr = st.frames.last().unwrap();
            let f = fr.f;
            let base = fr.base as usize;
            let mut ip = fr.ip as usize;
            // executes within one function until a call or return changes the frame
            loop {
                n += 1;
                if n & 0xfffff == 0 {
                    self.steps += n;
                    st.steps0 += n;
                    n = 0;
                    if self.steps > self.max_steps {
                        return Err(format!("instruction limit {} exceeded", self.max_steps));
                    }
                    if st.steps0 > self.max_path_steps {
                        return Err(format!("instruction limit of a path {} exceeded", self.max_path_steps));
                    }
                    if let Some(d) = self.deadline {
                        if std::time::Instant::now() > d {
                            return Err("time limit exceeded".into());
                        }
                    }
                }
                let ins = &f.insts[ip];
                match ins {
                    Inst::Bin(k, w, d, a, b) => {
                        let (x, y) = (self.get(st, base, *a), self.get(st, base, *b));
                        let r = match (&x, &y) {
                            (Val::I(x), Val::I(y)) => match bin64(*k, *w, *x, *y) {
                                Some(r) => Val::I(r),
                                None => {
                                    st.frames.last_mut().unwrap().ip = ip as u32;
                                    return Err("division by zero".into());
                                }
                            },
                            _ => self.binx(*k, *w, &x, &y),
                        };
                        st.regs[base + *d as usize] = r;
                    }
                    Inst::Icmp(p, w, d, a, b) => {
                        let (x, y) = (self.get(st, base, *a), self.get(st, base, *b));
                        let r = match (&x, &y) {
                            (Val::I(x), Val::I(y)) => Val::I(icmp64(*p, *w, *x, *y) as u64),
                            _ => {
                                let (x, y) = (self.ex(&x, *w), self.ex(&y, *w));
                                let e = self.icmpx(*p, x, y);
                                self.mkv(e)
                            }
                        };
                        st.regs[base + *d as usize] = r;
                    }
                    Inst::Copy(d, a) => {
                        let v = self.get(st, base, *a);
                        st.regs[base + *d as usize] = v;
                    }
                    Inst::Zext(d, a, _, t) => {
                        let v = match self.get(st, base, *a) {
                            Val::I(x) if *t <= 64 => Val::I(x),
                            v => {
                                let f_ = if let Inst::Zext(_, _, f_, _) = ins { *f_ } else { 0 };
                                let e = self.ex(&v, f_);
                                let r = self.p.zext(e, *t);
                                self.mkv(r)
                            }
                        };
                        st.regs[base + *d as usize] = v;
                    }
                    Inst::Sext(d, a, fw, t) => {
                        let v = match self.get(st, base, *a) {
                            Val::I(x) if *t <= 64 => Val::I(sx64(x, *fw) as u64 & mask64(*t)),
                            v => {
                                let e = self.ex(&v, *fw);
                                let r = self.p.sext(e, *t);
                                self.mkv(r)
                            }
                        };
                        st.regs[base + *d as usize] = v;
                    }
                    Inst::Trunc(d, a, fw, t) => {
                        let v = match self.get(st, base, *a) {
                            Val::I(x) => Val::I(x & mask64(*t)),
                            v => {
                                let e = self.ex(&v, *fw);
                                let r = self.p.extract(e, 0, *t);
                                self.mkv(r)
                            }
                        };
                        st.regs[base + *d as usize] = v;
                    }
                    Inst::Alloca(d, off) => {
                        st.regs[base + *d as usize] =
                            Val::I(((STACK + st.frames.len() as u32 - 1) as u64) << 32 | *off as u64);
                    }
                    Inst::Gep(d, b, off, idx) => {
                        let bv = self.get(st, base, *b);
                        let mut conc = match &bv {
                            Val::I(x) => Some(x.wrapping_add(*off)),
                            _ => None,
                        };
                        for (o, w, s) in idx.iter() {
                            match (&mut conc, self.get(st, base, *o)) {
                                (Some(c), Val::I(i)) => *c = c.wrapping_add((sx64(i, *w) as u64).wrapping_mul(*s)),
                                _ => {
                                    conc = None;
                                    break;
                                }
                            }
                        }
                        let r = match conc {
                            Some(c) => Val::I(c),
                            None => {
                                let e = self.ex(&bv, 64);
                                let k = self.p.cst(*off, 64);
                                let mut e = self.p.bin(Bop::Add, e, k);
                                for (o, w, s) in idx.iter() {
                                    let v = self.get(st, base, *o);
                                    let x = self.ex(&v, *w);
                                    let x = self.p.sext(x, 64);
                                    let k = self.p.cst(*s, 64);
                                    let x = self.p.bin(Bop::Mul, x, k);
                                    e = self.p.bin(Bop::Add, e, x);
                                }
                                self.mkv(e)
                            }
                        };
                        st.regs[base + *d as usize] = r;
                    }
                    Inst::LoadI(d, a, w, nb) => {
                        let av = self.get(st, base, *a);
                        let addr = match av {
                            Val::I(x) => x,
                            v => {
                                st.frames.last_mut().unwrap().ip = ip as u32;
                                self.addr(st, &v)?
                            }
                        };
                        let v = match self.load(st, addr, *w, *nb) {
                            Ok(v) => v,
                            Err(e) => {
                                st.frames.last_mut().unwrap().ip = ip as u32;
                                return Err(e);
                            }
                        };
                        st.regs[base + *d as usize] = v;
                    }
                    Inst::Load(d, a, t) => {
                        st.frames.last_mut().unwrap().ip = ip as u32;
                        let av = self.get(st, base, *a);
                        let addr = self.addr(st, &av)?;
                        let v = self.load_ty(st, addr, t)?;
                        st.regs[base + *d as usize] = v;
                    }
                    Inst::Store(v, a, t) => {
                        st.frames.last_mut().unwrap().ip = ip as u32;
                        let av = self.get(st, base, *a);
                        let addr = self.addr(st, &av)?;
                        let v = self.get(st, base, *v);
                        self.store(st, addr, &v, t)?;
                    }
                    Inst::Select(d, c, a, b, t) => {
                        let cv = self.get(st, base, *c);
                        let r = match cv {
                            Val::I(x) => {
                                if x & 1 == 1 {
                                    self.get(st, base, *a)
                                } else {
                                    self.get(st, base, *b)
                                }
                            }
                            Val::X(ce) => {
                                let (x, y) = (self.get(st, base, *a), self.get(st, base, *b));
                                let ce = self.resolve(st, ce);
                                if ce <= 1 {
                                    if ce == 1 { x } else { y }
                                } else if matches!(t, Ty::Int(_)) {
                                    let (x, y) = (self.ex(&x, t.bits()), self.ex(&y, t.bits()));
                                    let e = self.p.ite(ce, x, y);
                                    self.mkv(e)
                                } else {
                                    st.frames.last_mut().unwrap().ip = ip as u32;
                                    if self.decide(st, ce)? { x } else { y }
                                }
                            }
                            _ => return Err("select".into()),
                        };
                        st.regs[base + *d as usize] = r;
                    }
                    Inst::Br(e) => {
                        ip = self.jump(st, f, base, e, &mut tmp);
                        continue;
                    }
                    Inst::CondBr(c, e1, e2) => {
                        let b = match self.get(st, base, *c) {
                            Val::I(x) => x & 1 == 1,
                            Val::X(e) => {
                                st.frames.last_mut().unwrap().ip = ip as u32;
                                self.decide(st, e)?
                            }
                            _ => return Err("branch".into()),
                        };
                        ip = self.jump(st, f, base, if b { e1 } else { e2 }, &mut tmp);
                        continue;
                    }
                    Inst::Switch(v, w, de, cases, edges) => {
                        let x = self.get(st, base, *v);
                        let e = match x {
                            Val::I(x) => match cases.iter().find(|c| c.0 == x) {
                                Some(c) => &edges[c.1 as usize],
                                None => de,
                            },
                            Val::X(x) => {
                                st.frames.last_mut().unwrap().ip = ip as u32;
                                let mut r = de;
                                for (ei, ed) in edges.iter().enumerate() {
                                    let mut c = 0;
                                    for (k, i) in cases {
                                        if *i as usize == ei {
                                            let kc = self.p.cst(*k, *w);
                                            let e = self.p.eq(x, kc);
                                            c = self.p.or(c, e);
                                        }
                                    }
                                    if self.decide(st, c)? {
                                        r = ed;
                                        break;
                                    }
                                }
                                r
                            }
                            _ => return Err("switch".into()),
                        };
                        ip = self.jump(st, f, base, e, &mut tmp);
                        continue;
                    }
                    Inst::Nop => {}
                    Inst::Unreachable => {
                        st.frames.last_mut().unwrap().ip = ip as u32;
                        return Err("MEM unreachable executed".into());
                    }
                    Inst::Ret(v) => {
                        let v = v.map(|o| self.get(st, base, o));
                        let fr = st.frames.pop().unwrap();
                        st.regs.truncate(base);
                        st.stack.truncate(st.frames.len());
                        if st.frames.is_empty() {
                            self.steps += n;
                            return Ok(Stop::Ok);
                        }
                        let cf = st.frames.last().unwrap().clone();
                        if let (Some(d), Some(v)) = (fr.ret, v) {
                            st.regs[cf.base as usize + d as usize] = v;
                        }
                        if fr.edge.is_null() {
                            st.frames.last_mut().unwrap().ip += 1;
                        } else {
                            let e: &Edge = unsafe { &*fr.edge };
                            let nip = self.jump(st, cf.f, cf.base as usize, e, &mut tmp);
                            st.frames.last_mut().unwrap().ip = nip as u32;
                        }
                        break;
                    }
                    Inst::Call(d, callee, args, edge, tys, rt) => {
                        st.frames.last_mut().unwrap().ip = ip as u32;
                        let fi = match callee {
                            Callee::Fn(i) => Some(*i),
                            Callee::Ext(_) => None,
                            Callee::Ind(o) => {
                                let v = self.get(st, base, *o);
                                let a = self.addr(st, &v)?;
                                let id = (a >> 32) as u32;
                                if (FUNC..EXTF).contains(&id) && a & 0xffff_ffff == 0 {
                                    Some(id - FUNC)
                                } else if id >= EXTF && a & 0xffff_ffff == 0 {
                                    let name = self.exts[(id - EXTF) as usize].clone();
                                    let av: Vec<Val> = args.iter().map(|o| self.get(st, base, *o)).collect();
                                    match self.external(st, &name, &av, tys, rt, *d, base)? {
                                        Flow::Next => {
                                            ip += 1;
                                            continue;
                                        }
                                        _ => return Err(format!("indirect external {}", name)),
                                    }
                                } else {
                                    return Err(format!("MEM call of address {:#x}", a));
                                }
                            }
                        };
                        match fi {
                            Some(i) if self.panic_fn[i as usize] == 0 => {
                                let nf = self.func(i);
                                let nb = st.regs.len();
                                for o in args.iter().take(nf.nparams as usize) {
                                    let v = self.get(st, base, *o);
                                    st.regs.push(v);
                                }
                                if st.regs.len() != nb + nf.nparams as usize {
                                    return Err(format!("call of {} with {} arguments", nf.name, args.len()));
                                }
                                if let Some(t) = &self.trace_calls {
                                    if nf.name.contains(t.as_str()) {
                                        let av: Vec<String> = st.regs[nb..].iter().map(|v| match v {
                                            Val::I(x) => format!("{:#x}", x),
                                            _ => "?".into(),
                                        }).collect();
                                        let mut txt = String::new();
                                        if let (Some(Val::I(p)), Some(Val::I(l))) = (st.regs.get(nb + 1), st.regs.get(nb + 2)) {
                                            if *l < 200 {
                                                let (p, l) = (*p, *l);
                                                if let Some(b) = self.conc_bytes(st, p, l as u64) {
                                                    txt = String::from_utf8_lossy(&b).to_string();
                                                }
                                            }
                                        }
                                        eprintln!("call {} {:?} {:?}", nf.name, av, txt);
                                    }
                                }
                                st.regs.resize(nb + nf.nregs as usize, Val::I(0));
                                if st.frames.len() > 2000 {
                                    return Err("call depth".into());
                                }
                                st.frames.push(Frame {
                                    f: nf,
                                    ip: 0,
                                    base: nb as u32,
                                    ret: *d,
                                    edge: edge.as_ref().map(|e| e as *const Edge).unwrap_or(std::ptr::null()),
                                });
                                unsafe { (&mut *nf.covered.get())[0] = true };
                                st.stack.push(Rc::new(Obj { data: vec![0; nf.frame as usize], sym: None }));
                                break;
                            }
                            _ => {
                                let name = match callee {
                                    Callee::Ext(i) => self.exts[*i as usize].clone(),
                                    _ => self.m.fns[fi.unwrap() as usize].name.clone(),
                                };
                                let av: Vec<Val> = args.iter().map(|o| self.get(st, base, *o)).collect();
                                match self.external(st, &name, &av, tys, rt, *d, base)? {
                                    Flow::Next => {
                                        if let Some(e) = edge {
                                            ip = self.jump(st, f, base, e, &mut tmp);
                                            continue;
                                        }
                                    }
                                    Flow::Jumped => break,
                                    Flow::End => {
                                        self.steps += n;
                                        let r = if st.allow_panic && st.pending == Some(u32::MAX) {
                                            Stop::Panic
                                        } else if st.pending == Some(u32::MAX) {
                                            Stop::Panic
                                        } else {
                                            Stop::Assume
                                        };
                                        return Ok(r);
                                    }
                                }
                            }
                        }
                    }
                    Inst::ExtractV(d, a, ix) => {
                        let mut v = self.get(st, base, *a);
                        for i in ix.iter() {
                            v = match v {
                                Val::A(a) => a[*i as usize].clone(),
                                _ => return Err("extractvalue".into()),
                            };
                        }
                        st.regs[base + *d as usize] = v;
                    }
                    Inst::InsertV(d, a, b, ix) => {
                        let v = self.get(st, base, *a);
                        let x = self.get(st, base, *b);
                        fn ins_(v: Val, ix: &[u32], x: Val) -> Val {
                            match v {
                                Val::A(mut a) => {
                                    let i = ix[0] as usize;
                                    let n = if ix.len() == 1 { x } else { ins_(a[i].clone(), &ix[1..], x) };
                                    Rc::make_mut(&mut a)[i] = n;
                                    Val::A(a)
                                }
                                _ => panic!("insertvalue"),
                            }
                        }
                        st.regs[base + *d as usize] = ins_(v, ix, x);
                    }
                    Inst::Rmw(d, k, a, v, w) => {
                        st.frames.last_mut().unwrap().ip = ip as u32;
                        let av = self.get(st, base, *a);
                        let addr = self.addr(st, &av)?;
                        let x = self.get(st, base, *v);
                        let t = Ty::Int(*w);
                        let old = self.load_ty(st, addr, &t)?;
                        let new = match k {
                            0 => x,
                            1 => self.binv(BinK::Add, *w, &old, &x),
                            2 => self.binv(BinK::Sub, *w, &old, &x),
                            3 => self.binv(BinK::And, *w, &old, &x),
                            4 => self.binv(BinK::Or, *w, &old, &x),
                            5 => self.binv(BinK::Xor, *w, &old, &x),
                            _ => return Err("atomicrmw".into()),
                        };
                        self.store(st, addr, &new, &t)?;
                        st.regs[base + *d as usize] = old;
                    }
                    Inst::CmpXchg(d, a, c, v, w) => {
                        st.frames.last_mut().unwrap().ip = ip as u32;
                        let av = self.get(st, base, *a);
                        let addr = self.addr(st, &av)?;
                        let t = Ty::Int(*w);
                        let old = self.load_ty(st, addr, &t)?;
                        let c = self.get(st, base, *c);
                        let v = self.get(st, base, *v);
                        let (x, y) = (self.ex(&old, *w), self.ex(&c, *w));
                        let e = self.p.eq(x, y);
                        let ok = self.decide(st, e)?;
                        if ok {
                            self.store(st, addr, &v, &t)?;
                        }
                        st.regs[base + *d as usize] = Val::A(Rc::new(vec![old, Val::I(ok as u64)]));
                    }
                    Inst::VBin(k, n_, lw, d, a, b) => {
                        let (x, y) = (self.get(st, base, *a), self.get(st, base, *b));
                        let (x, y) = (self.ex(&x, n_ * lw), self.ex(&y, n_ * lw));
                        let mut out = vec![];
                        for i in 0..*n_ {
                            let (p, q) = (self.p.extract(x, i * lw, *lw), self.p.extract(y, i * lw, *lw));
                            let (p, q) = (self.mkv(p), self.mkv(q));
                            let r = self.binv(*k, *lw, &p, &q);
                            out.push(self.ex(&r, *lw));
                        }
                        let e = self.p.concat(&out);
                        st.regs[base + *d as usize] = self.mkv(e);
                    }
                    Inst::VIcmp(p, n_, lw, d, a, b) => {
                        let (x, y) = (self.get(st, base, *a), self.get(st, base, *b));
                        let (x, y) = (self.ex(&x, n_ * lw), self.ex(&y, n_ * lw));
                        let mut out = vec![];
                        for i in 0..*n_ {
                            let (u, v) = (self.p.extract(x, i * lw, *lw), self.p.extract(y, i * lw, *lw));
                            out.push(self.icmpx(*p, u, v));
                        }
                        let e = self.p.concat(&out);
                        st.regs[base + *d as usize] = self.mkv(e);
                    }
                    Inst::VCast(k, d, a, n_, fw, tw) => {
                        let x = self.get(st, base, *a);
                        let x = self.ex(&x, n_ * fw);
                        let mut out = vec![];
                        for i in 0..*n_ {
                            let u = self.p.extract(x, i * fw, *fw);
                            out.push(match k {
                                0 => self.p.zext(u, *tw),
                                1 => self.p.sext(u, *tw),
                                _ => self.p.extract(u, 0, *tw),
                            });
                        }
                        let e = self.p.concat(&out);
                        st.regs[base + *d as usize] = self.mkv(e);
                    }
                    Inst::VSelect(d, c, a, b, n_, lw) => {
                        let (cv, x, y) = (self.get(st, base, *c), self.get(st, base, *a), self.get(st, base, *b));
                        let (cv, x, y) = (self.ex(&cv, *n_), self.ex(&x, n_ * lw), self.ex(&y, n_ * lw));
                        let mut out = vec![];
                        for i in 0..*n_ {
                            let c = self.p.extract(cv, i, 1);
                            let (u, v) = (self.p.extract(x, i * lw, *lw), self.p.extract(y, i * lw, *lw));
                            out.push(self.p.ite(c, u, v));
                        }
                        let e = self.p.concat(&out);
                        st.regs[base + *d as usize] = self.mkv(e);
                    }
                    Inst::ExtractE(d, a, i, n_, lw) => {
                        let x = self.get(st, base, *a);
                        let x = self.ex(&x, n_ * lw);
                        let Val::I(i) = self.get(st, base, *i) else { return Err("extractelement".into()) };
                        let e = self.p.extract(x, i as u32 * lw, *lw);
                        st.regs[base + *d as usize] = self.mkv(e);
                    }
                    Inst::InsertE(d, a, v, i, n_, lw) => {
                        let x = self.get(st, base, *a);
                        let x = self.ex(&x, n_ * lw);
                        let v = self.get(st, base, *v);
                        let v = self.ex(&v, *lw);
                        let Val::I(i) = self.get(st, base, *i) else { return Err("insertelement".into()) };
                        let mut out = vec![];
                        for k in 0..*n_ {
                            out.push(if k == i as u32 { v } else { self.p.extract(x, k * lw, *lw) });
                        }
                        let e = self.p.concat(&out);
                        st.regs[base + *d as usize] = self.mkv(e);
                    }
                    Inst::Shuffle(d, a, b, mask, n_, lw) => {
                        let (x, y) = (self.get(st, base, *a), self.get(st, base, *b));
                        let (x, y) = (self.ex(&x, n_ * lw), self.ex(&y, n_ * lw));
                        let mut out = vec![];
                        for m in mask.iter() {
                            out.push(if *m < 0 {
                                self.p.cst(0, *lw)
                            } else if (*m as u32) < *n_ {
                                self.p.extract(x, *m as u32 * lw, *lw)
                            } else {
                                self.p.extract(y, (*m as u32 - n_) * lw, *lw)
                            });
                        }
                        let e = self.p.concat(&out);
                        st.regs[base + *d as usize] = self.mkv(e);
                    }
                    Inst::Bad(s) => {
                        st.frames.last_mut().unwrap().ip = ip as u32;
                        return Err(format!("instruction not modelled: {}", s));
                    }
                }
                ip += 1;
            }
        }
    }

    #[inline(always)]
    fn jump(&mut self, st: &mut State, f: &'static Func, base: usize, e: &Edge, tmp: &mut Vec<Val>) -> usize {
        unsafe { (&mut *f.covered.get())[e.to as usize] = true };
        let c = &e.copies;
        if c.len() == 1 {
            let v = self.get(st, base, c[0].1);
            st.regs[base + c[0].0 as usize] = v;
        } else if !c.is_empty() {
            tmp.clear();
            for (_, o) in c.iter() {
                let v = self.get(st, base, *o);
                tmp.push(v);
            }
            for ((d, _), v) in c.iter().zip(tmp.drain(..)) {
                st.regs[base + *d as usize] = v;
            }
        }
        f.blocks[e.to as usize] as usize
    }

    fn binv(&mut self, k: BinK, w: u32, x: &Val, y: &Val) -> Val {
        if let (Val::I(a), Val::I(b)) = (x, y) {
            if let Some(r) = bin64(k, w, *a, *b) {
                return Val::I(r);
            }
        }
        self.binx(k, w, x, y)
    }
    fn binx(&mut self, k: BinK, w: u32, x: &Val, y: &Val) -> Val {
        let (a, b) = (self.ex(x, w), self.ex(y, w));
        let p = &mut self.p;
        let e = match k {
            BinK::Add => p.bin(Bop::Add, a, b),
            BinK::Sub => p.sub(a, b),
            BinK::Mul => p.bin(Bop::Mul, a, b),
            BinK::UDiv => p.bin(Bop::UDiv, a, b),
            BinK::SDiv => p.bin(Bop::SDiv, a, b),
            BinK::URem => p.bin(Bop::URem, a, b),
            BinK::SRem => p.bin(Bop::SRem, a, b),
            BinK::Shl => p.bin(Bop::Shl, a, b),
            BinK::LShr => p.bin(Bop::LShr, a, b),
            BinK::AShr => p.bin(Bop::AShr, a, b),
            BinK::And => p.bin(Bop::And, a, b),
            BinK::Or => p.bin(Bop::Or, a, b),
            BinK::Xor => p.bin(Bop::Xor, a, b),
        };
        self.mkv(e)
    }
    fn icmpx(&mut self, p: Pred, a: Eid, b: Eid) -> Eid {
        let q = &mut self.p;
        match p {
            Pred::Eq => q.eq(a, b),
            Pred::Ne => {
                let e = q.eq(a, b);
                q.not(e)
            }
            Pred::Ult => q.ult(a, b),
            Pred::Ugt => q.ult(b, a),
            Pred::Ule => {
                let e = q.ult(b, a);
                q.not(e)
            }
            Pred::Uge => {
                let e = q.ult(a, b);
                q.not(e)
            }
            Pred::Slt => q.slt(a, b),
            Pred::Sgt => q.slt(b, a),
            Pred::Sle => {
                let e = q.slt(b, a);
                q.not(e)
            }
            Pred::Sge => {
                let e = q.slt(a, b);
                q.not(e)
            }
        }
    }
    /// memcmp ordering of two equally long byte strings given as terms: (equal, less)
    fn bytes_rel(&mut self, a: Eid, b: Eid) -> (Eid, Eid) {
        let eq = self.p.eq(a, b);
        let w = self.p.w(a);
        let rev = |p: &mut Pool, e: Eid| {
            let parts: Vec<Eid> = (0..w / 8).rev().map(|i| p.extract(e, i * 8, 8)).collect();
            p.concat(&parts)
        };
        let x = rev(&mut self.p, a);
        let y = rev(&mut self.p, b);
        let lt = self.p.ult(x, y);
        (eq, lt)
    }

    fn external(&mut self, st: &mut State, name: &str, a: &[Val], tys: &[Ty], rt: &Ty, d: Option<u32>, base: usize) -> R<Flow> {
        let mut ret: Option<Val> = None;
        if is_intercepted(name) {
            let (loc, msg) = self.panic_info(st, a);
            if st.allow_panic {
                st.pending = Some(u32::MAX);
                return Ok(Flow::End);
            }
            let w = st.wit.clone();
            let short = panic_kind(name);
            let mut m = None;
            if w.is_none() {
                let q = st.cons.clone();
                match self.query(q)? {
                    None => return Err("INFEASIBLE".into()),
                    Some((mm, _)) => m = Some(mm),
                }
            }
            self.violation(st, "panic", &format!("{} {}", short, msg), loc, w, m);
            st.pending = Some(u32::MAX);
            return Ok(Flow::End);
        }
        macro_rules! con {
            ($i:expr) => {{
                let v = a[$i].clone();
                self.addr(st, &v)?
            }};
        }
        if let Some(n) = name.strip_prefix("llvm.") {
            ret = self.intrinsic(st, n, a, tys, rt)?;
            if n == "trap" || n == "ubsantrap" {
                let w = st.wit.clone();
                self.violation(st, "panic", "trap", String::new(), w, None);
                st.pending = Some(u32::MAX);
                return Ok(Flow::End);
            }
        } else {
            match name {
                "malloc" => {
                    let n = con!(0);
                    ret = Some(Val::I(self.malloc(st, n)?));
                }
                "calloc" => {
                    let n = con!(0);
                    let k = con!(1);
                    ret = Some(Val::I(self.malloc(st, n * k)?));
                }
                "realloc" => {
                    let p = con!(0);
                    let n = con!(1);
                    if p == 0 {
                        ret = Some(Val::I(self.malloc(st, n)?));
                    } else {
                        let id = (p >> 32) as u32;
                        self.check_range(st, p, 0)?;
                        let o = self.obj_mut(st, id).unwrap();
                        o.data.resize(n as usize, 0);
                        if let Some(s) = &mut o.sym {
                            s.resize(n as usize, (0, 0));
                        }
                        ret = Some(Val::I(p));
                    }
                }
                "posix_memalign" => {
                    let p = con!(0);
                    let n = con!(2);
                    let m = self.malloc(st, n)?;
                    self.store_conc(st, p, &m.to_le_bytes())?;
                    ret = Some(Val::I(0));
                }
                "free" => {
                    let p = con!(0);
                    self.mfree(st, p)?;
                }
                "memcmp" | "bcmp" => {
                    let n = con!(2);
                    if n == 0 {
                        ret = Some(Val::I(0));
                    } else {
                        let p = con!(0);
                        let q = con!(1);
                        let (x, y) = (self.term(st, p, n)?, self.term(st, q, n)?);
                        let e = if name == "bcmp" {
                            let eq = self.p.eq(x, y);
                            let (z, o) = (self.p.cst(0, 32), self.p.cst(1, 32));
                            self.p.ite(eq, z, o)
                        } else {
                            let (eq, lt) = self.bytes_rel(x, y);
                            let (z, o, m) = (self.p.cst(0, 32), self.p.cst(1, 32), self.p.cst(!0, 32));
                            let r = self.p.ite(lt, m, o);
                            self.p.ite(eq, z, r)
                        };
                        ret = Some(self.mkv(e));
                    }
                }
                "strlen" => {
                    let p = con!(0);
                    let mut n = 0;
                    loop {
                        match self.load(st, p + n, 8, 1)? {
                            Val::I(0) => break,
                            Val::I(_) => n += 1,
                            _ => return Err("strlen of symbolic data".into()),
                        }
                    }
                    ret = Some(Val::I(n));
                }
                "getenv" => ret = Some(Val::I(0)),
                // keys of std's hash maps
                "getrandom" => {
                    let p = con!(0);
                    let n = con!(1);
                    let keys: Vec<u8> = (0..n).map(|i| (i as u8).wrapping_mul(0x3B) ^ 0x5A).collect();
                    self.store_conc(st, p, &keys)?;
                    ret = Some(Val::I(n));
                }
                "write" => {
                    let n = con!(2);
                    ret = Some(Val::I(n));
                }
                "abort" => {
                    let w = st.wit.clone();
                    self.violation(st, "panic", "abort", String::new(), w, None);
                    st.pending = Some(u32::MAX);
                    return Ok(Flow::End);
                }
                "__sym_bytes" => {
                    let p = con!(0);
                    let n = con!(1);
                    if n > 0 {
                        let e = self.fresh(st, n as u32 * 8);
                        let parts: Vec<_> = (0..n as u32).map(|i| (e, i, 0u8)).collect();
                        self.store_bytes(st, p, &parts)?;
                    }
                }
                "__sym_choose" => {
                    let n = con!(0);
                    if n == 0 {
                        return Ok(Flow::End);
                    }
                    let e = match st.pending {
                        Some(e) => e,
                        None => {
                            let e = self.fresh(st, 32);
                            let k = self.p.cst(n, 32);
                            let c = self.p.ult(e, k);
                            // the default value of a narrow variable is 0
                            self.add_fact(st, c, false);
                            st.pending = Some(e);
                            e
                        }
                    };
                    let v = self.concretize(st, e)?;
                    st.pending = None;
                    ret = Some(Val::I(v));
                }
                "__sym_concretize" => {
                    let v = con!(0);
                    ret = Some(Val::I(v));
                }
                "__sym_assume" => {
                    let e = self.cond(&a[0], &tys[0]);
                    let e = self.resolve(st, e);
                    if e == 0 {
                        return Ok(Flow::End);
                    }
                    if e != 1 {
                        let okw = match st.wit.clone() {
                            Some(w) => self.wit_bool(&w, e),
                            None => false,
                        };
                        if !okw {
                            match self.feasible(st, e)? {
                                None => return Ok(Flow::End),
                                Some(w) => st.wit = w,
                            }
                        }
                        self.add_fact(st, e, false);
                    }
                }
                "__sym_check" => {
                    let e = self.cond(&a[0], &tys[0]);
                    let p = con!(1);
                    let n = con!(2);
                    let id = self.conc_bytes(st, p, n).map(|b| String::from_utf8_lossy(&b).to_string()).unwrap_or_default();
                    return self.check(st, e, &id);
                }
                "__sym_cover" => {
                    let p = con!(0);
                    let n = con!(1);
                    let id = self.conc_bytes(st, p, n).map(|b| String::from_utf8_lossy(&b).to_string()).unwrap_or_default();
                    st.covers.push(id);
                }
                "__sym_observe" => {
                    let p = con!(0);
                    let n = con!(1);
                    let parts = self.read_parts(st, p, n)?;
                    st.observes.push(parts);
                }
                "__sym_note" => {
                    let p = con!(0);
                    let n = con!(1);
                    let parts = self.read_parts(st, p, n)?;
                    let e = if parts.is_empty() { 0 } else { self.join(&parts) };
                    let s = match self.conc_bytes(st, p, n) {
                        Some(b) => format!("{:?} {}", b, String::from_utf8_lossy(&b)),
                        None => self.p.show(e, 12),
                    };
                    eprintln!("NOTE {}", s);
                }
                "__sym_arg" => {
                    let i = con!(0);
                    match self.args.get(i as usize) {
                        Some(v) => ret = Some(Val::I(*v)),
                        None => return Err(format!("harness argument {} missing", i)),
                    }
                }
                "__sym_allow_panic" => {
                    let v = con!(0);
                    st.allow_panic = v != 0;
                }
                "__sym_hash" => {
                    let alg = con!(0) as u8;
                    let p = con!(1);
                    let n = con!(2);
                    let o = con!(3);
                    let hw = hash_width(alg);
                    let h = if n == 0 {
                        let v = real_hash(alg, &[]);
                        self.p.cstl(big::from_bytes(&v), hw)
                    } else {
                        let t = self.term(st, p, n)?;
                        self.p.hash(alg, t)
                    };
                    let t = Ty::Int(hw);
                    let v = self.mkv(h);
                    self.store(st, o, &v, &t)?;
                }
                "__sym_udiv256" => {
                    let x = con!(0);
                    let y = con!(1);
                    let o = con!(2);
                    let (x, y) = (self.term(st, x, 32)?, self.term(st, y, 32)?);
                    let e = self.p.bin(Bop::UDiv, x, y);
                    let v = self.mkv(e);
                    self.store(st, o, &v, &Ty::Int(256))?;
                }
                "__sym_urem256" => {
                    let x = con!(0);
                    let y = con!(1);
                    let o = con!(2);
                    let (x, y) = (self.term(st, x, 32)?, self.term(st, y, 32)?);
                    let e = self.p.bin(Bop::URem, x, y);
                    let v = self.mkv(e);
                    self.store(st, o, &v, &Ty::Int(256))?;
                }
                _ => return Err(format!("external function not modelled: {}", name)),
            }
        }
        if let Some(d) = d {
            match ret {
                Some(v) => st.regs[base + d as usize] = v,
                None => return Err(format!("no result modelled for {}", name)),
            }
        }
        Ok(Flow::Next)
    }

    fn cond(&mut self, v: &Val, t: &Ty) -> Eid {
        let w = t.bits();
        let e = self.ex(v, w);
        let z = self.p.cst(0, w);
        let q = self.p.eq(e, z);
        self.p.not(q)
    }

    fn check(&mut self, st: &mut State, e: Eid, id: &str) -> R<Flow> {
        self.checks += 1;
        let r = self.resolve(st, e);
        if r == 1 {
            self.checks_trivial += 1;
            return Ok(Flow::Next);
        }
        let n = self.p.not(r);
        self.checks_solver += 1;
        // counterexample: prefer one validated with the real hash functions
        let mut cand: Option<(Option<Rc<Wit>>, HashMap<u32, Limbs>)> = None;
        let mut violated = false;
        if let Some(w) = st.wit.clone() {
            if !self.wit_bool(&w, r) {
                violated = true;
                cand = Some((Some(w), HashMap::new()));
            }
        }
        if !violated {
            let q = self.slice(st, n);
            if let Some((m, h)) = self.query(q.clone())? {
                violated = true;
                let w = self.rewit(st, n, &m, &h);
                if w.is_some() {
                    cand = Some((w, m));
                } else {
                    cand = Some((None, m));
                    // other models
                    for s in 2..8 {
                        self.smt.seed = s;
                        if let Res::Sat(m, h) = self.smt.check(&mut self.p, &q, true) {
                            if let Some(w) = self.rewit(st, n, &m, &h) {
                                cand = Some((Some(w), m));
                                break;
                            }
                        }
                    }
                    self.smt.seed = 1;
                }
            }
        }
        if violated {
            if self.verbose {
                eprintln!("violated {}: {}", id, self.p.show(r, 8));
            }
            let (w, m) = cand.unwrap();
            self.violation(st, "check", id, String::new(), w, Some(m));
            st.pending = Some(u32::MAX);
            return Ok(Flow::End);
        }
        self.add_fact(st, r, true);
        Ok(Flow::Next)
    }

    fn fresh(&mut self, st: &mut State, w: u32) -> Eid {
        let i = st.vars.len() as u32;
        st.vars.push(w);
        if let Some(wt) = &mut st.wit {
            let mut model = wt.model.clone();
            model.resize(i as usize, None);
            model.push(Some(default_val(i, w)));
            let cache = RefCell::new(wt.cache.borrow().clone());
            *wt = Rc::new(Wit { model, cache });
        }
        self.p.var(i, w)
    }

    fn intrinsic(&mut self, st: &mut State, n: &str, a: &[Val], tys: &[Ty], rt: &Ty) -> R<Option<Val>> {
        macro_rules! con {
            ($i:expr) => {{
                let v = a[$i].clone();
                self.addr(st, &v)?
            }};
        }
        let pre = |s: &str| n.starts_with(s);
        if pre("memcpy") || pre("memmove") {
            let l = con!(2);
            if l > 0 {
                let d = con!(0);
                let s = con!(1);
                self.copy(st, d, s, l)?;
            }
            return Ok(None);
        }
        if pre("memset") {
            let l = con!(2);
            if l == 0 {
                return Ok(None);
            }
            let d = con!(0);
            match &a[1] {
                Val::I(x) => {
                    self.store_conc(st, d, &vec![*x as u8; l as usize])?;
                }
                Val::X(e) => {
                    let parts = vec![(*e, 0u32, 0u8); l as usize];
                    self.store_bytes(st, d, &parts)?;
                }
                _ => return Err("memset".into()),
            }
            return Ok(None);
        }
        if pre("trap") || pre("ubsantrap") {
            return Ok(None);
        }
        if pre("is.constant") {
            return Ok(Some(Val::I(0)));
        }
        if pre("threadlocal.address") {
            return Ok(Some(a[0].clone()));
        }
        if pre("expect") || pre("ssa.copy") {
            return Ok(Some(a[0].clone()));
        }
        if pre("load.relative") {
            let p = con!(0);
            let o = con!(1);
            let v = self.load(st, p.wrapping_add(o), 32, 4)?;
            let Val::I(x) = v else { return Err("load.relative".into()) };
            let Some(d) = self.reltab.get((x as usize).wrapping_sub(0x7a00_0000)).copied() else {
                return Err("load.relative of an unknown entry".into());
            };
            return Ok(Some(Val::I(p.wrapping_add(d))));
        }
        if !matches!(tys.first(), Some(Ty::Int(_))) {
            return Err(format!("intrinsic not modelled: {}", n));
        }
        let w = tys[0].bits();
        let e: Vec<Eid> = a.iter().zip(tys).map(|(v, t)| self.ex(v, t.bits())).collect();
        let p = &mut self.p;
        let r = if pre("umin") {
            let c = p.ult(e[0], e[1]);
            p.ite(c, e[0], e[1])
        } else if pre("umax") {
            let c = p.ult(e[0], e[1]);
            p.ite(c, e[1], e[0])
        } else if pre("smin") {
            let c = p.slt(e[0], e[1]);
            p.ite(c, e[0], e[1])
        } else if pre("smax") {
            let c = p.slt(e[0], e[1]);
            p.ite(c, e[1], e[0])
        } else if pre("usub.sat") {
            let c = p.ult(e[0], e[1]);
            let s = p.sub(e[0], e[1]);
            let z = p.cst(0, w);
            p.ite(c, z, s)
        } else if pre("uadd.sat") {
            let s = p.bin(Bop::Add, e[0], e[1]);
            let c = p.ult(s, e[0]);
            let o = p.ones(w);
            p.ite(c, o, s)
        } else if pre("ucmp") || pre("scmp") {
            let rw = rt.bits();
            let lt = if pre("ucmp") { p.ult(e[0], e[1]) } else { p.slt(e[0], e[1]) };
            let eq = p.eq(e[0], e[1]);
            let (z, o, m) = (p.cst(0, rw), p.cst(1, rw), p.cst(!0, rw));
            let x = p.ite(lt, m, o);
            p.ite(eq, z, x)
        } else if pre("abs") {
            let s = p.extract(e[0], w - 1, 1);
            let m = p.neg(e[0]);
            p.ite(s, m, e[0])
        } else if pre("bswap") {
            let parts: Vec<Eid> = (0..w / 8).rev().map(|i| p.extract(e[0], i * 8, 8)).collect();
            p.concat(&parts)
        } else if pre("bitreverse") {
            let parts: Vec<Eid> = (0..w).rev().map(|i| p.extract(e[0], i, 1)).collect();
            p.concat(&parts)
        } else if pre("ctpop") {
            let mut s = p.cst(0, w);
            for i in 0..w {
                let b = p.extract(e[0], i, 1);
                let b = p.zext(b, w);
                s = p.bin(Bop::Add, s, b);
            }
            s
        } else if pre("ctlz") || pre("cttz") {
            let mut r = p.cst(w as u64, w);
            for k in 0..w {
                // last assignment wins: the most significant for ctlz, the least significant for cttz
                let i = if pre("ctlz") { k } else { w - 1 - k };
                let v = if pre("ctlz") { w - 1 - i } else { i };
                let b = p.extract(e[0], i, 1);
                let c = p.cst(v as u64, w);
                r = p.ite(b, c, r);
            }
            r
        } else if pre("fshl") || pre("fshr") {
            let Some(k) = p.as_u64(e[2]) else { return Err("funnel shift by a symbolic amount".into()) };
            let k = (k % w as u64) as u32;
            if pre("fshl") {
                if k == 0 {
                    e[0]
                } else {
                    let lo = p.extract(e[1], w - k, k);
                    let hi = p.extract(e[0], 0, w - k);
                    p.concat(&[lo, hi])
                }
            } else if k == 0 {
                e[1]
            } else {
                let lo = p.extract(e[1], k, w - k);
                let hi = p.extract(e[0], 0, k);
                p.concat(&[lo, hi])
            }
        } else if pre("umul.with.overflow") || pre("uadd.with.overflow") {
            let (x, y) = (p.zext(e[0], 2 * w), p.zext(e[1], 2 * w));
            let s = p.bin(if pre("umul") { Bop::Mul } else { Bop::Add }, x, y);
            let lo = p.extract(s, 0, w);
            let hi = p.extract(s, w, w);
            let z = p.cst(0, w);
            let q = p.eq(hi, z);
            let o = p.not(q);
            return Ok(Some(Val::A(Rc::new(vec![self.mkv(lo), self.mkv(o)]))));
        } else if pre("usub.with.overflow") {
            let s = p.sub(e[0], e[1]);
            let o = p.ult(e[0], e[1]);
            return Ok(Some(Val::A(Rc::new(vec![self.mkv(s), self.mkv(o)]))));
        } else if pre("sadd.with.overflow") || pre("ssub.with.overflow") || pre("smul.with.overflow") {
            let ww = if pre("smul") { 2 * w } else { w + 1 };
            let (x, y) = (p.sext(e[0], ww), p.sext(e[1], ww));
            let s = if pre("sadd") {
                p.bin(Bop::Add, x, y)
            } else if pre("ssub") {
                p.sub(x, y)
            } else {
                p.bin(Bop::Mul, x, y)
            };
            let lo = p.extract(s, 0, w);
            let back = p.sext(lo, ww);
            let q = p.eq(back, s);
            let o = p.not(q);
            return Ok(Some(Val::A(Rc::new(vec![self.mkv(lo), self.mkv(o)]))));
        } else if pre("vector.reduce.or") || pre("vector.reduce.and") {
            return Err(format!("intrinsic not modelled: {}", n));
        } else {
            return Err(format!("intrinsic not modelled: {}", n));
        };
        Ok(Some(self.mkv(r)))
    }

    /// (file, function) → executed source lines, for files under the given prefix
    pub fn coverage(&self, prefix: &str) -> BTreeMap<String, HashSet<u32>> {
        let mut out: BTreeMap<String, HashSet<u32>> = BTreeMap::new();
        let mut seen = HashSet::new();
        for f in self.funcs.iter().flatten() {
            let cov = unsafe { &*f.covered.get() };
            for i in 0..f.insts.len() {
                if !cov[f.block_of[i] as usize] || f.dbg[i] == 0 || !seen.insert(f.dbg[i]) {
                    continue;
                }
                for (func, file, line) in self.m.loc(f.dbg[i]) {
                    if file.starts_with(prefix) {
                        let short = &file[prefix.len()..];
                        out.entry(format!("{} {}", short.trim_start_matches('/'), func)).or_default().insert(line);
                    }
                }
            }
        }
        out
    }
}

fn e_bool(p: &mut Pool, e: Eid) -> Eid {
    p.extract(e, 0, 1)
}

fn panic_kind(name: &str) -> String {
    // last path component of a v0 mangled name
    for k in [
        "panic_bounds_check", "panic_nounwind_fmt", "panic_nounwind", "panic_fmt", "panic_display", "panic_explicit",
        "panic_misaligned", "panic_null", "unreachable_display", "assert_failed", "panic_const", "panic_cannot_unwind",
        "panic_in_cleanup", "begin_panic", "panic_str", "panic", "handle_alloc_error", "abort",
    ] {
        if name.contains(k) {
            return k.to_string();
        }
    }
    name.to_string()
}

pub fn default_val(i: u32, w: u32) -> Limbs {
    let mut l = vec![0u64; nl(w)];
    if w >= 64 {
        let mut x = (i as u64 + 1).wrapping_mul(0x9E3779B97F4A7C15);
        for k in l.iter_mut() {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            *k = x;
        }
        norm(&mut l, w);
    }
    l.into()
}

fn bin64(k: BinK, w: u32, x: u64, y: u64) -> Option<u64> {
    let r = match k {
        BinK::Add => x.wrapping_add(y),
        BinK::Sub => x.wrapping_sub(y),
        BinK::Mul => x.wrapping_mul(y),
        BinK::UDiv => {
            if y == 0 {
                return None;
            }
            x / y
        }
        BinK::URem => {
            if y == 0 {
                return None;
            }
            x % y
        }
        BinK::SDiv => {
            let (a, b) = (sx64(x, w), sx64(y, w));
            if b == 0 {
                return None;
            }
            a.wrapping_div(b) as u64
        }
        BinK::SRem => {
            let (a, b) = (sx64(x, w), sx64(y, w));
            if b == 0 {
                return None;
            }
            a.wrapping_rem(b) as u64
        }
        BinK::Shl => {
            if y >= w as u64 {
                0
            } else {
                x << y
            }
        }
        BinK::LShr => {
            if y >= w as u64 {
                0
            } else {
                x >> y
            }
        }
        BinK::AShr => {
            let s = sx64(x, w);
            (s >> y.min(63)) as u64
        }
        BinK::And => x & y,
        BinK::Or => x | y,
        BinK::Xor => x ^ y,
    };
    Some(r & mask64(w))
}

fn icmp64(p: Pred, w: u32, x: u64, y: u64) -> bool {
    match p {
        Pred::Eq => x == y,
        Pred::Ne => x != y,
        Pred::Ult => x < y,
        Pred::Ule => x <= y,
        Pred::Ugt => x > y,
        Pred::Uge => x >= y,
        _ => {
            let (a, b) = (sx64(x, w), sx64(y, w));
            match p {
                Pred::Slt => a < b,
                Pred::Sle => a <= b,
                Pred::Sgt => a > b,
                _ => a >= b,
            }
        }
    }
}
