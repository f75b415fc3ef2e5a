//! Reader of textual LLVM IR: module index, types, and lazy decoding of function bodies.

use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Other,
}

impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Vec(n, t) => *n as u32 * t.bits(),
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64 + 7) / 8).next_power_of_two();
                b.min(16)
            }
            Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => (self.store_size()).next_power_of_two(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            Ty::Ptr => 8,
            Ty::Vec(n, t) => (n * t.bits() as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(_) | Ty::Ptr | Ty::Vec(..) => {
                let (s, a) = (self.store_size(), self.align());
                (s + a - 1) / a * a
            }
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, _) => {
                let mut o = 0;
                for i in 0..f.len() {
                    o = self.field_off(i) + f[i].size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
            Ty::Void | Ty::Other => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Arr(_, t) => t.size() * i as u64,
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for k in 0..=i {
                    if !packed {
                        let a = f[k].align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return o;
                    }
                    o += f[k].size();
                }
                o
            }
            _ => panic!("field_off of {:?}", self),
        }
    }
    pub fn field(&self, i: usize) -> &Ty {
        match self {
            Ty::Arr(_, t) | Ty::Vec(_, t) => t,
            Ty::Struct(f, _) => &f[i],
            _ => panic!("field of {:?}", self),
        }
    }
}

/// constant expression tree
#[derive(Clone, Debug)]
pub enum Cv {
    Int(Vec<u64>), // limbs (two's complement, to be truncated to the type)
    Null,
    Undef,
    Zero,
    Global(String),
    Bytes(Vec<u8>),
    Agg(Vec<(Ty, Cv)>),
    Splat(Box<(Ty, Cv)>),
    Gep(Ty, Box<Cv>, Vec<(Ty, Cv)>),
    Cast(Ty, Box<Cv>, Ty),
    Bin(String, Ty, Box<Cv>, Box<Cv>),
}

#[derive(Clone, Debug)]
pub enum Opnd {
    Reg(u32),
    Const(Cv),
}

pub struct Lex<'a> {
    pub s: &'a [u8],
    pub p: usize,
}

fn is_word(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Lex<'a> {
    pub fn new(s: &'a str) -> Lex<'a> {
        Lex { s: s.as_bytes(), p: 0 }
    }
    pub fn ws(&mut self) {
        while self.p < self.s.len() && (self.s[self.p] == b' ' || self.s[self.p] == b'\t') {
            self.p += 1
        }
    }
    pub fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.get(self.p).unwrap_or(&0)
    }
    pub fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.p += 1;
            true
        } else {
            false
        }
    }
    pub fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            panic!("expected '{}' at: {}", c as char, self.rest())
        }
    }
    pub fn rest(&self) -> &'a str {
        std::str::from_utf8(&self.s[self.p..]).unwrap_or("")
    }
    pub fn peek_word(&mut self) -> &'a str {
        self.ws();
        let mut e = self.p;
        while e < self.s.len() && is_word(self.s[e]) {
            e += 1
        }
        std::str::from_utf8(&self.s[self.p..e]).unwrap()
    }
    pub fn word(&mut self) -> &'a str {
        let w = self.peek_word();
        self.p += w.len();
        w
    }
    pub fn eat_word(&mut self, w: &str) -> bool {
        if self.peek_word() == w {
            self.p += w.len();
            true
        } else {
            false
        }
    }
    pub fn skip_group(&mut self) {
        // at '(' or '[' or '{' or '<': skip the balanced group
        let mut d = 0i32;
        loop {
            let c = self.s[self.p];
            match c {
                b'(' | b'[' | b'{' => d += 1,
                b')' | b']' | b'}' => d -= 1,
                b'"' => {
                    self.p += 1;
                    while self.s[self.p] != b'"' {
                        self.p += 1
                    }
                }
                _ => {}
            }
            self.p += 1;
            if d == 0 {
                break;
            }
        }
    }
    /// name after a sigil (% or @), possibly quoted
    pub fn name(&mut self) -> String {
        if self.s[self.p] == b'"' {
            let st = self.p + 1;
            let mut e = st;
            while self.s[e] != b'"' {
                e += 1
            }
            self.p = e + 1;
            String::from_utf8_lossy(&self.s[st..e]).to_string()
        } else {
            let st = self.p;
            while self.p < self.s.len() && is_word(self.s[self.p]) {
                self.p += 1
            }
            std::str::from_utf8(&self.s[st..self.p]).unwrap().to_string()
        }
    }
    pub fn at_type(&mut self) -> bool {
        match self.peek() {
            b'{' | b'<' | b'[' => true,
            _ => {
                let w = self.peek_word();
                w == "void"
                    || w == "ptr"
                    || w == "metadata"
                    || w == "float"
                    || w == "double"
                    || w == "half"
                    || w == "label"
                    || (w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
        }
    }
    pub fn ty(&mut self) -> Ty {
        match self.peek() {
            b'{' => {
                self.p += 1;
                let f = self.ty_list(b'}');
                Ty::Struct(Rc::new(f), false)
            }
            b'<' => {
                self.p += 1;
                if self.eat(b'{') {
                    let f = self.ty_list(b'}');
                    self.expect(b'>');
                    return Ty::Struct(Rc::new(f), true);
                }
                let n: u64 = self.word().parse().unwrap();
                assert!(self.eat_word("x"));
                let t = self.ty();
                self.expect(b'>');
                Ty::Vec(n, Rc::new(t))
            }
            b'[' => {
                self.p += 1;
                let n: u64 = self.word().parse().unwrap();
                assert!(self.eat_word("x"));
                let t = self.ty();
                self.expect(b']');
                Ty::Arr(n, Rc::new(t))
            }
            _ => {
                let w = self.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => Ty::Ptr,
                    "metadata" | "float" | "double" | "half" | "label" => Ty::Other,
                    _ if w.starts_with('i') => Ty::Int(w[1..].parse().unwrap_or_else(|_| panic!("type {} {}", w, self.rest()))),
                    _ => panic!("type? {}{}", w, self.rest()),
                }
            }
        }
    }
    fn ty_list(&mut self, end: u8) -> Vec<Ty> {
        let mut v = vec![];
        if self.eat(end) {
            return v;
        }
        loop {
            v.push(self.ty());
            if self.eat(end) {
                return v;
            }
            self.expect(b',');
        }
    }
    /// skip attributes up to the next type
    pub fn attrs_to_type(&mut self) {
        while !self.at_type() {
            let c = self.peek();
            if c == 0 {
                panic!("no type");
            }
            if is_word(c) {
                self.word();
                if self.s.get(self.p) == Some(&b'(') {
                    self.skip_group();
                }
            } else if c == b'#' {
                self.p += 1;
                self.word();
            } else if c == b'"' {
                self.p += 1;
                self.p -= 1;
                self.name();
                if self.eat(b'=') {
                    self.name();
                }
            } else {
                panic!("attr? {}", self.rest());
            }
        }
    }
    /// skip attributes before an operand
    pub fn attrs_to_operand(&mut self) {
        loop {
            let c = self.peek();
            if c == b'%' || c == b'@' || c == b'{' || c == b'<' || c == b'[' || c == b'"' || c == b'!' || c == b',' || c == b')' || c == 0 {
                return;
            }
            let w = self.peek_word();
            match w {
                "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint" | "sub"
                | "add" | "trunc" | "splat" | "bitcast" | "xor" | "c" | "none" => return,
                "align" => {
                    self.word();
                    if self.s.get(self.p) == Some(&b'(') {
                        self.skip_group();
                    } else {
                        self.word();
                    }
                }
                _ => {
                    let f = w.as_bytes().first().copied().unwrap_or(0);
                    if f.is_ascii_digit() || f == b'-' {
                        return;
                    }
                    if w.is_empty() {
                        return;
                    }
                    self.word();
                    if self.s.get(self.p) == Some(&b'(') {
                        self.skip_group();
                    }
                }
            }
        }
    }
    fn parse_int(w: &str) -> Vec<u64> {
        let neg = w.starts_with('-');
        let d = if neg { &w[1..] } else { w };
        let mut l = vec![0u64; 5];
        for c in d.bytes() {
            assert!(c.is_ascii_digit(), "int {}", w);
            let mut carry = (c - b'0') as u128;
            for x in l.iter_mut() {
                let t = *x as u128 * 10 + carry;
                *x = t as u64;
                carry = t >> 64;
            }
        }
        if neg {
            let mut c = 1u128;
            for x in l.iter_mut() {
                let t = (!*x) as u128 + c;
                *x = t as u64;
                c = t >> 64;
            }
        }
        l
    }
    pub fn cval(&mut self, ty: &Ty) -> Cv {
        let _ = ty;
        let c = self.peek();
        match c {
            b'@' => {
                self.p += 1;
                return Cv::Global(self.name());
            }
            b'{' => {
                self.p += 1;
                let v = self.tv_list(b'}');
                return Cv::Agg(v);
            }
            b'[' => {
                self.p += 1;
                let v = self.tv_list(b']');
                return Cv::Agg(v);
            }
            b'<' => {
                self.p += 1;
                if self.eat(b'{') {
                    let v = self.tv_list(b'}');
                    self.expect(b'>');
                    return Cv::Agg(v);
                }
                let v = self.tv_list(b'>');
                return Cv::Agg(v);
            }
            _ => {}
        }
        let w = self.word();
        match w {
            "true" => Cv::Int(vec![1, 0, 0, 0, 0]),
            "false" => Cv::Int(vec![0; 5]),
            "null" | "none" => Cv::Null,
            "undef" | "poison" => Cv::Undef,
            "zeroinitializer" => Cv::Zero,
            "c" => {
                assert!(self.s[self.p] == b'"');
                self.p += 1;
                let mut v = vec![];
                while self.s[self.p] != b'"' {
                    if self.s[self.p] == b'\\' && self.s[self.p + 1] == b'\\' {
                        v.push(b'\\');
                        self.p += 2;
                    } else if self.s[self.p] == b'\\' {
                        let h = |c: u8| (c as char).to_digit(16).unwrap() as u8;
                        v.push(h(self.s[self.p + 1]) * 16 + h(self.s[self.p + 2]));
                        self.p += 3;
                    } else {
                        v.push(self.s[self.p]);
                        self.p += 1;
                    }
                }
                self.p += 1;
                Cv::Bytes(v)
            }
            "splat" => {
                self.expect(b'(');
                let t = self.ty();
                let v = self.cval(&t);
                self.expect(b')');
                Cv::Splat(Box::new((t, v)))
            }
            "getelementptr" => {
                while self.peek() != b'(' {
                    self.word();
                    if self.s[self.p] == b'(' && self.peek_is_inrange() {
                        self.skip_group();
                    }
                }
                self.expect(b'(');
                let t = self.ty();
                self.expect(b',');
                let bt = self.ty();
                let b = self.cval(&bt);
                let mut idx = vec![];
                while self.eat(b',') {
                    let it = self.ty();
                    let iv = self.cval(&it);
                    idx.push((it, iv));
                }
                self.expect(b')');
                Cv::Gep(t, Box::new(b), idx)
            }
            "inttoptr" | "ptrtoint" | "bitcast" | "trunc" => {
                self.expect(b'(');
                let t = self.ty();
                let v = self.cval(&t);
                assert!(self.eat_word("to"));
                let t2 = self.ty();
                self.expect(b')');
                Cv::Cast(t, Box::new(v), t2)
            }
            "sub" | "add" | "xor" => {
                while self.peek() != b'(' {
                    self.word();
                }
                self.expect(b'(');
                let t = self.ty();
                let a = self.cval(&t);
                self.expect(b',');
                let t2 = self.ty();
                let b = self.cval(&t2);
                self.expect(b')');
                Cv::Bin(w.to_string(), t, Box::new(a), Box::new(b))
            }
            _ => Cv::Int(Self::parse_int(w)),
        }
    }
    fn peek_is_inrange(&self) -> bool {
        self.p >= 7 && &self.s[self.p - 7..self.p] == b"inrange"
    }
    fn tv_list(&mut self, end: u8) -> Vec<(Ty, Cv)> {
        let mut v = vec![];
        if self.eat(end) {
            return v;
        }
        loop {
            let t = self.ty();
            let c = self.cval(&t);
            v.push((t, c));
            if self.eat(end) {
                return v;
            }
            self.expect(b',');
        }
    }
}

pub struct FnDef {
    pub name: String,
    pub start: usize, // offset of the define line
    pub body: usize,  // offset of the line after it
    pub end: usize,   // offset of the closing brace
}

pub struct GlobalDef {
    pub name: String,
    pub line: (usize, usize),
}

pub struct Module {
    pub text: String,
    pub fns: Vec<FnDef>,
    pub fn_by_name: HashMap<String, u32>,
    pub decls: Vec<String>,
    pub globals: Vec<GlobalDef>,
    pub global_by_name: HashMap<String, u32>,
    pub aliases: HashMap<String, String>,
    md: Vec<(u32, u32)>,
}

fn header_name(line: &str) -> String {
    // first '@' outside of quotes
    let at = line.find('@').expect("define without name");
    let mut l = Lex { s: line.as_bytes(), p: at + 1 };
    l.name()
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{}: {}", path, e));
        let mut m = Module {
            text: String::new(),
            fns: vec![],
            fn_by_name: HashMap::new(),
            decls: vec![],
            globals: vec![],
            global_by_name: HashMap::new(),
            aliases: HashMap::new(),
            md: vec![],
        };
        let b = text.as_bytes();
        let mut p = 0;
        while p < b.len() {
            let e = memchr(b, b'\n', p);
            let line = &text[p..e];
            match b[p] {
                b'd' if line.starts_with("define") => {
                    let name = header_name(line);
                    // closing brace at the beginning of a line
                    let mut q = e + 1;
                    loop {
                        let e2 = memchr(b, b'\n', q);
                        if b[q] == b'}' {
                            m.fn_by_name.insert(name.clone(), m.fns.len() as u32);
                            m.fns.push(FnDef { name, start: p, body: e + 1, end: q });
                            p = e2 + 1;
                            break;
                        }
                        q = e2 + 1;
                    }
                    continue;
                }
                b'd' if line.starts_with("declare") => {
                    m.decls.push(header_name(line));
                }
                b'@' => {
                    let mut l = Lex { s: line.as_bytes(), p: 1 };
                    let name = l.name();
                    let rest = l.rest();
                    if rest.contains(" alias ") && !rest.contains(" constant ") && !rest.contains(" global ") {
                        let at = rest.rfind('@').unwrap();
                        let mut l2 = Lex { s: rest.as_bytes(), p: at + 1 };
                        m.aliases.insert(name, l2.name());
                    } else {
                        m.global_by_name.insert(name.clone(), m.globals.len() as u32);
                        m.globals.push(GlobalDef { name, line: (p, e) });
                    }
                }
                b'!' if b[p + 1].is_ascii_digit() => {
                    let mut l = Lex { s: line.as_bytes(), p: 1 };
                    let n: usize = l.word().parse().unwrap();
                    if m.md.len() <= n {
                        m.md.resize(n + 1, (0, 0));
                    }
                    m.md[n] = (p as u32, e as u32);
                }
                _ => {}
            }
            p = e + 1;
        }
        m.text = text;
        m
    }
    pub fn md(&self, n: u32) -> &str {
        match self.md.get(n as usize) {
            Some((a, b)) => &self.text[*a as usize..*b as usize],
            None => "",
        }
    }
    fn md_field<'a>(t: &'a str, k: &str) -> Option<&'a str> {
        let pat = format!("{}: ", k);
        let mut from = 0;
        while let Some(i) = t[from..].find(&pat) {
            let i = from + i;
            let prev = t.as_bytes()[i - 1];
            if prev == b'(' || prev == b' ' {
                let v = &t[i + pat.len()..];
                if v.starts_with('"') {
                    let e = v[1..].find('"').unwrap();
                    return Some(&v[1..1 + e]);
                }
                let e = v.find(|c| c == ',' || c == ')').unwrap_or(v.len());
                return Some(&v[..e]);
            }
            from = i + pat.len();
        }
        None
    }
    fn md_ref(t: &str, k: &str) -> Option<u32> {
        Self::md_field(t, k).and_then(|v| v.strip_prefix('!')).and_then(|v| v.parse().ok())
    }
    /// debug location → chain of (function, file, line), innermost first
    pub fn loc(&self, dbg: u32) -> Vec<(String, String, u32)> {
        let mut out = vec![];
        let mut cur = Some(dbg);
        while let Some(d) = cur {
            let t = self.md(d);
            if !t.contains("!DILocation(") {
                break;
            }
            let line = Self::md_field(t, "line").and_then(|x| x.parse().ok()).unwrap_or(0);
            let mut sc = Self::md_ref(t, "scope");
            let mut func = String::new();
            let mut file = String::new();
            let mut first = true;
            while let Some(s) = sc {
                let st = self.md(s);
                if first {
                    if let Some(f) = Self::md_ref(st, "file") {
                        let ft = self.md(f);
                        let name = Self::md_field(ft, "filename").unwrap_or("").to_string();
                        file = if name.starts_with('/') {
                            name
                        } else {
                            format!("{}/{}", Self::md_field(ft, "directory").unwrap_or(""), name)
                        };
                        first = false;
                    }
                }
                if st.contains("!DISubprogram(") {
                    let nm = Self::md_field(st, "name").unwrap_or("").to_string();
                    let mut ns = vec![];
                    let mut sc2 = Self::md_ref(st, "scope");
                    while let Some(x) = sc2 {
                        let xt = self.md(x);
                        if let Some(n) = Self::md_field(xt, "name") {
                            ns.push(n.to_string());
                        }
                        sc2 = Self::md_ref(xt, "scope");
                    }
                    ns.reverse();
                    ns.push(nm);
                    func = ns.join("::");
                    break;
                }
                sc = Self::md_ref(st, "scope");
            }
            out.push((func, file, line));
            cur = Self::md_ref(t, "inlinedAt");
        }
        out
    }
    pub fn resolve<'a>(&'a self, n: &'a str) -> &'a str {
        match self.aliases.get(n) {
            Some(t) => self.resolve(t),
            None => n,
        }
    }
}

pub fn memchr(b: &[u8], c: u8, from: usize) -> usize {
    b[from..].iter().position(|x| *x == c).map(|i| from + i).unwrap_or(b.len())
}
