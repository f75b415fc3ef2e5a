//! Native replay: runs a harness of `/verif/harness`, compiled against the real dependencies, with the
//! recorded inputs. `replay NAME ARG,ARG,.. < inputs` where inputs are lines of hex strings.
use std::cell::RefCell;
use std::io::Read;
use std::process::exit;

use ripemd::Ripemd160;
use sha2::{Digest, Sha256};

#[derive(Default)]
struct Ctx {
    args: Vec<u64>,
    inputs: Vec<Vec<u8>>,
    next: usize,
    covers: Vec<String>,
    observes: Vec<String>,
    allow: bool,
}

thread_local!(static CTX: RefCell<Ctx> = RefCell::new(Ctx::default()));

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn finish(result: &str, id: &str, loc: &str) -> ! {
    CTX.with(|c| {
        let c = c.borrow();
        let l = |v: &[String]| v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",");
        println!(
            "{{\"result\":{},\"id\":{},\"loc\":{},\"used\":{},\"covers\":[{}],\"observes\":[{}]}}",
            esc(result),
            esc(id),
            esc(loc),
            c.next,
            l(&c.covers),
            l(&c.observes)
        );
    });
    exit(0)
}

fn take(len: usize) -> Vec<u8> {
    let r = CTX.with(|c| {
        let mut c = c.borrow_mut();
        let n = c.next;
        c.next += 1;
        c.inputs.get(n).cloned()
    });
    match r {
        Some(v) if v.len() == len => v,
        Some(v) => finish("inputs", &format!("input has {} bytes instead of {len}", v.len()), ""),
        None => finish("inputs", "more inputs used than recorded", ""),
    }
}
unsafe fn text(ptr: *const u8, len: usize) -> String {
    String::from_utf8_lossy(std::slice::from_raw_parts(ptr, len)).into_owned()
}

#[no_mangle]
unsafe extern "C" fn __sym_bytes(ptr: *mut u8, len: usize) {
    let v = take(len);
    std::ptr::copy_nonoverlapping(v.as_ptr(), ptr, len);
}
#[no_mangle]
extern "C" fn __sym_choose(n: u32) -> u32 {
    let v = take(4);
    let v = u32::from_le_bytes([v[0], v[1], v[2], v[3]]);
    if v >= n {
        finish("inputs", "choice out of range", "");
    }
    v
}
#[no_mangle]
extern "C" fn __sym_concretize(v: u64) -> u64 { v }
#[no_mangle]
extern "C" fn __sym_assume(c: bool) {
    if !c {
        finish("assume", "", "");
    }
}
#[no_mangle]
unsafe extern "C" fn __sym_check(c: bool, ptr: *const u8, len: usize) {
    if !c {
        finish("check", &text(ptr, len), "");
    }
}
#[no_mangle]
unsafe extern "C" fn __sym_cover(ptr: *const u8, len: usize) {
    let t = text(ptr, len);
    CTX.with(|c| c.borrow_mut().covers.push(t));
}
#[no_mangle]
unsafe extern "C" fn __sym_observe(ptr: *const u8, len: usize) {
    let t = std::slice::from_raw_parts(ptr, len).iter().map(|b| format!("{b:02x}")).collect();
    CTX.with(|c| c.borrow_mut().observes.push(t));
}
#[no_mangle]
extern "C" fn __sym_arg(i: u32) -> u64 { CTX.with(|c| c.borrow().args[i as usize]) }
#[no_mangle]
extern "C" fn __sym_allow_panic(allow: bool) { CTX.with(|c| c.borrow_mut().allow = allow) }
#[no_mangle]
unsafe extern "C" fn __sym_hash(alg: u32, ptr: *const u8, len: usize, out: *mut u8) {
    let d = std::slice::from_raw_parts(ptr, len);
    match alg {
        0 => std::ptr::copy_nonoverlapping(Sha256::digest(d).as_ptr(), out, 32),
        _ => std::ptr::copy_nonoverlapping(Ripemd160::digest(d).as_ptr(), out, 20),
    }
}
/// Schoolbook bitwise long division, independent of the one in amplify_num.
fn divrem(a: [u64; 4], b: [u64; 4]) -> ([u64; 4], [u64; 4]) {
    let mut q = [0u64; 4];
    let mut r = [0u64; 5];
    for i in (0..256).rev() {
        let mut carry = (a[i / 64] >> (i % 64)) & 1;
        for w in r.iter_mut() {
            let c = *w >> 63;
            *w = *w << 1 | carry;
            carry = c;
        }
        let mut t = [0u64; 5];
        let mut borrow = false;
        for j in 0..5 {
            let y = if j < 4 { b[j] } else { 0 };
            let (x, b1) = r[j].overflowing_sub(y);
            let (x, b2) = x.overflowing_sub(borrow as u64);
            t[j] = x;
            borrow = b1 || b2;
        }
        if !borrow {
            r = t;
            q[i / 64] |= 1 << (i % 64);
        }
    }
    (q, [r[0], r[1], r[2], r[3]])
}
#[no_mangle]
unsafe extern "C" fn __sym_urem256(a: *const u64, b: *const u64, out: *mut u64) {
    let r = divrem(*(a as *const [u64; 4]), *(b as *const [u64; 4])).1;
    std::ptr::copy_nonoverlapping(r.as_ptr(), out, 4);
}

fn main() {
    let mut a = std::env::args().skip(1);
    let name = a.next().unwrap_or_default();
    let args = a.next().unwrap_or_default();
    let mut text = String::new();
    std::io::stdin().read_to_string(&mut text).expect("inputs");
    let inputs = text
        .lines()
        .map(|l| {
            (0..l.len() / 2)
                .map(|i| u8::from_str_radix(&l[2 * i..2 * i + 2], 16).expect("hex"))
                .collect()
        })
        .collect();
    let args = args.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().expect("arg")).collect();
    let Some((_, f)) = harness::TABLES.iter().flat_map(|t| t.iter()).find(|(n, _)| *n == name) else {
        eprintln!("no harness {name}");
        exit(2)
    };
    let f = *f;
    std::panic::set_hook(Box::new(|i| {
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let allowed = CTX.with(|c| c.try_borrow().map(|c| c.allow).unwrap_or(false));
        finish(if allowed { "allowed" } else { "panic" }, &msg, &loc)
    }));
    std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(move || {
            CTX.with(|c| *c.borrow_mut() = Ctx { args, inputs, ..Default::default() });
            f();
            finish("ok", "", "")
        })
        .expect("thread")
        .join()
        .ok();
    exit(2)
}
