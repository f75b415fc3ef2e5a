//! C22, C23: validation status.
use std::cell::Cell;
use std::fmt::{self, Display, Formatter};

use client_side_validation::{
    ClientData, ClientSideValidate, SealIssue, SealResolver, Status, ValidationFailure,
    ValidationLog, ValidationReport, Validity,
};

use crate::sym;

macro_rules! entry {
    ($($t:ident)*) => { $(
        #[derive(Clone, PartialEq, Eq, Hash, Debug, Default, serde::Serialize, serde::Deserialize)]
        pub struct $t(pub u16);
        impl Display for $t {
            fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { f.write_str(stringify!($t)) }
        }
        impl ValidationLog for $t {}
        impl std::error::Error for $t {}
    )* };
}
entry!(Fail Warn Note);

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default, serde::Serialize, serde::Deserialize)]
pub struct Seal(pub u16);
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default, serde::Serialize, serde::Deserialize)]
pub struct Issue {
    pub seal: Seal,
    pub code: u16,
}
impl Display for Issue {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { f.write_str("issue") }
}
impl std::error::Error for Issue {}
impl ValidationLog for Issue {}
impl SealIssue for Issue {
    type Seal = Seal;
    fn seal(&self) -> &Seal { &self.seal }
}
impl ValidationFailure for Fail {}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Rep;
impl ValidationReport for Rep {
    type SealIssue = Issue;
    type Failure = Fail;
    type Warning = Warn;
    type Info = Note;
}

type St = Status<Rep>;

fn issue() -> Issue { Issue { seal: Seal(sym::u16()), code: sym::u16() } }

/// The four logs of the reference.
#[derive(Clone, Default)]
struct Logs {
    issues: Vec<Issue>,
    fails: Vec<Fail>,
    warns: Vec<Warn>,
    notes: Vec<Note>,
}

impl Logs {
    fn add(&mut self, o: &Logs) {
        self.issues.extend(o.issues.iter().cloned());
        self.fails.extend(o.fails.iter().cloned());
        self.warns.extend(o.warns.iter().cloned());
        self.notes.extend(o.notes.iter().cloned());
    }
    fn check(&self, s: &St) {
        sym::check(s.seal_issues == self.issues, "seal issues are exactly the reported ones, in order");
        sym::check(s.failures == self.fails, "failures are exactly the reported ones, in order");
        sym::check(s.warnings == self.warns, "warnings are exactly the reported ones, in order");
        sym::check(s.info == self.notes, "infos are exactly the reported ones, in order");
        let v = s.validity();
        let want = if !self.fails.is_empty() {
            Validity::Invalid
        } else if !self.issues.is_empty() {
            Validity::SealIssues
        } else {
            Validity::Valid
        };
        sym::check(v == want, "validity verdict");
    }
}

/// Every status with up to `max` entries per log.
fn any(max: u32) -> (St, Logs) {
    let mut l = Logs::default();
    for _ in 0..sym::choose(max + 1) {
        l.issues.push(issue());
    }
    for _ in 0..sym::choose(max + 1) {
        l.fails.push(Fail(sym::u16()));
    }
    for _ in 0..sym::choose(max + 1) {
        l.warns.push(Warn(sym::u16()));
    }
    for _ in 0..sym::choose(max + 1) {
        l.notes.push(Note(sym::u16()));
    }
    (
        Status {
            seal_issues: l.issues.clone(),
            failures: l.fails.clone(),
            warnings: l.warns.clone(),
            info: l.notes.clone(),
        },
        l,
    )
}

pub struct Item {
    seals: Vec<Seal>,
    status: St,
    visits: Cell<u32>,
}
impl<'a> ClientData<'a> for Item {
    type ValidationReport = Rep;
    type SealIterator = std::slice::Iter<'a, Seal>;
    fn single_use_seals(&'a self) -> Self::SealIterator { self.seals.iter() }
    fn validate_internal_consistency(&'a self) -> St {
        self.visits.set(self.visits.get() + 1);
        self.status.clone()
    }
}
pub struct Data {
    items: Vec<Item>,
    status: St,
    own: Vec<Seal>,
    visits: Cell<u32>,
}
impl<'a> ClientData<'a> for Data {
    type ValidationReport = Rep;
    type SealIterator = std::slice::Iter<'a, Seal>;
    fn single_use_seals(&'a self) -> Self::SealIterator { self.own.iter() }
    fn validate_internal_consistency(&'a self) -> St {
        self.visits.set(self.visits.get() + 1);
        self.status.clone()
    }
}
impl<'a> ClientSideValidate<'a> for Data {
    type ValidationItem = Item;
    type ValidationIter = std::slice::Iter<'a, Item>;
    fn validation_iter(&'a self) -> Self::ValidationIter { self.items.iter() }
}

struct Resolver {
    /// (failing, code) of each call
    plan: Vec<(bool, u16)>,
    log: Vec<Seal>,
}
impl SealResolver<Seal> for Resolver {
    type Error = Issue;
    fn resolve_trust(&mut self, seal: &Seal) -> Result<(), Issue> {
        let n = self.log.len();
        self.log.push(seal.clone());
        match self.plan.get(n) {
            Some((true, code)) => Err(Issue { seal: seal.clone(), code: *code }),
            Some((false, _)) => Ok(()),
            // more calls than seals
            None => {
                sym::check(false, "resolver is asked once per seal");
                Ok(())
            }
        }
    }
}

harnesses! {
    // C23: merging of two arbitrary statuses. args: entries per log
    fn h_c23_merge() {
        let n = sym::arg(0) as u32;
        let (a, la) = any(n);
        let (b, lb) = any(n);
        la.check(&a);
        let va = a.validity();
        let vb = b.validity();
        let mut m = a.clone();
        m += b.clone();
        let mut lm = la.clone();
        lm.add(&lb);
        lm.check(&m);
        let rank = |v: Validity| match v {
            Validity::Valid => 2,
            Validity::SealIssues => 1,
            Validity::Invalid => 0,
        };
        sym::check(
            rank(m.validity()) <= rank(va) && rank(m.validity()) <= rank(vb),
            "merging can't improve the verdict",
        );
        sym::cover("end");
    }

    // C23: sequences of operations. args: number of operations
    fn h_c23_ops() {
        let mut l = Logs::default();
        let mut s: St = match sym::choose(4) {
            0 => Status::new(),
            1 => Status::default(),
            2 => {
                let f = Fail(sym::u16());
                l.fails.push(f.clone());
                Status::from_failure(f)
            }
            _ => {
                for _ in 0..sym::choose(3) {
                    l.fails.push(Fail(sym::u16()));
                }
                l.fails.iter().cloned().collect()
            }
        };
        l.check(&s);
        for _ in 0..sym::arg(0) {
            match sym::choose(5) {
                0 => {
                    let e = issue();
                    l.issues.push(e.clone());
                    s.add_seal_issue(e);
                }
                1 => {
                    let e = Fail(sym::u16());
                    l.fails.push(e.clone());
                    s.add_failure(e);
                }
                2 => {
                    let e = Warn(sym::u16());
                    l.warns.push(e.clone());
                    s.add_warning(e);
                }
                3 => {
                    let e = Note(sym::u16());
                    l.notes.push(e.clone());
                    s.add_info(e);
                }
                _ => {
                    let (o, lo) = any(1);
                    l.add(&lo);
                    s += o;
                }
            }
            l.check(&s);
        }
        sym::cover("end");
    }

    // C23: long logs. args: entries of each log of the one and the other status
    fn h_c23_long() {
        let long = |base: u32| -> (St, Logs) {
            let mut l = Logs::default();
            let any = |i: usize, n: u64| if i < 2 || i + 2 > n as usize { sym::u16() } else { i as u16 };
            for k in 0..4 {
                let n = sym::arg((base + k) as u32);
                for i in 0..n as usize {
                    match k {
                        0 => l.issues.push(Issue { seal: Seal(any(i, n)), code: any(i, n) }),
                        1 => l.fails.push(Fail(any(i, n))),
                        2 => l.warns.push(Warn(any(i, n))),
                        _ => l.notes.push(Note(any(i, n))),
                    }
                }
            }
            (Status { seal_issues: l.issues.clone(), failures: l.fails.clone(), warnings: l.warns.clone(), info: l.notes.clone() }, l)
        };
        let (mut a, mut l) = long(0);
        let (b, lb) = long(4);
        l.check(&a);
        a += b;
        l.add(&lb);
        l.check(&a);
        let (e, f, w, n) = (issue(), Fail(sym::u16()), Warn(sym::u16()), Note(sym::u16()));
        l.add(&Logs { issues: vec![e.clone()], fails: vec![], warns: vec![w.clone()], notes: vec![n.clone()] });
        a.add_seal_issue(e);
        a.add_warning(w);
        a.add_info(n);
        l.check(&a);
        l.fails.push(f.clone());
        a.add_failure(f);
        l.check(&a);
        let all: St = l.fails.iter().cloned().collect();
        sym::check(all.failures == l.fails && all.seal_issues.is_empty() && all.warnings.is_empty() && all.info.is_empty(), "a status of failures has those");
        sym::cover("end");
    }

    // C22, much data. args: items, seals of the largest item, own reports of the data
    fn h_c22_long() {
        let (items, most, own) = (sym::arg(0) as u32, sym::arg(1) as u32, sym::arg(2) as u32);
        let mut want = Logs::default();
        let (mut seals, mut plan) = (vec![], vec![]);
        let status = |l: &Logs| Status { seal_issues: l.issues.clone(), failures: l.fails.clone(), warnings: l.warns.clone(), info: l.notes.clone() };
        let mut l = Logs::default();
        for i in 0..own {
            match i % 4 {
                0 => l.fails.push(Fail(sym::u16())),
                1 => l.warns.push(Warn(sym::u16())),
                2 => l.notes.push(Note(sym::u16())),
                _ => l.issues.push(Issue { seal: Seal(sym::u16()), code: sym::u16() | 1 }),
            }
        }
        want.add(&l);
        let mut data = Data { items: vec![], status: status(&l), own: vec![Seal(7)], visits: Cell::new(0) };
        for i in 0..items {
            let mut it = Item { seals: vec![], status: Status::new(), visits: Cell::new(0) };
            let n = if i == items / 2 { most } else { i % 4 };
            for k in 0..n {
                // seals may repeat
                let s = Seal(if k % 3 == 0 { 5 } else { sym::u16() });
                it.seals.push(s.clone());
                seals.push(s.clone());
                let edge = k == 0 || k + 1 == n;
                let fails = if edge && (i == 0 || i == items / 2 || i + 1 == items) { sym::fork() } else { (i + k) % 3 == 0 };
                let code = sym::u16() & 0xFFFE;
                plan.push((fails, code));
                if fails {
                    want.issues.push(Issue { seal: s, code });
                }
            }
            let mut l = Logs::default();
            if i % 5 != 0 || i == 0 {
                l.fails.push(Fail(sym::u16()));
            }
            if i % 3 == 0 {
                l.warns.push(Warn(sym::u16()));
                l.issues.push(Issue { seal: Seal(sym::u16()), code: sym::u16() | 1 });
            }
            if i % 2 == 0 {
                l.notes.push(Note(sym::u16()));
            }
            it.status = status(&l);
            want.add(&l);
            data.items.push(it);
        }
        let mut r = Resolver { plan, log: vec![] };
        let status = data.client_side_validate(&mut r);
        sym::check(r.log == seals, "every seal is presented once, in order");
        want.check_c22(&status);
        sym::check(data.visits.get() >= 1, "data consistency is checked");
        let all = data.items.iter().all(|i| i.visits.get() >= 1);
        sym::check(all, "item consistency is checked");
        sym::cover("end");
    }

    // C22. args: items, seals per item, entries per log
    fn h_c22() {
        let items = sym::choose(sym::arg(0) as u32 + 1);
        let max_seals = sym::arg(1) as u32;
        let n = sym::arg(2) as u32;
        let mut want = Logs::default();
        let (mut st, mut l) = any(n);
        for i in &mut l.issues {
            i.code |= 1;
        }
        st.seal_issues = l.issues.clone();
        want.add(&l);
        let mut data = Data { items: vec![], status: st, own: vec![], visits: Cell::new(0) };
        let mut seals = vec![];
        let mut plan = vec![];
        for _ in 0..items {
            let mut it = Item { seals: vec![], status: Status::new(), visits: Cell::new(0) };
            for _ in 0..sym::choose(max_seals + 1) {
                let s = Seal(sym::u16());
                it.seals.push(s.clone());
                seals.push(s.clone());
                let fails = sym::fork();
                let code = sym::u16() & 0xFFFE;
                plan.push((fails, code));
                if fails {
                    want.issues.push(Issue { seal: s, code });
                }
            }
            // own reports of the item: one log entry of a chosen kind, or none, or seal issue
            let mut l = Logs::default();
            match sym::choose(5) {
                0 => {}
                1 => l.fails.push(Fail(sym::u16())),
                2 => l.warns.push(Warn(sym::u16())),
                3 => l.notes.push(Note(sym::u16())),
                _ => {
                    let mut i = issue();
                    i.code |= 1;
                    l.issues.push(i);
                }
            }
            it.status = Status {
                seal_issues: l.issues.clone(),
                failures: l.fails.clone(),
                warnings: l.warns.clone(),
                info: l.notes.clone(),
            };
            want.add(&l);
            data.items.push(it);
        }
        let mut r = Resolver { plan, log: vec![] };
        let status = data.client_side_validate(&mut r);
        sym::check(r.log == seals, "every seal is presented once, in order");
        // seal issues of an item's own consistency check and of the resolver may come in either order
        want.check_c22(&status);
        sym::check(data.visits.get() >= 1, "data consistency is checked");
        for i in &data.items {
            sym::check(i.visits.get() >= 1, "item consistency is checked");
        }
        if items > 0 {
            sym::cover("items");
        }
        sym::cover("end");
    }
}

impl Logs {
    /// Issues reported by consistency checks (odd codes) and by the resolver (even codes) are
    /// compared separately: the order between the two groups is not part of the property.
    fn check_c22(&self, s: &St) {
        for odd in [0, 1] {
            let a: Vec<_> = self.issues.iter().filter(|i| i.code & 1 == odd).cloned().collect();
            let b: Vec<_> = s.seal_issues.iter().filter(|i| i.code & 1 == odd).cloned().collect();
            sym::check(a == b, "seal issues are exactly the reported ones, in order");
        }
        let mut s = s.clone();
        sym::check(s.seal_issues.len() == self.issues.len(), "number of seal issues");
        s.seal_issues = self.issues.clone();
        self.check(&s);
    }
}
