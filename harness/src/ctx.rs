//! The path context: facts known about the symbolic inputs on the current path, and the decisions
//! that have been made.
use std::cell::RefCell;
use std::collections::HashMap;

use crate::formula::{Fm, NEG, POS, ZER};
use crate::poly::Poly;
use crate::q::{EngineLimit, Q, limit};
use crate::smt::{Res, Smt};
use crate::sym::Sym;

#[derive(Clone)]
pub struct WorkItem {
    pub prefix: Vec<(Poly, u8)>,
    /// What was known about signs before the split.
    pub facts: HashMap<Poly, u8>,
    pub model: Option<Vec<Q>>,
}

pub struct Failure {
    pub what: String,
    pub model: Option<Vec<Q>>,
}

pub struct Ctx {
    pub smt: Smt,
    pub facts: HashMap<Poly, u8>,
    pub pc: Vec<(Poly, u8)>,
    pub names: Vec<String>,
    pub model: Option<Vec<Q>>,
    pub alternatives: Vec<WorkItem>,
    pub nonlinear: bool,
    pub vacuous: bool,
    pub failures: Vec<Failure>,
    pub n_decisions: u64,
    pub n_entailed: u64,
    pub vcs_smt: u64,
    pub vcs_normal_form: u64,
    pub vcs_unknown: u64,
    pub ops: u64,
    pub max_ops: u64,
    pub max_decisions: usize,
    pub notes: Vec<String>,
    /// Assumption texts (not facts), for replay of the same solver state.
    pub assumed_text: Vec<String>,
    pub model_tried: Option<(usize, usize, usize)>,
    /// The latest known point of the region, for the watchdog.
    pub slot: std::sync::Arc<std::sync::Mutex<Slot>>,
}

#[derive(Default)]
pub struct Slot {
    pub busy: Option<(usize, std::time::Instant)>,
    pub model: Option<Vec<Q>>,
    pub names: Vec<String>,
}

thread_local! {
    pub static CTX: RefCell<Option<Ctx>> = const { RefCell::new(None) };
}

pub fn with<R>(f: impl FnOnce(&mut Ctx) -> R) -> R {
    CTX.with(|c| {
        let mut b = c.borrow_mut();
        match b.as_mut() {
            Some(ctx) => f(ctx),
            None => panic!("symbolic comparison outside of a path"),
        }
    })
}

pub fn atom(p: &Poly, mask: u8) -> String {
    let mut t = String::new();
    p.smt(&mut t);
    match mask & 7 {
        0 => "false".into(),
        1 => format!("(< {t} 0.0)"),
        2 => format!("(= {t} 0.0)"),
        4 => format!("(> {t} 0.0)"),
        3 => format!("(<= {t} 0.0)"),
        6 => format!("(>= {t} 0.0)"),
        5 => format!("(not (= {t} 0.0))"),
        _ => "true".into(),
    }
}

pub fn sign_mask(q: Q) -> u8 {
    match q.sign() {
        -1 => NEG,
        0 => ZER,
        _ => POS,
    }
}

pub fn flip(mask: u8) -> u8 {
    (mask & ZER) | if mask & NEG != 0 { POS } else { 0 } | if mask & POS != 0 { NEG } else { 0 }
}

impl Ctx {
    fn assert_atom(&mut self, p: &Poly, mask: u8) {
        if !p.is_linear() {
            self.nonlinear = true;
        }
        let t = atom(p, mask);
        self.smt.send(&format!("(assert {t})"));
    }
    pub fn add_prefix(&mut self, item: &WorkItem) {
        for (p, m) in &item.prefix {
            self.assert_atom(p, *m);
            let e = self.facts.entry(p.clone()).or_insert(7);
            *e &= *m;
            self.pc.push((p.clone(), *m));
        }
        for (p, m) in &item.facts {
            let e = self.facts.entry(p.clone()).or_insert(7);
            *e &= *m;
        }
        self.model = item.model.clone();
    }
    fn tick(&mut self) {
        self.ops += 1;
        if self.ops > self.max_ops {
            limit("step limit");
        }
    }
    /// Decide in which class the sign of the (normalized, non constant) `p` lies; the classes are
    /// disjoint and cover all signs.
    pub fn decide(&mut self, p: &Poly, classes: &[u8]) -> usize {
        self.tick();
        let known = self.facts.get(p).copied().unwrap_or(7);
        let live: Vec<usize> = (0..classes.len()).filter(|&k| classes[k] & known != 0).collect();
        if live.len() == 1 {
            return live[0];
        }
        if live.is_empty() {
            // An assumption contradicts what was decided before it
            self.vacuous = true;
            limit("infeasible path");
        }
        let n = self.names.len();
        self.ensure_model();
        if self.vacuous {
            limit("infeasible path");
        }
        {
            let mut slot = self.slot.lock().unwrap();
            slot.model = self.model.clone();
            if slot.names.len() != n {
                slot.names = self.names.clone();
            }
        }
        let mut feasible: Vec<(usize, Option<Vec<Q>>)> = vec![];
        let by_model = self.model.as_ref().and_then(|m| {
            let s = sign_mask(p.eval(m));
            live.iter().copied().find(|&k| classes[k] & s != 0)
        });
        let nl = self.nonlinear || !p.is_linear();
        let others: Vec<usize> = live.iter().copied().filter(|&k| Some(k) != by_model).collect();
        for k in others {
            self.smt.push();
            let t = atom(p, classes[k] & known);
            self.smt.send(&format!("(assert {t})"));
            match self.smt.check(nl) {
                Res::Sat => {
                    let m = self.smt.model(n);
                    feasible.push((k, m));
                }
                Res::Unknown => feasible.push((k, None)),
                Res::Unsat => {}
            }
            self.smt.pop();
        }
        if let Some(k) = by_model {
            feasible.push((k, self.model.clone()));
        }
        if feasible.is_empty() {
            self.vacuous = true;
            limit("infeasible path");
        }
        // Prefer the branch of the current model: fewer model changes.
        let (k, m) = feasible.pop().unwrap();
        if feasible.is_empty() {
            self.n_entailed += 1;
            self.facts.insert(p.clone(), classes[k] & known);
            if self.model.is_none() {
                self.model = m;
            }
            return k;
        }
        for (o, om) in feasible {
            let mut prefix = self.pc.clone();
            prefix.push((p.clone(), classes[o] & known));
            let mut facts = self.facts.clone();
            facts.insert(p.clone(), classes[o] & known);
            self.alternatives.push(WorkItem { prefix, facts, model: om });
        }
        let mask = classes[k] & known;
        self.n_decisions += 1;
        self.assert_atom(p, mask);
        self.facts.insert(p.clone(), mask);
        self.pc.push((p.clone(), mask));
        self.model = m;
        if self.pc.len() > self.max_decisions {
            limit("decision limit");
        }
        k
    }

    /// The possible signs of `p` as far as known without asking the solver.
    fn quick(&self, p: &Poly) -> u8 {
        if let Some(c) = p.as_const() {
            return sign_mask(c);
        }
        self.facts.get(p).copied().unwrap_or(7)
    }

    /// Text of a formula, simplified with the facts; `None` for true, `Some("false")` for false.
    pub fn encode(&mut self, f: &Fm<Sym>, nl: &mut bool) -> String {
        self.encode_with(f, nl, true)
    }
    /// Without `facts`, only constants are folded and everything else is left to the solver.
    pub fn encode_with(&mut self, f: &Fm<Sym>, nl: &mut bool, facts: bool) -> String {
        match f {
            Fm::T => "true".into(),
            Fm::F => "false".into(),
            Fm::Sg(s, mask) => self.encode_sign(s, *mask, nl, facts),
            Fm::Not(f) => match self.encode_with(f, nl, facts).as_str() {
                "true" => "false".into(),
                "false" => "true".into(),
                t => format!("(not {t})"),
            },
            Fm::And(v) => {
                let mut parts = vec![];
                for g in v {
                    let t = self.encode_with(g, nl, facts);
                    if t == "false" {
                        return t;
                    }
                    if t != "true" {
                        parts.push(t);
                    }
                }
                match parts.len() {
                    0 => "true".into(),
                    1 => parts.pop().unwrap(),
                    _ => format!("(and {})", parts.join(" ")),
                }
            }
            Fm::Or(v) => {
                let mut parts = vec![];
                for g in v {
                    let t = self.encode_with(g, nl, facts);
                    if t == "true" {
                        return t;
                    }
                    if t != "false" {
                        parts.push(t);
                    }
                }
                match parts.len() {
                    0 => "false".into(),
                    1 => parts.pop().unwrap(),
                    _ => format!("(or {})", parts.join(" ")),
                }
            }
        }
    }

    fn encode_sign(&mut self, s: &Sym, mask: u8, nl: &mut bool, facts: bool) -> String {
        let (k, p, den) = s.sign_parts();
        // sign(s) = sign(k) * sign(p) * prod sign(den)
        let mut flipped = k.sign() < 0;
        if k.is_zero() || p.is_zero() {
            return if mask & ZER != 0 { "true".into() } else { "false".into() };
        }
        let mut unknown = vec![];
        for d in den {
            match self.quick(&d) {
                NEG => flipped = !flipped,
                POS => {}
                _ => unknown.push(d),
            }
        }
        let mut q = p;
        for d in unknown {
            q = q.mul(&d);
        }
        let (k2, q) = q.normalize();
        if k2.sign() < 0 {
            flipped = !flipped;
        }
        let mask = if flipped { flip(mask) } else { mask };
        let known = match q.as_const() {
            Some(c) => sign_mask(c),
            None if facts => self.quick(&q),
            None => 7,
        };
        if known & mask == known {
            return "true".into();
        }
        if known & mask == 0 {
            return "false".into();
        }
        if !q.is_linear() {
            *nl = true;
        }
        atom(&q, mask)
    }

    pub fn assume(&mut self, f: &Fm<Sym>) {
        match f {
            Fm::And(v) => {
                for g in v {
                    self.assume(g);
                }
                return;
            }
            Fm::T => return,
            Fm::Sg(s, mask) => {
                let (k, p, den) = s.sign_parts();
                if den.is_empty() && !k.is_zero() && p.as_const().is_none() {
                    let m = if k.sign() < 0 { flip(*mask) } else { *mask };
                    let e = self.facts.entry(p.clone()).or_insert(7);
                    *e &= m;
                    let e = *e;
                    self.assert_atom(&p, e);
                    self.settle_model();
                    return;
                }
            }
            _ => {}
        }
        let mut nl = false;
        let t = self.encode(f, &mut nl);
        if t == "true" {
            return;
        }
        self.nonlinear |= nl;
        self.smt.send(&format!("(assert {t})"));
        self.assumed_text.push(t);
        self.model = None;
    }
    fn settle_model(&mut self) {
        if let Some(m) = &self.model {
            if self.facts.iter().any(|(p, mask)| sign_mask(p.eval(m)) & mask == 0) {
                self.model = None;
            }
        }
    }
    /// A model of the path condition.
    pub fn ensure_model(&mut self) -> Option<Vec<Q>> {
        let n = self.names.len();
        let stamp = (n, self.pc.len(), self.assumed_text.len());
        if self.model.as_ref().is_none_or(|m| m.len() < n) && self.model_tried != Some(stamp) {
            self.model_tried = Some(stamp);
            let nl = self.nonlinear;
            match self.smt.check(nl) {
                Res::Sat => self.model = self.smt.model(n),
                Res::Unsat => {
                    self.vacuous = true;
                }
                Res::Unknown => {}
            }
        }
        self.model.clone()
    }
    /// Is there a point of the region where the formula does not hold?
    fn refute(&mut self, f: &Fm<Sym>) -> (Res, Option<Vec<Q>>) {
        // Linear questions go to the solver as they are; nonlinear ones are simplified with the signs
        // that are known on this path first.
        let mut nl = self.nonlinear;
        let mut t = self.encode_with(f, &mut nl, false);
        if nl {
            nl = self.nonlinear;
            t = self.encode_with(f, &mut nl, true);
        }
        if t == "true" {
            self.vcs_normal_form += 1;
            return (Res::Unsat, None);
        }
        self.vcs_smt += 1;
        let n = self.names.len();
        self.smt.push();
        self.smt.send(&format!("(assert (not {t}))"));
        let r = self.smt.check(nl);
        let m = if r == Res::Sat { self.smt.model(n) } else { None };
        self.smt.pop();
        (r, m)
    }
    pub fn prove(&mut self, what: &str, f: &Fm<Sym>) -> bool {
        if self.vacuous {
            return true;
        }
        match self.refute(f) {
            (Res::Unsat, _) => true,
            (Res::Sat, Some(model)) => {
                self.failures.push(Failure { what: what.to_string(), model: Some(model) });
                false
            }
            // No verdict, or a counterexample without rational coordinates.
            (Res::Unknown, _) | (Res::Sat, None) => {
                self.vcs_unknown += 1;
                true
            }
        }
    }
    /// Does the formula hold in the whole region? (A failure is not reported.)
    pub fn sufficient(&mut self, f: &Fm<Sym>) -> bool {
        self.vacuous || self.refute(f).0 == Res::Unsat
    }
}

/// Count arithmetic, to notice loops that do not compare symbolic values anymore.
pub fn tick() {
    CTX.with(|c| {
        if let Ok(mut b) = c.try_borrow_mut() {
            if let Some(ctx) = b.as_mut() {
                ctx.ops += 1;
                if ctx.ops > ctx.max_ops {
                    std::panic::panic_any(EngineLimit("step limit"));
                }
            }
        }
    })
}
