//! A z3 process spoken to over pipes.
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Instant;

use crate::poly::MAX_VARS;
use crate::q::Q;

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub nonlinear: u64,
    pub seconds: f64,
}
impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.queries += o.queries;
        self.sat += o.sat;
        self.unsat += o.unsat;
        self.unknown += o.unknown;
        self.nonlinear += o.nonlinear;
        self.seconds += o.seconds;
    }
}

pub struct Smt {
    child: Child,
    stdin: ChildStdin,
    stdout: BufReader<ChildStdout>,
    buf: String,
    pub stats: Stats,
    pub timeout_ms: u32,
}

impl Smt {
    pub fn new(timeout_ms: u32) -> Smt {
        let mut child = Command::new("z3")
            .args(["-in", "-smt2", "-memory:2000"])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("z3 has to be installed");
        let stdin = child.stdin.take().unwrap();
        let stdout = BufReader::new(child.stdout.take().unwrap());
        let mut s = Smt { child, stdin, stdout, buf: String::new(), stats: Stats::default(), timeout_ms };
        s.send("(set-option :print-success false)");
        s.send("(set-option :pp.decimal false)");
        s.send(&format!("(set-option :timeout {timeout_ms})"));
        for i in 0..MAX_VARS {
            s.send(&format!("(declare-const x{i} Real)"));
        }
        s
    }
    pub fn send(&mut self, s: &str) {
        self.buf.push_str(s);
        self.buf.push('\n');
        if self.buf.len() > 1 << 15 {
            self.flush();
        }
    }
    fn flush(&mut self) {
        self.stdin.write_all(self.buf.as_bytes()).expect("z3 died");
        self.stdin.flush().expect("z3 died");
        self.buf.clear();
    }
    fn line(&mut self) -> String {
        let mut l = String::new();
        let n = self.stdout.read_line(&mut l).expect("z3 died");
        assert!(n > 0, "z3 died");
        l.trim().to_string()
    }
    pub fn push(&mut self) {
        self.send("(push 1)");
    }
    pub fn pop(&mut self) {
        self.send("(pop 1)");
    }
    pub fn check(&mut self, nonlinear: bool) -> Res {
        let t = Instant::now();
        if nonlinear {
            let tm = self.timeout_ms;
            self.send(&format!("(check-sat-using (try-for qfnra-nlsat {tm}))"));
            self.stats.nonlinear += 1;
        } else {
            self.send("(check-sat)");
        }
        self.flush();
        let l = loop {
            let l = self.line();
            if l == "sat" || l == "unsat" || l == "unknown" || l == "timeout" {
                break l;
            }
            if l.starts_with("(error") {
                if l.contains("canceled") || l.contains("timeout") || l.contains("resource") {
                    continue;
                }
                panic!("z3: {l}");
            }
        };
        self.stats.queries += 1;
        self.stats.seconds += t.elapsed().as_secs_f64();
        match l.as_str() {
            "sat" => {
                self.stats.sat += 1;
                Res::Sat
            }
            "unsat" => {
                self.stats.unsat += 1;
                Res::Unsat
            }
            _ => {
                self.stats.unknown += 1;
                Res::Unknown
            }
        }
    }
    /// Model of the first `n` variables; `None` if some value is not rational.
    pub fn model(&mut self, n: usize) -> Option<Vec<Q>> {
        if n == 0 {
            return Some(vec![]);
        }
        let mut q = String::from("(get-value (");
        for i in 0..n {
            q.push_str(&format!("x{i} "));
        }
        q.push_str("))");
        self.send(&q);
        self.flush();
        let mut text = String::new();
        let mut depth = 0i32;
        loop {
            let l = self.line();
            for c in l.chars() {
                match c {
                    '(' => depth += 1,
                    ')' => depth -= 1,
                    _ => {}
                }
            }
            text.push_str(&l);
            text.push(' ');
            if depth <= 0 {
                break;
            }
        }
        if text.contains("error") || text.contains("root-obj") {
            return None;
        }
        let toks = tokens(&text);
        let mut pos = 0;
        let mut out = vec![Q::ZERO; n];
        // ((x0 v) (x1 v) ...)
        expect(&toks, &mut pos, "(")?;
        while toks.get(pos).map(|s| s.as_str()) == Some("(") {
            pos += 1;
            let name = toks.get(pos)?.clone();
            pos += 1;
            let v = value(&toks, &mut pos)?;
            expect(&toks, &mut pos, ")")?;
            let i: usize = name.strip_prefix('x')?.parse().ok()?;
            out[i] = v;
        }
        Some(out)
    }
}

impl Drop for Smt {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn tokens(s: &str) -> Vec<String> {
    let mut out = vec![];
    let mut cur = String::new();
    for c in s.chars() {
        if c == '(' || c == ')' || c.is_whitespace() {
            if !cur.is_empty() {
                out.push(std::mem::take(&mut cur));
            }
            if !c.is_whitespace() {
                out.push(c.to_string());
            }
        } else {
            cur.push(c);
        }
    }
    if !cur.is_empty() {
        out.push(cur);
    }
    out
}
fn expect(t: &[String], p: &mut usize, s: &str) -> Option<()> {
    if t.get(*p)? == s {
        *p += 1;
        Some(())
    } else {
        None
    }
}
fn value(t: &[String], p: &mut usize) -> Option<Q> {
    let tok = t.get(*p)?.clone();
    *p += 1;
    if tok == "(" {
        let op = t.get(*p)?.clone();
        *p += 1;
        let a = value(t, p)?;
        let r = match op.as_str() {
            "-" => a.neg(),
            "/" => {
                let b = value(t, p)?;
                let (ga, gb) = (a, b);
                if gb.is_zero() {
                    return None;
                }
                // avoid the engine limit panic on huge values
                if ga.n.unsigned_abs() > 1 << 100 || gb.n.unsigned_abs() > 1 << 100 {
                    return None;
                }
                ga.div(gb)
            }
            _ => return None,
        };
        expect(t, p, ")")?;
        Some(r)
    } else {
        let s = tok.strip_suffix(".0").unwrap_or(&tok);
        let n: i128 = s.parse().ok()?;
        Some(Q { n, d: 1 })
    }
}
