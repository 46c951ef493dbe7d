//! I01-I03, I05, I06: programs read from a text.
use std::sync::Arc;

use relp_verif::explore::{Family, Request, Scenario, main_entry};
use relp_verif::lpq::*;
use relp_verif::{scenario, sides};

sides!("../scn/common.rs", "../scn/simplex.rs", "../scn/general.rs", "../scn/presolve.rs", "../scn/mps.rs");

const OPS: u64 = 3_000_000;

fn meanings(req: &Request, kinds: &[&str], salt: u64) -> Vec<Scenario> {
    let t = req.thorough();
    let mut rng = Rng::new(req.seed, salt);
    let mut out = vec![];
    for i in 0..if t { 3000 } else { 700 } {
        let n = rng.range(1, if t { 4 } else { 3 }) as usize;
        let m = rng.range(if i % 7 == 0 { 0 } else { 1 }, if t { 4 } else { 3 }) as usize;
        let kind = *pick(&mut rng, kinds);
        let fixed = rng.chance(1, 2);
        // Text in columns can be read by either
        let columns = fixed || rng.chance(1, 3);
        let kind = format!("{kind}{}", if fixed { "f" } else if columns { "" } else { "w" });
        let text = Arc::new(Text::random(&mut rng, n, m, columns, &kind));
        let zero: Vec<bool> = (0..2 * n).map(|_| rng.chance(1, 4)).collect();
        let zero = Arc::new(zero);
        for how in 0..if i % 4 == 0 { 3 } else { 2 } {
            let paths = if t { 300 } else { 60 };
            out.push(scenario!(format!("text{i}-{}-{}-{kind}", if fixed { "fixed" } else { "free" }, ["forward", "backward", "presolved"][how as usize]), paths, OPS,
                |e, text, zero| side => side::text_means(e, &text, fixed, how, &zero)));
        }
    }
    out
}

fn agree(req: &Request) -> Vec<Scenario> {
    let t = req.thorough();
    let mut rng = Rng::new(req.seed, 95);
    let mut out = vec![];
    for i in 0..if t { 60000 } else { 6000 } {
        let n = rng.range(1, 5) as usize;
        let m = rng.range(if i % 7 == 0 { 0 } else { 1 }, 5) as usize;
        let kind = *pick(&mut rng, &["", "r", "b", "rb", "rbm"]);
        let text = Arc::new(Text::random(&mut rng, n, m, true, kind));
        out.push(scenario!(format!("agree{i}-{kind}"), 60, OPS, |e, text| side => side::readers_agree(e, &text)));
    }
    out
}

/// Damage to a text.
fn damaged(rng: &mut Rng, text: &str) -> String {
    let mut lines: Vec<String> = text.lines().map(|l| l.to_string()).collect();
    let i = rng.below(lines.len() as u64) as usize;
    let words = ["SC", "é", "'MARKER'", "'INTORG'", "ROWS", "N", "COST", "-", "1e5", "x0", "BV", "FR", "0", "@@", "\u{3000}", "RHS", "*", "Ω123456", "BND0"];
    match rng.below(14) {
        0 => {
            lines.remove(i);
        }
        1 => {
            let l = lines[i].clone();
            lines.insert(rng.below(lines.len() as u64 + 1) as usize, l);
        }
        2 => {
            let j = rng.below(lines.len() as u64) as usize;
            lines.swap(i, j);
        }
        3 => {
            let at: Vec<usize> = lines[i].char_indices().map(|x| x.0).collect();
            if !at.is_empty() {
                let at = *pick(rng, &at);
                lines[i].truncate(at);
            }
        }
        4 | 5 | 6 => {
            let at: Vec<usize> = lines[i].char_indices().map(|x| x.0).collect();
            if !at.is_empty() {
                let at = *pick(rng, &at);
                lines[i].insert_str(at, *pick(rng, &["é", " ", "x", "\t", "Ω", "\u{3000}", "-", "'", "."]));
            }
        }
        7 | 8 | 9 => {
            // A word is replaced, at the same position
            let parts: Vec<String> = lines[i].split_whitespace().map(|w| w.to_string()).collect();
            if !parts.is_empty() {
                let old = pick(rng, &parts).clone();
                let new = *pick(rng, &words);
                let pad = old.chars().count().saturating_sub(new.chars().count());
                lines[i] = lines[i].replacen(&old, &format!("{new}{}", " ".repeat(pad)), 1);
            }
        }
        10 => {
            lines.truncate(i);
        }
        11 => lines.insert(i, pick(rng, &["   ", " é", "RANGES", "BOUNDS", "RHS", "ENDATA", "NAME", "OBJSENSE", "  MAX", " FR BND0      x0", " SC BND0      x0                   1", "é", " N  COST", "    M0        'MARKER'                 'INTORG'"]).to_string()),
        12 => {
            let at: Vec<usize> = lines[i].char_indices().map(|x| x.0).collect();
            if !at.is_empty() {
                let at = *pick(rng, &at);
                lines[i].remove(at);
            }
        }
        _ => lines[i] = lines[i].trim().to_string(),
    }
    lines.join(*pick(rng, &["\n", "\n", "\r\n"]))
}

fn malformed(req: &Request) -> Vec<Scenario> {
    let t = req.thorough();
    let mut rng = Rng::new(req.seed, 96);
    let mut out = vec![];
    for i in 0..if t { 200000 } else { 20000 } {
        let n = rng.range(1, 3) as usize;
        let m = rng.range(if i % 7 == 0 { 0 } else { 1 }, 3) as usize;
        let kind = *pick(&mut rng, &["", "r", "b", "rb", "rbm", "rbm"]);
        let fixed = rng.chance(1, 2);
        let columns = fixed || rng.chance(1, 2);
        let kind = format!("{kind}{}", if fixed { "f" } else if columns { "" } else { "w" });
        let text = Text::random(&mut rng, n, m, columns, &kind);
        let mut s = text.write();
        for _ in 0..rng.range(1, 3) {
            if !s.is_empty() {
                s = damaged(&mut rng, &s);
            }
        }
        if i < 8 {
            s = ["", "\n", "NAME", "é", "NAM", "NAMÉ", "NAME x\nROWS", "NAME x\nOBJSENSE\nROWS"][i].to_string();
        }
        let (text, s) = (Arc::new(text), Arc::new(s));
        out.push(scenario!(format!("malformed{i}-{}", if fixed { "fixed" } else { "free" }), 60, OPS, |e, text, s| side => side::reads_or_rejects(e, &text, &s, fixed)));
    }
    out
}

/// A text that says something that can't be true of any program.
fn contradiction(rng: &mut Rng, fixed: bool) -> Option<(&'static str, Text, String)> {
    let n = rng.range(1, 3) as usize;
    let m = rng.range(1, 3) as usize;
    let columns = fixed || rng.chance(1, 2);
    let mut t = Text::random(rng, n, m, columns, "rb");
    let j = rng.below(n as u64) as usize;
    let i = rng.below(m as u64) as usize;
    let value = |rng: &mut Rng| if rng.chance(1, 2) { V::K(rng.range(-2, 3)) } else { V::Free("z", 0) };
    let what = match rng.below(17) {
        0 | 1 => {
            let rows: Vec<Option<usize>> = t.columns[j].entries.iter().map(|e| e.0).filter(|r| r.is_some()).collect();
            if rows.is_empty() {
                return None;
            }
            let r = *pick(rng, &rows);
            let v = value(rng);
            let at = rng.below(t.columns[j].entries.len() as u64 + 1) as usize;
            t.columns[j].entries.insert(at, (r, v));
            "coefficient twice"
        }
        2 => {
            if !t.columns[j].entries.iter().any(|e| e.0.is_none()) {
                return None;
            }
            let v = value(rng);
            let at = rng.below(t.columns[j].entries.len() as u64 + 1) as usize;
            t.columns[j].entries.insert(at, (None, v));
            "cost twice"
        }
        3 => {
            if j + 1 >= n {
                return None;
            }
            let mut c = t.columns[j].clone();
            c.entries.truncate(1);
            t.columns.push(c);
            "column in two parts"
        }
        4 => {
            let r = (*pick(rng, &['L', 'G', 'E']), t.rows[i].1.clone());
            t.rows.push(r);
            "row twice"
        }
        5 => {
            if t.ranges.is_empty() {
                return None;
            }
            let old = *pick(rng, &t.ranges.iter().flatten().map(|x| x.0).collect::<Vec<_>>());
            let v = value(rng);
            t.ranges.push(vec![(old, v)]);
            "range twice"
        }
        6 => {
            let kind = *pick(rng, &["LO", "UP", "FX", "LI", "UI", "BV", "MI", "PL"]);
            t.bounds.retain(|b| b.2 != j);
            let v = if matches!(kind, "BV" | "MI" | "PL") { None } else { Some(value(rng)) };
            t.bounds.push((0, kind, j, v));
            let at = rng.below(2) as usize;
            let at = t.bounds.len() - at;
            t.bounds.insert(at, (0, "FR", j, None));
            "free and bounded"
        }
        7 => {
            t.rows[i].0 = *pick(rng, &['X', 'Q', '=']);
            "kind of row"
        }
        8 => {
            t.bounds.push((0, *pick(rng, &["XX", "LL", "SC"]), j, Some(value(rng))));
            "kind of bound"
        }
        9 => {
            t.rows[i].0 = 'E';
            t.ranges.clear();
            for g in t.rhs.iter_mut() {
                g.retain(|x| x.0 != i);
            }
            t.rhs.retain(|g| !g.is_empty());
            t.rhs.push(vec![(i, V::K(1))]);
            t.rhs.push(vec![(i, V::K(2))]);
            "two values for an equality"
        }
        11 => {
            // Names matter only for what is referred to
            t.rows[i].1 = String::new();
            "row without a name"
        }
        10 => {
            t.ranges.clear();
            t.ranges.push(vec![(i, V::K(*pick(rng, &[2, -2, 0])))]);
            t.rhs.clear();
            let values = *pick(rng, &[[1, 2], [2, 1], [0, 1]]);
            for v in values {
                let mut group = vec![(i, V::K(v))];
                if m > 1 && rng.chance(1, 2) {
                    group.push(((i + 1) % m, V::K(1)));
                }
                t.rhs.push(group);
            }
            "two values for a range"
        }
        _ => {
            let s = t.write();
            let mut lines: Vec<String> = s.lines().map(|l| l.to_string()).collect();
            let section = |title: &str| -> Vec<usize> {
                let mut inside = false;
                let mut v = vec![];
                for (i, l) in lines.iter().enumerate() {
                    if !l.starts_with(' ') && !l.starts_with('*') && !l.is_empty() {
                        inside = l.trim() == title;
                    } else if inside && !l.trim().is_empty() && !l.trim().starts_with('*') && !l.contains("'MARKER'") {
                        v.push(i);
                    }
                }
                v
            };
            let (title, at, what) = *pick(rng, &[("COLUMNS", 1, "unknown row in a column"), ("RHS", 1, "unknown row in the right-hand side"), ("RANGES", 1, "unknown row in the ranges"), ("BOUNDS", 2, "unknown column"), ("", 0, "no end"), ("", 1, "order of sections"), ("", 2, "no value")]);
            if title.is_empty() {
                let all = section("COLUMNS");
                match at {
                    0 => {
                        lines.retain(|l| l != "ENDATA");
                    }
                    1 => {
                        let a = lines.iter().position(|l| l == "COLUMNS").unwrap();
                        lines[a] = "BOUNDS".to_string();
                    }
                    _ => {
                        let i = *pick(rng, &all);
                        let words: Vec<String> = lines[i].split_whitespace().map(|w| w.to_string()).collect();
                        let last = words.last().unwrap();
                        let cut = lines[i].rfind(last.as_str()).unwrap();
                        lines[i].truncate(cut);
                    }
                }
            } else {
                let v = section(title);
                if v.is_empty() {
                    return None;
                }
                let i = *pick(rng, &v);
                let words: Vec<String> = lines[i].split_whitespace().map(|w| w.to_string()).collect();
                // The position of the word
                let mut start = 0;
                let mut rest = lines[i].as_str();
                for (k, w) in words.iter().enumerate() {
                    let skip = rest.find(w.as_str()).unwrap();
                    start += skip;
                    if k == at {
                        break;
                    }
                    start += w.len();
                    rest = &lines[i][start..];
                }
                let old = &words[at];
                let new = format!("{:<1$}", "??", old.len());
                let old_end = start + old.len();
                let tail = lines[i][old_end..].to_string();
                // Two characters might need the space after a single one
                let tail = if new.len() > old.len() && tail.starts_with(' ') { tail[new.len() - old.len()..].to_string() } else { tail };
                let tail = if tail.starts_with(' ') || tail.is_empty() { tail } else { format!(" {tail}") };
                lines[i] = format!("{}{new}{tail}", &lines[i][..start]);
            }
            return Some((what, t, lines.join("\n")));
        }
    };
    let s = t.write();
    Some((what, t, s))
}

fn contradictions(req: &Request) -> Vec<Scenario> {
    let t = req.thorough();
    let mut rng = Rng::new(req.seed, 97);
    let mut out = vec![];
    let mut i = 0;
    while i < if t { 20000 } else { 3000 } {
        let fixed = rng.chance(1, 2);
        let Some((what, text, s)) = contradiction(&mut rng, fixed) else { continue };
        let (text, s) = (Arc::new(text), Arc::new(s));
        out.push(scenario!(format!("contradiction{i}-{}-{}", if fixed { "fixed" } else { "free" }, what.replace(' ', "_")), 60, OPS, |e, text, s| side => side::rejected(e, &text, &s, fixed)));
        i += 1;
    }
    out
}

fn scenarios(req: &Request) -> Vec<Scenario> {
    match req.property.as_str() {
        "I01" => meanings(req, &["", "", "m", "b"], 91),
        "I02" => meanings(req, &["r", "r", "rm", "rb"], 92),
        "I03" => meanings(req, &["b"], 93),
        "I05" => agree(req),
        _ => {
            let mut v = contradictions(req);
            v.extend(malformed(req));
            v
        }
    }
}

fn describe(req: &Request) -> (Vec<&'static str>, String, Vec<&'static str>) {
    let t = req.thorough();
    let f = vec![
        "io::mps::{parse_fixed, parse_free} with every section, fixed::Fixed and free::Free",
        "<MPS as TryInto<GeneralForm>>::try_into: compute_variable_info, process_bounds, compute_ranges, compute_constraint_types, compute_b",
        "GeneralForm::{standardize, derive_matrix_data, compute_full_solution_with_reduced_solution} to observe the program",
    ];
    let bounds = match req.property.as_str() {
        "I05" => "texts in columns with 1-5 columns and 0-5 rows, all sections and bound types, numbers at either side of their field, one or two entries per line, comments, trailing spaces; all numbers in them".to_string(),
        "I06" => "texts with 1-3 columns and 0-3 rows, all sections, damaged one to three times (lines and words removed, repeated, moved, replaced, truncated, non-ASCII characters), or made to contradict themselves in one of fifteen ways; all numbers in them".to_string(),
        _ => format!("texts with 1-{} columns and 0-{0} rows, either reader, all the sections of the property, one or two entries per line, comments, trailing spaces; all numbers in them and all points of the program", if t { 4 } else { 3 }),
    };
    (f, bounds, vec![
        "numbers are read by a stand-in that gives symbolic values to the words that denote them (see I04 for the reading of numbers)",
    ])
}

fn main() {
    main_entry(Family { scenarios, describe })
}
