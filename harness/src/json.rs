//! Just enough JSON.
use std::fmt::Write;

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn arr(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "))
}
/// Read a flat string-valued field.
pub fn field(text: &str, key: &str) -> Option<String> {
    let k = format!("\"{key}\"");
    let i = text.find(&k)? + k.len();
    let rest = text[i..].trim_start().strip_prefix(':')?.trim_start();
    let mut chars = rest.chars();
    if rest.starts_with('"') {
        chars.next();
        let mut o = String::new();
        while let Some(c) = chars.next() {
            match c {
                '"' => return Some(o),
                '\\' => match chars.next()? {
                    'n' => o.push('\n'),
                    't' => o.push('\t'),
                    'u' => {
                        let h: String = chars.by_ref().take(4).collect();
                        o.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
                    }
                    c => o.push(c),
                },
                c => o.push(c),
            }
        }
        None
    } else {
        Some(rest.chars().take_while(|c| !",}]\n".contains(*c)).collect::<String>().trim().to_string())
    }
}
