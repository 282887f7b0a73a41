//! Just enough JSON.

pub fn quote(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// The string value of a top level key of a file this program wrote.
pub fn field(text: &str, key: &str) -> Option<String> {
    let k = format!("\"{}\": \"", key);
    let i = text.find(&k)? + k.len();
    let mut o = String::new();
    let mut it = text[i..].chars();
    while let Some(c) = it.next() {
        match c {
            '"' => return Some(o),
            '\\' => match it.next()? {
                'n' => o.push('\n'),
                't' => o.push('\t'),
                'r' => o.push('\r'),
                c => o.push(c),
            },
            c => o.push(c),
        }
    }
    None
}
