//! Just enough JSON.
pub fn s(x: &str) -> String {
    let mut o = String::with_capacity(x.len() + 2);
    o.push('"');
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn obj(kv: &[(&str, String)]) -> String {
    format!("{{{}}}", kv.iter().map(|(k, v)| format!("{}: {v}", s(k))).collect::<Vec<_>>().join(", "))
}
pub fn arr(v: &[String]) -> String {
    format!("[{}]", v.join(", "))
}
/// The value of a string or number field in a flat object written by this module.
pub fn field(text: &str, key: &str) -> Option<String> {
    let k = format!("\"{key}\": ");
    let rest = &text[text.find(&k)? + k.len()..];
    if let Some(r) = rest.strip_prefix('"') {
        let mut o = String::new();
        let mut it = r.chars();
        while let Some(c) = it.next() {
            match c {
                '"' => return Some(o),
                '\\' => match it.next()? {
                    'n' => o.push('\n'),
                    c => o.push(c),
                },
                c => o.push(c),
            }
        }
        None
    } else {
        Some(rest.split([',', '}']).next()?.trim().to_string())
    }
}
