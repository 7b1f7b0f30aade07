//! Numbers and characters written in the library's source: values at which its behaviour may change, for the generators to
//! try among others (as a fuzzer's dictionary). They decide nothing.
use std::sync::OnceLock;

/// Values of the integer and character literals in the text, comments left out
pub fn literals(text: &str, out: &mut Vec<u64>) {
    let c: Vec<char> = text.lines().take_while(|l| !l.contains("#[cfg(test)]")).map(|l| l.split("//").next().unwrap_or("")).collect::<Vec<_>>().join("\n").chars().collect();
    let mut i = 0;
    // The last number, and where it ended
    let mut last: (u64, usize) = (0, 0);
    while i < c.len() {
        let before = if i == 0 { ' ' } else { c[i - 1] };
        if c[i].is_ascii_digit() && !(before.is_alphanumeric() || before == '_' || before == '{') {
            let (radix, start) = match (c[i], c.get(i + 1)) { ('0', Some('x')) => (16, i + 2), ('0', Some('b')) => (2, i + 2), ('0', Some('o')) => (8, i + 2), _ => (10, i) };
            let mut v: Option<u64> = Some(0);
            i = start;
            while i < c.len() && (c[i] == '_' || c[i].is_digit(radix)) { if let Some(d) = c[i].to_digit(radix) { v = v.and_then(|v| v.checked_mul(radix as u64)).and_then(|v| v.checked_add(d as u64)); } i += 1; }
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') { i += 1; }
            if let Some(v) = v {
                out.push(v);
                let first = if radix == 10 { start } else { start - 2 };
                let between: String = c[last.1.min(first)..first].iter().filter(|x| !x.is_whitespace()).collect();
                // a << n, a * n
                let whole = match between.as_str() { "<<" if v < 64 => last.0.checked_mul(1 << v), "*" => last.0.checked_mul(v), _ => None };
                out.extend(whole);
                last = (v, i);
            }
        } else if c[i] == '\\' && c.get(i + 1) == Some(&'u') && c.get(i + 2) == Some(&'{') {
            let s: String = c[i + 3..].iter().take_while(|x| **x != '}').collect();
            if let Ok(v) = u64::from_str_radix(&s, 16) { out.push(v); }
            i += 3;
        } else if c[i] == '\\' && matches!(c.get(i + 1), Some('n' | 'r' | 't' | '0' | 'x')) {
            match c[i + 1] { 'n' => out.push(10), 'r' => out.push(13), 't' => out.push(9), '0' => out.push(0), _ => { let s: String = c[i + 2..].iter().take(2).collect(); if let Ok(v) = u64::from_str_radix(&s, 16) { out.push(v); } } }
            i += 2;
        } else if c[i] == '\'' && c.get(i + 2) == Some(&'\'') && c[i + 1] != '\\' {
            out.push(c[i + 1] as u64);
            i += 3;
        } else { i += 1; }
    }
}

pub fn values() -> &'static [u64] {
    static V: OnceLock<Vec<u64>> = OnceLock::new();
    V.get_or_init(|| {
        let dir = std::env::var("VERIF_SRC").unwrap_or_else(|_| "/repo/src".into());
        let mut v = vec![];
        if let Ok(files) = std::fs::read_dir(&dir) {
            for f in files.flatten() { if let Ok(t) = std::fs::read_to_string(f.path()) { literals(&t, &mut v); } }
        }
        v.sort(); v.dedup();
        v.truncate(1000);
        v
    })
}

#[test]
fn reads_literals() {
    let mut v = vec![];
    literals("if x == '\\u{2028}' || y > 0x1_00 { a1 + 77u32 } // 12\n'q' b'z' \"\\r\" 1 << 12 6 * 0x10\n#[cfg(test)]\n99", &mut v);
    assert_eq!(v, vec![0x2028, 0x100, 77, 113, 122, 13, 1, 12, 4096, 6, 16, 96]);
}
