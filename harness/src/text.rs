//! Positions of LSP: lines end with \n, \r\n or \r, characters are UTF-16 code units.

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Pos {
    pub line: usize,
    pub ch: usize,
}

/// Offsets where lines begin, without the first one
fn starts(text: &str) -> impl Iterator<Item = usize> + '_ {
    let b = text.as_bytes();
    (0..b.len()).filter(move |&i| b[i] == b'\n' || b[i] == b'\r' && b.get(i + 1) != Some(&b'\n')).map(|i| i + 1)
}

pub fn pos(text: &str, offset: usize) -> Pos {
    let (mut line, mut start) = (0, 0);
    for s in starts(text).take_while(|s| *s <= offset) {
        line += 1;
        start = s;
    }
    Pos {
        line,
        ch: text[start..offset].encode_utf16().count(),
    }
}

/// Offset of a position; positions outside of the text are moved to the end of the line / text.
pub fn offset(text: &str, p: Pos) -> usize {
    let mut start = 0;
    if p.line > 0 {
        match starts(text).nth(p.line - 1) {
            Some(s) => start = s,
            None => return text.len(),
        }
    }
    let mut ch = 0;
    let mut at = start;
    for c in text[start..].chars().take_while(|c| !matches!(c, '\n' | '\r')) {
        if ch >= p.ch {
            break;
        }
        ch += c.len_utf16();
        at += c.len_utf8();
    }
    at
}

pub type Span = (usize, usize);

pub fn range_key(text: &str, span: Span) -> String {
    let (a, b) = (pos(text, span.0), pos(text, span.1));
    format!("{}:{}-{}:{}", a.line, a.ch, b.line, b.ch)
}

/// Same form for a range in an answer of the server
pub fn json_range(r: &serde_json::Value) -> String {
    format!(
        "{}:{}-{}:{}",
        r["start"]["line"], r["start"]["character"], r["end"]["line"], r["end"]["character"]
    )
}

pub fn encode_path(path: &str) -> String {
    let mut out = String::from("file://");
    for b in path.bytes() {
        let ok = b.is_ascii_alphanumeric() || b"/-_.~!$&'()*+,;=:@".contains(&b);
        if ok {
            out.push(b as char);
        } else {
            out.push_str(&format!("%{b:02X}"));
        }
    }
    out
}

/// Path of a file URI, None if it isn't one
pub fn decode_uri(uri: &str) -> Option<String> {
    let rest = uri.strip_prefix("file://")?;
    if rest.contains('#') || rest.contains('?') {
        return None;
    }
    let mut out = vec![];
    let b = rest.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            let hex = rest.get(i + 1..i + 3)?;
            out.push(u8::from_str_radix(hex, 16).ok()?);
            i += 3;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8(out).ok()
}
