//! Hostile inputs: mutations of valid documents, token soup and arbitrary text.

use crate::rng::Rng;

const TOKENS: &[&str] = &[
    "a", "b", "foo", "for", "in", "if", "else", "endif", "endfor", "null", "true", "false", "x-y", "é",
    "0", "1", "42", "1.5", "1e3", "1e", "1.", "01", "18446744073709551615", "18446744073709551616",
    "1e400", "-", "!", "+", "*", "/", "%", "==", "!=", "<", "<=", ">", ">=", "&&", "||", "&", "|", "=",
    "=>", ":", "::", "?", ",", ".", "..", "...", "(", ")", "[", "]", "{", "}", "\"", "\"a\"", "\"${",
    "${", "%{", "$${", "%%{", "~", "~}", "}\"", "%{ if ", "%{ else }", "%{ endif }", "%{ for ",
    "%{ endfor }", "<<EOT\n", "<<-EOT\n", "\nEOT\n", "EOT", "<<", "<<-", "\\", "\\n", "\\u0041",
    "\\u12", "\\U0001F600", "\\UFFFFFFFF", "\\q", "#", "//", "/*", "*/", "# c\n", "/* c */", "// c\n",
    "\n", "\r\n", " ", "\t", "  ", "\u{feff}", "\u{0}", "😀", "\u{2028}", "\u{a0}", "$", "%", "@", ";",
    "a = 1\n", "b {\n}\n", "b \"l\" {}\n", "f(", "f(x...)", ".*", "[*]", ".0", "[0]",
];

pub fn token(r: &mut Rng) -> &'static str {
    TOKENS[r.below(TOKENS.len())]
}

pub fn soup(r: &mut Rng) -> String {
    let n = r.range(1, 25);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(token(r));
        if r.below(3) == 0 {
            s.push(' ');
        }
    }
    s
}

pub fn any_text(r: &mut Rng) -> String {
    let n = r.range(0, 30);
    (0..n)
        .map(|_| match r.below(6) {
            0 => char::from_u32(r.below(0x80) as u32).unwrap(),
            1 => char::from_u32(r.below(0x11_0000) as u32).unwrap_or('\u{fffd}'),
            2 => char::from_u32(r.below(0x800) as u32).unwrap(),
            _ => *r.pick(&['{', '}', '"', '$', '%', '\\', '\n', ' ', 'a', '=', '<', '[', '(', '.', '1']),
        })
        .collect()
}

fn boundary(r: &mut Rng, s: &str) -> usize {
    let mut i = r.below(s.len() + 1);
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i
}

/// A position next to a structural character, where mutations have the most effect.
fn hot(r: &mut Rng, s: &str) -> usize {
    let cand: Vec<usize> = s
        .char_indices()
        .filter(|(_, c)| !c.is_alphanumeric() && *c != ' ')
        .map(|(i, _)| i)
        .collect();
    if cand.is_empty() || r.below(3) == 0 {
        boundary(r, s)
    } else {
        *r.pick(&cand)
    }
}

/// One small change.
pub fn mutate(r: &mut Rng, s: &str, other: &str) -> String {
    let i = hot(r, s);
    let (a, b) = s.split_at(i);
    let next = |b: &str| b.chars().next().map_or(0, char::len_utf8);
    match r.below(10) {
        // Delete a character.
        0 | 1 => format!("{a}{}", &b[next(b)..]),
        // Duplicate a character.
        2 => format!("{a}{}{b}", &b[..next(b)]),
        // Insert a token.
        3 | 4 => format!("{a}{}{b}", token(r)),
        // Replace a character by a token.
        5 => format!("{a}{}{}", token(r), &b[next(b)..]),
        // Truncate.
        6 => a.to_string(),
        // Drop a range.
        7 => {
            let mut j = (i + r.range(1, 20)).min(s.len());
            while !s.is_char_boundary(j) {
                j += 1;
            }
            format!("{a}{}", &s[j..])
        }
        // Move a range.
        8 => {
            let mut j = (i + r.range(1, 12)).min(s.len());
            while !s.is_char_boundary(j) {
                j += 1;
            }
            let cut = &s[i..j];
            let rest = format!("{a}{}", &s[j..]);
            let k = boundary(r, &rest);
            format!("{}{cut}{}", &rest[..k], &rest[k..])
        }
        // Splice a piece of another document.
        _ => {
            let k = boundary(r, other);
            let mut j = (k + r.range(1, 30)).min(other.len());
            while !other.is_char_boundary(j) {
                j += 1;
            }
            format!("{a}{}{b}", &other[k..j])
        }
    }
}
