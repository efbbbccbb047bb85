//! Runtime of the lexer harness: reads each text to the end with the real lexer and
//! prints what every request answered. No expectation is encoded here.
use std::fmt::Write as _;
use std::io::Write as _;
use teleparse::prelude::*;
use teleparse::Lexicon;

pub fn esc(o: &mut String, s: &str) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}

pub fn chars(o: &mut String, s: &str) {
    o.push('[');
    for (i, c) in s.chars().enumerate() {
        if i > 0 {
            o.push(',');
        }
        let mut b = [0u8; 4];
        esc(o, c.encode_utf8(&mut b));
    }
    o.push(']');
}

/// All requests up to the one without token, and `extra` more
pub fn read<L: Lexicon>(src: &str, extra: usize) -> String {
    let mut lexer = match L::lexer(src) {
        Ok(l) => l,
        Err(_) => return "\"reads\":[],\"lexerr\":true".to_string(),
    };
    let mut o = String::from("\"reads\":[");
    let (mut n, mut ended) = (0, 0);
    while ended <= extra && n <= src.len() + 4 + extra {
        let (inv, tok) = lexer.next();
        if n > 0 {
            o.push(',');
        }
        n += 1;
        o.push_str("{\"inv\":");
        match inv {
            Some(s) => {
                let _ = write!(o, "[{},{}]", s.lo, s.hi);
            }
            None => o.push_str("[]"),
        }
        o.push_str(",\"tok\":");
        match tok {
            Some(t) => {
                let _ = write!(o, "[{{\"ty\":\"{:?}\",\"lo\":{},\"hi\":{},\"txt\":", t.ty, t.span.lo, t.span.hi);
                chars(&mut o, t.src(src));
                let _ = write!(o, ",\"extract\":{}}}]", t.ty.should_extract());
            }
            None => {
                o.push_str("[]");
                ended += 1;
            }
        }
        o.push('}');
    }
    o.push(']');
    o
}

/// Jobs, one per line, tab separated:
/// enum <lexicon> <maxlen> <char>...   |   text <lexicon> <text>
pub fn main_loop(run: fn(usize, &str) -> String) {
    let args: Vec<String> = std::env::args().collect();
    let from: usize = args[2].parse().unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    let stdout = std::io::stdout();
    let mut out = std::io::BufWriter::with_capacity(1 << 16, stdout.lock());
    let text = std::fs::read_to_string(&args[1]).unwrap();
    let mut id = 0;
    let mut one = |lex: usize, input: &str| {
        let this = id;
        id += 1;
        if this < from {
            return;
        }
        let _ = writeln!(out, "#{this}");
        let mut o = String::new();
        let _ = write!(o, "{{\"id\":{this},\"lex\":{lex},\"in\":");
        chars(&mut o, input);
        let off: Vec<usize> = input.char_indices().map(|(i, _)| i).chain([input.len()]).collect();
        let _ = write!(o, ",\"off\":{off:?},");
        out.flush().unwrap();
        match std::panic::catch_unwind(|| run(lex, input)) {
            Ok(s) => {
                o.push_str("\"end\":\"ok\",");
                o.push_str(&s);
            }
            Err(_) => o.push_str("\"end\":\"panic\",\"reads\":[]"),
        }
        o.push('}');
        writeln!(out, "{o}").unwrap();
    };
    for line in text.lines() {
        let p: Vec<&str> = line.split('\t').collect();
        let lex: usize = p[1].parse().unwrap();
        if p[0] == "text" {
            one(lex, &p[2].replace("\\n", "\n"));
            continue;
        }
        let maxlen: usize = p[2].parse().unwrap();
        let items: Vec<String> = p[3..].iter().map(|x| x.replace("\\n", "\n")).collect();
        for len in 0..=maxlen {
            let mut idx = vec![0usize; len];
            loop {
                let input: String = idx.iter().map(|i| items[*i].as_str()).collect();
                one(lex, &input);
                let mut j = len;
                let mut done = true;
                while j > 0 {
                    j -= 1;
                    idx[j] += 1;
                    if idx[j] < items.len() {
                        done = false;
                        break;
                    }
                    idx[j] = 0;
                }
                if done {
                    break;
                }
            }
        }
    }
    out.flush().unwrap();
}
