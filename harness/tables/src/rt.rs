//! Runtime of the tables harness: drives the token table, the sets of token types and
//! the sets of terminals, and prints what they answer. No expectation is encoded here.
use std::collections::BTreeSet;
use std::fmt::Write as _;
use std::io::Write as _;
use teleparse::lex::{Map, Set, TokenSlice, TokenSrc, TokenVec};
use teleparse::prelude::*;
use teleparse::syntax::{FirstSet, FollowSet, LitSet, TerminalSet};
use teleparse::{Lexicon, Token};

pub fn esc(o: &mut String, s: &str) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}

fn strings<'a>(v: impl IntoIterator<Item = &'a str>) -> String {
    let mut o = String::from("[");
    for (i, s) in v.into_iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        esc(&mut o, s);
    }
    o.push(']');
    o
}

fn quoted(s: &str) -> String {
    let mut o = String::new();
    esc(&mut o, s);
    o
}

// ---------------------------------------------------------------- token table
#[derive_lexicon]
pub enum K {
    #[teleparse(terminal(KA = "a"))]
    A,
    #[teleparse(terminal(KB = "b"))]
    B,
    S,
    R,
}

fn kind(s: &str) -> K {
    match s {
        "A" => K::A,
        "B" => K::B,
        "S" => K::S,
        _ => K::R,
    }
}

fn kinds(s: &str) -> Set<K> {
    let mut r = Set::new();
    for c in s.split('+').filter(|c| !c.is_empty()) {
        r.insert(kind(c));
    }
    r
}

fn names(s: Set<K>) -> String {
    let v: Vec<String> = s.into_iter().map(|x| format!("{x:?}")).collect();
    strings(v.iter().map(|x| x.as_str()))
}

/// the indices (from 1) of the tokens of a slice, by where they begin
fn which(los: &[usize], s: &TokenSlice<K>) -> Vec<usize> {
    s.iter().map(|c| los.iter().position(|l| *l == c.span.lo).map(|x| x + 1).unwrap_or(0)).collect()
}

fn marked(v: &TokenVec<K>, with: K) -> Vec<usize> {
    v.iter().enumerate().filter(|(_, c)| c.semantics().contains(with)).map(|(i, _)| i + 1).collect()
}

fn pair(b: Option<(usize, usize)>) -> String {
    b.map(|(l, h)| format!("[{l},{h}]")).unwrap_or_else(|| "[]".into())
}

fn tokens(spec: &str) -> TokenVec<K> {
    let mut v = TokenVec::new();
    for t in spec.split(';').filter(|t| !t.is_empty()) {
        let p: Vec<&str> = t.split(',').collect();
        v.push_unchecked(Token::new((p[1].parse().unwrap(), p[2].parse().unwrap()), kind(p[0])));
    }
    v
}

fn layout(spec: &str, spans: &str) -> String {
    let v = tokens(spec);
    let los: Vec<usize> = v.iter().map(|c| c.span.lo).collect();
    let mut o = String::from("\"toks\":[");
    for (i, c) in v.iter().enumerate() {
        let _ = write!(o, "{}{{\"ty\":\"{:?}\",\"lo\":{},\"hi\":{}}}", if i > 0 { "," } else { "" }, c.ty, c.span.lo, c.span.hi);
    }
    o.push_str("],\"q\":[");
    let mut spanv: Vec<(usize, usize)> = vec![];
    let mut poss: BTreeSet<usize> = BTreeSet::new();
    if let Some(m) = spans.strip_prefix("max") {
        let m: usize = m.parse().unwrap();
        for l in 0..=m {
            poss.insert(l);
            for h in 0..=m {
                spanv.push((l, h));
            }
        }
    } else {
        for s in spans.split(';').filter(|s| !s.is_empty()) {
            let (l, h) = s.split_once(',').unwrap();
            let (l, h) = (l.parse().unwrap(), h.parse().unwrap());
            poss.insert(l);
            poss.insert(h);
            spanv.push((l, h));
        }
    }
    for (i, (l, h)) in spanv.iter().enumerate() {
        let sp = Span::new(*l, *h);
        let mut a = v.clone();
        a.inside_mut(sp).apply_semantic(kinds("S"));
        let mut b = v.clone();
        b.overlap_mut(sp).apply_semantic(kinds("R"));
        let at: Vec<usize> = v.at_span(sp).map(|c| los.iter().position(|x| *x == c.span.lo).unwrap() + 1).into_iter().collect();
        let _ = write!(
            o,
            "{}{{\"lo\":{l},\"hi\":{h},\"inb\":{},\"ovb\":{},\"in\":{:?},\"ov\":{:?},\"at\":{:?},\"mi\":{:?},\"mo\":{:?}}}",
            if i > 0 { "," } else { "" },
            pair(v.inside_bounds(sp)),
            pair(v.overlap_bounds(sp)),
            which(&los, v.inside(sp)),
            which(&los, v.overlap(sp)),
            at,
            marked(&a, K::S),
            marked(&b, K::R)
        );
    }
    o.push_str("],\"p\":[");
    let mut first = true;
    for pos in &poss {
        for want in ["", "A", "B", "A+B"] {
            let set = kinds(want);
            let ok = |c: &teleparse::lex::Cell<K>| set.contains(c.ty);
            let sl = |x: Option<&TokenSlice<K>>| x.map(|s| which(&los, s)).unwrap_or_default();
            let mut a = v.clone();
            if let Some(s) = a.ends_at_matches_mut(*pos, ok) {
                s.apply_semantic(kinds("S"));
            }
            let mut b = v.clone();
            if let Some(s) = b.begins_at_matches_mut(*pos, ok) {
                s.apply_semantic(kinds("R"));
            }
            let _ = write!(
                o,
                "{}{{\"pos\":{pos},\"want\":{},\"endb\":{},\"begb\":{},\"end\":{:?},\"beg\":{:?},\"me\":{:?},\"mb\":{:?}}}",
                if first { "" } else { "," },
                names(set),
                pair(v.ends_at_matches_bounds(*pos, ok)),
                pair(v.begins_at_matches_bounds(*pos, ok)),
                sl(v.ends_at_matches(*pos, ok)),
                sl(v.begins_at_matches(*pos, ok)),
                marked(&a, K::S),
                marked(&b, K::R)
            );
            first = false;
        }
    }
    o.push(']');
    o
}

/// push ty lo hi | in lo hi types | ov lo hi types | end pos want types | beg pos want types | all types
fn table_history(ops: &[&str]) -> String {
    let mut v: TokenVec<K> = TokenVec::new();
    let mut o = String::from("\"runs\":[");
    for (i, op) in ops.iter().enumerate() {
        let p: Vec<&str> = op.split(' ').collect();
        let n = |i: usize| p[i].parse::<usize>().unwrap();
        match p[0] {
            "push" => v.push_unchecked(Token::new((n(2), n(3)), kind(p[1]))),
            "in" => v.inside_mut((n(1), n(2))).apply_semantic(kinds(p[3])),
            "ov" => v.overlap_mut((n(1), n(2))).apply_semantic(kinds(p[3])),
            "end" => {
                let w = kinds(p[2]);
                if let Some(s) = v.ends_at_matches_mut(n(1), |c| w.contains(c.ty)) {
                    s.apply_semantic(kinds(p[3]));
                }
            }
            // the condition may depend on the marks
            "beg" => {
                let w = kinds(p[2]);
                if let Some(s) = v.begins_at_matches_mut(n(1), |c| c.types().contains_all(w)) {
                    s.apply_semantic(kinds(p[3]));
                }
            }
            _ => v.apply_semantic(kinds(p[1])),
        }
        let _ = write!(o, "{}{{\"empty\":{},\"cells\":[", if i > 0 { "," } else { "" }, v.is_empty());
        for (j, c) in v.iter().enumerate() {
            let same = v.at(j) == Some(c);
            let _ = write!(
                o,
                "{}{{\"ty\":\"{:?}\",\"lo\":{},\"hi\":{},\"sem\":{},\"types\":{},\"at\":{same}}}",
                if j > 0 { "," } else { "" },
                c.ty,
                c.lo(),
                c.hi(),
                names(c.semantics()),
                names(c.types())
            );
        }
        o.push_str("]}");
    }
    o.push(']');
    o
}

// ---------------------------------------------------------------- sets of terminals
const TYPES: [K; 2] = [K::A, K::B];
const TEXTS: [&str; 4] = ["x", "y", "z", "?"];

fn leak(s: &str) -> Option<&'static str> {
    match s {
        "*" => None,
        "x" => Some("x"),
        "y" => Some("y"),
        "z" => Some("z"),
        _ => Some("?"),
    }
}

enum Any {
    Term(TerminalSet<K>),
    First(FirstSet<K>),
    Follow(FollowSet<K>),
}
impl Any {
    fn new(k: &str) -> Self {
        match k {
            "term" => Any::Term(TerminalSet::new()),
            "first" => Any::First(FirstSet::new()),
            _ => Any::Follow(FollowSet::new()),
        }
    }
    fn has(&self, t: Option<TokenSrc<'_, K>>) -> bool {
        match self {
            Any::Term(s) => s.contains(t),
            Any::First(s) => s.contains(t),
            Any::Follow(s) => s.contains(t),
        }
    }
    fn has_e(&self) -> bool {
        match self {
            Any::Term(s) => s.contains_e(),
            Any::First(s) => s.contains_epsilon(),
            Any::Follow(s) => s.contains_eof(),
        }
    }
    fn members(&self) -> String {
        let mut o = String::from("[");
        if self.has_e() {
            o.push_str("\"e\",");
        }
        if self.has(None) {
            o.push_str("\"none\",");
        }
        for t in TYPES {
            for l in TEXTS {
                if self.has(Some(TokenSrc::new(t, l))) {
                    let _ = write!(o, "\"{t:?}:{l}\",");
                }
            }
        }
        if o.ends_with(',') {
            o.pop();
        }
        o.push(']');
        o
    }
    fn show(&self) -> String {
        match self {
            Any::Term(s) => s.to_string(),
            Any::First(s) => s.to_string(),
            Any::Follow(s) => s.to_string(),
        }
    }
}

fn reprs(s: BTreeSet<String>) -> String {
    strings(s.iter().map(|x| x.as_str()))
}

/// ins A x | ins A * | e | -e | clear | uni | unine | swap | first (follow := follow u first of b's terminals)
fn terms_history(k: &str, ops: &[&str]) -> String {
    let (mut a, mut b) = (Any::new(k), Any::new(k));
    let mut o = String::from("\"runs\":[");
    for (i, op) in ops.iter().enumerate() {
        let p: Vec<&str> = op.split(' ').collect();
        // "none": the operation does not say whether it changed anything
        let flag = |b: bool| if b { "yes" } else { "no" };
        let changed = match (p[0], &mut a, &b) {
            ("swap", _, _) => {
                std::mem::swap(&mut a, &mut b);
                "none"
            }
            ("ins", Any::Term(s), _) => flag(s.insert(kind(p[1]), leak(p[2]))),
            ("ins", Any::First(s), _) => flag(s.insert(kind(p[1]), leak(p[2]))),
            ("ins", Any::Follow(s), _) => flag(s.insert(kind(p[1]), leak(p[2]))),
            ("e", Any::Term(s), _) => flag(s.insert_e()),
            ("e", Any::First(s), _) => flag(s.insert_epsilon()),
            ("e", Any::Follow(s), _) => {
                s.insert_eof();
                "none"
            }
            ("-e", Any::Term(s), _) => flag(s.remove_e()),
            ("clear", Any::Term(s), _) => {
                s.clear();
                "none"
            }
            ("clear", Any::First(s), _) => {
                s.clear();
                "none"
            }
            ("uni", Any::Term(s), Any::Term(t)) => flag(s.union(t, true)),
            ("unine", Any::Term(s), Any::Term(t)) => flag(s.union(t, false)),
            ("uni", Any::First(s), Any::First(t)) => flag(s.union(t)),
            ("unine", Any::First(s), Any::First(t)) => flag(s.union_minus_epsilon(t)),
            ("uni", Any::Follow(s), Any::Follow(t)) => flag(s.union_follow(t)),
            ("unine", Any::Follow(s), Any::Follow(t)) => {
                // a FIRST set with the same terminals
                let mut f: FirstSet<K> = FirstSet::new();
                for ty in TYPES {
                    if t.contains(Some(TokenSrc::new(ty, "?"))) {
                        f.insert(ty, None);
                    }
                    for l in ["x", "y", "z"] {
                        if t.contains(Some(TokenSrc::new(ty, l))) {
                            f.insert(ty, leak(l));
                        }
                    }
                }
                if t.contains_eof() {
                    f.insert_epsilon();
                }
                flag(s.union_first(&f))
            }
            _ => "none",
        };
        let (meet, meet_ne, both, both_ne, same, repr, dbg) = match (&a, &b) {
            (Any::Term(s), Any::Term(t)) => (
                flag(s.intersects(t, true)),
                flag(s.intersects(t, false)),
                reprs(s.intersection_repr(t, true)),
                reprs(s.intersection_repr(t, false)),
                s == t,
                reprs(s.to_repr()),
                format!("{s:?}"),
            ),
            (Any::First(s), Any::First(t)) => (
                flag(s.intersects(t)),
                flag(s.intersects_minus_epsilon(t)),
                reprs(s.intersection_repr(t)),
                reprs(s.intersection_repr_minus_epsilon(t)),
                s == t,
                "[]".to_string(),
                String::new(),
            ),
            (Any::Follow(s), Any::Follow(t)) => {
                let mut f: FirstSet<K> = FirstSet::new();
                for ty in TYPES {
                    if t.contains(Some(TokenSrc::new(ty, "?"))) {
                        f.insert(ty, None);
                    }
                    for l in ["x", "y", "z"] {
                        if t.contains(Some(TokenSrc::new(ty, l))) {
                            f.insert(ty, leak(l));
                        }
                    }
                }
                if t.contains_eof() {
                    f.insert_epsilon();
                }
                ("none", flag(s.intersects_first(&f)), "[]".into(), reprs(s.intersection_repr_first(&f)), s == t, "[]".into(), String::new())
            }
            _ => unreachable!(),
        };
        let _ = write!(
            o,
            "{}{{\"changed\":\"{changed}\",\"a\":{},\"b\":{},\"meet\":\"{meet}\",\"meetne\":\"{meet_ne}\",\"both\":{both},\"bothne\":{both_ne},\"same\":{same},\"repr\":{repr},\"show\":{},\"dbg\":{}}}",
            if i > 0 { "," } else { "" },
            a.members(),
            b.members(),
            quoted(&a.show()),
            quoted(&dbg)
        );
    }
    o.push(']');
    o
}

fn lits(s: &LitSet) -> String {
    let v: Vec<&str> = TEXTS.into_iter().filter(|t| s.contains(t)).collect();
    strings(v)
}
fn listed(s: &LitSet) -> String {
    match s.iter() {
        None => "[\"all\"]".to_string(),
        Some(it) => strings(it.copied()),
    }
}

/// ins x | any | clear | uni | swap | copy
fn lits_history(ops: &[&str]) -> String {
    let (mut a, mut b) = (LitSet::new(), LitSet::new());
    let mut o = String::from("\"runs\":[");
    for (i, op) in ops.iter().enumerate() {
        let p: Vec<&str> = op.split(' ').collect();
        let flag = |b: bool| if b { "yes" } else { "no" };
        let changed = match p[0] {
            "ins" => flag(a.insert(leak(p[1]).unwrap())),
            "any" => flag(a.union_universe()),
            "clear" => {
                a.clear();
                "none"
            }
            "uni" => flag(a.union(&b)),
            "of" => {
                a = LitSet::from(p[1..].iter().filter_map(|x| leak(x)));
                "none"
            }
            "universe" => {
                a = LitSet::universe();
                "none"
            }
            "meet" => {
                a = a.intersection(&b);
                "none"
            }
            _ => {
                std::mem::swap(&mut a, &mut b);
                "none"
            }
        };
        let m = a.intersection(&b);
        let _ = write!(
            o,
            "{}{{\"changed\":\"{changed}\",\"a\":{},\"b\":{},\"empty\":{},\"all\":{},\"listed\":{},\"meet\":{},\"both\":{},\"same\":{}}}",
            if i > 0 { "," } else { "" },
            lits(&a),
            lits(&b),
            a.is_empty(),
            a.is_universe(),
            listed(&a),
            a.intersects(&b),
            lits(&m),
            a == b
        );
    }
    o.push(']');
    o
}

// ---------------------------------------------------------------- sets of token types
fn ids<L: Lexicon>(it: impl Iterator<Item = L>) -> Vec<usize> {
    // a broken iterator may never end
    it.take(300).map(|x| x.id()).collect()
}

pub fn lexicon<L: Lexicon>(n: usize) -> String {
    let mut chain = vec![L::first()];
    while let Some(x) = chain.last().unwrap().next() {
        chain.push(x);
        if chain.len() > 300 {
            break;
        }
    }
    let back: Vec<usize> = (0..n).map(|i| L::from_id_unchecked(i).id()).collect();
    let nm: Vec<String> = chain.iter().map(|x| format!("{x:?}")).collect();
    let eq: Vec<usize> = (0..n).map(|i| (0..n).filter(|j| L::from_id_unchecked(i) == L::from_id_unchecked(*j)).count()).collect();
    format!("\"n\":{n},\"ids\":{:?},\"back\":{back:?},\"names\":{},\"eq\":{eq:?}", ids(chain.into_iter()), strings(nm.iter().map(|x| x.as_str())))
}

/// +i -i | b (a := a u b) | s (swap) | r (from_bits of to_bits) | m i v | z i v (through iter_zip_mut)
pub fn bits_history<L: Lexicon>(n: usize, ops: &[&str]) -> String {
    let ty = |s: &str| L::from_id_unchecked(s.parse().unwrap());
    let (mut a, mut b): (Set<L>, Set<L>) = (Set::new(), Set::default());
    let mut m: Map<L, usize> = Map::new();
    let mut o = format!("\"n\":{n},\"runs\":[");
    for (i, op) in ops.iter().enumerate() {
        let p: Vec<&str> = op.split(' ').collect();
        match p[0] {
            "+" => a.insert(ty(p[1])),
            "-" => a.remove(ty(p[1])),
            "b" => a = a.union(b),
            "s" => std::mem::swap(&mut a, &mut b),
            "r" => a = Set::from_bits(a.to_bits()),
            "m" => *m.get_mut(ty(p[1])) = p[2].parse().unwrap(),
            _ => {
                for (t, v) in m.iter_zip_mut() {
                    if t == ty(p[1]) {
                        *v = p[2].parse().unwrap();
                    }
                }
            }
        }
        let has: Vec<usize> = (0..n).filter(|i| a.contains(L::from_id_unchecked(*i))).collect();
        let mut cell = teleparse::lex::Cell::from(Token::new((0, 1), L::from_id_unchecked(n / 2)));
        *cell.semantics_mut() = a;
        let get: Vec<usize> = (0..n).map(|i| *m.get(L::from_id_unchecked(i))).collect();
        let zip: Vec<(usize, usize)> = m.iter_zip().map(|(t, v)| (t.id(), *v)).collect();
        let zip: Vec<String> = zip.iter().map(|(t, v)| format!("[{t},{v}]")).collect();
        let it: Vec<usize> = m.iter().copied().collect();
        let _ = write!(
            o,
            "{}{{\"a\":{:?},\"has\":{has:?},\"b\":{:?},\"empty\":{},\"all\":{},\"back\":{},\"same\":{},\"types\":{:?},\"show\":{},\"get\":{get:?},\"zip\":[{}],\"it\":{it:?}}}",
            if i > 0 { "," } else { "" },
            ids(a.into_iter()),
            ids(b.into_iter()),
            a.is_empty(),
            a.contains_all(b),
            b.contains_all(a),
            a == b,
            ids(cell.types().into_iter()),
            quoted(&format!("{a:?}")),
            zip.join(",")
        );
    }
    o.push(']');
    o
}

// ----------------------------------------------------------------
/// Jobs, one per line, tab separated:
///   layout <tokens> <spans>  |  table <op>...  |  terms <kind> <op>...  |  lits <op>...
///   lexicon <n>  |  bits <n> <op>...
pub fn main_loop(sized: fn(usize, Option<&[&str]>) -> String) {
    let args: Vec<String> = std::env::args().collect();
    let from: usize = args[2].parse().unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    let stdout = std::io::stdout();
    let mut out = std::io::BufWriter::with_capacity(1 << 16, stdout.lock());
    let text = std::fs::read_to_string(&args[1]).unwrap();
    for (id, line) in text.lines().enumerate() {
        if id < from {
            continue;
        }
        let _ = writeln!(out, "#{id}");
        out.flush().unwrap();
        let p: Vec<&str> = line.split('\t').collect();
        let r = std::panic::catch_unwind(|| match p[0] {
            "layout" => layout(p[1], p[2]),
            "table" => table_history(&p[1..]),
            "terms" => terms_history(p[1], &p[2..]),
            "lits" => lits_history(&p[1..]),
            "lexicon" => sized(p[1].parse().unwrap(), None),
            _ => sized(p[1].parse().unwrap(), Some(&p[2..])),
        });
        match r {
            Ok(s) => writeln!(out, "{{\"id\":{id},\"end\":\"ok\",\"k\":\"{}\",{s}}}", p[0]).unwrap(),
            Err(_) => writeln!(out, "{{\"id\":{id},\"end\":\"panic\",\"k\":\"{}\"}}", p[0]).unwrap(),
        }
    }
    out.flush().unwrap();
}
