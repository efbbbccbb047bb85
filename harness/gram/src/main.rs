//! Grammar harness: feeds arbitrary grammars to the real grammar analysis through
//! `MetadataBuilder`, under several assignments of type identifiers, and prints what
//! the analysis answers.  No expectation is encoded here.
//!
//! Grammar file: one per line, `root|prod;prod;...` with
//!   t,<type 0..2>,<text 0..1, or 2 for any>   e   s,<i>,<i>..   u,<i>,<i>..
//! Constructs are numbered from 1; construct i is called "Ni".
use std::any::TypeId;
use std::fmt::Write as _;
use std::io::Write as _;
use teleparse::lex::TokenSrc;
use teleparse::prelude::*;
use teleparse::syntax::{Metadata, MetadataBuilder};
use teleparse::GrammarError;

#[derive_lexicon]
#[teleparse(ignore(r"\s+"))]
pub enum T {
    #[teleparse(regex(r"[a-z]+"), terminal(AX = "x", AY = "y", AAny))]
    A,
    #[teleparse(regex(r"[0-9]+"), terminal(BAny))]
    B,
    #[teleparse(regex(r"[A-Z]+"), terminal(CAny))]
    C,
}

const TYPES: [T; 3] = [T::A, T::B, T::C];
const TEXTS: [&str; 3] = ["x", "y", "other"];

struct N<const I: usize>;
macro_rules! ids {
    ($($i:literal)*) => { vec![$(TypeId::of::<N<$i>>()),*] };
}
fn ids() -> Vec<TypeId> {
    let mut v = ids!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63);
    v.sort();
    v
}

enum P {
    Term(usize, usize),
    Eps,
    Seq(Vec<usize>),
    Union(Vec<usize>),
}

fn parse(line: &str) -> (usize, Vec<P>) {
    let (root, prods) = line.split_once('|').unwrap();
    let prods = prods
        .split(';')
        .map(|p| {
            let mut it = p.split(',');
            let k = it.next().unwrap();
            let rest: Vec<usize> = it.map(|x| x.parse().unwrap()).collect();
            match k {
                "t" => P::Term(rest[0], rest[1]),
                "e" => P::Eps,
                "s" => P::Seq(rest),
                _ => P::Union(rest),
            }
        })
        .collect();
    (root.parse().unwrap(), prods)
}

/// depth-first, as the derived `Production::register` does
fn register(b: &mut MetadataBuilder<T>, g: &[P], x: usize, id: &dyn Fn(usize) -> TypeId) {
    let t = id(x);
    if !b.visit(t, || format!("N{x}")) {
        return;
    }
    match &g[x - 1] {
        P::Term(ty, lit) => b.add_terminal(t, TYPES[*ty], if *lit < 2 { Some(TEXTS[*lit]) } else { None }),
        P::Eps => b.add_epsilon(t),
        P::Seq(ch) => {
            let c: Vec<TypeId> = ch.iter().map(|y| id(*y)).collect();
            b.add_sequence(t, &c);
            for y in ch {
                register(b, g, *y, id);
            }
        }
        P::Union(ch) => {
            let c: Vec<TypeId> = ch.iter().map(|y| id(*y)).collect();
            b.add_union(t, &c);
            for y in ch {
                register(b, g, *y, id);
            }
        }
    }
}

fn probe(a: usize) -> Option<TokenSrc<'static, T>> {
    if a == 0 {
        None
    } else {
        Some(TokenSrc::new(TYPES[(a - 1) / 3], TEXTS[(a - 1) % 3]))
    }
}

fn list(o: &mut String, it: impl Iterator<Item = String>) {
    o.push('[');
    for (i, x) in it.enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(&x);
    }
    o.push(']');
}

fn quoted<'a>(it: impl Iterator<Item = &'a str>) -> Vec<String> {
    it.map(|s| format!("\"{}\"", s.replace('"', "'"))).collect()
}

fn err(o: &mut String, v: &str, f: Vec<String>, terms: Vec<String>) {
    let _ = write!(o, "{{\"v\":\"{v}\",\"f\":");
    list(o, f.into_iter());
    o.push_str(",\"terms\":");
    list(o, terms.into_iter());
    o.push_str(",\"first\":[],\"follow\":[],\"jump\":[]}");
}

fn run(root: usize, g: &[P], perm: &[usize], ids: &[TypeId]) -> String {
    let id = |x: usize| ids[perm[x - 1]];
    let mut b = MetadataBuilder::new();
    register(&mut b, g, root, &id);
    let reach: Vec<bool> = (1..=g.len()).map(|x| b.names.contains_key(&id(x))).collect();
    let mut o = String::new();
    match b.build(id(root)) {
        Ok(m) => {
            let m: Metadata<T> = m;
            o.push_str("{\"v\":\"ok\",\"f\":[],\"terms\":[],\"first\":");
            let first = |x: usize| {
                let mut s = String::new();
                let f = m.first.get(&id(x));
                list(&mut s, (0..10).filter(|a| reach[x - 1] && f.contains(probe(*a))).map(|a| a.to_string()));
                s
            };
            list(&mut o, (1..=g.len()).map(first));
            o.push_str(",\"follow\":");
            let follow = |x: usize| {
                let mut s = String::new();
                let f = m.follow.get(&id(x));
                list(&mut s, (0..10).filter(|a| reach[x - 1] && f.contains(probe(*a))).map(|a| a.to_string()));
                s
            };
            list(&mut o, (1..=g.len()).map(follow));
            o.push_str(",\"jump\":");
            let jump = |x: usize| {
                let mut s = String::new();
                let n = if matches!(g[x - 1], P::Union(_)) && reach[x - 1] { 10 } else { 0 };
                list(&mut s, (0..n).map(|a| m.jump.look_up(&id(x), probe(a)).map_or(0, |i| i + 1).to_string()));
                s
            };
            list(&mut o, (1..=g.len()).map(jump));
            o.push('}');
        }
        Err(GrammarError::LeftRecursion(s)) => err(&mut o, "leftrec", quoted(s.split(" -> ")), vec![]),
        Err(GrammarError::FirstFirstConflict(s, a, b, t)) => {
            err(&mut o, "ff", quoted([s.as_str(), &a, &b].into_iter()), quoted(t.split(", ")))
        }
        Err(GrammarError::FirstFollowSeqConflict(s, a, b, t)) => {
            err(&mut o, "seq", quoted([s.as_str(), &a, &b].into_iter()), quoted(t.split(", ")))
        }
        Err(GrammarError::FirstFollowConflict(s, t)) => err(&mut o, "fol", quoted([s.as_str()].into_iter()), quoted(t.split(", "))),
    }
    o
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let from: usize = args[2].parse().unwrap();
    let nperm: usize = args[3].parse().unwrap();
    let mut seed: u64 = args[4].parse::<u64>().unwrap().wrapping_mul(2) + 1;
    std::panic::set_hook(Box::new(|_| {}));
    let ids = ids();
    let text = std::fs::read_to_string(&args[1]).unwrap();
    let stdout = std::io::stdout();
    let mut out = std::io::BufWriter::with_capacity(1 << 16, stdout.lock());
    let mut rand = move |n: usize| {
        seed ^= seed << 13;
        seed ^= seed >> 7;
        seed ^= seed << 17;
        (seed % n as u64) as usize
    };
    for (gi, line) in text.lines().enumerate() {
        if gi < from {
            continue;
        }
        let _ = writeln!(out, "#{gi}");
        out.flush().unwrap();
        let (root, g) = parse(line);
        let mut runs: Vec<String> = Vec::new();
        for p in 0..nperm {
            let n = g.len();
            let mut perm: Vec<usize> = (0..n).collect();
            if p == 1 {
                perm.reverse();
            } else if p >= 2 {
                perm = (0..ids.len()).collect();
                for i in (1..ids.len()).rev() {
                    perm.swap(i, rand(i + 1));
                }
            }
            // the last assignment repeats the first: repeated analysis
            if p + 1 == nperm {
                perm = (0..n).collect();
            }
            let r = std::panic::catch_unwind(|| run(root, &g, &perm, &ids)).unwrap_or_else(|_| {
                "{\"v\":\"panic\",\"f\":[],\"terms\":[],\"first\":[],\"follow\":[],\"jump\":[]}".to_string()
            });
            if !runs.contains(&r) {
                runs.push(r);
            }
        }
        let _ = writeln!(out, "{{\"id\":{gi},\"runs\":[{}]}}", runs.join(","));
    }
    out.flush().unwrap();
}
