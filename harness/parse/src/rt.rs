//! Runtime of the parse harness: runs the real parser on the inputs of a job and
//! prints one JSON observation per input. No expectation is encoded here.
use std::fmt::Write as _;
use std::io::Write as _;
use teleparse::lex::{Set, TokenSrc};
use teleparse::prelude::*;
use teleparse::syntax::{Error, ErrorKind, FirstSet, FollowSet, Metadata};
use teleparse::{GrammarError, Lexicon, Parser, Produce, Production, Root, ToSpan};

pub struct Cx<'s> {
    pub src: &'s str,
}

/// The terminals of a lexicon: (type, literal or None, "Type:literal")
pub trait Probe: Lexicon {
    fn probes() -> Vec<(Self, Option<&'static str>, &'static str)>;
}

pub trait Dump {
    fn dump(&self, o: &mut String, cx: &Cx);
}

pub fn esc(o: &mut String, s: &str) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}

pub fn chars(o: &mut String, s: &str) {
    o.push('[');
    for (i, c) in s.chars().enumerate() {
        if i > 0 {
            o.push(',');
        }
        let mut b = [0u8; 4];
        esc(o, c.encode_utf8(&mut b));
    }
    o.push(']');
}

pub fn open(o: &mut String, k: &str, lo: usize, hi: usize, v: &str) {
    let _ = write!(o, "{{\"k\":\"{k}\",\"lo\":{lo},\"hi\":{hi},\"v\":");
    esc(o, v);
    o.push_str(",\"ch\":[");
}
pub fn close(o: &mut String) {
    o.push_str("]}");
}
pub fn seq<'a, T: Dump + 'a>(o: &mut String, cx: &Cx, first: bool, it: impl Iterator<Item = &'a T>) {
    let mut first = first;
    for x in it {
        if !first {
            o.push(',');
        }
        first = false;
        x.dump(o, cx);
    }
}

impl<T: Dump> Dump for Box<T> {
    fn dump(&self, o: &mut String, cx: &Cx) {
        self.as_ref().dump(o, cx)
    }
}
impl<T: Dump + Produce> Dump for tp::Option<T> {
    fn dump(&self, o: &mut String, cx: &Cx) {
        open(o, "opt", self.lo(), self.hi(), "");
        let inner: &Option<T> = self;
        seq(o, cx, true, inner.iter());
        close(o);
    }
}
impl<T: Produce> Dump for tp::Exists<T> {
    fn dump(&self, o: &mut String, _: &Cx) {
        let b: &bool = self;
        open(o, "exists", self.lo(), self.hi(), if *b { "1" } else { "0" });
        close(o);
    }
}
impl<T: Dump + Produce> Dump for tp::Nev<T> {
    fn dump(&self, o: &mut String, cx: &Cx) {
        open(o, "vec", self.lo(), self.hi(), "");
        let inner: &Vec<T> = self;
        seq(o, cx, true, inner.iter());
        close(o);
    }
}
impl<T: Dump + Produce> Dump for tp::Vec<T> {
    fn dump(&self, o: &mut String, cx: &Cx) {
        open(o, "vec", self.lo(), self.hi(), "");
        let inner: &Vec<T> = self;
        seq(o, cx, true, inner.iter());
        close(o);
    }
}
impl<T: Dump + Produce> Dump for tp::NevDeque<T> {
    fn dump(&self, o: &mut String, cx: &Cx) {
        open(o, "vec", self.lo(), self.hi(), "");
        let inner: &std::collections::VecDeque<T> = self;
        seq(o, cx, true, inner.iter());
        close(o);
    }
}
impl<T: Dump + Produce> Dump for tp::VecDeque<T> {
    fn dump(&self, o: &mut String, cx: &Cx) {
        open(o, "vec", self.lo(), self.hi(), "");
        let inner: &std::collections::VecDeque<T> = self;
        seq(o, cx, true, inner.iter());
        close(o);
    }
}
impl<T: Dump + Produce> Dump for tp::Loop<T> {
    fn dump(&self, o: &mut String, cx: &Cx) {
        open(o, "loop", self.lo(), self.hi(), "");
        let inner: &Vec<T> = self;
        seq(o, cx, true, inner.iter());
        close(o);
    }
}
impl<T: Dump + Produce, P: Dump + Produce> Dump for tp::Split<T, P>
where
    P::Prod: Production<L = <T::Prod as Production>::L>,
{
    fn dump(&self, o: &mut String, cx: &Cx) {
        open(o, "split", self.lo(), self.hi(), &self.elems.len().to_string());
        seq(o, cx, true, self.iter());
        seq(o, cx, self.elems.is_empty(), self.puncts.iter());
        close(o);
    }
}
impl<T: Dump + Produce, P: Dump + Produce> Dump for tp::Punct<T, P>
where
    P::Prod: Production<L = <T::Prod as Production>::L>,
{
    fn dump(&self, o: &mut String, cx: &Cx) {
        open(o, "punct", self.lo(), self.hi(), &self.elems.len().to_string());
        seq(o, cx, true, self.iter());
        seq(o, cx, self.elems.is_empty(), self.puncts.iter());
        close(o);
    }
}
impl<T: Dump + Produce, R: Dump + Produce> Dump for tp::Recover<T, R>
where
    R::Prod: Production<L = <T::Prod as Production>::L>,
{
    fn dump(&self, o: &mut String, cx: &Cx) {
        open(o, "recover", self.lo(), self.hi(), "");
        open(o, "opt", self.head.lo(), self.head.hi(), "");
        seq(o, cx, true, self.head.value.iter());
        close(o);
        o.push(',');
        self.tail.dump(o, cx);
        close(o);
    }
}
impl<T: Produce> Dump for tp::String<T> {
    fn dump(&self, o: &mut String, _: &Cx) {
        let s: &String = self;
        open(o, "quote", self.lo(), self.hi(), s);
        close(o);
    }
}
impl<T: Produce> Dump for tp::Parse<u32, T> {
    fn dump(&self, o: &mut String, _: &Cx) {
        let r: &Result<u32, std::num::ParseIntError> = self;
        let v = match r {
            Ok(n) => format!("ok:{n}"),
            Err(_) => "err".to_string(),
        };
        open(o, "num", self.lo(), self.hi(), &v);
        close(o);
    }
}
macro_rules! dump_tuple {
    ($($t:ident $i:tt),*) => {
        impl<$($t: Dump + ToSpan),*> Dump for ($($t,)*) {
            fn dump(&self, o: &mut String, cx: &Cx) {
                open(o, "tuple", self.lo(), self.hi(), "");
                $( if $i > 0 { o.push(','); } self.$i.dump(o, cx); )*
                close(o);
            }
        }
    };
}
dump_tuple!(A 0, B 1);
dump_tuple!(A 0, B 1, C 2);
dump_tuple!(A 0, B 1, C 2, D 3);
dump_tuple!(A 0, B 1, C 2, D 3, E 4);

/// Every terminal contained in the set, plus "<e>" for the empty marker.
pub fn set_repr<L: Probe>(s: &FirstSet<L>) -> Vec<String> {
    let mut out = Vec::new();
    if s.contains_epsilon() {
        out.push("<e>".to_string());
    }
    for (ty, lit, name) in L::probes() {
        if s.contains(Some((ty, lit.unwrap_or("\u{1}none\u{1}")).into())) {
            out.push(name.to_string());
        }
    }
    out
}

fn strs(o: &mut String, v: &[String]) {
    o.push('[');
    for (i, s) in v.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        esc(o, s);
    }
    o.push(']');
}

fn errs<L: Probe>(o: &mut String, errors: &[Error<L>], src: &str) {
    o.push('[');
    for (i, e) in errors.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        let (k, exp) = match &e.data {
            ErrorKind::Custom(_) => ("custom", vec![]),
            ErrorKind::UnexpectedCharacters => ("chars", vec![]),
            ErrorKind::UnexpectedTokens => ("tokens", vec![]),
            ErrorKind::Expecting(s) => ("expecting", set_repr(s)),
            ErrorKind::UnexpectedEof => ("eof", vec![]),
            ErrorKind::UnexpectedNoAdvanceInLoop => ("noadvance", vec![]),
        };
        let _ = write!(o, "{{\"k\":\"{k}\",\"lo\":{},\"hi\":{},\"exp\":", e.span.lo, e.span.hi);
        strs(o, &exp);
        o.push_str(",\"msg\":");
        esc(o, &e.message(src));
        o.push('}');
    }
    o.push(']');
}

fn sems<L: Lexicon>(set: Set<L>) -> Vec<String> {
    let mut v = Vec::new();
    let mut cur = Some(L::first());
    while let Some(t) = cur {
        if set.contains(t) {
            v.push(format!("{t:?}"));
        }
        cur = t.next();
    }
    v
}

fn gerr(e: &GrammarError) -> &'static str {
    match e {
        GrammarError::LeftRecursion(..) => "leftrec",
        GrammarError::FirstFirstConflict(..) => "firstfirst",
        GrammarError::FirstFollowSeqConflict(..) => "seq",
        GrammarError::FirstFollowConflict(..) => "firstfollow",
    }
}

pub fn snapshot<L: Probe>(o: &mut String, p: &Parser<L>, src: &str) {
    o.push_str(",\"errs\":");
    errs(o, &p.info().errors, src);
    o.push_str(",\"toks\":[");
    for (i, t) in p.info().tokens.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        let _ = write!(o, "{{\"ty\":\"{:?}\",\"lo\":{},\"hi\":{},\"sem\":", t.ty, t.span.lo, t.span.hi);
        strs(o, &sems(t.semantics()));
        o.push_str(",\"types\":");
        strs(o, &sems(t.types()));
        o.push('}');
    }
    o.push_str("],\"ext\":[");
    for (i, t) in p.info().extracted_tokens.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        let _ = write!(o, "{{\"ty\":\"{:?}\",\"lo\":{},\"hi\":{}}}", t.ty, t.span.lo, t.span.hi);
    }
    o.push_str("],\"inv\":[");
    for (i, s) in p.info().invalid_source.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        let _ = write!(o, "{{\"lo\":{},\"hi\":{}}}", s.lo, s.hi);
    }
    o.push_str("]");
}

pub const NONE: &str = "{\"k\":\"none\",\"lo\":0,\"hi\":0,\"v\":\"\",\"ch\":[]}";

/// Parse once with root G on the parser; returns (outcome, tree, gerr)
pub fn parse_once<L: Probe, G: Root + Dump>(p: &mut Parser<L>, src: &str) -> (&'static str, String, &'static str)
where
    G::Prod: Production<L = L>,
{
    match p.parse::<G>() {
        Err(e) => ("gerr", NONE.to_string(), gerr(&e)),
        Ok(None) => ("none", NONE.to_string(), ""),
        Ok(Some(t)) => {
            let mut o = String::new();
            t.dump(&mut o, &Cx { src });
            ("tree", o, "")
        }
    }
}

/// One observation: new parser, then the roots of `plan` parsed in order.
pub fn observe<L: Probe>(src: &str, plan: &[usize], f: &dyn Fn(usize, &mut Parser<L>, &str) -> (&'static str, String, &'static str)) -> String {
    let mut o = String::new();
    let mut p = match Parser::<L>::new(src) {
        Ok(p) => p,
        Err(_) => return "\"lexerr\":true".to_string(),
    };
    o.push_str("\"runs\":[");
    for (i, g) in plan.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        let (out, tree, ge) = f(*g, &mut p, src);
        let _ = write!(o, "{{\"g\":{g},\"out\":\"{out}\",\"gerr\":\"{ge}\",\"tree\":{tree}");
        snapshot(&mut o, &p, src);
        o.push('}');
    }
    o.push_str("],\"rest\":");
    let rest = src.len() - p.remaining().len();
    let _ = write!(o, "{rest}");
    o
}

pub fn one<L: Probe>(src: &str, plan: &[usize], ops: &[String], f: &dyn Fn(usize, &mut Parser<L>, &str) -> (&'static str, String, &'static str)) -> String {
    if ops.is_empty() {
        observe(src, plan, f)
    } else {
        history(src, ops, f)
    }
}

fn result(st: &str, ty: &str, lo: usize, hi: usize, txt: &str, errors: &str, tree: &str) -> String {
    let mut o = String::new();
    let _ = write!(o, "{{\"st\":\"{st}\",\"ty\":\"{ty}\",\"lo\":{lo},\"hi\":{hi},\"txt\":");
    chars(&mut o, txt);
    let _ = write!(o, ",\"own\":{errors},\"tree\":{tree}");
    o
}

/// One history of calls on one parser.  Calls are words, terminals are given by their
/// index in the probes of the lexicon:
///   peek src eat at gap rest eoferr  ty=T  lit=T=$.T.T..  mark=LO-HI=T.T..  parse=G
pub fn history<L: Probe>(src: &str, ops: &[String], f: &dyn Fn(usize, &mut Parser<L>, &str) -> (&'static str, String, &'static str)) -> String {
    let probes = L::probes();
    let at = |s: &str| probes[s.parse::<usize>().unwrap()];
    let mut p = match Parser::<L>::new(src) {
        Ok(p) => p,
        Err(_) => return "\"lexerr\":true".to_string(),
    };
    let token = |t: Option<Token<L>>| match t {
        Some(t) => result("tok", &format!("{:?}", t.ty), t.span.lo, t.span.hi, "", "[]", NONE),
        None => result("none", "", 0, 0, "", "[]", NONE),
    };
    let syn = |r: teleparse::syntax::Result<Token<L>, L>| {
        let (st, t, e) = match r {
            teleparse::syntax::Result::Success(t) => ("S", Some(t), vec![]),
            teleparse::syntax::Result::Recovered(t, e) => ("R", Some(t), e),
            teleparse::syntax::Result::Panic(e) => ("P", None, e),
        };
        let mut es = String::new();
        errs(&mut es, &e, src);
        match t {
            Some(t) => result(st, &format!("{:?}", t.ty), t.span.lo, t.span.hi, "", &es, NONE),
            None => result(st, "", 0, 0, "", &es, NONE),
        }
    };
    let mut o = String::from("\"runs\":[");
    for (i, op) in ops.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        let w: Vec<&str> = op.split('=').collect();
        let r = match w[0] {
            "peek" => token(p.peek_token()),
            "src" => match p.peek_token_src() {
                Some(t) => result("tok", &format!("{:?}", t.ty), 0, 0, t.src, "[]", NONE),
                None => result("none", "", 0, 0, "", "[]", NONE),
            },
            "eat" => token(p.consume_token()),
            "at" => {
                let s = p.current_span();
                result("span", "", s.lo, s.hi, "", "[]", NONE)
            }
            "gap" => {
                let s = p.empty_span();
                result("span", "", s.lo, s.hi, "", "[]", NONE)
            }
            "rest" => result("text", "", 0, 0, p.remaining(), "[]", NONE),
            "eoferr" => {
                let e = p.unexpected_eof();
                let mut es = String::new();
                errs(&mut es, &[e], src);
                result("err", "", 0, 0, "", &es, NONE)
            }
            "ty" => {
                let r = p.parse_token(at(w[1]).0);
                syn(r)
            }
            "lit" => {
                let (ty, lit, _) = at(w[1]);
                let mut follow = FollowSet::new();
                for x in w[2].split('.').filter(|x| !x.is_empty()) {
                    if x == "$" {
                        follow.insert_eof();
                    } else {
                        let (t, l, _) = at(x);
                        follow.insert(t, l);
                    }
                }
                let r = p.parse_token_lit(ty, lit.unwrap(), &follow);
                syn(r)
            }
            "mark" => {
                let (lo, hi) = w[1].split_once('-').unwrap();
                let span = Span::new(lo.parse().unwrap(), hi.parse().unwrap());
                let mut types = Set::<L>::new();
                for x in w[2].split('.').filter(|x| !x.is_empty()) {
                    types.insert(at(x).0);
                }
                p.apply_semantic(&Token::new(span, L::first()), types);
                result("", "", 0, 0, "", "[]", NONE)
            }
            _ => {
                let (out, tree, _) = f(w[1].parse().unwrap(), &mut p, src);
                result(out, "", 0, 0, "", "[]", &tree)
            }
        };
        o.push_str(&r);
        snapshot(&mut o, &p, src);
        o.push('}');
    }
    o.push(']');
    o
}

pub struct Job {
    pub ops: Vec<String>,
    pub id: usize,
    pub lex: usize,
    pub plan: Vec<usize>,
    pub input: String,
}

/// Reads jobs from the plan file: one per line, tab separated:
/// enum <lexicon> <g,g,..> <maxlen> <item>...   (all item sequences up to maxlen)
/// text <lexicon> <g,g,..> <text>
/// ops <lexicon> <call> <call>.. <text>
pub fn each_job(path: &str, mut f: impl FnMut(Job)) {
    let text = std::fs::read_to_string(path).unwrap();
    let mut id = 0;
    for line in text.lines() {
        let parts: Vec<&str> = line.split('\t').collect();
        let lex: usize = parts[1].parse().unwrap();
        if parts[0] == "ops" {
            let ops = parts[2].split(' ').map(|x| x.to_string()).collect();
            f(Job { id, lex, ops, plan: vec![], input: parts[3].replace("\\n", "\n").replace("\\t", "\t") });
            id += 1;
            continue;
        }
        let plan: Vec<usize> = parts[2].split(',').map(|x| x.parse().unwrap()).collect();
        if parts[0] == "text" {
            f(Job { id, lex, ops: vec![], plan, input: parts[3].replace("\\n", "\n").replace("\\t", "\t") });
            id += 1;
        } else {
            let maxlen: usize = parts[3].parse().unwrap();
            let items: Vec<String> = parts[4..].iter().map(|x| x.replace("\\n", "\n").replace("\\t", "\t")).collect();
            for len in 0..=maxlen {
                let mut idx = vec![0usize; len];
                loop {
                    let input: String = idx.iter().map(|i| items[*i].as_str()).collect();
                    f(Job { id, lex, ops: vec![], plan: plan.clone(), input });
                    id += 1;
                    let mut j = len;
                    let mut done = true;
                    while j > 0 {
                        j -= 1;
                        idx[j] += 1;
                        if idx[j] < items.len() {
                            done = false;
                            break;
                        }
                        idx[j] = 0;
                    }
                    if done {
                        break;
                    }
                }
            }
        }
    }
}

/// What the analysis of a root gives: a report, or the sets of all its constructs
pub fn analysis<L: Probe, P: Production<L = L>>(m: &Result<Metadata<L>, GrammarError>) -> String {
    let probes = L::probes();
    let token = |(ty, lit, _): &(L, Option<&'static str>, &'static str)| TokenSrc::new(*ty, lit.unwrap_or("\u{1}"));
    let mut o = String::new();
    let mut report = |v: &str, f: Vec<&str>, terms: &str| {
        let _ = write!(o, "{{\"v\":\"{v}\",\"f\":");
        strs(&mut o, &f.iter().map(|x| x.to_string()).collect::<Vec<_>>());
        o.push_str(",\"terms\":");
        chars(&mut o, terms);
        o.push_str(",\"sets\":[");
    };
    match m {
        Err(GrammarError::LeftRecursion(s)) => report("leftrec", s.split(" -> ").collect(), ""),
        Err(GrammarError::FirstFirstConflict(s, a, b, t)) => report("ff", vec![s, a, b], t),
        Err(GrammarError::FirstFollowSeqConflict(s, a, b, t)) => report("seq", vec![s, a, b], t),
        Err(GrammarError::FirstFollowConflict(s, t)) => report("fol", vec![s], t),
        Ok(m) => {
            report("ok", vec![], "");
            let mut all: Vec<String> = Vec::new();
            for (id, name) in &m.names {
                let (first, follow) = (m.first.get(id), m.follow.get(id));
                let mut e = String::from("{\"name\":");
                esc(&mut e, name);
                e.push_str(",\"first\":");
                strs(&mut e, &probes.iter().filter(|p| first.contains(Some(token(p)))).map(|p| p.2.to_string()).collect::<Vec<_>>());
                let _ = write!(e, ",\"eps\":{},\"follow\":", first.contains(None));
                strs(&mut e, &probes.iter().filter(|p| follow.contains(Some(token(p)))).map(|p| p.2.to_string()).collect::<Vec<_>>());
                let jump: Vec<usize> = probes.iter().map(|p| Some(token(p))).chain([None]).map(|t| m.jump.look_up(id, t).map_or(0, |i| i + 1)).collect();
                let _ = write!(e, ",\"eof\":{},\"jump\":{jump:?}}}", follow.contains(None));
                all.push(e);
            }
            all.sort();
            o.push_str(&all.join(","));
        }
    }
    o.push_str("]}");
    o
}

/// The analysis of a root as the root has it and made again, and the texts of the report
pub fn tables_of<L: Probe, G: Root>() -> String
where
    G::Prod: Production<L = L>,
{
    let mut runs = vec![analysis::<L, G::Prod>(G::metadata())];
    for _ in 0..2 {
        let again = analysis::<L, G::Prod>(&Metadata::build_for::<G::Prod>());
        if !runs.contains(&again) {
            runs.push(again);
        }
    }
    let (mut shown, mut said) = (String::new(), String::new());
    if let Err(e) = G::metadata() {
        shown = e.to_string();
        if let Err(p) = std::panic::catch_unwind(|| G::assert_ll1()) {
            said = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
        }
    }
    let mut o = format!("\"runs\":[{}],\"probes\":", runs.join(","));
    strs(&mut o, &L::probes().iter().map(|p| p.2.to_string()).collect::<Vec<_>>());
    o.push_str(",\"root\":");
    esc(&mut o, &G::Prod::debug());
    o.push_str(",\"shown\":");
    esc(&mut o, &shown);
    o.push_str(",\"said\":");
    esc(&mut o, &said);
    o
}

/// The verdict on a root, and whether asserting LL(1) panics
pub fn verdict_of<G: Root>() -> (String, bool) {
    let v = match G::metadata() {
        Ok(_) => "ok".to_string(),
        Err(e) => gerr(e).to_string(),
    };
    (v, std::panic::catch_unwind(|| G::assert_ll1()).is_err())
}

pub fn main_loop(run: fn(usize, &[usize], &[String], &str) -> String, verdict: fn(usize) -> (String, bool), roots: usize) {
    let args: Vec<String> = std::env::args().collect();
    let from: usize = args[2].parse().unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    let stdout = std::io::stdout();
    let mut out = std::io::BufWriter::with_capacity(1 << 16, stdout.lock());
    if args[1] == "verdicts" {
        for g in (1..=roots).filter(|g| *g > from) {
            let _ = writeln!(out, "#{}", g - 1);
            out.flush().unwrap();
            let (v, a) = std::panic::catch_unwind(|| verdict(g)).unwrap_or(("panic".to_string(), false));
            let _ = writeln!(out, "{{\"id\":{},\"v\":\"{v}\",\"asserts\":{a}}}", g - 1);
        }
        out.flush().unwrap();
        return;
    }
    each_job(&args[1], |job| {
        if job.id < from {
            return;
        }
        // announce the case first, so that an abort or hang can be attributed to it
        let _ = writeln!(out, "#{}", job.id);
        let mut o = String::new();
        let _ = write!(o, "{{\"id\":{},\"lex\":{},\"in\":", job.id, job.lex);
        chars(&mut o, &job.input);
        let off: Vec<usize> = job.input.char_indices().map(|(i, _)| i).chain([job.input.len()]).collect();
        let _ = write!(o, ",\"off\":{off:?}");
        let _ = write!(o, ",\"plan\":{:?},", job.plan);
        let input = job.input.clone();
        out.flush().unwrap();
        let (plan, ops) = (job.plan.clone(), job.ops.clone());
        match std::panic::catch_unwind(|| run(job.lex, &plan, &ops, &input)) {
            Ok(s) => {
                o.push_str("\"end\":\"ok\",");
                o.push_str(&s);
            }
            Err(_) => o.push_str("\"end\":\"panic\",\"runs\":[],\"rest\":0"),
        }
        o.push('}');
        writeln!(out, "{o}").unwrap();
    });
    out.flush().unwrap();
}

pub fn tables_loop(tables: fn(usize) -> String, roots: usize) {
    let from: usize = std::env::args().nth(1).unwrap().parse().unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    let mut out = std::io::stdout().lock();
    for g in from..roots {
        let _ = writeln!(out, "#{g}");
        out.flush().unwrap();
        match std::panic::catch_unwind(|| tables(g + 1)) {
            Ok(t) => writeln!(out, "{{\"id\":{g},{t}}}").unwrap(),
            Err(_) => writeln!(out, "{{\"id\":{g}}}").unwrap(),
        }
    }
}
