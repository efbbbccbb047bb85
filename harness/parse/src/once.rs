//! First uses of roots by several threads (C29).  A `Gate<T>` is the same production as `T`,
//! but a thread can be held there: while the tables are built, and while parsing.
use crate::rt::*;
use std::borrow::Cow;
use std::cell::Cell;
use std::collections::hash_map::DefaultHasher;
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::io::Write as _;
use std::marker::PhantomData;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Barrier, Condvar, Mutex};
use std::time::{Duration, Instant};
use teleparse::prelude::*;
use teleparse::syntax::{Metadata, MetadataBuilder, Result as SynResult};
use teleparse::{GrammarError, Parser, Produce, Production, Root, ToSpan};

pub struct Gate<T>(pub T);
pub struct GateProd<P>(PhantomData<P>);

impl<P: Production> Production for GateProd<P> {
    type L = P::L;
    fn id() -> std::any::TypeId {
        P::id()
    }
    fn debug() -> Cow<'static, str> {
        P::debug()
    }
    fn register(meta: &mut MetadataBuilder<Self::L>) {
        hold(BUILD);
        P::register(meta)
    }
}
impl<T: ToSpan> ToSpan for Gate<T> {
    fn lo(&self) -> usize {
        self.0.lo()
    }
    fn hi(&self) -> usize {
        self.0.hi()
    }
}
impl<T: Produce> Produce for Gate<T> {
    type Prod = GateProd<T::Prod>;
    fn produce(
        parser: &mut Parser<'_, <Self::Prod as Production>::L>,
        meta: &Metadata<<Self::Prod as Production>::L>,
    ) -> SynResult<Self, <Self::Prod as Production>::L> {
        hold(PARSE);
        T::produce(parser, meta).map(Gate)
    }
}
impl<T: Dump> Dump for Gate<T> {
    fn dump(&self, o: &mut String, cx: &Cx) {
        self.0.dump(o, cx)
    }
}

const BUILD: usize = 1;
const PARSE: usize = 2;
const MAX: usize = 16;

#[derive(Clone, Copy, Default)]
struct Slot {
    told: usize,          // calls the thread was told to begin
    ended: usize,         // calls it has answered
    passes: [usize; 3],   // how often it may go through each gate in this call
    held: usize,          // the gate it is held at
}
struct Ctl {
    slots: Mutex<([Slot; MAX], bool)>,
    change: Condvar,
}
static CTL: Ctl = Ctl { slots: Mutex::new(([Slot { told: 0, ended: 0, passes: [0; 3], held: 0 }; MAX], true)), change: Condvar::new() };
static JITTER: AtomicUsize = AtomicUsize::new(0);
thread_local! { static ME: Cell<usize> = const { Cell::new(usize::MAX) }; static CAME: Cell<[bool; 3]> = const { Cell::new([false; 3]) }; }

/// Hold the thread the first time it comes to a gate in a call, until it may pass.
fn hold(gate: usize) {
    let me = ME.get();
    if me == usize::MAX {
        return;
    }
    let j = JITTER.load(Ordering::Relaxed);
    if j > 0 {
        spin(Duration::from_nanos(((me * 7919 + j * 104729) % 40_000) as u64));
    }
    let mut came = CAME.get();
    if came[gate] {
        return;
    }
    came[gate] = true;
    CAME.set(came);
    let mut s = CTL.slots.lock().unwrap();
    while s.0[me].passes[gate] == 0 && !s.1 {
        s.0[me].held = gate;
        CTL.change.notify_all();
        s = CTL.change.wait(s).unwrap();
    }
    s.0[me].held = 0;
    s.0[me].passes[gate] = 0;
    CTL.change.notify_all();
}

fn spin(d: Duration) {
    let t = Instant::now();
    while t.elapsed() < d {
        std::hint::spin_loop();
    }
}

/// What a thread sees of the tables of a root: the verdict, the message, the tables as text
pub fn view<G: Root>() -> (String, String, String)
where
    <G::Prod as Production>::L: Sync,
{
    match G::metadata() {
        Ok(m) => ("ok".to_string(), String::new(), digest(&format!("{m:?}"))),
        Err(e) => (kind(e).to_string(), e.to_string(), String::new()),
    }
}
fn kind(e: &GrammarError) -> &'static str {
    match e {
        GrammarError::LeftRecursion(..) => "leftrec",
        GrammarError::FirstFirstConflict(..) => "firstfirst",
        GrammarError::FirstFollowSeqConflict(..) => "seq",
        GrammarError::FirstFollowConflict(..) => "firstfollow",
    }
}
fn digest(s: &str) -> String {
    let mut h = DefaultHasher::new();
    s.hash(&mut h);
    format!("{:016x}", h.finish())
}

#[derive(Clone)]
pub struct Call {
    lex: usize,
    g: usize,
    text: String,
    how: usize,
}
pub type Run = fn(usize, &[usize], &[String], &str) -> String;
pub type View = fn(usize) -> (String, String, String);

/// One call: first the tables or first the parse.
fn call(t: usize, c: &Call, run: Run, view: View) -> String {
    CAME.set([false; 3]);
    let mut o = String::new();
    let _ = write!(o, "{{\"t\":{t},\"g\":{},\"lex\":{},\"in\":", c.g, c.lex);
    chars(&mut o, &c.text);
    let off: Vec<usize> = c.text.char_indices().map(|(i, _)| i).chain([c.text.len()]).collect();
    let _ = write!(o, ",\"off\":{off:?},\"plan\":[{}],", c.g);
    let r = std::panic::catch_unwind(|| {
        if c.how == 0 {
            let parsed = run(c.lex, &[c.g], &[], &c.text);
            (view(c.g), parsed)
        } else {
            let v = view(c.g);
            (v, run(c.lex, &[c.g], &[], &c.text))
        }
    });
    match r {
        Ok(((v, say, tab), parsed)) => {
            let _ = write!(o, "\"v\":\"{v}\",\"tab\":\"{tab}\",\"say\":");
            esc(&mut o, &say);
            let _ = write!(o, ",\"end\":\"ok\",{parsed}}}");
        }
        Err(_) => o.push_str("\"v\":\"panic\",\"tab\":\"\",\"say\":\"\",\"end\":\"panic\",\"runs\":[],\"rest\":0}"),
    }
    o
}

fn settle(t: usize, done: usize, wait: u64) {
    let mut s = CTL.slots.lock().unwrap();
    let end = Instant::now() + Duration::from_millis(wait);
    loop {
        let me = s.0[t];
        if me.ended >= done || (me.held > 0 && me.passes[me.held] == 0) {
            return;
        }
        let now = Instant::now();
        if now >= end {
            return;
        }
        s = CTL.change.wait_timeout(s, end - now).unwrap().0;
    }
}

/// Replay a schedule: steps `c<t>` (call), `b<t>` (pass the building gate), `p<t>` (pass the parsing gate)
fn replay(steps: &[&str], calls: Vec<Vec<Call>>, run: Run, view: View) -> Vec<String> {
    {
        let mut s = CTL.slots.lock().unwrap();
        *s = ([Slot::default(); MAX], false);
    }
    let mut out = Vec::new();
    std::thread::scope(|sc| {
        let threads: Vec<_> = calls
            .iter()
            .enumerate()
            .map(|(t, calls)| {
                sc.spawn(move || {
                    ME.set(t);
                    let mut out = Vec::new();
                    for (i, c) in calls.iter().enumerate() {
                        {
                            let mut s = CTL.slots.lock().unwrap();
                            while s.0[t].told <= i && !s.1 {
                                s = CTL.change.wait(s).unwrap();
                            }
                        }
                        out.push(call(t, c, run, view));
                        let mut s = CTL.slots.lock().unwrap();
                        s.0[t].ended = i + 1;
                        s.0[t].passes = [0; 3];
                        CTL.change.notify_all();
                    }
                    out
                })
            })
            .collect();
        for step in steps {
            let t: usize = step[1..].parse::<usize>().unwrap() - 1;
            let done = {
                let mut s = CTL.slots.lock().unwrap();
                match step.as_bytes()[0] {
                    b'c' => s.0[t].told += 1,
                    b'b' => s.0[t].passes[BUILD] = 1,
                    _ => s.0[t].passes[PARSE] = 1,
                }
                CTL.change.notify_all();
                s.0[t].told
            };
            settle(t, done, 4);
        }
        CTL.slots.lock().unwrap().1 = true;
        CTL.change.notify_all();
        for t in threads {
            out.extend(t.join().unwrap());
        }
    });
    out
}

/// Let all threads use the same roots at once, without holding any of them.
fn together(order: Vec<Vec<Call>>, jitter: usize, run: Run, view: View) -> Vec<String> {
    CTL.slots.lock().unwrap().1 = true;
    JITTER.store(jitter, Ordering::Relaxed);
    let n = order.len();
    let barrier = Arc::new(Barrier::new(n));
    let go: Arc<Vec<AtomicUsize>> = Arc::new((0..order[0].len()).map(|_| AtomicUsize::new(0)).collect());
    let lost = AtomicBool::new(false);
    let lost = &lost;
    let mut out = Vec::new();
    std::thread::scope(|sc| {
        let threads: Vec<_> = order
            .iter()
            .enumerate()
            .map(|(t, calls)| {
                let (barrier, go) = (barrier.clone(), go.clone());
                sc.spawn(move || {
                    ME.set(t);
                    let mut out = Vec::new();
                    barrier.wait();
                    for (i, c) in calls.iter().enumerate() {
                        // meet the others as closely as possible
                        go[i].fetch_add(1, Ordering::SeqCst);
                        let begin = Instant::now();
                        while go[i].load(Ordering::SeqCst) < n && !lost.load(Ordering::Relaxed) {
                            if begin.elapsed() > Duration::from_secs(5) {
                                lost.store(true, Ordering::Relaxed);
                            }
                            std::hint::spin_loop();
                        }
                        if jitter > 0 {
                            spin(Duration::from_nanos(((t * 31 + i * 17 + jitter) * 2654435761 % 60_000) as u64));
                        }
                        out.push(call(t, c, run, view));
                    }
                    out
                })
            })
            .collect();
        for t in threads {
            out.extend(t.join().unwrap());
        }
    });
    out
}

/// Jobs: `<schedule or jitter>` TAB calls of thread 1 TAB calls of thread 2 ..
/// where calls are `lex,g,how,text` joined by `|`.
pub fn main_loop(run: Run, view: View) {
    let args: Vec<String> = std::env::args().collect();
    let from: usize = args[2].parse().unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    let stdout = std::io::stdout();
    let mut out = std::io::BufWriter::with_capacity(1 << 16, stdout.lock());
    for (id, line) in std::fs::read_to_string(&args[1]).unwrap().lines().enumerate().filter(|(i, _)| *i >= from) {
        let _ = writeln!(out, "#{id}");
        out.flush().unwrap();
        let parts: Vec<&str> = line.split('\t').collect();
        let calls: Vec<Vec<Call>> = parts[1..]
            .iter()
            .map(|cs| {
                cs.split('|')
                    .map(|c| {
                        let w: Vec<&str> = c.splitn(4, ',').collect();
                        Call { lex: w[0].parse().unwrap(), g: w[1].parse().unwrap(), how: w[2].parse().unwrap(), text: w[3].to_string() }
                    })
                    .collect()
            })
            .collect();
        let res = match parts[0].strip_prefix("free") {
            Some(j) => together(calls, j.parse().unwrap(), run, view),
            None => replay(&parts[0].split(' ').collect::<Vec<_>>(), calls, run, view),
        };
        let _ = writeln!(out, "{{\"id\":{id},\"end\":\"ok\",\"calls\":[{}]}}", res.join(","));
    }
    out.flush().unwrap();
}
