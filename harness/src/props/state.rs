//! C23: the public state machine against a stack automaton.
use crate::engine::{Cx, Prop, Tier, R};
use crate::gen;
use crate::refcbor::*;
use crate::tape::Src;
use crate::view::to_hv;
use crate::{ensure, ensure_eq};
use cbored::state::{State, StateError};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ev {
    Simple,
    Tag(W, u64),
    Brk,
    Array(Option<(W, u64)>),
    Map(Option<(W, u64)>),
    Bytes(Option<(W, u64)>),
    Text(Option<(W, u64)>),
}
#[derive(Clone, Debug)]
enum Open {
    /// items still to come: array, map (two per pair) or tag
    Count(u128),
    Indef,
    IndefMap(bool),
    Chunks { text: bool },
}
#[derive(Clone, Default)]
struct Model {
    open: Vec<Open>,
}
impl Model {
    /// accepted; when not, the model does not change
    fn apply(&mut self, e: Ev) -> bool {
        if let Some(Open::Chunks { text }) = self.open.last() {
            match e {
                Ev::Brk => {}
                Ev::Bytes(Some(_)) if !text => return true,
                Ev::Text(Some(_)) if *text => return true,
                _ => return false,
            }
        }
        let start = match e {
            Ev::Simple | Ev::Bytes(Some(_)) | Ev::Text(Some(_)) => None,
            Ev::Brk => match self.open.last() {
                Some(Open::Indef | Open::IndefMap(false) | Open::Chunks { .. }) => {
                    self.open.pop();
                    None
                }
                _ => return false,
            },
            Ev::Tag(..) => Some(Open::Count(1)),
            Ev::Array(None) => Some(Open::Indef),
            Ev::Map(None) => Some(Open::IndefMap(false)),
            Ev::Bytes(None) => Some(Open::Chunks { text: false }),
            Ev::Text(None) => Some(Open::Chunks { text: true }),
            Ev::Array(Some((_, 0))) | Ev::Map(Some((_, 0))) => None,
            Ev::Array(Some((_, n))) => Some(Open::Count(n as u128)),
            Ev::Map(Some((_, n))) => Some(Open::Count(n as u128 * 2)),
        };
        if let Some(o) = start {
            self.open.push(o);
            return true;
        }
        // an item is complete
        loop {
            match self.open.last_mut() {
                Some(Open::Count(1)) => {
                    self.open.pop();
                }
                Some(Open::Count(n)) => {
                    *n -= 1;
                    return true;
                }
                Some(Open::IndefMap(odd)) => {
                    *odd = !*odd;
                    return true;
                }
                _ => return true,
            }
        }
    }
}
fn feed(st: &mut State, e: Ev) -> Result<(), StateError> {
    let h = |x: Option<(W, u64)>| x.map(|(w, v)| to_hv(w, v));
    match e {
        Ev::Simple => st.simple(),
        Ev::Tag(..) => st.tag(),
        Ev::Brk => st.brk(),
        Ev::Array(x) => st.array(h(x)),
        Ev::Map(x) => st.map(h(x)),
        Ev::Bytes(x) => st.bytes(h(x)),
        Ev::Text(x) => st.text(h(x)),
    }
}
fn show(evs: &[Ev]) -> String {
    let s: Vec<String> = evs.iter().take(60).map(|e| format!("{:?}", e)).collect();
    format!("{}{}", s.join(" "), if evs.len() > 60 { format!(" .. ({} events)", evs.len()) } else { String::new() })
}
/// what was accepted by both; None when the last event was (rightly) refused
fn step(st: &mut State, m: &mut Model, e: Ev, before: &[Ev]) -> Result<bool, String> {
    let exp = m.apply(e);
    match feed(st, e) {
        Ok(()) => ensure!(exp, "accepted {:?} after {}", e, show(before)),
        Err(x) => ensure!(!exp, "refused {:?} after {}: {:?}", e, show(before), x),
    }
    if exp {
        ensure_eq!(st.acceptable(), m.open.is_empty(), "acceptable() after {} {:?}", show(before), e);
    }
    Ok(exp)
}
const PROBES: [Ev; 19] = [
    Ev::Simple, Ev::Tag(W::Imm, 1), Ev::Brk, Ev::Array(None), Ev::Array(Some((W::Imm, 0))), Ev::Array(Some((W::B1, 1))),
    Ev::Array(Some((W::B8, u64::MAX))), Ev::Map(None), Ev::Map(Some((W::B2, 0))), Ev::Map(Some((W::Imm, 1))),
    Ev::Map(Some((W::B8, 1 << 63))), Ev::Bytes(None), Ev::Bytes(Some((W::Imm, 0))), Ev::Bytes(Some((W::B4, 5))),
    Ev::Bytes(Some((W::B8, u64::MAX))), Ev::Text(None), Ev::Text(Some((W::Imm, 0))), Ev::Text(Some((W::B1, 3))),
    Ev::Text(Some((W::B8, 1 << 40))),
];
fn count(s: &mut Src) -> Option<(W, u64)> {
    let v = match s.weighted(&[3, 6, 2, 1, 1]) {
        0 => return None,
        1 => s.below(4),
        2 => s.size(300) as u64,
        3 => gen::huge(s),
        _ => s.u64(),
    };
    Some((gen::width(s, v), v))
}
fn any_event(s: &mut Src) -> Ev {
    match s.weighted(&[6, 3, 4, 5, 5, 3, 3]) {
        0 => Ev::Simple,
        1 => {
            let v = s.u64();
            Ev::Tag(gen::width(s, v), v)
        }
        2 => Ev::Brk,
        3 => Ev::Array(count(s)),
        4 => Ev::Map(count(s)),
        5 => Ev::Bytes(count(s)),
        _ => Ev::Text(count(s)),
    }
}
fn c23_case(s: &mut Src, cx: &mut Cx) -> R {
    let mut st = State::new();
    let mut m = Model::default();
    ensure!(st.acceptable(), "a new state is not acceptable");
    let mut evs: Vec<Ev> = Vec::new();
    let n = s.size(120);
    let mut cuts = Vec::new();
    let mut deep = 0;
    let mut refused = false;
    let mut completed = 0;
    'steps: for _ in 0..n {
        if s.chance(20) {
            cuts.push(evs.len());
        }
        let (e, times) = match m.open.last() {
            // go on with what is open
            Some(Open::Chunks { text }) if s.chance(220) => {
                let v = s.u64();
                let h = Some((gen::width(s, v), v));
                if s.chance(100) {
                    (Ev::Brk, 1)
                } else if *text {
                    (Ev::Text(h), 1 + s.idx(3))
                } else {
                    (Ev::Bytes(h), 1 + s.idx(3))
                }
            }
            Some(Open::Count(n)) if *n > 3 && s.chance(120) => {
                // most of what is missing, or all
                let k = (*n).min(if s.chance(8) { 70_000 } else { 700 }) as usize;
                (Ev::Simple, match s.byte() % 3 { 0 => k, 1 => k - 1, _ => 1 + s.idx(k) })
            }
            Some(Open::Indef | Open::IndefMap(_)) if s.chance(60) => (Ev::Brk, 1),
            _ => {
                let e = any_event(s);
                // only sometimes something that is refused
                let mut t = m.clone_top();
                if t.apply(e) || s.chance(20) {
                    let k = match e {
                        Ev::Brk | Ev::Simple => 1,
                        _ if s.chance(6) => 1 + s.size(300),
                        _ => 1,
                    };
                    (e, k)
                } else {
                    (Ev::Simple, 1)
                }
            }
        };
        for _ in 0..times {
            let ok = step(&mut st, &mut m, e, &evs)?;
            if !ok {
                refused = true;
                break 'steps;
            }
            evs.push(e);
            completed += m.open.is_empty() as u32;
            deep = deep.max(m.open.len());
        }
        if evs.len() > 75_000 {
            break;
        }
    }
    // close everything
    if !refused && s.chance(128) {
        let mut guard = 0;
        while let Some(o) = m.open.last() {
            let e = match o {
                Open::Count(n) if *n > 5000 => break,
                Open::Count(_) => Ev::Simple,
                Open::IndefMap(true) => Ev::Simple,
                _ => Ev::Brk,
            };
            ensure!(step(&mut st, &mut m, e, &evs)?, "model refuses to close");
            evs.push(e);
            guard += 1;
            if guard > 20_000 {
                break;
            }
        }
    }
    // every event at the cut points
    cuts.push(evs.len());
    let budget = 40_000 / (evs.len() + 1) / PROBES.len();
    cuts.truncate(1 + budget);
    for c in cuts {
        for p in PROBES {
            let mut st = State::new();
            let mut m = Model::default();
            for (i, e) in evs[..c].iter().enumerate() {
                step(&mut st, &mut m, *e, &evs[..i])?;
            }
            step(&mut st, &mut m, p, &evs[..c])?;
        }
    }
    cx.input(format!("{:?}", &evs[..evs.len().min(400)]).as_bytes());
    cx.input_u64(evs.len() as u64);
    cx.nontrivial_if(evs.len() >= 3 && deep > 0);
    cx.label_if(refused, "ends with a refused event");
    cx.label_if(deep >= 5, "five or more open");
    cx.label_if(deep >= 50, "fifty or more open");
    cx.label_if(completed >= 2, "several complete items");
    cx.label_if(evs.len() > 1000, "more than a thousand events");
    cx.describe(|| show(&evs));
    Ok(())
}
impl Model {
    /// enough of the model to know whether the next event is accepted
    fn clone_top(&self) -> Model {
        Model { open: self.open.last().cloned().into_iter().collect() }
    }
}
const ALPHABET: [Ev; 14] = [
    Ev::Simple, Ev::Tag(W::Imm, 6), Ev::Brk, Ev::Array(None), Ev::Array(Some((W::Imm, 0))), Ev::Array(Some((W::Imm, 1))),
    Ev::Array(Some((W::B1, 2))), Ev::Map(None), Ev::Map(Some((W::Imm, 0))), Ev::Map(Some((W::B2, 1))), Ev::Bytes(None),
    Ev::Bytes(Some((W::Imm, 1))), Ev::Text(None), Ev::Text(Some((W::Imm, 1))),
];
const LONG: [u64; 30] = [
    23, 24, 25, 99, 100, 127, 128, 255, 256, 257, 511, 512, 1000, 1024, 4096, 10000, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 65538,
    70000, 100000, 131072, 131073, 200001, 262144,
];
/// a long array or map, definite or not, of one kind of element, alone or inside another; every
/// event is refused or accepted as it should at the end
fn c23_long(i: u64, cx: &mut Cx) -> R {
    let n = LONG[(i % 30) as usize];
    let (kind, el, nest) = (i / 30 % 3, i / 90 % 4, i / 360);
    let open = match kind {
        0 => Ev::Array(Some((W::B8, n))),
        1 => Ev::Map(Some((W::min(n), n))),
        _ => Ev::Map(None),
    };
    let outer: &[Ev] = match nest {
        0 => &[],
        1 => &[Ev::Array(Some((W::Imm, 1)))],
        2 => &[Ev::Map(None), Ev::Simple],
        _ => &[Ev::Tag(W::Imm, 1), Ev::Array(None)],
    };
    let items = if kind == 0 { n } else { 2 * n };
    cx.nontrivial_if(true);
    cx.input_u64(i);
    cx.label("long");
    cx.describe(|| format!("{:?} {:?} and {} elements of kind {}", outer, open, items, el));
    let run = |last: Option<Ev>| -> R {
        let (mut st, mut m) = (State::new(), Model::default());
        let mut evs = outer.to_vec();
        evs.push(open);
        for (i, e) in evs.iter().enumerate() {
            ensure!(step(&mut st, &mut m, *e, &evs[..i])?, "refused by the model");
        }
        let k = if last.is_some() { items - 1 } else { items };
        for j in 0..k {
            let e: &[Ev] = match el {
                0 => &[Ev::Simple],
                1 => &[Ev::Bytes(Some((W::Imm, 1)))],
                2 => &[Ev::Array(None), Ev::Brk],
                _ => &[Ev::Tag(W::Imm, 1), Ev::Text(None), Ev::Brk],
            };
            for e in e {
                ensure!(step(&mut st, &mut m, *e, &evs).map_err(|x| format!("element {}: {}", j, x))?, "refused by the model");
            }
        }
        if let Some(e) = last {
            step(&mut st, &mut m, e, &evs)?;
        } else {
            if kind == 2 {
                step(&mut st, &mut m, Ev::Brk, &evs)?;
            }
            while let Some(o) = m.open.last() {
                let e = if matches!(o, Open::Count(_) | Open::IndefMap(true)) { Ev::Simple } else { Ev::Brk };
                ensure!(step(&mut st, &mut m, e, &evs).map_err(|x| format!("at the end: {}", x))?, "refused by the model");
            }
            ensure!(step(&mut st, &mut m, Ev::Simple, &evs)?, "refused by the model");
        }
        Ok(())
    };
    run(None)?;
    for p in [Ev::Brk, Ev::Simple, Ev::Text(Some((W::Imm, 0)))] {
        if n < 1000 || el == 0 {
            run(Some(p))?;
        }
    }
    Ok(())
}
/// structures opened to a boundary depth and closed again
fn c23_nested(i: u64, cx: &mut Cx) -> R {
    const OPEN: [&[Ev]; 9] = [
        &[Ev::Array(None)],
        &[Ev::Array(Some((W::Imm, 1)))],
        &[Ev::Array(Some((W::B8, 2))), Ev::Simple],
        &[Ev::Map(None)],
        &[Ev::Map(None), Ev::Simple],
        &[Ev::Map(Some((W::B1, 1)))],
        &[Ev::Map(Some((W::Imm, 1))), Ev::Bytes(Some((W::Imm, 0)))],
        &[Ev::Tag(W::Imm, 1)],
        &[Ev::Array(Some((W::Imm, 2)))],
    ];
    let (k, z) = ((i % 10) as usize, i / 10);
    let depth = if z == gen::sizes_n(cx.tier) { 1 << 20 } else { gen::size_at(z as usize) };
    cx.nontrivial_if(depth > 0);
    cx.input_u64(i + (1 << 40));
    cx.label("nested to a boundary depth");
    cx.describe(|| format!("{} deep, layers of kind {}", depth, k));
    for chunks in [false, true] {
        let (mut st, mut m) = (State::new(), Model::default());
        let mut first = Vec::new();
        let mut go = |m: &mut Model, e: Ev| -> Result<bool, String> {
            if first.len() < 60 {
                first.push(e);
            }
            step(&mut st, m, e, &first).map_err(|x| format!("{} ({} open)", x, m.open.len()))
        };
        for j in 0..depth {
            for e in OPEN[if k < 9 { k } else { j * 4 % 9 }] {
                ensure!(go(&mut m, *e)?, "refused by the model");
            }
        }
        let inside: &[Ev] = if chunks { &[Ev::Text(None), Ev::Text(Some((W::B2, 3))), Ev::Brk] } else { &[Ev::Simple] };
        for e in inside {
            ensure!(go(&mut m, *e)?, "refused by the model");
        }
        while let Some(o) = m.open.last() {
            let e = if matches!(o, Open::Count(_) | Open::IndefMap(true)) { Ev::Simple } else { Ev::Brk };
            ensure!(go(&mut m, e)?, "refused by the model");
        }
        ensure!(!go(&mut m, Ev::Brk)?, "accepted by the model");
    }
    Ok(())
}
const C23_LONG: u64 = 30 * 3 * 4 * 4;
fn c23_words(t: Tier) -> u64 {
    14u64.pow(if t == Tier::Quick { 5 } else { 6 })
}
fn c23_enum_n(t: Tier) -> u64 {
    c23_words(t) + C23_LONG + 10 * (gen::sizes_n(t) + 1)
}
fn c23_enum(i: u64, cx: &mut Cx) -> R {
    let long = c23_words(cx.tier);
    if i >= long + C23_LONG {
        return c23_nested(i - long - C23_LONG, cx);
    }
    if i >= long {
        return c23_long(i - long, cx);
    }
    let mut x = i;
    let n = if cx.tier == Tier::Quick { 5 } else { 6 };
    let mut st = State::new();
    let mut m = Model::default();
    let mut evs = Vec::new();
    // the last digit varies fastest; only the first sequence with a given refused prefix is of interest
    let mut div = 14u64.pow(n - 1);
    for _ in 0..n {
        let e = ALPHABET[(x / div) as usize];
        x %= div;
        let ok = step(&mut st, &mut m, e, &evs)?;
        evs.push(e);
        if !ok {
            // the other sequences starting like this are the same one
            cx.nontrivial_if(x == 0 && evs.len() > 1);
            break;
        }
        if div == 1 {
            cx.nontrivial_if(true);
        } else {
            div /= 14;
        }
    }
    cx.input(format!("{:?}", evs).as_bytes());
    cx.describe(|| show(&evs));
    Ok(())
}
pub const C23: Prop = Prop {
    id: "C23",
    rule: "at least three accepted events and something open at some point (or, enumerated, a sequence over 14 events up to its first refused event); distinct by sequence",
    assumptions: &["what the state does after it has refused an event is not part of the property"],
    enum_n: c23_enum_n,
    enum_case: c23_enum,
    case: c23_case,
    quick: 200_000,
    thorough: 6_000_000,
};

// ---- C28 ------------------------------------------------------------------------------------

/// the names of the errors that truthfully say why an event that cannot come next is refused
fn reasons(m: &Model, e: Ev) -> &'static [&'static str] {
    match (m.open.last(), e) {
        (Some(Open::Chunks { .. }), Ev::Simple) => &["InvalidTypeInChunk"],
        (Some(Open::Chunks { .. }), Ev::Tag(..)) => &["TagInChunk"],
        (Some(Open::Chunks { .. }), Ev::Array(Some(_)) | Ev::Map(Some(_))) => &["StructureInChunks"],
        // an indefinite structure
        (Some(Open::Chunks { .. }), Ev::Array(None) | Ev::Map(None) | Ev::Bytes(None) | Ev::Text(None)) => {
            &["StructureInChunks", "ChunksInChunks"]
        }
        // of the other kind
        (Some(Open::Chunks { .. }), Ev::Bytes(Some(_)) | Ev::Text(Some(_))) => &["InvalidTypeInChunk", "ChunksInChunks"],
        (None, Ev::Brk) => &["BreakEmptyStack"],
        (Some(Open::Count(_)), Ev::Brk) => &["BreakInNonStreamable"],
        (Some(Open::IndefMap(true)), Ev::Brk) => &["StructureNotFinished"],
        _ => &[],
    }
}
fn reason_ok(m: &Model, e: Ev, x: &StateError) -> bool {
    let name = format!("{:?}", x);
    // what is open may be a tag, which the model does not tell from an array of one item
    reasons(m, e).contains(&name.as_str()) || (name == "TagNotFinished" && e == Ev::Brk && matches!(m.open.last(), Some(Open::Count(1))))
}
fn bytes_of(evs: &[Ev]) -> Vec<u8> {
    let mut v = Vec::new();
    let mut put = |major: u8, c: Option<(W, u64)>, text: Option<u8>| match c {
        None => v.push(major << 5 | 31),
        Some((w, n)) => {
            crate::refcbor::head(&mut v, major, w, n);
            if let Some(x) = text {
                v.extend(std::iter::repeat(x).take(n as usize));
            }
        }
    };
    for e in evs {
        match *e {
            Ev::Simple => put(0, Some((W::Imm, 7)), None),
            Ev::Tag(w, t) => put(6, Some((w, t)), None),
            Ev::Brk => put(7, None, None),
            Ev::Array(c) => put(4, c, None),
            Ev::Map(c) => put(5, c, None),
            Ev::Bytes(c) => put(2, c, Some(0xee)),
            Ev::Text(c) => put(3, c, Some(b'y')),
        }
    }
    v
}
/// the history, then every event that it does not allow, by the state machine and as bytes
fn refusals(evs: &[Ev], cx: &mut Cx) -> R {
    let mut m = Model::default();
    for e in evs {
        ensure!(m.apply(*e), "refused by the model");
    }
    // where the item that is being read starts
    let mut start = 0;
    let mut c = Model::default();
    for (i, e) in evs.iter().enumerate() {
        c.apply(*e);
        if c.open.is_empty() {
            start = i + 1;
        }
    }
    for p in ALPHABET.iter().chain(&PROBES) {
        if m.clone().apply(*p) {
            continue;
        }
        let tell = |how: &str, x: &dyn std::fmt::Debug| -> R {
            Err(format!("{}: {:?} after {} is refused as {:?}, where the reason is one of {:?}", how, p, show(evs), x, reasons(&m, *p)))
        };
        let mut st = State::new();
        for e in evs {
            feed(&mut st, *e).map_err(|x| format!("refused {:?} of {}: {:?}", e, show(evs), x))?;
        }
        match feed(&mut st, *p) {
            Err(x) if reason_ok(&m, *p, &x) => {}
            x => return tell("the state machine", &x),
        }
        cx.nontrivial_if(true);
        // as bytes: what follows is one more item, so that nothing is missing
        if matches!(p, Ev::Bytes(Some((_, n))) | Ev::Text(Some((_, n))) if *n > 1000) {
            continue;
        }
        let mut b = bytes_of(&evs[start..]);
        b.extend_from_slice(&bytes_of(&[*p]));
        b.extend_from_slice(&[0x07; 20]);
        use cbored::validate::{ValidateError, Validator};
        match Validator::new(&b).next() {
            Err(ValidateError::StateError(x)) if reason_ok(&m, *p, &x) => {}
            x => return tell("the validator", &x),
        }
        let mut t = vec![0xc1];
        t.extend_from_slice(&b);
        match cbored::Reader::new(&t).tag() {
            Err(cbored::ReaderError::StateError(x)) if reason_ok(&m, *p, &x) => {}
            x => return tell("the content of a tag", &x),
        }
        let mut t = vec![0x82, 0x00];
        t.extend_from_slice(&b);
        match cbored::Reader::new(&t).array() {
            Err(cbored::ReaderError::StateError(x)) if reason_ok(&m, *p, &x) => {}
            x => return tell("the element of an array", &x),
        }
    }
    Ok(())
}
fn c28_case(s: &mut Src, cx: &mut Cx) -> R {
    let mut m = Model::default();
    let mut evs = Vec::new();
    let n = s.size(60);
    for _ in 0..n {
        let mut e = any_event(s);
        if let Some(Open::Chunks { text }) = m.open.last() {
            let v = s.below(300);
            let h = Some((gen::width(s, v), v));
            e = if s.chance(90) { Ev::Brk } else if *text { Ev::Text(h) } else { Ev::Bytes(h) };
        }
        // contents are written out
        if let Ev::Bytes(Some((w, n))) | Ev::Text(Some((w, n))) = &mut e {
            if *n > 300 {
                *n %= 24;
                *w = gen::width(s, *n);
            }
        }
        if m.apply(e) {
            evs.push(e);
        }
    }
    cx.input(format!("{:?}", evs).as_bytes());
    cx.label(match m.open.last() {
        None => "nothing open",
        Some(Open::Count(_)) => "definite structure or tag open",
        Some(Open::Indef) => "indefinite array open",
        Some(Open::IndefMap(true)) => "indefinite map open, value to come",
        Some(Open::IndefMap(_)) => "indefinite map open",
        Some(Open::Chunks { .. }) => "indefinite string open",
    });
    cx.describe(|| show(&evs));
    refusals(&evs, cx)
}
fn c28_enum_n(_: Tier) -> u64 {
    15u64.pow(4)
}
fn c28_enum(i: u64, cx: &mut Cx) -> R {
    let mut m = Model::default();
    let mut evs = Vec::new();
    let mut x = i;
    for _ in 0..4 {
        let d = (x % 15) as usize;
        x /= 15;
        if d == 14 {
            continue;
        }
        let e = ALPHABET[d];
        if !m.apply(e) {
            return Ok(());
        }
        evs.push(e);
    }
    cx.input_u64(i);
    cx.describe(|| show(&evs));
    refusals(&evs, cx)
}
pub const C28: Prop = Prop {
    id: "C28",
    rule: "the history leaves the state machine in a state in which some event is refused; every such event was tried; distinct by history",
    assumptions: &["where the documentation of StateError lets two names describe the same refusal, either is accepted"],
    enum_n: c28_enum_n,
    enum_case: c28_enum,
    case: c28_case,
    quick: 1_500_000,
    thorough: 40_000_000,
};
