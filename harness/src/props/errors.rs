//! C25: malformed input is reported as what it is.
use crate::engine::{Cx, Prop, Tier, R};
use crate::gen;
use crate::refcbor::*;
use crate::tape::Src;
use crate::ensure;
use cbored::state::StateError;
use cbored::validate::{ValidateError, Validator};
use cbored::*;

/// what is wrong first, from the left
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Defect {
    None(usize),
    /// first byte of an item that no item starts with
    Lead(u8),
    /// break where there is none to have
    Break,
    /// in an indefinite string, something else than its chunks; by its first byte, and what is
    /// missing of it, if cut short
    Chunk(u8, Option<Miss>),
    Missing(Miss),
    /// text that is not UTF-8 (only looked for in the strings of the item itself), valid up to
    Utf8(usize),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
struct Miss {
    part: &'static str,
    expecting: usize,
    got: usize,
}

enum Ctx {
    Count(u128),
    IndefArray,
    IndefMap(bool),
    Chunks(u8),
}
enum Step {
    Lead(u8),
    Missing(Miss),
}
fn step(b: &[u8]) -> Result<Head, Step> {
    match read_head(b) {
        Ok(h) => Ok(h),
        Err(Bad::Malformed) => Err(Step::Lead(b[0])),
        Err(Bad::Truncated) if b.is_empty() => Err(Step::Missing(Miss { part: "Header", expecting: 1, got: 0 })),
        Err(Bad::Truncated) => {
            Err(Step::Missing(Miss { part: "IndirectLen", expecting: 1 << (b[0] & 31) - 24, got: b.len() - 1 }))
        }
    }
}
pub fn utf8_up_to(b: &[u8]) -> usize {
    // valid up to the start of the first character that is not
    let mut p = 0;
    while p < b.len() {
        let n = match b[p] {
            0..=0x7f => 1,
            0xc0..=0xdf => 2,
            0xe0..=0xef => 3,
            _ => 4,
        };
        if p + n > b.len() || !utf8_valid(&b[p..p + n]) {
            break;
        }
        p += n;
    }
    p
}
/// `text`: check the contents when the item itself is a text
fn defect(b: &[u8], text: bool) -> Defect {
    let mut st: Vec<Ctx> = Vec::new();
    let mut p = 0usize;
    let text = text && b.first().map(|x| x >> 5 == 3).unwrap_or(false);
    loop {
        let chunk_of = match st.last() {
            Some(Ctx::Chunks(m)) => Some(*m),
            _ => None,
        };
        let h = match step(&b[p..]) {
            Ok(h) => h,
            Err(Step::Lead(x)) => return Defect::Lead(x),
            Err(Step::Missing(m)) => {
                return match (chunk_of, b.get(p)) {
                    (Some(k), Some(x)) if x >> 5 != k => Defect::Chunk(*x, Some(m)),
                    _ => Defect::Missing(m),
                }
            }
        };
        let lead = b[p];
        let brk = lead == 0xff;
        p += h.len;
        let short = if matches!(h.major, 2 | 3) && h.ai != 31 && h.v > (b.len() - p) as u64 {
            Some(Miss { part: "Content", expecting: h.v as usize, got: b.len() - p })
        } else {
            None
        };
        if let Some(m) = chunk_of {
            if !brk && (h.major != m || h.ai == 31) {
                return Defect::Chunk(lead, short);
            }
        }
        let mut done = true;
        if brk {
            match st.pop() {
                Some(Ctx::IndefArray) | Some(Ctx::IndefMap(false)) | Some(Ctx::Chunks(_)) => {}
                _ => return Defect::Break,
            }
        } else {
            match h.major {
                2 | 3 if h.ai == 31 => {
                    st.push(Ctx::Chunks(h.major));
                    done = false;
                }
                2 | 3 => {
                    if let Some(m) = short {
                        return Defect::Missing(m);
                    }
                    let c = &b[p..p + h.v as usize];
                    if text && !utf8_valid(c) {
                        return Defect::Utf8(utf8_up_to(c));
                    }
                    p += h.v as usize;
                }
                4 | 5 => {
                    if h.ai == 31 {
                        st.push(if h.major == 4 { Ctx::IndefArray } else { Ctx::IndefMap(false) });
                        done = false;
                    } else if h.v > 0 {
                        st.push(Ctx::Count(h.v as u128 * (h.major as u128 - 3)));
                        done = false;
                    }
                }
                6 => {
                    st.push(Ctx::Count(1));
                    done = false;
                }
                _ => {}
            }
        }
        while done {
            match st.last_mut() {
                None => return Defect::None(p),
                Some(Ctx::Count(n)) => {
                    *n -= 1;
                    if *n == 0 {
                        st.pop();
                    } else {
                        done = false;
                    }
                }
                Some(Ctx::IndefMap(odd)) => {
                    *odd = !*odd;
                    done = false;
                }
                Some(_) => done = false,
            }
        }
    }
}

/// type of the item that starts with this byte
fn kind(x: u8) -> Type {
    match (x >> 5, x & 31) {
        (0, _) => Type::Positive,
        (1, _) => Type::Negative,
        (2, _) => Type::Bytes,
        (3, _) => Type::Text,
        (4, _) => Type::Array,
        (5, _) => Type::Map,
        (6, _) => Type::Tag,
        (_, 20) => Type::False,
        (_, 21) => Type::True,
        (_, 22) => Type::Null,
        (_, 23) => Type::Undefined,
        (_, 25..=27) => Type::Float,
        (_, 31) => Type::Break,
        _ => Type::Byte,
    }
}

/// what an error says
#[derive(Clone, Debug, PartialEq)]
enum Said {
    Lead(String),
    Break,
    /// with the type found, if told; `true` when it says that it is an indefinite string
    Chunk(Option<Type>, bool),
    Missing(String, usize, usize),
    Utf8(usize),
    Other(String),
}
fn of_state(e: &StateError) -> Said {
    match e {
        StateError::BreakInNonStreamable
        | StateError::BreakEmptyStack
        | StateError::StructureNotFinished
        | StateError::StructureEndNotInStructure
        | StateError::TagNotFinished => Said::Break,
        StateError::ChunksInChunks | StateError::StructureInChunks | StateError::InvalidTypeInChunk | StateError::TagInChunk => {
            Said::Chunk(None, false)
        }
    }
}
fn of_reader(e: &ReaderError) -> Said {
    match e {
        ReaderError::LeadError(e) => Said::Lead(format!("{:?}", e)),
        ReaderError::DataMissing(m) => Said::Missing(format!("{:?}", m.context), m.expecting_bytes, m.got_bytes),
        ReaderError::StateError(e) => of_state(e),
        ReaderError::UnexpectedBreakType => Said::Break,
        ReaderError::WrongExpectedType { got: Type::Break, .. } | ReaderError::WrongExpectedTypes { got: Type::Break, .. } => Said::Break,
        ReaderError::TextUTF8Error(e) => Said::Utf8(e.valid_up_to()),
        ReaderError::TextChunksInTextChunks => Said::Chunk(Some(Type::Text), true),
        ReaderError::BytesChunksInBytesChunks => Said::Chunk(Some(Type::Bytes), true),
        ReaderError::WrongExpectedTypeInText { got } | ReaderError::WrongExpectedTypeInBytes { got } => Said::Chunk(Some(*got), false),
        _ => Said::Other(format!("{:?}", e)),
    }
}
fn of_validate(e: &ValidateError) -> Said {
    match e {
        ValidateError::LeadError(e) => Said::Lead(format!("{:?}", e)),
        ValidateError::DataMissing(m) => Said::Missing(format!("{:?}", m.context), m.expecting_bytes, m.got_bytes),
        ValidateError::StateError(e) => of_state(e),
    }
}
fn of_decode(e: &DecodeError) -> Said {
    match e.error() {
        DecodeErrorKind::ReaderError(e) => of_reader(e),
        e => Said::Other(format!("{:?}", e)),
    }
}
fn lead_said(x: u8) -> String {
    // shown as the library shows it: which of both, and the byte
    if x & 31 == 31 {
        format!("IndefiniteNotSupported({})", x)
    } else {
        format!("Reserved({})", x)
    }
}
fn truthful(d: Defect, s: &Said) -> bool {
    let miss = |m: Miss| matches!(s, Said::Missing(p, e, g) if p == m.part && *e == m.expecting && *g == m.got);
    match d {
        Defect::None(_) => false,
        Defect::Lead(x) => *s == Said::Lead(lead_said(x)),
        Defect::Break => *s == Said::Break,
        Defect::Missing(m) => miss(m),
        Defect::Utf8(n) => *s == Said::Utf8(n),
        Defect::Chunk(x, m) => {
            m.map(miss).unwrap_or(false)
                || match s {
                    Said::Chunk(t, indef) => {
                        t.map(|t| t == kind(x)).unwrap_or(true) && (!*indef || x & 31 == 31)
                    }
                    _ => false,
                }
        }
    }
}
fn expect(what: &str, b: &[u8], d: Defect, r: Result<(), Said>) -> R {
    match (d, r) {
        (Defect::None(_), Ok(())) => Ok(()),
        (Defect::None(_), Err(s)) => Err(format!("{} refused the well-formed start of {}: {:?}", what, hex(b), s)),
        (d, Ok(())) => Err(format!("{} accepted {}, in which the first defect is {:?}", what, hex(b), d)),
        (d, Err(s)) => {
            ensure!(truthful(d, &s), "{} on {} says {:?}, where the first defect is {:?}", what, hex(b), s, d);
            Ok(())
        }
    }
}

fn check(b: &[u8], cx: &mut Cx) -> R {
    let d = defect(b, false);
    let dt = defect(b, true);
    cx.label(match dt {
        Defect::None(_) => "no defect",
        Defect::Lead(_) => "bad first byte",
        Defect::Break => "misplaced break",
        Defect::Chunk(_, None) => "not a chunk",
        Defect::Chunk(_, Some(_)) => "not a chunk, and cut short",
        Defect::Missing(Miss { part: "Header", .. }) => "ends where an item should start",
        Defect::Missing(Miss { part: "IndirectLen", .. }) => "ends in a header",
        Defect::Missing(_) => "ends in a string",
        Defect::Utf8(_) => "not UTF-8",
    });
    cx.nontrivial_if(!matches!(dt, Defect::None(_)) && b.len() > 1);
    expect("Validator::next", b, d, Validator::new(b).next().map(|_| ()).map_err(|e| of_validate(&e)))?;
    expect("Reader::data", b, dt, Reader::new(b).data().map(|_| ()).map_err(|e| of_reader(&e)))?;
    expect("decode::<DataOwned>", b, dt, Reader::new(b).decode::<DataOwned>().map(|_| ()).map_err(|e| of_decode(&e)))?;
    // captured first, then decoded
    let de = if let Defect::None(_) = d { dt } else { d };
    expect("exact_decodable_slice", b, de, Reader::new(b).exact_decodable_slice::<DataOwned>().map(|_| ()).map_err(|e| of_decode(&e)))?;
    expect("decode::<CborDataOf<DataOwned>>", b, de, Reader::new(b).decode::<CborDataOf<DataOwned>>().map(|_| ()).map_err(|e| of_decode(&e)))?;
    if let Defect::None(_) = dt {
        // (trailing data is C17's)
    } else {
        expect("decode_from_bytes", b, dt, decode_from_bytes::<DataOwned>(b).map(|_| ()).map_err(|e| of_decode(&e)))?;
    }
    // the typed reads
    let first = step(b);
    let found = b.first().map(|x| kind(*x));
    match (Reader::new(b).peek_type(), &first) {
        (Err(e), Err(Step::Lead(x))) => ensure!(of_reader(&e) == Said::Lead(lead_said(*x)), "peek_type on {}: {:?}", hex(b), e),
        (Err(e), _) if b.is_empty() => {
            ensure!(of_reader(&e) == Said::Missing("Header".into(), 1, 0), "peek_type on nothing: {:?}", e)
        }
        (Ok(t), Ok(_)) | (Ok(t), Err(Step::Missing(_))) if !b.is_empty() => {
            ensure!(Some(t) == found, "peek_type on {}: {:?}", hex(b), t)
        }
        (r, _) => return Err(format!("peek_type on {}: {:?}", hex(b), r)),
    }
    macro_rules! typed {
        ($($m:ident: $($t:ident)|+;)*) => {$({
            let mut r = Reader::new(b);
            let x = r.$m().map(|_| ());
            let own = matches!(found, $(Some(Type::$t))|+);
            let what = concat!("Reader::", stringify!($m));
            if own {
                expect(what, b, dt, x.map_err(|e| of_reader(&e)))?;
            } else {
                let ok = match (&x, &first) {
                    (Err(e), Err(Step::Lead(x))) => of_reader(e) == Said::Lead(lead_said(*x)),
                    (Err(e), Err(Step::Missing(m))) => {
                        // of another kind, or cut short
                        of_reader(e) == Said::Missing(m.part.into(), m.expecting, m.got) || (found.is_some() && crate::view::got_type(e) == found)
                    }
                    (Err(e), Ok(_)) => crate::view::got_type(e) == found,
                    _ => false,
                };
                ensure!(ok, "{} on {}: {:?}", what, hex(b), x);
                ensure!(r.consumed_bytes() == 0, "{} on {} fails and consumes", what, hex(b));
            }
        })*};
    }
    typed! {
        positive: Positive;
        negative: Negative;
        scalar: Positive | Negative;
        byte: Byte;
        float: Float;
        constant: False | True | Null | Undefined;
        null: Null;
        undefined: Undefined;
        bool: False | True;
        bytes: Bytes;
        text: Text;
        array: Array;
        map: Map;
        tag: Tag;
    }
    Ok(())
}

/// an item with something wrong somewhere, at depth
fn wrong(s: &mut Src) -> Vec<u8> {
    let it = gen::item(s, gen::ANYTEXT);
    let mut v = it.to_vec();
    // where items (or chunks) start
    let mut starts = Vec::new();
    let mut p = 0;
    while p < v.len() {
        let Ok(h) = read_head(&v[p..]) else { break };
        starts.push(p);
        p += h.len;
        if matches!(h.major, 2 | 3) && h.ai != 31 {
            p += h.v as usize;
        }
    }
    let at = starts[s.idx(starts.len().min(65536))];
    match s.byte() % 6 {
        0 => {
            // no item starts like that
            let x = *s.pick(&[28u8, 29, 30]) | s.byte() << 5;
            v.insert(at, x)
        }
        1 => v.insert(at, *s.pick(&[0x1f, 0x3f, 0xdf])),
        2 => v.insert(at, 0xff),
        3 => {
            // another item there
            let x = gen::item(s, gen::SMALL).to_vec();
            v.splice(at..at, x);
        }
        4 => {
            v.remove(at);
        }
        _ => v.truncate(at + s.idx(12)),
    }
    if s.chance(60) {
        let n = s.idx(v.len().min(65536) + 1);
        v.truncate(n);
    }
    v
}
fn c25_case(s: &mut Src, cx: &mut Cx) -> R {
    let (b, l) = match s.weighted(&[40, 40, 3]) {
        0 => (wrong(s), "at an item's start"),
        1 => gen::any_bytes(s),
        _ => {
            let d = s.idx(3000);
            let mut v = gen::deep(s, d);
            let n = v.len().saturating_sub(s.idx(6));
            v.truncate(n);
            if s.bool() {
                v.push(*s.pick(&[0xffu8, 0x1c, 0xfc, 0x5f]));
            }
            (v, "deep")
        }
    };
    cx.label(l);
    cx.input(&b);
    cx.describe(|| format!("{}: {} ({:?})", l, hex(&b), defect(&b, true)));
    check(&b, cx)
}
fn c25_enum_n(t: Tier) -> u64 {
    gen::short_n(t) + gen::shapes_n(t)
}
fn c25_enum(i: u64, cx: &mut Cx) -> R {
    if i >= gen::short_n(cx.tier) {
        let i = i - gen::short_n(cx.tier);
        let Some(it) = gen::shape(i) else { return Ok(()) };
        let mut b = it.to_vec();
        cx.describe(|| format!("shape {}, spoilt", hex(&b)));
        let n = b.len();
        check(&b[..n - 1], cx)?;
        if n > 1 {
            check(&b[..n / 2], cx)?;
        }
        for x in [0xffu8, 0x1c, 0x5f, 0xfe] {
            let l = b[n - 1];
            b[n - 1] = x;
            check(&b, cx)?;
            b[n - 1] = l;
        }
        cx.input(&b);
        return Ok(());
    }
    let b = gen::short_bytes(i);
    cx.input_u64(i);
    cx.describe(|| format!("{} ({:?})", hex(&b), defect(&b, true)));
    check(&b, cx)
}
pub const C25: Prop = Prop {
    id: "C25",
    rule: "the input has at least two bytes and a defect, and every way of reading it reported that defect; distinct by input",
    assumptions: &[
        "the scanner for the first defect in errors.rs follows RFC 8949, with the dialect of C02",
        "the several errors for a misplaced break, and those for a wrong element in an indefinite string, count as one each",
    ],
    enum_n: c25_enum_n,
    enum_case: c25_enum,
    case: c25_case,
    quick: 300_000,
    thorough: 12_000_000,
};
