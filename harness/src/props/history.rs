//! C06, C17, C18: reading histories, whole-input decoding, raw typed data.
use super::sample::*;
use crate::engine::{Cx, Prop, Tier, R};
use crate::for_each_sample;
use crate::gen;
use crate::refcbor::*;
use crate::tape::Src;
use crate::view::*;
use crate::{ensure, ensure_eq};
use cbored::tagged::*;
use cbored::*;
use std::borrow::Borrow;

// ---- C06 ------------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
    Positive, Negative, Scalar, Byte, Float, Constant, Null, Undefined, Bool, Bytes, Text, Array, Map, Tag,
    DBool, DU8, DU16, DU32, DU64, DString, DVec, DArr, DScalar, DecodeVec,
}
use Op::*;
const OPS: [Op; 24] = [
    Positive, Negative, Scalar, Byte, Float, Constant, Null, Undefined, Bool, Bytes, Text, Array, Map, Tag,
    DBool, DU8, DU16, DU32, DU64, DString, DVec, DArr, DScalar, DecodeVec,
];
/// the read is for items of this kind
fn own_kind(op: Op, t: Type) -> bool {
    match op {
        Positive | DU8 | DU16 | DU32 | DU64 => t == Type::Positive,
        Negative => t == Type::Negative,
        Scalar | DScalar => t == Type::Positive || t == Type::Negative,
        Byte => t == Type::Byte,
        Float => t == Type::Float,
        Constant => matches!(t, Type::False | Type::True | Type::Null | Type::Undefined),
        Null => t == Type::Null,
        Undefined => t == Type::Undefined,
        Bool | DBool => matches!(t, Type::False | Type::True),
        Bytes | DVec | DArr => t == Type::Bytes,
        Text | DString => t == Type::Text,
        Array | DecodeVec => t == Type::Array,
        Map => t == Type::Map,
        Tag => t == Type::Tag,
    }
}
/// own kind reads that take every well-formed item of the kind
fn total_on(op: Op, it: &Item) -> bool {
    own_kind(op, ty_of(it))
        && match op {
            DU8 => matches!(it, Item::Uint(_, v) if *v < 1 << 8),
            DU16 => matches!(it, Item::Uint(_, v) if *v < 1 << 16),
            DU32 => matches!(it, Item::Uint(_, v) if *v < 1 << 32),
            DArr => matches!(it, Item::Bytes(s) if s.concat().len() == 4),
            DecodeVec => matches!(it, Item::Array(_, v) if v.iter().all(|i| i.own_text_ok())),
            Text | DString => it.own_text_ok(),
            _ => true,
        }
}
/// encoding of what was read (canonical for native types), or the error
fn exec(op: Op, r: &mut Reader) -> Result<Vec<u8>, DecodeErrorKind> {
    fn w<T: Encode>(t: T) -> Vec<u8> {
        encode_to_bytes(&t)
    }
    fn d<T: Decode + Encode>(r: &mut Reader) -> Result<Vec<u8>, DecodeErrorKind> {
        match r.decode::<T>() {
            Ok(v) => Ok(w(v)),
            Err(e) => Err(e.error().clone()),
        }
    }
    Ok(match op {
        Positive => w(r.positive()?),
        Negative => w(r.negative()?),
        Scalar => w(r.scalar()?),
        Byte => w(r.byte()?),
        Float => w(r.float()?),
        Constant => w(r.constant()?),
        Null => {
            r.null()?;
            vec![0xf6]
        }
        Undefined => {
            r.undefined()?;
            vec![0xf7]
        }
        Bool => w(r.bool()?),
        Bytes => w(r.bytes()?),
        Text => w(r.text()?),
        Array => w(r.array()?),
        Map => w(r.map()?),
        Tag => w(r.tag()?),
        DBool => d::<bool>(r)?,
        DU8 => d::<u8>(r)?,
        DU16 => d::<u16>(r)?,
        DU32 => d::<u32>(r)?,
        DU64 => d::<u64>(r)?,
        DString => d::<String>(r)?,
        DVec => d::<Vec<u8>>(r)?,
        DArr => d::<[u8; 4]>(r)?,
        DScalar => d::<cbored::Scalar>(r)?,
        DecodeVec => match decode_vec::<DataOwned>(r) {
            Ok(v) => w(VecOf(v)),
            Err(e) => return Err(e.error().clone()),
        },
    })
}
fn expected(op: Op, it: &Item) -> Vec<u8> {
    let i = std::slice::from_ref(it);
    match op {
        DU8 | DU16 | DU32 | DU64 => u64::expect(i),
        DString => String::expect(i),
        DVec | DArr => <Vec<u8>>::expect(i),
        DecodeVec => <VecOf<DataOwned>>::expect(i),
        _ => it.to_vec(),
    }
}
/// what comes next
enum Next<'a> {
    Item(&'a Item),
    Break,
    /// a lead byte that is reserved
    Reserved,
    /// a lead of a known kind, the rest is missing
    Cut(Type),
    End,
}
/// a read that must fail; the reader stays where it is
fn mismatch(op: Op, r: &mut Reader, n: &Next, at: &dyn std::fmt::Debug) -> R {
    let (c, m) = (r.consumed_bytes(), r.remaining_bytes());
    let res = exec(op, r);
    let e = match res {
        Ok(v) => return Err(format!("{:?} accepted {:?}, as {}", op, at, hex(&v))),
        Err(e) => e,
    };
    ensure_eq!((r.consumed_bytes(), r.remaining_bytes()), (c, m), "position after the failed {:?} on {:?}", op, at);
    let re = match &e {
        DecodeErrorKind::ReaderError(e) => e,
        e => return Err(format!("{:?} on {:?} failed with {:?}", op, at, e)),
    };
    match n {
        Next::Item(i) => ensure_eq!(got_type(re), Some(ty_of(i)), "type reported by {:?} on {:?} ({:?})", op, at, re),
        Next::Break => ensure_eq!(got_type(re), Some(Type::Break), "type reported by {:?} on a break ({:?})", op, re),
        Next::End => ensure!(missing(re).is_some(), "{:?} at the end of the data: {:?}", op, re),
        Next::Reserved | Next::Cut(_) => ensure!(got_type(re).is_none() || matches!(n, Next::Cut(_)), "{:?} on {:?}: {:?}", op, at, re),
    }
    Ok(())
}
fn peek(r: &Reader, n: &Next, at: &dyn std::fmt::Debug) -> R {
    let c = r.consumed_bytes();
    let p = r.peek_type();
    ensure_eq!(r.consumed_bytes(), c, "peek_type moved the reader");
    match n {
        Next::Item(i) => ensure!(matches!(&p, Ok(t) if *t == ty_of(i)), "peek_type on {:?}: {:?}", at, p),
        Next::Break => ensure!(matches!(&p, Ok(Type::Break)), "peek_type on a break: {:?}", p),
        Next::Cut(t) => ensure!(matches!(&p, Ok(x) if x == t), "peek_type on {:?}: {:?}", at, p),
        Next::Reserved => ensure!(p.is_err(), "peek_type on a reserved lead: {:?}", p),
        Next::End => ensure!(matches!(&p, Err(e) if missing(e).is_some()), "peek_type at the end: {:?}", p),
    }
    Ok(())
}
fn c06_case(s: &mut Src, cx: &mut Cx) -> R {
    let n = 1 + s.size(8);
    let mut items = Vec::new();
    let mut buf = Vec::new();
    for _ in 0..n {
        let k = s.idx(10);
        let it = if k == 9 { gen::item(s, gen::SMALL) } else { gen::item_of_kind(s, k, gen::SMALL) };
        it.enc(&mut buf);
        items.push(it);
    }
    let end = s.idx(5);
    let mut cut_ty = Type::Null;
    match end {
        1 => buf.push(0xff),
        2 => buf.push(*s.pick(&[0x1cu8, 0x1d, 0x1e, 0x1f, 0x3c, 0x3f, 0x5c, 0x7d, 0x9e, 0xbc, 0xdc, 0xdf, 0xfc, 0xfd, 0xfe])),
        3 => {
            // an item whose header is cut
            let m = s.idx(7) as u8;
            buf.push(m << 5 | (24 + s.byte() % 4));
            cut_ty = [Type::Positive, Type::Negative, Type::Bytes, Type::Text, Type::Array, Type::Map, Type::Tag][m as usize];
        }
        _ => {}
    }
    if end == 1 || end == 2 {
        buf.extend(gen::soup(s));
    }
    cx.input(&buf);
    cx.nontrivial_if(n > 1);
    cx.describe(|| format!("history over {} items: {}", n, hex(&buf)));
    let mut r = Reader::new(&buf);
    let mut failed = 0;
    for it in &items {
        let at = r.consumed_bytes();
        let e = it.to_vec();
        let next = Next::Item(it);
        let what = short(it);
        for _ in 0..s.size(12) {
            match s.idx(OPS.len() + 3) {
                i if i < OPS.len() => {
                    let op = OPS[i];
                    if own_kind(op, ty_of(it)) {
                        if !total_on(op, it) {
                            // refused for its value: not on this reader, what is consumed then is unspecified
                            let mut q = Reader::new(&buf[at..]);
                            let x = exec(op, &mut q);
                            ensure!(x.is_err(), "{:?} accepted {}: {:?}", op, what, x);
                        }
                        continue;
                    }
                    failed += 1;
                    mismatch(op, &mut r, &next, &what)?;
                }
                _ => peek(&r, &next, &what)?,
            }
        }
        // the correct read
        let good: Vec<Op> = OPS.iter().copied().filter(|o| total_on(*o, it)).collect();
        match s.idx(good.len() + 3) {
            i if i < good.len() => {
                let op = good[i];
                let v = exec(op, &mut r).map_err(|x| format!("{:?} refused {}: {:?}", op, what, x))?;
                ensure!(v == expected(op, it), "{:?} read {} as {}", op, what, hex(&v));
            }
            0 | 1 => {
                let d = r.data().map_err(|x| format!("data() refused {}: {:?}", what, x))?;
                check_data(&d, it)?;
            }
            x if x == good.len() => {
                let d = r.decode::<DataOwned>().map_err(|x| format!("DataOwned refused {}: {:?}", what, x))?;
                check_data(&d.borrow(), it)?;
            }
            _ => {
                let d = r.exact_decodable_slice::<DataOwned>().map_err(|x| format!("exact_decodable_slice refused {}: {:?}", what, x))?;
                ensure!(d.untype().as_ref() == &e[..], "raw slice of {}", what);
            }
        }
        ensure_eq!(r.consumed_bytes() - at, e.len(), "bytes taken by {}", what);
    }
    let next = match end {
        1 => Next::Break,
        2 => Next::Reserved,
        3 => Next::Cut(cut_ty),
        _ => Next::End,
    };
    let what = format!("the end {} of {}", hex(&buf[r.consumed_bytes()..]), hex(&buf));
    peek(&r, &next, &what)?;
    for op in OPS {
        if let Next::Cut(t) = next {
            if own_kind(op, t) {
                continue;
            }
        }
        mismatch(op, &mut r, &next, &what)?;
    }
    if !matches!(next, Next::Cut(_)) {
        let c = r.consumed_bytes();
        let x = r.data();
        ensure!(x.is_err(), "data() on {}: {:?}", what, x);
        ensure_eq!(r.consumed_bytes(), c, "position after data() on {}", what);
    }
    peek(&r, &next, &what)?;
    cx.label_if(failed > 5, "more than five failed reads");
    cx.label(["ends", "break", "reserved lead", "cut header", "ends"][end]);
    Ok(())
}
fn c06_enum_n(_: Tier) -> u64 {
    // every lead byte x what follows it
    256 * 4
}
fn c06_enum(i: u64, cx: &mut Cx) -> R {
    let lead = (i % 256) as u8;
    let follow: &[u8] = [&[0u8; 40][..], &[0xffu8; 40], &[], &[0x41u8; 40]][(i / 256) as usize];
    let mut b = vec![lead];
    b.extend_from_slice(follow);
    cx.input(&b);
    cx.nontrivial_if(true);
    cx.describe(|| hex(&b));
    let t = match (lead >> 5, lead & 31) {
        (_, 28..=30) | (0, 31) | (1, 31) | (6, 31) => None,
        (m @ 0..=6, _) => Some([Type::Positive, Type::Negative, Type::Bytes, Type::Text, Type::Array, Type::Map, Type::Tag][m as usize]),
        (_, 31) => Some(Type::Break),
        (_, 0..=19) | (_, 24) => Some(Type::Byte),
        (_, 20) => Some(Type::False),
        (_, 21) => Some(Type::True),
        (_, 22) => Some(Type::Null),
        (_, 23) => Some(Type::Undefined),
        _ => Some(Type::Float),
    };
    let mut r = Reader::new(&b);
    match (t, r.peek_type()) {
        (None, Err(_)) => {}
        (Some(t), Ok(x)) => ensure_eq!(x, t, "peek_type on {}", hex(&b)),
        (t, x) => return Err(format!("peek_type on {}: {:?}, expected {:?}", hex(&b), x, t)),
    }
    let complete = read_head(&b).is_ok();
    for op in OPS {
        match t {
            None => mismatch(op, &mut r, &Next::Reserved, &hex(&b))?,
            Some(t) if own_kind(op, t) => {}
            Some(Type::Break) => mismatch(op, &mut r, &Next::Break, &hex(&b))?,
            Some(t) => {
                mismatch(op, &mut r, &Next::Cut(t), &hex(&b))?;
                if complete {
                    match exec(op, &mut r) {
                        Err(DecodeErrorKind::ReaderError(e)) => ensure_eq!(got_type(&e), Some(t), "type reported by {:?} on {}", op, hex(&b)),
                        x => return Err(format!("{:?} on {}: {:?}", op, hex(&b), x)),
                    }
                }
            }
        }
    }
    Ok(())
}
pub const C06: Prop = Prop {
    id: "C06",
    rule: "a history of mismatched reads, peeks and correct reads over at least two items (or, enumerated, a lead byte met by every mismatched read); distinct by input",
    assumptions: &["what a read of the item's own kind consumes when it fails (out of range, wrong length, not UTF-8) is not part of the property"],
    enum_n: c06_enum_n,
    enum_case: c06_enum,
    case: c06_case,
    quick: 250_000,
    thorough: 12_000_000,
};

// ---- C17 ------------------------------------------------------------------------------------

fn position(r: &Reader, b: &[u8], what: &dyn std::fmt::Display) -> R {
    let (c, m) = (r.consumed_bytes(), r.remaining_bytes());
    ensure!(c <= b.len() && c + m == b.len(), "after {}: {} consumed, {} remaining of {}", what, c, m, b.len());
    ensure_eq!(r.is_finished(), m == 0, "is_finished after {}", what);
    match r.expect_finished() {
        Ok(()) => ensure!(m == 0, "expect_finished with {} bytes remaining after {}", m, what),
        Err(ReaderError::NotTerminated { at, remaining_bytes, next_byte }) => {
            ensure!(m > 0, "expect_finished fails at the end after {}", what);
            ensure_eq!((at, remaining_bytes, next_byte), (c, m, b[c]), "expect_finished after {}", what);
        }
        Err(e) => return Err(format!("expect_finished after {}: {:?}", what, e)),
    }
    Ok(())
}
fn enc_all(items: &[Item]) -> Vec<u8> {
    let mut v = Vec::new();
    for i in items {
        i.enc(&mut v)
    }
    v
}
fn judge<T: Sample, E: std::fmt::Debug>(what: &str, got: Result<T, E>, ok: bool, exp: &[u8], b: &[u8]) -> R {
    match got {
        Ok(v) => {
            ensure!(ok, "{} of {} accepted {}: {:?}", what, T::NAME, hex(b), v);
            let e = encode_to_bytes(&v);
            ensure!(e == exp, "{} of {} from {} gives a value encoding as {}, expected {}", what, T::NAME, hex(b), hex(&e), hex(exp));
        }
        Err(e) => ensure!(!ok, "{} of {} refused {}: {:?}", what, T::NAME, hex(b), e),
    }
    Ok(())
}
/// every whole-input decoding of `T` from these items and `junk` after them
fn whole<T: Sample>(items: &[Item], junk: &[u8]) -> R {
    let mut b = enc_all(items);
    b.extend_from_slice(junk);
    let b = &b[..];
    let n = T::takes(items);
    let ok = n == Some(items.len()) && junk.is_empty();
    let exp = n.map(|_| T::expect(items)).unwrap_or_default();
    judge("decode_from_bytes", decode_from_bytes::<T>(b), ok, &exp, b)?;
    let mut r = Reader::new(b);
    judge("Reader::decode_one", r.decode_one::<T>(), ok, &exp, b)?;
    position(&r, b, &"decode_one")?;
    // plain decoding takes what it should
    let mut r = Reader::new(b);
    judge("Reader::decode", r.decode::<T>(), n.is_some(), &exp, b)?;
    position(&r, b, &"decode")?;
    if let Some(n) = n {
        ensure_eq!(r.consumed_bytes(), enc_all(&items[..n]).len(), "bytes taken by {}", T::NAME);
    }
    // the last of several
    let mut pre = vec![0x19, 0x01, 0x02, 0x60];
    let k = pre.len();
    pre.extend_from_slice(b);
    let mut r = Reader::new(&pre);
    let _ = r.positive();
    let _ = r.text();
    ensure_eq!(r.consumed_bytes(), k, "consumed by two reads");
    judge("Reader::decode_one after others", r.decode_one::<T>(), ok, &exp, b)?;
    position(&r, &pre, &"decode_one")?;
    // raw data
    let mut w = Writer::new_from_vec(b.to_vec());
    if junk.is_empty() && b.len() < 64 {
        // written by the writer, item by item
        w = Writer::new();
        for i in items {
            if let Ok(d) = Reader::new(&i.to_vec()).data() {
                w.data(&d)
            } else {
                w = Writer::new_from_vec(b.to_vec());
                break;
            }
        }
    }
    let d = w.finalize_data();
    judge("CborData::decode", d.decode::<T>(), ok, &exp, b)?;
    let s: &CborSlice = d.borrow();
    judge("CborSlice::decode", s.decode::<T>(), ok, &exp, b)?;
    judge("CborData::read().decode_one", d.read().decode_one::<T>(), ok, &exp, b)?;
    judge("CborSlice::reader().decode_one", s.reader().decode_one::<T>(), ok, &exp, b)?;
    Ok(())
}
/// the content of a tag: one item
fn tag_content<T: Sample>(s: &mut Src, it: &Item) -> R {
    let t = s.u64();
    let b = Item::Tag(gen::width(s, t), t, Box::new(it.clone())).to_vec();
    let tag = Reader::new(&b).tag().map_err(|e| format!("tag() refused {}: {:?}", hex(&b), e))?;
    let one = std::slice::from_ref(it);
    let n = T::takes(one);
    let ok = n == Some(1);
    let exp = n.map(|_| T::expect(one)).unwrap_or_default();
    judge("Tag::decode_data", tag.decode_data::<T>(), ok, &exp, &b)?;
    let o = tag.owned();
    judge("TagOwned::borrow().decode_data", o.borrow().decode_data::<T>(), ok, &exp, &b)?;
    judge("Tag::read_data", tag.read_data(|r| r.decode::<T>().map_err(|_| ReaderError::UnexpectedBreakType)), ok, &exp, &b)?;
    // a closure that reads nothing, only looks, or reads it all
    ensure!(tag.read_data(|_| Ok(())).is_err(), "Tag::read_data lets the content of {} unread", hex(&b));
    ensure!(tag.read_data(|r| r.peek_type()).is_err(), "Tag::read_data lets the content of {} unread", hex(&b));
    let x = tag.read_data(|r| r.data().map(|d| d.owned()));
    ensure_eq!(x.is_ok(), it.own_text_ok(), "Tag::read_data of {}", hex(&b));
    if let Err(e) = tag.read_data(|_| Ok(())) {
        let c = it.to_vec();
        match e {
            ReaderError::NotTerminated { at, remaining_bytes, next_byte } => {
                ensure_eq!((at, remaining_bytes, next_byte), (0, c.len(), c[0]), "what Tag::read_data reports on {}", hex(&b))
            }
            e => return Err(format!("Tag::read_data of {} fails with {:?}", hex(&b), e)),
        }
    }
    Ok(())
}
/// an operation on a reader, whatever it gives
fn any_op(s: &mut Src, r: &mut Reader) -> &'static str {
    macro_rules! op {
        ($($i:literal $n:literal $e:expr;)*) => {
            match s.idx(34) { $($i => { let _ = $e; $n })* _ => { let _ = r.data(); "data" } }
        };
    }
    op! {
        0 "positive" r.positive(); 1 "negative" r.negative(); 2 "scalar" r.scalar(); 3 "byte" r.byte(); 4 "float" r.float();
        5 "constant" r.constant(); 6 "null" r.null(); 7 "undefined" r.undefined(); 8 "bool" r.bool(); 9 "bytes" r.bytes();
        10 "text" r.text(); 11 "array" r.array(); 12 "map" r.map(); 13 "tag" r.tag(); 14 "peek_type" r.peek_type();
        15 "decode<u8>" r.decode::<u8>(); 16 "decode<u64>" r.decode::<u64>(); 17 "decode<String>" r.decode::<String>();
        18 "decode<Vec<u8>>" r.decode::<Vec<u8>>(); 19 "decode<[u8;4]>" r.decode::<[u8; 4]>(); 20 "decode<DataOwned>" r.decode::<DataOwned>();
        21 "exact_decodable_slice" r.exact_decodable_slice::<DataOwned>().is_ok(); 22 "exact_decodable_data" r.exact_decodable_data::<u64>();
        23 "decode_vec" decode_vec::<u64>(r); 24 "RationalNumber" r.decode::<RationalNumber>(); 25 "PositiveBignum" PositiveBignum::read(r);
        26 "decode_one<DataOwned>" r.decode_one::<DataOwned>(); 27 "decode_one<Nothing>" r.decode_one::<Nothing>();
    }
}
fn c17_case(s: &mut Src, cx: &mut Cx) -> R {
    if s.chance(60) {
        // a history over any input
        let mut b = Vec::new();
        for _ in 0..1 + s.size(4) {
            b.extend(gen::any_bytes(s).0);
            if b.len() > 10_000 {
                break;
            }
        }
        cx.label("history");
        cx.input(&b);
        let mut r = Reader::new(&b);
        position(&r, &b, &"creation")?;
        let mut last = 0;
        let n = s.size(40);
        let mut moved = 0;
        for _ in 0..n {
            let op = any_op(s, &mut r);
            position(&r, &b, &op)?;
            let c = r.consumed_bytes();
            ensure!(c >= last, "{} moved the reader backwards", op);
            moved += (c > last) as u32;
            last = c;
        }
        cx.nontrivial_if(moved > 1);
        cx.describe(|| format!("{} operations on {}", n, hex(&b)));
        return Ok(());
    }
    let n = s.weighted(&[1, 8, 6, 2]);
    let items: Vec<Item> = (0..n)
        .map(|_| match s.idx(16) {
            9 => gen::item(s, gen::ANYTEXT),
            k @ 0..=8 => gen::item_of_kind(s, k, gen::ANYTEXT),
            10 | 11 => { let w = s.idx(5); gen::tagged(s, w) }
            12 => Item::Bytes(gen::string_repr(s, b"abcd", false)),
            13 => { let k = s.size(4); Item::Array(gen::len_repr(s, k), vec![Item::uint(1000); k]) }
            14 => { let k = s.size(4); let v: Vec<Item> = (0..k).map(|_| Item::Array(gen::len_repr(s, 1), vec![Item::bool(true)])).collect(); Item::Array(gen::len_repr(s, k), v) }
            _ => { let v = s.below(300); Item::Uint(gen::width(s, v), v) }
        })
        .collect();
    let junk: Vec<u8> = match s.idx(6) {
        0 => vec![0xff],
        1 => vec![s.byte()],
        2 if s.bool() => { let mut j = gen::soup(s); j.push(0x1c); j }
        _ => vec![],
    };
    // (a junk byte may well be an item: then it is one)
    let (items, junk) = match extent(&junk) {
        Ok(n) if n == junk.len() => {
            let mut v = items;
            v.extend(parse(&junk, 100).map(|(it, _)| it));
            (v, vec![])
        }
        Ok(_) => (items, vec![]),
        Err(_) => (items, junk),
    };
    cx.input(&enc_all(&items));
    cx.input(&junk);
    cx.nontrivial_if(items.len() + junk.len() > 0);
    cx.label(["no item", "one item", "two items", "three items", "four items"][items.len().min(4)]);
    cx.label_if(!junk.is_empty(), "junk after the items");
    cx.describe(|| format!("whole decoding of {} and junk {}", hex(&enc_all(&items)), hex(&junk)));
    macro_rules! w {
        ($t:ty) => {
            // what reading incomplete junk gives is not modelled: only types that need no look beyond
            if junk.is_empty() || <$t>::takes(&items).is_some() {
                whole::<$t>(&items, &junk)?;
            }
            if let Some(i) = items.first() {
                tag_content::<$t>(s, i)?;
            }
        };
    }
    for_each_sample!(w);
    Ok(())
}
/// a shape, or a vector of equal elements that some type takes; the long ones only in one form
fn sized(i: u64, cx: &mut Cx) -> Option<Item> {
    let n = gen::shapes_n(cx.tier);
    let it = if i < n {
        gen::shape(i)?
    } else {
        let i = i - n;
        let n = gen::size_at((i / 6) as usize);
        let w = if i % 2 == 0 { Some(W::min(n as u64)) } else { None };
        let e = |j: usize| match i / 2 % 3 {
            0 => Item::uint(j as u64 & 0xffff),
            1 => Item::Uint(W::B4, 1),
            _ => Item::Array(if j % 2 == 0 { Some(W::B1) } else { None }, vec![Item::bool(j % 3 == 0); j % 3]),
        };
        Item::Array(w, (0..n).map(e).collect())
    };
    let len = it.to_vec().len();
    if len > 3000 && (i >= gen::shapes_n(Tier::Quick) && cx.tier == Tier::Quick || i % 7 != 0) && !((65536..140_000).contains(&len) && (i >= n || i / 15 % 3 == 0)) {
        return None;
    }
    Some(it)
}
fn sized_n(t: Tier) -> u64 {
    gen::shapes_n(t) + 6 * gen::sizes_n(t)
}
fn c17_enum_n(t: Tier) -> u64 {
    600 + sized_n(t)
}
fn c17_enum(i: u64, cx: &mut Cx) -> R {
    if i >= 600 {
        let i = i - 600;
        let Some(it) = sized(i, cx) else { return Ok(()) };
        cx.input_u64(i);
        cx.nontrivial_if(true);
        cx.label("shape at a boundary size");
        cx.describe(|| format!("whole decoding of {}", short(&it)));
        let mut s = Src::quiet();
        let one = std::slice::from_ref(&it);
        let two = [it.clone(), Item::bool(true)];
        macro_rules! w {
            ($t:ty) => {
                whole::<$t>(one, &[])?;
                if i % 5 == 0 {
                    whole::<$t>(&two, &[])?;
                    tag_content::<$t>(&mut s, &it)?;
                }
            };
        }
        for_each_sample!(w);
        return Ok(());
    }
    // every trailing byte after an integer, after a boolean, and after nothing
    cx.input_u64(i);
    cx.nontrivial_if(true);
    let x = (i % 256) as u8;
    let b: Vec<u8> = match i / 256 {
        0 => vec![0x07, x],
        1 => vec![0xf5, x],
        _ => vec![],
    };
    cx.describe(|| hex(&b));
    let exp = b.is_empty();
    ensure!(decode_from_bytes::<u64>(&b).is_err(), "u64 accepted {}", hex(&b));
    ensure!(decode_from_bytes::<bool>(&b).is_err(), "bool accepted {}", hex(&b));
    ensure!(decode_from_bytes::<DataOwned>(&b).is_err(), "DataOwned accepted {}", hex(&b));
    ensure_eq!(decode_from_bytes::<Nothing>(&b).is_ok(), exp, "a type that reads nothing, from {}", hex(&b));
    ensure_eq!(Reader::new(&b).decode_one::<Nothing>().is_ok(), exp, "a type that reads nothing, from {}", hex(&b));
    position(&Reader::new(&b), &b, &"creation")
}
pub const C17: Prop = Prop {
    id: "C17",
    rule: "a sequence of items (possibly followed by junk) decoded as a whole into each of 26 types in 9 ways, or a history of operations in which the reader moved at least twice; distinct by input",
    assumptions: &[],
    enum_n: c17_enum_n,
    enum_case: c17_enum,
    case: c17_case,
    quick: 40_000,
    thorough: 2_500_000,
};

// ---- C18 ------------------------------------------------------------------------------------

fn captured<T: Sample>(what: &str, c: CborDataOf<T>, items: &[Item]) -> R {
    let b = enc_all(items);
    let bytes: &[u8] = c.as_ref();
    ensure!(bytes == &b[..], "{} of {} holds {} instead of {}", what, T::NAME, hex(bytes), hex(&b));
    ensure!(encode_to_bytes(&c) == b, "{} of {} from {} is encoded as {}", what, T::NAME, hex(&b), hex(&encode_to_bytes(&c)));
    let v = c.unserialize();
    let e = encode_to_bytes(&v);
    ensure!(e == T::expect(items), "{} of {} from {} unserializes to a value encoding as {}", what, T::NAME, hex(&b), hex(&e));
    let s: &CborSliceOf<T> = c.borrow();
    ensure!(s.untype().as_ref() == &b[..], "borrowed {} of {}", what, T::NAME);
    let c2 = c.clone();
    ensure!(AsRef::<[u8]>::as_ref(&c2) == &b[..], "clone of {} of {}", what, T::NAME);
    let u = c2.untype();
    ensure!(AsRef::<[u8]>::as_ref(&u) == &b[..], "untyped {} of {}", what, T::NAME);
    ensure!(encode_to_bytes(&u) == b, "untyped {} of {} encoded", what, T::NAME);
    Ok(())
}
fn raw_slice<T: Sample>(what: &str, s: &CborSliceOf<T>, items: &[Item]) -> R {
    let b = enc_all(items);
    ensure!(s.untype().as_ref() == &b[..], "{} of {} holds {} instead of {}", what, T::NAME, hex(s.untype().as_ref()), hex(&b));
    let mut w = Writer::new();
    w.encode(s);
    let e = w.finalize();
    ensure!(e == b, "{} of {} from {} is encoded as {}", what, T::NAME, hex(&b), hex(&e));
    judge("decoding the raw slice", s.untype().decode::<T>(), true, &T::expect(items), &b)?;
    captured("owned raw slice", s.to_owned(), items)
}
fn raw<T: Sample>(items: &[Item], tail: &[u8]) -> R {
    let b = enc_all(items);
    let mut long = b.clone();
    long.extend_from_slice(tail);
    // the next item
    if let Some(i) = items.first() {
        let one = std::slice::from_ref(i);
        let n = i.to_vec().len();
        let ok = T::takes(one) == Some(1);
        let mut r = Reader::new(&long);
        match r.exact_decodable_slice::<T>() {
            Ok(s) => {
                ensure!(ok, "exact_decodable_slice of {} accepted {}", T::NAME, hex(&long));
                ensure_eq!(r.consumed_bytes(), n, "consumed by exact_decodable_slice of {}", T::NAME);
                raw_slice("exact_decodable_slice", s, one)?;
            }
            Err(e) => ensure!(!ok, "exact_decodable_slice of {} refused {}: {:?}", T::NAME, hex(&long), e),
        }
        let mut r = Reader::new(&long);
        match r.exact_decodable_data::<T>() {
            Ok(s) => {
                ensure!(ok, "exact_decodable_data of {} accepted {}", T::NAME, hex(&long));
                ensure_eq!(r.consumed_bytes(), n, "consumed by exact_decodable_data of {}", T::NAME);
                captured("exact_decodable_data", s, one)?;
            }
            Err(e) => ensure!(!ok, "exact_decodable_data of {} refused {}: {:?}", T::NAME, hex(&long), e),
        }
        let mut r = Reader::new(&long);
        match r.decode::<CborDataOf<T>>() {
            Ok(s) => {
                ensure!(ok, "CborDataOf<{}> accepted {}", T::NAME, hex(&long));
                ensure_eq!(r.consumed_bytes(), n, "consumed by CborDataOf<{}>", T::NAME);
                captured("CborDataOf", s, one)?;
            }
            Err(e) => ensure!(!ok, "CborDataOf<{}> refused {}: {:?}", T::NAME, hex(&long), e),
        }
    }
    // untyped data against the type
    let d = Writer::new_from_vec(b.clone()).finalize_data();
    let ok = T::takes(items) == Some(items.len());
    match d.validate_as::<T>() {
        Ok(c) => {
            ensure!(ok, "CborData::validate_as of {} accepted {}", T::NAME, hex(&b));
            captured("CborData::validate_as", c, items)?;
        }
        Err(e) => ensure!(!ok, "CborData::validate_as of {} refused {}: {:?}", T::NAME, hex(&b), e),
    }
    let s: &CborSlice = d.borrow();
    match s.validate_as::<T>() {
        Ok(c) => {
            ensure!(ok, "CborSlice::validate_as of {} accepted {}", T::NAME, hex(&b));
            raw_slice("CborSlice::validate_as", c, items)?;
        }
        Err(e) => ensure!(!ok, "CborSlice::validate_as of {} refused {}: {:?}", T::NAME, hex(&b), e),
    }
    // data made from a value
    if ok {
        if let Ok(v) = decode_from_bytes::<T>(&b) {
            let c = CborDataOf::from(&v);
            let e = T::expect(items);
            ensure!(AsRef::<[u8]>::as_ref(&c) == &e[..], "raw data made from a {} holds {}, expected {}", T::NAME, hex(c.as_ref()), hex(&e));
            ensure!(encode_to_bytes(&c.unserialize()) == e, "raw data made from a {} unserialized", T::NAME);
        }
    }
    Ok(())
}
fn c18_enum_n(t: Tier) -> u64 {
    sized_n(t)
}
fn c18_enum(i: u64, cx: &mut Cx) -> R {
    let Some(it) = sized(i, cx) else { return Ok(()) };
    cx.input_u64(i);
    cx.nontrivial_if(true);
    cx.label("shape at a boundary size");
    cx.describe(|| format!("raw data {}", short(&it)));
    macro_rules! w {
        ($t:ty) => {
            raw::<$t>(std::slice::from_ref(&it), &[0x07, 0xff])?;
        };
    }
    for_each_sample!(w);
    Ok(())
}
fn c18_case(s: &mut Src, cx: &mut Cx) -> R {
    if s.chance(30) {
        // not well-formed: nothing can be captured
        let b = match s.idx(3) {
            0 => gen::broken(s, gen::SMALL),
            1 => gen::adversarial(s),
            _ => {
                let mut v = gen::item(s, gen::SMALL).to_vec();
                let n = s.idx(v.len());
                v.truncate(n);
                v
            }
        };
        if extent(&b).is_ok() {
            return Ok(());
        }
        cx.input(&b);
        cx.label("not well-formed");
        cx.nontrivial_if(b.len() > 1);
        cx.describe(|| format!("not well-formed: {}", hex(&b)));
        macro_rules! n {
            ($t:ty) => {
                ensure!(Reader::new(&b).exact_decodable_slice::<$t>().is_err(), "exact_decodable_slice of {} accepted {}", stringify!($t), hex(&b));
                ensure!(Reader::new(&b).exact_decodable_data::<$t>().is_err(), "exact_decodable_data of {} accepted {}", stringify!($t), hex(&b));
                ensure!(Reader::new(&b).decode::<CborDataOf<$t>>().is_err(), "CborDataOf<{}> accepted {}", stringify!($t), hex(&b));
            };
        }
        for_each_sample!(n);
        return Ok(());
    }
    let n = s.weighted(&[1, 16, 5]);
    let items: Vec<Item> = (0..n)
        .map(|_| match s.idx(16) {
            9 => gen::item(s, gen::ANYTEXT),
            k @ 0..=8 => gen::item_of_kind(s, k, gen::ANYTEXT),
            10 | 11 => { let w = s.idx(5); gen::tagged(s, w) }
            12 => Item::Bytes(gen::string_repr(s, b"abcd", false)),
            13 => { let k = s.size(4); Item::Array(gen::len_repr(s, k), vec![Item::uint(1000); k]) }
            14 => { let k = s.size(4); let v: Vec<Item> = (0..k).map(|_| Item::Array(gen::len_repr(s, 1), vec![Item::bool(true)])).collect(); Item::Array(gen::len_repr(s, k), v) }
            _ => { let v = s.below(300); Item::Uint(gen::width(s, v), v) }
        })
        .collect();
    let tail = if s.bool() { gen::soup(s) } else { vec![] };
    cx.input(&enc_all(&items));
    cx.nontrivial_if(!items.is_empty());
    cx.label(["no item", "one item", "two items"][items.len()]);
    cx.describe(|| format!("raw data {} followed by {}", hex(&enc_all(&items)), hex(&tail)));
    macro_rules! w {
        ($t:ty) => {
            raw::<$t>(&items, &tail)?;
        };
    }
    for_each_sample!(w);
    // raw data as elements
    if !items.is_empty() && items.iter().all(|i| i.own_text_ok()) {
        let e = Item::Array(gen::len_repr(s, items.len()), items.clone());
        let b = e.to_vec();
        let v = decode_vec::<CborDataOf<DataOwned>>(&mut Reader::new(&b)).map_err(|x| format!("vector of raw data refused {}: {:?}", hex(&b), x))?;
        ensure_eq!(v.len(), items.len(), "elements of a vector of raw data");
        for (c, i) in v.into_iter().zip(&items) {
            captured("element", c, std::slice::from_ref(i))?;
        }
    }
    Ok(())
}
pub const C18: Prop = Prop {
    id: "C18",
    rule: "an item (or none, or two, or something not well-formed) captured as raw data of each of 26 types, borrowed and owned; distinct by input",
    assumptions: &["what a failed capture consumes is not part of the property"],
    enum_n: c18_enum_n,
    enum_case: c18_enum,
    case: c18_case,
    quick: 60_000,
    thorough: 3_000_000,
};
