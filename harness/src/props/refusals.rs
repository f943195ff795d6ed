//! C27: the refusal of well-formed data tells the real mismatch.
use super::errors::utf8_up_to;
use super::sample::*;
use crate::engine::{Cx, Prop, Tier, R};
use crate::gen;
use crate::refcbor::*;
use crate::tape::Src;
use crate::view::{short, ty_of};
use crate::{ensure, ensure_eq};
use cbored::tagged::*;
use cbored::{
    decode_from_bytes, decode_vec, CborDataOf, CborSlice, DataOwned, DecodeError, DecodeErrorKind, Reader, ReaderError, Scalar, Writer,
};
use std::borrow::Borrow;

/// why data is not what was asked for
#[derive(Clone, Debug, PartialEq)]
enum Why {
    /// one of these types was looked for, this one is there
    Type(Vec<Ty>, Ty),
    /// one of these tags was looked for, this one is there
    Tag(Vec<u64>, u64),
    Length(usize, usize),
    Range(u64, u64),
    Utf8(usize),
    /// bytes left over, and when known where, and the first of them
    Rest(usize, Option<(usize, u8)>),
    /// either is as good
    Or(Box<Why>, Box<Why>),
}
use cbored::Type as Ty;
use Why::*;

fn reader_why(e: &ReaderError) -> Option<Why> {
    Some(match e {
        ReaderError::WrongExpectedType { expected, got } => Type(vec![*expected], *got),
        ReaderError::WrongExpectedTypes { expected, got } => Type(expected.to_vec(), *got),
        ReaderError::WrongExpectedTag { expected, got } => Tag(vec![*expected], *got),
        ReaderError::WrongExpectedTags { expected, got } => Tag(expected.to_vec(), *got),
        ReaderError::WrongExpectedLength { expected, got } => Length(*expected, *got),
        ReaderError::TextUTF8Error(e) => Utf8(e.valid_up_to()),
        ReaderError::NotTerminated { at, remaining_bytes, next_byte } => Rest(*remaining_bytes, Some((*at, *next_byte))),
        _ => return None,
    })
}
fn kind_why(e: &DecodeErrorKind) -> Option<Why> {
    Some(match e {
        DecodeErrorKind::ReaderError(e) => return reader_why(e),
        DecodeErrorKind::OutOfRange { min: 0, max, got } => Range(*max, *got),
        DecodeErrorKind::UnexpectedLength { expected, got } => Length(*expected, *got),
        DecodeErrorKind::ReaderNotTerminated { remaining_bytes } => Rest(*remaining_bytes, None),
        _ => return None,
    })
}
fn decode_why(e: &DecodeError) -> Option<Why> {
    kind_why(e.error())
}
fn agrees(real: &Why, said: &Why) -> bool {
    let set = |a: &[Ty], b: &[Ty]| a.iter().all(|x| b.contains(x)) && b.iter().all(|x| a.contains(x));
    match (real, said) {
        (Or(a, b), s) => agrees(a, s) || agrees(b, s),
        (Type(a, g), Type(b, h)) => g == h && set(a, b),
        // some of the tags looked for may be named
        (Tag(a, g), Tag(b, h)) => g == h && !b.is_empty() && b.iter().all(|x| a.contains(x)),
        (Rest(n, p), Rest(m, q)) => n == m && (q.is_none() || p.is_none() || p == q),
        (a, b) => a == b,
    }
}
fn same(what: &str, name: &str, b: &[u8], real: &Option<Why>, got: Result<(), Option<Why>>, dbg: &dyn Fn() -> String) -> R {
    match (real, got) {
        (None, Ok(())) => Ok(()),
        (None, Err(_)) => Err(format!("{} of {} refused {}: {}", what, name, hex(b), dbg())),
        (Some(w), Ok(())) => Err(format!("{} of {} accepted {}, where {:?}", what, name, hex(b), w)),
        (Some(w), Err(s)) => {
            ensure!(s.as_ref().is_some_and(|s| agrees(w, s)), "{} of {} on {} says {}, but {:?}", what, name, hex(b), dbg(), w);
            Ok(())
        }
    }
}

trait Asked: Sample {
    fn why(it: &Item) -> Option<Why>;
}
fn utf8_why(s: &Str) -> Option<Why> {
    let part = |c: &[u8]| (!utf8_valid(c)).then(|| Utf8(utf8_up_to(c)));
    match s {
        Str::Def(_, c) => part(c),
        Str::Chunks(v) => v.iter().find_map(|(_, c)| part(c)),
    }
}
fn is(it: &Item, t: Ty) -> Option<Why> {
    let g = ty_of(it);
    if g == t {
        None
    } else {
        Some(Type(vec![t], g))
    }
}
impl Asked for DataOwned {
    fn why(it: &Item) -> Option<Why> {
        match it {
            Item::Text(s) => utf8_why(s),
            _ => None,
        }
    }
}
impl Asked for bool {
    fn why(it: &Item) -> Option<Why> {
        match it {
            Item::Const(20 | 21) => None,
            _ => Some(Type(vec![Ty::True, Ty::False], ty_of(it))),
        }
    }
}
macro_rules! uint {
    ($($t:ident)*) => {$(
        impl Asked for $t {
            fn why(it: &Item) -> Option<Why> {
                match it {
                    Item::Uint(_, v) if *v > $t::MAX as u64 => Some(Range($t::MAX as u64, *v)),
                    it => is(it, Ty::Positive),
                }
            }
        }
    )*};
}
uint!(u8 u16 u32 u64);
impl Asked for String {
    fn why(it: &Item) -> Option<Why> {
        match it {
            Item::Text(s) => utf8_why(s),
            it => is(it, Ty::Text),
        }
    }
}
impl Asked for Vec<u8> {
    fn why(it: &Item) -> Option<Why> {
        is(it, Ty::Bytes)
    }
}
impl<const N: usize> Asked for [u8; N] {
    fn why(it: &Item) -> Option<Why> {
        match it {
            Item::Bytes(s) if s.concat().len() != N => Some(Length(N, s.concat().len())),
            it => is(it, Ty::Bytes),
        }
    }
}
impl Asked for Scalar {
    fn why(it: &Item) -> Option<Why> {
        match it {
            Item::Uint(..) | Item::Nint(..) => None,
            _ => Some(Type(vec![Ty::Positive, Ty::Negative], ty_of(it))),
        }
    }
}
fn tag_why(it: &Item, tag: u64, f: impl FnOnce(&Item) -> Option<Why>) -> Option<Why> {
    match it {
        Item::Tag(_, t, c) if *t == tag => f(c),
        Item::Tag(_, t, _) => Some(Tag(vec![tag], *t)),
        it => is(it, Ty::Tag),
    }
}
impl Asked for StandardDateTime {
    fn why(it: &Item) -> Option<Why> {
        tag_why(it, 0, String::why)
    }
}
impl Asked for PositiveBignum {
    fn why(it: &Item) -> Option<Why> {
        tag_why(it, 2, <Vec<u8>>::why)
    }
}
impl Asked for NegativeBignum {
    fn why(it: &Item) -> Option<Why> {
        tag_why(it, 3, <Vec<u8>>::why)
    }
}
impl Asked for EncodedCBOR {
    fn why(it: &Item) -> Option<Why> {
        tag_why(it, 24, <Vec<u8>>::why)
    }
}
impl Asked for RationalNumber {
    fn why(it: &Item) -> Option<Why> {
        tag_why(it, 30, |c| {
            let Item::Array(_, v) = c else { return is(c, Ty::Array) };
            let [n, d] = &v[..] else { return Some(Length(2, v.len())) };
            let num = match n {
                Item::Uint(..) | Item::Nint(..) => None,
                Item::Tag(_, t @ (2 | 3), c) => {
                    // the other tag may be what is said to be missing
                    <Vec<u8>>::why(c).map(|w| Or(Box::new(w), Box::new(Tag(vec![5 - *t], *t))))
                }
                Item::Tag(_, t, _) => Some(Tag(vec![2, 3], *t)),
                n => Some(Type(vec![Ty::Positive, Ty::Negative, Ty::Tag], ty_of(n))),
            };
            num.or_else(|| match d {
                Item::Uint(..) => None,
                Item::Tag(..) => PositiveBignum::why(d),
                d => Some(Type(vec![Ty::Positive, Ty::Tag], ty_of(d))),
            })
        })
    }
}
impl<T: Asked> Asked for VecOf<T> {
    fn why(it: &Item) -> Option<Why> {
        match it {
            Item::Array(_, v) => v.iter().find_map(T::why),
            it => is(it, Ty::Array),
        }
    }
}

/// decoding `T` from this item, then the bytes after it, by every way
fn asked<T: Asked>(it: &Item, tail: &[u8], cx: &mut Cx) -> R {
    let w = T::why(it);
    let e = it.to_vec();
    let mut b = e.clone();
    b.extend_from_slice(tail);
    let n = e.len();
    // what is left over is only told when the rest is right
    let rest = |at: usize, tail: &[u8]| w.clone().or_else(|| tail.first().map(|x| Rest(tail.len(), Some((at, *x)))));
    macro_rules! way {
        ($what:expr, $in:expr, $real:expr, $e:expr) => {{
            let r = $e.map(|_| ());
            let d = || format!("{:?}", r);
            same($what, T::NAME, $in, &$real, r.as_ref().map(|_| ()).map_err(|e| decode_why(e)), &d)?;
        }};
    }
    way!("decode_from_bytes", &b, rest(n, tail), decode_from_bytes::<T>(&b));
    way!("Reader::decode", &b, w, Reader::new(&b).decode::<T>());
    way!("Reader::decode_one", &b, rest(n, tail), Reader::new(&b).decode_one::<T>());
    way!("exact_decodable_slice", &b, w, Reader::new(&b).exact_decodable_slice::<T>());
    way!("exact_decodable_data", &b, w, Reader::new(&b).exact_decodable_data::<T>());
    way!("decode of CborDataOf", &b, w, decode_from_bytes::<CborDataOf<T>>(&e));
    // by a reader that has read something before
    let mut p = vec![0x19, 0x01, 0x00, 0x61, 0x61];
    p.extend_from_slice(&b);
    let later = || -> Result<Reader, ReaderError> {
        let mut r = Reader::new(&p);
        r.positive()?;
        r.text()?;
        Ok(r)
    };
    let r = || later().map_err(|x| format!("two good items of {} refused: {:?}", hex(&p), x));
    way!("a later Reader::decode", &b, w, r()?.decode::<T>());
    way!("a later Reader::decode_one", &b, rest(n + 5, tail), r()?.decode_one::<T>());
    way!("a later exact_decodable_slice", &b, w, r()?.exact_decodable_slice::<T>());
    way!("a later exact_decodable_data", &b, w, r()?.exact_decodable_data::<T>());
    if w.is_none() {
        let mut r = r()?;
        let _ = r.decode::<T>();
        let x = r.expect_finished();
        let real = tail.first().map(|x| Rest(tail.len(), Some((n + 5, *x))));
        let d = || format!("{:?}", x);
        same("expect_finished after the decoding", T::NAME, &p, &real, x.as_ref().map(|_| ()).map_err(|e| reader_why(e)), &d)?;
    }
    // as an element, in a tag, as raw data
    let mut arr = vec![0x82];
    arr.extend_from_slice(&e);
    arr.push(0);
    let a = Reader::new(&arr).array().map_err(|x| format!("array() refused {}: {:?}", hex(&arr), x))?;
    let s = a[0];
    way!("CborSlice::decode", &e, w, s.decode::<T>());
    way!("CborSlice::validate_as", &e, w, s.validate_as::<T>());
    let d = s.to_owned();
    way!("CborData::decode", &e, w, d.decode::<T>());
    way!("CborData::validate_as", &e, w, d.validate_as::<T>());
    let mut t = vec![0xda, 1, 2, 3, 4];
    t.extend_from_slice(&e);
    let g = Reader::new(&t).tag().map_err(|x| format!("tag() refused {}: {:?}", hex(&t), x))?;
    way!("Tag::decode_data", &e, w, g.decode_data::<T>());
    // raw bytes that hold more than the item
    let raw = Writer::new_from_vec(b.clone()).finalize_data();
    way!("CborData::decode", &b, rest(n, tail), raw.decode::<T>());
    way!("CborData::validate_as", &b, rest(n, tail), raw.validate_as::<T>());
    let s: &CborSlice = raw.borrow();
    way!("CborSlice::decode", &b, rest(n, tail), s.decode::<T>());
    way!("CborSlice::validate_as", &b, rest(n, tail), s.validate_as::<T>());
    // among others
    let v = vec![0x81; 1].into_iter().chain(e.iter().copied()).collect::<Vec<u8>>();
    way!("decode_vec", &v, w, decode_vec::<T>(&mut Reader::new(&v)));
    match w {
        None => cx.label_if(true, "accepted"),
        Some(w) => cx.label(match w {
            Type(..) => "type",
            Tag(..) => "tag",
            Length(..) => "length",
            Range(..) => "range",
            Utf8(_) => "UTF-8",
            Rest(..) => "rest",
            Or(..) => "either",
        }),
    }
    Ok(())
}
fn typed(it: &Item) -> R {
    let b = it.to_vec();
    let g = ty_of(it);
    use cbored::Type as T;
    macro_rules! typed {
        ($($m:ident: $($t:ident)|+;)*) => {$({
            let own = [$(T::$t),+];
            if !own.contains(&g) {
                let mut r = Reader::new(&b);
                let x = r.$m().map(|_| ());
                let d = || format!("{:?}", x);
                let real = Some(Type(own.to_vec(), g));
                same(concat!("Reader::", stringify!($m)), "a reader", &b, &real, x.as_ref().map(|_| ()).map_err(|e| reader_why(e)), &d)?;
                ensure_eq!(r.consumed_bytes(), 0, concat!("consumed by a refused Reader::", stringify!($m)));
            }
        })*};
    }
    typed! {
        positive: Positive;
        negative: Negative;
        scalar: Positive | Negative;
        byte: Byte;
        float: Float;
        constant: False | True | Null | Undefined;
        null: Null;
        undefined: Undefined;
        bool: False | True;
        bytes: Bytes;
        text: Text;
        array: Array;
        map: Map;
        tag: Tag;
    }
    Ok(())
}
fn read_ext(it: &Item) -> R {
    let b = it.to_vec();
    macro_rules! ext {
        ($($t:ident)*) => {$({
            let x = $t::read(&mut Reader::new(&b)).map(|_| ());
            let d = || format!("{:?}", x);
            same(concat!(stringify!($t), "::read"), "a tagged extension", &b, &$t::why(it), x.as_ref().map(|_| ()).map_err(|e| reader_why(e)), &d)?;
        })*};
    }
    ext!(StandardDateTime PositiveBignum NegativeBignum EncodedCBOR RationalNumber);
    Ok(())
}
fn all(it: &Item, tail: &[u8], cx: &mut Cx) -> R {
    typed(it)?;
    read_ext(it)?;
    macro_rules! ask {
        ($($t:ty,)*) => {$(asked::<$t>(it, tail, cx)?;)*};
    }
    ask!(
        DataOwned, bool, u8, u16, u32, u64, String, Vec<u8>, [u8; 0], [u8; 1], [u8; 4], [u8; 32], Scalar, StandardDateTime,
        PositiveBignum, NegativeBignum, EncodedCBOR, RationalNumber, VecOf<u8>, VecOf<String>, VecOf<VecOf<bool>>,
        VecOf<RationalNumber>,
    );
    // types that leave something, or everything
    let e = it.to_vec();
    let raw = Writer::new_from_vec(e.clone()).finalize_data();
    let s: &CborSlice = raw.borrow();
    let none = Some(Rest(e.len(), Some((0, e[0]))));
    macro_rules! left {
        ($($what:literal $x:expr;)*) => {$({
            let x = $x.map(|_| ());
            let d = || format!("{:?}", x);
            same($what, "a type that reads nothing", &e, &none, x.as_ref().map(|_| ()).map_err(|e| decode_why(e)), &d)?;
        })*};
    }
    left! {
        "decode_from_bytes" decode_from_bytes::<Nothing>(&e);
        "decode_one" Reader::new(&e).decode_one::<Nothing>();
        "exact_decodable_slice" Reader::new(&e).exact_decodable_slice::<Nothing>();
        "exact_decodable_data" Reader::new(&e).exact_decodable_data::<Nothing>();
        "CborDataOf" decode_from_bytes::<CborDataOf<Nothing>>(&e);
        "CborData::decode" raw.decode::<Nothing>();
        "CborData::validate_as" raw.validate_as::<Nothing>();
        "CborSlice::decode" s.decode::<Nothing>();
        "CborSlice::validate_as" s.validate_as::<Nothing>();
    }
    Ok(())
}

fn wrap(s: &mut Src, it: Item) -> Item {
    match s.weighted(&[6, 3, 2]) {
        0 => it,
        1 => {
            let mut v = vec![it];
            while v.len() < 4 && s.chance(120) {
                v.push(gen::item(s, gen::SMALL))
            }
            if s.bool() {
                v.reverse()
            }
            Item::Array(gen::len_repr(s, v.len()), v)
        }
        _ => {
            let t = *s.pick(&[0u64, 1, 2, 3, 4, 24, 30, 31]);
            Item::tag(t, it)
        }
    }
}
fn c27_case(s: &mut Src, cx: &mut Cx) -> R {
    let mut it = match s.weighted(&[5, 5, 5, 3]) {
        0 => gen::item(s, gen::ANYTEXT),
        1 => gen::near_tagged(s),
        2 => {
            let w = s.idx(5);
            gen::tagged(s, w)
        }
        _ => {
            let k = s.idx(4);
            let v = (0..k).map(|_| gen::near_tagged(s)).collect();
            Item::Array(gen::len_repr(s, k), v)
        }
    };
    if s.chance(90) {
        it = wrap(s, it)
    }
    let tail = if s.bool() { gen::soup(s) } else { vec![] };
    let mut b = it.to_vec();
    b.extend_from_slice(&tail);
    cx.input(&b);
    cx.nontrivial_if(it.has_children() || matches!(it, Item::Bytes(_) | Item::Text(_)));
    cx.describe(|| format!("{} then {}", short(&it), hex(&tail)));
    all(&it, &tail, cx)
}
fn palette() -> Vec<Item> {
    let mut v = vec![
        Item::uint(0), Item::uint(255), Item::uint(256), Item::uint(65535), Item::uint(65536), Item::uint(u32::MAX as u64), Item::uint(1 << 32),
        Item::uint(u64::MAX), Item::Uint(W::B8, 7), Item::nint(0), Item::nint(u64::MAX), Item::bytes(b""), Item::bytes(b"\xff"),
        Item::bytes(b"1234"), Item::bytes(&[7; 32]), Item::Bytes(Str::Chunks(vec![])),
        Item::Bytes(Str::Chunks(vec![(W::Imm, vec![1, 2]), (W::B1, vec![3, 4])])), Item::text(""), Item::text("2013"),
        Item::Text(Str::Def(W::Imm, vec![0x61, 0xff])), Item::Text(Str::Chunks(vec![(W::Imm, vec![0xc3]), (W::Imm, vec![0xa9])])),
        Item::Text(Str::Def(W::B1, vec![0x61, 0xe2, 0x82])), Item::array(vec![]), Item::map(vec![]), Item::Array(None, vec![]),
        Item::Map(None, vec![]), Item::Simple { imm: true, v: 0 }, Item::Simple { imm: false, v: 20 }, Item::Const(20), Item::Const(21),
        Item::Const(22), Item::Const(23), Item::F16(0), Item::F32(0), Item::F64(0),
    ];
    for i in 0..v.len() {
        if i % 4 == 1 {
            v.push(Item::tag(7, v[i].clone()));
            v.push(Item::array(vec![v[i].clone()]));
        }
    }
    v.push(Item::tag(2, Item::bytes(b"\x01")));
    v.push(Item::tag(3, Item::bytes(b"\x01")));
    v.push(Item::tag(2, Item::uint(1)));
    v.push(Item::tag(3, Item::text("x")));
    v.push(Item::map(vec![(Item::uint(1), Item::uint(2))]));
    v
}
const TAGS: [u64; 10] = [0, 1, 2, 3, 4, 23, 24, 30, 31, u64::MAX];
fn c27_enum_n(_: Tier) -> u64 {
    let n = palette().len() as u64;
    n + TAGS.len() as u64 * n + 3 * n * n
}
/// every item of a palette, alone, in every tag, and every pair of them in an array, a rational
/// number, and one too many
fn c27_enum(i: u64, cx: &mut Cx) -> R {
    let p = palette();
    let n = p.len() as u64;
    let it = if i < n {
        p[i as usize].clone()
    } else if i < n + TAGS.len() as u64 * n {
        let i = i - n;
        Item::tag(TAGS[(i / n) as usize], p[(i % n) as usize].clone())
    } else {
        let i = i - n - TAGS.len() as u64 * n;
        let (a, b) = (p[(i / n % n) as usize].clone(), p[(i % n) as usize].clone());
        match i / n / n {
            0 => Item::array(vec![a, b]),
            1 => Item::tag(30, Item::array(vec![a, b])),
            _ => Item::tag(30, Item::Array(None, vec![a, b.clone(), b])),
        }
    };
    cx.input(&it.to_vec());
    cx.nontrivial_if(true);
    cx.describe(|| short(&it));
    all(&it, if i % 2 == 0 { &[] } else { &[0xff, 0x1c, 0] }, cx)
}
pub const C27: Prop = Prop {
    id: "C27",
    rule: "the item is a string, a container or a tag, asked for as 22 types by 21 ways; distinct by input",
    assumptions: &["which mismatch comes first is computed in refusals.rs from the documented shape of each type"],
    enum_n: c27_enum_n,
    enum_case: c27_enum,
    case: c27_case,
    quick: 30_000,
    thorough: 3_000_000,
};
