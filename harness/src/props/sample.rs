//! What decoding a type from a sequence of items must do, stated on the reference items.
use crate::refcbor::*;
use cbored::tagged::*;
use cbored::*;

pub trait Sample: Decode + Encode + std::fmt::Debug + 'static {
    const NAME: &'static str;
    /// number of items that decoding takes from the front of these, or None when it fails
    fn takes(items: &[Item]) -> Option<usize>;
    /// encoding of the value decoded from the front of these (decoding succeeds)
    fn expect(items: &[Item]) -> Vec<u8>;
}
fn one(items: &[Item], f: impl FnOnce(&Item) -> bool) -> Option<usize> {
    match items.first() {
        Some(i) if f(i) => Some(1),
        _ => None,
    }
}
impl Sample for DataOwned {
    const NAME: &'static str = "DataOwned";
    fn takes(items: &[Item]) -> Option<usize> {
        one(items, |i| i.own_text_ok())
    }
    fn expect(items: &[Item]) -> Vec<u8> {
        items[0].to_vec()
    }
}
impl Sample for bool {
    const NAME: &'static str = "bool";
    fn takes(items: &[Item]) -> Option<usize> {
        one(items, |i| matches!(i, Item::Const(20 | 21)))
    }
    fn expect(items: &[Item]) -> Vec<u8> {
        items[0].to_vec()
    }
}
macro_rules! uint {
    ($($t:ident)*) => {$(
        impl Sample for $t {
            const NAME: &'static str = stringify!($t);
            fn takes(items: &[Item]) -> Option<usize> {
                one(items, |i| matches!(i, Item::Uint(_, v) if *v <= $t::MAX as u64))
            }
            fn expect(items: &[Item]) -> Vec<u8> {
                match &items[0] {
                    Item::Uint(_, v) => Item::uint(*v).to_vec(),
                    _ => vec![],
                }
            }
        }
    )*};
}
uint!(u8 u16 u32 u64);
impl Sample for String {
    const NAME: &'static str = "String";
    fn takes(items: &[Item]) -> Option<usize> {
        one(items, |i| matches!(i, Item::Text(s) if s.utf8_ok()))
    }
    fn expect(items: &[Item]) -> Vec<u8> {
        match &items[0] {
            Item::Text(s) => Item::Text(Str::canonical(&s.concat())).to_vec(),
            _ => vec![],
        }
    }
}
impl Sample for Vec<u8> {
    const NAME: &'static str = "Vec<u8>";
    fn takes(items: &[Item]) -> Option<usize> {
        one(items, |i| matches!(i, Item::Bytes(_)))
    }
    fn expect(items: &[Item]) -> Vec<u8> {
        match &items[0] {
            Item::Bytes(s) => Item::Bytes(Str::canonical(&s.concat())).to_vec(),
            _ => vec![],
        }
    }
}
impl<const N: usize> Sample for [u8; N] {
    const NAME: &'static str = "[u8; N]";
    fn takes(items: &[Item]) -> Option<usize> {
        one(items, |i| matches!(i, Item::Bytes(s) if s.concat().len() == N))
    }
    fn expect(items: &[Item]) -> Vec<u8> {
        <Vec<u8>>::expect(items)
    }
}
impl Sample for Scalar {
    const NAME: &'static str = "Scalar";
    fn takes(items: &[Item]) -> Option<usize> {
        one(items, |i| matches!(i, Item::Uint(..) | Item::Nint(..)))
    }
    fn expect(items: &[Item]) -> Vec<u8> {
        items[0].to_vec()
    }
}
impl<T: Sample> Sample for CborDataOf<T> {
    const NAME: &'static str = "CborDataOf<T>";
    fn takes(items: &[Item]) -> Option<usize> {
        if items.is_empty() || T::takes(&items[..1]) != Some(1) {
            return None;
        }
        Some(1)
    }
    fn expect(items: &[Item]) -> Vec<u8> {
        items[0].to_vec()
    }
}

// ---- tagged extensions

pub fn tagged_string(i: &Item, tag: u64, text: bool) -> Option<&Str> {
    match i {
        Item::Tag(_, t, c) if *t == tag => match &**c {
            Item::Bytes(s) if !text => Some(s),
            Item::Text(s) if text && s.utf8_ok() => Some(s),
            _ => None,
        },
        _ => None,
    }
}
pub fn rational(i: &Item) -> Option<(&Item, &Item)> {
    let Item::Tag(_, 30, c) = i else { return None };
    let Item::Array(_, v) = &**c else { return None };
    let [n, d] = &v[..] else { return None };
    let num = match n {
        Item::Uint(..) | Item::Nint(..) => true,
        n => tagged_string(n, 2, false).is_some() || tagged_string(n, 3, false).is_some(),
    };
    let den = match d {
        Item::Uint(..) => true,
        d => tagged_string(d, 2, false).is_some(),
    };
    (num && den).then_some((n, d))
}
macro_rules! tagged {
    ($t:ident, $f:expr) => {
        impl Sample for $t {
            const NAME: &'static str = stringify!($t);
            fn takes(items: &[Item]) -> Option<usize> {
                one(items, $f)
            }
            fn expect(items: &[Item]) -> Vec<u8> {
                items[0].to_vec()
            }
        }
    };
}
tagged!(StandardDateTime, |i| tagged_string(i, 0, true).is_some());
tagged!(PositiveBignum, |i| tagged_string(i, 2, false).is_some());
tagged!(NegativeBignum, |i| tagged_string(i, 3, false).is_some());
tagged!(EncodedCBOR, |i| tagged_string(i, 24, false).is_some());
tagged!(RationalNumber, |i| rational(i).is_some());

// ---- user types that do not take exactly one item

/// reads nothing
#[derive(Debug, PartialEq)]
pub struct Nothing;
impl Decode for Nothing {
    fn decode<'a>(_: &mut Reader<'a>) -> Result<Self, DecodeError> {
        Ok(Nothing)
    }
}
impl Encode for Nothing {
    fn encode(&self, _: &mut Writer) {}
}
impl Sample for Nothing {
    const NAME: &'static str = "a type that reads nothing";
    fn takes(_: &[Item]) -> Option<usize> {
        Some(0)
    }
    fn expect(_: &[Item]) -> Vec<u8> {
        vec![]
    }
}
/// reads two items
#[derive(Debug, PartialEq)]
pub struct Two(DataOwned, DataOwned);
impl Decode for Two {
    fn decode<'a>(r: &mut Reader<'a>) -> Result<Self, DecodeError> {
        Ok(Two(r.decode()?, r.decode()?))
    }
}
impl Encode for Two {
    fn encode(&self, w: &mut Writer) {
        w.encode(&self.0);
        w.encode(&self.1)
    }
}
impl Sample for Two {
    const NAME: &'static str = "a type that reads two items";
    fn takes(items: &[Item]) -> Option<usize> {
        match items {
            [a, b, ..] if a.own_text_ok() && b.own_text_ok() => Some(2),
            _ => None,
        }
    }
    fn expect(items: &[Item]) -> Vec<u8> {
        let mut v = items[0].to_vec();
        items[1].enc(&mut v);
        v
    }
}
/// reads a boolean when there is one, and otherwise nothing
#[derive(Debug, PartialEq)]
pub struct MaybeBool(Option<bool>);
impl Decode for MaybeBool {
    fn decode<'a>(r: &mut Reader<'a>) -> Result<Self, DecodeError> {
        if r.is_finished() {
            return Ok(MaybeBool(None));
        }
        Ok(MaybeBool(r.bool().ok()))
    }
}
impl Encode for MaybeBool {
    fn encode(&self, w: &mut Writer) {
        if let Some(b) = self.0 {
            w.bool(b)
        }
    }
}
impl Sample for MaybeBool {
    const NAME: &'static str = "a type that reads a boolean or nothing";
    fn takes(items: &[Item]) -> Option<usize> {
        Some(bool::takes(items).unwrap_or(0))
    }
    fn expect(items: &[Item]) -> Vec<u8> {
        if bool::takes(items).is_some() {
            items[0].to_vec()
        } else {
            vec![]
        }
    }
}
/// a vector through the helpers
#[derive(Debug, PartialEq)]
pub struct VecOf<T>(pub Vec<T>);
impl<T: Decode> Decode for VecOf<T> {
    fn decode<'a>(r: &mut Reader<'a>) -> Result<Self, DecodeError> {
        decode_vec(r).map(VecOf)
    }
}
impl<T: Encode> Encode for VecOf<T> {
    fn encode(&self, w: &mut Writer) {
        encode_vec(&self.0, w)
    }
}
/// only for element types that take exactly one item
impl<T: Sample> Sample for VecOf<T> {
    const NAME: &'static str = "a vector (decode_vec)";
    fn takes(items: &[Item]) -> Option<usize> {
        one(items, |i| match i {
            Item::Array(_, v) => v.iter().all(|x| T::takes(std::slice::from_ref(x)) == Some(1)),
            _ => false,
        })
    }
    fn expect(items: &[Item]) -> Vec<u8> {
        let mut o = Vec::new();
        if let Item::Array(_, v) = &items[0] {
            head_min(&mut o, 4, v.len() as u64);
            for x in v {
                o.extend(T::expect(std::slice::from_ref(x)))
            }
        }
        o
    }
}

/// `$m!(T $($args)*)` for each sample type
#[macro_export]
macro_rules! for_each_sample {
    ($m:ident) => {
        $m!(DataOwned);
        $m!(bool);
        $m!(u8);
        $m!(u16);
        $m!(u32);
        $m!(u64);
        $m!(String);
        $m!(Vec<u8>);
        $m!([u8; 0]);
        $m!([u8; 4]);
        $m!(cbored::Scalar);
        $m!(CborDataOf<DataOwned>);
        $m!(CborDataOf<u64>);
        $m!(CborDataOf<Nothing>);
        $m!(CborDataOf<CborDataOf<String>>);
        $m!(StandardDateTime);
        $m!(PositiveBignum);
        $m!(NegativeBignum);
        $m!(EncodedCBOR);
        $m!(RationalNumber);
        $m!(VecOf<DataOwned>);
        $m!(VecOf<u16>);
        $m!(VecOf<VecOf<bool>>);
        $m!(Nothing);
        $m!(Two);
        $m!(MaybeBool);
    };
}
