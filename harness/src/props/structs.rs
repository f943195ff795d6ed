//! C13, C14, C19: elements, owned and borrowed forms, tagged extensions.
use super::sample::*;
use crate::engine::{Cx, Prop, Tier, R};
use crate::gen;
use crate::refcbor::*;
use crate::tape::Src;
use crate::view::*;
use crate::{ensure, ensure_eq};
use cbored::tagged::*;
use cbored::validate::Validator;
use cbored::*;
use std::borrow::Borrow;
use std::cell::RefCell;

// ---- C13 ------------------------------------------------------------------------------------

/// a reader over exactly one item, not read yet
fn fresh(r: &Reader, e: &[u8], what: &str, i: usize) -> R {
    ensure!(
        r.consumed_bytes() == 0 && r.remaining_bytes() == e.len() && !r.is_finished(),
        "{} {}: a reader at {} with {} bytes remaining, for {}",
        what, i, r.consumed_bytes(), r.remaining_bytes(), hex(e)
    );
    Ok(())
}
/// a reader gives exactly this item and then nothing
fn exactly(mut r: Reader, it: &Item, e: &[u8], what: &str, i: usize) -> R {
    reads_exactly(&mut r, it, e, what, i)
}
fn reads_exactly(r: &mut Reader, it: &Item, e: &[u8], what: &str, i: usize) -> R {
    fresh(r, e, what, i)?;
    if it.own_text_ok() {
        let d = r.exact_decodable_slice::<DataOwned>().map_err(|x| format!("{} {}: {} refused: {:?}", what, i, hex(e), x))?;
        let u = d.untype();
        ensure!(u.as_ref() == e, "{} {}: reads as {}, expected {}", what, i, hex(u.as_ref()), hex(e));
        ensure!(r.is_finished() && r.expect_finished().is_ok(), "{} {}: bytes left", what, i);
    } else {
        ensure!(r.data().is_err(), "{} {}: text that is not UTF-8 accepted", what, i);
    }
    Ok(())
}
fn slice_is(s: &[u8], e: &[u8], what: &str, i: usize) -> R {
    ensure!(s == e, "{} {}: {} instead of {}", what, i, hex(s), hex(e));
    Ok(())
}
fn stop(i: usize) -> DecodeErrorKind {
    DecodeErrorKind::UnexpectedLength { expected: i, got: 777 }
}
fn stopped(e: &DecodeErrorKind, i: usize) -> bool {
    matches!(e, DecodeErrorKind::UnexpectedLength { expected, got: 777 } if *expected == i)
}
/// all the ways into an array
pub fn array_paths(a: &Array, w: Option<W>, v: &[Item], enc: &[Vec<u8>], at: usize) -> R {
    ensure_eq!(slen(a.struct_len()), w.map(|w| (w, v.len() as u64)), "array length representation");
    ensure_eq!(a.struct_len().is_indefinite(), w.is_none(), "is_indefinite");
    ensure_eq!(a.len(), v.len(), "array length");
    for (i, e) in enc.iter().enumerate() {
        slice_is(a[i].as_ref(), e, "array index", i)?;
        if i < 40 {
            exactly(a[i].reader(), &v[i], e, "reader of array index", i)?;
        }
    }
    let mut n = 0;
    for r in a.iter() {
        ensure!(n < v.len(), "array iteration goes beyond {} elements", v.len());
        exactly(r, &v[n], &enc[n], "array iteration", n)?;
        n += 1;
    }
    ensure_eq!(n, v.len(), "elements iterated");
    to_vec_paths(v, enc, at, "Array::to_vec", |f| a.to_vec(|r| f(r)))
}
pub fn array_owned_paths(a: &ArrayOwned, w: Option<W>, v: &[Item], enc: &[Vec<u8>], at: usize) -> R {
    ensure_eq!(slen(a.struct_len()), w.map(|w| (w, v.len() as u64)), "owned array length representation");
    ensure_eq!(a.len(), v.len(), "owned array length");
    for (i, e) in enc.iter().enumerate() {
        slice_is(a[i].as_ref(), e, "owned array index", i)?;
        if i < 40 {
            exactly(a[i].read(), &v[i], e, "reader of owned array index", i)?;
        }
    }
    let mut n = 0;
    for r in a.iter() {
        ensure!(n < v.len(), "owned array iteration goes beyond {} elements", v.len());
        exactly(r, &v[n], &enc[n], "owned array iteration", n)?;
        n += 1;
    }
    ensure_eq!(n, v.len(), "elements iterated (owned)");
    to_vec_paths(v, enc, at, "ArrayOwned::to_vec", |f| a.to_vec(|r| f(r)))
}
type ElemFn<'f> = &'f dyn Fn(&mut Reader) -> Result<u64, DecodeErrorKind>;
/// `to_vec` hands each element once and in order to the function, keeps the results in order, and
/// gives up at the first error
fn to_vec_paths(v: &[Item], enc: &[Vec<u8>], at: usize, what: &str, call: impl Fn(ElemFn) -> Result<Vec<u64>, DecodeErrorKind>) -> R {
    let seen: RefCell<(usize, R)> = RefCell::new((0, Ok(())));
    let good = |r: &mut Reader| {
        let mut s = seen.borrow_mut();
        let i = s.0;
        s.0 += 1;
        if s.1.is_ok() {
            s.1 = if i >= v.len() { Err(format!("{} goes beyond the end", what)) } else { reads_exactly(r, &v[i], &enc[i], what, i) };
        }
        Ok(i as u64 * 3)
    };
    let out = call(&good).map_err(|e| format!("{} failed by itself: {:?}", what, e))?;
    let (calls, res) = seen.replace((0, Ok(())));
    res?;
    ensure_eq!(calls, v.len(), "{}: calls", what);
    ensure!(out.len() == v.len() && out.iter().enumerate().all(|(i, x)| *x == i as u64 * 3), "{} gives {:?}", what, &out[..out.len().min(20)]);
    if !v.is_empty() {
        let at = at % v.len();
        let count = RefCell::new(0);
        let bad = |_: &mut Reader| {
            let i = *count.borrow();
            *count.borrow_mut() += 1;
            if i == at {
                Err(stop(i))
            } else {
                Ok(0)
            }
        };
        match call(&bad) {
            Err(e) if stopped(&e, at) => {}
            x => return Err(format!("{} with a function failing at {}: {:?}", what, at, x.map(|v| v.len()))),
        }
        ensure_eq!(*count.borrow(), at + 1, "{}: calls until the failure", what);
    }
    Ok(())
}
type PairFn<'f> = &'f dyn Fn(&mut Reader) -> Result<u64, DecodeErrorKind>;
#[allow(clippy::type_complexity)]
fn pairs_to_vec(
    v: &[(Item, Item)], enc: &[(Vec<u8>, Vec<u8>)], at: usize, what: &str,
    call: impl Fn(PairFn, PairFn) -> Result<Vec<(u64, u64)>, DecodeErrorKind>,
) -> R {
    let seen: RefCell<(usize, usize, R)> = RefCell::new((0, 0, Ok(())));
    let f = |r: &mut Reader| {
        let mut s = seen.borrow_mut();
        let i = s.0;
        s.0 += 1;
        if s.2.is_ok() {
            s.2 = if i >= v.len() { Err(format!("{} goes beyond the end", what)) } else { reads_exactly(r, &v[i].0, &enc[i].0, what, i) };
        }
        Ok(i as u64 * 5)
    };
    let g = |r: &mut Reader| {
        let mut s = seen.borrow_mut();
        let i = s.1;
        s.1 += 1;
        if s.2.is_ok() {
            s.2 = if i >= v.len() { Err(format!("{} goes beyond the end", what)) } else { reads_exactly(r, &v[i].1, &enc[i].1, what, i) };
        }
        Ok(i as u64 * 7)
    };
    let out = call(&f, &g).map_err(|e| format!("{} failed by itself: {:?}", what, e))?;
    let (a, b, res) = seen.replace((0, 0, Ok(())));
    res?;
    ensure_eq!((a, b), (v.len(), v.len()), "{}: calls", what);
    ensure!(
        out.len() == v.len() && out.iter().enumerate().all(|(i, x)| *x == (i as u64 * 5, i as u64 * 7)),
        "{} gives {:?}", what, &out[..out.len().min(20)]
    );
    if !v.is_empty() {
        for key in [true, false] {
            let at = at % v.len();
            let (k, x) = (RefCell::new(0), RefCell::new(0));
            let fail = |c: &RefCell<usize>, here: bool| {
                let i = *c.borrow();
                *c.borrow_mut() += 1;
                if here && i == at {
                    Err(stop(i))
                } else {
                    Ok(0)
                }
            };
            match call(&|_| fail(&k, key), &|_| fail(&x, !key)) {
                Err(e) if stopped(&e, at) => {}
                r => return Err(format!("{} with a function failing at {}: {:?}", what, at, r.map(|v| v.len()))),
            }
        }
    }
    Ok(())
}
pub fn map_paths(a: &Map, w: Option<W>, v: &[(Item, Item)], enc: &[(Vec<u8>, Vec<u8>)], at: usize) -> R {
    ensure_eq!(slen(a.struct_len()), w.map(|w| (w, v.len() as u64)), "map length representation");
    ensure_eq!(a.len(), v.len(), "map length");
    for (i, (k, x)) in enc.iter().enumerate() {
        slice_is(a[i].0.as_ref(), k, "map index, key", i)?;
        slice_is(a[i].1.as_ref(), x, "map index, value", i)?;
    }
    let (mut n, mut nk, mut nv) = (0, 0, 0);
    for (rk, rv) in a.iter() {
        ensure!(n < v.len(), "map iteration goes beyond {} pairs", v.len());
        exactly(rk, &v[n].0, &enc[n].0, "map iteration, key", n)?;
        exactly(rv, &v[n].1, &enc[n].1, "map iteration, value", n)?;
        n += 1;
    }
    for r in a.keys() {
        ensure!(nk < v.len(), "keys go beyond {} pairs", v.len());
        exactly(r, &v[nk].0, &enc[nk].0, "keys", nk)?;
        nk += 1;
    }
    for r in a.values() {
        ensure!(nv < v.len(), "values go beyond {} pairs", v.len());
        exactly(r, &v[nv].1, &enc[nv].1, "values", nv)?;
        nv += 1;
    }
    ensure_eq!((n, nk, nv), (v.len(), v.len(), v.len()), "pairs, keys, values iterated");
    pairs_to_vec(v, enc, at, "Map::to_vec", |f, g| a.to_vec(|r| f(r), |r| g(r)))
}
pub fn map_owned_paths(a: &MapOwned, w: Option<W>, v: &[(Item, Item)], enc: &[(Vec<u8>, Vec<u8>)], at: usize) -> R {
    ensure_eq!(slen(a.struct_len()), w.map(|w| (w, v.len() as u64)), "owned map length representation");
    ensure_eq!(a.len(), v.len(), "owned map length");
    let (mut n, mut nk, mut nv) = (0, 0, 0);
    for (rk, rv) in a.iter() {
        ensure!(n < v.len(), "owned map iteration goes beyond {} pairs", v.len());
        exactly(rk, &v[n].0, &enc[n].0, "owned map iteration, key", n)?;
        exactly(rv, &v[n].1, &enc[n].1, "owned map iteration, value", n)?;
        n += 1;
    }
    for r in a.keys() {
        ensure!(nk < v.len(), "owned keys go beyond {} pairs", v.len());
        exactly(r, &v[nk].0, &enc[nk].0, "owned keys", nk)?;
        nk += 1;
    }
    for r in a.values() {
        ensure!(nv < v.len(), "owned values go beyond {} pairs", v.len());
        exactly(r, &v[nv].1, &enc[nv].1, "owned values", nv)?;
        nv += 1;
    }
    ensure_eq!((n, nk, nv), (v.len(), v.len(), v.len()), "pairs, keys, values iterated (owned)");
    pairs_to_vec(v, enc, at, "MapOwned::to_vec", |f, g| a.to_vec(|r| f(r), |r| g(r)))
}
pub fn tag_paths(t: &Tag, w: W, tv: u64, c: &Item, e: &[u8]) -> R {
    ensure_eq!((t.value(), t.tag_repr().to_u64(), hv(t.tag_repr().raw_value())), (tv, tv, (w, tv)), "tag number");
    slice_is(t.data().as_ref(), e, "tag content", 0)?;
    exactly(t.reader(), c, e, "reader of a tag", 0)?;
    let mut res = Ok(());
    let got = t.read_data(|r| {
        res = fresh(r, e, "read_data of a tag", 0);
        r.data().map(|d| d.owned())
    });
    res?;
    ensure_eq!(got.is_ok(), c.own_text_ok(), "read_data of a tag around {}", hex(e));
    if c.own_text_ok() {
        let mut res = Ok(());
        let _ = t.read_data(|r| {
            res = reads_exactly(r, c, e, "read_data of a tag", 0);
            Ok(())
        });
        res?;
    }
    match t.decode_data::<DataOwned>() {
        Ok(d) => {
            check_data(&d.borrow(), c)?;
            if let Ok(g) = got {
                ensure!(g == d, "read_data and decode_data differ on {}", hex(e));
            }
        }
        Err(x) => ensure!(!c.own_text_ok(), "decode_data refused {}: {:?}", hex(e), x),
    }
    Ok(())
}
pub fn tag_owned_paths(t: &TagOwned, w: W, tv: u64, c: &Item, e: &[u8]) -> R {
    ensure_eq!((t.value(), t.tag_repr().to_u64(), hv(t.tag_repr().raw_value())), (tv, tv, (w, tv)), "owned tag number");
    slice_is(t.data().as_ref(), e, "owned tag content", 0)?;
    exactly(t.read_data(), c, e, "reader of an owned tag", 0)
}
/// a container, and everything below it (within the budget)
fn container(r: &mut Reader, q: &mut Reader, it: &Item, seed: usize, budget: &mut usize) -> R {
    let cost = it.nodes();
    if *budget == 0 {
        return Ok(());
    }
    *budget = budget.saturating_sub(cost);
    let at = seed.wrapping_mul(31).wrapping_add(cost);
    // by the generic read or by the specific one
    let err = |e: ReaderError| format!("{} refused: {:?}", short(it), e);
    match it {
        Item::Array(w, v) => {
            let enc: Vec<Vec<u8>> = v.iter().map(|i| i.to_vec()).collect();
            let a = r.array().map_err(err)?;
            array_paths(&a, *w, v, &enc, at)?;
            let Data::Array(b) = q.data().map_err(err)? else { return Err("another kind".into()) };
            array_paths(&b, *w, v, &enc, at)?;
            let o = a.owned();
            array_owned_paths(&o, *w, v, &enc, at)?;
            array_paths(&o.borrow(), *w, v, &enc, at)?;
            for ((mut r, i), e) in a.iter().zip(v).zip(&enc) {
                container(&mut r, &mut Reader::new(e), i, at, budget)?;
            }
        }
        Item::Map(w, v) => {
            let enc: Vec<(Vec<u8>, Vec<u8>)> = v.iter().map(|i| (i.0.to_vec(), i.1.to_vec())).collect();
            let a = r.map().map_err(err)?;
            map_paths(&a, *w, v, &enc, at)?;
            let Data::Map(b) = q.data().map_err(err)? else { return Err("another kind".into()) };
            map_paths(&b, *w, v, &enc, at)?;
            let o = a.owned();
            map_owned_paths(&o, *w, v, &enc, at)?;
            map_paths(&o.borrow(), *w, v, &enc, at)?;
            for (((mut rk, mut rv), (k, i)), (ek, ei)) in a.iter().zip(v).zip(&enc) {
                container(&mut rk, &mut Reader::new(ek), k, at, budget)?;
                container(&mut rv, &mut Reader::new(ei), i, at, budget)?;
            }
        }
        Item::Tag(w, n, c) => {
            let e = c.to_vec();
            let t = r.tag().map_err(err)?;
            tag_paths(&t, *w, *n, c, &e)?;
            let Data::Tag(b) = q.data().map_err(err)? else { return Err("another kind".into()) };
            tag_paths(&b, *w, *n, c, &e)?;
            let o = t.owned();
            tag_owned_paths(&o, *w, *n, c, &e)?;
            tag_paths(&o.borrow(), *w, *n, c, &e)?;
            container(&mut t.reader(), &mut Reader::new(&e), c, at, budget)?;
        }
        _ => return Ok(()),
    }
    // both reads end right after the container
    ensure_eq!(r.consumed_bytes(), q.consumed_bytes(), "the specific and the generic read of {} end elsewhere", short(it));
    Ok(())
}
/// the validator accepts each element alone, with its whole extent
fn elements_validate(it: &Item) -> R {
    let one = |i: &Item| -> R {
        let e = i.to_vec();
        let mut v = Validator::new(&e);
        match v.next() {
            Ok((d, n)) => ensure!(n == e.len() && d.as_ref() == &e[..], "validator on element {}: {} bytes", hex(&e), n),
            Err(x) => return Err(format!("validator refuses element {}: {:?}", hex(&e), x)),
        }
        Ok(())
    };
    match it {
        Item::Array(_, v) => v.iter().take(100).try_for_each(one),
        Item::Map(_, v) => v.iter().take(100).try_for_each(|(k, x)| one(k).and_then(|_| one(x))),
        Item::Tag(_, _, c) => one(c),
        _ => Ok(()),
    }
}
fn c13_case(s: &mut Src, cx: &mut Cx) -> R {
    let cfg = if s.chance(40) { gen::MEDIUM } else if s.bool() { gen::SMALL } else { gen::ANYTEXT };
    let k = 4 + s.idx(3);
    let it = gen::item_of_kind(s, k, cfg);
    let mut b = it.to_vec();
    let n = b.len();
    if s.bool() {
        b.extend(gen::soup(s))
    }
    let seed = s.idx(256);
    cx.input(&b);
    cx.nontrivial_if(it.has_children());
    cx.label(["array", "map", "tag"][k - 4]);
    cx.label_if(it.any(&mut |i| matches!(i, Item::Array(None, _) | Item::Map(None, _))), "indefinite container inside");
    cx.describe(|| format!("elements of {}", short(&it)));
    let mut r = Reader::new(&b);
    let mut budget = 4000;
    container(&mut r, &mut Reader::new(&b), &it, seed, &mut budget)?;
    ensure_eq!(r.consumed_bytes(), n, "consumed by {}", short(&it));
    elements_validate(&it)
}
const COUNTS: [usize; 42] = [
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 30, 31, 32, 33, 63, 64, 65, 127, 128,
    254, 255, 256, 257, 65535, 65536,
];
fn c13_enum_n(t: Tier) -> u64 {
    // count x length representation x array/map x palette
    C13_COUNTS + gen::shapes_n(t)
}
const C13_COUNTS: u64 = COUNTS.len() as u64 * 6 * 2 * 4;
fn c13_enum(i: u64, cx: &mut Cx) -> R {
    if i >= C13_COUNTS {
        let Some(it) = gen::shape(i - C13_COUNTS) else { return Ok(()) };
        if !matches!(it, Item::Array(..) | Item::Map(..) | Item::Tag(..)) {
            return Ok(());
        }
        let b = it.to_vec();
        cx.input(&b);
        cx.nontrivial_if(it.has_children());
        cx.describe(|| format!("shape {}", hex(&b)));
        let mut r = Reader::new(&b);
        let mut budget = 200;
        container(&mut r, &mut Reader::new(&b), &it, 1, &mut budget)?;
        ensure!(r.is_finished(), "bytes left after {}", hex(&b));
        return Ok(());
    }
    let n = COUNTS[(i % 42) as usize];
    let i = i / 42;
    let w = [None, Some(W::Imm), Some(W::B1), Some(W::B2), Some(W::B4), Some(W::B8)][(i % 6) as usize];
    let map = (i / 6) % 2 == 1;
    let palette = i / 12;
    if let Some(w) = w {
        if !w.holds(n as u64) {
            return Ok(());
        }
    }
    if n > 60000 && palette > 1 {
        return Ok(());
    }
    let el = |j: usize| match palette {
        0 => Item::uint(j as u64),
        1 => Item::nint(j as u64 * 3 + 1),
        2 => match j % 5 {
            0 => Item::Bytes(Str::Chunks(vec![(W::Imm, vec![j as u8]), (W::B1, vec![0xff])])),
            1 => Item::Array(None, vec![Item::uint(j as u64)]),
            2 => Item::Map(None, vec![(Item::null(), Item::uint(j as u64))]),
            3 => Item::Tag(W::B4, j as u64, Box::new(Item::Array(None, vec![]))),
            _ => Item::Text(Str::Chunks(vec![])),
        },
        _ => match j % 4 {
            0 => Item::text("é"),
            1 => Item::map(vec![]),
            2 => Item::F32(j as u32),
            _ => Item::array(vec![Item::array(vec![Item::uint(j as u64)])]),
        },
    };
    let it = if map {
        Item::Map(w, (0..n).map(|j| (el(2 * j), el(2 * j + 1))).collect())
    } else {
        Item::Array(w, (0..n).map(el).collect())
    };
    let b = it.to_vec();
    cx.input(&b);
    cx.nontrivial_if(n > 0);
    cx.describe(|| format!("{} elements: {}", n, hex(&b)));
    let mut r = Reader::new(&b);
    let mut budget = 1;
    container(&mut r, &mut Reader::new(&b), &it, n / 2, &mut budget)?;
    ensure!(r.is_finished(), "bytes left after {}", hex(&b));
    Ok(())
}
pub const C13: Prop = Prop {
    id: "C13",
    rule: "an array, map or tag with at least one element, walked by every access path, borrowed and owned, with everything below it; distinct by input",
    assumptions: &["whether to_vec checks that its function reads the whole element is not part of the property"],
    enum_n: c13_enum_n,
    enum_case: c13_enum,
    case: c13_case,
    quick: 60_000,
    thorough: 4_000_000,
};

// ---- C14 ------------------------------------------------------------------------------------

/// one small change, of a value or only of its representation
fn tweak(s: &mut Src, it: &mut Item) {
    match it {
        Item::Array(_, v) if !v.is_empty() && s.chance(150) => {
            let i = s.idx(v.len());
            return tweak(s, &mut v[i]);
        }
        Item::Map(_, v) if !v.is_empty() && s.chance(150) => {
            let i = s.idx(v.len());
            return if s.bool() { tweak(s, &mut v[i].0) } else { tweak(s, &mut v[i].1) };
        }
        Item::Tag(_, _, c) if s.chance(150) => return tweak(s, c),
        _ => {}
    }
    let other = |s: &mut Src, v: u64| if s.bool() { v ^ (1 << s.below(64)) } else { v.wrapping_add(1) };
    fn wider(s: &mut Src, w: W) -> W {
        let k = WIDTHS.iter().position(|x| *x == w).unwrap();
        WIDTHS[(k + 1 + s.idx(4)).min(4)]
    }
    fn string(s: &mut Src, x: &mut Str) {
        match x {
            Str::Def(w, c) => match s.idx(4) {
                0 => *w = wider(s, *w),
                1 => *x = Str::Chunks(vec![(*w, c.clone())]),
                2 => {
                    c.push(b'a');
                    *w = W::min(c.len() as u64).max(*w)
                }
                _ => {
                    if let Some(b) = c.last_mut().filter(|b| **b < 0x7f) {
                        *b += 1
                    }
                }
            },
            Str::Chunks(v) => match s.idx(5) {
                0 => v.push((W::Imm, vec![])),
                1 => {
                    v.pop();
                }
                2 => v.reverse(),
                3 => *x = Str::canonical(&x.concat()),
                _ => {
                    if let Some((w, _)) = v.last_mut() {
                        *w = wider(s, *w)
                    }
                }
            },
        }
    }
    match it {
        Item::Uint(w, v) | Item::Nint(w, v) => {
            if s.bool() {
                *w = wider(s, *w)
            } else {
                *v = other(s, *v);
                *w = W::min(*v).max(*w)
            }
            if s.chance(30) {
                *it = match it {
                    Item::Uint(w, v) => Item::Nint(*w, *v),
                    Item::Nint(w, v) => Item::Uint(*w, *v),
                    _ => Item::null(),
                }
            }
        }
        Item::Bytes(x) => {
            if s.chance(40) && x.utf8_ok() {
                *it = Item::Text(x.clone())
            } else {
                string(s, x)
            }
        }
        Item::Text(x) => {
            if s.chance(40) {
                *it = Item::Bytes(x.clone())
            } else {
                string(s, x)
            }
        }
        Item::Array(w, v) => {
            match s.idx(5) {
                0 => v.push(Item::uint(0)),
                1 => {
                    v.pop();
                }
                2 => v.reverse(),
                3 => *w = None,
                _ => *w = w.map(|w| wider(s, w)).or(Some(W::min(v.len() as u64))),
            }
            *w = w.map(|w| w.max(W::min(v.len() as u64)));
        }
        Item::Map(w, v) => {
            match s.idx(6) {
                0 => v.push((Item::uint(0), Item::uint(0))),
                1 => {
                    v.pop();
                }
                2 => v.reverse(),
                3 => v.iter_mut().for_each(|(k, x)| std::mem::swap(k, x)),
                4 => *w = None,
                _ => *w = w.map(|w| wider(s, w)).or(Some(W::min(v.len() as u64))),
            }
            *w = w.map(|w| w.max(W::min(v.len() as u64)));
        }
        Item::Tag(w, t, _) => {
            if s.bool() {
                *w = wider(s, *w)
            } else {
                *t = other(s, *t);
                *w = W::min(*t).max(*w)
            }
        }
        Item::Simple { imm, v } => {
            if *imm && s.bool() {
                *imm = false
            } else if *imm {
                *v = (*v + 1) % 20
            } else {
                *v = v.wrapping_add(1)
            }
        }
        Item::Const(c) => *c = 20 + (*c + 1 + s.byte() % 3) % 4,
        Item::F16(b) => {
            if s.bool() {
                *b ^= 1 << s.below(16)
            } else {
                *it = Item::F32(*b as u32)
            }
        }
        Item::F32(b) => {
            if s.bool() {
                *b ^= 1 << s.below(32)
            } else {
                *it = Item::F64(*b as u64)
            }
        }
        Item::F64(b) => *b ^= 1 << s.below(64),
    }
}
/// every accessor of a generic value, at all levels of borrowing
fn value_paths(d: &Data, it: &Item) -> R {
    check_data(d, it)?;
    match (d, it) {
        (Data::Array(a), Item::Array(w, v)) => array_paths(a, *w, v, &v.iter().map(|i| i.to_vec()).collect::<Vec<_>>(), 1),
        (Data::Map(a), Item::Map(w, v)) => {
            map_paths(a, *w, v, &v.iter().map(|i| (i.0.to_vec(), i.1.to_vec())).collect::<Vec<_>>(), 1)
        }
        (Data::Tag(t), Item::Tag(w, n, c)) => tag_paths(t, *w, *n, c, &c.to_vec()),
        _ => Ok(()),
    }
}
fn owned_paths(o: &DataOwned, it: &Item) -> R {
    value_paths(&o.borrow(), it)?;
    match (o, it) {
        (DataOwned::Array(a), Item::Array(w, v)) => array_owned_paths(a, *w, v, &v.iter().map(|i| i.to_vec()).collect::<Vec<_>>(), 1)?,
        (DataOwned::Map(a), Item::Map(w, v)) => {
            map_owned_paths(a, *w, v, &v.iter().map(|i| (i.0.to_vec(), i.1.to_vec())).collect::<Vec<_>>(), 1)?
        }
        (DataOwned::Tag(t), Item::Tag(w, n, c)) => tag_owned_paths(t, *w, *n, c, &c.to_vec())?,
        (DataOwned::Bytes(x), Item::Bytes(s)) => match (x, s) {
            (BytesOwned::Imm(d), Str::Def(w, c)) => {
                ensure_eq!((hv(d.value()), d.as_slice()), ((*w, c.len() as u64), &c[..]), "owned bytes");
                ensure_eq!((hv(d.borrow().value()), d.borrow().as_slice()), ((*w, c.len() as u64), &c[..]), "owned bytes, borrowed");
                ensure!(d.borrow().owned() == *d, "bytes data to owned and back");
            }
            (BytesOwned::Chunks(v), Str::Chunks(c)) => {
                ensure_eq!(v.len(), c.len(), "owned chunks");
                for (d, (w, c)) in v.iter().zip(c) {
                    ensure_eq!((hv(d.value()), d.as_slice()), ((*w, c.len() as u64), &c[..]), "owned chunk");
                    ensure!(d.borrow().owned() == *d, "bytes data to owned and back");
                }
            }
            _ => return Err(format!("definite/indefinite confused: {:?}", x)),
        },
        (DataOwned::Text(x), Item::Text(s)) => match (x, s) {
            (TextOwned::Imm(d), Str::Def(w, c)) => {
                ensure_eq!((hv(d.value()), d.as_str().as_bytes()), ((*w, c.len() as u64), &c[..]), "owned text");
                ensure!(d.borrow().owned() == *d, "text data to owned and back");
            }
            (TextOwned::Chunks(v), Str::Chunks(c)) => {
                ensure_eq!(v.len(), c.len(), "owned chunks");
                for (d, (w, c)) in v.iter().zip(c) {
                    ensure_eq!((hv(d.value()), d.as_str().as_bytes()), ((*w, c.len() as u64), &c[..]), "owned chunk");
                    ensure!(d.borrow().owned() == *d, "text data to owned and back");
                }
            }
            _ => return Err(format!("definite/indefinite confused: {:?}", x)),
        },
        _ => {}
    }
    Ok(())
}
fn encoded(d: &Data) -> Vec<u8> {
    let mut w = Writer::new();
    w.data(d);
    w.finalize()
}
/// the owned forms of the value by every way there is
fn owned_forms(b: &[u8], it: &Item) -> Result<Vec<(&'static str, DataOwned)>, String> {
    let err = |e: ReaderError| format!("{} refused: {:?}", short(it), e);
    let d = Reader::new(b).data().map_err(err)?;
    let o = d.owned();
    ensure!(o.borrow() == d, "owned and borrowed again differs: {}", short(it));
    ensure!(o.borrow().owned() == o, "borrowed and owned again differs: {}", short(it));
    ensure!(d.clone() == d && o.clone() == o, "a clone differs: {}", short(it));
    let mut v = vec![
        ("owned()", o.clone()),
        ("owned() of a clone", d.clone().owned()),
        ("clone of the owned", o.clone()),
        ("decode::<DataOwned>()", Reader::new(b).decode::<DataOwned>().map_err(|e| format!("{} refused: {:?}", short(it), e))?),
        ("borrowed and owned again", o.borrow().owned()),
    ];
    // the kinds' own types
    let mut r = Reader::new(b);
    match it {
        Item::Bytes(_) => {
            let x = r.bytes().map_err(err)?;
            ensure!(x.owned().borrow() == x && x.owned().borrow().owned() == x.owned(), "bytes to owned and back");
            v.push(("bytes().owned()", DataOwned::Bytes(x.owned())));
        }
        Item::Text(_) => {
            let x = r.text().map_err(err)?;
            ensure!(x.owned().borrow() == x && x.owned().borrow().owned() == x.owned(), "text to owned and back");
            v.push(("text().owned()", DataOwned::Text(x.owned())));
        }
        Item::Array(..) => {
            let x = r.array().map_err(err)?;
            ensure!(x.owned().borrow() == x && x.owned().borrow().owned() == x.owned(), "array to owned and back");
            v.push(("array().owned()", DataOwned::Array(x.owned())));
        }
        Item::Map(..) => {
            let x = r.map().map_err(err)?;
            ensure!(x.owned().borrow() == x && x.owned().borrow().owned() == x.owned(), "map to owned and back");
            v.push(("map().owned()", DataOwned::Map(x.owned())));
        }
        Item::Tag(..) => {
            let x = r.tag().map_err(err)?;
            ensure!(x.owned().borrow() == x && x.owned().borrow().owned() == x.owned(), "tag to owned and back");
            v.push(("tag().owned()", DataOwned::Tag(x.owned())));
        }
        _ => {}
    }
    Ok(v)
}
fn c14_enum_n(t: Tier) -> u64 {
    gen::shapes_n(t)
}
fn c14_enum(i: u64, cx: &mut Cx) -> R {
    let Some(it) = gen::shape(i) else { return Ok(()) };
    // small changes are found through the tape: here, the same, another representation, or the end changed
    let mut s = Src::quiet();
    let mut other = it.clone();
    match i % 4 {
        0 => {}
        1 => {
            other = match other {
                Item::Array(Some(_), v) => Item::Array(None, v),
                Item::Array(None, v) => Item::Array(Some(W::B8), v),
                Item::Map(Some(_), v) => Item::Map(None, v),
                Item::Map(None, v) => Item::Map(Some(W::B8), v),
                Item::Bytes(Str::Def(w, c)) => Item::Bytes(Str::Chunks(vec![(w, c)])),
                Item::Text(Str::Def(w, c)) => Item::Text(Str::Chunks(vec![(w, c)])),
                x => x,
            }
        }
        2 => last_leaf(&mut other),
        _ => tweak(&mut s, &mut other),
    }
    pair(&it, &other, ["copy", "other representation", "last leaf changed", "small change"][(i % 4) as usize], cx)
}
/// the very last thing in it is changed, the size is not
fn last_leaf(it: &mut Item) {
    match it {
        Item::Array(_, v) if !v.is_empty() => last_leaf(v.last_mut().unwrap()),
        Item::Map(_, v) if !v.is_empty() => last_leaf(&mut v.last_mut().unwrap().1),
        Item::Tag(_, _, c) => last_leaf(c),
        Item::Bytes(Str::Def(_, c)) | Item::Text(Str::Def(_, c)) if !c.is_empty() => *c.last_mut().unwrap() = b'!',
        Item::Bytes(Str::Chunks(v)) | Item::Text(Str::Chunks(v)) if v.last().map_or(false, |c| c.1.len() == 1) => v.last_mut().unwrap().1[0] = b'!',
        Item::Uint(_, v) if *v < 23 => *v += 1,
        Item::Const(c) => *c = 20 + (*c - 19) % 4,
        x => *x = Item::null(),
    }
}
fn c14_case(s: &mut Src, cx: &mut Cx) -> R {
    let mut cfg = if s.chance(30) { gen::MEDIUM } else { gen::SMALL };
    cfg.utf8 = s.bool();
    let k = s.idx(10);
    let mut it = if k == 9 { gen::item(s, cfg) } else { gen::item_of_kind(s, k, cfg) };
    if !it.own_text_ok() {
        it = Item::Array(None, vec![it]);
    }
    let mut other = it.clone();
    let how = s.idx(5);
    match how {
        0 => {}
        1 => other = gen::re_represent(s, &it, true),
        2 | 3 => {
            for _ in 0..1 + s.idx(2) {
                tweak(s, &mut other)
            }
        }
        _ => {
            let k = s.idx(10);
            other = if k == 9 { gen::item(s, gen::SMALL) } else { gen::item_of_kind(s, k, gen::SMALL) };
        }
    }
    pair(&it, &other, ["copy", "other representation", "small change", "small change", "unrelated"][how], cx)
}
/// forms of `it`, and their equality with `other`
fn pair(it: &Item, other: &Item, how: &'static str, cx: &mut Cx) -> R {
    let bytes = it.to_vec();
    let mut buf = bytes.clone();
    buf.extend_from_slice(&[0xff, 0x00]);
    cx.input(&bytes);
    // -- forms
    let mut forms = owned_forms(&buf, it)?;
    let raw = {
        let sl = Reader::new(&buf).exact_decodable_slice::<DataOwned>().map_err(|e| format!("{}: {:?}", short(it), e))?;
        let o = sl.to_owned();
        let u: &CborSlice = sl.untype();
        let uo = u.to_owned();
        let back: &CborSlice = uo.borrow();
        ensure!(back == u, "raw slice to owned and back: {}", short(it));
        ensure!(back.to_owned() == uo && uo.clone() == uo, "raw data borrowed and owned again: {}", short(it));
        (o, uo)
    };
    // -- the buffer goes away
    buf.iter_mut().for_each(|b| *b = 0xaa);
    let len = buf.len();
    drop(buf);
    let noise = vec![0x55u8; len];
    std::hint::black_box(&noise);
    for (what, o) in &forms {
        owned_paths(o, it).map_err(|e| format!("{} after the input is gone: {}", what, e))?;
        let mut w = Writer::new();
        w.encode(o);
        let e = w.finalize();
        ensure!(e == bytes, "{} is encoded as {} instead of {}", what, hex(&e), hex(&bytes));
        ensure!(encoded(&o.borrow()) == bytes, "{}, borrowed, is encoded as {}", what, hex(&encoded(&o.borrow())));
    }
    ensure!(AsRef::<[u8]>::as_ref(&raw.0) == &bytes[..] && raw.1.as_ref() == &bytes[..], "owned raw data after the input is gone");
    check_data(&raw.0.unserialize().borrow(), it)?;
    check_data(&raw.1.read().data().map_err(|e| format!("{:?}", e))?, it)?;
    // -- equality with another value
    if !other.own_text_ok() {
        return Ok(());
    }
    let ob = other.to_vec();
    cx.input(&ob);
    let same = ob == bytes;
    cx.nontrivial_if(bytes.len() > 1 || !same);
    cx.label(if same { "equal pair" } else { "different pair" });
    cx.label(how);
    cx.describe(|| format!("{} against {}", hex(&bytes), hex(&ob)));
    let d = Reader::new(&ob).data().map_err(|e| format!("{} refused: {:?}", hex(&ob), e))?;
    for (what, o) in forms.drain(..) {
        let b = o.borrow();
        ensure!((b == d) == same && (d == b) == same && (b != d) != same, "{} of {} and {} compare wrongly", what, hex(&bytes), hex(&ob));
        ensure!((o == d.owned()) == same && (d.owned() == o) == same, "owned {} and {} compare wrongly", hex(&bytes), hex(&ob));
        macro_rules! typed {
            ($($k:ident)*) => {
                match (&b, &d) {
                    $((Data::$k(x), Data::$k(y)) => {
                        ensure!((x == y) == same && (y == x) == same, "{} and {} compare wrongly as {}", hex(&bytes), hex(&ob), stringify!($k));
                    })*
                    _ => {}
                }
            };
        }
        typed!(Positive Negative Bytes Text Array Map Tag Float Byte);
        match (&o, &d.owned()) {
            (DataOwned::Bytes(x), DataOwned::Bytes(y)) => ensure!((x == y) == same, "owned bytes {} and {}", hex(&bytes), hex(&ob)),
            (DataOwned::Text(x), DataOwned::Text(y)) => ensure!((x == y) == same, "owned text {} and {}", hex(&bytes), hex(&ob)),
            (DataOwned::Array(x), DataOwned::Array(y)) => ensure!((x == y) == same, "owned arrays {} and {}", hex(&bytes), hex(&ob)),
            (DataOwned::Map(x), DataOwned::Map(y)) => ensure!((x == y) == same, "owned maps {} and {}", hex(&bytes), hex(&ob)),
            (DataOwned::Tag(x), DataOwned::Tag(y)) => ensure!((x == y) == same, "owned tags {} and {}", hex(&bytes), hex(&ob)),
            _ => {}
        }
    }
    let o = Writer::new_from_vec(ob.clone()).finalize_data();
    ensure!((raw.1 == o) == same, "raw data {} and {} compare wrongly", hex(&bytes), hex(&ob));
    let (x, y): (&CborSlice, &CborSlice) = (raw.1.borrow(), o.borrow());
    ensure!((x == y) == same, "raw slices {} and {} compare wrongly", hex(&bytes), hex(&ob));
    let y = o.validate_as::<DataOwned>().map_err(|e| format!("{:?}", e))?;
    ensure!((raw.0 == y) == same, "raw typed data {} and {} compare wrongly", hex(&bytes), hex(&ob));
    Ok(())
}
pub const C14: Prop = Prop {
    id: "C14",
    rule: "a value of at least two bytes in each owned and borrowed form, or a pair of different values, compared in every form; distinct by the pair",
    assumptions: &[],
    enum_n: c14_enum_n,
    enum_case: c14_enum,
    case: c14_case,
    quick: 120_000,
    thorough: 8_000_000,
};

// ---- C19 ------------------------------------------------------------------------------------

trait Ext: Sample + Clone + PartialEq {
    fn read_it(r: &mut Reader) -> Result<Self, ReaderError>;
    /// the contents it gives access to are those of the item
    fn contents(&self, it: &Item) -> R;
}
fn inner(it: &Item) -> Vec<u8> {
    match it {
        Item::Tag(_, _, c) => match &**c {
            Item::Bytes(s) | Item::Text(s) => s.concat(),
            _ => vec![],
        },
        _ => vec![],
    }
}
impl Ext for StandardDateTime {
    fn read_it(r: &mut Reader) -> Result<Self, ReaderError> {
        StandardDateTime::read(r)
    }
    fn contents(&self, it: &Item) -> R {
        // no accessor; a value differing in the text is another value
        let mut o = it.clone();
        if let Item::Tag(_, _, c) = &mut o {
            if let Item::Text(s) = &mut **c {
                let mut t = s.concat();
                t.push(b'Z');
                *s = Str::canonical(&t);
            }
        }
        let x = decode_from_bytes::<StandardDateTime>(&o.to_vec()).map_err(|e| format!("{} refused: {:?}", short(&o), e))?;
        ensure!(x != *self, "{} and {} are equal", short(it), short(&o));
        Ok(())
    }
}
impl Ext for PositiveBignum {
    fn read_it(r: &mut Reader) -> Result<Self, ReaderError> {
        PositiveBignum::read(r)
    }
    fn contents(&self, it: &Item) -> R {
        ensure!(self.to_be_bytes() == inner(it), "positive bignum {} from {}", hex(&self.to_be_bytes()), short(it));
        Ok(())
    }
}
impl Ext for NegativeBignum {
    fn read_it(r: &mut Reader) -> Result<Self, ReaderError> {
        NegativeBignum::read(r)
    }
    fn contents(&self, it: &Item) -> R {
        ensure!(self.to_be_bytes() == inner(it), "negative bignum {} from {}", hex(&self.to_be_bytes()), short(it));
        Ok(())
    }
}
impl Ext for EncodedCBOR {
    fn read_it(r: &mut Reader) -> Result<Self, ReaderError> {
        EncodedCBOR::read(r)
    }
    fn contents(&self, it: &Item) -> R {
        let c = inner(it);
        ensure!(self.to_bytes() == c, "embedded CBOR {} from {}", hex(&self.to_bytes()), short(it));
        let made = EncodedCBOR::from_bytes(&c);
        ensure!(made.to_bytes() == c, "from_bytes changes {}", hex(&c));
        let e = encode_to_bytes(&made);
        let exp = Item::tag(24, Item::bytes(&c)).to_vec();
        ensure!(e == exp, "from_bytes is encoded as {} instead of {}", hex(&e), hex(&exp));
        let back = decode_from_bytes::<EncodedCBOR>(&e).map_err(|x| format!("own encoding {} refused: {:?}", hex(&e), x))?;
        ensure!(back == made, "embedded CBOR differs after a round trip: {}", hex(&e));
        ensure_eq!(made == *self, exp == it.to_vec(), "equality of embedded CBOR {} and {}", hex(&exp), short(it));
        Ok(())
    }
}
impl Ext for RationalNumber {
    fn read_it(r: &mut Reader) -> Result<Self, ReaderError> {
        RationalNumber::read(r)
    }
    fn contents(&self, it: &Item) -> R {
        let (n, d) = rational(it).ok_or("not a rational")?;
        match (self.numerator(), n) {
            (RationalNumerator::Positive(p), Item::Uint(w, v)) => ensure_eq!(hv(p.raw_value()), (*w, *v), "numerator of {}", short(it)),
            (RationalNumerator::Negative(p), Item::Nint(w, v)) => ensure_eq!(hv(p.raw_value()), (*w, *v), "numerator of {}", short(it)),
            (RationalNumerator::PositiveBignum(p), Item::Tag(_, 2, _)) => {
                p.contents(n)?;
                ensure!(encode_to_bytes(p) == n.to_vec(), "numerator of {}", short(it));
            }
            (RationalNumerator::NegativeBignum(p), Item::Tag(_, 3, _)) => {
                p.contents(n)?;
                ensure!(encode_to_bytes(p) == n.to_vec(), "numerator of {}", short(it));
            }
            (x, _) => return Err(format!("numerator of {}: {:?}", short(it), x)),
        }
        match (self.denominator(), d) {
            (RationalDenominator::Positive(p), Item::Uint(w, v)) => ensure_eq!(hv(p.raw_value()), (*w, *v), "denominator of {}", short(it)),
            (RationalDenominator::PositiveBignum(p), Item::Tag(_, 2, _)) => {
                p.contents(d)?;
                ensure!(encode_to_bytes(p) == d.to_vec(), "denominator of {}", short(it));
            }
            (x, _) => return Err(format!("denominator of {}: {:?}", short(it), x)),
        }
        Ok(())
    }
}
fn ext<T: Ext>(it: &Item, b: &[u8], n: usize) -> R {
    let one = std::slice::from_ref(it);
    let ok = T::takes(one) == Some(1);
    let e = &b[..n];
    let check = |what: &str, v: &T| -> R {
        v.contents(it)?;
        let x = encode_to_bytes(v);
        ensure!(x == e, "{} of {} from {} is encoded as {}", what, T::NAME, hex(e), hex(&x));
        let x = encode_to_bytes(&v.clone());
        ensure!(x == e && v.clone() == *v, "clone of {} from {} is encoded as {}", T::NAME, hex(e), hex(&x));
        Ok(())
    };
    let mut r = Reader::new(b);
    match T::read_it(&mut r) {
        Ok(v) => {
            ensure!(ok, "{}::read accepted {}", T::NAME, hex(e));
            ensure_eq!(r.consumed_bytes(), n, "consumed by {}::read", T::NAME);
            check("read", &v)?;
        }
        Err(x) => {
            ensure!(!ok, "{}::read refused {}: {:?}", T::NAME, hex(e), x);
            // the tag found is reported
            if let Item::Tag(_, t, _) = it {
                if let ReaderError::WrongExpectedTag { got, .. } = x {
                    ensure!(it.any(&mut |i| matches!(i, Item::Tag(_, g, _) if *g == got)), "{} on tag {}: tag {} reported", T::NAME, t, got);
                }
            }
        }
    }
    let mut r = Reader::new(b);
    match r.decode::<T>() {
        Ok(v) => {
            ensure!(ok, "decode::<{}> accepted {}", T::NAME, hex(e));
            ensure_eq!(r.consumed_bytes(), n, "consumed by decode::<{}>", T::NAME);
            check("decode", &v)?;
        }
        Err(x) => ensure!(!ok, "decode::<{}> refused {}: {:?}", T::NAME, hex(e), x),
    }
    match decode_from_bytes::<T>(e) {
        Ok(v) => {
            ensure!(ok, "decode_from_bytes::<{}> accepted {}", T::NAME, hex(e));
            check("decode_from_bytes", &v)?;
        }
        Err(x) => ensure!(!ok, "decode_from_bytes::<{}> refused {}: {:?}", T::NAME, hex(e), x),
    }
    Ok(())
}
fn all_ext(it: &Item, b: &[u8], n: usize) -> R {
    ext::<StandardDateTime>(it, b, n)?;
    ext::<PositiveBignum>(it, b, n)?;
    ext::<NegativeBignum>(it, b, n)?;
    ext::<EncodedCBOR>(it, b, n)?;
    ext::<RationalNumber>(it, b, n)
}
fn c19_case(s: &mut Src, cx: &mut Cx) -> R {
    let how = s.weighted(&[8, 8, 1]);
    let it = match how {
        0 => {
            let w = s.weighted(&[2, 2, 2, 2, 5]);
            gen::tagged(s, w)
        }
        1 => gen::near_tagged(s),
        _ => gen::item(s, gen::ANYTEXT),
    };
    let mut b = it.to_vec();
    let n = b.len();
    if s.bool() {
        b.extend(gen::soup(s))
    }
    cx.input(&b[..n]);
    let shape = (0..5).find(|k| {
        let o = std::slice::from_ref(&it);
        match k {
            0 => StandardDateTime::takes(o).is_some(),
            1 => PositiveBignum::takes(o).is_some(),
            2 => NegativeBignum::takes(o).is_some(),
            3 => EncodedCBOR::takes(o).is_some(),
            _ => RationalNumber::takes(o).is_some(),
        }
    });
    cx.label(match shape {
        Some(k) => ["date/time", "positive bignum", "negative bignum", "embedded CBOR", "rational"][k],
        None => "near miss",
    });
    cx.nontrivial_if(matches!(it, Item::Tag(..)));
    cx.describe(|| format!("extension {}", short(&it)));
    all_ext(&it, &b, n)
}
fn c19_palette() -> Vec<Item> {
    let mut v = vec![
        Item::uint(0), Item::Uint(W::B8, 24), Item::nint(0), Item::Nint(W::B2, 7), Item::bytes(b""), Item::bytes(b"\x01\x02"),
        Item::Bytes(Str::Chunks(vec![])), Item::Bytes(Str::Chunks(vec![(W::Imm, vec![1]), (W::B1, vec![2])])), Item::text("2013"),
        Item::Text(Str::Chunks(vec![(W::Imm, b"20".to_vec())])), Item::Text(Str::Def(W::Imm, vec![0xff])), Item::array(vec![]),
        Item::array(vec![Item::uint(1), Item::uint(2)]), Item::map(vec![]), Item::map(vec![(Item::uint(1), Item::uint(2))]),
        Item::null(), Item::bool(true), Item::Simple { imm: true, v: 2 }, Item::F16(0),
    ];
    for t in [0, 1, 2, 3, 4, 24, 30] {
        v.push(Item::tag(t, Item::bytes(b"\xff")));
        v.push(Item::tag(t, Item::uint(5)));
        v.push(Item::tag(t, Item::text("x")));
    }
    v
}
fn c19_enum_n(t: Tier) -> u64 {
    // every tag around every item of the palette, and rationals of every pair of them; contents of
    // every size
    c19_small() + 10 * gen::sizes_n(t)
}
fn c19_small() -> u64 {
    let p = c19_palette().len() as u64;
    40 * 5 * p + p * p * 6
}
fn c19_enum(i: u64, cx: &mut Cx) -> R {
    if i >= c19_small() {
        let i = i - c19_small();
        let n = gen::size_at((i / 10) as usize);
        let k = n / 3;
        let c: Vec<u8> = (0..n).map(|j| if i % 2 == 0 { 0x30 + (j % 10) as u8 } else { (j % 3) as u8 }).collect();
        let s = if i / 2 % 2 == 0 { Str::canonical(&c) } else { Str::Chunks(vec![(W::B4, c[..k].to_vec()), (W::B8, c[k..].to_vec())]) };
        let it = match i / 2 % 5 {
            0 => Item::tag(0, Item::Text(s)),
            1 => Item::tag(2, Item::Bytes(s)),
            2 => Item::tag(3, Item::Bytes(s)),
            3 => Item::tag(24, Item::Bytes(s)),
            _ => Item::tag(30, Item::array(vec![Item::tag(3, Item::Bytes(s.clone())), Item::tag(2, Item::Bytes(s))])),
        };
        let b = it.to_vec();
        cx.input(&b);
        cx.nontrivial_if(true);
        cx.describe(|| hex(&b));
        return all_ext(&it, &b, b.len());
    }
    let p = c19_palette();
    let n = p.len() as u64;
    let it = if i < 40 * 5 * n {
        let (t, i) = (i % 40, i / 40);
        let w = WIDTHS[(i % 5) as usize];
        if !w.holds(t) {
            return Ok(());
        }
        Item::Tag(w, t, Box::new(p[(i / 5) as usize].clone()))
    } else {
        let i = i - 40 * 5 * n;
        let (a, b, l) = (i % n, i / n % n, i / n / n);
        let w = [None, Some(W::Imm), Some(W::B1), Some(W::B2), Some(W::B4), Some(W::B8)][l as usize];
        Item::Tag(W::B1, 30, Box::new(Item::Array(w, vec![p[a as usize].clone(), p[b as usize].clone()])))
    };
    let b = it.to_vec();
    cx.input(&b);
    cx.nontrivial_if(true);
    cx.describe(|| hex(&b));
    all_ext(&it, &b, b.len())
}
pub const C19: Prop = Prop {
    id: "C19",
    rule: "a tagged item, of the shape of an extension or near one, decoded as each of the five extension types in three ways; distinct by input",
    assumptions: &["what a failed read consumes is not part of the property"],
    enum_n: c19_enum_n,
    enum_case: c19_enum,
    case: c19_case,
    quick: 700_000,
    thorough: 15_000_000,
};
