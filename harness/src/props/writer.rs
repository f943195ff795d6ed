//! C15, C16: writer programs and native values.
use super::sample::VecOf;
use crate::engine::{Cx, Prop, Tier, R};
use crate::gen;
use crate::refcbor::*;
use crate::tape::Src;
use crate::view::*;
use crate::{ensure, ensure_eq};
use cbored::tagged::EncodedCBOR;
use cbored::validate::Validator;
use cbored::*;
use std::borrow::Borrow;

// ---- C15 ------------------------------------------------------------------------------------

#[derive(Clone, Debug)]
enum Op {
    // direct calls
    Positive(u64),
    Negative(u64),
    Scalar(bool, u64),
    Byte(u8),
    Const(u8),
    Bool(bool),
    Float(Item),
    /// canonical bytes; how it is made
    Bytes(Vec<u8>, u8),
    Text(String, u8),
    BytesChunks(Vec<Vec<u8>>, bool),
    TextChunks(Vec<String>, bool),
    // through Encode
    U(u8, u64),
    Str(String, bool),
    Vec(Vec<u8>, u8),
    Ints(Vec<u64>),
    Strings(Vec<String>),
    Embedded(Vec<u8>),
    /// read before
    Read(Item, u8),
    // composed
    Array(Option<(W, u64)>, Vec<Op>),
    Map(Option<(W, u64)>, Vec<Op>),
    Tag(W, u64, Box<Op>),
    /// array builder: finite, elements (with the way each is appended)
    Builder(bool, Vec<(Op, u8)>),
    /// written apart, then appended as raw data
    Apart(Vec<Op>, bool),
}

fn str_of(s: &mut Src, n: usize) -> String {
    String::from_utf8(gen::text_content(s, n)).unwrap_or_default()
}
fn op(s: &mut Src, depth: u32, budget: &mut usize) -> Op {
    *budget = budget.saturating_sub(1);
    let leaf = depth == 0 || *budget == 0 || s.chance(100);
    let k = if leaf { s.idx(17) } else { 17 + s.weighted(&[5, 5, 3, 3, 2]) };
    match k {
        0 => Op::Positive(s.u64()),
        1 => Op::Negative(s.u64()),
        2 => Op::Scalar(s.bool(), s.u64()),
        3 => Op::Byte(s.byte()),
        4 => Op::Const(20 + s.byte() % 4),
        5 => Op::Bool(s.bool()),
        6 => Op::Float(gen::float(s)),
        7 => {
            let n = s.size(300);
            Op::Bytes(gen::content(s, n), s.byte() % 4)
        }
        8 => {
            let n = s.size(300);
            Op::Text(str_of(s, n), s.byte() % 4)
        }
        9 => Op::BytesChunks((0..s.size(6)).map(|_| { let n = s.size(60); gen::content(s, n) }).collect(), s.bool()),
        10 => Op::TextChunks((0..s.size(6)).map(|_| { let n = s.size(60); str_of(s, n) }).collect(), s.bool()),
        11 => {
            let t = s.byte() % 4;
            let v = s.u64();
            Op::U(t, v & (u64::MAX >> (64 - (8 << t))))
        }
        12 => {
            let n = s.size(300);
            Op::Str(str_of(s, n), s.bool())
        }
        13 => {
            let n = s.size(300);
            Op::Vec(gen::content(s, n), s.byte() % 3)
        }
        14 => {
            if s.bool() {
                Op::Ints((0..s.size(300)).map(|_| s.u64()).collect())
            } else {
                Op::Strings((0..s.size(30)).map(|_| { let n = s.size(9); str_of(s, n) }).collect())
            }
        }
        15 => {
            let n = s.size(30);
            Op::Embedded(gen::content(s, n))
        }
        16 => {
            let mut i = gen::item(s, gen::SMALL);
            if !i.own_text_ok() {
                i = Item::null()
            }
            Op::Read(i, s.byte())
        }
        17 => {
            let v: Vec<Op> = (0..s.size(10)).map(|_| op(s, depth - 1, budget)).collect();
            Op::Array(declared(s, v.len()), v)
        }
        18 => {
            let n = s.size(6) * 2 + s.chance(10) as usize;
            let v: Vec<Op> = (0..n).map(|_| op(s, depth - 1, budget)).collect();
            Op::Map(declared(s, v.len() / 2), v)
        }
        19 => {
            let t = s.u64();
            Op::Tag(gen::width(s, t), t, Box::new(op(s, depth - 1, budget)))
        }
        20 => {
            let f = s.bool();
            let n = if s.chance(5) { *s.pick(&[23usize, 24, 25, 255, 256, 257]) } else { s.size(8) };
            let mut v: Vec<(Op, u8)> = (0..n.min(8)).map(|_| (op(s, depth - 1, budget), s.byte())).collect();
            for i in v.len()..n {
                v.push((Op::Positive(i as u64), i as u8))
            }
            Op::Builder(f, v)
        }
        _ => Op::Apart((0..1 + s.idx(2)).map(|_| op(s, depth - 1, budget)).collect(), s.bool()),
    }
}
/// a count that is nearly always right
fn declared(s: &mut Src, n: usize) -> Option<(W, u64)> {
    if s.chance(90) {
        return None;
    }
    let n = n as u64;
    let n = if s.chance(8) { *s.pick(&[n + 1, n.saturating_sub(1), 0, 24, u64::MAX]) } else { n };
    Some((gen::width(s, n), n))
}
fn length(s: Option<(W, u64)>) -> StructureLength {
    match s {
        Some((w, n)) if w == W::min(n) && n % 2 == 0 => StructureLength::from(n),
        Some((w, n)) if n % 3 == 0 => StructureLength::from(Some(to_hv(w, n))),
        Some((w, n)) => StructureLength::Definite(to_hv(w, n)),
        None => StructureLength::Indefinite,
    }
}
/// the number of items, if what is written is that many well-formed items
fn model(o: &Op, out: &mut Vec<u8>) -> Option<usize> {
    let mut item = |i: Item| {
        i.enc(out);
        Some(1)
    };
    match o {
        Op::Positive(v) | Op::U(_, v) => item(Item::uint(*v)),
        Op::Negative(v) => item(Item::nint(*v)),
        Op::Scalar(pos, v) => item(if *pos { Item::uint(*v) } else { Item::nint(*v) }),
        Op::Byte(v) => item(Item::Simple { imm: *v < 20, v: *v }),
        Op::Const(c) => item(Item::Const(*c)),
        Op::Bool(b) => item(Item::bool(*b)),
        Op::Float(f) => item(f.clone()),
        Op::Bytes(b, _) | Op::Vec(b, _) => item(Item::bytes(b)),
        Op::Text(t, _) | Op::Str(t, _) => item(Item::text(t)),
        Op::BytesChunks(c, _) => item(Item::Bytes(Str::Chunks(c.iter().map(|c| (W::min(c.len() as u64), c.clone())).collect()))),
        Op::TextChunks(c, _) => {
            item(Item::Text(Str::Chunks(c.iter().map(|c| (W::min(c.len() as u64), c.clone().into_bytes())).collect())))
        }
        Op::Ints(v) => item(Item::array(v.iter().map(|i| Item::uint(*i)).collect())),
        Op::Strings(v) => item(Item::array(v.iter().map(|i| Item::text(i)).collect())),
        Op::Embedded(v) => item(Item::tag(24, Item::bytes(v))),
        Op::Read(i, _) => item(i.clone()),
        Op::Array(n, v) => {
            match n {
                Some((w, n)) => head(out, 4, *w, *n),
                None => out.push(0x9f),
            }
            let k = all(v, out);
            if n.is_none() {
                out.push(0xff)
            }
            (n.is_none() && k.is_some() || k.is_some() && k.map(|k| k as u64) == n.map(|n| n.1)).then_some(1)
        }
        Op::Map(n, v) => {
            match n {
                Some((w, n)) => head(out, 5, *w, *n),
                None => out.push(0xbf),
            }
            let k = all(v, out).filter(|k| k % 2 == 0).map(|k| k as u64 / 2);
            if n.is_none() {
                out.push(0xff)
            }
            (k.is_some() && (n.is_none() || k == n.map(|n| n.1))).then_some(1)
        }
        Op::Tag(w, t, c) => {
            head(out, 6, *w, *t);
            (model(c, out) == Some(1)).then_some(1)
        }
        Op::Builder(f, v) => {
            if *f {
                head_min(out, 4, v.len() as u64)
            } else {
                out.push(0x9f)
            }
            let mut ok = true;
            for (o, _) in v {
                ok &= model(o, out) == Some(1);
            }
            if !f {
                out.push(0xff)
            }
            ok.then_some(1)
        }
        Op::Apart(v, _) => all(v, out),
    }
}
fn all(v: &[Op], out: &mut Vec<u8>) -> Option<usize> {
    let mut n = Some(0);
    for o in v {
        let k = model(o, out);
        n = n.and_then(|n| k.map(|k| n + k));
    }
    n
}
fn run_all(v: &[Op], w: &mut Writer) -> R {
    for o in v {
        run(o, w)?
    }
    Ok(())
}
fn tag_value(w: W, t: u64) -> Result<TagValue, String> {
    if w == W::min(t) && t % 2 == 0 {
        return Ok(TagValue::from_u64(t));
    }
    // one that was read
    let b = Item::Tag(w, t, Box::new(Item::null())).to_vec();
    Ok(Reader::new(&b).tag().map_err(|e| format!("{:?}", e))?.tag_repr())
}
fn run(o: &Op, w: &mut Writer) -> R {
    match o {
        Op::Positive(v) => {
            let p = cbored::Positive::canonical(*v);
            if v % 2 == 0 {
                w.positive(p)
            } else {
                w.encode(&p)
            }
        }
        Op::Negative(v) => {
            let p = cbored::Negative::canonical(*v);
            if v % 2 == 0 {
                w.negative(p)
            } else {
                w.encode(&p)
            }
        }
        Op::Scalar(pos, v) => {
            let p = if *pos { cbored::Scalar::canonical_positive(*v) } else { cbored::Scalar::canonical_negative(*v) };
            if v % 2 == 0 {
                w.scalar(p)
            } else {
                w.encode(&p)
            }
        }
        Op::Byte(v) => {
            let p = cbored::Byte::canonical(*v);
            if v % 2 == 0 {
                w.byte(p)
            } else {
                w.encode(&p)
            }
        }
        Op::Const(c) => {
            let k = [Constant::False, Constant::True, Constant::Null, Constant::Undefined][*c as usize - 20];
            w.constant(k)
        }
        Op::Bool(b) => {
            if *b {
                w.bool(true)
            } else {
                w.encode(&false)
            }
        }
        Op::Float(f) => {
            let f = match f {
                Item::F16(b) => cbored::Float::FP16(*b),
                Item::F32(b) => cbored::Float::FP32(*b),
                Item::F64(b) => cbored::Float::FP64(*b),
                _ => return Err("not a float".into()),
            };
            w.float(f)
        }
        Op::Bytes(b, how) => match how {
            0 => w.bytes(&cbored::Bytes::from_slice(b)),
            1 => w.bytes(&cbored::Bytes::Imm(BytesData::from_slice(b))),
            2 => w.encode(&BytesOwned::from_vec(b.clone())),
            _ => w.data(&DataOwned::Bytes(BytesOwned::from_vec(b.clone())).borrow()),
        },
        Op::Text(t, how) => match how {
            0 => w.text(&cbored::Text::from_str(t)),
            1 => w.text(&cbored::Text::Imm(TextData::from_str(t))),
            2 => w.text(&TextOwned::from_string(t.clone()).borrow()),
            _ => w.encode(&Data::Text(cbored::Text::from_str(t))),
        },
        Op::BytesChunks(c, owned) => {
            let b = cbored::Bytes::Chunks(c.iter().map(|c| BytesData::from_slice(c)).collect());
            if *owned {
                w.encode(&b.owned())
            } else {
                w.bytes(&b)
            }
        }
        Op::TextChunks(c, owned) => {
            let b = cbored::Text::Chunks(c.iter().map(|c| TextData::from_str(c)).collect());
            if *owned {
                w.encode(&DataOwned::Text(b.owned()))
            } else {
                w.text(&b)
            }
        }
        Op::U(0, v) => w.encode(&(*v as u8)),
        Op::U(1, v) => w.encode(&(*v as u16)),
        Op::U(2, v) => w.encode(&(*v as u32)),
        Op::U(_, v) => w.encode(v),
        Op::Str(t, owned) => {
            if *owned {
                w.encode(t)
            } else {
                w.encode(t.as_str())
            }
        }
        Op::Vec(b, how) => match (how, b.len()) {
            (0, _) => w.encode(b),
            (1, 3) => w.encode(&[b[0], b[1], b[2]]),
            (1, 0) => w.encode(&[0u8; 0]),
            _ => w.encode(&b[..]),
        },
        Op::Ints(v) => encode_vec(v, w),
        Op::Strings(v) => encode_vec(v, w),
        Op::Embedded(v) => w.encode(&EncodedCBOR::from_bytes(v)),
        Op::Read(i, how) => {
            let b = i.to_vec();
            let err = |e: ReaderError| format!("{} refused: {:?}", short(i), e);
            let mut r = Reader::new(&b);
            match (how % 6, i) {
                (0, Item::Array(..)) => w.array(&r.array().map_err(err)?),
                (1, Item::Array(..)) => w.encode(&r.array().map_err(err)?.owned().borrow()),
                (0, Item::Map(..)) => w.map(&r.map().map_err(err)?),
                (1, Item::Map(..)) => w.encode(&r.map().map_err(err)?),
                (0, Item::Tag(..)) => w.tag(&r.tag().map_err(err)?),
                (1, Item::Tag(..)) => w.encode(&r.tag().map_err(err)?.owned().borrow()),
                (0, Item::Bytes(..)) => w.bytes(&r.bytes().map_err(err)?),
                (1, Item::Bytes(..)) => w.encode(&r.bytes().map_err(err)?),
                (0, Item::Text(..)) => w.text(&r.text().map_err(err)?),
                (1, Item::Text(..)) => w.encode(&r.text().map_err(err)?),
                (0, Item::Uint(..)) => w.positive(r.positive().map_err(err)?),
                (0, Item::Nint(..)) => w.negative(r.negative().map_err(err)?),
                (1, Item::Uint(..) | Item::Nint(..)) => w.scalar(r.scalar().map_err(err)?),
                (0, Item::Simple { .. }) => w.byte(r.byte().map_err(err)?),
                (1, Item::Simple { .. }) => w.encode(&r.byte().map_err(err)?),
                (0, Item::Const(_)) => w.encode(&r.constant().map_err(err)?),
                (1, Item::F16(_) | Item::F32(_) | Item::F64(_)) => w.encode(&r.float().map_err(err)?),
                (2, _) => w.encode(&r.decode::<DataOwned>().map_err(|e| format!("{:?}", e))?),
                (3, _) => w.encode(r.exact_decodable_slice::<DataOwned>().map_err(|e| format!("{:?}", e))?),
                (4, _) => w.encode(&r.exact_decodable_data::<DataOwned>().map_err(|e| format!("{:?}", e))?),
                (5, _) => w.encode(r.exact_decodable_slice::<DataOwned>().map_err(|e| format!("{:?}", e))?.untype()),
                (_, _) => w.data(&r.data().map_err(err)?),
            }
        }
        Op::Array(n, v) => {
            let mut res = Ok(());
            w.array_build(length(*n), |w| res = run_all(v, w));
            res?
        }
        Op::Map(n, v) => {
            let mut res = Ok(());
            w.map_build(length(*n), |w| res = run_all(v, w));
            res?
        }
        Op::Tag(tw, t, c) => {
            let mut res = Ok(());
            w.tag_build(tag_value(*tw, *t)?, |w| res = run(c, w));
            res?
        }
        Op::Builder(finite, v) => {
            let mut b = ArrayBuilder::new();
            for (o, how) in v {
                let mut x = Writer::new();
                run(o, &mut x)?;
                let d = x.finalize_data();
                if how % 2 == 0 {
                    b.append(d)
                } else {
                    b.append_encodable(&d)
                }
            }
            let a = if *finite { b.finite() } else { b.indefinite() };
            ensure_eq!(a.len(), v.len(), "elements of a built array");
            ensure_eq!(
                slen(a.struct_len()),
                finite.then_some((W::min(v.len() as u64), v.len() as u64)),
                "length of a built array"
            );
            for (i, (o, _)) in v.iter().enumerate() {
                let mut e = Vec::new();
                let _ = model(o, &mut e);
                ensure!(a[i].as_ref() == &e[..], "element {} of a built array: {} instead of {}", i, hex(a[i].as_ref()), hex(&e));
            }
            if v.len() % 2 == 0 {
                w.array(&a.borrow())
            } else {
                w.encode(&DataOwned::Array(a))
            }
        }
        Op::Apart(v, owned) => {
            let mut x = Writer::new();
            run_all(v, &mut x)?;
            let d = x.finalize_data();
            if *owned {
                w.encode(&d)
            } else {
                let s: &CborSlice = d.borrow();
                w.encode(s)
            }
        }
    }
    Ok(())
}
fn c15_enum_n(t: Tier) -> u64 {
    2 * gen::shapes_n(t)
}
/// builders and strings of boundary sizes, around the shapes read before
fn c15_enum(i: u64, cx: &mut Cx) -> R {
    let Some(it) = gen::shape(i / 2) else { return Ok(()) };
    let how = (i / 30 % 5) as u8;
    let n = |v: &[Item]| v.len() as u64;
    let ops = |v: &[Item]| -> Vec<Op> { v.iter().map(|i| if let Item::Uint(_, x) = i { Op::Positive(*x) } else { Op::Read(i.clone(), 2) }).collect() };
    let o = if i % 2 == 0 {
        Op::Read(it, how)
    } else {
        match it {
            Item::Bytes(Str::Def(_, c)) => if how < 4 { Op::Bytes(c, how) } else { Op::Vec(c, how % 3) },
            Item::Bytes(Str::Chunks(c)) => Op::BytesChunks(c.into_iter().map(|c| c.1).collect(), how % 2 == 0),
            Item::Text(Str::Def(_, c)) => {
                let t = String::from_utf8(c).map_err(|e| format!("{:?}", e))?;
                if how < 4 { Op::Text(t, how) } else { Op::Str(t, true) }
            }
            Item::Text(Str::Chunks(c)) => {
                let c: Vec<String> = c.into_iter().map(|c| String::from_utf8(c.1).unwrap_or_default()).collect();
                if how < 2 { Op::Strings(c) } else { Op::TextChunks(c, how % 2 == 0) }
            }
            Item::Array(w, v) if how == 0 => Op::Array(w.map(|w| (w, n(&v))), ops(&v)),
            Item::Array(w, v) if how == 1 => Op::Apart(vec![Op::Ints((0..n(&v)).collect())], w.is_some()),
            Item::Array(w, v) => Op::Builder(w.is_some(), ops(&v).into_iter().map(|o| (o, how)).collect()),
            Item::Map(w, v) => {
                let l = w.map(|w| (w, v.len() as u64));
                let f: Vec<Item> = v.into_iter().flat_map(|(k, v)| [k, v]).collect();
                Op::Map(l, ops(&f))
            }
            Item::Tag(w, t, c) => Op::Tag(w, t, Box::new(Op::Read(*c, how))),
            x => Op::Read(x, how),
        }
    };
    cx.label("shape at a boundary size");
    program(&[o], if i % 3 == 0 { vec![0x19, 0x01] } else { vec![] }, cx)
}
fn c15_case(s: &mut Src, cx: &mut Cx) -> R {
    let mut budget = 60;
    let n = 1 + s.size(4);
    let prog: Vec<Op> = (0..n).map(|_| op(s, 4, &mut budget)).collect();
    let prefix = if s.chance(100) { gen::soup(s) } else { vec![] };
    program(&prog, prefix, cx)
}
fn program(prog: &[Op], prefix: Vec<u8>, cx: &mut Cx) -> R {
    let mut exp = prefix.clone();
    let count = all(prog, &mut exp);
    cx.input(&exp);
    let composed = prog.iter().any(|o| matches!(o, Op::Array(..) | Op::Map(..) | Op::Tag(..) | Op::Builder(..) | Op::Apart(..)));
    cx.nontrivial_if(prog.len() > 1 || composed);
    cx.label_if(count.is_none(), "declared counts not respected");
    cx.label_if(!prefix.is_empty(), "prefix");
    cx.label_if(composed, "composed");
    cx.describe(|| format!("{:?} after prefix {}", prog, hex(&prefix)).chars().take(500).collect());
    let mut w = if prefix.is_empty() { Writer::new() } else { Writer::new_from_vec(prefix.clone()) };
    run_all(prog, &mut w)?;
    let raw = {
        // as raw data, too
        let mut x = Writer::new_from_vec(prefix.clone());
        run_all(prog, &mut x)?;
        x.finalize_data()
    };
    let out = w.finalize();
    ensure!(out == exp, "{} wrote {} instead of {}", brief(prog), hex(&out), hex(&exp));
    ensure!(raw.as_ref() == &exp[..], "finalize_data gives {} instead of {}", hex(raw.as_ref()), hex(&exp));
    // reads back
    if let Some(k) = count {
        let body = &out[prefix.len()..];
        let mut v = Validator::new(body);
        let mut r = Reader::new(body);
        let mut at = 0;
        for _ in 0..k {
            let (d, len) = v.next().map_err(|e| format!("the validator refuses what was written: {} ({:?})", hex(body), e))?;
            ensure!(d.as_ref() == &body[at..at + len], "validator extent in {}", hex(body));
            let Some((it, used)) = parse(&body[at..], 200) else { return Err(format!("not well-formed: {}", hex(body))) };
            ensure_eq!(used, len, "extent of an item in {}", hex(body));
            check_read_deep(&mut r, &it).map_err(|e| format!("reading back {}: {}", hex(body), e))?;
            at += len;
        }
        ensure!(r.is_finished(), "{} items written, but more is read: {}", k, hex(body));
    }
    Ok(())
}
fn brief(prog: &[Op]) -> String {
    format!("{:?}", prog).chars().take(400).collect()
}
pub const C15: Prop = Prop {
    id: "C15",
    rule: "a program of at least two calls, or with an array, map, tag, builder or raw data in it; distinct by output",
    assumptions: &["immediate header values are built with values below 24, as their type requires"],
    enum_n: c15_enum_n,
    enum_case: c15_enum,
    case: c15_case,
    quick: 120_000,
    thorough: 8_000_000,
};

// ---- C16 ------------------------------------------------------------------------------------

/// encodes as the canonical item and decodes from it and from another representation
fn native<T: Encode + Decode + PartialEq + std::fmt::Debug>(v: &T, canon: &Item, other: &Item, tail: &[u8]) -> R {
    let what = std::any::type_name::<T>();
    let e = encode_to_bytes(v);
    let c = canon.to_vec();
    ensure!(e == c, "{} {} is encoded as {}", what, hex(&c), hex(&e));
    let mut w = Writer::new_from_vec(tail.to_vec());
    w.encode(v);
    let w = w.finalize();
    ensure!(w.starts_with(tail) && w[tail.len()..] == c, "{} {} is encoded after others as {}", what, hex(&c), hex(&w));
    for i in [canon, other] {
        let mut b = i.to_vec();
        let x: T = decode_from_bytes(&b).map_err(|e| format!("{} from {} refused: {:?}", what, hex(&b), e))?;
        ensure!(x == *v, "{} from {} decodes to {}", what, hex(&b), hex(&encode_to_bytes(&x)));
        let n = b.len();
        b.extend_from_slice(tail);
        let mut r = Reader::new(&b);
        let x: T = r.decode().map_err(|e| format!("{} from {} refused: {:?}", what, hex(&b), e))?;
        ensure!(x == *v && r.consumed_bytes() == n, "{} from {} decodes to {}, at {}", what, hex(&b), hex(&encode_to_bytes(&x)), r.consumed_bytes());
    }
    Ok(())
}
const LENS: [usize; 12] = [0, 1, 23, 24, 25, 255, 256, 257, 4096, 65535, 65536, 65537];
fn len(s: &mut Src) -> usize {
    if s.chance(40) {
        let k = if s.chance(40) { 12 } else { 9 };
        LENS[s.idx(k)]
    } else {
        s.size(300)
    }
}
fn c16_enum_n(t: Tier) -> u64 {
    9 * gen::sizes_n(t)
}
/// strings and vectors of every boundary size
fn c16_enum(i: u64, cx: &mut Cx) -> R {
    let n = gen::size_at((i / 9) as usize);
    cx.input_u64(i);
    cx.nontrivial_if(true);
    let data: Vec<u8> = (0..n).map(|i| (i % 253) as u8).collect();
    let two = |c: &[u8]| {
        let k = n / 2;
        Str::Chunks(vec![(W::min(k as u64), c[..k].to_vec()), (W::B8, c[k..].to_vec())])
    };
    macro_rules! many {
        ($f:expr, $item:expr) => {{
            let v: Vec<_> = (0..n).map($f).collect();
            let items: Vec<Item> = v.iter().map($item).collect();
            let o = Item::Array(if n % 2 == 0 { None } else { Some(W::B8) }, items.clone());
            cx.describe(|| format!("{} elements, {}", n, short(&o)));
            native(&VecOf(v), &Item::array(items), &o, &[0xff])
        }};
    }
    match i % 9 {
        0 => {
            cx.describe(|| format!("{} bytes", n));
            native(&data, &Item::bytes(&data), &Item::Bytes(two(&data)), &[0x01])
        }
        1 => {
            cx.describe(|| format!("text of {} bytes", n));
            let t: String = (0..n).map(|i| (b' ' + (i % 90) as u8) as char).collect();
            native(&t, &Item::text(&t), &Item::Text(two(t.as_bytes())), &[0x01])
        }
        2 => {
            cx.describe(|| format!("text of {} characters", n));
            let t: String = (0..n).map(|i| ['é', 'x', '€', '😀'][i % 4]).collect();
            native(&t, &Item::text(&t), &Item::Text(Str::Chunks(vec![(W::B8, t.as_bytes().to_vec())])), &[])
        }
        3 => many!(|i| i % 3 == 0, |b: &bool| Item::bool(*b)),
        4 => many!(|i| i as u8, |b: &u8| Item::uint(*b as u64)),
        5 => many!(|i| i as u32, |b: &u32| Item::uint(*b as u64)),
        6 => many!(|i| (i as u64) << 20, |b: &u64| Item::uint(*b)),
        7 => many!(|i| "ab"[..i % 3].to_string(), |b: &String| Item::text(b)),
        _ => many!(|i| vec![i as u8; i % 4], |b: &Vec<u8>| Item::bytes(b)),
    }
}
fn c16_case(s: &mut Src, cx: &mut Cx) -> R {
    let tail = if s.bool() { gen::soup(s) } else { vec![] };
    let k = s.idx(13);
    cx.label([
        "bool", "u8", "u16", "u32", "u64", "String", "Vec<u8>", "[u8; N]", "Scalar", "DataOwned", "vector of natives", "vector of data", "nested vector",
    ][k]);
    cx.nontrivial_if(true);
    let uint = |s: &mut Src, bits: u32| {
        let v = s.u64();
        let v = if s.chance(60) { u64::MAX } else { v };
        v & (u64::MAX >> (64 - bits))
    };
    let mut done = |canon: &Item, other: &Item| {
        cx.input(&other.to_vec());
        cx.describe(|| format!("{} also as {}", short(canon), short(other)));
    };
    match k {
        0 => {
            let b = s.bool();
            let i = Item::bool(b);
            done(&i, &i);
            native(&b, &i, &i, &tail)
        }
        1..=4 => {
            let v = uint(s, 4 << k);
            let (c, o) = (Item::uint(v), Item::Uint(gen::width(s, v), v));
            done(&c, &o);
            match k {
                1 => native(&(v as u8), &c, &o, &tail),
                2 => native(&(v as u16), &c, &o, &tail),
                3 => native(&(v as u32), &c, &o, &tail),
                _ => native(&v, &c, &o, &tail),
            }
        }
        5 => {
            let n = len(s);
            let t = str_of(s, n);
            let (c, o) = (Item::text(&t), Item::Text(gen::string_repr(s, t.as_bytes(), true)));
            done(&c, &o);
            let mut w = Writer::new();
            w.encode(t.as_str());
            ensure!(w.finalize() == c.to_vec(), "str {} encoded", short(&c));
            native(&t, &c, &o, &tail)
        }
        6 => {
            let n = len(s);
            let t = gen::content(s, n);
            let (c, o) = (Item::bytes(&t), Item::Bytes(gen::string_repr(s, &t, false)));
            done(&c, &o);
            let mut w = Writer::new();
            w.encode(&t[..]);
            ensure!(w.finalize() == c.to_vec(), "[u8] {} encoded", short(&c));
            native(&t, &c, &o, &tail)
        }
        7 => {
            macro_rules! arr {
                ($($n:literal)*) => {{
                    const NS: &[usize] = &[$($n),*];
                    let n = NS[s.idx(NS.len())];
                    let t = gen::content(s, n);
                    let (c, o) = (Item::bytes(&t), Item::Bytes(gen::string_repr(s, &t, false)));
                    done(&c, &o);
                    $(if n == $n {
                        let a: [u8; $n] = t[..].try_into().map_err(|_| "length")?;
                        return native(&a, &c, &o, &tail);
                    })*
                }};
            }
            arr!(0 1 2 3 4 16 20 23 24 28 32 33 64 255 256 300);
            Ok(())
        }
        8 => {
            let v = s.u64();
            let pos = s.bool();
            let c = if pos { Item::uint(v) } else { Item::nint(v) };
            let w = gen::width(s, v);
            let o = if pos { Item::Uint(w, v) } else { Item::Nint(w, v) };
            done(&c, &o);
            let x = if pos { cbored::Scalar::canonical_positive(v) } else { cbored::Scalar::canonical_negative(v) };
            native(&x, &c, &c, &tail)?;
            // keeps its representation
            let b = o.to_vec();
            let y: cbored::Scalar = decode_from_bytes(&b).map_err(|e| format!("{} refused: {:?}", hex(&b), e))?;
            ensure_eq!((y.is_positive(), y.is_negative(), y.to_i64()), (pos, !pos, x.to_i64()), "scalar from {}", hex(&b));
            ensure_eq!(hv(y.raw_value()), (w, v), "scalar from {}", hex(&b));
            native(&y, &o, &o, &tail)
        }
        9 => {
            let mut i = gen::item(s, gen::SMALL);
            if !i.own_text_ok() {
                i = Item::null()
            }
            done(&i, &i);
            let b = i.to_vec();
            let d: DataOwned = decode_from_bytes(&b).map_err(|e| format!("{} refused: {:?}", hex(&b), e))?;
            check_data(&d.borrow(), &i)?;
            native(&d, &i, &i, &tail)
        }
        10 => {
            let n = len(s);
            macro_rules! vec {
                ($gen:expr, $item:expr) => {{
                    // from a few values when long
                    let p: Vec<_> = (0..n.min(16)).map(|_| $gen(s)).collect();
                    let v: Vec<_> = (0..n).map(|i| p[i % p.len()].clone()).collect();
                    let c = Item::array(v.iter().map($item).collect());
                    let o = gen::re_represent(s, &c, false);
                    done(&c, &o);
                    native(&VecOf(v), &c, &o, &tail)
                }};
            }
            match s.idx(7) {
                0 => vec!(|s: &mut Src| s.bool(), |b| Item::bool(*b)),
                1 => vec!(|s: &mut Src| s.byte(), |b| Item::uint(*b as u64)),
                2 => vec!(|s: &mut Src| uint(s, 16) as u16, |b| Item::uint(*b as u64)),
                3 => vec!(|s: &mut Src| uint(s, 32) as u32, |b| Item::uint(*b as u64)),
                4 => vec!(|s: &mut Src| s.u64(), |b| Item::uint(*b)),
                5 => vec!(|s: &mut Src| { let n = s.size(30); str_of(s, n) }, |b| Item::text(b)),
                _ => vec!(|s: &mut Src| { let n = s.size(30); gen::content(s, n) }, |b: &Vec<u8>| Item::bytes(b)),
            }
        }
        11 => {
            // elements that keep their representation
            let n = s.size(12);
            let items: Vec<Item> = (0..n).map(|_| gen::item(s, gen::SMALL)).filter(|i| i.own_text_ok()).collect();
            let c = Item::array(items.clone());
            let o = Item::Array(gen::len_repr(s, items.len()), items.clone());
            done(&c, &o);
            let mut v = Vec::new();
            let mut raw = Vec::new();
            for i in &items {
                v.push(decode_from_bytes::<DataOwned>(&i.to_vec()).map_err(|e| format!("{:?}", e))?);
                raw.push(decode_from_bytes::<CborDataOf<u64>>(&Item::Uint(W::B8, n as u64).to_vec()).map_err(|e| format!("{:?}", e))?);
            }
            native(&VecOf(v), &c, &o, &tail)?;
            let c = Item::array(vec![Item::Uint(W::B8, n as u64); items.len()]);
            native(&VecOf(raw), &c, &Item::Array(None, vec![Item::Uint(W::B8, n as u64); items.len()]), &tail)
        }
        _ => {
            let v: Vec<VecOf<VecOf<u16>>> =
                (0..s.size(5)).map(|_| VecOf((0..s.size(5)).map(|_| VecOf((0..s.size(5)).map(|_| uint(s, 16) as u16).collect())).collect())).collect();
            let c = Item::array(
                v.iter().map(|v| Item::array(v.0.iter().map(|v| Item::array(v.0.iter().map(|i| Item::uint(*i as u64)).collect())).collect())).collect(),
            );
            let o = gen::re_represent(s, &c, false);
            done(&c, &o);
            native(&VecOf(v), &c, &o, &tail)
        }
    }
}
pub const C16: Prop = Prop {
    id: "C16",
    rule: "a native value and another representation of it; distinct by that representation",
    assumptions: &["scalars and generic data keep the representation they have: for them it is part of the value"],
    enum_n: c16_enum_n,
    enum_case: c16_enum,
    case: c16_case,
    quick: 400_000,
    thorough: 10_000_000,
};
