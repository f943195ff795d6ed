//! C26: work is proportional to the input.
use super::total::{deep_input, inspect, use_, wide, Entry, ENTRIES};
use crate::engine::{Cx, Prop, Tier, R};
use crate::gen;
use crate::refcbor::*;
use crate::tape::Src;
use crate::{alloc, cov, ensure};
use cbored::*;

const MORE: &[Entry] = &[
    ("everything a value gives access to, owned, compared and written", |b| {
        if let Ok(d) = Reader::new(b).data() {
            inspect(&d, false)
        }
    }),
    ("decode and encode", |b| {
        if let Ok(d) = Reader::new(b).decode::<DataOwned>() {
            use_(encode_to_bytes(&d).len());
        }
    }),
    ("decode_vec and encode_vec", |b| {
        if let Ok(d) = decode_vec::<DataOwned>(&mut Reader::new(b)) {
            let mut w = Writer::new();
            encode_vec(&d, &mut w);
            use_(w.finalize().len());
        }
        if let Ok(d) = decode_vec::<Scalar>(&mut Reader::new(b)) {
            let mut w = Writer::new();
            encode_vec(&d, &mut w);
            use_(w.finalize().len());
        }
    }),
    ("raw data", |b| {
        if let Ok(d) = Reader::new(b).exact_decodable_data::<DataOwned>() {
            let w = d.clone();
            use_(w == d);
            use_(encode_to_bytes(&d).len());
            use_(d.unserialize());
            use_(w.untype().validate_as::<DataOwned>().is_ok());
        }
    }),
    ("each element by its own reader", |b| {
        // one level: the elements together are no longer than the input
        let each = |s: &CborSlice| {
            use_(s.reader().data().is_ok());
            use_(s.decode::<DataOwned>().is_ok());
            use_(s.to_owned().as_ref().len());
        };
        let mut r = Reader::new(b);
        match r.data() {
            Ok(Data::Array(a)) => (0..a.len()).for_each(|i| each(a[i])),
            Ok(Data::Map(a)) => (0..a.len()).for_each(|i| {
                each(a[i].0);
                each(a[i].1)
            }),
            Ok(Data::Tag(t)) => each(t.data()),
            _ => {}
        }
    }),
    ("a sequence of items", |b| {
        let mut r = Reader::new(b);
        while !r.is_finished() && r.data().is_ok() {
            use_((r.remaining_bytes(), r.consumed_bytes(), r.peek_type().is_ok()));
        }
        let mut v = validate::Validator::new(b);
        while v.remaining_bytes() > 0 && v.next().is_ok() {}
        let mut r = Reader::new(b);
        while r.decode::<u64>().is_ok() {}
    }),
    ("written again, each element alone", |b| {
        let mut w = Writer::new();
        let mut r = Reader::new(b);
        match r.data() {
            Ok(Data::Array(a)) => w.array_build(a.struct_len(), |w| a.iter().for_each(|mut r| drop(r.data().map(|d| w.data(&d))))),
            Ok(Data::Map(m)) => w.map_build(m.struct_len(), |w| {
                m.iter().for_each(|(mut k, mut v)| {
                    drop(k.data().map(|d| w.data(&d)));
                    drop(v.data().map(|d| w.data(&d)))
                })
            }),
            Ok(Data::Tag(t)) => w.tag_build(t.tag_repr(), |w| drop(t.reader().data().map(|d| w.data(&d)))),
            Ok(d) => w.data(&d),
            Err(_) => {}
        }
        use_(w.finalize().len());
    }),
];
fn entry(k: usize) -> Entry {
    if k < ENTRIES.len() {
        ENTRIES[k]
    } else {
        MORE[k - ENTRIES.len()]
    }
}
fn n_entries() -> usize {
    ENTRIES.len() + MORE.len()
}

/// comparisons made by the library (its own code, not the standard library's), and bytes allocated
/// in total
const CMP_BASE: u64 = 200_000;
const CMP_PER_BYTE: u64 = 4_000;
const ALLOC_BASE: u64 = 1 << 20;
const ALLOC_PER_BYTE: u64 = 8_192;
/// processor time, for what is not compiled into the library
const TIME: f64 = 30.0;

#[repr(C)]
struct Timespec {
    s: i64,
    n: i64,
}
extern "C" {
    fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
}
/// processor time of this thread, in seconds
fn cpu() -> f64 {
    let mut t = Timespec { s: 0, n: 0 };
    unsafe { clock_gettime(3, &mut t) };
    t.s as f64 + t.n as f64 * 1e-9
}
struct Cost {
    cmp: u64,
    alloc: u64,
    time: f64,
}
fn cost(b: &[u8], f: fn(&[u8])) -> Cost {
    let (w, t) = (cov::work(), cpu());
    let ((), u) = alloc::measure(|| f(b));
    Cost { cmp: cov::work() - w, alloc: u.total, time: cpu() - t }
}
fn bounded(e: Entry, b: &[u8], worst: &mut (u64, u64)) -> R {
    let c = cost(b, e.1);
    let n = b.len() as u64;
    worst.0 = worst.0.max(c.cmp.saturating_sub(2000) / n.max(1));
    worst.1 = worst.1.max(c.alloc.saturating_sub(4096) / n.max(1));
    ensure!(
        c.cmp <= CMP_BASE + CMP_PER_BYTE * n,
        "{} made {} comparisons on an input of {} bytes (more than {} + {} per byte): {}",
        e.0, c.cmp, n, CMP_BASE, CMP_PER_BYTE, hex(b)
    );
    ensure!(
        c.alloc <= ALLOC_BASE + ALLOC_PER_BYTE * n,
        "{} allocated {} bytes in total on an input of {} bytes (more than {} + {} per byte): {}",
        e.0, c.alloc, n, ALLOC_BASE, ALLOC_PER_BYTE, hex(b)
    );
    ensure!(c.time <= TIME, "{} took {:.1} s of processor time on an input of {} bytes: {}", e.0, c.time, n, hex(b));
    Ok(())
}
fn all(b: &[u8], cx: &mut Cx) -> R {
    let mut w = (0, 0);
    for k in 0..n_entries() {
        bounded(entry(k), b, &mut w)?;
    }
    cx.label_if(w.0 >= 50, "at least 50 comparisons per byte");
    cx.label_if(w.1 >= 100, "at least 100 bytes allocated per byte");
    Ok(())
}

/// something large, with structure at several levels
fn bulk(s: &mut Src) -> Vec<u8> {
    let n = *s.pick(&[300usize, 1000, 3000, 10_000, 30_000]);
    let cell: Vec<u8> = match s.byte() % 8 {
        0 => gen::item(s, gen::SMALL).to_vec(),
        1 => vec![0x9f, 0xff],
        2 => vec![0x5f, 0x41, 0, 0xff],
        3 => vec![0xbf, 0, 1, 0xff],
        4 => vec![0x62, 0xc3, 0xa9],
        5 => vec![0xc1, 0],
        6 => vec![0x82, 0xa1, 0, 1, 0x80],
        _ => vec![0x00],
    };
    let n = n.min(60_000 / cell.len());
    let mut v = Vec::new();
    // layers around the wide part
    let layers = if s.bool() { s.idx(4) } else { s.idx(2000) };
    let l = *s.pick(&[0x81u8, 0x9f, 0xc2, 0x81]);
    v.extend(std::iter::repeat(l).take(layers));
    let open = s.byte() % 4;
    match open {
        0 => head(&mut v, 4, W::B4, n as u64),
        1 => v.push(0x9f),
        2 => head(&mut v, 5, W::B4, (n / 2) as u64),
        _ => v.push(0xbf),
    }
    for _ in 0..n / 2 * 2 {
        v.extend_from_slice(&cell);
    }
    if open == 0 && n % 2 == 1 {
        v.extend_from_slice(&cell);
    }
    if open % 2 == 1 {
        v.push(0xff);
    }
    if l == 0x9f {
        v.extend(std::iter::repeat(0xff).take(layers));
    }
    if s.chance(60) {
        let i = v.len() - 1 - s.idx(v.len().min(200));
        v[i] = s.byte();
    }
    v
}
fn chunks(s: &mut Src) -> Vec<u8> {
    let n = *s.pick(&[1000usize, 5000, 20_000]);
    let text = s.bool();
    let m = if text { 0x60 } else { 0x40 };
    let mut v = vec![];
    if s.bool() {
        let t = *s.pick(&[0u64, 2, 3, 24]);
        head_min(&mut v, 6, t);
    }
    v.push(m | 0x1f);
    let k = s.byte() % 4;
    for _ in 0..n {
        v.push(m | k);
        v.extend(std::iter::repeat(b'a').take(k as usize));
    }
    v.push(0xff);
    v
}
fn c26_case(s: &mut Src, cx: &mut Cx) -> R {
    let (b, l) = match s.weighted(&[40, 20, 20, 10, 10, 20]) {
        0 => (bulk(s), "bulk"),
        1 => (wide(s), "wide"),
        2 => (chunks(s), "chunks"),
        3 => (deep_input(s), "deep"),
        4 => (gen::adversarial(s), "huge announcement"),
        _ => gen::any_bytes(s),
    };
    cx.label(l);
    cx.input(&b);
    cx.nontrivial_if(b.len() >= 1000);
    cx.describe(|| format!("{}: {}", l, hex(&b)));
    all(&b, cx)
}
/// the largest inputs, for each entry point
fn large(k: u64, n: usize) -> Vec<u8> {
    let mut v = Vec::new();
    match k {
        0 => {
            head_min(&mut v, 2, n as u64);
            v.extend((0..n).map(|i| i as u8));
        }
        1 => {
            head_min(&mut v, 3, n as u64 / 2 * 2);
            v.extend("é".bytes().cycle().take(n / 2 * 2));
        }
        2 => {
            head_min(&mut v, 4, n as u64);
            v.extend((0..n).map(|i| (i % 20) as u8));
        }
        3 => {
            v.push(0x9f);
            v.extend(std::iter::repeat(0x80).take(n));
            v.push(0xff);
        }
        4 => {
            head_min(&mut v, 5, n as u64 / 2);
            v.extend((0..n / 2 * 2).map(|i| if i % 2 == 0 { 0x01 } else { 0x61 - 0x60 + 0x20 }));
        }
        5 => {
            v.push(0xbf);
            v.extend(std::iter::repeat(0x40).take(n / 2 * 2));
            v.push(0xff);
        }
        6 => {
            v.push(0x5f);
            v.extend([0x41, 7].iter().cycle().take(n / 2 * 2));
            v.push(0xff);
        }
        7 => {
            v.push(0x7f);
            v.extend([0x60, 0x61, b'x'].iter().cycle().take(n / 3 * 3));
            v.push(0xff);
        }
        8 => {
            v.extend(std::iter::repeat(0x81).take(n));
            v.push(0x00);
        }
        9 => {
            v.extend(std::iter::repeat(0x9f).take(n / 2));
            v.extend(std::iter::repeat(0xff).take(n / 2));
        }
        10 => {
            v.extend(std::iter::repeat(0xc6).take(n));
            v.push(0xf6);
        }
        11 => {
            v.extend([0xbf, 0x01].iter().cycle().take(n / 2));
            v.push(0x02);
            v.extend(std::iter::repeat(0xff).take(n / 4));
        }
        12 => {
            // positive bignum, in many chunks
            v.extend([0xc2, 0x5f]);
            v.extend([0x42, 7, 8].iter().cycle().take(n / 3 * 3));
            v.push(0xff);
        }
        13 => {
            v.extend([0xd8, 0x1e, 0x82, 0xc2]);
            head_min(&mut v, 2, n as u64 / 2);
            v.extend(std::iter::repeat(9).take(n / 2));
            v.push(0xc2);
            head_min(&mut v, 2, n as u64 / 2);
            v.extend(std::iter::repeat(9).take(n / 2));
        }
        14 => {
            v.extend([0xc0, 0x7f]);
            v.extend([0x62, b'2', b'0'].iter().cycle().take(n / 3 * 3));
            v.push(0xff);
        }
        15 => {
            v.extend([0xd8, 0x18]);
            head_min(&mut v, 2, n as u64);
            v.extend(std::iter::repeat(0).take(n));
        }
        16 => {
            // items one after the other
            v.extend((0..n).map(|i| (i % 20) as u8));
        }
        17 => {
            // array of unsigned integers in eight bytes
            head_min(&mut v, 4, n as u64 / 9);
            for i in 0..n / 9 {
                head(&mut v, 0, W::B8, i as u64);
            }
        }
        // unfinished ones
        18 => {
            head(&mut v, 4, W::B8, u64::MAX);
            v.extend(std::iter::repeat(0).take(n));
        }
        19 => {
            head(&mut v, 5, W::B8, u64::MAX);
            v.extend(std::iter::repeat(0).take(n));
        }
        20 => v.extend(std::iter::repeat(0x9f).take(n)),
        21 => {
            v.push(0x5f);
            v.extend(std::iter::repeat(0x40).take(n));
        }
        _ => {
            // an array of arrays
            let k = (n as f64).sqrt() as u64;
            head_min(&mut v, 4, k);
            for _ in 0..k {
                head_min(&mut v, 4, k);
                v.extend(std::iter::repeat(0xf5).take(k as usize));
            }
        }
    }
    v
}
const LARGE: u64 = 23;
fn c26_enum_n(_: Tier) -> u64 {
    LARGE * n_entries() as u64
}
fn c26_enum(i: u64, cx: &mut Cx) -> R {
    let (k, e) = (i % LARGE, entry((i / LARGE) as usize));
    let n = if cx.tier == Tier::Quick { 1 << 20 } else { 1 << 22 };
    let b = large(k, n);
    cx.input_u64(i);
    cx.nontrivial_if(true);
    cx.label("about a million bytes (four when thorough)");
    cx.describe(|| format!("{} on {}", e.0, hex(&b)));
    let mut w = (0, 0);
    bounded(e, &b, &mut w)
}
pub const C26: Prop = Prop {
    id: "C26",
    rule: "an input of at least 1000 bytes on which the work of each of 30 entry points was measured (or of one of them, on one of the enumerated inputs of a million bytes); distinct by input",
    assumptions: &[
        "bounds used: 200000 comparisons and 4000 more per input byte (comparisons in the code of the library, counted by compiler instrumentation), 1 MiB and 8 KiB more per input byte of memory allocated in total, and 30 s of processor time",
    ],
    enum_n: c26_enum_n,
    enum_case: c26_enum,
    case: c26_case,
    quick: 3_000,
    thorough: 200_000,
};
