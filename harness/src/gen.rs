//! Generators: items in every representation, near misses, adversarial byte strings.
use crate::refcbor::*;
use crate::tape::Src;

#[derive(Clone, Copy)]
pub struct Cfg {
    /// largest nesting
    pub depth: u32,
    /// number of items (roughly)
    pub items: usize,
    /// bytes of generated string contents
    pub bytes: usize,
    /// text is valid UTF-8 (otherwise some of it is not)
    pub utf8: bool,
}
pub const SMALL: Cfg = Cfg { depth: 4, items: 24, bytes: 400, utf8: true };
pub const MEDIUM: Cfg = Cfg { depth: 8, items: 80, bytes: 4000, utf8: true };
pub const ANYTEXT: Cfg = Cfg { depth: 6, items: 60, bytes: 2000, utf8: false };

pub struct Budget {
    items: usize,
    bytes: usize,
}

/// a width able to hold the value; the shortest most of the time
pub fn width(s: &mut Src, v: u64) -> W {
    let k = WIDTHS.iter().position(|w| *w == W::min(v)).unwrap();
    let extra = match s.byte() % 8 {
        0..=3 => 0,
        4 | 5 => 1,
        6 => 2,
        _ => s.idx(5),
    };
    WIDTHS[(k + extra).min(4)]
}

/// contents: bytes that look like CBOR, boundary bytes, or a pattern when long
pub fn content(s: &mut Src, n: usize) -> Vec<u8> {
    match s.byte() % 4 {
        0 => vec![s.byte(); n],
        1 if n <= 64 => (0..n).map(|_| s.byte()).collect(),
        2 if n <= 64 => {
            const B: [u8; 16] =
                [0, 0xff, 0x40, 0x5f, 0x60, 0x7f, 0x80, 0x9f, 0xa0, 0xbf, 0xc0, 0xf6, 0xf8, 0x18, 0x1b, 0x9b];
            (0..n).map(|_| *s.pick(&B)).collect()
        }
        _ => {
            let (a, b) = (s.byte(), s.byte() | 1);
            (0..n).map(|i| a.wrapping_add((i as u8).wrapping_mul(b)).wrapping_add((i >> 8) as u8)).collect()
        }
    }
}
/// valid UTF-8 of about n bytes
pub fn text_content(s: &mut Src, n: usize) -> Vec<u8> {
    const C: [char; 20] = [
        'a', '\0', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}',
        '\u{10ffff}', 'é', '€', '😀', '\u{fffd}', '\u{feff}', ' ', '\u{301}', '\n', '"',
    ];
    let mut o = String::new();
    match s.byte() % 3 {
        0 => {
            let c = *s.pick(&C[..3]);
            for _ in 0..n {
                o.push(c)
            }
        }
        1 if n <= 200 => {
            while o.len() < n {
                let c = if s.chance(64) {
                    char::from_u32(s.raw_u32() % 0x11_0000).unwrap_or('x')
                } else {
                    *s.pick(&C)
                };
                o.push(c)
            }
        }
        _ => {
            // a period of a few characters
            let p: Vec<char> = (0..1 + s.idx(5)).map(|_| *s.pick(&C)).collect();
            let mut i = 0;
            while o.len() < n {
                o.push(p[i % p.len()]);
                i += 1
            }
        }
    }
    o.into_bytes()
}
/// not valid UTF-8
pub fn bad_text_content(s: &mut Src) -> Vec<u8> {
    const B: [&[u8]; 22] = [
        &[0x80], &[0xbf], &[0xc0, 0x80], &[0xc1, 0xbf], &[0xc2], &[0xc2, 0x41], &[0xe0, 0x9f, 0xbf], &[0xe2, 0x82],
        &[0xed, 0xa0, 0x80], &[0xed, 0xbf, 0xbf], &[0xf0, 0x8f, 0xbf, 0xbf], &[0xf0, 0x9f, 0x98], &[0xf4, 0x90, 0x80, 0x80],
        &[0xf5, 0x80, 0x80, 0x80], &[0xf8, 0x88, 0x80, 0x80, 0x80], &[0xfc], &[0xfe], &[0xff], &[0xef, 0xbf], &[0xe1, 0x80],
        &[0xf1, 0x80, 0x80], &[0xf3, 0xbf, 0xbf, 0x7f],
    ];
    let mut v = { let n = s.size(20); text_content(s, n) };
    let bad = *s.pick(&B);
    let tail = { let n = s.size(8); text_content(s, n) };
    v.extend_from_slice(bad);
    v.extend_from_slice(&tail);
    debug_assert!(!utf8_valid(&v) || v.is_empty() || !bad.is_empty());
    v
}

fn str_size(s: &mut Src, b: &mut Budget) -> usize {
    let n = if b.bytes > 100 && s.chance(2) {
        *s.pick(&[65535usize, 65536, 65537, 70000, 4096, 32768])
    } else {
        s.size(b.bytes.min(70_000) as u64)
    };
    b.bytes = b.bytes.saturating_sub(n);
    n
}
fn chunk(s: &mut Src, b: &mut Budget, text: bool, utf8: bool) -> (W, Vec<u8>) {
    let c = if text && !utf8 && s.chance(40) {
        bad_text_content(s)
    } else {
        let n = str_size(s, b);
        if text {
            text_content(s, n)
        } else {
            content(s, n)
        }
    };
    (width(s, c.len() as u64), c)
}
pub fn string(s: &mut Src, b: &mut Budget, text: bool, utf8: bool) -> Str {
    if s.chance(80) {
        let n = if b.bytes > 100 && s.chance(4) { s.size(3000) } else { s.size(12) };
        if n > 20 {
            // many chunks from a few
            let p: Vec<(W, Vec<u8>)> = (0..1 + s.idx(3)).map(|_| { let mut q = Budget { items: 1, bytes: 4 }; chunk(s, &mut q, text, utf8) }).collect();
            return Str::Chunks((0..n).map(|i| p[i % p.len()].clone()).collect());
        }
        Str::Chunks((0..n).map(|_| chunk(s, b, text, utf8)).collect())
    } else {
        let (w, c) = chunk(s, b, text, utf8);
        Str::Def(w, c)
    }
}
pub fn any_string(s: &mut Src, text: bool, utf8: bool) -> Str {
    let mut b = Budget { items: 1, bytes: 3000 };
    string(s, &mut b, text, utf8)
}
/// any representation of the given contents
pub fn string_repr(s: &mut Src, c: &[u8], text: bool) -> Str {
    if s.chance(110) {
        let mut v = Vec::new();
        let mut at = 0;
        loop {
            if s.chance(30) {
                v.push((width(s, 0), Vec::new()));
            }
            if at == c.len() {
                break;
            }
            let mut n = if s.chance(128) { 1 + s.idx(4) } else { 1 + s.idx(c.len() - at) }.min(c.len() - at);
            if text {
                while at + n < c.len() && c[at + n] & 0xc0 == 0x80 {
                    n += 1
                }
            }
            if v.len() > 200 {
                n = c.len() - at;
            }
            v.push((width(s, n as u64), c[at..at + n].to_vec()));
            at += n;
        }
        Str::Chunks(v)
    } else {
        Str::Def(width(s, c.len() as u64), c.to_vec())
    }
}
/// None (indefinite) or a width
pub fn len_repr(s: &mut Src, n: usize) -> Option<W> {
    if s.chance(90) {
        None
    } else {
        Some(width(s, n as u64))
    }
}
/// another representation of the same item (same abstract value); maps may change order when asked
pub fn re_represent(s: &mut Src, it: &Item, shuffle: bool) -> Item {
    match it {
        Item::Uint(_, v) => Item::Uint(width(s, *v), *v),
        Item::Nint(_, v) => Item::Nint(width(s, *v), *v),
        Item::Bytes(x) => Item::Bytes(string_repr(s, &x.concat(), false)),
        Item::Text(x) => Item::Text(string_repr(s, &x.concat(), true)),
        Item::Array(_, v) => {
            let w = len_repr(s, v.len());
            Item::Array(w, v.iter().map(|i| re_represent(s, i, shuffle)).collect())
        }
        Item::Map(_, v) => {
            let w = len_repr(s, v.len());
            let mut v: Vec<(Item, Item)> =
                v.iter().map(|(k, i)| (re_represent(s, k, shuffle), re_represent(s, i, shuffle))).collect();
            if shuffle && s.chance(160) {
                for i in (1..v.len()).rev() {
                    let j = s.idx(i + 1);
                    v.swap(i, j)
                }
            }
            Item::Map(w, v)
        }
        Item::Tag(_, t, i) => Item::Tag(width(s, *t), *t, Box::new(re_represent(s, i, shuffle))),
        x => x.clone(),
    }
}

pub fn float(s: &mut Src) -> Item {
    match s.idx(3) {
        0 => Item::F16(s.raw_u16()),
        1 => Item::F32(match s.byte() % 3 {
            0 => s.raw_u32(),
            1 => (s.u64() as u32) ^ ((s.byte() as u32 & 1) << 31),
            _ => (s.byte() as u32) << 23 | [0, 1, 0x40_0000, 0x7f_ffff][s.idx(4)],
        }),
        _ => Item::F64(f64_bits(s)),
    }
}
pub fn f64_bits(s: &mut Src) -> u64 {
    match s.byte() % 4 {
        0 => s.raw_u64(),
        1 => s.u64(),
        2 => {
            // around single precision: exponent and the 29 bits that get rounded away
            let e = match s.byte() % 4 {
                0 => 1023 + s.below(130),
                1 => 1023 - 126 - s.below(30) + s.below(3),
                2 => s.below(2048),
                _ => 1023 + 126 + s.below(4),
            };
            let m = (s.raw_u32() as u64 & 0x7f_ffff) << 29;
            let low = *s.pick(&[0u64, 1, 0xfff_ffff, 0x1000_0000, 0x1000_0001, 0x1fff_ffff]);
            let top = *s.pick(&[0u64, 1]);
            top << 63 | (e & 0x7ff) << 52 | if s.chance(80) { 0x7f_ffffu64 << 29 } else { m } | low
        }
        _ => (s.byte() as u64 & 1) << 63 | (2047u64 - s.below(3)) << 52 | s.below(3),
    }
}

pub fn leaf(s: &mut Src, b: &mut Budget, cfg: Cfg) -> Item {
    match s.weighted(&[6, 3, 4, 4, 2, 2, 2]) {
        0 => {
            let v = s.u64();
            Item::Uint(width(s, v), v)
        }
        1 => {
            let v = s.u64();
            Item::Nint(width(s, v), v)
        }
        2 => Item::Bytes(string(s, b, false, true)),
        3 => Item::Text(string(s, b, true, cfg.utf8)),
        4 => Item::Const(20 + s.byte() % 4),
        5 => {
            if s.bool() {
                Item::Simple { imm: true, v: s.byte() % 20 }
            } else {
                Item::Simple { imm: false, v: s.byte() }
            }
        }
        _ => float(s),
    }
}
/// small item
fn tiny(s: &mut Src) -> Item {
    let mut q = Budget { items: 1, bytes: 4 };
    match s.byte() % 6 {
        0 => Item::Array(len_repr(s, 1), vec![Item::uint(7)]),
        1 => Item::Tag(W::Imm, 6, Box::new(Item::null())),
        2 => Item::Map(len_repr(s, 0), vec![]),
        _ => leaf(s, &mut q, SMALL),
    }
}
fn node(s: &mut Src, b: &mut Budget, cfg: Cfg, depth: u32) -> Item {
    b.items = b.items.saturating_sub(1);
    if depth == 0 || b.items == 0 || s.chance(120) {
        return leaf(s, b, cfg);
    }
    match s.weighted(&[5, 4, 3]) {
        0 => {
            let v = children(s, b, cfg, depth, 1);
            Item::Array(len_repr(s, v.len()), v)
        }
        1 => {
            let v = children(s, b, cfg, depth, 2);
            let mut m = Vec::new();
            let mut it = v.into_iter();
            while let (Some(k), Some(v)) = (it.next(), it.next()) {
                m.push((k, v))
            }
            Item::Map(len_repr(s, m.len()), m)
        }
        _ => {
            let t = if s.chance(128) { *s.pick(&[0u64, 1, 2, 3, 4, 5, 24, 30, 258, 55799]) } else { s.u64() };
            Item::Tag(width(s, t), t, Box::new(node(s, b, cfg, depth - 1)))
        }
    }
}
fn children(s: &mut Src, b: &mut Budget, cfg: Cfg, depth: u32, mul: usize) -> Vec<Item> {
    let n = s.size((b.items as u64).max(2)) * mul;
    if s.chance(3) {
        // many children from a few
        let total = *s.pick(&[23usize, 24, 25, 255, 256, 257, 1000, 65535, 65536]) * mul;
        let total = if total > 1000 && !s.chance(32) { 300 * mul } else { total };
        let p: Vec<Item> = (0..1 + s.idx(3)).map(|_| tiny(s)).collect();
        b.items = 0;
        return (0..total).map(|i| p[i % p.len()].clone()).collect();
    }
    let mut v = Vec::new();
    for _ in 0..n {
        v.push(node(s, b, cfg, depth - 1));
    }
    v
}
/// one layer around an item
fn wrap(s: &mut Src, it: Item) -> Item {
    match s.idx(6) {
        0 => Item::Array(Some(width(s, 1)), vec![it]),
        1 => Item::Array(None, vec![it]),
        2 => {
            let t = s.u64();
            Item::Tag(width(s, t), t, Box::new(it))
        }
        3 => Item::Map(len_repr(s, 1), vec![(Item::uint(0), it)]),
        4 => Item::Map(len_repr(s, 1), vec![(it, Item::null())]),
        _ => Item::Array(len_repr(s, 3), vec![Item::uint(1), it, Item::uint(2)]),
    }
}
pub fn item(s: &mut Src, cfg: Cfg) -> Item {
    let mut b = Budget { items: cfg.items, bytes: cfg.bytes };
    if s.chance(12) {
        // a chain
        let n = s.size(100);
        let mut it = leaf(s, &mut b, cfg);
        for _ in 0..n {
            it = wrap(s, it)
        }
        return it;
    }
    node(s, &mut b, cfg, cfg.depth)
}
/// an item of the given major kind: 0..=6 as in CBOR, 7 simple or constant, 8 float
pub fn item_of_kind(s: &mut Src, k: usize, cfg: Cfg) -> Item {
    let mut b = Budget { items: cfg.items, bytes: cfg.bytes };
    match k {
        0 => {
            let v = s.u64();
            Item::Uint(width(s, v), v)
        }
        1 => {
            let v = s.u64();
            Item::Nint(width(s, v), v)
        }
        2 => Item::Bytes(string(s, &mut b, false, true)),
        3 => Item::Text(string(s, &mut b, true, cfg.utf8)),
        4 => {
            let v = children(s, &mut b, cfg, cfg.depth.max(1), 1);
            Item::Array(len_repr(s, v.len()), v)
        }
        5 => {
            let v = children(s, &mut b, cfg, cfg.depth.max(1), 2);
            let mut m = Vec::new();
            let mut it = v.into_iter();
            while let (Some(k), Some(v)) = (it.next(), it.next()) {
                m.push((k, v))
            }
            Item::Map(len_repr(s, m.len()), m)
        }
        6 => {
            let t = s.u64();
            Item::Tag(width(s, t), t, Box::new(node(s, &mut b, cfg, cfg.depth)))
        }
        7 => match s.idx(3) {
            0 => Item::Const(20 + s.byte() % 4),
            1 => Item::Simple { imm: true, v: s.byte() % 20 },
            _ => Item::Simple { imm: false, v: s.byte() },
        },
        _ => float(s),
    }
}

// ---- ill-formed structure -------------------------------------------------------------------

/// replace the `at`-th node (in encoding order) by something broken
fn enc_broken(it: &Item, out: &mut Vec<u8>, at: &mut i64, s: &mut Src) {
    *at -= 1;
    if *at == -1 {
        broken_node(it, out, s);
        return;
    }
    match it {
        Item::Array(w, v) => {
            match w {
                Some(w) => head(out, 4, *w, v.len() as u64),
                None => out.push(0x9f),
            }
            for i in v {
                enc_broken(i, out, at, s)
            }
            if w.is_none() {
                out.push(0xff)
            }
        }
        Item::Map(w, v) => {
            match w {
                Some(w) => head(out, 5, *w, v.len() as u64),
                None => out.push(0xbf),
            }
            for (k, i) in v {
                enc_broken(k, out, at, s);
                enc_broken(i, out, at, s)
            }
            if w.is_none() {
                out.push(0xff)
            }
        }
        Item::Tag(w, t, i) => {
            head(out, 6, *w, *t);
            enc_broken(i, out, at, s)
        }
        x => x.enc(out),
    }
}
/// a count that the data cannot satisfy
pub fn huge(s: &mut Src) -> u64 {
    match s.byte() % 6 {
        0 => u64::MAX - s.below(20),
        1 => (1u64 << 63).wrapping_add(s.below(20)).wrapping_sub(10),
        2 => (1u64 << 32).wrapping_add(s.below(40)).wrapping_sub(4),
        3 => 1u64 << (8 + s.below(56)),
        4 => (1u64 << (8 + s.below(56))).wrapping_add(s.below(30)).wrapping_sub(2),
        _ => s.raw_u64() >> s.below(60),
    }
}
fn broken_node(it: &Item, out: &mut Vec<u8>, s: &mut Src) {
    let body = |it: &Item, out: &mut Vec<u8>| match it {
        Item::Array(_, v) => v.iter().for_each(|i| i.enc(out)),
        Item::Map(_, v) => v.iter().for_each(|(k, i)| {
            k.enc(out);
            i.enc(out)
        }),
        Item::Bytes(x) | Item::Text(x) => out.extend_from_slice(&x.concat()),
        Item::Tag(_, _, i) => i.enc(out),
        _ => {}
    };
    let major = match it {
        Item::Uint(..) => 0,
        Item::Nint(..) => 1,
        Item::Bytes(_) => 2,
        Item::Text(_) => 3,
        Item::Array(..) => 4,
        Item::Map(..) => 5,
        Item::Tag(..) => 6,
        _ => 7u8,
    };
    match s.byte() % 12 {
        0 => {
            // reserved additional information
            out.push(major << 5 | (28 + s.byte() % 3));
            body(it, out)
        }
        1 => {
            // indefinite head where there is none
            out.push(*s.pick(&[0x1fu8, 0x3f, 0xdf]));
            it.enc(out);
            if s.bool() {
                out.push(0xff)
            }
        }
        2 => out.push(0xff),
        3 => {
            // counts off by a little
            let n = match it {
                Item::Array(_, v) => v.len(),
                Item::Map(_, v) => v.len(),
                Item::Bytes(x) | Item::Text(x) => x.concat().len(),
                _ => 0,
            } as u64;
            let n = match s.byte() % 4 {
                0 => n + 1,
                1 => n.saturating_sub(1),
                2 => n + 2,
                _ => n * 2,
            };
            let w = width(s, n);
            head(out, major.clamp(2, 5), w, n);
            body(it, out)
        }
        4 => {
            // bad chunk in an indefinite string
            let m = *s.pick(&[2u8, 3]);
            out.push(m << 5 | 31);
            let k = s.idx(3);
            for _ in 0..k {
                head_min(out, m, 1);
                out.push(b'a');
            }
            match s.byte() % 9 {
                0 => {
                    head_min(out, 5 - m, 1);
                    out.push(b'b')
                }
                1 => out.extend_from_slice(&[m << 5 | 31, m << 5, 0xff]),
                2 => out.push(0x01),
                3 => out.push(0x80),
                4 => out.push(0xf6),
                5 => out.extend_from_slice(&[0xc1, m << 5]),
                6 => out.extend_from_slice(&[(5 - m) << 5 | 31, 0xff]),
                7 => out.extend_from_slice(&[0x9f, 0xff]),
                _ => out.extend_from_slice(&[0xa0]),
            }
            out.push(0xff)
        }
        5 => {
            // odd number of items in an indefinite map
            out.push(0xbf);
            if let Item::Map(_, v) = it {
                for (k, i) in v {
                    k.enc(out);
                    i.enc(out)
                }
            }
            out.push(0x00);
            out.push(0xff)
        }
        6 => {
            // a tag without content
            let w = width(s, 5);
            head(out, 6, w, 5);
            out.push(0xff)
        }
        7 => {
            // missing break
            out.push(match major {
                2 | 3 | 4 | 5 => major << 5 | 31,
                _ => 0x9f,
            });
            body(it, out)
        }
        8 => {
            it.enc(out);
            out.push(0xff)
        }
        9 => {
            let h = huge(s);
            let m = 2 + s.byte() % 4;
            let w = width(s, h);
            head(out, m, w, h);
            body(it, out)
        }
        10 => {
            // break inside a definite container
            let m = 4 + s.byte() % 2;
            head_min(out, m, 2);
            it.enc(out);
            out.push(0xff);
            it.enc(out);
        }
        _ => {}
    }
}
pub fn broken(s: &mut Src, cfg: Cfg) -> Vec<u8> {
    let it = item(s, cfg);
    let n = it.nodes();
    let mut at = s.idx(n.min(65536)) as i64;
    let mut v = Vec::new();
    enc_broken(&it, &mut v, &mut at, s);
    v
}
/// byte level damage
pub fn damage(s: &mut Src, v: &mut Vec<u8>) {
    const LEADS: [u8; 40] = [
        0x00, 0x17, 0x18, 0x19, 0x1a, 0x1b, 0x1c, 0x1f, 0x20, 0x38, 0x3f, 0x40, 0x41, 0x58, 0x5b, 0x5f, 0x60, 0x61, 0x78,
        0x7b, 0x7f, 0x80, 0x81, 0x98, 0x9b, 0x9f, 0xa0, 0xa1, 0xb8, 0xbb, 0xbf, 0xc0, 0xd8, 0xdb, 0xe0, 0xf4, 0xf8, 0xf9, 0xfb,
        0xff,
    ];
    let n = 1 + s.idx(3);
    for _ in 0..n {
        let i = if v.is_empty() { 0 } else { s.idx(v.len().min(65536)) };
        match s.byte() % 8 {
            0 if !v.is_empty() => v[i] = s.byte(),
            1 if !v.is_empty() => v[i] = *s.pick(&LEADS),
            2 if !v.is_empty() => v[i] ^= 1 << (s.byte() % 8),
            3 => {
                let b = *s.pick(&LEADS);
                v.insert(i, b)
            }
            4 if !v.is_empty() => {
                v.remove(i);
            }
            5 => v.truncate(i),
            6 if !v.is_empty() => {
                let d = 1 + s.byte() % 2;
                v[i] = v[i].wrapping_add(d)
            }
            7 if !v.is_empty() => {
                let d = 1 + s.byte() % 2;
                v[i] = v[i].wrapping_sub(d)
            }
            _ => {
                let b = s.byte();
                v.push(b)
            }
        }
    }
}
/// bytes biased to leads
pub fn soup(s: &mut Src) -> Vec<u8> {
    let n = s.size(40);
    (0..n)
        .map(|_| {
            if s.bool() {
                *s.pick(&[0x9fu8, 0xbf, 0x5f, 0x7f, 0xff, 0x00, 0x40, 0x60, 0x41, 0x61, 0x81, 0xa1, 0xc1, 0x80, 0xa0, 0xf6])
            } else {
                s.byte()
            }
        })
        .collect()
}
/// head with a count or length far beyond the data, possibly below some layers
pub fn adversarial(s: &mut Src) -> Vec<u8> {
    let mut v = Vec::new();
    for _ in 0..s.size(12) {
        match s.byte() % 8 {
            0 => v.push(0x81),
            1 => v.push(0x9f),
            2 => v.extend_from_slice(&[0xa1, 0x00]),
            3 => v.extend_from_slice(&[0xbf, 0x00]),
            4 => v.push(0xc2),
            5 => v.push(0x5f),
            6 => v.push(0x7f),
            _ => {
                let h = huge(s);
                let m = 4 + s.byte() % 2;
                let w = width(s, h);
                head(&mut v, m, w, h)
            }
        }
    }
    let h = huge(s);
    let m = 2 + s.byte() % 4;
    let w = width(s, h);
    head(&mut v, m, w, h);
    let n = s.size(300);
    let mut c = content(s, n);
    if s.bool() {
        c = vec![*s.pick(&[0u8, 0x40, 0x60, 0x80, 0xf6]); n];
    }
    v.extend_from_slice(&c);
    v
}
/// any input
pub fn any_bytes(s: &mut Src) -> (Vec<u8>, &'static str) {
    let (mut v, l) = match s.weighted(&[30, 30, 20, 10, 10]) {
        0 => (item(s, ANYTEXT).to_vec(), "well-formed"),
        1 => (broken(s, ANYTEXT), "broken structure"),
        2 => {
            let mut v = item(s, ANYTEXT).to_vec();
            damage(s, &mut v);
            (v, "damaged bytes")
        }
        3 => (soup(s), "byte soup"),
        _ => (adversarial(s), "huge announcement"),
    };
    if s.chance(60) {
        let mut t = if s.bool() { item(s, SMALL).to_vec() } else { soup(s) };
        v.append(&mut t);
    }
    (v, l)
}
/// `depth` layers of containers around (possibly) something
pub fn deep(s: &mut Src, depth: usize) -> Vec<u8> {
    const L: [&[u8]; 8] =
        [&[0x81], &[0x9f], &[0xc1], &[0xa1, 0x00], &[0xbf, 0x00], &[0xbf], &[0xd8, 0x18], &[0x98, 0x01]];
    let p: Vec<usize> = (0..1 + s.idx(3)).map(|_| s.idx(8)).collect();
    let mut v = Vec::new();
    for i in 0..depth {
        v.extend_from_slice(L[p[i % p.len()]]);
    }
    if s.chance(160) {
        // close it properly
        v.push(0x00);
        for i in (0..depth).rev() {
            match p[i % p.len()] {
                1 | 4 => v.push(0xff),
                5 => v.extend_from_slice(&[0x00, 0xff]),
                _ => {}
            }
        }
        if s.chance(50) {
            let mut w = v.split_off(v.len() - 1);
            damage(s, &mut w);
            v.append(&mut w);
        }
    }
    v
}

// ---- enumerations -----------------------------------------------------------------------------

/// heads of every major type and form
const A64: [u8; 64] = [
    0x00, 0x17, 0x18, 0x19, 0x1a, 0x1b, 0x1c, 0x1f, 0x20, 0x37, 0x38, 0x39, 0x3b, 0x3d, 0x3f, 0x40, 0x41, 0x42, 0x57, 0x58, 0x59,
    0x5b, 0x5e, 0x5f, 0x60, 0x61, 0x62, 0x78, 0x79, 0x7b, 0x7c, 0x7f, 0x80, 0x81, 0x82, 0x98, 0x99, 0x9b, 0x9c, 0x9f, 0xa0, 0xa1,
    0xa2, 0xb8, 0xb9, 0xbb, 0xbd, 0xbf, 0xc0, 0xc2, 0xd7, 0xd8, 0xd9, 0xdb, 0xdf, 0xe0, 0xf3, 0xf4, 0xf6, 0xf7, 0xf8, 0xf9, 0xfc,
    0xff,
];
const A24: [u8; 24] = [
    0x00, 0x18, 0x1f, 0x20, 0x40, 0x41, 0x5f, 0x60, 0x61, 0x7f, 0x80, 0x81, 0x82, 0x98, 0x9f, 0xa0, 0xa1, 0xbf, 0xc1, 0xd8, 0xf4,
    0xf6, 0xf8, 0xff,
];
const A14: [u8; 14] = [0x00, 0x40, 0x41, 0x5f, 0x60, 0x61, 0x7f, 0x81, 0x82, 0x9f, 0xa1, 0xbf, 0xc1, 0xff];
const A10: [u8; 10] = [0x00, 0x41, 0x5f, 0x60, 0x7f, 0x82, 0x9f, 0xbf, 0xc1, 0xff];
const A7: [u8; 7] = [0x00, 0x40, 0x5f, 0x81, 0x9f, 0xbf, 0xff];

fn words(i: &mut u64, alphabet: &[u8], len: u32) -> Option<Vec<u8>> {
    let n = (alphabet.len() as u64).pow(len);
    if *i >= n {
        *i -= n;
        return None;
    }
    let mut x = *i;
    let mut v = Vec::with_capacity(len as usize);
    for _ in 0..len {
        v.push(alphabet[(x % alphabet.len() as u64) as usize]);
        x /= alphabet.len() as u64;
    }
    Some(v)
}
const fn pow(a: u64, n: u32) -> u64 {
    a.pow(n)
}
pub const SHORT_N: u64 = 1 + 256 + 65536 + pow(64, 3) + pow(24, 4) + pow(14, 5) + pow(10, 6) + pow(7, 7);
pub const SHORT_N_THOROUGH: u64 = SHORT_N + pow(256, 3) + pow(64, 4) + pow(24, 5) + pow(14, 6) + pow(10, 7) + pow(7, 9);
/// every short byte string: all of at most 2 bytes, all longer ones over smaller and smaller
/// alphabets of heads
pub fn short_bytes(mut i: u64) -> Vec<u8> {
    if i == 0 {
        return vec![];
    }
    i -= 1;
    static ALL: [u8; 256] = {
        let mut t = [0u8; 256];
        let mut i = 0;
        while i < 256 {
            t[i] = i as u8;
            i += 1
        }
        t
    };
    let parts: [(&[u8], u32); 13] = [
        (&ALL, 1), (&ALL, 2), (&A64, 3), (&A24, 4), (&A14, 5), (&A10, 6), (&A7, 7),
        (&ALL, 3), (&A64, 4), (&A24, 5), (&A14, 6), (&A10, 7), (&A7, 9),
    ];
    for (a, n) in parts {
        if let Some(v) = words(&mut i, a, n) {
            return v;
        }
    }
    unreachable!()
}
pub fn short_n(t: crate::engine::Tier) -> u64 {
    match t {
        crate::engine::Tier::Quick => SHORT_N,
        crate::engine::Tier::Thorough => SHORT_N_THOROUGH,
    }
}

/// sizes: all small ones, around every power of two and of ten; more of the large ones when thorough
const SIZES_SMALL: usize = 71;
const SIZES_QUICK: [usize; 34] = [
    99, 100, 101, 126, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 10000,
    16384, 32767, 32768, 65534, 65535, 65536, 65537, 65540, 131073,
];
const SIZES_MORE: [usize; 24] = [
    200, 300, 384, 768, 2047, 2049, 3000, 8191, 8193, 9999, 10001, 16383, 16385, 20000, 32769, 40000, 49152, 65000, 65538, 70000, 100000,
    131071, 131072, 262145,
];
const SHAPES: u64 = 15;
pub fn shapes_n(t: crate::engine::Tier) -> u64 {
    let n = SIZES_SMALL + SIZES_QUICK.len() + if t == crate::engine::Tier::Thorough { SIZES_MORE.len() } else { 0 };
    n as u64 * SHAPES * 3
}
pub fn sizes_n(t: crate::engine::Tier) -> u64 {
    shapes_n(t) / SHAPES / 3
}
pub fn size_at(z: usize) -> usize {
    if z < SIZES_SMALL {
        z
    } else if z - SIZES_SMALL < SIZES_QUICK.len() {
        SIZES_QUICK[z - SIZES_SMALL]
    } else {
        SIZES_MORE[z - SIZES_SMALL - SIZES_QUICK.len()]
    }
}
/// the shapes that are worth trying at every size, with the length in its shortest form, a longer
/// one, or the longest
pub fn shape(i: u64) -> Option<Item> {
    let (k, v, z) = (i % SHAPES, i / SHAPES % 3, (i / SHAPES / 3) as usize);
    let n = size_at(z);
    let w = |n: usize| {
        let k = WIDTHS.iter().position(|w| *w == W::min(n as u64)).unwrap();
        match v {
            0 => WIDTHS[k],
            1 => WIDTHS[(k + 1).min(4)],
            _ => W::B8,
        }
    };
    let data = |n: usize| -> Vec<u8> { (0..n).map(|i| (i % 251) as u8).collect() };
    let small = |j: usize| match j % 7 {
        0 => Item::uint(j as u64),
        1 => Item::nint(j as u64),
        2 => Item::bytes(&[j as u8]),
        3 => Item::text("e"),
        4 => Item::bool(true),
        5 => Item::F16(j as u16),
        _ => Item::array(vec![]),
    };
    // indefinite ones have no width: once is enough
    if v > 0 && matches!(k, 7 | 9) {
        return None;
    }
    if n > 150 && matches!(k, 10 | 11) {
        return None;
    }
    Some(match k {
        0 => Item::Bytes(Str::Def(w(n), data(n))),
        1 => Item::Text(Str::Def(w(n), vec![b'x'; n])),
        2 => {
            let mut t: Vec<u8> = "é€😀a".bytes().cycle().take(n).collect();
            while !utf8_valid(&t) {
                t.pop();
            }
            t.resize(n, b'.');
            Item::Text(Str::Def(w(n), t))
        }
        3 => Item::Bytes(Str::Chunks((0..n).map(|j| (w(j % 3), data(j % 3))).collect())),
        4 => Item::Text(Str::Chunks((0..n).map(|j| (w(j % 2 * 2), "é".as_bytes()[..j % 2 * 2].to_vec())).collect())),
        5 => Item::Bytes(Str::Chunks(vec![(w(n), data(n)), (W::Imm, vec![7])])),
        6 => Item::Array(Some(w(n)), (0..n).map(small).collect()),
        7 => Item::Array(None, (0..n).map(small).collect()),
        8 => Item::Map(Some(w(n)), (0..n).map(|j| (Item::uint(j as u64), small(j))).collect()),
        9 => Item::Map(None, (0..n).map(|j| (small(j), small(j + 1))).collect()),
        10 => (0..n).fold(Item::uint(1), |x, j| Item::Tag(w(j), j as u64, Box::new(x))),
        11 => (0..n).fold(Item::array(vec![]), |x, j| match j % 3 {
            0 => Item::Array(Some(w(1)), vec![x]),
            1 => Item::Array(None, vec![x, Item::null()]),
            _ => Item::Map(Some(w(1)), vec![(Item::uint(3), x)]),
        }),
        12 => Item::array(vec![
            Item::Bytes(Str::Def(w(n), data(n))), Item::uint(5), Item::Array(Some(w(n)), vec![Item::bool(false); n]), Item::uint(6),
        ]),
        13 => Item::Map(None, vec![(Item::Text(Str::Def(w(n), vec![b'k'; n])), Item::Array(Some(w(n)), vec![Item::uint(24); n])), (Item::uint(1), Item::uint(2))]),
        _ => Item::Tag(w(n), n as u64, Box::new(Item::Text(Str::Chunks(vec![(w(n), vec![b't'; n])])))),
    })
}

// ---- tagged extensions --------------------------------------------------------------------------

fn bignum(s: &mut Src, t: u64) -> Item {
    Item::Tag(width(s, t), t, Box::new(Item::Bytes(any_string(s, false, true))))
}
/// 0: date/time, 1: positive bignum, 2: negative bignum, 3: embedded CBOR, 4: rational
pub fn tagged(s: &mut Src, which: usize) -> Item {
    match which {
        0 => Item::Tag(width(s, 0), 0, Box::new(Item::Text(any_string(s, true, true)))),
        1 => bignum(s, 2),
        2 => bignum(s, 3),
        3 => {
            let i = item(s, SMALL).to_vec();
            let c = if s.bool() { string_repr(s, &i, false) } else { any_string(s, false, true) };
            Item::Tag(width(s, 24), 24, Box::new(Item::Bytes(c)))
        }
        _ => {
            let n = match s.idx(4) {
                0 => item_of_kind(s, 0, SMALL),
                1 => item_of_kind(s, 1, SMALL),
                2 => bignum(s, 2),
                _ => bignum(s, 3),
            };
            let d = match s.idx(2) {
                0 => item_of_kind(s, 0, SMALL),
                _ => bignum(s, 2),
            };
            Item::Tag(width(s, 30), 30, Box::new(Item::Array(len_repr(s, 2), vec![n, d])))
        }
    }
}
/// something close to a tagged extension
pub fn near_tagged(s: &mut Src) -> Item {
    let w = s.idx(5);
    let mut it = tagged(s, w);
    let n = s.idx(3);
    for _ in 0..n {
        near_node(s, &mut it);
    }
    it
}
const TAGS: [u64; 14] = [0, 1, 2, 3, 4, 5, 24, 25, 23, 30, 31, 29, 258, 286];
fn near_node(s: &mut Src, it: &mut Item) {
    // descend or change here
    match it {
        Item::Tag(_, _, c) if s.chance(150) => return near_node(s, c),
        Item::Array(_, v) if !v.is_empty() && s.chance(150) => {
            let i = s.idx(v.len());
            return near_node(s, &mut v[i]);
        }
        _ => {}
    }
    match it {
        Item::Tag(w, t, _) if s.chance(200) => {
            *t = *s.pick(&TAGS);
            if s.chance(40) {
                *t = t.wrapping_add(*s.pick(&[1u64 << 8, 1 << 16, 1 << 32, 1 << 63]));
            }
            *w = width(s, *t);
        }
        Item::Array(w, v) if s.chance(200) => {
            match s.idx(4) {
                0 => {
                    v.pop();
                }
                1 => v.push(Item::uint(1)),
                2 => v.reverse(),
                _ => {
                    let x = v.first().cloned().unwrap_or(Item::null());
                    v.push(x)
                }
            }
            *w = len_repr(s, v.len());
        }
        x => {
            let k = s.idx(11);
            *x = if k < 9 { item_of_kind(s, k, SMALL) } else { let w = s.idx(5); tagged(s, w) };
        }
    }
}

// ---- nesting at every boundary depth ------------------------------------------------------------

const NESTS: u64 = 10;
pub fn nests_n(t: crate::engine::Tier) -> u64 {
    (sizes_n(t) + 1) * NESTS
}
/// an item nested to a boundary depth (the last one: 2^20), its layers all of a kind or in turn
pub fn nest(i: u64, t: crate::engine::Tier) -> (Vec<u8>, usize) {
    let (k, z) = ((i % NESTS) as usize, (i / NESTS) as usize);
    let depth = if z as u64 == sizes_n(t) { 1 << 20 } else { size_at(z) };
    // what comes before and after the nested item, layer by layer
    const L: [(&[u8], &[u8]); 9] = [
        (&[0x81], &[]),
        (&[0x9f], &[0xff]),
        (&[0xc1], &[]),
        (&[0xa1, 0x00], &[]),
        (&[0xa1], &[0x00]),
        (&[0xbf, 0x00], &[0xff]),
        (&[0xbf], &[0x00, 0xff]),
        (&[0x9b, 0, 0, 0, 0, 0, 0, 0, 2, 0x20], &[]),
        (&[0x82], &[0x61, 0x78]),
    ];
    let layer = |j: usize| L[if k < 9 { k } else { j * 5 % 9 }];
    let mut v = Vec::new();
    for j in 0..depth {
        v.extend_from_slice(layer(j).0);
    }
    v.push(0x05);
    for j in (0..depth).rev() {
        v.extend_from_slice(layer(j).1);
    }
    (v, depth)
}
