//! Independent reference for CBOR (RFC 8949), written from the specification: an abstract item that
//! keeps its representation, an encoder, a parser, and a well-formedness scanner.
//!
//! Dialect of the library that is taken over: the contents of text strings are not part of
//! well-formedness, and the one byte simple value (0xf8 xx) may hold any of the 256 values.

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum W {
    Imm,
    B1,
    B2,
    B4,
    B8,
}
pub const WIDTHS: [W; 5] = [W::Imm, W::B1, W::B2, W::B4, W::B8];
impl W {
    /// can this width hold the value
    pub fn holds(self, v: u64) -> bool {
        match self {
            W::Imm => v <= 23,
            W::B1 => v <= 0xff,
            W::B2 => v <= 0xffff,
            W::B4 => v <= 0xffff_ffff,
            W::B8 => true,
        }
    }
    pub fn min(v: u64) -> W {
        *WIDTHS.iter().find(|w| w.holds(v)).unwrap()
    }
    pub fn bytes(self) -> usize {
        match self {
            W::Imm => 0,
            W::B1 => 1,
            W::B2 => 2,
            W::B4 => 4,
            W::B8 => 8,
        }
    }
}

/// head: major type, width and value
pub fn head(out: &mut Vec<u8>, major: u8, w: W, v: u64) {
    debug_assert!(w.holds(v));
    let m = major << 5;
    match w {
        W::Imm => out.push(m | v as u8),
        W::B1 => out.push(m | 24),
        W::B2 => out.push(m | 25),
        W::B4 => out.push(m | 26),
        W::B8 => out.push(m | 27),
    }
    let be = v.to_be_bytes();
    out.extend_from_slice(&be[8 - w.bytes()..]);
}
pub fn head_min(out: &mut Vec<u8>, major: u8, v: u64) {
    head(out, major, W::min(v), v)
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Str {
    Def(W, Vec<u8>),
    Chunks(Vec<(W, Vec<u8>)>),
}
impl Str {
    pub fn concat(&self) -> Vec<u8> {
        match self {
            Str::Def(_, b) => b.clone(),
            Str::Chunks(c) => c.iter().flat_map(|(_, b)| b.iter().copied()).collect(),
        }
    }
    pub fn canonical(b: &[u8]) -> Str {
        Str::Def(W::min(b.len() as u64), b.to_vec())
    }
    pub fn utf8_ok(&self) -> bool {
        match self {
            Str::Def(_, b) => utf8_valid(b),
            Str::Chunks(c) => c.iter().all(|(_, b)| utf8_valid(b)),
        }
    }
    fn enc(&self, major: u8, out: &mut Vec<u8>) {
        match self {
            Str::Def(w, b) => {
                head(out, major, *w, b.len() as u64);
                out.extend_from_slice(b)
            }
            Str::Chunks(c) => {
                out.push(major << 5 | 31);
                for (w, b) in c {
                    head(out, major, *w, b.len() as u64);
                    out.extend_from_slice(b)
                }
                out.push(0xff)
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Item {
    Uint(W, u64),
    Nint(W, u64),
    Bytes(Str),
    Text(Str),
    Array(Option<W>, Vec<Item>),
    Map(Option<W>, Vec<(Item, Item)>),
    Tag(W, u64, Box<Item>),
    /// simple value; immediate (0..=19) or in one byte
    Simple { imm: bool, v: u8 },
    /// 20 false, 21 true, 22 null, 23 undefined
    Const(u8),
    F16(u16),
    F32(u32),
    F64(u64),
}

impl Item {
    pub fn uint(v: u64) -> Item {
        Item::Uint(W::min(v), v)
    }
    pub fn nint(v: u64) -> Item {
        Item::Nint(W::min(v), v)
    }
    pub fn bytes(b: &[u8]) -> Item {
        Item::Bytes(Str::canonical(b))
    }
    pub fn text(s: &str) -> Item {
        Item::Text(Str::canonical(s.as_bytes()))
    }
    pub fn array(v: Vec<Item>) -> Item {
        Item::Array(Some(W::min(v.len() as u64)), v)
    }
    pub fn map(v: Vec<(Item, Item)>) -> Item {
        Item::Map(Some(W::min(v.len() as u64)), v)
    }
    pub fn tag(t: u64, i: Item) -> Item {
        Item::Tag(W::min(t), t, Box::new(i))
    }
    pub fn bool(b: bool) -> Item {
        Item::Const(if b { 21 } else { 20 })
    }
    pub fn null() -> Item {
        Item::Const(22)
    }

    pub fn enc(&self, out: &mut Vec<u8>) {
        match self {
            Item::Uint(w, v) => head(out, 0, *w, *v),
            Item::Nint(w, v) => head(out, 1, *w, *v),
            Item::Bytes(s) => s.enc(2, out),
            Item::Text(s) => s.enc(3, out),
            Item::Array(w, v) => {
                match w {
                    Some(w) => head(out, 4, *w, v.len() as u64),
                    None => out.push(0x9f),
                }
                for i in v {
                    i.enc(out)
                }
                if w.is_none() {
                    out.push(0xff)
                }
            }
            Item::Map(w, v) => {
                match w {
                    Some(w) => head(out, 5, *w, v.len() as u64),
                    None => out.push(0xbf),
                }
                for (k, i) in v {
                    k.enc(out);
                    i.enc(out)
                }
                if w.is_none() {
                    out.push(0xff)
                }
            }
            Item::Tag(w, t, i) => {
                head(out, 6, *w, *t);
                i.enc(out)
            }
            Item::Simple { imm: true, v } => out.push(0xe0 | v),
            Item::Simple { imm: false, v } => out.extend_from_slice(&[0xf8, *v]),
            Item::Const(c) => out.push(0xe0 | c),
            Item::F16(v) => {
                out.push(0xf9);
                out.extend_from_slice(&v.to_be_bytes())
            }
            Item::F32(v) => {
                out.push(0xfa);
                out.extend_from_slice(&v.to_be_bytes())
            }
            Item::F64(v) => {
                out.push(0xfb);
                out.extend_from_slice(&v.to_be_bytes())
            }
        }
    }
    pub fn to_vec(&self) -> Vec<u8> {
        let mut v = Vec::new();
        self.enc(&mut v);
        v
    }
    /// the text of this very item, if it is one, is valid chunk by chunk
    pub fn own_text_ok(&self) -> bool {
        match self {
            Item::Text(s) => s.utf8_ok(),
            _ => true,
        }
    }
    pub fn has_children(&self) -> bool {
        match self {
            Item::Array(_, v) => !v.is_empty(),
            Item::Map(_, v) => !v.is_empty(),
            Item::Tag(..) => true,
            _ => false,
        }
    }
    pub fn is_indefinite(&self) -> bool {
        matches!(self, Item::Array(None, _) | Item::Map(None, _) | Item::Bytes(Str::Chunks(_)) | Item::Text(Str::Chunks(_)))
    }
    pub fn nodes(&self) -> usize {
        1 + match self {
            Item::Array(_, v) => v.iter().map(|i| i.nodes()).sum(),
            Item::Map(_, v) => v.iter().map(|(k, i)| k.nodes() + i.nodes()).sum(),
            Item::Tag(_, _, i) => i.nodes(),
            _ => 0,
        }
    }
    pub fn any(&self, f: &mut dyn FnMut(&Item) -> bool) -> bool {
        if f(self) {
            return true;
        }
        match self {
            Item::Array(_, v) => v.iter().any(|i| i.any(f)),
            Item::Map(_, v) => v.iter().any(|(k, i)| k.any(f) || i.any(f)),
            Item::Tag(_, _, i) => i.any(f),
            _ => false,
        }
    }
}

/// UTF-8 as in RFC 3629 (written out, not std's)
pub fn utf8_valid(b: &[u8]) -> bool {
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        let (n, lo, hi) = match c {
            0x00..=0x7f => (0, 0x80, 0xbf),
            0xc2..=0xdf => (1, 0x80, 0xbf),
            0xe0 => (2, 0xa0, 0xbf),
            0xe1..=0xec | 0xee | 0xef => (2, 0x80, 0xbf),
            0xed => (2, 0x80, 0x9f),
            0xf0 => (3, 0x90, 0xbf),
            0xf1..=0xf3 => (3, 0x80, 0xbf),
            0xf4 => (3, 0x80, 0x8f),
            _ => return false,
        };
        for k in 0..n {
            let Some(&x) = b.get(i + 1 + k) else { return false };
            let (l, h) = if k == 0 { (lo, hi) } else { (0x80, 0xbf) };
            if x < l || x > h {
                return false;
            }
        }
        i += 1 + n;
    }
    true
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bad {
    /// some continuation of the input is well-formed
    Truncated,
    /// none is
    Malformed,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Head {
    pub major: u8,
    pub ai: u8,
    pub v: u64,
    pub len: usize,
}
/// head at the start of the bytes (also a break, or an indefinite head, with ai 31)
pub fn read_head(b: &[u8]) -> Result<Head, Bad> {
    let Some(&x) = b.first() else { return Err(Bad::Truncated) };
    let (major, ai) = (x >> 5, x & 31);
    let n = match ai {
        0..=23 => return Ok(Head { major, ai, v: ai as u64, len: 1 }),
        24 => 1,
        25 => 2,
        26 => 4,
        27 => 8,
        31 if matches!(major, 2 | 3 | 4 | 5 | 7) => return Ok(Head { major, ai, v: 0, len: 1 }),
        _ => return Err(Bad::Malformed),
    };
    if b.len() < 1 + n {
        return Err(Bad::Truncated);
    }
    let mut v = 0u64;
    for i in 0..n {
        v = v << 8 | b[1 + i] as u64;
    }
    Ok(Head { major, ai, v, len: 1 + n })
}
fn width(ai: u8) -> W {
    match ai {
        24 => W::B1,
        25 => W::B2,
        26 => W::B4,
        27 => W::B8,
        _ => W::Imm,
    }
}

enum Ctx {
    /// items still to come (a map of n pairs counts 2n)
    Count(u128),
    IndefArray,
    IndefMap(bool),
    Chunks(u8),
}
/// length of the well-formed item at the start of the bytes
pub fn extent(b: &[u8]) -> Result<usize, Bad> {
    let mut st: Vec<Ctx> = Vec::new();
    let mut p = 0usize;
    loop {
        let h = read_head(&b[p..])?;
        let brk = h.major == 7 && h.ai == 31;
        let mut done = true;
        if let Some(Ctx::Chunks(m)) = st.last() {
            if !brk && (h.major != *m || h.ai == 31) {
                return Err(Bad::Malformed);
            }
        }
        p += h.len;
        if brk {
            match st.pop() {
                Some(Ctx::IndefArray) | Some(Ctx::IndefMap(false)) | Some(Ctx::Chunks(_)) => {}
                _ => return Err(Bad::Malformed),
            }
        } else {
            match h.major {
                2 | 3 => {
                    if h.ai == 31 {
                        st.push(Ctx::Chunks(h.major));
                        done = false;
                    } else {
                        if h.v > (b.len() - p) as u64 {
                            return Err(Bad::Truncated);
                        }
                        p += h.v as usize;
                    }
                }
                4 | 5 => {
                    if h.ai == 31 {
                        st.push(if h.major == 4 { Ctx::IndefArray } else { Ctx::IndefMap(false) });
                        done = false;
                    } else if h.v > 0 {
                        st.push(Ctx::Count(h.v as u128 * (h.major as u128 - 3)));
                        done = false;
                    }
                }
                6 => {
                    st.push(Ctx::Count(1));
                    done = false;
                }
                _ => {}
            }
        }
        // an item (or a chunk) has been completed: account for it in the enclosing ones
        while done {
            match st.last_mut() {
                None => return Ok(p),
                Some(Ctx::Count(n)) => {
                    *n -= 1;
                    if *n == 0 {
                        st.pop();
                    } else {
                        done = false;
                    }
                }
                Some(Ctx::IndefMap(odd)) => {
                    *odd = !*odd;
                    done = false;
                }
                Some(_) => done = false,
            }
        }
    }
}

/// parse a well-formed item (extent succeeded); None when nested deeper than `depth`
pub fn parse(b: &[u8], depth: u32) -> Option<(Item, usize)> {
    let h = read_head(b).ok()?;
    let mut p = h.len;
    let w = width(h.ai);
    let str_ = |p: &mut usize| -> Option<Str> {
        if h.ai != 31 {
            let e = p.checked_add(h.v as usize)?;
            let s = Str::Def(w, b.get(*p..e)?.to_vec());
            *p = e;
            return Some(s);
        }
        let mut c = Vec::new();
        while *b.get(*p)? != 0xff {
            let h = read_head(&b[*p..]).ok()?;
            let s = *p + h.len;
            let e = s.checked_add(h.v as usize)?;
            c.push((width(h.ai), b.get(s..e)?.to_vec()));
            *p = e;
        }
        *p += 1;
        Some(Str::Chunks(c))
    };
    let it = match h.major {
        0 => Item::Uint(w, h.v),
        1 => Item::Nint(w, h.v),
        2 => Item::Bytes(str_(&mut p)?),
        3 => Item::Text(str_(&mut p)?),
        4 | 5 => {
            if depth == 0 {
                return None;
            }
            let indef = h.ai == 31;
            let n = if h.major == 5 { h.v.checked_mul(2)? } else { h.v };
            let mut v = Vec::new();
            loop {
                if indef {
                    if *b.get(p)? == 0xff {
                        p += 1;
                        break;
                    }
                } else if v.len() as u64 == n {
                    break;
                }
                let (i, l) = parse(b.get(p..)?, depth - 1)?;
                v.push(i);
                p += l;
            }
            let w = if indef { None } else { Some(w) };
            if h.major == 4 {
                Item::Array(w, v)
            } else {
                let mut m = Vec::new();
                let mut it = v.into_iter();
                while let (Some(k), Some(v)) = (it.next(), it.next()) {
                    m.push((k, v))
                }
                Item::Map(w, m)
            }
        }
        6 => {
            if depth == 0 {
                return None;
            }
            let (i, l) = parse(b.get(p..)?, depth - 1)?;
            p += l;
            Item::Tag(w, h.v, Box::new(i))
        }
        _ => match h.ai {
            0..=19 => Item::Simple { imm: true, v: h.ai },
            20..=23 => Item::Const(h.ai),
            24 => Item::Simple { imm: false, v: h.v as u8 },
            25 => Item::F16(h.v as u16),
            26 => Item::F32(h.v as u32),
            27 => Item::F64(h.v),
            _ => return None,
        },
    };
    Some((it, p))
}

/// value of a half precision number, by its definition
pub fn half_to_f64(h: u16) -> f64 {
    let sign = if h >> 15 == 1 { -1.0 } else { 1.0 };
    let e = ((h >> 10) & 31) as i32;
    let m = (h & 0x3ff) as f64;
    match e {
        0 => sign * m * 2f64.powi(-24),
        31 if m == 0.0 => sign * f64::INFINITY,
        31 => f64::NAN,
        _ => sign * (1.0 + m / 1024.0) * 2f64.powi(e - 15),
    }
}
/// bits of the single precision number nearest to a double (ties to even); NaN: None
pub fn f64_to_f32_bits(b: u64) -> Option<u32> {
    let sign = ((b >> 63) as u32) << 31;
    let e = ((b >> 52) & 0x7ff) as i32;
    let m = b & 0xf_ffff_ffff_ffff;
    if e == 0x7ff {
        return if m == 0 { Some(sign | 0x7f80_0000) } else { None };
    }
    if e == 0 {
        // far below half of the smallest single precision subnormal
        return Some(sign);
    }
    let exp = e - 1023;
    if exp > 127 {
        return Some(sign | 0x7f80_0000);
    }
    let sig = (1u64 << 52) | m;
    // number of significand bits to drop, so that the result is in units of the last place
    let drop = if exp >= -126 { 29 } else { 29 + (-126 - exp) };
    if drop > 54 {
        return Some(sign);
    }
    let q = sig >> drop;
    let rem = sig & ((1u64 << drop) - 1);
    let half = 1u64 << (drop - 1);
    let q = if rem > half || (rem == half && q & 1 == 1) { q + 1 } else { q };
    // q may carry into the next binade: plain addition on the encoding does the right thing
    let base = if exp >= -126 { ((exp + 127) as u64) << 23 } else { 0 };
    let bits = if exp >= -126 { base + q - (1 << 23) } else { q };
    Some(sign | bits as u32)
}

pub fn hex(b: &[u8]) -> String {
    crate::engine::hex_short(b)
}
