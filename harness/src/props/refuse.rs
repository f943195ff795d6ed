//! C29: the derive refuses, when it is compiled, what it cannot represent, and nothing else.
//! Definitions are generated as text and given to rustc against the current build of the library.
use crate::engine::{Cx, Prop, Tier, R};
use crate::tape::{Rng, Src};
use crate::ensure;
use std::io::Write;
use std::process::{Command, Stdio};

/// what is wrong with a definition
#[derive(Clone, Copy, PartialEq, Debug)]
enum Bad {
    Union,
    Generic,
    UnitStruct,
    EnumAttrOnStruct,
    UnknownAttr,
    UnknownStructure,
    BadNumber,
    BareAttr,
    TaggedFlat,
    LastOptShape,
    MapUnnamed,
    MapTooLarge,
    KeyOverflow,
    UnknownFieldAttr,
    StructAttrOnEnum,
    IntWithFields,
    KindMissing,
    KindWithoutField,
    KindManyFields,
    KindTwice,
    UnknownEnumType,
    UnknownKind,
    VariantOverflow,
    NotOptional,
    NoCodec,
}
use Bad::*;
const BAD: [Bad; 25] = [
    Union, Generic, UnitStruct, EnumAttrOnStruct, UnknownAttr, UnknownStructure, BadNumber, BareAttr, TaggedFlat, LastOptShape, MapUnnamed,
    MapTooLarge, KeyOverflow, UnknownFieldAttr, StructAttrOnEnum, IntWithFields, KindMissing, KindWithoutField, KindManyFields, KindTwice,
    UnknownEnumType, UnknownKind, VariantOverflow, NotOptional, NoCodec,
];
impl Bad {
    fn why(self) -> &'static str {
        match self {
            Union => "a union",
            Generic => "a generic type",
            UnitStruct => "a unit structure",
            EnumAttrOnStruct => "an attribute of enums on a structure",
            UnknownAttr => "an unknown attribute",
            UnknownStructure => "an unknown representation of structures",
            BadNumber => "a number that is not one",
            BareAttr => "an attribute without a list",
            TaggedFlat => "a tagged flat structure that is not one item",
            LastOptShape => "an optional last field without a field",
            MapUnnamed => "a map of unnamed fields",
            MapTooLarge => "a map of more than 64 fields",
            KeyOverflow => "keys beyond the largest integer",
            UnknownFieldAttr => "an unknown attribute of a field",
            StructAttrOnEnum => "an attribute of structures on an enum",
            IntWithFields => "an integer enum with fields",
            KindMissing => "a type-directed variant without its type",
            KindWithoutField => "a type-directed variant without a field that is not null",
            KindManyFields => "a type-directed variant with several fields",
            KindTwice => "two type-directed variants of the same type",
            UnknownEnumType => "an unknown representation of enums",
            UnknownKind => "an unknown type of a type-directed variant",
            VariantOverflow => "variant numbers beyond the largest integer",
            NotOptional => "an optional field that is not an option",
            NoCodec => "a field of a type without encoding",
        }
    }
    /// refused by the compiler only once the generated code is type checked
    fn late(self) -> bool {
        matches!(self, NotOptional | NoCodec)
    }
}

const NAMES: [&str; 40] = [
    "amount", "reader", "writer", "array", "map", "key", "k", "v", "r", "e", "value", "vec", "data", "tag", "len", "variant", "index", "read_tag",
    "tag_reader", "nb_values", "nb_actual_items", "cbor_type", "field0", "field1", "r#type", "r#match", "r#fn", "Upper", "_x", "n", "item", "string", "u64",
    "cbored", "self_", "context", "height", "owner", "format", "result",
];
const TYPES: [&str; 8] = ["u64", "u8", "bool", "String", "Vec<u8>", "[u8; 4]", "::cbored::DataOwned", "u32"];
const KINDS: [&str; 8] = ["positive", "negative", "array", "map", "tag", "bytes", "text", "null"];

struct Field {
    /// attributes that are not for the derive
    deco: &'static str,
    vis: &'static str,
    attrs: Vec<String>,
    name: String,
    ty: String,
}
struct Var {
    deco: &'static str,
    discriminant: Option<u8>,
    attrs: Vec<String>,
    name: String,
    named: bool,
    fields: Vec<Field>,
}
/// consecutive numbers from the start without the skipped ones, if there are enough of them
fn numbers_fit(start: u64, skips: &[u64], n: usize) -> bool {
    let mut x = start as u128;
    for _ in 0..n {
        while skips.iter().any(|s| *s as u128 == x) {
            x += 1;
        }
        if x > u64::MAX as u128 {
            return false;
        }
        x += 1;
    }
    true
}
/// a start and skipped numbers for n numbers, which fit or do not
fn start_skips(s: &mut Src, n: usize, fit: bool) -> (Option<u64>, Vec<u64>) {
    let mut skips = Vec::new();
    if fit {
        let room = n as u64 + 8;
        let start = match s.below(5) {
            0 | 1 => None,
            2 => Some(s.below(40)),
            3 => Some(u64::MAX - room - s.below(4)),
            // exactly to the end
            _ => Some(u64::MAX - (n as u64).max(1) + 1),
        };
        if start.map_or(true, |x| x <= u64::MAX - room) {
            for _ in 0..s.below(4) {
                skips.push(start.unwrap_or(0) + s.below(n as u64 + 3))
            }
        }
        debug_assert!(numbers_fit(start.unwrap_or(0), &skips, n));
        (start, skips)
    } else {
        // the last one does not fit; skipping, or not
        let room = n as u64 - 1 + s.below(2);
        let start = u64::MAX - s.below(room);
        let mut k = start;
        while numbers_fit(start, &skips, n) {
            skips.push(k);
            k = k.saturating_add(1);
        }
        (Some(start), skips)
    }
}
fn deco(s: &mut Src) -> &'static str {
    if s.chance(200) {
        return "";
    }
    *s.pick(&["/** a comment */ ", "#[doc = \"cborrepr(tag = 5)\"] ", "#[allow(dead_code)] ", "#[doc(hidden)] ", "#[cfg(all())] ", "#[cfg_attr(all(), doc = \"x\")] ", "#[deprecated] "])
}
fn fields(s: &mut Src, n: usize, named: bool) -> Vec<Field> {
    let off = s.idx(NAMES.len());
    let step = *s.pick(&[1usize, 3, 7, 11]);
    (0..n)
        .map(|i| {
            let mut name = NAMES[(off + i * step) % NAMES.len()].to_string();
            if i >= NAMES.len() {
                name = format!("{}{}", name.replace("r#", ""), i)
            }
            Field { deco: deco(s), vis: s.pick(&["", "", "pub ", "pub(crate) "]), attrs: vec![], name: if named { name } else { String::new() }, ty: s.pick(&TYPES).to_string() }
        })
        .collect()
}
fn attrs(s: &mut Src, mut list: Vec<String>) -> String {
    if list.is_empty() {
        return String::new();
    }
    if s.chance(70) {
        let n = s.idx(list.len());
        list.rotate_left(n)
    }
    if s.bool() {
        list.iter().map(|a| format!("#[cborrepr({})] ", a)).collect()
    } else {
        format!("#[cborrepr({})] ", list.join(", "))
    }
}
fn field_text(f: &Field, vis: bool) -> String {
    let a: String = f.attrs.iter().map(|a| format!("#[cborrepr({})] ", a)).collect();
    let vis = if vis { f.vis } else { "" };
    if f.name.is_empty() {
        format!("{}{}{}{}", f.deco, a, vis, f.ty)
    } else {
        format!("{}{}{}{}: {}", f.deco, a, vis, f.name, f.ty)
    }
}
fn list_text(fs: &[Field], vis: bool) -> String {
    fs.iter().map(|f| field_text(f, vis)).collect::<Vec<_>>().join(", ")
}
fn bad_number(s: &mut Src) -> String {
    s.pick(&["\"5\"", "18446744073709551616", "-1", "1.5", "true", "five"]).to_string()
}

/// a definition on a single line
fn definition(s: &mut Src, bad: Option<Bad>) -> String {
    let is_enum = match bad {
        None => s.bool(),
        Some(Generic | UnknownAttr | BadNumber | BareAttr | UnknownFieldAttr | NoCodec) => s.bool(),
        Some(
            StructAttrOnEnum | IntWithFields | KindMissing | KindWithoutField | KindManyFields | KindTwice | UnknownEnumType | UnknownKind
            | VariantOverflow,
        ) => true,
        _ => false,
    };
    let body = if is_enum { enum_def(s, bad) } else { struct_def(s, bad) };
    let around = match s.below(8) {
        0 => "type Result<T> = ::std::result::Result<T, ()>; ",
        1 => "mod cbored {} ",
        2 => "use ::cbored::*; ",
        3 => "use ::cbored::{Decode, Encode, Reader, Writer}; ",
        _ => "",
    };
    if s.chance(20) {
        return format!("{}fn local() {{ {} }}", around, body);
    }
    format!("{}{}", around, body)
}
fn generics(s: &mut Src, ty: &mut String) -> &'static str {
    match s.below(4) {
        0 => {
            *ty = "T".into();
            "<T>"
        }
        1 => {
            *ty = "::std::borrow::Cow<'a, str>".into();
            "<'a>"
        }
        2 => {
            *ty = "[u8; N]".into();
            "<const N: usize>"
        }
        _ => {
            *ty = "::std::vec::Vec<T>".into();
            "<T: ::cbored::Decode + ::cbored::Encode>"
        }
    }
}
fn extra_attr(s: &mut Src, bad: Option<Bad>, list: &mut Vec<String>) {
    match bad {
        Some(UnknownAttr) => {
            list.push(s.pick(&["tags = 5", "mandatory", "skip = 1", "Structure = \"array\"", "variant = \"vec\"", "starts_at = 1", "skipkeys = 1"]).to_string())
        }
        _ => {}
    }
}
fn bare(s: &mut Src) -> &'static str {
    *s.pick(&["#[cborrepr] ", "#[cborrepr = \"array\"] ", "#[cborrepr = 5] "])
}
fn struct_def(s: &mut Src, bad: Option<Bad>) -> String {
    let shape = match bad {
        Some(TaggedFlat) => 0,
        Some(LastOptShape) => 2,
        Some(MapUnnamed | MapTooLarge | KeyOverflow) => 3,
        Some(NotOptional) => 2 + s.below(2),
        Some(Union) => *s.pick(&[0, 1, 3]),
        _ => s.below(4),
    };
    let named = match (shape, bad) {
        (_, Some(MapUnnamed)) => false,
        (2 | 3, _) => true,
        (_, Some(Union)) => true,
        _ => s.bool(),
    };
    let mut n = match bad {
        Some(TaggedFlat) => *s.pick(&[0usize, 2, 3, 5]),
        Some(LastOptShape) => 0,
        Some(MapTooLarge) => 65 + s.idx(4),
        Some(KeyOverflow) => 2 + s.idx(4),
        _ => *s.pick(&[0usize, 1, 2, 3, 4, 6]),
    };
    if shape == 3 && bad.is_none() && s.chance(20) {
        n = 64
    }
    if (shape == 2 && bad != Some(LastOptShape)) || matches!(bad, Some(Union | Generic | MapUnnamed | UnknownFieldAttr | NotOptional | NoCodec)) {
        n = n.max(1)
    }
    let mut fs = fields(s, n, named);
    let mut list = Vec::new();
    match (shape, bad) {
        (_, Some(UnknownStructure)) => {
            list.push(format!("structure = \"{}\"", s.pick(&["Array", "", "list", "mapstr", "array_opt", "tagvariant", "map", "flat "])))
        }
        (0, _) => {
            if s.bool() {
                list.push("structure = \"flat\"".to_string())
            }
        }
        (1, _) => list.push("structure = \"array\"".to_string()),
        (2, _) => {
            list.push("structure = \"array_lastopt\"".to_string());
            if let Some(f) = fs.last_mut() {
                if bad != Some(NotOptional) {
                    f.ty = format!("Option<{}>", f.ty)
                }
            }
        }
        _ => {
            list.push("structure = \"mapint\"".to_string());
            let wrong = s.idx(n.max(1));
            for (i, f) in fs.iter_mut().enumerate() {
                if bad == Some(NotOptional) && i == wrong {
                    continue;
                }
                if s.bool() {
                    f.attrs.push("mandatory".into())
                } else {
                    f.ty = format!("Option<{}>", f.ty)
                }
            }
            let (start, skips) = start_skips(s, n.max(1), bad != Some(KeyOverflow));
            if let Some(x) = start {
                list.push(format!("map_starts_at = {}", x))
            }
            for k in skips {
                list.push(format!("skipkey = {}", k))
            }
        }
    }
    let tag_ok = shape != 0 || n == 1;
    if bad == Some(TaggedFlat) || (tag_ok && s.bool()) {
        list.push(format!("tag = {}", s.u64()))
    }
    match bad {
        Some(EnumAttrOnStruct) => list.push(s.pick(&["enumtype = \"tagvariant\"", "enumtype = \"enumint\"", "variant_starts_at = 0", "variant_starts_at = 7"]).to_string()),
        Some(BadNumber) => {
            let k = *s.pick(&["tag", "map_starts_at", "skipkey"]);
            let v = bad_number(s);
            list.push(format!("{} = {}", k, v))
        }
        Some(UnknownFieldAttr) => {
            let i = s.idx(n);
            fs[i].attrs.push(s.pick(&["required", "variant = \"list\"", "cbortype = \"float\"", "tag = 1", "skip", "Mandatory", "skipkey = 1"]).to_string())
        }
        Some(NoCodec) => {
            let i = s.idx(n);
            let t = *s.pick(&["char", "()", "::std::collections::HashMap<u64, u64>", "&'static u64", "fn()"]);
            fs[i].ty = if fs[i].ty.starts_with("Option") { format!("Option<{}>", t) } else { t.into() }
        }
        _ => extra_attr(s, bad, &mut list),
    }
    let mut gen = "";
    if bad == Some(Generic) {
        gen = generics(s, &mut fs[0].ty);
    }
    let mut a = attrs(s, list);
    a.insert_str(0, deco(s));
    if bad == Some(BareAttr) {
        let b = bare(s);
        a = if s.bool() { format!("{}{}", a, b) } else { format!("{}{}", b, a) };
    }
    match bad {
        Some(Union) => format!("#[derive(::cbored::CborRepr)] {}pub union Def {{ {} }}", a, fs.iter().map(|f| format!("{}: u64", f.name)).collect::<Vec<_>>().join(", ")),
        Some(UnitStruct) => format!("#[derive(::cbored::CborRepr)] {}pub struct Def;", a),
        _ if named => format!("#[derive(::cbored::CborRepr)] {}pub struct Def{} {{ {} }}", a, gen, list_text(&fs, true)),
        _ => format!("#[derive(::cbored::CborRepr)] {}pub struct Def{}({});", a, gen, list_text(&fs, true)),
    }
}
fn enum_def(s: &mut Src, bad: Option<Bad>) -> String {
    let kind = match bad {
        Some(IntWithFields) => 1,
        Some(KindMissing | KindWithoutField | KindManyFields | KindTwice | UnknownKind) => 2,
        Some(VariantOverflow | NoCodec | Generic | UnknownFieldAttr) => *s.pick(&[0u64, 0, 1]),
        _ => s.below(3),
    };
    // these need a variant with fields
    let kind = if matches!(bad, Some(NoCodec | Generic | UnknownFieldAttr)) { 0 } else { kind };
    let n = match bad {
        Some(VariantOverflow | KindTwice) => 2 + s.idx(4),
        _ => 1 + s.idx(6),
    };
    let mut vars: Vec<Var> = (0..n)
        .map(|i| Var { deco: deco(s), discriminant: None, attrs: vec![], name: ["Alpha", "Bravo", "Result", "Delta", "Ok_", "Vec"][i].to_string(), named: s.bool(), fields: vec![] })
        .collect();
    let first = s.idx(n);
    let mut list = Vec::new();
    match kind {
        0 => {
            if s.bool() {
                list.push("enumtype = \"tagvariant\"".to_string())
            }
            for v in vars.iter_mut() {
                let k = *s.pick(&[0usize, 1, 2, 3]);
                v.fields = fields(s, k, v.named);
                if !v.named && k > 0 && s.chance(60) {
                    v.fields[k - 1].ty = "Vec<u64>".into()
                }
            }
        }
        1 => {
            list.push("enumtype = \"enumint\"".to_string());
            if s.chance(40) {
                let mut d = 0;
                for v in vars.iter_mut() {
                    d += 1 + s.below(9) as u8;
                    v.discriminant = Some(d)
                }
            }
            if bad == Some(IntWithFields) {
                for v in vars.iter_mut() {
                    v.discriminant = None
                }
                let k = 1 + s.idx(2);
                vars[first].fields = fields(s, k, vars[first].named)
            }
        }
        _ => {
            list.push("enumtype = \"enumtype\"".to_string());
            let off = s.idx(8);
            for (i, v) in vars.iter_mut().enumerate() {
                let k = KINDS[(off + i * 3) % 8];
                v.attrs.push(format!("cbortype = \"{}\"", k));
                if k != "null" || s.chance(30) {
                    v.fields = fields(s, 1, v.named)
                }
            }
        }
    }
    match bad {
        Some(KindMissing) => vars[first].attrs.clear(),
        Some(KindWithoutField) => {
            if vars[first].attrs[0].contains("null") {
                vars[first].attrs[0] = "cbortype = \"tag\"".into();
                for (i, v) in vars.iter_mut().enumerate() {
                    if i != first && v.attrs[0].contains("tag") {
                        v.attrs[0] = "cbortype = \"null\"".into()
                    }
                }
            }
            vars[first].fields.clear()
        }
        Some(KindManyFields) => {
            let k = 2 + s.idx(2);
            vars[first].fields = fields(s, k, vars[first].named)
        }
        Some(KindTwice) => {
            let other = (first + 1 + s.idx(n - 1)) % n;
            vars[other].attrs = vars[first].attrs.clone();
            let k = vars[first].fields.len();
            vars[other].fields = fields(s, k, vars[other].named)
        }
        Some(UnknownKind) => vars[first].attrs[0] = format!("cbortype = \"{}\"", s.pick(&["float", "bool", "Positive", "", "string", "undefined", "int"])),
        _ => {}
    }
    if kind != 2 {
        let (start, skips) = start_skips(s, n, bad != Some(VariantOverflow));
        if let Some(x) = start {
            list.push(format!("variant_starts_at = {}", x))
        }
        for k in skips {
            list.push(format!("skipkey = {}", k))
        }
    }
    let mut gen = "";
    match bad {
        Some(StructAttrOnEnum) => list.push(s.pick(&["structure = \"array\"", "structure = \"flat\"", "tag = 5", "tag = 0", "map_starts_at = 0", "map_starts_at = 3"]).to_string()),
        Some(UnknownEnumType) => {
            list.retain(|a| !a.starts_with("enumtype"));
            list.push(format!("enumtype = \"{}\"", s.pick(&["TagVariant", "", "int", "array", "tag_variant", "enum"])))
        }
        Some(BadNumber) => {
            let k = *s.pick(&["variant_starts_at", "skipkey"]);
            let v = bad_number(s);
            list.push(format!("{} = {}", k, v))
        }
        Some(UnknownFieldAttr | NoCodec | Generic) => {
            let named = vars[first].named;
            let mut fs = fields(s, 2, named);
            let i = s.idx(2);
            match bad {
                Some(NoCodec) => fs[i].ty = s.pick(&["char", "()", "::std::collections::HashMap<u64, u64>", "fn()"]).to_string(),
                Some(Generic) => gen = generics(s, &mut fs[i].ty),
                _ => fs[i].attrs.push(s.pick(&["required", "variant = \"list\"", "cbortype = \"float\"", "tag = 1", "skip"]).to_string()),
            }
            vars[first].fields = fs
        }
        _ => extra_attr(s, bad, &mut list),
    }
    let mut a = attrs(s, list);
    a.insert_str(0, deco(s));
    if bad == Some(BareAttr) {
        let b = bare(s);
        a = if s.bool() { format!("{}{}", a, b) } else { format!("{}{}", b, a) };
    }
    let vs: Vec<String> = vars
        .iter()
        .map(|v| {
            let a: String = v.deco.to_string() + &v.attrs.iter().map(|a| format!("#[cborrepr({})] ", a)).collect::<String>();
            if let Some(d) = v.discriminant {
                format!("{}{} = {}", a, v.name, d)
            } else if v.fields.is_empty() {
                format!("{}{}{}", a, v.name, if v.named { s.pick(&["", " {}", "()"]) } else { "" })
            } else if v.named {
                format!("{}{} {{ {} }}", a, v.name, list_text(&v.fields, false))
            } else {
                format!("{}{}({})", a, v.name, list_text(&v.fields, false))
            }
        })
        .collect();
    format!("#[derive(::cbored::CborRepr)] {}pub enum Def{} {{ {} }}", a, gen, vs.join(", "))
}

/// the errors of rustc for these definitions, by definition
fn compile(defs: &[String]) -> Vec<Option<String>> {
    let rlib = std::env::var("VERIF_RLIB").expect("VERIF_RLIB is set by check.sh");
    let deps = std::path::Path::new(&rlib).parent().unwrap().to_owned();
    let out = std::path::Path::new(&rlib).parent().unwrap().join(format!("c29-{}-{:?}.rmeta", std::process::id(), std::thread::current().id()));
    let mut src = String::from("#![allow(warnings)]\n");
    for (i, d) in defs.iter().enumerate() {
        src.push_str(&format!("pub mod m{} {{ {} }}\n", i, d));
    }
    let mut ch = Command::new("rustc")
        .env("RUSTUP_TOOLCHAIN", "stable")
        .args(["--edition", "2021", "--crate-type", "lib", "--crate-name", "defs", "--emit=metadata", "--cap-lints", "allow", "--error-format=short"])
        .arg("-L")
        .arg(format!("dependency={}", deps.display()))
        .arg("--extern")
        .arg(format!("cbored={}", rlib))
        .arg("-o")
        .arg(&out)
        .arg("-")
        .stdin(Stdio::piped())
        .stdout(Stdio::null())
        .stderr(Stdio::piped())
        .spawn()
        .expect("rustc");
    ch.stdin.take().unwrap().write_all(src.as_bytes()).expect("rustc reads its input");
    let o = ch.wait_with_output().expect("rustc");
    let _ = std::fs::remove_file(&out);
    let text = String::from_utf8_lossy(&o.stderr);
    let mut v = vec![None; defs.len()];
    let mut any = false;
    for l in text.lines() {
        let Some(rest) = l.strip_prefix("<anon>:") else { continue };
        let Some((line, msg)) = rest.split_once(':') else { continue };
        if !msg.contains("error") {
            continue;
        }
        if let Some(k) = line.parse::<usize>().ok().and_then(|n| n.checked_sub(2)).filter(|k| *k < defs.len()) {
            any = true;
            v[k].get_or_insert(l.to_string());
        }
    }
    assert!(o.status.success() || any, "rustc: {}", text);
    v
}
fn accepts(defs: &[String]) -> R {
    if defs.is_empty() {
        return Ok(());
    }
    for (d, e) in defs.iter().zip(compile(defs)) {
        if let Some(e) = e {
            return Err(format!("refused: {}\n{}", d, e));
        }
    }
    Ok(())
}
fn refuses(defs: &[(Bad, String)], good: &[String]) -> R {
    if defs.is_empty() {
        return Ok(());
    }
    let mut all: Vec<String> = defs.iter().map(|d| d.1.clone()).collect();
    all.extend(good.iter().cloned());
    let r = compile(&all);
    for ((bad, d), e) in defs.iter().zip(&r) {
        if e.is_none() {
            // an error elsewhere may have kept the compiler from getting to this one
            ensure!(compile(std::slice::from_ref(d))[0].is_some(), "{} is accepted: {}", bad.why(), d);
        }
    }
    for (d, e) in good.iter().zip(&r[defs.len()..]) {
        if let Some(e) = e {
            return Err(format!("refused: {}\n{}", d, e));
        }
    }
    Ok(())
}
fn batch(bad: Vec<(Bad, String)>, good: Vec<String>, cx: &mut Cx) -> R {
    for (b, d) in &bad {
        cx.input(d.as_bytes());
        cx.label(b.why());
    }
    for d in &good {
        cx.input(d.as_bytes());
        cx.label("supported");
    }
    cx.nontrivial_if(!bad.is_empty());
    cx.describe(|| format!("{} definitions to refuse, {} to accept; first: {}", bad.len(), good.len(), bad.first().map(|d| &d.1).or(good.first()).map_or("", |d| d)));
    let (late, early): (Vec<_>, Vec<_>) = bad.into_iter().partition(|d| d.0.late());
    accepts(&good)?;
    refuses(&early, &good)?;
    refuses(&late, &good)
}
fn c29_case(s: &mut Src, cx: &mut Cx) -> R {
    let mut bad = Vec::new();
    let mut good = Vec::new();
    let n = 1 + s.idx(24);
    for _ in 0..n {
        if s.chance(150) {
            let b = *s.pick(&BAD);
            bad.push((b, definition(s, Some(b))))
        } else {
            good.push(definition(s, None))
        }
    }
    batch(bad, good, cx)
}
fn c29_enum_n(t: Tier) -> u64 {
    (if t == Tier::Quick { 2 } else { 20 }) * BAD.len() as u64
}
fn c29_enum(i: u64, cx: &mut Cx) -> R {
    let b = BAD[i as usize % BAD.len()];
    let mut s = Src::fresh(vec![], Rng::new(i));
    let bad = (0..10).map(|_| (b, definition(&mut s, Some(b)))).collect();
    batch(bad, vec![], cx)
}
pub const C29: Prop = Prop {
    id: "C29",
    rule: "the batch has definitions that must be refused; distinct by the text of the definitions",
    assumptions: &["definitions are compiled with rustc stable against the current build of the library, edition 2021", "the names of the standard prelude other than Result keep their meaning where the type is defined"],
    enum_n: c29_enum_n,
    enum_case: c29_enum,
    case: c29_case,
    quick: 500,
    thorough: 6_000,
};
