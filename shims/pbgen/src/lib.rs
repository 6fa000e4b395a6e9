//! Generates the Rust structs `prost-build` would, for the proto3 subset that
//! optiprism's own `.proto` files use. Called from the mirrors' build scripts.

use std::fmt::Write;
use std::path::Path;

#[derive(Clone, Debug, PartialEq)]
enum Label {
    Plain,
    Optional,
    Repeated,
}
#[derive(Clone, Debug)]
struct Field {
    label: Label,
    ty: String,
    name: String,
    tag: u32,
}
#[derive(Clone, Debug)]
struct OneOf {
    name: String,
    fields: Vec<Field>,
}
#[derive(Clone, Debug)]
struct Msg {
    name: String,
    fields: Vec<Field>,
    oneofs: Vec<OneOf>,
}
#[derive(Clone, Debug)]
struct Enum {
    name: String,
    vals: Vec<(String, i32)>,
}

fn tokens(src: &str) -> Vec<String> {
    let mut out = vec![];
    let mut it = src.chars().peekable();
    while let Some(c) = it.next() {
        if c.is_whitespace() {
            continue;
        }
        if c == '/' && it.peek() == Some(&'/') {
            for c in it.by_ref() {
                if c == '\n' {
                    break;
                }
            }
            continue;
        }
        if c == '/' && it.peek() == Some(&'*') {
            let mut p = ' ';
            for c in it.by_ref() {
                if p == '*' && c == '/' {
                    break;
                }
                p = c;
            }
            continue;
        }
        if c == '"' {
            let mut s = String::from("\"");
            for c in it.by_ref() {
                if c == '"' {
                    break;
                }
                s.push(c);
            }
            out.push(s);
            continue;
        }
        if c.is_alphanumeric() || c == '_' || c == '-' {
            let mut s = String::from(c);
            while let Some(c) = it.peek() {
                if c.is_alphanumeric() || *c == '_' || *c == '.' {
                    s.push(*c);
                    it.next();
                } else {
                    break;
                }
            }
            out.push(s);
            continue;
        }
        out.push(c.to_string());
    }
    out
}

fn camel(s: &str) -> String {
    // heck's upper camel case, for identifiers without inner case changes lost
    let mut out = String::new();
    for w in s.split('_').filter(|w| !w.is_empty()) {
        let cs: Vec<char> = w.chars().collect();
        for (i, c) in cs.iter().enumerate() {
            let start = i == 0
                || (c.is_uppercase() && cs[i - 1].is_lowercase())
                || (c.is_uppercase() && cs[i - 1].is_uppercase() && cs.get(i + 1).map(|n| n.is_lowercase()).unwrap_or(false));
            if start {
                out.extend(c.to_uppercase());
            } else {
                out.extend(c.to_lowercase());
            }
        }
    }
    out
}
fn snake(s: &str) -> String {
    let cs: Vec<char> = s.chars().collect();
    let mut out = String::new();
    for (i, c) in cs.iter().enumerate() {
        if c.is_uppercase() && i > 0 && cs[i - 1] != '_' && (cs[i - 1].is_lowercase() || cs.get(i + 1).map(|n| n.is_lowercase()).unwrap_or(false)) {
            out.push('_');
        }
        out.extend(c.to_lowercase());
    }
    out
}
fn ident(s: &str) -> String {
    let s = snake(s);
    match s.as_str() {
        "type" | "match" | "mod" | "fn" | "use" | "ref" | "move" | "in" | "where" | "loop" | "enum" | "struct" => format!("r#{s}"),
        _ => s,
    }
}
fn variant(e: &str, v: &str) -> String {
    let (e, v) = (camel(e), camel(v));
    match v.strip_prefix(&e) {
        Some(r) if r.chars().next().map(|c| c.is_uppercase()).unwrap_or(false) => r.to_string(),
        _ => v,
    }
}

fn parse(src: &str) -> (String, Vec<Msg>, Vec<Enum>) {
    let t = tokens(src);
    let mut i = 0;
    let (mut pkg, mut msgs, mut enums) = (String::new(), vec![], vec![]);
    while i < t.len() {
        match t[i].as_str() {
            "syntax" | "import" | "option" => {
                while t[i] != ";" {
                    i += 1
                }
                i += 1;
            }
            "package" => {
                pkg = t[i + 1].clone();
                i += 3;
            }
            "message" => {
                let mut m = Msg { name: t[i + 1].clone(), fields: vec![], oneofs: vec![] };
                i += 3;
                while t[i] != "}" {
                    match t[i].as_str() {
                        "enum" => i = parse_enum(&t, i, &mut enums),
                        "reserved" | "option" => {
                            while t[i] != ";" {
                                i += 1
                            }
                            i += 1;
                        }
                        "oneof" => {
                            let mut o = OneOf { name: t[i + 1].clone(), fields: vec![] };
                            i += 3;
                            while t[i] != "}" {
                                let (f, n) = parse_field(&t, i);
                                o.fields.push(f);
                                i = n;
                            }
                            i += 1;
                            m.oneofs.push(o);
                        }
                        _ => {
                            let (f, n) = parse_field(&t, i);
                            m.fields.push(f);
                            i = n;
                        }
                    }
                }
                i += 1;
                msgs.push(m);
            }
            "enum" => i = parse_enum(&t, i, &mut enums),
            ";" => i += 1,
            x => panic!("pbgen: unexpected {x}"),
        }
    }
    (pkg, msgs, enums)
}
fn parse_enum(t: &[String], mut i: usize, enums: &mut Vec<Enum>) -> usize {
    let mut e = Enum { name: t[i + 1].clone(), vals: vec![] };
    i += 3;
    while t[i] != "}" {
        if t[i] == "option" || t[i] == "reserved" {
            while t[i] != ";" {
                i += 1
            }
            i += 1;
            continue;
        }
        e.vals.push((t[i].clone(), t[i + 2].parse().unwrap()));
        i += 3;
        while t[i] != ";" {
            i += 1
        }
        i += 1;
    }
    enums.push(e);
    i + 1
}
fn parse_field(t: &[String], mut i: usize) -> (Field, usize) {
    let label = match t[i].as_str() {
        "optional" => Label::Optional,
        "repeated" => Label::Repeated,
        _ => Label::Plain,
    };
    if label != Label::Plain {
        i += 1;
    }
    let f = Field { label, ty: t[i].clone(), name: t[i + 1].clone(), tag: t[i + 3].parse().unwrap() };
    while t[i] != ";" {
        i += 1;
    }
    (f, i + 1)
}

struct Ty {
    rust: String,
    copy: bool,
    kind: Kind,
}
enum Kind {
    Varint(&'static str, &'static str), // encode expr on `v`, decode expr on `x: u64`
    F32,
    F64,
    Str,
    Bytes,
    Msg,
}
fn ty(name: &str, enums: &[Enum]) -> Ty {
    let s = |rust: &str, e, d| Ty { rust: rust.into(), copy: true, kind: Kind::Varint(e, d) };
    match name {
        "uint32" => s("u32", "v as u64", "x as u32"),
        "uint64" => s("u64", "v", "x"),
        "int32" => s("i32", "v as i64 as u64", "x as i32"),
        "int64" => s("i64", "v as u64", "x as i64"),
        "sint32" => s("i32", "((v << 1) ^ (v >> 31)) as u32 as u64", "((x as u32 >> 1) as i32) ^ -((x as u32 & 1) as i32)"),
        "sint64" => s("i64", "((v << 1) ^ (v >> 63)) as u64", "((x >> 1) as i64) ^ -((x & 1) as i64)"),
        "bool" => s("bool", "v as u64", "x != 0"),
        "float" => Ty { rust: "f32".into(), copy: true, kind: Kind::F32 },
        "double" => Ty { rust: "f64".into(), copy: true, kind: Kind::F64 },
        "string" => Ty { rust: "::std::string::String".into(), copy: false, kind: Kind::Str },
        "bytes" => Ty { rust: "::std::vec::Vec<u8>".into(), copy: false, kind: Kind::Bytes },
        n if enums.iter().any(|e| e.name == n) => s("i32", "v as i64 as u64", "x as i32"),
        n => Ty { rust: camel(n), copy: false, kind: Kind::Msg },
    }
}
fn enc(t: &Ty, tag: u32, v: &str) -> String {
    // `v` is an expression of type &T
    match &t.kind {
        Kind::Varint(e, _) => format!("{{ let v = *{v}; ::prost::wire::put_u64(out, {tag}, {e}); }}"),
        Kind::F32 => format!("::prost::wire::put_fixed32(out, {tag}, ({v}).to_bits());"),
        Kind::F64 => format!("::prost::wire::put_fixed64(out, {tag}, ({v}).to_bits());"),
        Kind::Str => format!("::prost::wire::put_bytes(out, {tag}, ({v}).as_bytes());"),
        Kind::Bytes => format!("::prost::wire::put_bytes(out, {tag}, {v});"),
        Kind::Msg => format!("::prost::wire::put_bytes(out, {tag}, &::prost::Message::encode_to_vec({v}));"),
    }
}
fn dec(t: &Ty) -> String {
    match &t.kind {
        Kind::Varint(_, d) => format!("{{ let x = f.varint()?; {d} }}"),
        Kind::F32 => "f32::from_bits(f.fixed32()?)".into(),
        Kind::F64 => "f64::from_bits(f.fixed64()?)".into(),
        Kind::Str => "f.string()?".into(),
        Kind::Bytes => "f.bytes()?.to_vec()".into(),
        Kind::Msg => format!("<{} as ::prost::Message>::decode(f.bytes()?)?", t.rust),
    }
}

fn gen_file(msgs: &[Msg], enums: &[Enum]) -> String {
    let mut o = String::new();
    for m in msgs {
        let copy = m.oneofs.is_empty() && m.fields.iter().all(|f| f.label != Label::Repeated && ty(&f.ty, enums).copy);
        writeln!(o, "#[derive(Clone, {}PartialEq, Debug, Default)]\npub struct {} {{", if copy { "Copy, " } else { "" }, camel(&m.name)).unwrap();
        let mut encs = String::new();
        let mut decs = String::new();
        let mut getters = String::new();
        for f in &m.fields {
            let t = ty(&f.ty, enums);
            let n = ident(&f.name);
            let is_msg = matches!(t.kind, Kind::Msg);
            let rt = match f.label {
                Label::Repeated => format!("::std::vec::Vec<{}>", t.rust),
                Label::Optional => format!("::std::option::Option<{}>", t.rust),
                Label::Plain if is_msg => format!("::std::option::Option<{}>", t.rust),
                Label::Plain => t.rust.clone(),
            };
            writeln!(o, "    pub {n}: {rt},").unwrap();
            match f.label {
                Label::Repeated => {
                    if let Kind::Varint(e, d) = &t.kind {
                        writeln!(encs, "        if !self.{n}.is_empty() {{ let mut b = ::std::vec::Vec::new(); for v in &self.{n} {{ let v = *v; ::prost::wire::put_varint(&mut b, {e}); }} ::prost::wire::put_bytes(out, {}, &b); }}", f.tag).unwrap();
                        writeln!(decs, "            {} => if let ::prost::wire::Field::Bytes(b) = f {{ let mut r = ::prost::wire::Reader(b); while !r.0.is_empty() {{ let x = r.varint()?; self.{n}.push({d}); }} }} else {{ let x = f.varint()?; self.{n}.push({d}); }},", f.tag).unwrap();
                    } else {
                        writeln!(encs, "        for v in &self.{n} {{ {} }}", enc(&t, f.tag, "v")).unwrap();
                        writeln!(decs, "            {} => self.{n}.push({}),", f.tag, dec(&t)).unwrap();
                    }
                }
                Label::Plain if !is_msg => {
                    let cond = match t.kind {
                        Kind::Str | Kind::Bytes => format!("!self.{n}.is_empty()"),
                        _ => format!("self.{n} != <{} as ::std::default::Default>::default()", t.rust),
                    };
                    writeln!(encs, "        if {cond} {{ {} }}", enc(&t, f.tag, &format!("&self.{n}"))).unwrap();
                    writeln!(decs, "            {} => self.{n} = {},", f.tag, dec(&t)).unwrap();
                    if enums.iter().any(|e| e.name == f.ty) {
                        let en = camel(&f.ty);
                        writeln!(getters, "    pub fn {n}(&self) -> {en} {{ {en}::try_from(self.{n}).unwrap_or_default() }}").unwrap();
                    }
                }
                _ => {
                    writeln!(encs, "        if let Some(v) = &self.{n} {{ {} }}", enc(&t, f.tag, "v")).unwrap();
                    writeln!(decs, "            {} => self.{n} = Some({}),", f.tag, dec(&t)).unwrap();
                    if enums.iter().any(|e| e.name == f.ty) {
                        let en = camel(&f.ty);
                        writeln!(getters, "    pub fn {n}(&self) -> {en} {{ self.{n}.and_then(|x| {en}::try_from(x).ok()).unwrap_or_default() }}").unwrap();
                    } else if matches!(t.kind, Kind::Str) {
                        writeln!(getters, "    pub fn {n}(&self) -> &str {{ self.{n}.as_deref().unwrap_or(\"\") }}").unwrap();
                    } else if matches!(t.kind, Kind::Bytes) {
                        writeln!(getters, "    pub fn {n}(&self) -> &[u8] {{ self.{n}.as_deref().unwrap_or(&[]) }}").unwrap();
                    } else if !is_msg {
                        writeln!(getters, "    pub fn {n}(&self) -> {} {{ self.{n}.unwrap_or_default() }}", t.rust).unwrap();
                    }
                }
            }
        }
        for oo in &m.oneofs {
            let n = ident(&oo.name);
            let en = format!("{}::{}", snake(&m.name), camel(&oo.name));
            writeln!(o, "    pub {n}: ::std::option::Option<{en}>,").unwrap();
            writeln!(encs, "        match &self.{n} {{ None => {{}}").unwrap();
            for f in &oo.fields {
                let t = ty(&f.ty, enums);
                writeln!(encs, "            Some({en}::{}(v)) => {{ {} }}", camel(&f.name), enc(&t, f.tag, "v")).unwrap();
                writeln!(decs, "            {} => self.{n} = Some({en}::{}({})),", f.tag, camel(&f.name), dec(&t)).unwrap();
            }
            writeln!(encs, "        }}").unwrap();
        }
        writeln!(o, "}}\nimpl ::prost::Message for {0} {{\n    #[allow(unused_variables)]\n    fn encode_fields(&self, out: &mut ::std::vec::Vec<u8>) {{\n{encs}    }}\n    #[allow(unused_variables)]\n    fn merge_field(&mut self, tag: u32, f: ::prost::wire::Field<'_>) -> ::std::result::Result<(), ::prost::DecodeError> {{\n        match tag {{\n{decs}            _ => {{}}\n        }}\n        Ok(())\n    }}\n}}", camel(&m.name)).unwrap();
        if !getters.is_empty() {
            writeln!(o, "#[allow(dead_code)]\nimpl {} {{\n{getters}}}", camel(&m.name)).unwrap();
        }
        if !m.oneofs.is_empty() {
            writeln!(o, "pub mod {} {{", snake(&m.name)).unwrap();
            for oo in &m.oneofs {
                writeln!(o, "    #[derive(Clone, PartialEq, Debug)]\n    pub enum {} {{", camel(&oo.name)).unwrap();
                for f in &oo.fields {
                    let t = ty(&f.ty, enums);
                    let r = if matches!(t.kind, Kind::Msg) { format!("super::{}", t.rust) } else { t.rust };
                    writeln!(o, "        {}({r}),", camel(&f.name)).unwrap();
                }
                writeln!(o, "    }}").unwrap();
            }
            writeln!(o, "}}").unwrap();
        }
    }
    for e in enums {
        let n = camel(&e.name);
        writeln!(o, "#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]\n#[repr(i32)]\npub enum {n} {{").unwrap();
        for (v, x) in &e.vals {
            writeln!(o, "    {} = {x},", variant(&e.name, v)).unwrap();
        }
        writeln!(o, "}}\nimpl ::std::default::Default for {n} {{ fn default() -> Self {{ {n}::{} }} }}", variant(&e.name, &e.vals[0].0)).unwrap();
        writeln!(o, "impl ::std::convert::From<{n}> for i32 {{ fn from(v: {n}) -> i32 {{ v as i32 }} }}").unwrap();
        writeln!(o, "impl ::std::convert::TryFrom<i32> for {n} {{ type Error = ::prost::UnknownEnumValue; fn try_from(v: i32) -> ::std::result::Result<Self, Self::Error> {{ match v {{").unwrap();
        for (v, x) in &e.vals {
            writeln!(o, "    {x} => Ok({n}::{}),", variant(&e.name, v)).unwrap();
        }
        writeln!(o, "    _ => Err(::prost::UnknownEnumValue(v)), }} }} }}").unwrap();
        writeln!(o, "#[allow(dead_code)]\nimpl {n} {{ pub fn from_i32(v: i32) -> Option<Self> {{ ::std::convert::TryFrom::try_from(v).ok() }} pub fn is_valid(v: i32) -> bool {{ Self::from_i32(v).is_some() }} pub fn as_str_name(&self) -> &'static str {{ match self {{").unwrap();
        for (v, _) in &e.vals {
            writeln!(o, "    {n}::{} => \"{v}\",", variant(&e.name, v)).unwrap();
        }
        writeln!(o, "}} }} }}").unwrap();
    }
    o
}

/// Writes `$OUT_DIR/<package>.rs` for every proto file given.
pub fn compile<P: AsRef<Path>>(dir: P) {
    let out = std::env::var("OUT_DIR").unwrap();
    println!("cargo:rerun-if-changed={}", dir.as_ref().display());
    let mut files: Vec<_> = std::fs::read_dir(dir.as_ref()).unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().map(|e| e == "proto").unwrap_or(false)).collect();
    files.sort();
    for p in files {
        println!("cargo:rerun-if-changed={}", p.display());
        let (pkg, msgs, enums) = parse(&std::fs::read_to_string(&p).unwrap());
        std::fs::write(Path::new(&out).join(format!("{pkg}.rs")), gen_file(&msgs, &enums)).unwrap();
    }
}
