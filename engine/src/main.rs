//! Looks for a concrete input on which the code in /repo and the reference copy
//! in ../golden behave differently, and says which properties the difference breaks.
mod common;
use common::*;
use serde_json::json;
use std::collections::BTreeSet;
use std::io::Write;
use std::time::{Duration, Instant};

#[allow(dead_code)]
mod cur {
    use gvas as g;
    include!("ops.rs");
}
#[allow(dead_code)]
mod gold {
    use gvas_golden as g;
    include!("ops.rs");
}

pub fn guids() -> ([u8; 16], [u8; 16]) {
    use gvas_golden::custom_version::*;
    (FEditorObjectVersion::GUID.0, FUE5ReleaseStreamObjectVersion::GUID.0)
}

/// The string literal a Debug text starts with.
pub fn first_string(t: &str) -> Option<String> {
    serde_json::Deserializer::from_str(t).into_iter::<String>().next().and_then(|x| x.ok())
}

/// What `{:?}` prints for a string, read back.
fn debug_string(t: &str) -> Option<String> {
    let t = t.strip_prefix('"')?.strip_suffix('"')?;
    let mut out = String::new();
    let mut it = t.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            out.push(c);
            continue;
        }
        out.push(match it.next()? {
            'n' => '\n',
            't' => '\t',
            'r' => '\r',
            '0' => '\0',
            'u' => {
                let h: String = it.by_ref().skip(1).take_while(|c| *c != '}').collect();
                char::from_u32(u32::from_str_radix(&h, 16).ok()?)?
            }
            c => c,
        });
    }
    Some(out)
}

pub fn gen_env(r: &mut Rng) -> Env {
    let mut e = Env { stack: vec!["p".into()], ..Default::default() };
    let (a, b) = guids();
    for (g, th) in [(a, &[5u32, 21, 32, 39][..]), (b, &[12u32, 28][..])] {
        if r.chance(85) {
            let t = *r.pick(th);
            let v = match r.below(6) {
                0 => 0,
                1 => t - 1,
                2 => t + 1,
                3 => u32::MAX,
                4 => (r.num() as u32) % 70,
                _ => t,
            };
            e.versions.push((g, v));
        }
    }
    for _ in 0..r.below(3) {
        e.versions.push((r.guid(), r.num() as u32));
    }
    if r.chance(30) {
        e.versions.reverse();
    }
    e.hint_ty = r.pick(gold::STRUCTS).to_string();
    e
}

#[derive(Clone, Debug)]
enum Case {
    Value { seed: u64, env: Env, kind: String, depth: usize, header: bool },
    Read { env: Env, kind: String, header: bool, sugg: Option<u32>, bytes: Vec<u8>, depth: usize },
    File { seed: u64, env: Env, depth: usize, one: Option<String> },
    ReadFile { pal: bool, hints: Vec<(String, String)>, bytes: Vec<u8> },
    Header { seed: u64, env: Env },
    ReadHeader { bytes: Vec<u8> },
    Prim { seed: u64 },
    ReadPrim { bytes: Vec<u8> },
    Guid { seed: u64 },
    Versions { seed: u64 },
}
use Case::*;

macro_rules! run {
    ($m:ident, $c:expr) => {
        match $c {
            Value { seed, env, kind, depth, header } => $m::value_case(*seed, env, kind, *depth, *header),
            Read { env, kind, header, sugg, bytes, .. } => $m::read_case(env, kind, *header, *sugg, bytes),
            File { seed, env, depth, one } => $m::file_case(*seed, env, *depth, one.as_deref()),
            ReadFile { pal, hints, bytes } => $m::read_file_case(*pal, hints, bytes),
            Header { seed, env } => $m::header_case(*seed, env),
            ReadHeader { bytes } => $m::read_header_case(bytes),
            Prim { seed } => $m::prim_write_case(*seed),
            ReadPrim { bytes } => $m::prim_read_case(bytes),
            Guid { seed } => $m::guid_case(*seed),
            Versions { seed } => $m::version_case(*seed),
        }
    };
}

fn env_json(e: &Env) -> serde_json::Value {
    json!({"versions": e.versions.iter().map(|(g, v)| json!([hex(g), v])).collect::<Vec<_>>(), "hints": e.hints, "stack": e.stack, "hint_ty": e.hint_ty})
}
fn env_of(v: &serde_json::Value) -> Env {
    let s = |x: &serde_json::Value| x.as_str().unwrap().to_string();
    Env {
        versions: v["versions"].as_array().unwrap().iter().map(|x| (unhex(x[0].as_str().unwrap()).try_into().unwrap(), x[1].as_u64().unwrap() as u32)).collect(),
        hints: v["hints"].as_array().unwrap().iter().map(|x| (s(&x[0]), s(&x[1]))).collect(),
        stack: v["stack"].as_array().unwrap().iter().map(s).collect(),
        hint_ty: s(&v["hint_ty"]),
    }
}
fn case_json(c: &Case) -> serde_json::Value {
    match c {
        Value { seed, env, kind, depth, header } => json!({"case":"value","seed":seed,"env":env_json(env),"kind":kind,"depth":depth,"header":header}),
        Read { env, kind, header, sugg, bytes, depth } => json!({"case":"read","env":env_json(env),"kind":kind,"header":header,"sugg":sugg,"bytes":hex(bytes),"depth":depth}),
        File { seed, env, depth, one } => json!({"case":"file","seed":seed,"env":env_json(env),"depth":depth,"one":one}),
        ReadFile { pal, hints, bytes } => json!({"case":"readfile","pal":pal,"hints":hints,"bytes":hex(bytes)}),
        Header { seed, env } => json!({"case":"header","seed":seed,"env":env_json(env)}),
        ReadHeader { bytes } => json!({"case":"readheader","bytes":hex(bytes)}),
        Prim { seed } => json!({"case":"prim","seed":seed}),
        ReadPrim { bytes } => json!({"case":"readprim","bytes":hex(bytes)}),
        Guid { seed } => json!({"case":"guid","seed":seed}),
        Versions { seed } => json!({"case":"versions","seed":seed}),
    }
}
fn case_of(v: &serde_json::Value) -> Case {
    let seed = v["seed"].as_u64().unwrap_or(0);
    let b = || unhex(v["bytes"].as_str().unwrap());
    let st = |k: &str| v[k].as_str().unwrap().to_string();
    match v["case"].as_str().unwrap() {
        "value" => Value { seed, env: env_of(&v["env"]), kind: st("kind"), depth: v["depth"].as_u64().unwrap() as usize, header: v["header"].as_bool().unwrap() },
        "read" => Read {
            env: env_of(&v["env"]),
            kind: st("kind"),
            header: v["header"].as_bool().unwrap(),
            sugg: v["sugg"].as_u64().map(|x| x as u32),
            bytes: b(),
            depth: v["depth"].as_u64().unwrap() as usize,
        },
        "file" => File { seed, env: env_of(&v["env"]), depth: v["depth"].as_u64().unwrap() as usize, one: v["one"].as_str().map(|s| s.to_string()) },
        "readfile" => ReadFile {
            pal: v["pal"].as_bool().unwrap(),
            hints: v["hints"].as_array().unwrap().iter().map(|x| (x[0].as_str().unwrap().to_string(), x[1].as_str().unwrap().to_string())).collect(),
            bytes: b(),
        },
        "header" => Header { seed, env: env_of(&v["env"]) },
        "readheader" => ReadHeader { bytes: b() },
        "prim" => Prim { seed },
        "readprim" => ReadPrim { bytes: b() },
        "guid" => Guid { seed },
        _ => Versions { seed },
    }
}

/// The property whose subject the kind is.
fn domain(kind: &str) -> &'static str {
    match kind {
        "ArrayProperty" | "SetProperty" | "MapProperty" => "C11",
        "StructProperty" | "DelegateProperty" | "MulticastInlineDelegateProperty" | "MulticastSparseDelegateProperty" | "FieldPathProperty" => "C12",
        "TextProperty" => "C13",
        k if KINDS[..15].contains(&k) => "C05",
        _ => "C09",
    }
}

/// Does the error say that something needs another version?
fn versioned(m: &str) -> bool {
    m.contains("LWC") || m.contains("upport")
}
/// Does the error say that a declared size is not the actual one?
fn sized(m: &str) -> bool {
    m.contains("InvalidValueSize") || m.contains("InvalidProperty") && m.contains(" != ")
}

struct Diff {
    /// properties broken whatever else is found
    sure: BTreeSet<&'static str>,
    /// properties broken unless something smaller already differs
    staged: BTreeSet<&'static str>,
    stage: usize,
    what: String,
}

fn stage_kind(kind: &str, depth: usize) -> usize {
    let leaf = KINDS[..LEAVES].contains(&kind) || !KINDS.contains(&kind);
    if leaf { 10 } else { 20 + 10 * depth }
}

fn short(s: &str) -> String {
    if s.len() > 600 { format!("{}… ({} bytes)", s.chars().take(500).collect::<String>(), s.len()) } else { s.to_string() }
}

fn compare(c: &Case, a: &[Obs], b: &[Obs]) -> Option<Diff> {
    let mut d = Diff { sure: BTreeSet::new(), staged: BTreeSet::new(), stage: 0, what: String::new() };
    let (dom, stage): (Vec<&'static str>, usize) = match c {
        Value { kind, depth, .. } | Read { kind, depth, .. } => {
            let mut v = vec![domain(kind)];
            if kind == "UnknownProperty" || !KINDS.contains(&kind.as_str()) {
                v = vec!["C09"];
            } else if kind == "ArrayProperty" || kind == "SetProperty" {
                // elements of an unknown kind whose size follows from the container
                if a.iter().chain(b).any(|o| matches!(&o.r, R::Ok(t) if t.contains("UnknownProperty"))) {
                    v.push("C09");
                }
            }
            (v, stage_kind(kind, *depth))
        }
        File { .. } | ReadFile { .. } => (vec![], 90),
        Header { .. } | ReadHeader { .. } => (vec!["C06"], 5),
        Prim { .. } | ReadPrim { .. } => (vec![], 0),
        Guid { .. } => (vec!["C17"], 0),
        Versions { .. } => (vec!["C07"], 0),
    };
    d.stage = stage;
    let reading = |op: &str| op.contains("read") || op.contains("chopped") || op.contains("back");
    for i in 0..a.len().max(b.len()) {
        let (Some(x), Some(y)) = (a.get(i), b.get(i)) else {
            // an earlier operation differed, which is reported by itself
            break;
        };
        if x.op != y.op {
            break;
        }
        let same = x.r == y.r && x.bytes == y.bytes && x.n == y.n && x.pos == y.pos && x.stack == y.stack && x.flag == y.flag;
        if same {
            continue;
        }
        let op = x.op;
        let prim: Option<&'static str> = match op {
            o if o.contains("string") => Some("C04"),
            "write_guid" | "write_bool" | "write_b32" | "write_enum" | "read_guid" | "read_bool" | "read_b32" => Some("C05"),
            "read_enum_pal" => Some("C10"),
            o if o.starts_with("read_enum") => Some("C05"),
            _ => None,
        };
        let add = |d: &mut Diff| {
            for p in dom.iter().copied().chain(prim) {
                d.staged.insert(p);
            }
        };
        if d.what.is_empty() {
            d.what = format!(
                "{op}: got {} count={:?} pos={} stack={:?} bytes={} {}; expected {} count={:?} pos={} stack={:?} bytes={} {}",
                short(&format!("{:?}", x.r)), x.n, x.pos, x.stack, short(&hex(&x.bytes)), x.flag,
                short(&format!("{:?}", y.r)), y.n, y.pos, y.stack, short(&hex(&y.bytes)), y.flag
            );
        }
        if op == "accessors" {
            d.sure.insert("C18");
            continue;
        }
        if op == "hashes" {
            d.sure.insert("C11");
            continue;
        }
        if op == "build" {
            add(&mut d);
            if matches!(x.r, R::Panic(_)) {
                d.sure.insert("C15");
            }
            if let R::Ok(_) = x.r {
                if matches!(c, Value { .. }) {
                    d.sure.insert("C18_if_conversion");
                }
            }
            continue;
        }
        if op == "versions" || op == "head_versions" {
            d.staged.insert("C07");
            if op == "head_versions" {
                d.staged.insert("C06");
            }
            continue;
        }
        if op.starts_with("guid") {
            d.sure.insert("C17");
            continue;
        }
        match x.flag {
            f if f == y.flag => {}
            "count" => {
                d.sure.insert("C14");
            }
            "short" | "fail" => {
                d.sure.insert("C15");
            }
            "roundtrip" => {
                d.sure.insert("C01");
            }
            "again" => {
                d.sure.insert("C19");
            }
            "declared" => {
                d.sure.insert("C03");
            }
            "string" => {
                d.staged.insert("C04");
            }
            "chopped" => add(&mut d),
            _ => {}
        }
        let is_read = reading(op);
        if let R::Panic(_) = x.r {
            if !matches!(y.r, R::Panic(_)) {
                d.sure.insert(if is_read { "C02" } else { "C15" });
                continue;
            }
        }
        if x.n != y.n && x.bytes == y.bytes {
            d.sure.insert("C14");
        }
        if x.stack != y.stack {
            d.sure.insert("C08");
        }
        if is_read {
            match (&x.r, &y.r) {
                (R::Err(p), R::Err(q)) if p != q => {
                    d.sure.insert("C16");
                    if p.contains("MissingHint") || q.contains("MissingHint") {
                        d.sure.insert("C08");
                    }
                }
                (R::Ok(_), R::Err(q)) => {
                    if sized(q) {
                        d.sure.insert("C03");
                    }
                    if q.contains("MissingHint") {
                        d.sure.insert("C08");
                    } else if !sized(q) {
                        add(&mut d);
                    }
                    if matches!(c, ReadFile { .. } | File { .. }) {
                        file_domains(c, &mut d, q);
                    }
                }
                (R::Err(p), R::Ok(_)) => {
                    if sized(p) {
                        d.sure.insert("C03");
                    }
                    if p.contains("MissingHint") {
                        d.sure.insert("C08");
                    } else {
                        add(&mut d);
                    }
                    if matches!(c, ReadFile { .. } | File { .. }) {
                        file_domains(c, &mut d, p);
                    }
                }
                (R::Ok(p), R::Ok(q)) => {
                    if p != q || x.pos != y.pos {
                        add(&mut d);
                        if matches!(c, ReadFile { .. } | File { .. }) {
                            file_domains(c, &mut d, "");
                        }
                    }
                }
                _ => {}
            }
        } else {
            match (&x.r, &y.r) {
                (R::Ok(_), R::Err(q)) => {
                    d.sure.insert("C15");
                    if versioned(q) {
                        d.sure.insert("C07");
                    }
                    if op.contains("string") {
                        d.staged.insert("C04");
                    }
                }
                (R::Err(p), R::Ok(_)) => {
                    d.sure.insert("C15");
                    if versioned(p) {
                        d.sure.insert("C07");
                    }
                    add(&mut d);
                    if op.starts_with("again") || op.starts_with("file_again") {
                        d.sure.insert("C19");
                    }
                }
                (R::Ok(_), R::Ok(_)) => {
                    if x.bytes == y.bytes && x.pos != y.pos && op.starts_with("file") {
                        d.sure.insert("C10");
                    }
                    if x.bytes != y.bytes {
                        add(&mut d);
                        if matches!(c, ReadFile { .. } | File { .. }) {
                            file_domains(c, &mut d, "");
                        }
                    }
                }
                _ => {}
            }
        }
    }
    if d.sure.remove("C18_if_conversion") && false {
        d.sure.insert("C18");
    }
    if d.sure.is_empty() && d.staged.is_empty() {
        return None;
    }
    Some(d)
}

fn file_domains(c: &Case, d: &mut Diff, msg: &str) {
    let pal = match c {
        ReadFile { pal, .. } => *pal,
        _ => true,
    };
    if pal {
        d.staged.insert("C10");
    }
    if msg.contains("InvalidHeader") {
        d.staged.insert("C06");
    }
    d.staged.insert("C01");
    d.staged.insert("C19");
    d.staged.insert("C12");
}

// -------------------------------------------------------------- inputs
fn mutate(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    for _ in 0..1 + r.below(2) {
        if v.is_empty() {
            v.push(r.next() as u8);
            continue;
        }
        let i = match r.below(3) {
            0 => r.below(v.len().min(48)),
            _ => r.below(v.len()),
        };
        match r.below(10) {
            0 => v[i] = r.next() as u8,
            1 => v[i] ^= 1 << r.below(8),
            2 => v[i] = *r.pick(&[0, 1, 2, 0x7f, 0x80, 0xff]),
            3 => v.truncate(i),
            4 => v.insert(i, r.next() as u8),
            5 => {
                v.remove(i);
            }
            6 | 7 if v.len() >= 4 => {
                let i = r.below(v.len() - 3);
                let x = u32::from_le_bytes(v[i..i + 4].try_into().unwrap());
                let y = match r.below(5) {
                    0 => x.wrapping_add(1),
                    1 => x.wrapping_sub(1),
                    2 => r.num() as u32,
                    3 => x.wrapping_neg(),
                    _ => *r.pick(&[0, 1, 2, 3, 4, 8, 0xffff_ffff, 0x8000_0000, 0x7fff_ffff, 131072, 131073]),
                };
                v[i..i + 4].copy_from_slice(&y.to_le_bytes());
            }
            8 => {
                let d = &dict().strs;
                if d.is_empty() {
                    v[i] = v[i].wrapping_add(1);
                } else {
                    let s = r.pick(d).clone();
                    let mut e = ((s.len() + 1) as i32).to_le_bytes().to_vec();
                    e.extend_from_slice(s.as_bytes());
                    e.push(0);
                    v.splice(i..i, e);
                }
            }
            _ => v[i] = v[i].wrapping_add(1),
        }
    }
    v
}

/// A path that is not `path`, but that it might be taken for.
fn near(r: &mut Rng, path: &str) -> String {
    let parts: Vec<&str> = path.split('.').collect();
    let n = parts.len();
    match r.below(14) {
        0 => path.to_lowercase(),
        1 => path.to_uppercase(),
        2 => path.trim().to_string(),
        3 => parts.iter().map(|p| p.trim()).collect::<Vec<_>>().join("."),
        4 => parts[r.below(n)..].join("."),
        5 => parts[..1 + r.below(n)].join("."),
        6 => format!("{path} "),
        7 => format!("{path}.StructProperty"),
        8 => parts.iter().filter(|p| !p.ends_with("Property")).cloned().collect::<Vec<_>>().join("."),
        9 => parts.iter().filter(|p| !p.is_empty()).cloned().collect::<Vec<_>>().join("."),
        10 => path.replace('.', "/"),
        11 => parts[n - 1].to_string(),
        12 => path.replace("Value", "Key"),
        _ => {
            let i = r.below(n);
            parts.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, p)| *p).collect::<Vec<_>>().join(".")
        }
    }
}

/// The path a missing hint was looked for under.
fn hint_path(m: &str) -> Option<String> {
    let rest = &m[m.find("MissingHint(\"StructProperty\", ")? + "MissingHint(\"StructProperty\", ".len()..];
    debug_string(&rest[..rest.rfind(", ")?])
}

/// Adds hints until the reference reads the bytes.
fn hint_up(r: &mut Rng, env: &mut Env, kind: &str, header: bool, sugg: Option<u32>, bytes: &[u8]) -> Vec<Case> {
    let mut out = vec![];
    for _ in 0..12 {
        let (o, v) = gold::read_prop("read", env, kind, header, sugg, bytes, usize::MAX);
        let R::Err(m) = &o.r else { break };
        if v.is_some() {
            break;
        }
        let Some(path) = hint_path(m) else { break };
        out.push(Read { env: env.clone(), kind: kind.into(), header, sugg, bytes: bytes.to_vec(), depth: 0 });
        let ty = env.hint_ty.clone();
        for _ in 0..2 {
            let wrong = near(r, &path);
            if wrong != path {
                let mut e = env.clone();
                e.hints.push((wrong, ty.clone()));
                out.push(Read { env: e, kind: kind.into(), header, sugg, bytes: bytes.to_vec(), depth: 0 });
            }
        }
        env.hints.push((path, ty));
    }
    out
}

struct Runner {
    t0: Instant,
    limit: Duration,
    found: usize,
    cases: u64,
    progress: Option<std::fs::File>,
    out: std::io::Stdout,
}
impl Runner {
    /// Leaves a note of what is being run, for when this process has to be ended.
    fn note(&mut self, c: &Case) {
        if let Some(f) = &mut self.progress {
            use std::io::Seek;
            let _ = f.rewind();
            let _ = f.set_len(0);
            let _ = f.write_all(case_json(c).to_string().as_bytes());
        }
    }
    fn go(&mut self, c: &Case) -> Vec<Obs> {
        self.note(c);
        FLOOD.set(0);
        let t = Instant::now();
        let b = run!(gold, c);
        if FLOOD.get() > 20_000 {
            return b;
        }
        let tg = t.elapsed();
        FLOOD.set(0);
        let a = run!(cur, c);
        if std::env::var_os("ENGINE_SLOW").is_some() && t.elapsed().as_secs_f64() > 0.3 {
            eprintln!("slow {:?} {:?} {}", tg, t.elapsed(), short(&case_json(c).to_string()));
        }
        self.cases += 1;
        if let Some(mut d) = compare(c, &a, &b) {
            self.found += 1;
            if let Value { seed, env, kind, depth, header } = c {
                if matches!(kind.as_str(), "StructProperty" | "TextProperty") && (d.staged.contains("C12") || d.staged.contains("C13")) {
                    // does it depend on the version table?
                    let mut same = false;
                    for v in [vec![], vec![(guids().0, 60), (guids().1, 60)], vec![(guids().0, 32), (guids().1, 11)], vec![(guids().0, 31), (guids().1, 28)]] {
                        let mut e = env.clone();
                        e.versions = v;
                        let c2 = Value { seed: *seed, env: e, kind: kind.clone(), depth: *depth, header: *header };
                        if compare(&c2, &run!(cur, &c2), &run!(gold, &c2)).is_none() {
                            same = true;
                        }
                    }
                    if same {
                        d.staged.insert("C07");
                    }
                }
            }
            let j = json!({"sure": d.sure.iter().collect::<Vec<_>>(), "staged": d.staged.iter().collect::<Vec<_>>(), "stage": d.stage, "what": d.what, "input": case_json(c), "size": case_json(c).to_string().len()});
            let _ = writeln!(self.out, "{j}");
        }
        b
    }
    fn done(&self) -> bool {
        self.t0.elapsed() > self.limit || self.found > 400
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    std::panic::set_hook(Box::new(|p| {
        if !CATCHING.get() {
            eprintln!("{p}");
        }
    }));
    if let Some(p) = get("--dict") {
        if let Ok(t) = std::fs::read_to_string(p) {
            if let Ok(v) = serde_json::from_str::<serde_json::Value>(&t) {
                let _ = DICT.set(Dict {
                    strs: v["strs"].as_array().unwrap().iter().map(|s| s.as_str().unwrap().to_string()).collect(),
                    kinds: v["kinds"].as_array().into_iter().flatten().filter_map(|s| Some(s.as_str()?.to_string())).collect(),
                    parts: v["parts"].as_array().into_iter().flatten().filter_map(|s| Some(s.as_u64()? as usize)).collect(),
                    nums: v["nums"].as_array().unwrap().iter().filter_map(|s| s.as_str().unwrap().parse().ok()).collect(),
                });
            }
        }
    }
    if let Some(p) = get("--replay") {
        // exit 1 if the case still distinguishes the two
        let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(p).unwrap()).unwrap();
        let c = case_of(&v["input"]);
        if args.iter().any(|a| a == "--golden") {
            let b = run!(gold, &c);
            println!("reference: {} operations", b.len());
            return;
        }
        let (a, b) = (run!(cur, &c), run!(gold, &c));
        match compare(&c, &a, &b) {
            Some(d) => {
                println!("{}", json!({"sure": d.sure.iter().collect::<Vec<_>>(), "staged": d.staged.iter().collect::<Vec<_>>(), "stage": d.stage, "what": d.what}));
                std::process::exit(1)
            }
            None => println!("no difference"),
        }
        return;
    }
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let start: u64 = get("--start").and_then(|s| s.parse().ok()).unwrap_or(0);
    let step: u64 = get("--step").and_then(|s| s.parse().ok()).unwrap_or(1);
    let secs: f64 = get("--time").and_then(|s| s.parse().ok()).unwrap_or(10.0);
    let max: u64 = get("--max").and_then(|s| s.parse().ok()).unwrap_or(u64::MAX);
    let progress = get("--progress").map(|p| std::fs::File::create(p).unwrap());
    let files = get("--files");
    let mut rn = Runner { t0: Instant::now(), limit: Duration::from_secs_f64(secs), found: 0, cases: 0, progress, out: std::io::stdout() };
    let mut samples: Vec<(bool, Vec<u8>)> = vec![];
    if let Some(d) = files {
        if let Ok(rd) = std::fs::read_dir(d) {
            let mut v: Vec<_> = rd.filter_map(|x| x.ok()).map(|x| x.path()).collect();
            v.sort();
            for p in v {
                if let Ok(b) = std::fs::read(&p) {
                    if b.len() < 200_000 {
                        samples.push((p.to_string_lossy().contains("palworld"), b));
                    }
                }
            }
        }
    }
    let mut i = start;
    if start == 0 {
        for (pal, b) in &samples {
            rn.go(&ReadFile { pal: *pal, hints: vec![], bytes: b.clone() });
        }
    }
    while !rn.done() && rn.cases < max {
        let mut r = Rng::new(seed.wrapping_mul(0x1000_0000_01b3) ^ i.wrapping_mul(0x9E37_79B9));
        i += step;
        let mut sd = r.next();
        let mut env = gen_env(&mut r);
        let nest = r.chance(8);
        if nest {
            sd = sd & (u64::MAX >> 8) | NEST << 56;
            if r.chance(80) {
                env.hint_ty = "MyStruct".into();
            }
        }
        let mut part = r.below(20);
        if !dict().parts.is_empty() && r.chance(40) {
            part = *r.pick(&dict().parts);
        }
        match part {
            0 | 1 => {
                let o = rn.go(&Prim { seed: sd });
                for ob in o.iter().filter(|o| o.op.starts_with("write") && o.bytes.len() < 5000) {
                    for _ in 0..3 {
                        let m = mutate(&mut r, &ob.bytes);
                        rn.go(&ReadPrim { bytes: m });
                    }
                    rn.go(&ReadPrim { bytes: ob.bytes.clone() });
                }
                // text of any characters, in either form
                let t = r.string();
                if t.len() < 5000 {
                    let u: Vec<u8> = t.encode_utf16().chain([0]).flat_map(u16::to_le_bytes).collect();
                    rn.go(&ReadPrim { bytes: [&(t.len() as i32 + 1).to_le_bytes()[..], t.as_bytes(), &[0]].concat() });
                    rn.go(&ReadPrim { bytes: [&(-(u.len() as i32) / 2).to_le_bytes()[..], &u].concat() });
                }
                let n = *r.pick(&[0i32, 1, -1, 2, -2, i32::MIN, i32::MAX, 131072, -131072, 131073, -131073, 131071]);
                let mut b = n.to_le_bytes().to_vec();
                let k = (if n < 0 { (n as i64).abs() * 2 } else { n as i64 }).min(270_000) as usize;
                let c = *r.pick(&[b'a', 0x80, 0xff, 0xd8, 0]);
                b.extend(std::iter::repeat_n(c, k));
                if r.chance(70) && k >= 2 {
                    let l = b.len();
                    b[l - 1] = 0;
                    if n < 0 {
                        b[l - 2] = 0;
                    }
                }
                rn.go(&ReadPrim { bytes: b });
            }
            2 => {
                let o = rn.go(&Header { seed: sd, env: env.clone() });
                for ob in o.iter().filter(|o| o.op == "head_write") {
                    for _ in 0..8 {
                        let m = mutate(&mut r, &ob.bytes);
                        rn.go(&ReadHeader { bytes: m });
                    }
                    // a version given twice
                    if let Some((g, v)) = env.versions.first() {
                        let e = [&g[..], &v.to_le_bytes()].concat();
                        if let Some(o) = (4..ob.bytes.len().saturating_sub(19)).find(|o| ob.bytes[*o..].starts_with(&e)) {
                            let n = u32::from_le_bytes(ob.bytes[o - 4..o].try_into().unwrap());
                            if n as usize == env.versions.len() {
                                let w = [&g[..], &v.wrapping_add(1 + r.below(3) as u32).to_le_bytes()].concat();
                                let at = o + 20 * (1 + r.below(n as usize));
                                let mut m = ob.bytes.clone();
                                m[o - 4..o].copy_from_slice(&(n + 1).to_le_bytes());
                                m.splice(at..at, w);
                                rn.go(&ReadHeader { bytes: m });
                            }
                        }
                    }
                    // version fields in particular
                    let mut m = ob.bytes.clone();
                    if m.len() > 20 {
                        let f = *r.pick(&[0usize, 4, 8, 12]);
                        let v = match f {
                            4 => r.below(6) as u32,
                            8 => 0x200 + r.below(20) as u32,
                            12 => 995 + r.below(25) as u32,
                            _ => r.num() as u32,
                        };
                        m[f..f + 4].copy_from_slice(&v.to_le_bytes());
                        rn.go(&ReadHeader { bytes: m });
                    }
                }
            }
            3 => {
                rn.go(&Guid { seed: sd });
                rn.go(&Versions { seed: sd });
            }
            4 | 5 | 6 => {
                let depth = if nest { 2 + r.below(2) } else { r.below(3) };
                let one = if r.chance(40) { Some(r.pick(KINDS).to_string()) } else { None };
                let mut c = File { seed: sd, env: env.clone(), depth, one: one.clone() };
                env.stack.clear();
                for _ in 0..10 {
                    rn.note(&c);
                    let o = run!(gold, &c);
                    let Some(m) = o.iter().find(|x| x.op == "file_read").and_then(|x| if let R::Err(m) = &x.r { Some(m.clone()) } else { None }) else { break };
                    let Some(path) = hint_path(&m) else { break };
                    rn.go(&c);
                    let mut e = env.clone();
                    e.hints.push((near(&mut r, &path), env.hint_ty.clone()));
                    rn.go(&File { seed: sd, env: e, depth, one: one.clone() });
                    env.hints.push((path, env.hint_ty.clone()));
                    c = File { seed: sd, env: env.clone(), depth, one: one.clone() };
                }
                let o = rn.go(&c);
                let Some(w) = o.iter().find(|x| x.op == "file_write" && matches!(x.r, R::Ok(_))) else { continue };
                if w.bytes.len() > 60_000 {
                    continue;
                }
                let pal = w.n == Some(1);
                rn.go(&ReadFile { pal, hints: env.hints.clone(), bytes: w.bytes.clone() });
                if let (false, Some(h)) = (pal, gold::header_len(&w.bytes)) {
                    // the same properties twice, the second time altered
                    let l = w.bytes.len();
                    let again = mutate(&mut r, &w.bytes[h..l - 13]);
                    let m = [&w.bytes[..l - 13], &again, &w.bytes[l - 13..]].concat();
                    rn.go(&ReadFile { pal, hints: env.hints.clone(), bytes: m });
                    let m = [&w.bytes[..l - 13], &w.bytes[h..]].concat();
                    rn.go(&ReadFile { pal, hints: env.hints.clone(), bytes: m });
                }
                for _ in 0..6 {
                    let m = mutate(&mut r, &w.bytes);
                    rn.go(&ReadFile { pal, hints: env.hints.clone(), bytes: m });
                }
            }
            7 if !samples.is_empty() => {
                let (pal, b) = r.pick(&samples).clone();
                if b.len() < 40_000 {
                    let m = mutate(&mut r, &b);
                    rn.go(&ReadFile { pal, hints: vec![], bytes: m });
                }
            }
            _ => {
                let mut kind = r.pick(KINDS).to_string();
                let mut depth = *r.pick(&[0, 0, 0, 1, 1, 2]);
                if nest {
                    kind = r.pick(&["StructProperty", "StructProperty", "MapProperty", "ArrayProperty", "SetProperty"]).to_string();
                    depth = 1 + r.below(3);
                } else if r.chance(if large().is_empty() { 0 } else { 7 }) {
                    sd = sd & (u64::MAX >> 8) | BIG << 56;
                    depth = 0;
                    if r.chance(85) {
                        kind = r
                            .pick(&["ArrayProperty", "SetProperty", "MapProperty", "StructProperty", "TextProperty", "FieldPathProperty", "MulticastInlineDelegateProperty"])
                            .to_string();
                    }
                }
                if !dict().kinds.is_empty() && r.chance(50) {
                    kind = r.pick(&dict().kinds).clone();
                }
                let header = r.chance(65);
                let c = Value { seed: sd, env: env.clone(), kind: kind.clone(), depth, header };
                // find the hints first
                rn.note(&c);
                let o = run!(gold, &c);
                let mut rk = kind.clone();
                if let Some(b) = o.iter().find(|x| x.op == "build") {
                    if let R::Ok(s) = &b.r {
                        if s.starts_with("UnknownProperty") || kind == "UnknownProperty" {
                            rk = s.split("property_name: ").nth(1).and_then(first_string).unwrap_or("XProperty".into());
                        }
                    }
                }
                let mut ways = vec![];
                for (op, hd) in [("write_header", true), ("write_body", false)] {
                    if let Some(w) = o.iter().find(|x| x.op == op && matches!(x.r, R::Ok(_))) {
                        let b = gold::strip_kind(&w.bytes, hd).to_vec();
                        if b.len() > 60_000 {
                            continue;
                        }
                        let sugg = if hd { None } else { Some(b.len() as u32) };
                        for c in hint_up(&mut r, &mut env, &rk, hd, sugg, &b) {
                            rn.go(&c);
                        }
                        ways.push((hd, sugg, b));
                    }
                }
                rn.go(&Value { seed: sd, env: env.clone(), kind: kind.clone(), depth, header });
                for (hd, sugg, b) in ways {
                    rn.go(&Read { env: env.clone(), kind: rk.clone(), header: hd, sugg, bytes: b.clone(), depth });
                    for _ in 0..5 {
                        let m = mutate(&mut r, &b);
                        let sugg = if hd { None } else { *r.pick(&[None, sugg, Some(1), Some(m.len() as u32)]) };
                        rn.go(&Read { env: env.clone(), kind: rk.clone(), header: hd, sugg, bytes: m, depth });
                    }
                    // declared size
                    if hd && b.len() >= 4 {
                        let mut m = b.clone();
                        let x = u32::from_le_bytes(m[..4].try_into().unwrap());
                        let y = *r.pick(&[x.wrapping_add(1), x.wrapping_sub(1), 0, x.wrapping_add(4), x.wrapping_mul(2)]);
                        m[..4].copy_from_slice(&y.to_le_bytes());
                        rn.go(&Read { env: env.clone(), kind: rk.clone(), header: true, sugg: None, bytes: m, depth });
                    }
                    // another kind's bytes
                    if r.chance(20) {
                        let k2 = r.pick(KINDS).to_string();
                        rn.go(&Read { env: env.clone(), kind: k2, header: hd, sugg, bytes: b.clone(), depth: 2 });
                    }
                    if r.chance(10) {
                        let d = &dict().strs;
                        if !d.is_empty() {
                            let k2 = r.pick(d).clone();
                            rn.go(&Read { env: env.clone(), kind: k2, header: hd, sugg, bytes: b.clone(), depth: 2 });
                        }
                    }
                }
            }
        }
    }
    let _: Option<serde_json::Value> = None;
    eprintln!("{}", json!({"cases": rn.cases, "found": rn.found, "secs": rn.t0.elapsed().as_secs_f64()}));
    std::process::exit(if rn.found > 0 { 1 } else { 0 });
}
