//! Emits Rust for generated formats, and compares what the emitted decoders did with the interpreter.
use crate::dec::{self, build, kinds, strings};
use crate::fgen::{self, ALPHABET, Gen};
use crate::util::{self, Report, guard, opt, opt_u64};
use doodle::codegen::*;
use serde_json::{Value as J, json};
use std::io::Write;
use std::sync::Mutex;

/// The program with its top format as the last item: the code generator names types after items.
pub fn wrap(items: &J, f: &J) -> (J, J) {
    let mut its = items.as_array().unwrap().clone();
    its.push(json!({"f": f, "args": [], "views": []}));
    let top = json!({"k": "item", "i": its.len() - 1, "args": [], "views": []});
    (json!(its), top)
}

/// Source text of a module decoding the format, with an entry point `vh_run`; Err on a panic of the generator.
pub fn emit(c: &dec::Case) -> Result<String, String> {
    let s = guard(|| format!("{}", generate_code(&c.module, &c.format).to_fragment()))?;
    let mut out = String::new();
    let mut top = None;
    let mut next = false;
    for l in s.lines() {
        if l.starts_with("#![") || l == "mod codegen_tests;" || l == "pub mod api_helper;" {
            continue;
        }
        if next && l.starts_with("fn ") && top.is_none() {
            top = Some(l[3..].split(['<', '(']).next().unwrap().to_string());
        }
        next = l.trim() == "/// d#0" || (next && !l.starts_with("fn "));
        out += l;
        out.push('\n');
    }
    let top = top.ok_or("no decoder d#0 in the output")?;
    out += &format!(
        "pub fn vh_run(b: &[u8]) -> Result<(String, u64), ()> {{\n\
         let mut p = Parser::new(b);\n\
         match {top}(&mut p) {{ Ok(v) => Ok((format!(\"{{:?}}\", v), p.get_offset_u64())), Err(_) => Err(()) }}\n}}\n"
    );
    Ok(out)
}

/// Names a format author may choose that the emitted code also uses, or that become the same identifier once
/// the characters Rust has no use for are replaced.
const HOSTILE: [&str; 40] = [
    "ix", "b", "ret", "inner", "acc", "seq", "res", "tree_index", "val", "sz", "buf", "bits", "p", "_input", "accum",
    "next_elem", "matching_ix", "is_valid", "len", "x", "offset", "tmp_cond", "reps_left", "view_input", "buf_input",
    "tgt_offset", "byte", "type", "a-b", "A.b", "x_y", "1st", "_2", "item0", "Decoder1", "lookahead", "buf_parser",
    "view_parser", "arg0", "raw",
];
const ITEMS: [&str; 14] =
    ["a", "a.b", "a_b", "a-b", "a_ix0", "a_Aa", "a_x", "b", "b_Aa", "item0", "type", "a_lhs", "a_alt1", "a__dupX1"];

/// Gives the variables of a program other names, without making two of them one.
fn rename(v: &mut J, map: &std::collections::BTreeMap<&str, &str>) {
    match v {
        J::String(s) => {
            if let Some(n) = map.get(s.as_str()) {
                *s = n.to_string();
            }
        }
        J::Array(a) => a.iter_mut().for_each(|x| rename(x, map)),
        J::Object(o) => o.values_mut().for_each(|x| rename(x, map)),
        _ => {}
    }
}

pub fn hostile_names(r: &mut util::Rng, items: &mut J, f: &mut J) {
    let mut pool: Vec<&str> = HOSTILE.to_vec();
    let mut map = std::collections::BTreeMap::new();
    for n in ["x", "y", "z", "q", "p", "r", "v", "w", "iv", "h"] {
        let i = r.below(pool.len());
        map.insert(n, pool.swap_remove(i));
    }
    rename(items, &map);
    rename(f, &map);
    let mut names: Vec<&str> = ITEMS.to_vec();
    for it in items.as_array_mut().unwrap() {
        let i = r.below(names.len());
        it["n"] = json!(names.swap_remove(i));
    }
}

pub fn generate(args: &[String]) {
    let hostile = opt(args, "--hostile").is_some();
    let seed = opt_u64(args, "--seed", 1);
    let n = opt_u64(args, "--n", 400) as usize;
    let depth = opt_u64(args, "--depth", 3) as usize;
    let fc = dec::focus(opt(args, "--focus").unwrap_or("codegen"));
    let dir = opt(args, "--dir").unwrap();
    std::fs::create_dir_all(format!("{dir}/src")).unwrap();
    let rep = Report::new();
    let out = Mutex::new(std::io::BufWriter::new(std::fs::File::create(format!("{dir}/meta.ndjson")).unwrap()));
    // programs to emit besides the generated ones
    let given: Vec<J> = opt(args, "--given").map_or(vec![], |p| {
        std::fs::read_to_string(p).unwrap().lines().map(|l| serde_json::from_str(l).unwrap()).collect()
    });
    util::parallel_watched(n + given.len(), 20, &rep, Some(dir), |w, k, i| {
        let mut g = Gen::new(util::mix(seed, i as u64), fc);
        let (mut items, mut f) = match i.checked_sub(n) {
            None => g.program(depth),
            Some(j) => (given[j]["M"].clone(), given[j]["f"].clone()),
        };
        if fgen::heavy(&items) || fgen::heavy(&f) {
            return;
        }
        let hostile = hostile && i < n;
        if hostile {
            hostile_names(&mut g.r, &mut items, &mut f);
        }
        w.enter(k, json!({"M": items, "f": f, "id": i, "phase": "compile"}));
        if build(&items, &f).is_err() {
            return;
        }
        let (mut items, f) = wrap(&items, &f);
        if hostile {
            let n = items.as_array().unwrap().len();
            let free: Vec<&str> = ITEMS.iter().copied().filter(|x| !items.as_array().unwrap().iter().any(|i| i["n"] == *x)).collect();
            items[n - 1]["n"] = json!(*g.r.pick(&free));
        }
        let Ok(c) = build(&items, &f) else {
            rep.count("wrapped does not compile", 1);
            return;
        };
        rep.count("programs", 1);
        match emit(&c) {
            Ok(s) => {
                std::fs::write(format!("{dir}/src/f{i}.rs"), s).unwrap();
                rep.count("emitted", 1);
                let mut ks = Default::default();
                kinds(&items, &mut ks);
                writeln!(out.lock().unwrap(), "{}", json!({"id": i, "M": items, "f": f, "kinds": ks})).unwrap();
            }
            Err(m) => {
                rep.count(&format!("not emitted: {}", m.chars().take(70).collect::<String>()), 1);
            }
        }
    }, || out.lock().unwrap().flush().unwrap());
}

// ---------------------------------------------------------------- Debug text
/// What `{:?}` wrote: a literal, or a head with positional or named parts.
#[derive(Debug, Clone, PartialEq)]
pub enum D {
    Lit(String),
    Char(char),
    List(Vec<D>),
    Node(String, Vec<D>),
    Rec(String, Vec<(String, D)>),
}

struct P<'a> {
    s: &'a [char],
    i: usize,
}
impl P<'_> {
    fn ws(&mut self) {
        while self.i < self.s.len() && self.s[self.i] == ' ' {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> char {
        self.ws();
        self.s.get(self.i).copied().unwrap_or('\0')
    }
    fn eat(&mut self, c: char) -> bool {
        let y = self.peek() == c;
        if y {
            self.i += 1;
        }
        y
    }
    fn list(&mut self, end: char) -> Option<Vec<D>> {
        let mut out = vec![];
        loop {
            if self.eat(end) {
                return Some(out);
            }
            out.push(self.tree()?);
            if !self.eat(',') && self.peek() != end {
                return None;
            }
        }
    }
    fn word(&mut self) -> String {
        self.ws();
        let mut w = String::new();
        while let Some(c) = self.s.get(self.i) {
            if c.is_alphanumeric() || matches!(c, '_' | '-' | '.' | '#' | ':') {
                // a single colon separates a field from its value
                if *c == ':' && self.s.get(self.i + 1) != Some(&':') && !w.ends_with(':') {
                    break;
                }
                w.push(*c);
                self.i += 1;
            } else {
                break;
            }
        }
        w
    }
    fn tree(&mut self) -> Option<D> {
        match self.peek() {
            '(' => {
                self.i += 1;
                Some(D::Node("".into(), self.list(')')?))
            }
            '[' => {
                self.i += 1;
                Some(D::List(self.list(']')?))
            }
            '\'' => {
                self.i += 1;
                let mut t = String::new();
                loop {
                    let c = *self.s.get(self.i)?;
                    self.i += 1;
                    if c == '\\' {
                        t.push(c);
                        t.push(*self.s.get(self.i)?);
                        self.i += 1;
                    } else if c == '\'' {
                        break;
                    } else {
                        t.push(c);
                    }
                }
                unescape(&t).map(D::Char)
            }
            _ => {
                let w = self.word();
                if w.is_empty() {
                    return None;
                }
                if self.s.get(self.i) == Some(&'<') {
                    // PhantomData<type>
                    let mut d = 0;
                    while let Some(c) = self.s.get(self.i) {
                        self.i += 1;
                        match c {
                            '<' => d += 1,
                            '>' => {
                                d -= 1;
                                if d == 0 {
                                    break;
                                }
                            }
                            _ => {}
                        }
                    }
                    return Some(D::Lit(w));
                }
                match self.peek() {
                    '(' => {
                        self.i += 1;
                        Some(D::Node(w, self.list(')')?))
                    }
                    '{' => {
                        self.i += 1;
                        let mut fs = vec![];
                        loop {
                            if self.eat('}') {
                                return Some(D::Rec(w, fs));
                            }
                            let k = self.word();
                            if !self.eat(':') {
                                return None;
                            }
                            fs.push((k, self.tree()?));
                            self.eat(',');
                        }
                    }
                    _ => Some(D::Lit(w)),
                }
            }
        }
    }
}
fn unescape(t: &str) -> Option<char> {
    let cs: Vec<char> = t.chars().collect();
    match cs.as_slice() {
        [c] => Some(*c),
        ['\\', 'n'] => Some('\n'),
        ['\\', 't'] => Some('\t'),
        ['\\', 'r'] => Some('\r'),
        ['\\', '0'] => Some('\0'),
        ['\\', c] => Some(*c),
        ['\\', 'u', '{', rest @ .., '}'] => {
            char::from_u32(u32::from_str_radix(&rest.iter().collect::<String>(), 16).ok()?)
        }
        _ => None,
    }
}
pub fn parse_debug(s: &str) -> Option<D> {
    let cs: Vec<char> = s.chars().collect();
    let mut p = P { s: &cs, i: 0 };
    let t = p.tree()?;
    p.ws();
    if p.i == cs.len() { Some(t) } else { None }
}

/// Does the text stand for this value (in the encoding of ast::value_json)?
pub fn stands_for(d: &D, v: &J) -> bool {
    let all = |ds: &[D], vs: &[J]| ds.len() == vs.len() && ds.iter().zip(vs).all(|(d, v)| stands_for(d, v));
    let fields = |ds: &[(String, D)], vs: &[J]| {
        ds.len() == vs.len()
            && ds.iter().zip(vs).all(|((k, d), v)| same_label(k, v[0].as_str().unwrap()) && stands_for(d, &v[1]))
    };
    match v[0].as_str().unwrap() {
        "bool" => *d == D::Lit(v[1].to_string()),
        "char" => matches!(d, D::Char(c) if *c as u128 == unlimb(&v[1])),
        "u8" | "u16" | "u32" | "u64" | "usize" => *d == D::Lit(unlimb(&v[1]).to_string()),
        "numeric" => {
            let sign = if v[1][0].as_i64().unwrap() < 0 { "-" } else { "" };
            *d == D::Lit(format!("{sign}{}", unlimb(&v[1][1])))
        }
        "tup" => matches!(d, D::Node(h, ds) if h.is_empty() && all(ds, v[1].as_array().unwrap())),
        "rec" => {
            let vs = v[1].as_array().unwrap();
            match d {
                D::Rec(_, ds) => fields(ds, vs),
                D::Lit(_) => vs.is_empty(),
                D::Node(_, ds) => vs.is_empty() && ds.is_empty(),
                _ => false,
            }
        }
        "var" => {
            let (l, p) = (v[1].as_str().unwrap(), &v[2]);
            let pv = || p[1].as_array().unwrap();
            match d {
                D::Lit(h) => same_label(h, l) && p[0] == "tup" && pv().is_empty(),
                D::Node(h, ds) => {
                    same_label(h, l) && ((p[0] == "tup" && all(ds, pv())) || (ds.len() == 1 && stands_for(&ds[0], p)))
                }
                D::Rec(h, ds) => same_label(h, l) && p[0] == "rec" && fields(ds, pv()),
                _ => false,
            }
        }
        "seq" => matches!(d, D::List(ds) if all(ds, v[1].as_array().unwrap())),
        "opt" => match (d, v[1].as_array().unwrap().as_slice()) {
            (D::Lit(h), []) => h == "None",
            (D::Node(h, ds), [x]) => h == "Some" && ds.len() == 1 && stands_for(&ds[0], x),
            _ => false,
        },
        "phantom" => matches!(d, D::Lit(h) if h.starts_with("PhantomData")),
        "view" => match d {
            D::Rec(_, fs) => fs.iter().any(|(k, d)| k == "start_offset" && *d == D::Lit(v[1].to_string())),
            _ => false,
        },
        _ => false,
    }
}
fn same_label(a: &str, b: &str) -> bool {
    let plain = |s: &str| s.trim_start_matches("r#").replace(|c: char| !c.is_ascii_alphanumeric(), "_");
    a == b || plain(a) == plain(b)
}
fn unlimb(v: &J) -> u128 {
    v.as_array().unwrap().iter().rev().fold(0, |a, l| (a << 12) | l.as_u64().unwrap() as u128)
}

/// Reads what the emitted decoders did (lines `id TAB input index TAB outcome...`) and sets it against the interpreter.
pub fn compare(args: &[String]) {
    let dir = opt(args, "--dir").unwrap();
    let maxlen = opt_u64(args, "--maxlen", 4) as usize;
    let cap = opt_u64(args, "--cases", 14) as usize;
    let inputs = strings(&ALPHABET, maxlen);
    let rep = Report::new();
    let mut runs: std::collections::BTreeMap<u64, Vec<(usize, String)>> = Default::default();
    for l in std::fs::read_to_string(format!("{dir}/runs.tsv")).unwrap().lines() {
        let mut it = l.splitn(3, '\t');
        let id = it.next().unwrap().parse().unwrap();
        let ix = it.next().unwrap().parse().unwrap();
        runs.entry(id).or_default().push((ix, it.next().unwrap().to_string()));
    }
    let metas: Vec<J> = std::fs::read_to_string(format!("{dir}/meta.ndjson"))
        .unwrap()
        .lines()
        .map(|l| serde_json::from_str(l).unwrap())
        .collect();
    let out = Mutex::new(std::io::BufWriter::new(std::fs::File::create(format!("{dir}/cases.ndjson")).unwrap()));
    util::parallel(metas.len(), |m| {
        let meta = &metas[m];
        let id = meta["id"].as_u64().unwrap();
        let Some(rs) = runs.get(&id) else { return };
        let c = build(&meta["M"], &meta["f"]).ok().unwrap();
        let mut r = util::Rng(util::mix(7, id));
        let (mut differ, mut undef, mut same): (Vec<J>, Vec<J>, Vec<J>) = (vec![], vec![], vec![]);
        let mut seen = std::collections::BTreeMap::<String, usize>::new();
        for (ix, txt) in rs {
            let s = &inputs[*ix];
            let o = dec::run(&c.program, s);
            let mut p = txt.splitn(3, '\t');
            let g = match p.next().unwrap() {
                "ok" => {
                    let off: u64 = p.next().unwrap().parse().unwrap();
                    let text = p.next().unwrap();
                    if o[0] == "ok" && parse_debug(text).is_some_and(|d| stands_for(&d, &o[1])) {
                        json!(["ok", o[1], off])
                    } else {
                        json!(["ok", ["text", text], off])
                    }
                }
                x => json!([x]),
            };
            rep.count("runs", 1);
            rep.count(&format!("emitted decoder: {}", g[0].as_str().unwrap()), 1);
            let case = json!({"in": s, "out": g, "int": o});
            if g != o {
                rep.count(&format!("differ: {} for {}", g[0].as_str().unwrap(), o[0].as_str().unwrap()), 1);
                // an expression without a value leaves both decoders free: keep few of those
                let free = o[0] == "panic";
                let l = if free { &mut undef } else { &mut differ };
                if l.len() < if free { 2 } else { 8 } {
                    l.push(case);
                }
            } else {
                let k = format!("{} {}", g[0], s.len());
                let e = seen.entry(k).or_default();
                *e += 1;
                if *e == 1 || r.chance(1, 30) {
                    same.push(case);
                }
            }
        }
        while same.len() > cap {
            let k = r.below(same.len());
            same.swap_remove(k);
        }
        differ.extend(undef);
        differ.extend(same);
        for k in meta["kinds"].as_array().unwrap() {
            rep.count(&format!("kind:{}", k.as_str().unwrap()), 1);
        }
        rep.count("modules", 1);
        rep.count("cases", differ.len() as u64);
        let line = json!({"id": id, "M": meta["M"], "f": meta["f"], "cases": differ}).to_string();
        writeln!(out.lock().unwrap(), "{line}").unwrap();
    });
    out.lock().unwrap().flush().unwrap();
    rep.finish();
}
