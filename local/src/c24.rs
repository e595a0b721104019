//! C24: macro-generated code. Programs declaring actors with the macros are generated, together with hand-written
//! twins; they are compiled against the current tree and both are driven with generated calls, next to plain calls of
//! the methods. And every type which can be a reply is sent as one.
use std::{
    fmt::Write,
    path::PathBuf,
    process::Command,
    sync::{
        atomic::{AtomicU64, Ordering},
        OnceLock,
    },
};

use pbt::{boxed, fail, CaseResult, Info, Session};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Ty {
    Base(u8),
    Fn,
    /// generic parameter of the impl, bare, in a tuple or in an array
    T(u8, u8),
    /// generic parameter of the method, bare, or in something
    X(u8),
    /// array of a constant parameter's size
    N,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Ret {
    None,
    Base(u8),
    Option(u8),
    Result(u8, u8),
    Derived(u8, u8),
    OptionT(u8),
    TupleT(u8),
    ArrayT(u8),
    ResultT(u8, u8),
    VecX,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
struct Arg {
    ty: Ty,
    is_mut: bool,
    doc: bool,
    raw: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Msg {
    words: Vec<u8>,
    vis: u8,
    is_async: bool,
    yields: u8,
    by_ref: bool,
    args: Vec<Arg>,
    ret: Ret,
    derive: bool,
    doc: bool,
    inline: bool,
    where_clause: bool,
    /// in the second impl block
    second: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Family {
    generics: u8,
    where_clause: bool,
    name: Option<String>,
    plain_items: bool,
    msgs: Vec<Msg>,
    calls: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Program {
    families: Vec<Family>,
    seed: u64,
}

const BASE: [&str; 14] = [
    "i32", "u8", "String", "bool", "Vec<u16>", "Option<i64>", "(i32, String)", "[u8; 3]", "Box<i32>", "BTreeMap<u8, String>", "char", "()", "u64",
    "(u8, char, Vec<String>)",
];
const WORDS: [&str; 10] = ["set", "get", "x2", "inc", "all", "a", "value", "item3d", "do", "now"];
const RAW: [&str; 6] = ["type", "move", "ref", "match", "fn", "loop"];
const TS: [&str; 2] = ["T", "U"];

fn base(n: u8) -> &'static str {
    BASE[n as usize % BASE.len()]
}

impl Msg {
    fn uses_const(&self) -> bool {
        self.args.iter().any(|a| a.ty == Ty::N)
    }
    fn uses_x(&self) -> bool {
        self.args.iter().any(|a| matches!(a.ty, Ty::X(_)))
    }
    fn uses_t(&self, g: u8) -> Vec<&'static str> {
        (0..g).filter(|i| self.args.iter().any(|a| matches!(a.ty, Ty::T(n, _) if n % g == *i))).map(|i| TS[i as usize]).collect()
    }
    fn method(&self, k: usize) -> String {
        let mut s: Vec<&str> = self.words.iter().map(|w| WORDS[*w as usize % WORDS.len()]).collect();
        let last = format!("m{k}");
        s.push(&last);
        s.join("_")
    }
    fn ident(&self, k: usize) -> String {
        self.method(k)
            .split('_')
            .map(|w| {
                let mut c = w.chars();
                c.next().unwrap().to_uppercase().chain(c).collect::<String>()
            })
            .collect()
    }
    fn arg_name(&self, i: usize) -> String {
        if self.args[i].raw {
            format!("r#{}", RAW[i % RAW.len()])
        } else {
            format!("x{i}")
        }
    }
    fn ty(&self, t: Ty, g: u8) -> String {
        match t {
            Ty::Base(n) => base(n).into(),
            Ty::Fn => "fn(i32) -> i32".into(),
            Ty::T(n, how) => {
                let t = TS[(n % g) as usize];
                match how % 7 {
                    0 => t.into(),
                    1 => format!("({t}, i32)"),
                    2 => format!("[{t}; 2]"),
                    3 => format!("Vec<{t}>"),
                    4 => format!("std::option::Option<(u8, {t})>"),
                    5 => format!("BTreeMap<u8, Vec<{t}>>"),
                    _ => format!("Box<Option<{t}>>"),
                }
            }
            Ty::X(how) => match how % 3 {
                0 => "X".into(),
                1 => "Vec<X>".into(),
                _ => "(X, Option<X>)".into(),
            },
            Ty::N => "[u8; N]".into(),
        }
    }
    /// with the generic parameters replaced as the driver does
    fn concrete(&self, t: Ty, g: u8) -> String {
        match t {
            Ty::N => "[u8; 4]".into(),
            Ty::X(_) => self.ty(t, g).replace('X', "u16"),
            Ty::T(n, _) => {
                let name = TS[(n % g) as usize];
                let with = if n % g == 0 { "i32" } else { "String" };
                // (the names are single letters, which only stand for themselves next to punctuation)
                let mut out = String::new();
                let s = self.ty(t, g);
                let chars: Vec<char> = s.chars().collect();
                for (i, c) in chars.iter().enumerate() {
                    let alone = !(i > 0 && chars[i - 1].is_alphanumeric()) && !chars.get(i + 1).is_some_and(|c| c.is_alphanumeric());
                    if alone && c.to_string() == name {
                        out += with;
                    } else {
                        out.push(*c);
                    }
                }
                out
            }
            _ => self.ty(t, g),
        }
    }
    fn ret(&self, g: u8) -> Option<String> {
        Some(match self.ret {
            Ret::None => return None,
            Ret::Base(n) => base(n).into(),
            Ret::Option(n) => format!("Option<{}>", base(n)),
            Ret::Result(n, e) => format!("Result<{}, Fault<{}>>", base(n), base(e)),
            Ret::Derived(how, n) => match how % 3 {
                0 => format!("Named<{}>", base(n)),
                1 => format!("Choice<{}>", base(n)),
                _ => "Plain".into(),
            },
            Ret::OptionT(n) => format!("Option<{}>", TS[(n % g) as usize]),
            Ret::TupleT(n) => format!("({}, i32)", TS[(n % g) as usize]),
            Ret::ArrayT(n) => format!("[{}; 2]", TS[(n % g) as usize]),
            Ret::ResultT(n, e) => format!("Result<{}, Fault<{}>>", TS[(n % g) as usize], base(e)),
            Ret::VecX => "Vec<X>".into(),
        })
    }
    fn is_result(&self) -> bool {
        matches!(self.ret, Ret::Result(..) | Ret::ResultT(..))
    }
    /// generics of the method, with and without bounds, and its where clause
    fn own(&self) -> (Vec<String>, Vec<String>, String) {
        let (mut decl, mut names, mut clause) = (vec![], vec![], String::new());
        if self.uses_x() {
            if self.where_clause {
                decl.push("X".to_string());
                clause = " where X: Val".into();
            } else {
                decl.push("X: Val".to_string());
            }
            names.push("X".to_string());
        }
        if self.uses_const() {
            decl.push("const N: usize".to_string());
            names.push("N".to_string());
        }
        (decl, names, clause)
    }
}

fn angle(v: &[String]) -> String {
    if v.is_empty() {
        String::new()
    } else {
        format!("<{}>", v.join(", "))
    }
}

impl Family {
    /// declared generics, their names, where clause
    fn gens(&self) -> (String, String, String) {
        let n = &TS[..self.generics as usize];
        let names = angle(&n.iter().map(|s| s.to_string()).collect::<Vec<_>>());
        if n.is_empty() {
            return (String::new(), names, String::new());
        }
        let bounds: Vec<String> = n.iter().map(|t| format!("{t}: Val")).collect();
        if self.where_clause {
            (names.clone(), names, format!(" where {}", bounds.join(", ")))
        } else {
            (angle(&bounds), names, String::new())
        }
    }
    fn expected_name(&self) -> String {
        self.name.clone().unwrap_or("Act".into())
    }
    fn method(&self, k: usize, macros: bool) -> String {
        let m = &self.msgs[k];
        let g = self.generics;
        let mut s = String::new();
        if macros {
            if m.doc {
                s += "        /// Does something.\n        ///\n        /// - it does\n";
            }
            s += if m.derive { "        #[message(derive(Clone, Debug))]\n" } else { "        #[message]\n" };
        }
        if m.inline {
            s += "        #[inline]\n";
        }
        let (decl, _, clause) = m.own();
        let mut args = vec![if m.by_ref { "&self".to_string() } else { "&mut self".to_string() }];
        for (i, a) in m.args.iter().enumerate() {
            let doc = if macros && a.doc { "\n            /// an argument\n            " } else { "" };
            args.push(format!("{doc}{}{}: {}", if a.is_mut { "mut " } else { "" }, m.arg_name(i), m.ty(a.ty, g)));
        }
        let vis = ["pub ", "pub(crate) ", ""][m.vis as usize % 3];
        let ret = m.ret(g).map(|r| format!(" -> {r}")).unwrap_or_default();
        let _ = writeln!(s, "        {vis}{}fn {}{}({}){ret}{clause} {{", if m.is_async { "async " } else { "" }, m.method(k), angle(&decl), args.join(", "));
        let shown: Vec<String> = (0..m.args.len()).map(|i| format!("Val::show(&{})", m.arg_name(i))).collect();
        let _ = writeln!(s, "            let args: Vec<String> = vec![{}];", shown.join(", "));
        let _ = writeln!(s, "            let n = self.note({k}, \"{}\", args);", m.method(k));
        if m.is_async {
            let _ = writeln!(s, "            for _ in 0..{} {{ tokio::task::yield_now().await; }}", m.yields);
        }
        let same = |t: &str| (0..m.args.len()).find(|i| m.ty(m.args[*i].ty, g) == t).map(|i| format!("{}.clone()", m.arg_name(i)));
        let value = |t: &str| same(t).unwrap_or_else(|| format!("<{t} as Val>::of(n)"));
        if let Some(r) = m.ret(g) {
            let e = match m.ret {
                Ret::Result(v, e) => format!("if n % 4 == 1 {{ Err(Fault({})) }} else {{ Ok({}) }}", value(base(e)), value(base(v))),
                Ret::ResultT(v, e) => format!("if n % 4 == 1 {{ Err(Fault({})) }} else {{ Ok({}) }}", value(base(e)), value(TS[(v % g) as usize])),
                _ => value(&r),
            };
            let _ = writeln!(s, "            {e}");
        }
        s += "        }\n";
        s
    }
    /// the message and its implementation, by hand
    fn by_hand(&self, k: usize) -> String {
        let m = &self.msgs[k];
        let g = self.generics;
        let (decl, names, clause) = m.own();
        let (gen, act_names, act_clause) = self.gens();
        let ts: Vec<String> = m.uses_t(g).iter().map(|s| s.to_string()).collect();
        let mut s = String::new();
        let struct_gen: Vec<String> = ts.iter().cloned().chain(decl.iter().cloned()).collect();
        let use_gen: Vec<String> = ts.iter().cloned().chain(names.iter().cloned()).collect();
        if m.derive {
            s += "    #[derive(Clone, Debug)]\n";
        }
        if m.args.is_empty() {
            let _ = writeln!(s, "    pub struct {};", m.ident(k));
        } else {
            let _ = writeln!(s, "    pub struct {}{} {{", m.ident(k), angle(&struct_gen));
            for (i, a) in m.args.iter().enumerate() {
                let _ = writeln!(s, "        pub {}: {},", m.arg_name(i), m.ty(a.ty, g));
            }
            s += "    }\n";
        }
        let inner = gen.trim_start_matches('<').trim_end_matches('>').to_string();
        let all: Vec<String> = [inner].into_iter().filter(|s| !s.is_empty()).chain(decl).collect();
        let clauses: Vec<&str> = [act_clause.as_str(), clause.as_str()].into_iter().filter(|c| !c.is_empty()).map(|c| c.trim_start_matches(" where ")).collect();
        let clause = if clauses.is_empty() { String::new() } else { format!(" where {}", clauses.join(", ")) };
        let msg = format!("{}{}", m.ident(k), angle(&use_gen));
        let args: Vec<String> = (0..m.args.len()).map(|i| format!("msg.{}", m.arg_name(i))).collect();
        let _ = writeln!(s, "    impl{} Message<{msg}> for Act{act_names}{clause} {{", angle(&all));
        let _ = writeln!(s, "        type Reply = {};", m.ret(g).unwrap_or("()".into()));
        let _ = writeln!(s, "        async fn handle(&mut self, msg: {msg}, _: &mut Context<Self, Self::Reply>) -> Self::Reply {{");
        let _ = writeln!(s, "            self.{}({}){}", m.method(k), args.join(", "), if m.is_async { ".await" } else { "" });
        s += "        }\n    }\n";
        s
    }
    fn module(&self, macros: bool) -> String {
        let (gen, names, clause) = self.gens();
        let mut s = String::new();
        let _ = writeln!(s, "    pub mod {} {{\n    use crate::prelude::*;", if macros { "m" } else { "h" });
        if macros {
            s += "    #[derive(Actor)]\n";
            if let Some(n) = &self.name {
                let _ = writeln!(s, "    #[actor(name = {n:?})]");
            }
        }
        let _ = writeln!(s, "    pub struct Act{gen}{clause} {{ log: Mutex<Vec<String>>, n: AtomicU64, {} }}", TS[..self.generics as usize].iter().map(|t| format!("{}: Option<{t}>", t.to_lowercase())).collect::<Vec<_>>().join(", "));
        if !macros {
            let _ = writeln!(s, "    impl{gen} Actor for Act{names}{clause} {{\n        type Error = std::convert::Infallible;\n        fn name() -> &'static str {{ {:?} }}\n    }}", self.expected_name());
        }
        // replies
        let d = if macros { "#[derive(Reply, Clone, Debug)]" } else { "#[derive(Clone, Debug)]" };
        let _ = writeln!(s, "    {d} pub struct Named<A: Val> {{ pub a: A, pub b: i32 }}\n    {d} pub enum Choice<A> where A: Val {{ One(A), Two {{ x: u8 }}, Three }}\n    {d} pub struct Plain;");
        s += "    impl<A: Val> Val for Named<A> { fn gen(r: &mut Rng) -> Self { Named { a: A::gen(r), b: i32::gen(r) } } }\n";
        s += "    impl<A: Val> Val for Choice<A> { fn gen(r: &mut Rng) -> Self { match r.below(3) { 0 => Choice::One(A::gen(r)), 1 => Choice::Two { x: u8::gen(r) }, _ => Choice::Three } } }\n";
        s += "    impl Val for Plain { fn gen(_: &mut Rng) -> Self { Plain } }\n";
        if !macros {
            for (g, t) in [("<A: Val>", "Named<A>"), ("<A: Val>", "Choice<A>"), ("", "Plain")] {
                let _ = writeln!(s, "    impl{g} Reply for {t} {{ type Ok = Self; type Error = std::convert::Infallible; type Value = Self;\n        fn to_result(self) -> Result<Self, Self::Error> {{ Ok(self) }}\n        fn into_any_err(self) -> Option<Box<dyn kameo::reply::ReplyError>> {{ None }}\n        fn into_value(self) -> Self {{ self }} }}");
            }
        }
        // the methods
        for second in [false, true] {
            let ks: Vec<usize> = (0..self.msgs.len()).filter(|k| self.msgs[*k].second == second).collect();
            if ks.is_empty() && (second || macros) {
                continue;
            }
            if macros {
                s += "    #[messages]\n";
            }
            let _ = writeln!(s, "    impl{gen} Act{names}{clause} {{");
            if self.plain_items && !second {
                s += "        const SOME: u32 = 5;\n        fn get(&self) -> u32 { Self::SOME }\n";
            }
            for k in &ks {
                s += &self.method(*k, macros);
                if self.plain_items && !second && Some(k) == ks.first() {
                    s += "        #[allow(unused)]\n        async fn set(&mut self, x: u32) -> u32 { x + self.get() }\n";
                }
            }
            s += "    }\n";
        }
        if !macros {
            for k in 0..self.msgs.len() {
                s += &self.by_hand(k);
            }
        }
        // what is common
        let _ = writeln!(
            s,
            "    impl{gen} Act{names}{clause} {{
        pub fn new() -> Self {{ Act {{ log: Mutex::new(vec![]), n: AtomicU64::new(1), {} }} }}
        fn note(&self, k: u64, name: &str, args: Vec<String>) -> u64 {{
            self.log.lock().unwrap().push(format!(\"{{name}}({{}})\", args.join(\", \")));
            let n = self.n.load(Ordering::Relaxed).wrapping_mul(31).wrapping_add(k);
            self.n.store(n, Ordering::Relaxed);
            n
        }}
    }}
    pub type A = Act{};",
            TS[..self.generics as usize].iter().map(|t| format!("{}: None", t.to_lowercase())).collect::<Vec<_>>().join(", "),
            ["", "<i32>", "<i32, String>"][self.generics as usize],
        );
        let (mut send, mut call) = (String::new(), String::new());
        for (k, m) in self.msgs.iter().enumerate() {
            let mut bind = String::new();
            for (i, a) in m.args.iter().enumerate() {
                let _ = write!(bind, "let {} = <{} as Val>::gen(&mut r); ", m.arg_name(i), m.concrete(a.ty, self.generics));
            }
            let names: Vec<String> = (0..m.args.len()).map(|i| m.arg_name(i)).collect();
            let lit = if names.is_empty() { m.ident(k) } else { format!("{} {{ {} }}", m.ident(k), names.join(", ")) };
            let lit = if m.derive { format!("({lit}).clone()") } else { lit };
            let _ = writeln!(send, "                {k} => {{ {bind} drive!(a, mode, {lit}) }}");
            let wait = if m.is_async { ".await" } else { "" };
            let shown = if m.is_result() {
                "match res { Ok(v) => (format!(\"ok {}\", v.show_all()), false), Err(e) => (format!(\"err {e:?}\"), true) }"
            } else {
                "(format!(\"ok {}\", res.show_all()), false)"
            };
            let _ = writeln!(call, "                {k} => {{ {bind} if dead {{ (String::new(), false) }} else {{ let res = s.{}({}){wait}; {shown} }} }}", m.method(k), names.join(", "));
        }
        let n = self.msgs.len();
        let _ = writeln!(
            s,
            "    pub async fn drive(seed: u64) -> (Trace, String) {{
        let mut r = Rng(seed);
        let p = PreparedActor::<A>::new(mailbox::unbounded());
        let a = p.actor_ref().clone();
        let join = p.spawn(A::new());
        let mut t = Trace {{ name: <A as Actor>::name().to_string(), ..Default::default() }};
        for _ in 0..r.below(12) {{
            let (k, mode) = (r.below({n}), r.below(5));
            let s = match k {{
{send}                _ => unreachable!(),
            }};
            t.answers.push(s);
            for _ in 0..60 {{ tokio::task::yield_now().await; }}
        }}
        let _ = a.stop_gracefully().await;
        let (s, reason) = join.await.unwrap();
        t.log = s.log.lock().unwrap().clone();
        t.n = s.n.load(Ordering::Relaxed);
        t.end = if let ActorStopReason::Panicked(_) = &reason {{ \"panicked\" }} else {{ \"normal\" }}.into();
        (t, format!(\"{{reason:?}}\"))
    }}"
        );
        if macros {
            let _ = writeln!(
                s,
                "    pub async fn direct(seed: u64) -> Trace {{
        let mut r = Rng(seed);
        let mut s = A::new();
        let mut dead = false;
        let mut t = Trace {{ name: {:?}.to_string(), ..Default::default() }};
        for _ in 0..r.below(12) {{
            let (k, mode) = (r.below({n}), r.below(5));
            let (said, err): (String, bool) = match k {{
{call}                _ => unreachable!(),
            }};
            t.answers.push(match (dead, mode) {{
                (true, 0 | 2) => \"not running\".into(),
                (true, _) => \"refused\".into(),
                (_, 0 | 1 | 2) => said,
                _ => {{ dead = err; \"told\".into() }}
            }});
        }}
        t.log = s.log.lock().unwrap().clone();
        t.n = s.n.load(Ordering::Relaxed);
        t.end = if dead {{ \"panicked\" }} else {{ \"normal\" }}.into();
        t
    }}",
                self.expected_name()
            );
        }
        s += "    }\n";
        s
    }
}

impl Program {
    fn source(&self, with_macros: bool) -> String {
        let mut s = String::from(include_str!("../gen/prelude.rs"));
        for (i, f) in self.families.iter().enumerate() {
            let _ = writeln!(s, "pub mod fam{i} {{\n    use crate::prelude::*;");
            if with_macros {
                s += &f.module(true);
            }
            s += &f.module(false);
            if with_macros {
                s += "    pub async fn check(seed: u64) -> Result<(), String> {
        let ((m, why), (h, why_h), d) = (m::drive(seed).await, h::drive(seed).await, m::direct(seed).await);
        differ(\"hand-written twin\", &h, &m)?;
        differ(\"plain calls\", &d, &m)?;
        if why != why_h { return Err(format!(\"stopped with {why} instead of {why_h}\")); }
        Ok(())
    }\n";
            }
            s += "}\n";
        }
        s += "fn main() {\n    let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();\n    std::panic::set_hook(Box::new(|_| {}));\n    rt.block_on(async {\n";
        if with_macros {
            for (i, f) in self.families.iter().enumerate() {
                let _ = writeln!(
                    s,
                    "        for k in 0..{} {{\n            let seed = {}u64.wrapping_add(k * 7919);\n            if let Err(e) = fam{i}::check(seed).await {{ println!(\"FAIL family {i}, seed {{seed}}: {{e}}\"); std::process::exit(7); }}\n        }}",
                    f.calls,
                    self.seed.wrapping_add(i as u64)
                );
            }
        }
        s += "        println!(\"FINE\");\n    });\n}\n";
        s
    }
}

fn root() -> PathBuf {
    std::env::var("VERIF_ROOT").unwrap_or("/verif".into()).into()
}

/// The compiled libraries of this very harness.
fn libs() -> &'static Vec<(String, String)> {
    static LIBS: OnceLock<Vec<(String, String)>> = OnceLock::new();
    LIBS.get_or_init(|| {
        let out = Command::new("cargo")
            .args(["build", "--offline", "--bin", "local", "--message-format=json"])
            .current_dir(root().join("local"))
            .output()
            .expect("cargo runs");
        let mut libs = vec![];
        for l in String::from_utf8_lossy(&out.stdout).lines() {
            let Ok(v) = serde_json::from_str::<serde_json::Value>(l) else { continue };
            let name = v["target"]["name"].as_str().unwrap_or("");
            if v["reason"] == "compiler-artifact" && (name == "kameo" || name == "tokio") {
                for f in v["filenames"].as_array().into_iter().flatten().filter_map(|f| f.as_str()) {
                    if f.ends_with(".rlib") {
                        libs.push((name.to_string(), f.to_string()));
                    }
                }
            }
        }
        assert_eq!(libs.len(), 2, "kameo and tokio are among the artifacts: {}", String::from_utf8_lossy(&out.stderr));
        libs
    })
}

fn rustc(dir: &PathBuf, name: &str, source: &str) -> Result<PathBuf, String> {
    let src = dir.join(format!("{name}.rs"));
    let bin = dir.join(name);
    std::fs::write(&src, source).expect("room for the program");
    let mut c = Command::new("rustc");
    c.args(["--edition", "2021", "--crate-type", "bin", "-C", "debuginfo=0", "-C", "codegen-units=4", "-A", "warnings"]);
    let mut deps = None;
    for (n, f) in libs() {
        c.arg("--extern").arg(format!("{n}={f}"));
        deps = PathBuf::from(f).parent().map(|p| p.to_path_buf());
    }
    let mut deps = deps.unwrap();
    if !deps.ends_with("deps") {
        deps = deps.join("deps");
    }
    c.arg("-L").arg(format!("dependency={}", deps.display()));
    let out = c.arg(&src).arg("-o").arg(&bin).output().expect("rustc runs");
    if out.status.success() {
        Ok(bin)
    } else {
        let text = String::from_utf8_lossy(&out.stderr);
        Err(text.lines().filter(|l| !l.is_empty()).take(12).collect::<Vec<_>>().join(" / "))
    }
}

fn program_case(p: &Program) -> CaseResult {
    static NEXT: AtomicU64 = AtomicU64::new(0);
    struct Dir(PathBuf);
    impl Drop for Dir {
        fn drop(&mut self) {
            let _ = std::fs::remove_dir_all(&self.0);
        }
    }
    let dir = Dir(root().join("target").join("gen").join(format!("{}-{}", std::process::id(), NEXT.fetch_add(1, Ordering::Relaxed))));
    std::fs::create_dir_all(&dir.0).expect("room for the program");
    let bin = match rustc(&dir.0, "twins", &p.source(true)) {
        Ok(b) => b,
        Err(e) => {
            if let Err(e) = rustc(&dir.0, "hand", &p.source(false)) {
                // (not the macros' fault)
                eprintln!("the hand-written program can't be compiled: {e}");
                std::process::exit(3);
            }
            return fail("does-not-compile", format!("the hand-written twin compiles, but not the declaration with macros: {e}"));
        }
    };
    let out = Command::new(&bin).output().expect("the program runs");
    let text = String::from_utf8_lossy(&out.stdout);
    if !text.contains("FINE") {
        let what = text.lines().find(|l| l.starts_with("FAIL")).map(str::to_string).unwrap_or_else(|| format!("the program ends with {:?}: {}", out.status, String::from_utf8_lossy(&out.stderr)));
        return fail("differs", what);
    }
    let all = || p.families.iter().flat_map(|f| &f.msgs);
    Ok(Info::new(all().any(|m| !m.args.is_empty()))
        .label(p.families.iter().any(|f| f.generics > 0), "generic actor")
        .label(all().any(|m| m.uses_x()), "generic method")
        .label(all().any(|m| m.uses_const()), "constant parameter")
        .label(all().any(|m| m.is_result()), "fallible method")
        .label(all().any(|m| matches!(m.ret, Ret::Derived(..))), "derived reply")
        .label(all().any(|m| m.is_async), "async method"))
}

fn program() -> BoxedStrategy<Program> {
    let b = || 0u8..BASE.len() as u8;
    let ty = prop_oneof![8 => b().prop_map(Ty::Base), 1 => Just(Ty::Fn), 4 => (0u8..2, 0u8..7).prop_map(|(a, b)| Ty::T(a, b)), 2 => (0u8..3).prop_map(Ty::X), 1 => Just(Ty::N)];
    let arg = (ty, prop::bool::weighted(0.2), prop::bool::weighted(0.2), prop::bool::weighted(0.1)).prop_map(|(ty, is_mut, doc, raw)| Arg { ty, is_mut, doc, raw });
    let ret = prop_oneof![
        2 => Just(Ret::None),
        4 => b().prop_map(Ret::Base),
        1 => b().prop_map(Ret::Option),
        3 => (b(), b()).prop_map(|(a, c)| Ret::Result(a, c)),
        3 => (0u8..3, b()).prop_map(|(a, c)| Ret::Derived(a, c)),
        1 => (0u8..2).prop_map(Ret::OptionT),
        1 => (0u8..2).prop_map(Ret::TupleT),
        1 => (0u8..2).prop_map(Ret::ArrayT),
        1 => (0u8..2, b()).prop_map(|(a, c)| Ret::ResultT(a, c)),
        1 => Just(Ret::VecX),
    ];
    let msg = (
        (prop::collection::vec(0u8..WORDS.len() as u8, 0..3), 0u8..3, any::<bool>(), 0u8..3, any::<bool>()),
        prop::collection::vec(arg, 0..6),
        ret,
        (prop::bool::weighted(0.3), prop::bool::weighted(0.3), prop::bool::weighted(0.2), any::<bool>(), prop::bool::weighted(0.3)),
    )
        .prop_map(|((words, vis, is_async, yields, by_ref), args, ret, (derive, doc, inline, where_clause, second))| Msg {
            words,
            vis,
            is_async,
            yields,
            by_ref,
            args,
            ret,
            derive,
            doc,
            inline,
            where_clause,
            second,
        });
    let family = (0u8..3, any::<bool>(), prop::option::weighted(0.3, "[ -~äß]{0,12}"), any::<bool>(), prop::collection::vec(msg, 1..7)).prop_map(
        |(generics, where_clause, name, plain_items, mut msgs)| {
            for m in &mut msgs {
                // only what the family can express
                for a in &mut m.args {
                    if generics == 0 && matches!(a.ty, Ty::T(..)) {
                        a.ty = Ty::Base(0);
                    }
                }
                if generics == 0 && matches!(m.ret, Ret::OptionT(_) | Ret::TupleT(_) | Ret::ArrayT(_) | Ret::ResultT(..)) {
                    m.ret = Ret::Base(2);
                }
                if !m.uses_x() && m.ret == Ret::VecX {
                    m.ret = Ret::None;
                }
                // the declaration of the message has no room for the where clause
                if m.derive && m.args.iter().any(|a| a.ty == Ty::Fn) {
                    m.derive = false;
                }
            }
            Family { generics, where_clause, name, plain_items, msgs, calls: 40 }
        },
    );
    (prop::collection::vec(family, 1..7), any::<u64>()).prop_map(|(families, seed)| Program { families, seed }).boxed()
}

pub fn run(s: &mut Session) {
    s.prop("generated_programs", "a message with arguments is declared", 48, 1_500, || boxed(program()), program_case);
    crate::replies::run(s);
}
