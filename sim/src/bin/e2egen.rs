//! Checks of complete generated parsers: writes a cargo workspace whose program holds parsers
//! derived from generated grammars, builds it with the real derive macro and compiler, runs it.
//!   e2egen check PROP TIER
//!   e2egen replay FILE
//!   e2egen write DIR PROP SEED COUNT       only writes the workspace
use serde_json::{json, Value};
use sim::emodel::{accessor_names, Project, Source, G};
use sim::gram::Expr;
use sim::rng::{hash_str, mix, Rng};
use std::collections::BTreeSet;
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

fn ident(s: &str) -> String {
    format!("r#{s}")
}

/// Everything a workspace is made of.
struct Work {
    dir: PathBuf,
    /// Prefix of package names.
    tag: String,
    /// Accessors and pairs are used too.
    values: bool,
    /// All rules through all rule types.
    all: bool,
}

/// Lengths of choices and sequences the generated code defines for itself.
fn big(g: &G) -> (BTreeSet<usize>, BTreeSet<usize>) {
    fn walk<'g>(g: &'g G, e: &'g Expr, env: &sim::emodel::Env<'g>, out: &mut (BTreeSet<usize>, BTreeSet<usize>)) {
        let (e, env) = sim::emodel::expand(g, e, env.clone());
        match e {
            Expr::Str(_) | Expr::Insens(_) | Expr::Range(..) => {}
            Expr::Path(_, a) => {
                if let Some(sim::gram::Args::Call(v)) = a {
                    v.iter().for_each(|x| walk(g, x, &env, out));
                }
            }
            Expr::Seq(..) => {
                let v = sim::emodel::sequence(g, e, &env);
                out.1.insert(v.len());
                v.into_iter().for_each(|(_, _, x, en)| walk(g, x, &en, out));
            }
            Expr::Choice(..) => {
                let v = sim::emodel::choices(g, e, &env);
                out.0.insert(v.len());
                v.into_iter().for_each(|(x, en)| walk(g, x, &en, out));
            }
            Expr::Pos(x) | Expr::Neg(x) | Expr::Opt(x) | Expr::Rep(x) | Expr::Plus(x) | Expr::RepRange(x, ..) | Expr::Sep(x, _) => walk(g, x, &env, out),
        }
    }
    let mut out = Default::default();
    for (k, i) in g.insts.iter().enumerate() {
        for r in &i.m.rules {
            if k == 0 && g.inlined.contains(&(k, g.insts[k].m.rules.iter().position(|x| std::ptr::eq(x, r)).unwrap())) {
                continue;
            }
            let args = r.args.iter().map(|s| (s.as_str(), sim::emodel::Bind::Fault(0))).collect();
            walk(g, &r.expr, &sim::emodel::Env { args: std::rc::Rc::new(args), ..sim::emodel::Env::plain(k) }, &mut out);
        }
    }
    out.0.retain(|n| *n > 16);
    out.1.retain(|n| *n > 16);
    out
}

/// Source of the module for one project; its files are in `gram/<name>/` of the crate.
fn module(p: &Project, name: &str, w: &Work) -> String {
    let mut r = Rng::new(hash_str(&p.hash()));
    let all = w.all;
    let g = G::new(p).expect("project");
    let mut s = String::new();
    s.push_str("use sim::e2e::*;\nuse sim::exec::{Describe, Mode};\nuse sim::model::Tree;\n\n#[derive(pest3::Parser)]\n");
    for x in &p.sources {
        match x {
            Source::File(f) => writeln!(s, "#[grammar = \"gram/{name}/{f}\"]").unwrap(),
            Source::Inline(t) => writeln!(s, "#[grammar_inline = {t:?}]").unwrap(),
        }
    }
    if let Some(m) = &p.rules_mod {
        writeln!(s, "#[rules_mod = \"{m}\"]").unwrap();
    }
    if p.boxing {
        s.push_str("#[box_rules_only_if_needed]\n");
    }
    if p.no_pair {
        s.push_str("#[no_pair]\n");
    }
    s.push_str("pub struct TheParser;\n\n");
    let (ch, sq) = big(&g);
    for n in ch {
        let t: Vec<String> = (0..n).map(|i| format!("T{i}")).collect();
        let m: Vec<String> = (0..n).map(|i| format!("T{i} choice_{i} {i}")).collect();
        writeln!(s, "sim::local_choice!(generics::Choice{n}<{}>; {});", t.join(", "), m.join(", ")).unwrap();
    }
    for n in sq {
        let t: Vec<String> = (0..n).map(|i| format!("T{i}, R{i}")).collect();
        let m: Vec<String> = (0..n).map(|i| format!("T{i} R{i} field_{i}")).collect();
        writeln!(s, "sim::local_sequence!(generics::Sequence{n}<{}>; {});", t.join(", "), m.join(", ")).unwrap();
    }
    let rules = p.rules_name();
    let mut entries = String::new();
    let mut k = 0;
    for (inst, i) in g.insts.iter().enumerate() {
        let place: String = i.path.iter().map(|s| format!("{rules}::{}::", ident(s))).collect();
        let mut picks: Vec<usize> = vec![];
        for (j, rule) in i.m.rules.iter().enumerate() {
            if rule.name == "~" || rule.name == "^" || (inst == 0 && g.inlined.contains(&(inst, j))) {
                continue;
            }
            picks.push(j);
            let a: Vec<String> = (0..rule.args.len()).map(|k| format!("A{k}")).collect();
            let bound: String = a.iter().map(|a| format!(", {a}: Describe")).collect();
            let given: String = a.iter().map(|a| format!(", {a}")).collect();
            let names = if w.values { accessor_names(&g, inst, j) } else { vec![] };
            let gets: Vec<String> = names.iter().map(|n| format!("getter({n:?}, self.{}())", ident(n))).collect();
            writeln!(
                s,
                "impl<'i{bound}> Describe for {place}{rules}::{}<'i{given}> {{\n    fn desc(&self) -> Tree {{\n        rule_tree({:?}, &self.span, &|| self.content.desc(), &|| vec![{}])\n    }}\n}}",
                ident(&rule.name),
                g.full(inst, j),
                gets.join(", ")
            )
            .unwrap();
        }
        let limit = if all { usize::MAX } else if inst == 0 { 5 } else { 2 };
        while picks.len() > limit {
            let k = r.below(picks.len());
            picks.remove(k);
        }
        for j in picks {
            let rule = &i.m.rules[j];
            let mut bases = vec![0];
            if !i.path.is_empty() && all {
                bases = (0..=i.path.len()).collect();
            } else if !i.path.is_empty() && r.chance(1, 2) {
                bases = vec![r.range(1, i.path.len())];
            }
            for base in bases {
                let given: String = (0..rule.args.len()).map(|k| format!(", F<{k}>")).collect();
                let ty = format!("{place}{rules}::{}<'i{given}>", ident(&rule.name));
                let rt = format!("{}Rule", i.path[..base].iter().map(|s| format!("{rules}::{}::", ident(s))).collect::<String>());
                let parser = if base == 0 { "TheParser" } else { "Plain" };
                let pairs = match (p.no_pair || !w.values, rule.silent) {
                    (true, _) => "None".to_string(),
                    (_, true) => format!("Some(pairs_of::<{rt}, {ty}>)"),
                    _ => format!("Some(tree_of::<{rt}, {ty}>)"),
                };
                writeln!(
                    s,
                    "fn run_{k}<'i>(text: &'i str, c: &ECase, m: Mode) -> ERes {{\n    let own = format!(\"{{:?}}\", <{ty} as pest3::typed::wrapper::Rule>::RULE);\n    drive::<{parser}, {rt}, {ty}>(text, c, m, own, {pairs})\n}}"
                )
                .unwrap();
                writeln!(
                    entries,
                    "        Entry {{ path: &{:?}, rule: {:?}, base: {base}, faults: {}, run: run_{k} }},",
                    i.path,
                    rule.name,
                    rule.args.len()
                )
                .unwrap();
                k += 1;
            }
        }
    }
    writeln!(s, "pub fn table() -> Table {{\n    Table {{ project: include_str!(\"../gram/{name}/project.json\"), entries: vec![\n{entries}    ] }}\n}}").unwrap();
    s
}

fn write(p: &Path, s: &str) {
    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    if std::fs::read_to_string(p).ok().as_deref() != Some(s) {
        std::fs::write(p, s).unwrap();
    }
}

/// One library per `per` projects and a program using all of them.
fn write_workspace(w: &Work, projects: &[Project], per: usize) {
    let (dir, tag) = (&w.dir, &w.tag);
    let sim = PathBuf::from(env!("CARGO_MANIFEST_DIR"));
    let libs = projects.len().div_ceil(per);
    let header = "#![recursion_limit = \"512\"]\n#![allow(warnings)]\n";
    for k in 0..libs {
        let here: Vec<usize> = (k * per..projects.len().min((k + 1) * per)).collect();
        let lib = dir.join(format!("l{k}"));
        write(
            &lib.join("Cargo.toml"),
            &format!(
                "[package]\nname = \"{tag}_l{k}\"\nversion = \"0.1.0\"\nedition = \"2021\"\n\n[lib]\npath = \"src/lib.rs\"\n\n[dependencies]\nsim = {{ path = {sim:?} }}\npest3 = {{ path = \"/repo/pest\", features = [\"derive\"] }}\n"
            ),
        );
        let mut lib_rs = header.to_string();
        for i in &here {
            writeln!(lib_rs, "pub mod g{i};").unwrap();
        }
        lib_rs.push_str("pub fn tables() -> Vec<sim::e2e::Table> {\n    vec![\n");
        for i in &here {
            writeln!(lib_rs, "        g{i}::table(),").unwrap();
        }
        lib_rs.push_str("    ]\n}\n");
        write(&lib.join("src/lib.rs"), &lib_rs);
        for i in here {
            let p = &projects[i];
            let name = format!("g{i}");
            let gd = lib.join("gram").join(&name);
            for (f, t) in &p.files {
                write(&gd.join(f), t);
            }
            write(&gd.join("project.json"), &serde_json::to_string_pretty(p).unwrap());
            write(&lib.join(format!("src/{name}.rs")), &module(p, &name, w));
        }
    }
    let deps: String = (0..libs).map(|k| format!("{tag}_l{k} = {{ path = \"../l{k}\" }}\n")).collect();
    write(
        &dir.join("main/Cargo.toml"),
        &format!("[package]\nname = \"{tag}_main\"\nversion = \"0.1.0\"\nedition = \"2021\"\n\n[[bin]]\nname = \"{tag}_main\"\npath = \"src/main.rs\"\n\n[dependencies]\nsim = {{ path = {sim:?} }}\n{deps}"),
    );
    let calls: String = (0..libs).map(|k| format!("    v.extend({tag}_l{k}::tables());\n")).collect();
    write(
        &dir.join("main/src/main.rs"),
        &format!("fn tables() -> Vec<sim::e2e::Table> {{\n    let mut v = vec![];\n{calls}    v\n}}\nfn main() {{\n    sim::e2e::main(tables)\n}}\n"),
    );
    let members: Vec<String> = (0..libs).map(|k| format!("\"l{k}\"")).chain(["\"main\"".to_string()]).collect();
    let over: String = (0..libs).map(|k| format!("[profile.release.package.{tag}_l{k}]\nopt-level = 0\n\n")).collect();
    // The profile of the simulator, so that what is already built is used.
    let manifest = std::fs::read_to_string(sim.join("Cargo.toml")).unwrap();
    let profile = &manifest[manifest.find("[profile.release]").unwrap()..];
    write(&dir.join("Cargo.toml"), &format!("[workspace]\nresolver = \"2\"\nmembers = [{}]\n\n{profile}\n{over}", members.join(", ")));
    write(&dir.join("Cargo.lock"), &std::fs::read_to_string(sim.join("Cargo.lock")).expect("Cargo.lock"));
}

enum Built {
    Yes(PathBuf),
    /// Grammar (when the message says) and message.
    No(Vec<(Option<usize>, String)>),
    TimedOut,
}

fn root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}

fn kill_group(pid: u32) {
    unsafe { libc::kill(-(pid as i32), libc::SIGKILL) };
}

fn build(w: &Work, limit: Duration) -> Built {
    use std::os::unix::process::CommandExt;
    let log = w.dir.join("build.json");
    let err = w.dir.join("build.err");
    let target = root().join("target");
    let bin = target.join("release").join(format!("{}_main", w.tag));
    let _ = std::fs::remove_file(&bin);
    let mut ch = Command::new("cargo")
        .args(["build", "--release", "--offline", "--keep-going", "--message-format=json"])
        .current_dir(&w.dir)
        .env("CARGO_TARGET_DIR", &target)
        .env("CARGO_INCREMENTAL", "0")
        .stdin(Stdio::null())
        .stdout(std::fs::File::create(&log).unwrap())
        .stderr(std::fs::File::create(&err).unwrap())
        .process_group(0)
        .spawn()
        .expect("cargo");
    let t0 = Instant::now();
    let status = loop {
        match ch.try_wait().unwrap() {
            Some(s) => break s,
            None if t0.elapsed() > limit => {
                kill_group(ch.id());
                let _ = ch.wait();
                return Built::TimedOut;
            }
            None => std::thread::sleep(Duration::from_millis(10)),
        }
    };
    if status.success() {
        return Built::Yes(bin);
    }
    let mut out: Vec<(Option<usize>, String)> = vec![];
    for line in std::fs::read_to_string(&log).unwrap_or_default().lines() {
        let Ok(v) = serde_json::from_str::<Value>(line) else { continue };
        let m = &v["message"];
        if v["reason"] != "compiler-message" || m["level"] != "error" {
            continue;
        }
        let at = m["spans"].as_array().into_iter().flatten().find_map(|s| {
            let f = s["file_name"].as_str()?.rsplit('/').next()?;
            f.strip_prefix('g')?.strip_suffix(".rs")?.parse().ok()
        });
        let text = m["rendered"].as_str().unwrap_or("").to_string();
        if at.is_some() || !text.contains("aborting due to") && !text.contains("For more information about") {
            out.push((at, text));
        }
    }
    if out.is_empty() {
        let e = std::fs::read_to_string(&err).unwrap_or_default();
        let e: Vec<&str> = e.lines().filter(|l| l.starts_with("error") || l.contains("signal")).collect();
        out.push((None, e.join("\n")));
    }
    Built::No(out)
}

const COMPILE: &str = "the parser derived from a grammar does not compile";
const HANGS: &str = "deriving or compiling the parser of a grammar does not end";
const CRASH: &str = "deriving or compiling the parser of a grammar kills the compiler";

/// Builds the parser of one project alone. `Ok`: the program; `Err`: class and detail.
fn build_one(name: &str, prop: &str, p: &Project) -> Result<PathBuf, (String, String)> {
    let w = Work { dir: root().join("target/e2e").join(name), tag: name.to_string(), values: prop == "C14", all: true };
    let _ = std::fs::remove_dir_all(&w.dir);
    write_workspace(&w, std::slice::from_ref(p), 1);
    match build(&w, Duration::from_secs(100)) {
        Built::Yes(b) => Ok(b),
        Built::TimedOut => Err((HANGS.into(), "no end within 100 s".into())),
        Built::No(v) => {
            let at = v.iter().find(|x| x.0.is_some());
            match at {
                Some(x) => Err((COMPILE.into(), x.1.clone())),
                None => Err((CRASH.into(), v[0].1.clone())),
            }
        }
    }
}

fn project_of(file: &Path) -> (Value, Project) {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("replay file");
    let p = serde_json::from_value(v["case"]["project"].clone()).expect("a replay file with a grammar");
    (v, p)
}

fn replay(file: &str) -> i32 {
    let (v, p) = project_of(Path::new(file));
    let prop = v["property"].as_str().unwrap().to_string();
    match build_one("e2ereplay", &prop, &p) {
        Err((class, detail)) => {
            println!("CLASS {class}\nDETAIL {detail}\nVIOLATION property={prop} replay={file}");
            1
        }
        Ok(bin) => {
            if v["case"]["rule"].is_null() {
                println!("OK property={prop}: the parser compiles");
                return 0;
            }
            Command::new(bin).args(["replay", file]).status().map(|s| s.code().unwrap_or(1)).unwrap_or(2)
        }
    }
}

fn check(prop: &str, tier: &str) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = tier == "thorough";
    let n: u64 = std::env::var("E2E_GRAMMARS").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 2400 } else { 640 });
    let projects = generate(prop, seed, n);
    let tag = format!("e{}", prop.to_lowercase());
    let w = Work { dir: root().join("target/e2e").join(&tag), tag, values: prop == "C14", all: false };
    let _ = std::fs::remove_dir_all(&w.dir);
    write_workspace(&w, &projects, if thorough { 50 } else { 15 });
    let mut built = build(&w, Duration::from_secs(if thorough { 500 } else { 330 }));
    let mut n = n;
    if matches!(built, Built::TimedOut) {
        // A slow machine, or a derivation that does not end: what is done already is kept.
        n /= 3;
        write_workspace(&w, &projects[..n as usize], if thorough { 50 } else { 15 });
        built = build(&w, Duration::from_secs(120));
    }
    let projects = &projects[..n as usize];
    println!("{n} grammars, built in {:.1} s", t0.elapsed().as_secs_f64());
    let suspects: Vec<usize> = match &built {
        Built::Yes(bin) => {
            let code = Command::new(bin).args(["check", prop, tier]).status().map(|s| s.code().unwrap_or(2)).unwrap_or(2);
            return code;
        }
        Built::No(v) => {
            let mut s: Vec<usize> = v.iter().filter_map(|x| x.0).collect();
            s.sort();
            s.dedup();
            if s.is_empty() {
                println!("{}", v[0].1);
                s = (0..projects.len()).collect();
            }
            s
        }
        Built::TimedOut => (0..projects.len()).collect(),
    };
    let deadline = t0 + Duration::from_secs(if thorough { 850 } else { 780 });
    for (tried, i) in suspects.iter().enumerate() {
        if Instant::now() > deadline || tried > 400 {
            break;
        }
        let p = &projects[*i];
        let Err((class, detail)) = build_one("e2eone", prop, p) else { continue };
        let file = root().join("replays").join(format!("{prop}-s{seed}-g{i}.json"));
        std::fs::create_dir_all(file.parent().unwrap()).unwrap();
        let v = json!({"property": prop, "seed": seed, "index": i, "class": class, "detail": detail, "case": {"project": p}});
        std::fs::write(&file, serde_json::to_string_pretty(&v).unwrap()).unwrap();
        println!("grammar {i}: {class}\n{detail}");
        println!("VIOLATION property={prop} replay={}", file.display());
        let ev = json!({"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": {
                "evaluations": n, "distinct_nontrivial": n as usize - suspects.len().min(n as usize),
                "rule": "grammar whose parser was derived and compiled; no run was made because one of them failed to compile",
                "samples": [format!("grammar {i}: {class}")]},
            "assumptions": [], "wall_s": t0.elapsed().as_secs_f64(), "violations": 1});
        let dir = root().join("evidence");
        std::fs::create_dir_all(&dir).unwrap();
        std::fs::write(dir.join(format!("{prop}.json")), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
        return 1;
    }
    eprintln!("the parsers do not build together, but each does alone");
    4
}

fn generate(prop: &str, seed: u64, n: u64) -> Vec<Project> {
    let base = mix(mix(hash_str("grammars"), hash_str(prop)), seed);
    (0..n).map(|i| sim::egram::generate(&mut Rng::new(mix(base, i)))).collect()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let code = match a[1].as_str() {
        "check" => check(&a[2], &a[3]),
        "replay" => replay(&a[2]),
        "write" => {
            let w = Work { dir: PathBuf::from(&a[2]), tag: "t1".into(), values: a[3] == "C14", all: false };
            let v = generate(&a[3], a[4].parse().unwrap(), a[5].parse().unwrap());
            write_workspace(&w, &v, 15);
            0
        }
        _ => 2,
    };
    std::process::exit(code)
}
