//! X15, X16: file operations that fail, and commands that are killed, at every point.

use std::collections::HashMap;
use std::sync::Mutex;

use crate::checks::proj::{self, Cmd, Files, Proj};
use crate::checks::proj2::defects;
use crate::checks::proj3::{base_project, differ, fresh, others, outcome, Fresh};
use crate::fw::{clip, Ck};
use crate::{ensure, ensure_eq};

fn h<T: std::hash::Hash>(t: T) -> u64 {
    use std::hash::{DefaultHasher, Hasher};
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}

/// A project with every kind of file.
fn rich() -> Files {
    let mut f = base_project();
    let toml = ".hemtt/project.toml";
    let t = String::from_utf8(f[toml].clone()).unwrap();
    f.insert(toml.into(), t.replacen("[version]", "[files]\ninclude = [\"docs/**\"]\nexclude = [\"*.md\"]\n[version]", 1).into_bytes());
    f.extend(proj::files(&[
        ("docs/one.txt", "one"),
        ("docs/two/three.txt", "three"),
        ("mod.cpp", "name = \"x\";"),
        ("addons/a/stringtable.xml", "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<Project name=\"x\"><Package name=\"p\"><Key ID=\"STR_p_a\"><English>a</English></Key></Package></Project>\n"),
        (".hemtt/lints.toml", "[config]\nduplicate_property = true\n"),
        (".hemtt/scripts/s.rhai", "if HEMTT_RFS.join(\"docs\").join(\"one.txt\").open_file().read() != \"one\" { fatal(\"not one\"); }\n"),
        (".hemtt/hooks/pre_build/1.rhai", "HEMTT_VFS.join(\"addons\").join(\"a\").join(\"made.txt\").create_file().write(HEMTT_VFS.join(\"docs\").join(\"one.txt\").open_file().read());\nHEMTT.script(\"s\");\n"),
        (".hemtt/hooks/post_build/1.rhai", "HEMTT_RFS.join(\"docs\").join(\"one.txt\").copy(HEMTT_OUT.join(\"copied.txt\"));\n"),
        (".hemtt/hooks/pre_release/1.rhai", "HEMTT_OUT.join(\"made.txt\").create_file().write(\"made\");\nHEMTT_OUT.join(\"copied.txt\").move(HEMTT_OUT.join(\"moved.txt\"));\n"),
        (".hemtt/hooks/post_release/1.rhai", "if !HEMTT_OUT.join(\"made.txt\").is_file() { fatal(\"not made\"); }\n"),
    ]));
    f
}
/// The file operations of a command, in their order.
fn operations(f: &Files, cmd: Cmd, before: Option<Cmd>, fails: bool) -> Vec<String> {
    let p = Proj::new(f);
    for b in before {
        p.run(&b.args());
    }
    let log = p.base().join("tmp/ops");
    let r = p.run_env(&cmd.args(), &[("MC_FAULT_IN", &p.base().to_string_lossy()), ("MC_FAULT_LOG", &log.to_string_lossy())], 1);
    assert!(r.code == i32::from(fails), "{cmd:?}: {}", r.tail());
    let place = format!("{}/", p.base().to_string_lossy());
    String::from_utf8_lossy(&std::fs::read(&log).unwrap_or_default()).lines().map(|l| l.replace(&place, "")).collect()
}

pub fn x15(ck: &Ck) {
    ck.hang_secs(120);
    let m: Fresh = Mutex::new(HashMap::new());
    let f = rich();
    let mut cases = vec![];
    for cmd in ck.t(&[Cmd::Check, Cmd::Build, Cmd::Release, Cmd::DevAll][..], &[Cmd::Check, Cmd::Build, Cmd::BuildNoRap, Cmd::BuildJustA, Cmd::Release, Cmd::ReleaseNoArchive, Cmd::DevAll, Cmd::DevJustA][..]) {
        let ops = operations(&f, *cmd, None, false);
        if std::env::var_os("MC_OPS").is_some() { for (i, o) in ops.iter().enumerate() { println!("{cmd:?} {} {o}", i + 1); } }
        for (i, op) in ops.iter().enumerate() {
            cases.push((*cmd, i + 1, op.clone()));
        }
    }
    ck.explore("one-fails", "every file operation of every command fails, each alone: the command fails or what it leaves is complete", cases, |(cmd, k, op), o| {
        let p = Proj::new(&f);
        let sources = p.sources();
        let r = p.run_env(&cmd.args(), &[("MC_FAULT_IN", &p.base().to_string_lossy()), ("MC_FAULT", &format!("{k}:fail"))], 1);
        ensure!(p.sources() == sources, "changed the sources: {:?}", proj::diff(&sources, &p.sources()));
        ensure!(r.code < 1000, "ended by signal {}", r.code - 1000);
        if r.code == 0 {
            let got = outcome(&p, *cmd, 0).map_err(|e| format!("{op}: succeeds, but {e}"))?;
            let want = fresh(&m, &f, *cmd)?;
            ensure!(got.out == want.out, "{op}: succeeds, but .hemttout/{}: {}", cmd.mode(), differ(&got.out, &want.out));
            ensure!(got.releases == want.releases, "{op}: succeeds, but releases: {}", differ(&got.releases, &want.releases));
        } else {
            ensure!(!r.text().trim().is_empty(), "{op}: fails without a word");
        }
        o.steps(1);
        o.state(h((r.code, *cmd, op)));
        Ok(())
    });
    // a project with a defect
    let names = ["BOM in a script", "nested config with an error", "script with a syntax error", "config with an error in an include", "stringtable that is not XML", "script of an optional addon", "command newer than the required version", "addon names differ by case", "post_release hook signals failure", "pre_build hook throws"];
    let ds = defects();
    let mut cases = vec![];
    for n in names {
        let mut f = base_project();
        (ds.iter().find(|d| d.name == n).unwrap().edit)(&mut f);
        for cmd in ck.t(&[Cmd::Check][..], &[Cmd::Check, Cmd::Build, Cmd::Release, Cmd::DevAll][..]) {
            if *cmd == Cmd::Check && n.starts_with("post_release") { continue; }
            if n.starts_with("post_release") && *cmd != Cmd::Release || n.starts_with("pre_build") && *cmd == Cmd::Check { continue; }
            let ops = operations(&f, *cmd, None, true);
            for (i, op) in ops.iter().enumerate() {
                cases.push((n, *cmd, i + 1, op.clone()));
            }
        }
    }
    ck.explore("with-defect", "every file operation fails, each alone, in projects with a defect: the command still fails", cases, |(n, cmd, k, op), o| {
        let mut f = base_project();
        (defects().iter().find(|d| d.name == *n).unwrap().edit)(&mut f);
        let p = Proj::new(&f);
        let r = p.run_env(&cmd.args(), &[("MC_FAULT_IN", &p.base().to_string_lossy()), ("MC_FAULT", &format!("{k}:fail"))], 1);
        ensure!(r.code < 1000, "ended by signal {}", r.code - 1000);
        ensure!(r.code != 0, "{op}: succeeds with {n:?}: {}", r.tail());
        o.steps(1);
        o.state(h((r.code, n, *cmd, op)));
        Ok(())
    });
    // the same archive every time
    let made = tool_project();
    assert_eq!(made.run(&["release"]).code, 0);
    let kept: Files = [("x.pbo", ".pbo"), ("x.pbo.p_1.2.3.bisign", ".bisign"), ("x.bikey", ".bikey")]
        .iter()
        .map(|(to, end)| (to.to_string(), made.sub(".hemttout/release").into_iter().find_map(|(k, v)| match v { proj::Node::File(b) if k.ends_with(end) && (*end == ".bikey" || k.contains("p_a.")) => Some(b), _ => None }).unwrap()))
        .collect();
    let mut whole = vec![];
    let mut cases = vec![];
    for (t, args) in TOOLS.iter().enumerate() {
        let p = tool_project();
        p.put(&kept);
        let log = p.base().join("tmp/ops");
        let r = p.run_env(args, &[("MC_FAULT_IN", &p.base().to_string_lossy()), ("MC_FAULT_LOG", &log.to_string_lossy())], 1);
        assert!(r.code == 0, "{args:?}: {} {}", r.code, r.tail());
        whole.push((p.sources(), said(&p, &r)));
        for (i, op) in String::from_utf8_lossy(&std::fs::read(&log).unwrap_or_default()).lines().enumerate() {
            if std::env::var_os("MC_OPS").is_some() { println!("{args:?} {} {op}", i + 1); }
            cases.push((t, i + 1, op.replace(&*p.base().to_string_lossy(), "")));
        }
    }
    ck.explore("tools", "every file operation fails, each alone, of the other commands: the command fails or it did all that it does otherwise", cases, |(t, k, op), o| {
        let p = tool_project();
        p.put(&kept);
        let r = p.run_env(TOOLS[*t], &[("MC_FAULT_IN", &p.base().to_string_lossy()), ("MC_FAULT", &format!("{k}:fail"))], 1);
        ensure!(r.code < 1000, "ended by signal {}", r.code - 1000);
        if r.code == 0 {
            // a verification that can not be done is one that failed, and that is said
            if TOOLS[*t][1] == "verify" && said(&p, &r).contains("Verification Failed: Encountered") { return Ok(()); }
            ensure_eq!(said(&p, &r), whole[*t].1, "{op}: {:?} succeeds, and says", TOOLS[*t]);
            ensure!(p.sources() == whole[*t].0, "{op}: {:?} succeeds, but: {}", TOOLS[*t], differ(&p.sources(), &whole[*t].0));
        }
        o.steps(1);
        o.state(h((r.code, t, op)));
        Ok(())
    });
}

/// Other commands, in a project that was released and has its archive as x.pbo.
const TOOLS: [&[&str]; 11] = [
    &["utils", "pbo", "unpack", "x.pbo", "un"],
    &["utils", "pbo", "extract", "x.pbo", "functions/fn_a.sqf", "one.out"],
    &["utils", "pbo", "inspect", "x.pbo", "--format", "json"],
    &["utils", "verify", "x.pbo", "x.bikey"],
    &["utils", "sqf", "case", "addons/a"],
    &["utils", "sqf", "case", "addons/a/functions/fn_up.sqf"],
    &["localization", "coverage", "--format", "json"],
    &["localization", "sort"],
    &["script", "r"],
    &["value", "project.version"],
    &["utils", "config", "inspect", "optionals/b/config.cpp"],
];
/// What a user sees of it
fn said(p: &Proj, r: &proj::Out) -> String {
    r.text().lines().filter(|l| !l.contains("TRACE") && !l.contains("DEBUG") && !l.contains("under-test")).map(|l| l.replace(&*p.base().to_string_lossy(), "") + "\n").collect()
}
fn tool_project() -> Proj {
    let mut f = rich();
    f.extend(proj::files(&[
        ("addons/a/functions/fn_up.sqf", "X = COUNT ALLUNITS;\n"),
        ("addons/a/sub/stringtable.xml", "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<Project name=\"x\"><Package name=\"p\"><Key ID=\"STR_p_z\"><German>a</German><English>a</English></Key><Key ID=\"STR_p_b\"><English>a</English></Key></Package></Project>\n"),
        (".hemtt/scripts/r.rhai", "HEMTT_RFS.join(\"docs\").join(\"one.txt\").copy(HEMTT_RFS.join(\"copied.txt\"));\nHEMTT_RFS.join(\"made.txt\").create_file().write(HEMTT_RFS.join(\"docs\").join(\"two\").join(\"three.txt\").open_file().read());\n"),
    ]));
    Proj::new(&f)
}

/// A command is ended somewhere, others follow.
pub fn x16(ck: &Ck) {
    ck.hang_secs(120);
    let m: Fresh = Mutex::new(HashMap::new());
    let f = rich();
    // what was done before, what is killed, what follows
    let plans: &[(Option<Cmd>, Cmd, Cmd)] = ck.t(
        &[(Some(Cmd::Build), Cmd::Build, Cmd::Build), (Some(Cmd::Release), Cmd::Release, Cmd::Release), (None, Cmd::DevAll, Cmd::DevAll), (None, Cmd::Check, Cmd::Release)][..],
        &[
            (None, Cmd::Build, Cmd::Build),
            (Some(Cmd::Build), Cmd::Build, Cmd::Build),
            (Some(Cmd::BuildNoRap), Cmd::Build, Cmd::Build),
            (Some(Cmd::Build), Cmd::BuildNoRap, Cmd::Build),
            (Some(Cmd::DevAll), Cmd::DevAll, Cmd::DevAll),
            (None, Cmd::DevAll, Cmd::Dev),
            (None, Cmd::Check, Cmd::Release),
            (None, Cmd::Release, Cmd::Release),
            (Some(Cmd::Release), Cmd::Release, Cmd::Release),
            (Some(Cmd::Release), Cmd::ReleaseNoArchive, Cmd::Release),
            (None, Cmd::Build, Cmd::Release),
            (None, Cmd::Release, Cmd::Build),
        ][..],
    );
    let mut cases = vec![];
    for (n, (before, cmd, _)) in plans.iter().enumerate() {
        for (i, op) in operations(&f, *cmd, *before, false).iter().enumerate() {
            for what in ck.t(&["kill", "torn"][..], &["kill", "torn", "fail"][..]) {
                if *what != "torn" || op.starts_with("write") || op.starts_with("copy") {
                    cases.push((n, i + 1, *what, op.clone()));
                }
            }
        }
    }
    ck.explore("ended-anywhere", "every command is killed before every file operation, within every write, or has it fail, after earlier commands: the next command gives what it gives in a fresh project, sources and the outputs of other commands stay", cases, |(n, k, what, op), o| {
        let (before, cmd, next) = plans[*n];
        let p = Proj::new(&f);
        for b in before {
            ensure_eq!(p.run(&b.args()).code, 0, "{b:?}");
        }
        let sources = p.sources();
        let keep = others(&p, cmd);
        let r = p.run_env(&cmd.args(), &[("MC_FAULT_IN", &p.base().to_string_lossy()), ("MC_FAULT", &format!("{k}:{what}"))], 1);
        ensure!(p.sources() == sources, "{op}: changed the sources: {:?}", proj::diff(&sources, &p.sources()));
        ensure!(others(&p, cmd) == keep, "{op}: changed other outputs");
        let second = p.run(&next.args());
        ensure_eq!(second.code, 0, "{op}: {next:?} afterwards; {}", clip(&second.tail(), 500));
        if next != Cmd::Release {
            // the archives of a release that was ended are not what another command makes
            let _ = std::fs::remove_dir_all(p.root.join("releases"));
        }
        let got = outcome(&p, next, 0).map_err(|e| format!("{op}: afterwards {e}"))?;
        let want = fresh(&m, &f, next)?;
        ensure!(got.out == want.out, "{op}: afterwards .hemttout/{}: {}", next.mode(), differ(&got.out, &want.out));
        if next == Cmd::Release {
            ensure!(got.releases == want.releases, "{op}: afterwards releases: {}", differ(&got.releases, &want.releases));
        }
        o.steps(2);
        o.state(h((r.code, n, op, what)));
        Ok(())
    });
}

/// Two commands at the same time.
pub fn x17(ck: &Ck) {
    ck.hang_secs(120);
    let m: Fresh = Mutex::new(HashMap::new());
    let f = rich();
    let pairs: &[(Cmd, Cmd)] = ck.t(
        &[(Cmd::Build, Cmd::Check), (Cmd::DevAll, Cmd::Check), (Cmd::Check, Cmd::Build), (Cmd::DevAll, Cmd::Build), (Cmd::Build, Cmd::DevAll), (Cmd::Release, Cmd::Check)][..],
        &[(Cmd::Build, Cmd::Check), (Cmd::Build, Cmd::DevAll), (Cmd::Build, Cmd::Release), (Cmd::DevAll, Cmd::Check), (Cmd::DevAll, Cmd::Build), (Cmd::DevAll, Cmd::Release), (Cmd::Release, Cmd::Check), (Cmd::Release, Cmd::Build), (Cmd::Release, Cmd::DevAll), (Cmd::Check, Cmd::Build), (Cmd::Check, Cmd::DevAll), (Cmd::Check, Cmd::Release)][..],
    );
    let mut cases = vec![];
    for (n, (a, _)) in pairs.iter().enumerate() {
        for (i, op) in operations(&f, *a, None, false).iter().enumerate() {
            cases.push((n, i + 1, op.clone()));
        }
    }
    ck.explore("one-in-between", "a command runs entirely before one of the file operations of another, for every one of them: both give what they give alone", cases, |(n, k, op), o| {
        let (a, b) = pairs[*n];
        let p = Proj::new(&f);
        let sources = p.sources();
        let (x, y) = p.run_around(&a.args(), *k, || p.run(&b.args()));
        let y = y.ok_or("the operation did not come")?;
        ensure_eq!((x.code, y.code), (0, 0), "{op}: {a:?} with {b:?} in between; {} {}", clip(&x.tail(), 300), clip(&y.tail(), 300));
        ensure!(p.sources() == sources, "{op}: changed the sources: {:?}", proj::diff(&sources, &p.sources()));
        for c in [a, b] {
            let got = outcome(&p, c, 0).map_err(|e| format!("{op}: {c:?}: {e}"))?;
            let want = fresh(&m, &f, c)?;
            ensure!(got.out == want.out, "{op}: {a:?} with {b:?} in between: .hemttout/{}: {}", c.mode(), differ(&got.out, &want.out));
            if c == Cmd::Release {
                ensure!(got.releases == want.releases, "{op}: {a:?} with {b:?} in between: releases: {}", differ(&got.releases, &want.releases));
            }
        }
        o.steps(2);
        o.state(h((n, op)));
        Ok(())
    });
}
