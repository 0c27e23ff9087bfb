//! X12: `hemtt launch` starts the game as the project's launch configurations say.
//!
//! Steam, its library and flatpak are stand-ins in the scratch folder that record how they are
//! called.

use std::collections::{BTreeMap, BTreeSet};

use crate::checks::proj::{self, Files, Node, Out, Proj};
use crate::fw::Ck;
use crate::{ensure, ensure_eq};

fn h<T: std::hash::Hash>(t: T) -> u64 {
    use std::hash::{DefaultHasher, Hasher};
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}

// ---------------------------------------------------------------- the machine

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Flatpak {
    Missing,
    Without,
    With,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Steam {
    Missing,
    NoGame,
    NoWorkshop,
    Full,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Link {
    None,
    Own,
    Broken,
    Other,
    Folder,
}
#[derive(Clone, Copy, Debug)]
struct Machine {
    flatpak: Flatpak,
    steam: Steam,
    link: Link,
    /// Files in another library than the first
    second_library: bool,
}
const NORMAL: Machine = Machine { flatpak: Flatpak::Without, steam: Steam::Full, link: Link::None, second_library: false };
/// Workshop mods that are installed.
const INSTALLED: [&str; 4] = ["123", "45", "6789", "450814997"];

struct M {
    p: Proj,
    library: std::path::PathBuf,
}
impl M {
    fn new(f: &Files, m: Machine) -> Self {
        let p = Proj::new(f);
        let home = p.base().join("home");
        let bin = p.base().join("bin");
        let steam = home.join(".local/share/Steam");
        let library = if m.second_library { p.base().join("games") } else { steam.clone() };
        let mk = |d: &std::path::Path| std::fs::create_dir_all(d).expect("mkdir");
        mk(&bin);
        mk(&home.join("calls"));
        let record = "{ echo \"$(basename \"$0\")\"; for a in \"$@\"; do printf '%s\\n' \"$a\"; done; } > \"$HOME/calls/$$\"\n";
        let exe = |n: &str, c: String| {
            std::fs::write(bin.join(n), c).expect("write");
            use std::os::unix::fs::PermissionsExt;
            std::fs::set_permissions(bin.join(n), std::fs::Permissions::from_mode(0o755)).expect("chmod");
        };
        exe("steam", format!("#!/bin/sh\n{record}"));
        if m.flatpak != Flatpak::Missing {
            let list = if m.flatpak == Flatpak::With { "Steam\\tcom.valvesoftware.Steam\\t1.0" } else { "Other\\torg.example.Other\\t1.0" };
            exe("flatpak", format!("#!/bin/sh\nif [ \"$1\" = list ]; then printf '{list}\\n'; exit 0; fi\n{record}"));
        }
        if m.steam != Steam::Missing {
            let apps = library.join("steamapps");
            mk(&apps.join("common/Arma 3"));
            mk(&steam.join("steamapps"));
            let entry = |i: usize, d: &std::path::Path, app: bool| format!("\t\"{i}\"\n\t{{\n\t\t\"path\"\t\t\"{}\"\n\t\t\"apps\"\n\t\t{{\n{}\t\t}}\n\t}}\n", d.display(), if app { "\t\t\t\"107410\"\t\t\"1\"\n" } else { "" });
            let game = m.steam != Steam::NoGame;
            let mut list = entry(0, &steam, game && !m.second_library);
            if m.second_library {
                list += &entry(1, &library, game);
            }
            std::fs::write(steam.join("steamapps/libraryfolders.vdf"), format!("\"libraryfolders\"\n{{\n{list}}}\n")).expect("write");
            if game {
                std::fs::write(apps.join("appmanifest_107410.acf"), "\"AppState\"\n{\n\t\"appid\"\t\t\"107410\"\n\t\"universe\"\t\t\"1\"\n\t\"name\"\t\t\"Arma 3\"\n\t\"StateFlags\"\t\t\"4\"\n\t\"installdir\"\t\t\"Arma 3\"\n}\n").expect("write");
            }
            if m.steam == Steam::Full {
                for i in INSTALLED {
                    mk(&apps.join("workshop/content/107410").join(i));
                }
            }
        }
        let arma = library.join("steamapps/common/Arma 3");
        if m.link != Link::None {
            mk(&arma.join("z"));
            let l = arma.join("z/p");
            match m.link {
                Link::Own => std::os::unix::fs::symlink(p.root.join(".hemttout/dev"), &l).expect("link"),
                Link::Broken => std::os::unix::fs::symlink(p.base().join("gone/.hemttout/dev"), &l).expect("link"),
                Link::Other => {
                    mk(&p.base().join("another/.hemttout/dev"));
                    std::os::unix::fs::symlink(p.base().join("another/.hemttout/dev"), &l).expect("link");
                }
                _ => mk(&l),
            }
        }
        proj::chown_all(p.base());
        Self { p, library }
    }
    /// Run, and give what the stand-ins were called with (program first), sorted.
    fn run(&self, args: &[&str]) -> (Out, Vec<Vec<String>>) {
        let bin = format!("{}:/usr/bin:/bin", self.p.base().join("bin").display());
        let o = self.p.run_wait(args, &[("PATH", &bin)]);
        let mut calls = vec![];
        let dir = self.p.base().join("home/calls");
        for e in std::fs::read_dir(&dir).expect("calls").flatten() {
            let t = std::fs::read_to_string(e.path()).expect("call");
            calls.push(t.lines().map(str::to_string).collect());
            let _ = std::fs::remove_file(e.path());
        }
        calls.sort();
        (o, calls)
    }
    fn arma(&self) -> std::path::PathBuf {
        self.library.join("steamapps/common/Arma 3")
    }
}

// ---------------------------------------------------------------- configurations

#[derive(Clone, Debug, Default)]
struct Conf {
    extends: Option<&'static str>,
    workshop: Vec<&'static str>,
    dlc: Vec<&'static str>,
    presets: Vec<&'static str>,
    optionals: Vec<&'static str>,
    mission: Option<&'static str>,
    parameters: Vec<&'static str>,
    file_patching: Option<bool>,
    instances: Option<u8>,
    rapify: Option<bool>,
    executable: Option<&'static str>,
}
impl Conf {
    fn toml(&self) -> String {
        let mut o = String::new();
        if let Some(v) = self.extends {
            o += &format!("extends = \"{v}\"\n");
        }
        for (k, v) in [("workshop", &self.workshop), ("dlc", &self.dlc), ("presets", &self.presets), ("optionals", &self.optionals), ("parameters", &self.parameters)] {
            if !v.is_empty() {
                o += &format!("{k} = {v:?}\n");
            }
        }
        for (k, v) in [("mission", self.mission), ("executable", self.executable)] {
            if let Some(v) = v {
                o += &format!("{k} = {v:?}\n");
            }
        }
        for (k, v) in [("file_patching", self.file_patching), ("rapify", self.rapify)] {
            if let Some(v) = v {
                o += &format!("{k} = {v}\n");
            }
        }
        if let Some(v) = self.instances {
            o += &format!("instances = {v}\n");
        }
        o
    }
    /// This on top of `base`.
    fn over(&self, base: &Self) -> Self {
        let cat = |a: &Vec<&'static str>, b: &Vec<&'static str>| a.iter().chain(b).copied().collect::<Vec<_>>();
        Self {
            extends: None,
            workshop: cat(&base.workshop, &self.workshop),
            dlc: cat(&base.dlc, &self.dlc),
            presets: cat(&base.presets, &self.presets),
            optionals: cat(&base.optionals, &self.optionals),
            parameters: cat(&base.parameters, &self.parameters),
            mission: self.mission.or(base.mission),
            file_patching: self.file_patching.or(base.file_patching),
            instances: self.instances.or(base.instances),
            rapify: self.rapify.or(base.rapify),
            executable: self.executable.or(base.executable),
        }
    }
}
#[derive(Clone, Debug, Default)]
struct Args {
    configs: Vec<&'static str>,
    no_filepatching: bool,
    instances: Option<u8>,
    quick: bool,
    no_rap: bool,
    optional: bool,
    just: bool,
    passthrough: Vec<&'static str>,
}
impl Args {
    fn list(&self) -> Vec<String> {
        let mut v = vec!["launch".to_string()];
        v.extend(self.configs.iter().map(|s| (*s).to_string()));
        if self.no_filepatching {
            v.push("-F".into());
        }
        if let Some(i) = self.instances {
            v.extend(["-i".into(), i.to_string()]);
        }
        for (on, s) in [(self.quick, &["-Q"][..]), (self.no_rap, &["--no-rap"]), (self.optional, &["-o", "opt"]), (self.just, &["--just", "a"])] {
            if on {
                v.extend(s.iter().map(|s| (*s).to_string()));
            }
        }
        if !self.passthrough.is_empty() {
            v.push("--".into());
            v.extend(self.passthrough.iter().map(|s| (*s).to_string()));
        }
        v
    }
}

/// The game's short name of a DLC
fn dlc(s: &str) -> Option<&'static str> {
    let t: &[(&str, &[&str])] = &[
        ("contact", &["contact", "1021790"]),
        ("gm", &["gm", "global mobilization", "1042220", "creator dlc: global mobilization - cold war germany"]),
        ("vn", &["vn", "s.o.g. prairie fire", "1227700"]),
        ("csla", &["csla", "csla iron curtain", "1294440"]),
        ("ws", &["ws", "western sahara", "1681170"]),
        ("spe", &["spe", "spearhead 1944", "1175380"]),
        ("rf", &["rf", "reaction forces", "2647760"]),
        ("ef", &["ef", "expeditionary forces", "2647830"]),
    ];
    t.iter().find(|(_, n)| n.contains(&s.to_lowercase().as_str())).map(|(c, _)| *c)
}
/// Name, mods and DLC of the presets
const PRESETS: [(&str, &[&str], &[&str]); 3] = [("main", &["45", "123"], &["1042220"]), ("other.v2", &["6789"], &["999", "1227700", "1227700"]), ("empty", &[], &[])];
fn preset_html(mods: &[&str], dlcs: &[&str]) -> String {
    let mut o = String::from("<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<html>\n<head><meta name=\"arma:Type\" content=\"preset\" /></head>\n<body>\n<table>\n");
    for m in mods {
        o += &format!("<tr data-type=\"ModContainer\"><td data-type=\"DisplayName\">mod</td><td><a href=\"https://steamcommunity.com/sharedfiles/filedetails/?id={m}\" data-type=\"Link\">https://steamcommunity.com/sharedfiles/filedetails/?id={m}</a></td></tr>\n");
    }
    for d in dlcs {
        o += &format!("<tr data-type=\"DlcContainer\"><td data-type=\"DisplayName\">dlc</td><td><a href=\"https://store.steampowered.com/app/{d}\" data-type=\"Link\">https://store.steampowered.com/app/{d}</a></td></tr>\n");
    }
    o + "</table></body></html>\n"
}
/// Where the missions are: (what is asked for, file)
const MISSIONS: [(&str, &str); 5] = [
    ("test.VR", ".hemtt/missions/test.VR/mission.sqm"),
    ("missions/far.Altis", "missions/far.Altis/mission.sqm"),
    ("missions/far.Altis/mission.sqm", "missions/far.Altis/mission.sqm"),
    // both exist: that of the project goes first
    ("both.VR", "both.VR/mission.sqm"),
    ("deep/x.VR", ".hemtt/missions/deep/x.VR/mission.sqm"),
];

struct World {
    confs: Vec<(&'static str, Conf)>,
    /// how many of `confs` are in project.toml
    inline: bool,
    main: bool,
    meta: Option<&'static str>,
}
impl World {
    fn files(&self) -> Files {
        let mut toml = format!("name = \"n\"\nprefix = \"p\"\n{}[version]\nmajor = 1\nminor = 2\npatch = 3\ngit_hash = 0\n", if self.main { "mainprefix = \"z\"\n" } else { "" });
        let mut launch = String::new();
        for (n, c) in &self.confs {
            if self.inline {
                toml += &format!("[hemtt.launch.{n}]\n{}", c.toml());
            } else {
                launch += &format!("[{n}]\n{}", c.toml());
            }
        }
        let mut f = proj::files(&[
            (".hemtt/project.toml", &toml),
            (".hemtt/missions/only_text.VR/readme.txt", "no mission"),
            (".hemtt/missions/both.VR/mission.sqm", "x"),
        ]);
        if !self.inline {
            f.insert(".hemtt/launch.toml".into(), launch.into_bytes());
        }
        for (d, n) in [("addons", "main"), ("addons", "a"), ("optionals", "opt"), ("optionals", "opt2")] {
            f.insert(format!("{d}/{n}/$PBOPREFIX$"), format!("z\\p\\{d}\\{n}").into_bytes());
            f.insert(format!("{d}/{n}/config.cpp"), proj::config(n).into_bytes());
        }
        for (n, m, d) in PRESETS {
            f.insert(format!(".hemtt/presets/{n}.html"), preset_html(m, d).into_bytes());
        }
        for (_, p) in MISSIONS {
            f.insert(p.into(), b"version=54;".to_vec());
        }
        if let Some(m) = self.meta {
            f.insert("meta.cpp".into(), m.into());
        }
        f
    }
    /// The configuration that is launched, or the name that does not exist.
    fn conf(&self, names: &[&str]) -> Result<Conf, String> {
        let one = |n: &str| -> Option<Conf> {
            let mut c = self.confs.iter().find(|c| c.0 == n)?.1.clone();
            while let Some(e) = c.extends {
                let b = self.confs.iter().find(|c| c.0 == e)?.1.clone();
                let next = b.extends;
                c = c.over(&b);
                c.extends = next;
            }
            Some(c)
        };
        if names.is_empty() {
            return Ok(one("default").unwrap_or_default());
        }
        let mut all = Conf::default();
        for n in names {
            all = one(n).ok_or((*n).to_string())?.over(&all);
        }
        Ok(all)
    }
}

/// What must happen: the codes of problems, or the arguments for the game.
enum Want {
    Fails(Vec<String>),
    Starts { times: usize, mods: BTreeSet<String>, dlcs: BTreeSet<String>, parameters: BTreeSet<String>, passthrough: Vec<String>, mission: Option<String>, patching: bool },
}
fn want(w: &World, m: Machine, mm: &M, a: &Args, built: bool) -> Want {
    let root = mm.p.root.display().to_string();
    if !w.main {
        return Want::Fails(vec!["BCLE5".into()]);
    }
    let c = match w.conf(&a.configs) {
        Ok(c) => c,
        Err(n) => return Want::Fails(vec!["BCLE6".into(), n]),
    };
    if matches!(m.steam, Steam::Missing | Steam::NoGame) {
        return Want::Fails(vec!["BCLE4".into()]);
    }
    let mut mods: BTreeSet<String> = c.workshop.iter().map(|s| (*s).to_string()).collect();
    let mut dlcs: BTreeSet<String> = c.dlc.iter().map(|d| dlc(d).unwrap_or("?").to_string()).collect();
    let mut bad = vec![];
    for p in &c.presets {
        let Some((_, pm, pd)) = PRESETS.iter().find(|x| x.0 == p.trim_end_matches(".html")) else {
            bad.extend(["BCLE1".to_string(), format!("`{p}`")]);
            continue;
        };
        mods.extend(pm.iter().map(|s| (*s).to_string()));
        dlcs.extend(pd.iter().filter_map(|d| dlc(d)).map(str::to_string));
    }
    if !bad.is_empty() {
        return Want::Fails(bad);
    }
    if a.quick && (!built || matches!(m.link, Link::None | Link::Broken)) {
        return Want::Fails(vec!["BCLE7".into()]);
    }
    if m.steam == Steam::NoWorkshop {
        return Want::Fails(vec!["BCLE2".into()]);
    }
    if let Some(meta) = w.meta {
        let id: String = meta.split("publishedid").nth(1).unwrap_or("").chars().filter(char::is_ascii_digit).collect();
        mods.remove(&id);
    }
    for x in &mods {
        if !INSTALLED.contains(&x.as_str()) {
            bad.extend(["BCLE3".to_string(), format!("`{x}`")]);
        }
    }
    if !bad.is_empty() {
        return Want::Fails(bad);
    }
    let mut mission = None;
    if let Some(x) = c.mission {
        if x.starts_with('/') {
            return Want::Fails(vec!["BCLE9".into()]);
        }
        match MISSIONS.iter().find(|m| m.0 == x) {
            Some((_, f)) => mission = Some(format!("\"{root}/{f}\"")),
            None => return Want::Fails(vec!["BCLE8".into()]),
        }
    }
    let mut mods: BTreeSet<String> = mods.iter().map(|x| format!("Z:{}", mm.library.join("steamapps/workshop/content/107410").join(x).display())).collect();
    mods.insert(format!("Z:{root}/.hemttout/dev"));
    let mut parameters: BTreeSet<String> = ["-skipIntro", "-noSplash", "-showScriptErrors", "-debug"].iter().map(|s| (*s).to_string()).collect();
    parameters.extend(c.parameters.iter().map(|s| (*s).to_string()));
    Want::Starts {
        times: a.instances.or(c.instances).unwrap_or(1) as usize,
        mods,
        dlcs,
        parameters,
        passthrough: a.passthrough.iter().map(|s| (*s).to_string()).collect(),
        mission,
        patching: c.file_patching.unwrap_or(true) && !a.no_filepatching,
    }
}

/// `args` start the game with exactly what is wanted.
#[allow(clippy::too_many_arguments)]
fn arguments(args: &[String], mods: &BTreeSet<String>, dlcs: &BTreeSet<String>, parameters: &BTreeSet<String>, passthrough: &[String], mission: Option<&String>, patching: bool) -> Result<(), String> {
    let mut rest: Vec<String> = vec![];
    let mut got: Vec<String> = vec![];
    for x in args {
        match x.strip_prefix("-mod=\"").and_then(|x| x.strip_suffix('"')) {
            Some(m) => got.push(m.to_string()),
            None => rest.push(x.clone()),
        }
    }
    got.sort();
    let mut all: Vec<String> = mods.iter().chain(dlcs).cloned().collect();
    all.sort();
    ensure_eq!(got, all, "mods");
    let mut seen = rest.iter();
    for x in passthrough {
        ensure!(seen.any(|y| y == x), "{x} is missing or out of order in {rest:?}");
    }
    let mut want = parameters.clone();
    want.extend(passthrough.iter().cloned());
    want.extend(mission.cloned());
    if patching {
        want.insert("-filePatching".into());
    }
    ensure_eq!(rest.iter().cloned().collect::<BTreeSet<_>>(), want, "arguments");
    ensure_eq!(rest.iter().filter(|x| x.as_str() == "-filePatching").count() >= 1, want.contains("-filePatching"), "file patching");
    Ok(())
}

fn launch(w: &World, m: Machine, a: &Args, built: bool) -> Result<u64, String> {
    let mm = M::new(&w.files(), m);
    let p = &mm.p;
    if built {
        let o = p.run(&["dev"]);
        ensure_eq!(o.code, 0, "dev: {}", o.tail());
    }
    let before = p.sources();
    let built_before = p.sub(".hemttout/dev");
    let list = a.list();
    let args: Vec<&str> = list.iter().map(String::as_str).collect();
    let expect = want(w, m, &mm, a, built);
    let (o, mut calls) = mm.run(&args);
    ensure!(p.sources() == before, "sources changed: {:?}", proj::diff(&before, &p.sources()));
    let over = format!("--filesystem={}/.hemttout/dev", p.root.display());
    match expect {
        Want::Fails(codes) => {
            ensure_eq!(o.code, 1, "exit code with {codes:?}; {}", o.tail());
            ensure_eq!(calls, Vec::<Vec<String>>::new(), "started though {codes:?}");
            for c in &codes {
                ensure!(o.text().contains(c.as_str()), "{c} is not reported; {}", o.tail());
            }
            return Ok(h(codes));
        }
        Want::Starts { times, mods, dlcs, parameters, passthrough, mission, patching } => {
            ensure_eq!(o.code, 0, "exit code; {}", o.tail());
            let prefix: Vec<&str> = if m.flatpak == Flatpak::With {
                let n = calls.len();
                calls.retain(|c| c.get(1).map(String::as_str) != Some("override"));
                ensure_eq!(n - calls.len(), times, "flatpak overrides");
                vec!["flatpak", "run", "com.valvesoftware.Steam", "-applaunch", "107410", "-nolauncher"]
            } else {
                vec!["steam", "-applaunch", "107410", "-nolauncher"]
            };
            ensure_eq!(calls.len(), times, "instances; {calls:?}");
            for c in &calls {
                ensure_eq!(c.iter().map(String::as_str).take(prefix.len()).collect::<Vec<_>>(), prefix, "program");
                arguments(&c[prefix.len()..], &mods, &dlcs, &parameters, &passthrough, mission.as_ref(), patching)?;
            }
        }
    }
    let _ = over;
    // the project is linked into the game
    let l = mm.arma().join("z/p");
    match m.link {
        Link::None | Link::Own | Link::Broken => ensure_eq!(std::fs::read_link(&l).ok(), Some(p.root.join(".hemttout/dev")), "link in the game folder"),
        Link::Other => ensure_eq!(std::fs::read_link(&l).ok(), Some(p.base().join("another/.hemttout/dev")), "another project's link"),
        Link::Folder => ensure!(l.is_dir() && !l.is_symlink(), "a folder was replaced"),
    }
    // what was built
    let after = p.sub(".hemttout/dev");
    if a.quick {
        ensure!(after == built_before, "a quick launch built: {:?}", proj::diff(&built_before, &after));
        return Ok(h((calls.len(), after.len())));
    }
    let c = w.conf(&a.configs).expect("exists");
    let mut names = BTreeMap::new();
    for (n, v) in &after {
        if let (true, Node::File(b)) = (n.ends_with(".pbo"), v) {
            names.insert(n.clone(), proj::read_pbo(b)?.files.iter().any(|f| f.0 == "config.bin"));
        }
    }
    let rap = c.rapify.unwrap_or(true) && !a.no_rap;
    let mut expected = BTreeMap::new();
    for n in ["main", "a"] {
        if n == "a" || !a.just || built {
            // one that was not asked for is from before
            let old = a.just && n == "main";
            expected.insert(format!("addons/p_{n}.pbo"), rap || old);
        }
    }
    if !a.just {
        for n in ["opt", "opt2"] {
            if c.optionals.contains(&n) || (n == "opt" && a.optional) {
                expected.insert(format!("addons/p_{n}.pbo"), rap);
            }
        }
    }
    ensure_eq!(names.iter().map(|(k, v)| (k.rsplit('/').next().unwrap().to_string(), *v)).collect::<BTreeMap<_, _>>(), expected.iter().map(|(k, v)| (k.rsplit('/').next().unwrap().to_string(), *v)).collect::<BTreeMap<_, _>>(), "archives");
    Ok(h((calls.len(), after.len(), names)))
}

pub fn x12(ck: &Ck) {
    ck.hang_secs(300);
    ck.assume("stand-ins for steam and flatpak in the search path record how they are called; the game itself is never run");
    // -------- one configuration
    let workshop: &[&[&str]] = &[&[], &["123"], &["6789", "45", "123", "45"], &["450814997", "777"], &["777", "123", "888"]];
    let dlcs: &[&[&str]] = &[&[], &["contact"], &["S.O.G. Prairie Fire", "gm", "vn"], &["ef", "1175380", "Western Sahara", "CSLA Iron Curtain", "rf"]];
    let presets: &[&[&str]] = &[&[], &["main"], &["other.v2", "main.html"], &["none", "main"], &["empty"]];
    let missions: &[Option<&str>] = &[None, Some("test.VR"), Some("missions/far.Altis"), Some("missions/far.Altis/mission.sqm"), Some("both.VR"), Some("deep/x.VR"), Some("only_text.VR"), Some("nowhere.VR"), Some("/abs/mission.sqm")];
    let params: &[&[&str]] = &[&[], &["-window", "-world=empty"]];
    let one = |c: Conf| World { confs: vec![("default", c)], inline: true, main: true, meta: None };
    let mut cases = vec![];
    for w in workshop {
        for d in dlcs {
            for p in presets {
                for par in params {
                    cases.push((Conf { workshop: w.to_vec(), dlc: d.to_vec(), presets: p.to_vec(), parameters: par.to_vec(), ..Default::default() }, Args::default()));
                }
            }
        }
    }
    ck.explore("mods", "every combination of workshop mods, DLC, presets and parameters, present and missing", cases, |(c, a), o| {
        o.steps(1);
        o.state(launch(&one(c.clone()), NORMAL, a, false)?);
        Ok(())
    });
    let mut cases = vec![];
    for m in missions {
        for fp in [None, Some(true), Some(false)] {
            for nofp in [false, true] {
                for (ci, ai) in [(None, None), (Some(0), None), (Some(2), None), (None, Some(0)), (Some(3), Some(1)), (Some(1), Some(2))] {
                    for pt in [&[][..], &["-world=empty", "-window", "-name", "x y", "-x=\"q\""]] {
                        let a = Args { no_filepatching: nofp, instances: ai, passthrough: pt.to_vec(), ..Default::default() };
                        cases.push((Conf { mission: *m, file_patching: fp, instances: ci, executable: (ci == Some(2)).then_some("arma3"), ..Default::default() }, a));
                    }
                }
            }
        }
    }
    ck.explore("starting", "every combination of mission, file patching, instances and further arguments", cases, |(c, a), o| {
        o.steps(1);
        o.state(launch(&one(c.clone()), NORMAL, a, false)?);
        Ok(())
    });
    // -------- several configurations
    let names = ["default", "a", "b", "c", "missing"];
    let confs = || {
        vec![
            ("default", Conf { workshop: vec!["123"], mission: Some("test.VR"), parameters: vec!["-d"], file_patching: Some(false), ..Default::default() }),
            ("a", Conf { extends: Some("default"), workshop: vec!["45"], dlc: vec!["gm"], mission: Some("missions/far.Altis"), instances: Some(2), optionals: vec!["opt"], ..Default::default() }),
            ("b", Conf { presets: vec!["other.v2"], workshop: vec!["45", "123"], file_patching: Some(true), parameters: vec!["-b"], rapify: Some(false), optionals: vec!["opt2"], ..Default::default() }),
            ("c", Conf { extends: Some("a"), instances: Some(1), rapify: Some(true), dlc: vec!["vn"], parameters: vec!["-c", "-d"], ..Default::default() }),
        ]
    };
    let mut cases: Vec<(Vec<&str>, bool, bool)> = vec![];
    for s in crate::fw::seqs(&names, 0, ck.t(3, 4)) {
        for inline in [true, false] {
            for no_default in [false, true] {
                if no_default && s.iter().any(|n| matches!(*n, "a" | "c")) {
                    continue;
                }
                cases.push((s.clone(), inline, no_default));
            }
        }
    }
    ck.explore("configurations", "every sequence of configurations that extend each other or not, in either file", cases, |(s, inline, no_default), o| {
        let mut cs = confs();
        if *no_default {
            cs.retain(|c| c.0 == "b");
        }
        let w = World { confs: cs, inline: *inline, main: true, meta: None };
        o.steps(1);
        o.state(launch(&w, NORMAL, &Args { configs: s.clone(), ..Default::default() }, false)?);
        Ok(())
    });
    // -------- the machine
    let mut cases = vec![];
    for steam in [Steam::Full, Steam::NoWorkshop, Steam::NoGame, Steam::Missing] {
        for flatpak in [Flatpak::Without, Flatpak::Missing, Flatpak::With] {
            for link in [Link::None, Link::Own, Link::Broken, Link::Other, Link::Folder] {
                for second_library in [false, true] {
                    for built in [false, true] {
                        for quick in [false, true] {
                            cases.push((Machine { flatpak, steam, link, second_library }, built, quick));
                        }
                    }
                }
            }
        }
    }
    ck.explore("machines", "every combination of Steam, flatpak, link in the game folder, earlier build and quick launch", cases, |(m, built, quick), o| {
        o.steps(1);
        o.state(launch(&one(Conf { workshop: vec!["123"], ..Default::default() }), *m, &Args { quick: *quick, ..Default::default() }, *built)?);
        Ok(())
    });
    // -------- the build
    let mut cases = vec![];
    for main in [true, false] {
        for meta in [None, Some("publishedid = 123;\n"), Some("protocol = 1;\npublishedid=45;\nname = \"x\";"), Some("name = \"x\";\n")] {
            for opts in [&[][..], &["opt"], &["opt", "opt2"]] {
                for rapify in [None, Some(false), Some(true)] {
                    for (no_rap, optional, just, built) in [(false, false, false, false), (true, false, false, true), (false, true, false, false), (false, false, true, false), (false, false, true, true), (true, true, false, false)] {
                        if !main && (meta.is_some() || rapify.is_some()) {
                            continue;
                        }
                        cases.push((main, meta, opts, rapify, Args { no_rap, optional, just, ..Default::default() }, built));
                    }
                }
            }
        }
    }
    ck.explore("builds", "every combination of options of the build, optional addons and the mod's own workshop id", cases, |(main, meta, opts, rapify, a, built), o| {
        let c = Conf { workshop: vec!["123", "6789"], optionals: opts.to_vec(), rapify: *rapify, ..Default::default() };
        o.steps(1);
        o.state(launch(&World { confs: vec![("default", c)], inline: true, main: *main, meta: *meta }, NORMAL, a, *built)?);
        Ok(())
    });
}

// ---------------------------------------------------------------- X13: new projects

/// Name of the license in the list, a phrase of its text, whether it names author and year
const LICENSES: [(&str, &str, bool); 8] = [
    ("APL-SA", "Share Alike", true),
    ("APL", "Arma Public License", true),
    ("APL-ND", "No Derivatives", true),
    ("Apache", "Apache License", true),
    ("GPL", "GNU General Public License", true),
    ("MIT", "Permission is hereby granted, free of charge, to any person obtaining", true),
    ("Unlicense", "unlicense.org", false),
    ("None", "", false),
];
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum There {
    Nothing,
    File,
    Folder,
    /// inside a folder that does not exist
    Nested,
    NoTerminal,
}
/// What is typed at the prompts, and the answers that are meant.
#[derive(Clone, Debug)]
struct Answers {
    name: &'static str,
    author: &'static str,
    prefix: &'static str,
    /// typed after the initial `z`
    main: (&'static str, &'static str),
    license: usize,
    /// an empty answer first
    hesitate: bool,
}
fn year() -> i64 {
    let days = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).expect("time").as_secs() as i64 / 86400;
    let mut y = 1970;
    let mut d = days;
    loop {
        let n = if (y % 4 == 0 && y % 100 != 0) || y % 400 == 0 { 366 } else { 365 };
        if d < n {
            return y;
        }
        d -= n;
        y += 1;
    }
}
fn new_project(a: &Answers, there: There) -> Result<u64, String> {
    let p = Proj::new(&proj::files(&[("other/x.txt", "x")]));
    match there {
        There::File => p.put(&proj::files(&[("my_mod", "a file")])),
        There::Folder => p.put(&proj::files(&[("my_mod/x.txt", "mine")])),
        _ => {}
    }
    let before = proj::tree(p.base());
    let dir = if there == There::Nested { "no/my_mod" } else { "my_mod" };
    if there == There::NoTerminal {
        let o = p.run(&["new", dir]);
        ensure_eq!(o.code, 1, "exit code; {}", o.tail());
        ensure!(o.text().contains("BCNE1"), "BCNE1 is not reported");
        ensure!(proj::tree(p.base()) == before, "changed {:?}", proj::diff(&before, &proj::tree(p.base())));
        return Ok(1);
    }
    let mut script: Vec<(&str, String)> = vec![];
    let mut add = |prompt: &'static str, text: String| {
        if a.hesitate {
            script.push((prompt, "\r".into()));
        }
        script.push((prompt, text + "\r"));
    };
    add("Project Name", a.name.into());
    add("Author", a.author.into());
    add("Prefix", a.prefix.into());
    script.push(("Main Prefix", format!("{}\r", a.main.0)));
    script.push(("Select a license", format!("{}\r", "j".repeat(a.license))));
    let y0 = year();
    let (code, text) = p.run_terminal(&["new", dir], &script)?;
    let y1 = year();
    let after = proj::tree(p.base());
    if matches!(there, There::File | There::Folder | There::Nested) {
        ensure_eq!(code, 1, "exit code; {text}");
        ensure!(there == There::Nested || text.contains("BCNE2"), "BCNE2 is not reported; {text}");
        ensure!(after == before, "changed {:?}", proj::diff(&before, &after));
        return Ok(2);
    }
    ensure_eq!(code, 0, "exit code; {text}");
    let got = p.sub("my_mod");
    for (n, v) in &before {
        ensure!(after.get(n) == Some(v), "changed {n}");
    }
    let names: Vec<&str> = got.keys().map(String::as_str).filter(|n| !n.starts_with(".git/")).collect();
    let mut want = vec![".git", ".gitignore", ".hemtt", ".hemtt/project.toml", "LICENSE", "addons"];
    if a.license == 7 {
        want.retain(|n| *n != "LICENSE");
    }
    ensure_eq!(names, want, "files");
    let file = |n: &str| if let Some(Node::File(b)) = got.get(n) { String::from_utf8_lossy(b).to_string() } else { String::new() };
    let t: toml::Table = file(".hemtt/project.toml").parse().map_err(|e| format!("project.toml: {e}"))?;
    let s = |k: &str| t.get(k).and_then(|v| v.as_str()).unwrap_or("").to_string();
    ensure_eq!((s("name").as_str(), s("author").as_str(), s("prefix").as_str(), s("mainprefix").as_str(), t.len()), (a.name, a.author, a.prefix, a.main.1, 4), "project.toml");
    for i in ["*.pbo", ".hemttout", "*.biprivatekey"] {
        ensure!(file(".gitignore").lines().any(|l| l == i), "{i} is not ignored");
    }
    let (id, phrase, named) = LICENSES[a.license];
    if a.license < 7 {
        let l = file("LICENSE");
        let flat = l.split_whitespace().collect::<Vec<_>>().join(" ").to_lowercase();
        ensure!(flat.contains(&phrase.to_lowercase()), "LICENSE is not {id}");
        if named {
            ensure!((y0..=y1).any(|y| l.contains(&format!("{y} {}", a.author))), "{id} does not name the author and the year");
        }
        let b: Vec<char> = l.chars().collect();
        for (i, c) in b.iter().enumerate() {
            if *c == '{' && !a.author.contains('{') {
                return Err(format!("{id} has a placeholder: {}", b[i..b.len().min(i + 20)].iter().collect::<String>()));
            }
        }
    }
    // the project can be used
    p.put(&proj::files(&[
        ("my_mod/addons/main/script_version.hpp", "#define MAJOR 1\n#define MINOR 2\n#define PATCH 3\n#define BUILD 4\n"),
        ("my_mod/addons/main/config.cpp", &proj::config("main")),
        ("my_mod/addons/main/$PBOPREFIX$", &format!("{}\\{}\\addons\\main", a.main.1, a.prefix)),
    ]));
    proj::git_init_at(&p.root.join("my_mod"));
    let q = p.inside("my_mod");
    let o = q.run(&["check"]);
    ensure_eq!(o.code, 0, "check of the new project; {}", o.tail());
    for (k, v) in [("project.name", a.name), ("project.prefix", a.prefix), ("project.mainprefix", a.main.1)] {
        let o = q.run(&["value", k]);
        ensure_eq!((o.code, String::from_utf8_lossy(&o.stdout).trim_end_matches('\n')), (0, v), "{k}; {}", o.tail());
    }
    Ok(h((names.len(), s("name"), s("author"), s("prefix"), s("mainprefix"), id)))
}

pub fn x13(ck: &Ck) {
    ck.hang_secs(300);
    let names = ["Advanced Banana Environment", "x", "The \"Best\" Mod", "back\\slash", "it's {AUTHOR} # [a]", "Ünïcödé 模组"];
    let authors = ["ABE Team", "O'Neil \"B\" \\n", "é"];
    let prefixes = ["abe", "my_mod"];
    let mains: [(&str, &str); 3] = [("", "z"), ("x", "zx"), ("\x7fa", "a")];
    let mut cases = vec![];
    for (i, name) in names.into_iter().enumerate() {
        for author in authors {
            for prefix in prefixes {
                for (l, main) in mains.into_iter().enumerate() {
                    for license in 0..8 {
                        cases.push((Answers { name, author, prefix, main, license, hesitate: (i + l) % 2 == 1 }, There::Nothing));
                    }
                }
            }
        }
    }
    for there in [There::File, There::Folder, There::Nested, There::NoTerminal] {
        cases.push((Answers { name: "n", author: "a", prefix: "p", main: mains[0], license: 5, hesitate: false }, there));
    }
    ck.explore("answers", "every combination of names, authors, prefixes and licenses typed into the prompts", cases, |(a, t), o| {
        o.steps(1);
        o.state(new_project(a, *t)?);
        Ok(())
    });
}
