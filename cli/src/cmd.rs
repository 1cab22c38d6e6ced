//! C18: the command itself, run as a process.
use crate::scratch::{self, os, Entry, Kind, Snap};
use engine::{suite, Ch, Stats, Suite, Tier, Verdict};
use std::ffi::{CString, OsStr, OsString};
use std::fs::{self, File};
use std::io::Read;
use std::os::fd::FromRawFd;
use std::os::unix::ffi::OsStrExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

type Suites = Vec<Box<dyn Suite>>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Out {
    Works,
    Full,
    /// A pipe nobody reads from.
    Broken,
    Closed,
    /// A file that takes this many bytes.
    Limit(usize),
}

/// What a process finds around it, apart from its arguments and its standard output.
#[derive(Clone, Debug, Default)]
struct Around {
    /// Variables added to the environment, or taken out of it.
    vars: Vec<(&'static str, Option<OsString>)>,
    stdin: Stdin,
    stderr: Stderr,
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
enum Stdin {
    #[default]
    Null,
    Text,
    /// A pipe that never ends.
    Open,
    Closed,
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
enum Stderr {
    #[default]
    Works,
    Full,
    Broken,
    Closed,
}

struct Ran {
    /// Exit status, or the signal.
    code: Result<i32, i32>,
    out: Vec<u8>,
    err: Vec<u8>,
}

fn run(scratch: &Path, cwd: &Path, args: &[OsString], out: Out, gone: bool, around: &Around) -> Result<Ran, String> {
    // No other process may inherit the reading end of the pipe.
    static FORK: Mutex<()> = Mutex::new(());
    let exe = std::env::current_exe().expect("harness: exe").with_file_name("plotline");
    let logs = scratch.join("logs");
    fs::create_dir_all(&logs).expect("harness: logs");
    let (o, e) = (logs.join("out"), logs.join("err"));
    let err = File::create(&e).expect("harness: logs");
    let _ = File::create(&o).expect("harness: logs");
    let home = scratch.join("home");
    fs::create_dir_all(&home).expect("harness: home");
    let mut cmd = Command::new(exe);
    cmd.args(args).current_dir(cwd).env_clear().env("HOME", &home).env("XDG_CONFIG_HOME", &home).stdin(Stdio::null());
    for (name, value) in &around.vars {
        match value {
            Some(v) => cmd.env(name, v),
            None => cmd.env_remove(name),
        };
    }
    match around.stdin {
        Stdin::Null => {}
        Stdin::Text => {
            let i = logs.join("in");
            fs::write(&i, b"a\ny\n\xff\n").expect("harness: logs");
            cmd.stdin(File::open(&i).expect("harness: logs"));
        }
        Stdin::Open => {
            cmd.stdin(Stdio::piped()); // the writing end stays with the child's handle
        }
        Stdin::Closed => {
            unsafe {
                cmd.pre_exec(|| {
                    libc::close(0);
                    Ok(())
                })
            };
        }
    }
    let full = || File::options().write(true).open("/dev/full").unwrap_or_else(|_| engine::harness_error("no /dev/full"));
    let broken = || {
        let mut fds = [0; 2];
        if unsafe { libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) } != 0 {
            engine::harness_error("pipe");
        }
        unsafe { libc::close(fds[0]) };
        unsafe { File::from_raw_fd(fds[1]) }
    };
    if matches!(out, Out::Limit(_)) {
        cmd.stderr(Stdio::piped()); // the limit holds for all files
    } else {
        cmd.stderr(err);
    }
    if gone {
        // The process starts in a directory that is removed under its feet.
        let c = CString::new(cwd.as_os_str().as_bytes()).expect("harness: cwd");
        unsafe {
            cmd.pre_exec(move || match libc::rmdir(c.as_ptr()) {
                0 => Ok(()),
                _ => Err(std::io::Error::last_os_error()),
            })
        };
    }
    let mut child = {
        let _g = FORK.lock().expect("harness: fork");
        match around.stderr {
            Stderr::Works => {}
            Stderr::Full => {
                cmd.stderr(full());
            }
            Stderr::Broken => {
                cmd.stderr(broken());
            }
            Stderr::Closed => {
                unsafe {
                    cmd.pre_exec(|| {
                        libc::close(2);
                        Ok(())
                    })
                };
            }
        }
        match out {
            Out::Works => {
                cmd.stdout(File::options().append(true).open(&o).expect("harness: logs"));
            }
            Out::Full => {
                cmd.stdout(full());
            }
            Out::Broken => {
                cmd.stdout(broken());
            }
            Out::Limit(n) => {
                cmd.stdout(File::options().append(true).open(&o).expect("harness: logs"));
                unsafe {
                    cmd.pre_exec(move || {
                        let lim = libc::rlimit { rlim_cur: n as u64, rlim_max: n as u64 };
                        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                        match libc::setrlimit(libc::RLIMIT_FSIZE, &lim) {
                            0 => Ok(()),
                            _ => Err(std::io::Error::last_os_error()),
                        }
                    })
                };
            }
            Out::Closed => {
                unsafe {
                    cmd.pre_exec(|| {
                        libc::close(1);
                        Ok(())
                    })
                };
            }
        }
        cmd.spawn().unwrap_or_else(|e| engine::harness_error(&format!("cannot run the command: {e}")))
    };
    let t0 = Instant::now();
    let mut nap = 100;
    let status = loop {
        match child.try_wait().expect("harness: wait") {
            Some(s) => break s,
            None if t0.elapsed() > Duration::from_secs(30) => {
                let _ = child.kill();
                let _ = child.wait();
                return Err("it does not end".into());
            }
            None => std::thread::sleep(Duration::from_micros(nap)),
        }
        nap = (nap * 2).min(5000);
    };
    let code = match (status.code(), status.signal()) {
        (Some(c), _) => Ok(c),
        (_, Some(s)) => Err(s),
        _ => engine::harness_error("exit status"),
    };
    let err = match child.stderr.take() {
        Some(mut pipe) => {
            let mut v = vec![];
            pipe.read_to_end(&mut v).expect("harness: logs");
            v
        }
        None => fs::read(&e).expect("harness: logs"),
    };
    Ok(Ran { code, out: fs::read(&o).expect("harness: logs"), err })
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Where {
    /// Before `doc`.
    Front,
    /// Between `doc` and its id or sub-command.
    Middle,
    /// Between the id and the sub-command.
    Inner,
    End,
}
const WHERE: [Where; 4] = [Where::Front, Where::Middle, Where::Inner, Where::End];

fn forest() -> Vec<Vec<Entry>> {
    let f = |p: &[u8]| Entry { path: os(p), kind: Kind::File([b"content of ", p].concat()) };
    let d = |p: &[u8]| Entry { path: os(p), kind: Kind::Dir };
    vec![
        vec![],
        vec![f(b"a.md"), f(b"b.txt")],
        vec![
            f(b"a.md"),
            f(b"b.c.md"),
            f(b"a/x.md"),
            f(b"a.b.md"),
            f(b"d/e.md"),
            f(b"d/e.txt"),
            f(b"Z.md"),
            f("é.md".as_bytes()),
            f(b"sp ace.md"),
            f(b"q\"uote.md"),
            f(b"new\nline.md"),
            f(b"n\xff.md"),
            f(b"tab\t.md"),
            f(b"b.txt"),
            f(b"x.m.d"),
            f(b"10.md"),
            f(b"9.md"),
            f(b".hidden.md"),
            f(b"plain"),
            d(b"dir.md"),
            f(b"always/w.md"),
            f(b"w.always"),
        ],
    ]
}

/// The arguments, and what they mean.
struct Call {
    args: Vec<OsString>,
    cwd: PathBuf,
    base: PathBuf,
    ext: String,
    /// Whether the directory it runs in is removed before it starts.
    gone: bool,
    /// How much the command prints if it can.
    total: Option<usize>,
    around: Around,
}

/// Puts options in front of, between and behind the words of the command.
#[allow(clippy::too_many_arguments)]
fn compose(id: Option<&OsStr>, sub: &[&str], options: &[(Vec<OsString>, Where)]) -> Option<Vec<OsString>> {
    let mut v: Vec<OsString> = vec![];
    let put = |v: &mut Vec<OsString>, w: Where| {
        for (o, p) in options {
            if *p == w {
                v.extend(o.iter().cloned());
            }
        }
    };
    if id.is_none() && options.iter().any(|(_, p)| *p == Where::Inner) {
        return None; // the same as Middle
    }
    put(&mut v, Where::Front);
    v.push("doc".into());
    put(&mut v, Where::Middle);
    if let Some(id) = id {
        v.push(id.to_owned());
    }
    put(&mut v, Where::Inner);
    v.extend(sub.iter().map(OsString::from));
    put(&mut v, Where::End);
    Some(v)
}

/// How an option is written: separate, attached, long, with an equals sign.
fn forms(short: &str, long: &str, value: &OsStr) -> Vec<Vec<OsString>> {
    let glue = |a: &str, b: &OsStr| os([a.as_bytes(), b.as_bytes()].concat());
    vec![
        vec![short.into(), value.to_owned()],
        vec![glue(short, value)],
        vec![long.into(), value.to_owned()],
        vec![glue(&format!("{long}="), value)],
    ]
}

fn ids(base: &Path, tree: &[Entry], ext: &str) -> Vec<PathBuf> {
    let _ = base;
    let mut v: Vec<PathBuf> = scratch::documents(tree, ext).into_keys().collect();
    v.sort();
    v
}

fn lines(out: &[u8], want: &[PathBuf]) -> Result<(), String> {
    let text = String::from_utf8_lossy(out);
    let show = || Err(format!("printed {text:?}, the documents are {want:?}"));
    if want.is_empty() {
        return if out.is_empty() { Ok(()) } else { show() };
    }
    if !text.ends_with('\n') {
        return show();
    }
    let got: Vec<&str> = text[..text.len() - 1].split('\n').collect();
    let same = |l: &str, p: &PathBuf| l == format!("{p:?}") || l == p.to_string_lossy();
    if got.len() != want.len() || !got.iter().zip(want).all(|(l, p)| same(l, p)) {
        return show();
    }
    Ok(())
}

fn prepare(n: usize) -> (PathBuf, PathBuf, Vec<Entry>) {
    let scratch = scratch::mine();
    let base = scratch.join("base");
    let tree = forest().swap_remove(n);
    fs::create_dir_all(&base).expect("harness: base");
    scratch::make(&base, &tree);
    // What must not be looked at.
    scratch::make(&scratch, &[Entry { path: os("elsewhere/other.md"), kind: Kind::File(b"other".to_vec()) }, Entry { path: os("elsewhere/other.txt"), kind: Kind::File(b"other".to_vec()) }]);
    (scratch, base, tree)
}

/// Judges a run of one command on a tree.
fn judge(sub: &[&str], id: Option<&OsStr>, docs: &[PathBuf], out: Out, heard: bool, total: Option<usize>, ran: &Ran, before: &Snap, after: &Snap, ext: &str) -> Verdict {
    let code = match ran.code {
        Err(s) => return Err(format!("it was ended by signal {s}")),
        Ok(101) => return Err(format!("it crashed: {}", String::from_utf8_lossy(&ran.err))),
        Ok(c) => c,
    };
    let exists = id.is_some_and(|i| docs.iter().any(|d| d.as_os_str() == i));
    let err = String::from_utf8_lossy(&ran.err);
    let must_fail = |why: &str| -> Verdict {
        if code == 0 {
            return Err(format!("{why}, but it succeeds"));
        }
        if heard && ran.err.is_empty() {
            return Err(format!("{why}, but there is no message"));
        }
        if !ran.out.is_empty() && !matches!(out, Out::Limit(_)) {
            return Err(format!("{why}, but it prints {:?}", String::from_utf8_lossy(&ran.out)));
        }
        Ok(())
    };
    // The file of the document itself is the command's business, if it succeeds.
    let own: Option<PathBuf> = id.map(|i| os([i.as_bytes(), b".", ext.as_bytes()].concat()).into());
    let changed = |own: Option<&PathBuf>| {
        let strip = |s: &Snap| {
            s.iter()
                .filter(|(p, v)| {
                    let dir = v.0 & libc::S_IFMT == libc::S_IFDIR;
                    own.is_none_or(|o| *p != o && !(dir && o.starts_with(p)))
                })
                .map(|(a, b)| (a.clone(), b.clone()))
                .collect::<Snap>()
        };
        strip(before) != strip(after)
    };
    match sub[0] {
        "list" | "ls" => {
            if changed(None) {
                return Err("listing changed files".into());
            }
            match out {
                Out::Works => {
                    if code != 0 {
                        return Err(format!("listing fails with {code}: {err}"));
                    }
                    lines(&ran.out, docs)?;
                }
                Out::Limit(n) if total.is_some_and(|t| n < t) => must_fail("the listing cannot be written completely")?,
                Out::Limit(_) => {
                    if code != 0 {
                        return Err(format!("the listing fits, but fails with {code}: {err}"));
                    }
                    lines(&ran.out, docs)?;
                }
                // A closed descriptor is replaced by the null device before the command starts.
                Out::Closed => {}
                Out::Full | Out::Broken if docs.is_empty() => {
                    if code != 0 {
                        return Err(format!("listing nothing fails with {code}: {err}"));
                    }
                }
                Out::Full | Out::Broken => must_fail("the listing cannot be written")?,
            }
        }
        "delete" => {
            if exists {
                if code != 0 {
                    return Err(format!("deleting an existing document fails with {code}: {err}"));
                }
                if changed(own.as_ref()) {
                    return Err("deleting a document changed other files".into());
                }
            } else {
                must_fail(if id.is_some() { "there is no such document" } else { "the id is missing" })?;
                if changed(None) {
                    return Err("a delete that failed changed files".into());
                }
            }
        }
        "save" => {
            if id.is_none() {
                must_fail("the id is missing")?;
                if changed(None) {
                    return Err("a save that failed changed files".into());
                }
            } else {
                if code != 0 {
                    return Err(format!("saving fails with {code}: {err}"));
                }
                if changed(own.as_ref()) {
                    return Err("saving a document changed other files".into());
                }
            }
        }
        _ => {
            must_fail("there is no such command")?;
            if changed(None) {
                return Err("a command that failed changed files".into());
            }
        }
    }
    Ok(())
}

#[derive(Clone, Debug)]
struct Root {
    tree: usize,
    sub: Vec<&'static str>,
    id: Option<&'static [u8]>,
    /// Whether both options are combined in every way, or one at a time.
    cross: bool,
}

fn commands(r: &Root, ch: &mut Ch, st: &mut Stats) -> Verdict {
    let (scratch, base, tree) = prepare(r.tree);
    // The base directory: where the command runs, or named in some way.
    let elsewhere = scratch.join("elsewhere");
    let mut options: Vec<(Vec<OsString>, Where)> = vec![];
    let named: Vec<(Option<OsString>, PathBuf)> = vec![
        (None, base.clone()),
        (Some(base.clone().into()), elsewhere.clone()),
        (Some("../base".into()), elsewhere.clone()),
        (Some(".".into()), base.clone()),
        (Some(scratch.join("missing").into()), base.clone()),
    ];
    let (context, cwd) = ch.of(&named).clone();
    let missing = context.as_ref().is_some_and(|c| c.as_bytes().ends_with(b"missing"));
    if let Some(c) = &context {
        let form = ch.of(&forms("-C", "--context", c)).clone();
        options.push((form, *ch.of(&WHERE)));
    }
    let ext = if context.is_none() || r.cross { *ch.of(&["", "md", "txt", "m.d", "always"]) } else { "" };
    if !ext.is_empty() {
        let form = ch.of(&forms("-e", "--extension", OsStr::new(ext))).clone();
        options.push((form, *ch.of(&WHERE)));
    }
    let ext = if ext.is_empty() { "md" } else { ext };
    let id = r.id.map(OsStr::from_bytes);
    let Some(args) = compose(id, &r.sub, &options) else { return Ok(()) };
    let call = Call { args, cwd, base: base.clone(), ext: ext.to_string(), gone: false, total: None, around: Around::default() };
    step(&scratch, &call, &r.sub, id, if missing { &[] } else { &tree }, Out::Works, ch, st)
}

#[allow(clippy::too_many_arguments)]
fn step(scratch: &Path, c: &Call, sub: &[&str], id: Option<&OsStr>, tree: &[Entry], out: Out, ch: &mut Ch, st: &mut Stats) -> Verdict {
    let docs = ids(&c.base, tree, &c.ext);
    let strip = |mut s: Snap| {
        s.retain(|p, _| !p.starts_with("logs") && !p.starts_with("home") && !p.as_os_str().is_empty());
        s.into_iter().map(|(p, v)| (p.strip_prefix("base").map(|p| p.to_owned()).unwrap_or_else(|_| Path::new("..").join(&p)), v)).collect::<Snap>()
    };
    let before = strip(scratch::snap(scratch));
    let ran = run(scratch, &c.cwd, &c.args, out, c.gone, &c.around);
    let after = strip(scratch::snap(scratch));
    ch.step();
    let name = |p: &Path| p.strip_prefix(scratch).map(|p| p.display().to_string()).unwrap_or_default();
    let show = || {
        let a: Vec<String> = c.args.iter().map(|a| format!("{a:?}").replace(&scratch.display().to_string(), "")).collect();
        let around = match format!("{:?}", c.around) {
            s if s == format!("{:?}", Around::default()) => String::new(),
            s => format!(", {}", s.replace(&scratch.display().to_string(), "")),
        };
        format!("in /{}: plotline {} (standard output {out:?}{around})", name(&c.cwd), a.join(" "))
    };
    let ran = ran.map_err(|m| format!("{}: {m}", show()))?;
    ch.log(|| format!("{} -> {:?}, {:?}", show(), ran.code, String::from_utf8_lossy(&ran.out)));
    st.state(&show());
    st.outcome(&(&ran.code, &ran.out));
    judge(sub, id, &docs, out, c.around.stderr == Stderr::Works, c.total, &ran, &before, &after, &c.ext).map_err(|m| format!("{}: {m}", show()))
}

#[derive(Clone, Debug)]
struct OutRoot {
    tree: usize,
    out: Out,
}

/// Every command with every state of standard output.
fn outputs(r: &OutRoot, ch: &mut Ch, st: &mut Stats) -> Verdict {
    let (scratch, base, tree) = prepare(r.tree);
    let sub = ch.of(&[vec!["list"], vec!["ls"], vec!["delete"], vec!["save"], vec!["save", "text"]]).clone();
    let id = *ch.of(&[None, Some("a"), Some("zz")]);
    let ext = *ch.of(&["md", "txt", "none"]);
    let args = compose(id.map(OsStr::new), &sub, &[(vec!["-e".into(), ext.into()], Where::Front)]).expect("harness: args");
    let call = Call { args, cwd: base.clone(), base, ext: ext.into(), gone: false, total: None, around: Around::default() };
    step(&scratch, &call, &sub, id.map(OsStr::new), &tree, r.out, ch, st)
}

/// Listing and deleting with many documents.
fn many((n, out): &(usize, Out), ch: &mut Ch, st: &mut Stats) -> Verdict {
    let (scratch, base, mut tree) = prepare(0);
    // Names in an order that is neither that of creation nor that of numbers.
    tree.extend((0..*n).map(|i| {
        let k = i * 37 % 4099;
        Entry { path: os(format!("{}{k}{}.md", if k % 5 == 0 { "d/" } else { "" }, "x".repeat(k % 40))), kind: Kind::File(vec![]) }
    }));
    scratch::make(&base, &tree);
    let (sub, id) = ch.of(&[("list", None), ("delete", Some("zz")), ("delete", Some("d/0"))]).to_owned();
    if sub == "delete" && (*out != Out::Works || n % 8 != 1) {
        return Ok(());
    }
    let args = compose(id.map(OsStr::new), &[sub], &[]).expect("harness: args");
    let call = Call { args, cwd: base.clone(), base, ext: "md".into(), gone: false, total: None, around: Around::default() };
    step(&scratch, &call, &[sub], id.map(OsStr::new), &tree, *out, ch, st).map_err(|m| format!("{n} documents: {}", m.chars().take(3000).collect::<String>()))
}

/// Documents with names that mean something, or nothing, to someone: listed and deleted.
fn names((stem, dir): &(Vec<u8>, bool), ch: &mut Ch, st: &mut Stats) -> Verdict {
    let (scratch, base, _) = prepare(0);
    let file = |p: Vec<u8>| Entry { kind: Kind::File(p.clone()), path: os([p.as_slice(), b".md"].concat()) };
    let id = if *dir { [stem, b"/".as_slice(), stem].concat() } else { stem.clone() };
    let tree = vec![file(id.clone()), file(b"plain".to_vec()), file(b"z/z".to_vec())];
    scratch::make(&base, &tree);
    // What begins like an option, or is a sub-command, is never taken for an id.
    let word = stem.starts_with(b"-") || ["list", "ls", "delete", "save", "help"].iter().any(|w| w.as_bytes() == id);
    let other = os([id.as_slice(), b"x"].concat());
    let own = os(id);
    let (sub, id) = match ch.pick(3) {
        0 => ("list", None),
        _ if word => return Ok(()),
        1 => ("delete", Some(own.as_os_str())),
        _ => ("delete", Some(other.as_os_str())),
    };
    let call = Call { args: compose(id, &[sub], &[]).expect("harness: args"), cwd: base.clone(), base, ext: "md".into(), gone: false, total: None, around: Around::default() };
    step(&scratch, &call, &[sub], id, &tree, Out::Works, ch, st)
}

/// Base directories with all kinds of names, named in all kinds of ways.
fn places(name: &Vec<u8>, ch: &mut Ch, st: &mut Stats) -> Verdict {
    let (scratch, _, _) = prepare(0);
    let base = scratch.join(os(name.clone()));
    let tree = forest().swap_remove(2);
    scratch::make(&base, &tree);
    let cwd = scratch.join("elsewhere");
    let cat = |a: &[u8], b: &[u8], c: &[u8]| os([a, b, c].concat());
    let way = ch.pick(10);
    let (context, cwd, gone) = match way {
        0 => (None, base.clone(), false),
        1 => (Some(base.clone().into_os_string()), cwd, false),
        2 => (Some(cat(b"../", name, b"")), cwd, false),
        3 => (Some(cat(b"../", name, b"/")), cwd, false),
        4 => (Some(cat(b"../", name, b"/.")), cwd, false),
        5 => (Some(cat(b"./..//", name, b"//")), cwd, false),
        6 => (Some(cat(b"../elsewhere/../", name, b"/d/..")), cwd, false),
        7 => (Some(os(b"..".to_vec())), base.join("d"), false),
        8 => {
            scratch::make(&scratch, &[Entry { path: os("link"), kind: Kind::Link(os(name.clone())) }]);
            (Some(os("../link")), cwd, false)
        }
        _ => {
            let gone = scratch.join("logs/gone");
            fs::create_dir_all(&gone).expect("harness: gone");
            (Some(base.clone().into_os_string()), gone, true)
        }
    };
    let (sub, id) = *ch.of(&[(&["list"] as &[&str], None), (&["delete"], Some(OsStr::new("d/e"))), (&["delete"], Some(OsStr::new("zz"))), (&["save", "text"], Some(OsStr::new("a")))]);
    let options: Vec<_> = context.iter().map(|c| (forms("-C", "--context", c).swap_remove(3), *ch.of(&[Where::Front, Where::End]))).collect();
    let call = Call { args: compose(id, sub, &options).expect("harness: args"), cwd, base, ext: "md".into(), gone, total: None, around: Around::default() };
    step(&scratch, &call, sub, id, &tree, Out::Works, ch, st)
}

/// A listing that can be written up to some byte.
fn limits((tree, at): &(usize, usize), ch: &mut Ch, st: &mut Stats) -> Verdict {
    let (scratch, base, mut entries) = prepare(*tree % 3);
    if *tree == 3 {
        // More than what is buffered by anything on the way.
        entries.extend((0..700).map(|i| Entry { path: os(format!("{}{i}.md", "x".repeat(i % 60))), kind: Kind::File(vec![]) }));
        scratch::make(&base, &entries);
    }
    let args = compose(None, &["list"], &[]).expect("harness: args");
    let all = run(&scratch, &base, &args, Out::Works, false, &Around::default()).map_err(|m| format!("list: {m}"))?;
    let total = all.out.len();
    let n = match tree {
        3 => match at {
            0..=40 => at * 1021,
            41..=80 => total.saturating_sub(at - 41),
            _ => total + 1,
        },
        _ => *at,
    };
    if n > total + 1 {
        return Ok(());
    }
    let call = Call { args, cwd: base.clone(), base, ext: "md".into(), gone: false, total: Some(total), around: Around::default() };
    step(&scratch, &call, &["list"], None, &entries, Out::Limit(n), ch, st).map_err(|m| m.chars().take(2000).collect())
}

#[derive(Clone, Debug)]
struct EnvRoot {
    /// A variable of the environment and its values: `%` is replaced by a directory that is not the base.
    var: (&'static str, &'static [Option<&'static str>]),
    stdin: Stdin,
    stderr: Stderr,
    out: Out,
}

/// What the process finds around it makes no difference.
fn environment(r: &EnvRoot, ch: &mut Ch, st: &mut Stats) -> Verdict {
    let (scratch, base, tree) = prepare(2);
    let elsewhere = scratch.join("elsewhere");
    let value = *ch.of(r.var.1);
    let mut vars = vec![];
    if !r.var.0.is_empty() {
        vars.push((r.var.0, value.map(|v| OsString::from(v.replace('%', &elsewhere.display().to_string())))));
    }
    let around = Around { vars, stdin: r.stdin, stderr: r.stderr };
    let missing: OsString = scratch.join("missing").into();
    let (context, cwd) = ch.of(&[(None, base.clone()), (Some(OsString::from("../base")), elsewhere.clone()), (Some(missing.clone()), base.clone())]).clone();
    let (sub, id) = *ch.of(&[
        (&["list"] as &[&str], None),
        (&["ls"], None),
        (&["delete"], Some("a/x")),
        (&["delete"], Some("zz")),
        (&["delete"], None),
        (&["save", "text"], Some("a")),
        (&["save"], None),
    ]);
    let mut options: Vec<_> = context.iter().map(|c| (forms("-C", "--context", c).swap_remove(0), Where::Front)).collect();
    let ext = *ch.of(&["md", "txt"]);
    if ext != "md" {
        options.push((vec!["-e".into(), ext.into()], Where::End));
    }
    let id = id.map(OsStr::new);
    let gone = context == Some(missing);
    let call = Call { args: compose(id, sub, &options).expect("harness: args"), cwd, base, ext: ext.into(), gone: false, total: None, around };
    step(&scratch, &call, sub, id, if gone { &[] } else { &tree }, r.out, ch, st)
}

/// Words that are no command.
fn wrong(r: &Vec<&'static str>, ch: &mut Ch, st: &mut Stats) -> Verdict {
    let (scratch, base, tree) = prepare(2);
    let call = Call { args: r.iter().map(OsString::from).collect(), cwd: base.clone(), base, ext: "md".into(), gone: false, total: None, around: Around::default() };
    step(&scratch, &call, &["?"], None, &tree, Out::Works, ch, st)
}

#[derive(Clone, Debug)]
struct Seq {
    depth: usize,
}

/// Several commands, one after the other, on one tree.
fn sequences(r: &Seq, ch: &mut Ch, st: &mut Stats) -> Verdict {
    let (scratch, base, tree) = prepare(2);
    let all: &[(&[&str], Option<&str>, &str)] = &[
        (&["list"], None, "md"),
        (&["ls"], None, "txt"),
        (&["delete"], Some("zz"), "md"),
        (&["delete"], None, "md"),
        (&["delete"], Some("a"), "txt"),
        (&["save"], None, "md"),
        (&["list"], Some("a"), "md"),
    ];
    for _ in 0..r.depth {
        let (sub, id, ext) = *ch.of(all);
        let args = compose(id.map(OsStr::new), sub, &[(vec!["-e".into(), ext.into()], Where::End)]).expect("harness: args");
        let call = Call { args, cwd: base.clone(), base: base.clone(), ext: ext.into(), gone: false, total: None, around: Around::default() };
        step(&scratch, &call, sub, id.map(OsStr::new), &tree, Out::Works, ch, st)?;
    }
    Ok(())
}

pub fn c18(t: Tier) -> Suites {
    let mut roots = vec![];
    let ids = ["a", "a/x", "d/e", "b", "zz", "a.md", "d", "dir", "é", "sp ace", "q\"uote", "x", "", "w", ".hidden", "new\nline"].map(str::as_bytes);
    let ids = [&ids[..], &[b"n\xff", b"m\xff", b"n\xef\xbf\xbd"]].concat();
    for tree in 0..3 {
        for sub in [&["list"] as &[&str], &["ls"], &["delete"], &["save"], &["save", "text"], &["save", ""]] {
            for id in [None].into_iter().chain(ids.iter().map(|i| Some(*i))) {
                let some = matches!(id, None | Some(b"a") | Some(b"zz"));
                if tree < 2 && !some {
                    continue;
                }
                roots.push(Root { tree, sub: sub.to_vec(), id, cross: t.thorough() || some && tree == 2 && sub.len() == 1 });
            }
        }
    }
    let mut outs = vec![];
    for tree in 0..3 {
        for out in [Out::Works, Out::Full, Out::Broken, Out::Closed] {
            outs.push(OutRoot { tree, out });
        }
    }
    vec![
        suite(
            "commands",
            "every sub-command and alias, with and without 19 ids, options for base directory (4 values) and extension (4 values) absent or in 4 spellings at 4 positions, singly and combined, over 3 trees; each run as a process, judged by exit status, both outputs and the files before and after",
            roots,
            commands,
        ),
        suite("outputs", "every sub-command with 3 ids and 3 extensions over 3 trees, with standard output working, full, a pipe nobody reads and closed", outs, outputs),
        suite(
            "many-documents",
            format!("listing n documents to a standard output that works, is full or is a broken pipe, and deleting among them: every n up to {} and the neighbours of powers of 2 up to 4096", t.pick(48, 300)),
            {
                let mut ns: Vec<usize> = (0..=t.pick(48, 300)).chain((6..=12).flat_map(|k| [(1 << k) - 1, 1 << k])).collect();
                ns.sort();
                ns.dedup();
                ns.into_iter().rev().flat_map(|n| [Out::Works, Out::Full, Out::Broken].map(|o| (n, o))).filter(|(n, o)| *o == Out::Works || n % 8 < 2).collect()
            },
            many,
        ),
        suite(
            "names",
            "a document, alone and in a directory, named in one of the ways of C16's suite of names: listed, deleted, and something else deleted",
            crate::tree::stems(t.pick(2, 6)).into_iter().flat_map(|s| [(s.clone(), false), (s, true)]).collect(),
            names,
        ),
        suite(
            "places",
            "base directories with 30 names, each named in 10 ways (where the command runs, absolute, relative, through `.` and `..`, with slashes too many, through a link, from a directory that does not exist any more), 4 commands",
            [
                "b", "b.md", "b.d", ".hidden", "...", "sp ace", " ", "-", "-e", "--", "~", "é", "\u{65}\u{301}", "new\nline", "tab\t", "q\"", "'", "*", "?", "[a]", "{b}", "$HOME", "%s", "\\", "(", "#", "=", "a=b", "target",
            ]
            .iter()
            .map(|s| s.as_bytes().to_vec())
            .chain([b"n\xff".to_vec()])
            .collect(),
            places,
        ),
        suite(
            "limits",
            "a listing written to a file that takes n bytes, for every n up to its size and one more; for a listing of 700 documents, 40 steps of n and the last 40 bytes",
            (0..3).flat_map(|tree| (0..160).map(move |n| (tree, n))).chain((0..=t.pick(81, 81)).map(|n| (3, n))).collect(),
            limits,
        ),
        suite(
            "environment",
            "7 commands with 3 base directories and 2 extensions, with one of 25 variables of the environment set to up to 4 values or taken away, and with each combination of standard input (empty, a text, a pipe that never ends, closed), standard error (working, full, a pipe nobody reads, closed) and standard output (the same)",
            {
                let dirs: &[Option<&str>] = &[Some("%"), Some(""), Some("/nonexistent"), None];
                let vars: [(&str, &[Option<&str>]); 25] = [
                    ("PWD", dirs),
                    ("OLDPWD", dirs),
                    ("HOME", dirs),
                    ("XDG_CONFIG_HOME", dirs),
                    ("TMPDIR", dirs),
                    ("GIT_DIR", dirs),
                    ("CARGO_MANIFEST_DIR", dirs),
                    ("CONTEXT", dirs),
                    ("PLOTLINE_CONTEXT", dirs),
                    ("PLOT_CONTEXT", dirs),
                    ("EXTENSION", &[Some("txt"), Some("md"), Some("")]),
                    ("PLOTLINE_EXTENSION", &[Some("txt"), Some("md"), Some("")]),
                    ("PLOT_EXTENSION", &[Some("txt"), Some("md"), Some("")]),
                    ("RUST_LOG", &[Some("trace"), Some("off"), Some("=,=")]),
                    ("RUST_BACKTRACE", &[Some("full")]),
                    ("LANG", &[Some("tr_TR.UTF-8"), Some("C"), Some("nonsense")]),
                    ("LC_ALL", &[Some("tr_TR.UTF-8"), Some("C"), Some("nonsense")]),
                    ("TERM", &[Some("dumb"), Some("xterm-256color"), Some("")]),
                    ("NO_COLOR", &[Some("1")]),
                    ("CLICOLOR_FORCE", &[Some("1")]),
                    ("COLUMNS", &[Some("1"), Some("0"), Some("-1")]),
                    ("LINES", &[Some("1"), Some("0")]),
                    ("USER", &[Some("nobody"), Some("")]),
                    ("PATH", &[Some("%"), Some(""), None]),
                    ("DEBUG", &[Some("1")]),
                ];
                let mut v: Vec<EnvRoot> = vars.iter().map(|var| EnvRoot { var: *var, stdin: Stdin::Null, stderr: Stderr::Works, out: Out::Works }).collect();
                for stdin in [Stdin::Null, Stdin::Text, Stdin::Open, Stdin::Closed] {
                    for stderr in [Stderr::Works, Stderr::Full, Stderr::Broken, Stderr::Closed] {
                        for out in [Out::Works, Out::Full, Out::Broken, Out::Closed] {
                            v.push(EnvRoot { var: ("", &[None]), stdin, stderr, out });
                        }
                    }
                }
                v
            },
            environment,
        ),
        suite(
            "misuse",
            "command lines that are no command",
            vec![vec![], vec!["doc"], vec!["doc", "a"], vec!["doc", "frobnicate"], vec!["nodes", "list"], vec!["doc", "list", "--wrong"], vec!["doc", "a", "b", "list"], vec!["doc", "-C"], vec!["list"], vec!["doc", "delete", "a", "b"]],
            wrong,
        ),
        suite("sequences", format!("every sequence of {} commands out of 7", t.pick(3, 4)), vec![Seq { depth: t.pick(3, 4) }], sequences),
    ]
}
