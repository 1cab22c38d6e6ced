//! C16 and C17: listing and loading, over directory trees.
use crate::inter;
use crate::scratch::{self, content, documents, os, Entry, Kind};
use engine::{suite, Ch, Stats, Suite, Tier, Verdict};
use plotline::deref::TryDeref;
use plotline::document::lazy::LazyDocument;
use plotline::document::DocumentRepository;
use plotline::id::Identify;
use plotline_cli::repository::LocalDocumentRepository;
use std::collections::BTreeMap;
use std::ffi::{OsStr, OsString};
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};
use std::sync::Arc;

type Suites = Vec<Box<dyn Suite>>;

/// Everything a tree may be made of, for an extension.
fn universe(ext: &str) -> Vec<Entry> {
    let mut v: Vec<Entry> = vec![];
    let e = ext.as_bytes();
    let dot = |stem: &[u8]| -> OsString { os([stem, b".", e].concat()) };
    let file = |v: &mut Vec<Entry>, path: OsString| {
        let c = if v.len() % 7 == 3 {
            vec![]
        } else if v.len() % 7 == 5 {
            (0..20000u32).map(|i| (i % 251) as u8).collect()
        } else {
            [b"\xff content of ".as_slice(), path.as_bytes(), b"\r\n\0"].concat()
        };
        if !v.iter().any(|x| x.path == path) {
            v.push(Entry { path, kind: Kind::File(c) });
        }
    };
    let other = |v: &mut Vec<Entry>, path: OsString, kind: Kind| {
        if !v.iter().any(|x| x.path == path) {
            v.push(Entry { path, kind });
        }
    };
    // documents
    for stem in [
        "a", "b.c", "b.d", "b", "a b", "é", "A", "-", "a.", "d/a", "d/b.c", "d.x/a", "n\nl", "a\u{301}", " ", "~", "*", "C:", "a,b;c",
    ] {
        file(&mut v, dot(stem.as_bytes()));
    }
    file(&mut v, dot(b"n\xff"));
    file(&mut v, dot(&[b"a.", e].concat())); // a.md.md
    file(&mut v, dot(e)); // md.md
    file(&mut v, os([b"x.", e, b"/a.", e].concat())); // in a directory named like a document
    file(&mut v, os([b"x.", e, b"/y.", e, b"/f.g.", e].concat()));
    // looking like documents, more or less
    for name in [
        e.to_vec(),
        [b"a".as_slice(), e].concat(),
        [b"ax", e].concat(),
        [b"a.", e, b"x"].concat(),
        [b"a.", e, b"~"].concat(),
        [b"a.", e, b".bak"].concat(),
        [b"a.", e, b"\n"].concat(),
        [b"a.", e, b" "].concat(),
        [b"a.x", e].concat(),
        [b"a. ", e].concat(),
        b"a".to_vec(),
        b"a.bak".to_vec(),
        b"d.x/plain".to_vec(),
        [b".h/a.", e].concat(),
        [b".a.", e].concat(),
        [b"d/.h/b.", e].concat(),
        [b".", e].concat(),
    ] {
        if !name.is_empty() && !name.ends_with(b"/") {
            file(&mut v, os(name));
        }
    }
    for twisted in [ext.to_uppercase(), ext.to_lowercase(), ext.replace('.', "x"), ext.replace(['+', '*', '?', '(', ')', '[', ']', '^', '$', '\\', '|'], ""), ext.chars().rev().collect(), format!("{ext}{ext}")] {
        if twisted != ext {
            file(&mut v, os(format!("a.{twisted}")));
        }
    }
    // what such an extension would match as a pattern
    let hits: &[&str] = match ext {
        "m+d" => &["a.md", "a.mmd"],
        "a|b" => &["q.a", "qb"],
        "[ab]" => &["q.a"],
        "\\w" => &["q.w", "q.x"],
        "m.d" => &["a.d", "a.mxd"],
        "m?d" => &["a.md", "a.d"],
        ".*" => &["q.w", "q."],
        "m{2}" => &["q.mm"],
        _ => &[],
    };
    for h in hits {
        file(&mut v, os(*h));
    }
    other(&mut v, dot(b"dir"), Kind::Dir);
    other(&mut v, os([b"dir.", e, b"x"].concat()), Kind::Dir);
    other(&mut v, dot(b"fifo"), Kind::Fifo);
    other(&mut v, dot(b"dangling"), Kind::Link(os("nowhere")));
    other(&mut v, dot(b"link"), Kind::Link(dot(b"a")));
    other(&mut v, os("link"), Kind::Link(dot(b"a")));
    other(&mut v, dot(b"linkdir"), Kind::Link(os("d")));
    v.retain(|x| x.path != "d" && x.path != "d.x" && Path::new(&x.path).file_name().is_some() && x.path != ".");
    v
}

/// How the base directory is named. The thread's working directory is its scratch directory or,
/// for those of dots and slashes alone, the base directory.
const SPELLINGS: [&str; 23] = [
    "{}/base", "{}/base/", "{}//base/.", "{}/./base", "{}/other/../base", "{}/link", "base", "base/", "./base", "./link/", "{}/link/../base", ".", "./",
    "{}/.h/base", ".h/base/", "{}/.base", ".base", "./.md/", "{}/x.md", "x.md", "d.md/.d.md/b.m.d/", "{}/~ #*[é]$\n/b ", "../.z/",
];

/// Where the base directory of a spelling is.
fn home(spelling: usize) -> &'static str {
    match spelling {
        0..=12 => "base",
        22 => ".z",
        k => SPELLINGS[k].trim_start_matches("{}/").trim_start_matches("./").trim_end_matches('/'),
    }
}

#[derive(Clone)]
struct Root {
    ext: &'static str,
    spelling: usize,
    size: usize,
    load: bool,
    entries: Arc<Vec<Entry>>,
}
impl std::fmt::Debug for Root {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "extension {:?}, base directory spelled {:?}, up to {} entries", self.ext, SPELLINGS[self.spelling], self.size)
    }
}

fn one(r: &Root, ch: &mut Ch, st: &mut Stats) -> Verdict {
    // Which entries there are.
    let u = &r.entries;
    let mut tree: Vec<Entry> = vec![];
    let mut from = 0;
    while tree.len() < r.size && from < u.len() {
        let k = ch.pick(u.len() - from + 1);
        if k == 0 {
            break;
        }
        let e = &u[from + k - 1];
        from += k;
        // A file where another entry needs a directory is skipped.
        let clash = |a: &OsStr, b: &OsStr| Path::new(b).starts_with(a) && a != b;
        if tree.iter().any(|o| clash(&o.path, &e.path) && o.kind != Kind::Dir || clash(&e.path, &o.path) && e.kind != Kind::Dir) {
            return Ok(());
        }
        tree.push(e.clone());
    }
    verify(r.ext, r.spelling, r.load, &tree, ch, st)
}

/// Lists, and maybe loads, a tree.
fn verify(ext: &str, spelling: usize, load: bool, tree: &[Entry], ch: &mut Ch, st: &mut Stats) -> Verdict {
    let expected: BTreeMap<PathBuf, Doc> = documents(tree, ext).into_iter().map(|(id, e)| {
        let e = tree.iter().find(|x| x.path == e.path).expect("harness: entry");
        (id, Doc { path: &e.path, content: content(tree, e) })
    }).collect();
    let shown = if tree.len() > 12 { format!("{} entries: {:?}...", tree.len(), &tree[..12]) } else { format!("{tree:?}") };
    // Ids that may or may not exist.
    let mut some: Vec<PathBuf> = vec![];
    if load {
        for e in tree {
            some.push(e.path.clone().into());
            some.push(Path::new(&e.path).with_extension(""));
            some.push(os([e.path.as_bytes(), b".", ext.as_bytes()].concat()).into());
            if let Some(d) = Path::new(&e.path).parent() {
                some.push(d.to_owned());
                some.push(d.join("no such"));
            }
        }
    }
    examine(ext, spelling, load, shown, &expected, some, |base| scratch::make(base, tree), ch, st)
}

/// A document expected: its file, and what is in it.
pub struct Doc<'a> {
    pub path: &'a OsStr,
    pub content: &'a [u8],
}

/// Lists, and maybe loads, the tree that `build` makes.
#[allow(clippy::too_many_arguments)]
pub fn examine(ext: &str, spelling: usize, load: bool, shown: String, expected: &BTreeMap<PathBuf, Doc>, others: Vec<PathBuf>, build: impl FnOnce(&Path), ch: &mut Ch, st: &mut Stats) -> Verdict {
    let scratch = scratch::mine();
    let base = scratch.join(home(spelling));
    std::fs::create_dir_all(&base).expect("harness: base");
    std::fs::create_dir_all(scratch.join("other")).expect("harness: other");
    scratch::make(&scratch, &[Entry { path: os("link"), kind: Kind::Link(os(home(spelling))) }]);
    build(&base);
    let spelled = SPELLINGS[spelling];
    scratch::chdir(if spelled.starts_with("../") || spelled.starts_with('.') && !spelled.contains(|c: char| c.is_alphabetic()) { &base } else { &scratch });
    let context = PathBuf::from(spelled.replace("{}", scratch.to_str().expect("harness: scratch")));
    ch.log(|| shown.clone());
    let short = |m: String| if m.len() > 2000 { format!("{}...", m.chars().take(2000).collect::<String>()) } else { m };
    let what = |m: String| Err(format!("extension {ext:?}, base {spelled:?}, tree {}: {}", short(shown.clone()), short(m)));
    let before = scratch::snap(&scratch);
    let repo = Arc::new(LocalDocumentRepository { context, extension: ext.to_string() });

    let (mut docs, seen): (Vec<LazyDocument<LocalDocumentRepository>>, _) = inter::observed(None, vec![], || repo.all().collect());
    ch.steps(seen.calls);
    docs.sort_by(|a, b| a.id().as_os_str().cmp(b.id().as_os_str()));
    let ids: Vec<PathBuf> = docs.iter().map(|d| d.id().clone()).collect();
    let mut want: Vec<PathBuf> = expected.keys().cloned().collect();
    want.sort_by(|a, b| a.as_os_str().cmp(b.as_os_str()));
    ch.log(|| format!("listed {ids:?}"));
    st.state(&(ext, spelling, &shown));
    st.outcome(&ids);
    // Paths compare by components: "a/" and "a" are equal, so compare the bytes.
    let bytes = |v: &[PathBuf]| v.iter().map(|p| p.as_os_str().to_owned()).collect::<Vec<_>>();
    if bytes(&ids) != bytes(&want) {
        return what(format!("listed {ids:?}, the documents are {want:?}"));
    }
    for p in &seen.opened {
        if expected.values().any(|e| p.file_name() == Path::new(e.path).file_name() && p.is_file()) {
            return what(format!("listing opened {p:?}"));
        }
    }
    if load {
        let check = |id: &Path, d: Option<(&PathBuf, &[u8])>, how: &str| -> Verdict {
            let want = expected.get(id).map(|e| e.content);
            match (d, want) {
                (None, None) => Ok(()),
                (Some((p, b)), Some(w)) => {
                    if p.as_os_str() != id.as_os_str() {
                        return what(format!("{how} {id:?} yields a document that says it is {p:?}"));
                    }
                    if b != w {
                        return what(format!("{how} {id:?} yields other content: {:?}", String::from_utf8_lossy(&b[..b.len().min(60)])));
                    }
                    Ok(())
                }
                (None, Some(_)) => what(format!("{how} {id:?} reports absence")),
                (Some(_), None) => what(format!("{how} {id:?} yields a document, there is none")),
            }
        };
        // Listed documents, last one first, twice.
        for d in docs.iter().rev().chain(docs.iter()) {
            ch.step();
            check(d.id(), d.try_deref().map(|x| (&x.path, &x.bytes[..])), "accessing")?;
        }
        // Ids that may or may not exist.
        let mut some: Vec<PathBuf> = ids.clone();
        some.extend(others);
        some.push("a".into());
        some.push("A".into());
        some.push("d/a".into());
        let visible = |p: &Path| !p.as_os_str().is_empty() && !p.as_os_str().as_bytes().split(|c| *c == b'/').any(|c| c.starts_with(b"."));
        for id in some {
            // Hidden files are neither here nor there.
            if !visible(&id) {
                continue;
            }
            // The last component must not be normalised away.
            if id.as_os_str().as_bytes().ends_with(b"/") {
                continue;
            }
            ch.step();
            let d = repo.find_by_id(&id);
            check(&id, d.as_ref().map(|x| (&x.path, &x.bytes[..])), "finding")?;
            if let Some(d) = &d {
                if d.id().as_os_str() != id.as_os_str() {
                    return what(format!("the document found as {id:?} has id {:?}", d.id()));
                }
            }
        }
    }
    if scratch::snap(&scratch) != before {
        return what("files were changed".into());
    }
    Ok(())
}

const EXTENSIONS: [&str; 22] = [
    "md", "txt", "m.d", "tar.gz.x", "m+d", "a|b", "[ab]", "\\w", "(x)", "é", "MD", "m d", "$", "m-d", "m?d", ".*", "m{2}", "d.", ".md", "1", "*", "",
];

fn suites(t: Tier, load: bool) -> Suites {
    let mk = |exts: &[&'static str], spellings: &[usize], size: usize| -> Vec<Root> {
        let mut v = vec![];
        for ext in exts {
            let entries = Arc::new(universe(ext));
            for s in spellings {
                v.push(Root { ext, spelling: *s, size, load, entries: entries.clone() });
            }
        }
        v
    };
    let all: Vec<usize> = (0..SPELLINGS.len()).collect();
    let b = |n| format!("every set of up to {n} entries out of 50 to 60 per extension (names with several, no and trailing dots, blanks, line breaks, non-ASCII, non-UTF-8, near misses of the extension and what it would match as a pattern, hidden ones, directories, links, a fifo)");
    vec![
        suite("extensions", format!("{}; {} extensions", b(3), EXTENSIONS.len()), mk(&EXTENSIONS, &[0], 3), one),
        suite("spellings", format!("{}; {} spellings of the base directory", b(t.pick(2, 3)), SPELLINGS.len()), mk(&["md", "m.d", "é"], &all, t.pick(2, 3)), one),
        suite("scale", format!("one document of n bytes, d directories deep, with a name of l bytes or k dots, and n documents and other files in one or in many directories: every n, d, l, k up to a bound (sizes to {}, depth 64, names 250, files {}), and the neighbours of powers of 2 beyond; 2 extensions", t.pick(300, 1100), t.pick(40, 130)), scales(t, load), scale),
        names(t, load),
        contents(load),
        oddities(t, load),
        suite("trees", b(4), mk(t.pick(&["md"], &["md", "m.d", "txt", "tar.gz.x", "m+d", "[ab]", "é", ".md", ""]), &[0], 4), one),
    ]
}

/// One dimension a tree grows in.
#[derive(Clone, Debug)]
enum Scale {
    Size(usize),
    Depth(usize),
    Name(usize),
    Dots(usize),
    Files(usize),
    Dirs(usize),
    Parts(usize),
}

fn around(max: usize) -> impl Iterator<Item = usize> {
    (0..).map(|k| 1usize << k).take_while(move |n| *n <= max).flat_map(|n| [n - 1, n, n + 1])
}

fn scales(t: Tier, load: bool) -> Vec<(Scale, &'static str, bool)> {
    let mut v: Vec<Scale> = vec![];
    let small = |max: usize, all: usize| -> Vec<usize> {
        let mut s: Vec<usize> = (0..=all).chain(around(max)).chain([max]).filter(|n| *n <= max).collect();
        s.sort();
        s.dedup();
        s
    };
    v.extend(small(t.pick(9 << 20, 80 << 20), t.pick(300, 1100)).into_iter().map(Scale::Size));
    v.extend(small(1800, 64).into_iter().map(Scale::Depth));
    v.extend((1..=250).map(Scale::Name));
    v.extend(small(100, t.pick(40, 100)).into_iter().map(Scale::Dots));
    v.extend(small(t.pick(4096, 20000), t.pick(40, 130)).into_iter().map(Scale::Files));
    v.extend(small(t.pick(300, 2000), t.pick(20, 130)).into_iter().map(Scale::Dirs));
    v.extend(small(40, 40).into_iter().map(Scale::Parts));
    // The largest first, so that no thread is left with one of them at the end.
    v.reverse();
    v.into_iter().flat_map(|s| ["md", "m.d"].map(|e| (s.clone(), e, load))).collect()
}

/// A tree that is large in one way.
fn scale((s, ext, load): &(Scale, &'static str, bool), ch: &mut Ch, st: &mut Stats) -> Verdict {
    let file = |p: String, n: usize| Entry { path: p.into(), kind: Kind::File((0..n).map(|i| (i * 7 + i / 256 + i / 65536) as u8).collect()) };
    let mut ext = ext.to_string();
    let tree: Vec<Entry> = match s {
        Scale::Size(n) => vec![file(format!("a.{ext}"), *n), file(format!("b.{ext}"), 3)],
        Scale::Depth(d) => vec![file(format!("{}a.{ext}", "d/".repeat(*d)), 5), file(format!("{}b.{ext}", "d/".repeat(d / 2)), 6), file(format!("z.{ext}"), 7)],
        Scale::Name(l) => vec![file(format!("{}.{ext}", "n".repeat(*l)), 5), file(format!("{}/a.{ext}", "m".repeat(*l)), 5)],
        Scale::Dots(k) => vec![file(format!("a{}.{ext}", ".b".repeat(*k)), 5), file(format!("d{}/x.{ext}", ".b".repeat(*k)), 6), file(format!("c{}.{ext}", ".".repeat(*k)), 7)],
        Scale::Files(n) => (0..*n).map(|i| file(format!("f{i}.{}", if i % 3 == 2 { "other" } else { &ext }), i % 50)).collect(),
        Scale::Dirs(n) => (0..*n).map(|i| file(format!("d{i}/{}f.{ext}", if i % 5 == 4 { "e/" } else { "" }), i % 50)).collect(),
        Scale::Parts(k) => {
            let whole = format!("{ext}{}", ".x".repeat(*k));
            let t = vec![file(format!("a.{whole}"), 5), file(format!("a.b.{whole}"), 6), file(format!("b.{ext}"), 7), file(format!("c{whole}"), 8), file(format!("c.{}", &whole[2..]), 8)];
            ext = whole;
            t
        }
    };
    ch.log(|| format!("{s:?}"));
    st.state(&(format!("{s:?}"), &ext));
    verify(&ext, 0, *load, &tree, ch, st).map_err(|m| format!("{s:?}: {m}"))
}

pub fn c16(t: Tier) -> Suites {
    suites(t, false)
}
pub fn c17(t: Tier) -> Suites {
    suites(t, true)
}

/// A base that is no directory lists nothing.
fn odd_base(r: &&'static str, ch: &mut Ch, st: &mut Stats) -> Verdict {
    let scratch = scratch::mine();
    scratch::chdir(&scratch);
    scratch::make(&scratch, &[Entry { path: os("file.md"), kind: Kind::File(b"x".to_vec()) }, Entry { path: os("other/a.md"), kind: Kind::File(b"y".to_vec()) }, Entry { path: os("broken.md"), kind: Kind::Link(os("nowhere")) }]);
    let context = PathBuf::from(r.replace("{}", scratch.to_str().expect("harness: scratch")));
    let before = scratch::snap(&scratch);
    let repo = Arc::new(LocalDocumentRepository { context, extension: "md".into() });
    let ids: Vec<PathBuf> = repo.all().map(|d| d.id().clone()).collect();
    ch.step();
    st.state(r);
    st.outcome(&ids);
    // A base that is a file has no documents below it; whether it is one itself is not said.
    if ids.iter().any(|id| !r.ends_with("file.md") || !id.as_os_str().is_empty()) {
        return Err(format!("base {r:?} is no directory, yet {ids:?} are listed"));
    }
    for id in ["a", "x/a"] {
        if repo.find_by_id(&id.into()).is_some() {
            return Err(format!("base {r:?} is no directory, yet {id:?} is found"));
        }
    }
    if scratch::snap(&scratch) != before {
        return Err(format!("base {r:?}: files were changed"));
    }
    Ok(())
}

pub fn odd_bases() -> Box<dyn Suite> {
    suite("no-base", "a base directory that is missing, a file or a dangling link, absolute and relative", vec!["{}/missing", "{}/file.md", "{}/file.md/x", "missing", "file.md", "{}/broken.md", "broken.md", "{}/missing/deeper"], odd_base)
}

// ---------------------------------------------------------------------------------------------
// unusual names, contents and files

const SPECIAL: &[&str] = &[
    "README", "readme", "index", "INDEX", "_index", "node_modules", "target", "vendor", "build", "dist", "out", "bin", "tmp", "temp", "cache", "__pycache__", "CVS", "RCS", "SCCS", "lost+found", "Thumbs.db", "desktop.ini",
    "CON", "nul", "AUX", "#a#", "a~", "~a", "_a", "__a", "-a", "--help", "a.tmp", "a.temp", "a.bak", "a.swp", "a.swo", "a.orig", "a.rej", "a.draft", "a.lock", "a.min", "draft", "drafts", "template", "archive", "trash", "Trash",
    "LICENSE", "CHANGELOG", "TODO", "Makefile", "Cargo", "core", "System Volume Information", "$RECYCLE.BIN", "a (1)", "copy of a", "0", "00", "01", "1e5", "-1", "true", "null", "NaN", "None", "undefined", "http:", "~root", "%2e", "%2F",
    "%00", "&amp;", "\\", "a\\b", "'", "\"", "`", "$HOME", "${x}", "$(x)", "!", "{a,b}", "[a]", "?", "(a)", "a;b", "a|b", "a&b", "<a>", "a=b", "@a", "+a", "^a", ",", "a ", "a  b", "\ta", "a\r", "\n", "\u{1b}[0m",
    "\u{e9}", "e\u{301}", "\u{df}", "\u{1e9e}", "\u{130}", "\u{131}", "\u{212a}", "\u{3a3}", "\u{200b}", "\u{200d}a", "\u{202e}a", "\u{feff}a", "\u{1f600}", "\u{fb01}", "\u{ff41}", "\u{ff0e}a", "\u{2024}a", "\u{10ffff}", "\u{0}1",
];

#[derive(Clone, Debug)]
struct Name {
    stem: Vec<u8>,
    dir: bool,
    ext: &'static str,
    load: bool,
}

/// Every byte at several places of a name, and names that mean something elsewhere.
pub fn stems(places: usize) -> Vec<Vec<u8>> {
    let mut stems: Vec<Vec<u8>> = vec![];
    for b in 1..=255u8 {
        if b != b'/' {
            stems.extend([vec![b'x', b, b'y'], vec![b], vec![b'x', b], vec![b, b'x'], vec![b, b], vec![b'x', b, b'.', b'y']].into_iter().take(places));
        }
    }
    stems.extend(SPECIAL.iter().map(|s| s.replace('\0', "").into_bytes()));
    stems.retain(|s| !s.starts_with(b"."));
    stems
}

fn names(t: Tier, load: bool) -> Box<dyn Suite> {
    let stems = stems(6);
    let mut roots = vec![];
    for ext in t.pick(vec!["md"], vec!["md", "m.d", "\u{e9}"]) {
        for stem in &stems {
            for dir in [false, true] {
                roots.push(Name { stem: stem.clone(), dir, ext, load });
            }
        }
    }
    suite(
        "names",
        format!("one file, or one directory with a file, named by every byte alone, first, last, in between and doubled, and by {} names that mean something to people, shells, editors, URLs or Unicode, next to two others", SPECIAL.len()),
        roots,
        |r: &Name, ch, st| {
            let end = [b".", r.ext.as_bytes()].concat();
            let file = |p: Vec<u8>| Entry { kind: Kind::File([b"of ".as_slice(), &p].concat()), path: os([p.as_slice(), &end].concat()) };
            let s = &r.stem;
            let tree = if r.dir { vec![file([s, b"/a".as_slice()].concat()), file([s, b"/".as_slice(), s].concat())] } else { vec![file(s.clone()), file([b"d/".as_slice(), s].concat())] };
            verify(r.ext, 0, r.load, &[tree, vec![file(b"plain".to_vec())]].concat(), ch, st)
        },
    )
}

/// Every content of a byte, pairs of special bytes, beginnings and ends that something strips.
fn contents(load: bool) -> Box<dyn Suite> {
    let mut v: Vec<Vec<u8>> = vec![vec![]];
    v.extend((0..=255u8).map(|b| vec![b]));
    let some = [0u8, 9, 10, 13, 26, 27, 32, 35, 45, 0x7f, 0x80, 0xbf, 0xc3, 0xef, 0xfe, 0xff];
    for a in some {
        for b in some {
            v.push(vec![a, b]);
            v.push([&[a, b], b"text".as_slice(), &[b, a]].concat());
        }
    }
    for edge in [
        b"\xef\xbb\xbf".as_slice(), b"\xff\xfe", b"\xfe\xff", b"\0\0\xfe\xff", b"---\n", b"---\na: b\n---\n", b"+++\n", b"#!", b"# ", b"\x1f\x8b\x08", b"%PDF", b"\n\n\n", b"\r\n", b"  ", b"\t", b"<!-- -->", b"\\", b"\xe2\x80\xa8", b"\xc2\xa0", b"\xc3\xa9", b"e\xcc\x81", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xc0\x80",
    ] {
        for body in [b"".as_slice(), b"text", b"line\nline\n", b"line\r\nline\r\n"] {
            v.push([edge, body].concat());
            v.push([body, edge].concat());
            v.push([edge, body, edge].concat());
            v.push([body, edge, body].concat());
        }
    }
    suite(
        "contents",
        "files whose content is any single byte, any pair of 16 special bytes, or begins, ends or is interrupted by marks such as byte order marks, front matter, line ends, blanks, ill-formed UTF-8",
        v,
        move |c: &Vec<u8>, ch, st| {
            let file = |p: &str, c: &[u8]| Entry { path: p.into(), kind: Kind::File(c.to_vec()) };
            verify("md", 0, load, &[file("a.md", c), file("d/b.md", &[c.as_slice(), c].concat())], ch, st)
        },
    )
}

/// Files, links and directories of unusual kinds.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Odd {
    LinkToPlain,
    LinkOutside,
    LinkAbsolute,
    LinkToLink,
    LinkToHidden,
    LinkRoundabout,
    LinkIntoDir,
    LinkToDevice,
    LinkToPipe,
    Loop,
    TwoLoop,
    Hard,
    HardInDir,
    Twins,
    DirLink,
    DirLinkUp,
    Executable,
    ReadOnly,
    NoMode,
    SetUid,
    StickyDir,
    Ancient,
    Future,
    Empty,
    Sparse,
    EmptyDirs,
    Socket,
}
const ODD: [Odd; 27] = [
    Odd::LinkToPlain,
    Odd::LinkOutside,
    Odd::LinkAbsolute,
    Odd::LinkToLink,
    Odd::LinkToHidden,
    Odd::LinkRoundabout,
    Odd::LinkIntoDir,
    Odd::LinkToDevice,
    Odd::LinkToPipe,
    Odd::Loop,
    Odd::TwoLoop,
    Odd::Hard,
    Odd::HardInDir,
    Odd::Twins,
    Odd::DirLink,
    Odd::DirLinkUp,
    Odd::Executable,
    Odd::ReadOnly,
    Odd::NoMode,
    Odd::SetUid,
    Odd::StickyDir,
    Odd::Ancient,
    Odd::Future,
    Odd::Empty,
    Odd::Sparse,
    Odd::EmptyDirs,
    Odd::Socket,
];

impl Odd {
    /// Makes it in the base directory; returns the documents it adds: stem, content.
    fn make(self, base: &Path) -> Vec<(&'static str, Vec<u8>)> {
        use std::fs;
        use std::os::unix::fs::{symlink, PermissionsExt};
        let e = |r: std::io::Result<()>| r.expect("harness: odd");
        let at = |p: &str| base.join(p);
        let write = |p: &str, c: &[u8]| {
            if let Some(d) = at(p).parent() {
                e(fs::create_dir_all(d));
            }
            e(fs::write(at(p), c))
        };
        let mode = |p: &str, m: u32| e(fs::set_permissions(at(p), fs::Permissions::from_mode(m)));
        let time = |p: &str, secs: i64| {
            let f = fs::File::options().write(true).open(at(p)).expect("harness: odd");
            let t = if secs < 0 { std::time::UNIX_EPOCH - std::time::Duration::from_secs(-secs as u64) } else { std::time::UNIX_EPOCH + std::time::Duration::from_secs(secs as u64) };
            e(f.set_times(fs::FileTimes::new().set_modified(t).set_accessed(t)));
        };
        let out = base.parent().expect("harness: base").join("other");
        match self {
            Odd::LinkToPlain => {
                write("plain0", b"plain");
                e(symlink("plain0", at("lp.md")));
                vec![("lp", b"plain".to_vec())]
            }
            Odd::LinkOutside => {
                e(fs::write(out.join("o.md"), b"outside"));
                e(symlink("../other/o.md", at("lo.md")));
                vec![("lo", b"outside".to_vec())]
            }
            Odd::LinkAbsolute => {
                e(fs::write(out.join("abs"), b"absolute"));
                e(symlink(out.join("abs"), at("la.md")));
                vec![("la", b"absolute".to_vec())]
            }
            Odd::LinkToLink => {
                e(symlink("a.md", at("l1.md")));
                e(symlink("l1.md", at("l2.md")));
                e(symlink("l2.md", at("l3")));
                e(symlink("l3", at("l4.md")));
                vec![("l1", b"first".to_vec()), ("l2", b"first".to_vec()), ("l4", b"first".to_vec())]
            }
            Odd::LinkToHidden => {
                write(".hid.md", b"hidden");
                e(symlink(".hid.md", at("lh.md")));
                vec![("lh", b"hidden".to_vec())]
            }
            Odd::LinkRoundabout => {
                e(symlink("./d/../d/./b.md", at("lr.md")));
                e(symlink("../a.md", at("d/lr.md")));
                vec![("lr", b"second".to_vec()), ("d/lr", b"first".to_vec())]
            }
            Odd::LinkIntoDir => {
                e(symlink("d/b.md", at("b.md")));
                vec![("b", b"second".to_vec())]
            }
            Odd::LinkToDevice => {
                e(symlink("/dev/null", at("dev.md")));
                vec![]
            }
            Odd::LinkToPipe => {
                let c = std::ffi::CString::new(at("pipe").as_os_str().as_bytes()).expect("harness: odd");
                assert!(unsafe { libc::mkfifo(c.as_ptr(), 0o644) } == 0, "harness: mkfifo");
                e(symlink("pipe", at("lpipe.md")));
                vec![]
            }
            Odd::Loop => {
                e(symlink("loop.md", at("loop.md")));
                vec![]
            }
            Odd::TwoLoop => {
                e(symlink("loop2.md", at("loop1.md")));
                e(symlink("loop1.md", at("loop2.md")));
                vec![]
            }
            Odd::Hard => {
                e(fs::hard_link(at("a.md"), at("h.md")));
                vec![("h", b"first".to_vec())]
            }
            Odd::HardInDir => {
                e(fs::hard_link(at("d/b.md"), at("hd.md")));
                e(fs::hard_link(at("d/b.md"), at("d/hd.md")));
                vec![("hd", b"second".to_vec()), ("d/hd", b"second".to_vec())]
            }
            Odd::Twins => {
                write("t1.md", b"first");
                write("d/a.md", b"first");
                write("d/d/a.md", b"first");
                vec![("t1", b"first".to_vec()), ("d/a", b"first".to_vec()), ("d/d/a", b"first".to_vec())]
            }
            Odd::DirLink => {
                e(symlink("d", at("dl")));
                e(symlink("d", at("dl.md")));
                vec![]
            }
            Odd::DirLinkUp => {
                e(symlink("..", at("d/up")));
                e(symlink(".", at("here.md")));
                vec![]
            }
            Odd::Executable => {
                write("x.md", b"#!/bin/sh");
                mode("x.md", 0o755);
                vec![("x", b"#!/bin/sh".to_vec())]
            }
            Odd::ReadOnly => {
                write("ro.md", b"ro");
                mode("ro.md", 0o444);
                vec![("ro", b"ro".to_vec())]
            }
            Odd::NoMode => {
                // Nothing is refused to root, which runs the checks; others cannot read it.
                write("no.md", b"no");
                if fs::read(at("no.md")).is_ok() && unsafe { libc::geteuid() } == 0 {
                    mode("no.md", 0);
                }
                vec![("no", b"no".to_vec())]
            }
            Odd::SetUid => {
                write("su.md", b"su");
                mode("su.md", 0o6755);
                vec![("su", b"su".to_vec())]
            }
            Odd::StickyDir => {
                write("st/s.md", b"sticky");
                mode("st", 0o1777);
                vec![("st/s", b"sticky".to_vec())]
            }
            Odd::Ancient => {
                write("old.md", b"old");
                time("old.md", -86400 * 365);
                write("epoch.md", b"epoch");
                time("epoch.md", 0);
                vec![("old", b"old".to_vec()), ("epoch", b"epoch".to_vec())]
            }
            Odd::Future => {
                write("new.md", b"new");
                time("new.md", 4_000_000_000);
                vec![("new", b"new".to_vec())]
            }
            Odd::Empty => {
                write("e.md", b"");
                write("d/e.md", b"");
                vec![("e", vec![]), ("d/e", vec![])]
            }
            Odd::Sparse => {
                let f = fs::File::create(at("sp.md")).expect("harness: odd");
                e(f.set_len(100_000));
                vec![("sp", vec![0; 100_000])]
            }
            Odd::EmptyDirs => {
                for d in ["e1", "e2/e3", "e4.md", "d/e5"] {
                    e(fs::create_dir_all(at(d)));
                }
                vec![]
            }
            Odd::Socket => {
                // The name of a socket must be short: it is moved to its place.
                let short = PathBuf::from(format!("/dev/shm/mc{:x}", std::process::id() as u64 * 1000 + SOCKETS.fetch_add(1, std::sync::atomic::Ordering::Relaxed)));
                let from = if scratch::root().as_os_str().len() < 60 { out.join("s") } else { short };
                drop(std::os::unix::net::UnixListener::bind(&from).expect("harness: socket"));
                e(fs::rename(&from, at("sock.md")));
                vec![]
            }
        }
    }
}
static SOCKETS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

fn oddities(t: Tier, load: bool) -> Box<dyn Suite> {
    let size = t.pick(4, 5);
    suite(
        "oddities",
        format!("every set of up to {size} out of {} unusual kinds of files next to two ordinary ones: links to files without extension, outside, absolute, to links, to hidden files, round about, to devices, pipes, themselves; hard links, equal files, links to directories, modes, times, empty and sparse files, empty directories, a socket", ODD.len()),
        (0..ODD.len()).collect(),
        move |first, ch, st| {
            let mut set = vec![ODD[*first]];
            let mut from = first + 1;
            while set.len() < size && from < ODD.len() {
                let k = ch.pick(ODD.len() - from + 1);
                if k == 0 {
                    break;
                }
                from += k;
                set.push(ODD[from - 1]);
            }
            // Made twice: once to learn what is in it.
            let dry = scratch::mine().join("dry/base");
            let plain = |base: &Path| {
                scratch::make(base, &[Entry { path: os("a.md"), kind: Kind::File(b"first".to_vec()) }, Entry { path: os("d/b.md"), kind: Kind::File(b"second".to_vec()) }]);
                std::fs::create_dir_all(base.parent().expect("harness: base").join("other")).expect("harness: other");
            };
            plain(&dry);
            let mut docs: Vec<(&str, Vec<u8>)> = vec![("a", b"first".to_vec()), ("d/b", b"second".to_vec())];
            for o in &set {
                docs.extend(o.make(&dry));
            }
            let paths: Vec<OsString> = docs.iter().map(|d| format!("{}.md", d.0).into()).collect();
            let expected: BTreeMap<PathBuf, Doc> = docs.iter().zip(&paths).map(|(d, p)| (d.0.into(), Doc { path: p, content: &d.1 })).collect();
            let others = ["plain0", "loop", "loop1", "dev", "lpipe", "pipe", "sock", "e4", "dl", "here", "l3", "o", "dl/b", "d/up/a", "st", "d"].map(PathBuf::from);
            let others = others.into_iter().filter(|o| !["dl/b", "d/up/a"].iter().any(|x| o == Path::new(x))).collect();
            examine("md", 0, load, format!("{set:?}"), &expected, others, |base| {
                plain(base);
                for o in &set {
                    o.make(base);
                }
            }, ch, st)
        },
    )
}
