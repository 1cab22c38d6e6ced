//! C16: directories with ignore files, as git and its like know them.
use crate::scratch::{self, os, Entry, Kind};
use crate::tree::{examine, Doc};
use engine::{suite, Ch, Stats, Suite, Tier, Verdict};
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::path::PathBuf;

/// The files there are, below the base directory.
const FILES: [&str; 10] = ["a.md", "b.md", "é.md", "A.md", "a.txt", "d/a.md", "d/c.md", "d/e/a.md", "x.md/a.md", "d/b.md"];

/// What an ignore file may say.
const RULES: [&str; 26] = [
    "", "a.md", "/a.md", "*.md", "d", "d/", "/d/", "d/a.md", "/d/a.md", "**/a.md", "d/*", "d/*/a.md", "a.?d", "?.txt", "x.md", "x.md/", "*.MD", "A.md", "é.md", "# a.md", "*.md\n!a.md", "a.md\n!a.md", "!a.md\na.md", "*\n!*/\n!c.md",
    "d/\n!d/c.md", "a.md \n\nb.md",
];

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Place {
    Above,
    Base,
    Below,
}
const PLACES: [Place; 3] = [Place::Above, Place::Base, Place::Below];

impl Place {
    fn dir(self) -> &'static str {
        match self {
            Place::Above => "..",
            Place::Base => ".",
            Place::Below => "d",
        }
    }
    /// The path as it is seen from there.
    fn sees(self, path: &str) -> Option<String> {
        match self {
            Place::Above => Some(format!("base/{path}")),
            Place::Base => Some(path.to_string()),
            Place::Below => path.strip_prefix("d/").map(str::to_string),
        }
    }
}

/// In the order they are asked in.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Name {
    Ignore,
    /// Counts in a repository of git only.
    GitIgnore,
    /// The file of that name git keeps for a repository.
    Exclude,
}
const NAMES: [Name; 3] = [Name::Ignore, Name::GitIgnore, Name::Exclude];

#[derive(Clone, Copy, Debug)]
struct Source {
    place: Place,
    kind: Name,
    rules: &'static str,
}

#[derive(Clone, Copy, Debug)]
struct Root {
    git: Option<Place>,
    spelling: usize,
    first: Source,
    pairs: bool,
}

/// Whether a pattern of `*`, `?` and `**/` matches a path.
fn glob(p: &[char], s: &[char]) -> bool {
    match p {
        [] => s.is_empty(),
        ['*', '*', '/', rest @ ..] => (0..=s.len()).any(|i| (i == 0 || s[i - 1] == '/') && glob(rest, &s[i..])),
        ['*', rest @ ..] => (0..=s.len()).take_while(|i| *i == 0 || s[i - 1] != '/').any(|i| glob(rest, &s[i..])),
        ['?', rest @ ..] => s.first().is_some_and(|c| *c != '/') && glob(rest, &s[1..]),
        [c, rest @ ..] => s.first() == Some(c) && glob(rest, &s[1..]),
    }
}

/// What a source says about a path: to leave it out, to keep it, or nothing.
fn says(s: &Source, path: &str, dir: bool) -> Option<bool> {
    let path = s.place.sees(path)?;
    let mut said = None;
    for line in s.rules.lines() {
        let line = line.trim_end();
        if line.is_empty() || line.starts_with('#') {
            continue;
        }
        let (keep, line) = line.strip_prefix('!').map_or((false, line), |l| (true, l));
        let (only_dirs, line) = line.strip_suffix('/').map_or((false, line), |l| (true, l));
        if only_dirs && !dir {
            continue;
        }
        let subject = if line.contains('/') { &path } else { path.rsplit('/').next().unwrap_or_default() };
        let (p, s): (Vec<char>, Vec<char>) = (line.trim_start_matches('/').chars().collect(), subject.chars().collect());
        if glob(&p, &s) {
            said = Some(!keep);
        }
    }
    said
}

/// Whether a file is left out: a rule says so of it, or of a directory it is in.
fn ignored(git: Option<Place>, sources: &[Source], path: &str) -> bool {
    let parts: Vec<&str> = path.split('/').collect();
    (1..=parts.len()).any(|n| {
        let (at, dir) = (parts[..n].join("/"), n < parts.len());
        let counts = |s: &&Source| {
            s.kind == Name::Ignore
                || match git {
                    None => false,
                    Some(Place::Above) => true,
                    Some(Place::Base) => s.place != Place::Above,
                    Some(Place::Below) => s.place == Place::Below,
                }
        };
        // Those of `.ignore` go first, then the nearest.
        let mut order: Vec<&Source> = sources.iter().filter(counts).collect();
        order.sort_by_key(|s| (s.kind, PLACES.iter().rev().position(|p| *p == s.place)));
        order.iter().find_map(|s| says(s, &at, dir)).unwrap_or(false)
    })
}

fn one(r: &Root, ch: &mut Ch, st: &mut Stats) -> Verdict {
    let mut sources = vec![r.first];
    if r.pairs {
        let rules = ["a.md", "!a.md", "*.md", "!*.md", "d/", "!d"];
        let place = *ch.of(&PLACES);
        let kind = *ch.of(&NAMES);
        if (place, kind) == (r.first.place, r.first.kind) || kind == Name::Exclude && r.git != Some(place) {
            return Ok(());
        }
        sources.push(Source { place, kind, rules: ch.of(&rules) });
    }
    let mut tree: Vec<Entry> = FILES.iter().map(|p| Entry { path: os(*p), kind: Kind::File(p.as_bytes().to_vec()) }).collect();
    let paths: Vec<OsString> = FILES.iter().map(|p| os(*p)).collect();
    let expected: BTreeMap<PathBuf, Doc> = FILES
        .iter()
        .zip(&paths)
        .filter(|(f, _)| f.ends_with(".md") && !ignored(r.git, &sources, f))
        .map(|(f, path)| (PathBuf::from(f.strip_suffix(".md").expect("harness: md")), Doc { path, content: f.as_bytes() }))
        .collect();
    for s in &sources {
        let name = match s.kind {
            Name::Ignore => ".ignore",
            Name::GitIgnore => ".gitignore",
            Name::Exclude => ".git/info/exclude",
        };
        tree.push(Entry { path: os(format!("{}/{name}", s.place.dir())), kind: Kind::File(s.rules.as_bytes().to_vec()) });
    }
    if let Some(p) = r.git {
        tree.push(Entry { path: os(format!("{}/.git", p.dir())), kind: Kind::Dir });
    }
    let shown = format!("{FILES:?}, a repository of git: {:?}, ignore files: {sources:?}", r.git);
    examine("md", r.spelling, false, shown, &expected, vec![], |base| scratch::make(base, &tree), ch, st)
}

pub fn c16(t: Tier) -> Box<dyn Suite> {
    let mut v = vec![];
    for git in [None, Some(Place::Above), Some(Place::Base), Some(Place::Below)] {
        for place in PLACES {
            for kind in NAMES {
                if kind == Name::Exclude && git != Some(place) {
                    continue;
                }
                for rules in RULES {
                    for spelling in [0, 5, 6, 8, 11] {
                        let first = Source { place, kind, rules };
                        v.push(Root { git, spelling, first, pairs: false });
                        if spelling == 0 || t.thorough() {
                            v.push(Root { git, spelling, first, pairs: true });
                        }
                    }
                }
            }
        }
    }
    suite(
        "ignore-files",
        format!("10 files and an ignore file (.ignore, .gitignore or git's own; above, in or below the base directory; 26 contents), alone and with each of 36 to 42 others, with a repository of git above, at, below the base directory or none; 5 spellings of the base directory{}", t.pick(" (pairs: 1)", "")),
        v,
        one,
    )
}
