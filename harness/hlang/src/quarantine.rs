//! Languages that do not come to an end on some texts (see known_findings.json): random texts are kept away from them.
//! Each is shown with one exact text, in a process of its own, so that the check can go on; the languages' own test
//! files are still read by them.
use vcommon::*;

pub fn texts() -> Vec<(&'static str, String)> {
    vec![
        ("c", "f(x, ".repeat(34)),
        ("cpp", "a.".repeat(44)),
        ("dejavu", "if (".repeat(40)),
        ("fsharp", "=\u{6f22}".into()),
        ("handlebars", "{{''@".into()),
        ("html", format!("␀{}", "a".repeat(60))),
        ("kotlin", "fun\r(".into()),
        ("lua", "until".into()),
        ("msil", "\"\\\u{2028}".into()),
        ("nix", "{".into()),
        ("r", "function(".into()),
        ("rbq", "struct{".into()),
        ("swift", "{".into()),
        ("tailwind", "'\\😀{#".into()),
        ("tcl", "[\"\"#".into()),
        ("typescript", "l>{".into()),
        ("valkyrie", "if (".repeat(40)),
    ]
}
pub fn holds(lang: &str) -> bool {
    std::env::var("FREE").is_err() && texts().iter().any(|x| x.0 == lang)
}
/// Not even their own test files end.
pub fn not_even_its_files(lang: &str) -> bool {
    std::env::var("FREE").is_err() && matches!(lang, "nix" | "rbq" | "swift" | "tcl" | "typescript")
}
/// One of the texts, in a process of its own with 10 s of processor time and 1.5 GB.
pub fn shown(r: &mut Run) {
    let all = texts();
    r.family_exact("texts that never end", all.len() as u64, |c| {
        let (l, t) = &all[c.index as usize];
        c.input(format!("{l} {t:?}"));
        c.distinct(t);
        let me = std::env::current_exe().unwrap();
        let o = std::process::Command::new("sh").arg("-c").arg("ulimit -t 10; ulimit -v 1500000; exec \"$0\" one").arg(me).env("LANG1", l).env("TEXT", t).env("QUIET", "1").output().unwrap();
        c.seen("texts read in a process of their own", 1);
        ensure!(o.status.success(), format!("{l}: does not come to an end"), "{t:?}: {:?}", o.status);
        Ok(())
    });
}
