//! C25: the interactive loop edits, shows and submits exactly what was typed. The real loop runs in a child process on
//! a pseudo-terminal; keys go in as bytes, and what it draws, submits and leaves behind is compared with a model.
use oak_highlight::{HighlightResult, HighlightSegment, HighlightStyle};
use oak_repl::{HandleResult, LineBuffer, OakRepl, ReplError, ReplHandler};
use std::{
    borrow::Cow,
    fs::File,
    io::{Read, Write},
    os::fd::{AsRawFd, FromRawFd, OwnedFd},
    process::{Command, Stdio},
    time::{Duration, Instant},
};
use vcommon::*;

const PROMPT: &str = "ab> ";
const MORE: &str = "ab. ";

/// `hungry`: nothing typed yet is no complete input either.
fn complete(code: &str, hungry: bool) -> bool {
    code.matches('(').count() <= code.matches(')').count() && !(hungry && code.is_empty())
}
fn indent(code: &str) -> usize {
    2 * code.matches('(').count().saturating_sub(code.matches(')').count())
}

struct H {
    log: File,
    color: bool,
    hungry: bool,
    before: (libc::tcflag_t, libc::tcflag_t, libc::tcflag_t),
}

impl ReplHandler for H {
    fn highlight<'a>(&self, code: &'a str) -> Option<HighlightResult<'a>> {
        if !self.color {
            return None;
        }
        let st = HighlightStyle { color: Some("#ff0000".into()), bold: true, ..Default::default() };
        Some(HighlightResult { segments: vec![HighlightSegment { text: Cow::Borrowed(code), style: st, span: oak_highlight::highlighter::HighlightSpan { start: 0, end: code.len() } }], source: Cow::Borrowed(code) })
    }
    fn prompt(&self, more: bool) -> &str {
        if more { MORE } else { PROMPT }
    }
    fn is_complete(&self, code: &str) -> bool {
        complete(code, self.hungry)
    }
    fn handle_line(&mut self, line: &str) -> Result<HandleResult, ReplError> {
        let raw = if modes(0) == self.before { "" } else { " with the terminal in raw mode" };
        let _ = self.log.write_all(format!("{}{raw}\n", js(line)).as_bytes());
        if line.contains('E') {
            return Err(ReplError::from("no"));
        }
        Ok(if line.contains('Q') { HandleResult::Exit } else { HandleResult::Continue })
    }
    fn get_indent(&self, code: &str) -> usize {
        indent(code)
    }
}

/// The child's side.
pub fn child(file: &str, color: bool, hungry: bool) -> ! {
    let log = File::options().append(true).create(true).open(file).unwrap();
    let r = OakRepl::new(H { log, color, hungry, before: modes(0) }).run();
    std::process::exit(if r.is_ok() { 0 } else { 3 })
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Key {
    Ch(char),
    Enter,
    Back,
    Left,
    Right,
    Up,
    Home,
    Tab,
    CtrlC,
    CtrlD,
}

impl Key {
    fn bytes(self) -> Vec<u8> {
        match self {
            Key::Ch(c) => c.to_string().into_bytes(),
            Key::Enter => b"\r".to_vec(),
            Key::Back => vec![0x7f],
            Key::Left => b"\x1b[D".to_vec(),
            Key::Right => b"\x1b[C".to_vec(),
            Key::Up => b"\x1b[A".to_vec(),
            Key::Home => b"\x1b[H".to_vec(),
            Key::Tab => b"\t".to_vec(),
            Key::CtrlC => vec![3],
            Key::CtrlD => vec![4],
        }
    }
}

#[derive(Clone, Debug)]
struct Model {
    lines: Vec<Vec<char>>,
    at: usize,
    done: bool,
    sent: Vec<String>,
    hungry: bool,
    /// Several lines became one again by erasing.
    joined: bool,
    enters: usize,
}

impl Model {
    fn new(hungry: bool) -> Self {
        Model { lines: vec![vec![]], at: 0, done: false, sent: vec![], hungry, joined: false, enters: 0 }
    }
    fn text(&self) -> String {
        self.lines.iter().map(|l| l.iter().collect::<String>()).collect::<Vec<_>>().join("\n")
    }
    /// True when the line was handed over (the terminal leaves raw mode in between).
    fn key(&mut self, k: Key) -> bool {
        let last = self.lines.len() - 1;
        match k {
            Key::Ch(c) => {
                self.lines[last].insert(self.at, c);
                self.at += 1;
            }
            Key::Back => {
                if self.at > 0 {
                    self.at -= 1;
                    self.lines[last].remove(self.at);
                }
                else if last > 0 {
                    let l = self.lines.pop().unwrap();
                    self.at = self.lines[last - 1].len();
                    self.lines[last - 1].extend(l);
                    self.joined = true;
                }
            }
            Key::Left => self.at = self.at.saturating_sub(1),
            Key::Right => self.at = (self.at + 1).min(self.lines[last].len()),
            Key::CtrlC => *self = Model { sent: std::mem::take(&mut self.sent), enters: self.enters, ..Model::new(self.hungry) },
            Key::CtrlD => self.done = self.lines.len() == 1 && self.lines[0].is_empty(),
            Key::Enter => {
                let t = self.text();
                self.enters += 1;
                self.joined = false;
                if complete(&t, self.hungry) {
                    self.done = t.contains('Q') && !t.contains('E');
                    self.sent.push(t);
                    self.lines = vec![vec![]];
                    self.at = 0;
                    return true;
                }
                self.lines.push(vec![' '; indent(&t)]);
                self.at = indent(&t);
            }
            Key::Up | Key::Home | Key::Tab => {}
        }
        false
    }
}

struct Pty {
    master: File,
    slave: OwnedFd,
}

fn open() -> Option<Pty> {
    let (mut m, mut s) = (0, 0);
    // SAFETY: plain call filling two descriptors
    let r = unsafe { libc::openpty(&mut m, &mut s, std::ptr::null_mut(), std::ptr::null(), std::ptr::null()) };
    if r != 0 {
        return None;
    }
    // SAFETY: both were just opened and are owned here
    unsafe {
        libc::fcntl(m, libc::F_SETFD, libc::FD_CLOEXEC);
        libc::fcntl(s, libc::F_SETFD, libc::FD_CLOEXEC);
        libc::fcntl(m, libc::F_SETFL, libc::fcntl(m, libc::F_GETFL) | libc::O_NONBLOCK);
        Some(Pty { master: File::from_raw_fd(m), slave: OwnedFd::from_raw_fd(s) })
    }
}

fn modes(fd: i32) -> (libc::tcflag_t, libc::tcflag_t, libc::tcflag_t) {
    // SAFETY: termios is plain data filled by the call
    unsafe {
        let mut t: libc::termios = std::mem::zeroed();
        libc::tcgetattr(fd, &mut t);
        (t.c_iflag, t.c_oflag, t.c_lflag)
    }
}

struct Session {
    pty: Pty,
    child: std::process::Child,
    out: Vec<u8>,
}

impl Session {
    fn pump(&mut self) {
        let mut b = [0u8; 4096];
        while let Ok(n) = self.pty.master.read(&mut b) {
            if n == 0 {
                break;
            }
            self.out.extend_from_slice(&b[..n]);
        }
    }
    fn draws(&self) -> usize {
        self.out.windows(4).filter(|w| w == b"\x1b[2K").count()
    }
    /// The text after the last prompt drawn, the cursor column, and whether the prompt was that of a further line and
    /// anything was coloured, once the last redraw is complete.
    fn last(&self) -> Option<(String, usize, bool, bool)> {
        let p = self.out.windows(4).rposition(|w| w == b"\x1b[2K")?;
        let s = String::from_utf8_lossy(&self.out[p + 4..]).to_string();
        let s = s.strip_prefix(PROMPT).or_else(|| s.strip_prefix(MORE))?;
        let more = self.out[p + 4..].starts_with(MORE.as_bytes());
        let mut coloured = false;
        let mut text = String::new();
        let mut rest = s;
        while let Some(i) = rest.find("\x1b[") {
            text.push_str(&rest[..i]);
            let r = &rest[i + 2..];
            let e = r.find(|c: char| c.is_ascii_alphabetic())?;
            if r[e..].starts_with('G') {
                return Some((text, r[..e].parse().ok()?, more, coloured));
            }
            coloured |= r[e..].starts_with('m');
            rest = &r[e + 1..];
        }
        None
    }
    /// Waits until `n` redraws have been seen in full, or the child has ended.
    fn settle(&mut self, n: usize) -> Result<bool, Fail> {
        let t = Instant::now();
        loop {
            self.pump();
            if self.draws() >= n && self.last().is_some() {
                return Ok(true);
            }
            if let Ok(Some(_)) = self.child.try_wait() {
                self.pump();
                return Ok(false);
            }
            if t.elapsed() > Duration::from_secs(100) {
                return fail("session stopped responding", format!("{} redraws of {n}: {:?}", self.draws(), clip(&String::from_utf8_lossy(&self.out), 400)));
            }
            let mut p = libc::pollfd { fd: self.pty.master.as_raw_fd(), events: libc::POLLIN, revents: 0 };
            // SAFETY: one valid pollfd
            unsafe { libc::poll(&mut p, 1, 20) };
        }
    }
}

impl Drop for Session {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn keys(g: &mut Rng, ascii: bool) -> Vec<Key> {
    let n = g.range(1, 16);
    (0..n)
        .map(|_| match g.below(24) {
            0 | 1 => Key::Enter,
            2..=4 => Key::Back,
            5..=7 => Key::Left,
            8 | 9 => Key::Right,
            10 => Key::Up,
            11 => *g.pick(&[Key::Home, Key::Tab]),
            12 if g.chance(1, 2) => Key::CtrlC,
            12 if g.chance(1, 4) => Key::CtrlD,
            13 | 14 => Key::Ch('('),
            15 | 16 => Key::Ch(')'),
            17 if g.chance(1, 3) => Key::Ch('E'),
            18 if g.chance(1, 8) => Key::Ch('Q'),
            _ if ascii => Key::Ch(*g.pick(&['a', 'b', 'c', 'd', ' ', '1', '"', 'z'])),
            _ => Key::Ch(*g.pick(&['a', 'é', 'ß', '漢', '😀', 'я', ' ', 'c', 'd'])),
        })
        .collect()
}

fn session(c: &mut Case, g: &mut Rng) -> Check {
    let Some(pty) = open()
    else {
        c.seen("no pseudo-terminal", 1);
        return Ok(());
    };
    let dir = std::env::var("VERIF_SCRATCH").unwrap_or_else(|_| "/tmp".into());
    let file = format!("{dir}/repl-{}-{:x}.log", std::process::id(), g.next());
    let color = g.chance(1, 3);
    let ascii = g.chance(1, 3);
    let hungry = g.chance(1, 4);
    let before = modes(pty.slave.as_raw_fd());
    let child = Command::new(std::env::current_exe().unwrap())
        .args(["repl-child", &file, if color { "1" } else { "0" }, if hungry { "1" } else { "0" }])
        .stdin(Stdio::from(pty.slave.try_clone().unwrap()))
        .stdout(Stdio::from(pty.slave.try_clone().unwrap()))
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let mut s = Session { pty, child, out: vec![] };
    let mut m = Model::new(hungry);
    let mut draws = 1;
    let mut log = String::new();
    ensure!(s.settle(draws)?, "session ended at its start", "{:?}", s.out);
    let steps = g.range(3, 25);
    let undo = |file: &str| {
        let _ = std::fs::remove_file(file);
    };
    'all: for step in 0..=steps {
        let mut ks = if step == steps {
            vec![Key::CtrlC, Key::CtrlD]
        }
        else if hungry && g.chance(1, 6) {
            // an empty first line is no empty input
            vec![Key::CtrlC, Key::Enter, *g.pick(&[Key::CtrlD, Key::Ch('d'), Key::Back]), Key::CtrlD, Key::Ch('a')]
        }
        else {
            keys(g, ascii)
        };
        // a line handed over ends the burst: keys typed while the terminal is cooked are the terminal's business
        let mut m2 = m.clone();
        if let Some(p) = ks.iter().position(|k| m2.key(*k) || m2.done) {
            ks.truncate(p + 1);
        }
        log.push_str(&format!("{ks:?} "));
        c.input(format!("color {color} hungry {hungry} {log}"));
        let bytes: Vec<u8> = ks.iter().flat_map(|k| k.bytes()).collect();
        let mut w = 0;
        while w < bytes.len() {
            match s.pty.master.write(&bytes[w..]) {
                Ok(n) => w += n,
                Err(_) => s.pump(),
            }
        }
        for k in &ks {
            let sent = m.key(*k);
            c.seen(if sent { "lines handed over" } else { "keys" }, 1);
            if m.done {
                break;
            }
            draws += 1;
        }
        if m.done {
            let t = Instant::now();
            while s.child.try_wait().ok().flatten().is_none() {
                s.pump();
                if t.elapsed() > Duration::from_secs(100) {
                    undo(&file);
                    return fail("session did not end", log);
                }
                std::thread::sleep(Duration::from_millis(1));
            }
            break 'all;
        }
        let alive = s.settle(draws)?;
        if !alive {
            undo(&file);
            return fail("session ended unexpectedly", format!("status {:?} after {log}", s.child.wait()));
        }
        ensure_eq!(s.draws(), draws, "redraws", "{log}");
        let (text, col, more, coloured) = s.last().unwrap();
        let line: String = m.lines.last().unwrap().iter().collect();
        ensure_eq!(text, line, "line shown", "{log}");
        ensure_eq!(col, PROMPT.chars().count() + m.at + 1, "cursor column", "{log}");
        ensure!(more == (m.lines.len() > 1) || (m.joined && m.lines.len() == 1), "prompt", "of a further line {more} after {log}");
        ensure!(coloured == color || line.is_empty(), "colour of the line", "{coloured} after {log}");
        let rows = s.out.iter().filter(|b| **b == b'\n').count();
        ensure!(rows >= m.enters, "an entered line did not stay on its row", "{rows} rows begun, {} lines entered: {log}", m.enters);
        let got = std::fs::read_to_string(&file).unwrap_or_default();
        let want: String = m.sent.iter().map(|t| format!("{}\n", js(t))).collect();
        ensure_eq!(got, want, "lines handed over", "{log}");
        c.seen("screens compared", 1);
    }
    let status = s.child.wait().unwrap();
    let got = std::fs::read_to_string(&file).unwrap_or_default();
    undo(&file);
    let want: String = m.sent.iter().map(|t| format!("{}\n", js(t))).collect();
    ensure_eq!(got, want, "lines handed over", "{log}");
    ensure!(status.code() == Some(0), "session ended with an error", "{status:?} after {log}");
    let after = modes(s.pty.slave.as_raw_fd());
    ensure_eq!(after, before, "terminal mode left behind", "{log}");
    c.seen("sessions ended", 1);
    c.distinct(&log);
    Ok(())
}

pub fn editing(run: &mut Run) {
    run.family("buffer", 4000, 12000, |c| {
        let g = &mut c.rng.clone();
        let mut b = LineBuffer::new();
        let mut m = String::new();
        let mut log = String::new();
        for _ in 0..g.range(1, 60) {
            match g.below(10) {
                0 if g.chance(1, 4) => {
                    b.clear();
                    m.clear();
                    log.push_str("clear ");
                }
                1..=3 => {
                    let had = m.pop().is_some();
                    log.push_str("back ");
                    c.input(log.clone());
                    ensure_eq!(b.backspace(), had, "backspace result", "{log}");
                }
                _ => {
                    let ch = *g.pick(&['a', 'é', '漢', '😀', ' ', '\u{301}', 'z']);
                    log.push_str(&format!("{ch:?} "));
                    c.input(log.clone());
                    b.insert(ch);
                    m.push(ch);
                }
            }
            ensure_eq!((b.full_text(), b.is_empty()), (m.clone(), m.is_empty()), "buffer text", "{log}");
        }
        c.seen("buffer operations", 1);
        c.distinct(&log);
        Ok(())
    });
    run.family("sessions", 400, 1200, |c| {
        let g = &mut c.rng.clone();
        session(c, g)
    });
}
