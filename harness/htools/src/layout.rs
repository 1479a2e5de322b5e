//! Layout documents and a reference printer for them.
use oak_pretty_print::{Document, FormatConfig, IndentStyle, LineEnding};
use vcommon::*;

#[derive(Clone, Debug)]
pub enum D {
    Nil,
    Text(String),
    Cat(Vec<D>),
    Group(Box<D>),
    Indent(Box<D>),
    Line,
    Soft,
    SoftSpace,
    Hard,
}

impl D {
    pub fn doc(&self) -> Document<'static> {
        match self {
            D::Nil => Document::Nil,
            D::Text(s) => Document::text(s.clone()),
            D::Cat(v) => Document::concat(v.iter().map(|d| d.doc()).collect()),
            D::Group(d) => Document::group(d.doc()),
            D::Indent(d) => Document::indent(d.doc()),
            D::Line => Document::Line,
            D::Soft => Document::SoftLine,
            D::SoftSpace => Document::SoftLineSpace,
            D::Hard => Document::HardLine,
        }
    }
    /// Width on one line, or none when it cannot be on one line.
    pub fn flat(&self) -> Option<usize> {
        Some(match self {
            D::Nil | D::Soft => 0,
            D::Text(s) => s.len(),
            D::Cat(v) => v.iter().map(|d| d.flat()).sum::<Option<usize>>()?,
            D::Group(d) | D::Indent(d) => d.flat()?,
            D::Line | D::SoftSpace => 1,
            D::Hard => return None,
        })
    }
    pub fn text(&self, o: &mut String) {
        match self {
            D::Text(s) => o.push_str(s),
            D::Cat(v) => v.iter().for_each(|d| d.text(o)),
            D::Group(d) | D::Indent(d) => d.text(o),
            _ => {}
        }
    }
}

pub struct Model<'a> {
    cfg: &'a FormatConfig,
    lines: Vec<String>,
    col: usize,
    broken: u64,
    flat: u64,
}

impl Model<'_> {
    pub fn put(&mut self, s: &str) {
        self.lines.last_mut().unwrap().push_str(s);
        self.col += s.len();
    }
    pub fn nl(&mut self, level: usize) {
        self.trim();
        self.lines.push(self.cfg.indent_text.repeat(level));
        self.col = level * self.cfg.indent_size;
    }
    pub fn trim(&mut self) {
        if self.cfg.trim_trailing_whitespace {
            let l = self.lines.last_mut().unwrap();
            let n = l.trim_end_matches([' ', '\t']).len();
            l.truncate(n);
        }
    }
    pub fn go(&mut self, d: &D, level: usize, broken: bool) {
        match d {
            D::Nil => {}
            D::Text(s) => self.put(s),
            D::Cat(v) => v.iter().for_each(|d| self.go(d, level, broken)),
            D::Indent(d) => self.go(d, level + 1, broken),
            D::Group(d) => {
                let b = d.flat().is_none_or(|w| self.col + w > self.cfg.max_width);
                if b {
                    self.broken += 1
                }
                else {
                    self.flat += 1
                }
                self.go(d, level, b)
            }
            D::Hard => self.nl(level),
            D::Line | D::SoftSpace | D::Soft if broken => self.nl(level),
            D::Line | D::SoftSpace => self.put(" "),
            D::Soft => {}
        }
    }
    pub fn print(cfg: &FormatConfig, d: &D) -> (String, u64, u64, usize) {
        let mut m = Model { cfg, lines: vec![String::new()], col: 0, broken: 0, flat: 0 };
        m.go(d, 0, false);
        m.trim();
        let eol = if cfg.line_ending == LineEnding::Windows { "\r\n" } else { "\n" };
        let mut o = m.lines.join(eol);
        if cfg.insert_final_newline && !o.is_empty() && !o.ends_with('\n') {
            o.push_str(eol);
        }
        (o, m.broken, m.flat, m.lines.len())
    }
}

pub fn words(g: &mut Rng) -> String {
    let n = *g.pick(&[0usize, 1, 1, 2, 3, 5, 8, 13, 30]);
    (0..n).map(|_| *g.pick(&['a', 'b', 'c', '(', ')', ',', 'x', ' ', '\t', 'z', 'q', 'w'])).collect()
}

pub fn gen_doc(g: &mut Rng, depth: usize, budget: &mut usize) -> D {
    if *budget == 0 {
        return D::Nil;
    }
    *budget -= 1;
    if depth == 0 || g.chance(2, 5) {
        return match g.below(12) {
            0 => D::Nil,
            1 | 2 => D::Line,
            3 | 4 => D::Soft,
            5 | 6 => D::SoftSpace,
            7 if g.chance(1, 3) => D::Hard,
            _ => D::Text(words(g)),
        };
    }
    match g.below(6) {
        0 | 1 => D::Group(Box::new(gen_doc(g, depth - 1, budget))),
        2 => D::Indent(Box::new(gen_doc(g, depth - 1, budget))),
        _ => {
            let n = g.below(7);
            D::Cat((0..n).map(|_| gen_doc(g, depth - 1, budget)).collect())
        }
    }
}

pub fn config(g: &mut Rng) -> Result<FormatConfig, Fail> {
    let style = match g.below(4) {
        0 => IndentStyle::Tabs,
        _ => IndentStyle::Spaces(*g.pick(&[0u8, 1, 2, 3, 4, 8])),
    };
    let width = *g.pick(&[0usize, 1, 5, 10, 11, 12, 20, 20, 30, 40, 80, 100, usize::MAX / 2]);
    let end = *g.pick(&[LineEnding::Unix, LineEnding::Windows, LineEnding::Auto]);
    let mut c = if g.chance(1, 2) { FormatConfig::new().with_indent_style(style).with_line_ending(end).with_max_width(width) } else { FormatConfig::new().with_max_width(width).with_line_ending(end).with_indent_style(style) };
    let (t, n) = match style {
        IndentStyle::Tabs => ("\t".to_string(), 4),
        IndentStyle::Spaces(k) => (" ".repeat(k as usize), k as usize),
    };
    ensure_eq!((c.indent_style, &*c.indent_text, c.indent_size, c.max_width, c.line_ending), (style, t.as_str(), n, width, end), "configuration builder", "");
    ensure_eq!(c.line_ending_string(), if end == LineEnding::Windows { "\r\n" } else { "\n" }, "line ending text", "{end:?}");
    c.insert_final_newline = g.chance(1, 2);
    c.trim_trailing_whitespace = g.chance(2, 3);
    Ok(c)
}
