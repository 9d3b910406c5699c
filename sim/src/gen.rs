//! Document generator. Everything is drawn from the run's PRNG; `Knobs` are
//! drawn per run (swarm style) so that runs differ in kind, not only in detail.
use crate::model::*;
use crate::rng::Rng;
use crate::text::*;

#[derive(Clone, Debug)]
pub struct Knobs {
    pub depth: usize,
    pub width: usize,
    pub comments: u32,
    pub aliases: u32,
    pub flow: u32,
    pub blocks: u32,
    pub quoted: u32,
    pub weird: u32,
    pub long: u32,
    pub records: u32,
    /// collections rather than leaves
    pub deep: bool,
    /// keys that appear more than once in a map
    pub repeats: bool,
}
/// few documents are really deep or wide
pub fn scale(r: &mut Rng, k: &mut Knobs) {
    match r.below(160) {
        0 => {
            k.deep = true;
            k.depth = r.range(9, 45);
            k.width = r.range(1, 2);
        }
        1 => {
            k.depth = r.range(1, 2);
            k.width = r.range(15, 300);
        }
        2..=5 => k.repeats = true,
        _ => {}
    }
}
pub fn knobs(r: &mut Rng) -> Knobs {
    let lo = |r: &mut Rng, a: &[u32]| *r.pick(a);
    Knobs {
        depth: if r.pct(97) { r.range(1, 5) } else { r.range(6, 8) },
        width: if r.pct(96) { r.range(1, 5) } else { r.range(6, 14) },
        comments: lo(r, &[0, 0, 15, 40]),
        aliases: lo(r, &[0, 0, 15, 40]),
        flow: lo(r, &[0, 15, 40]),
        blocks: lo(r, &[0, 10, 35]),
        quoted: lo(r, &[0, 15, 50]),
        weird: lo(r, &[0, 20, 60]),
        long: lo(r, &[0, 0, 8]),
        records: 0,
        deep: false,
        repeats: false,
    }
}
pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub k: Knobs,
    pub n: usize,
    /// nodes that may still be collections
    pub left: usize,
    /// anchors already defined in document order
    pub names: Vec<String>,
    pub keys: Vec<&'static str>,
}
const KEYS: &[&str] = &[
    "a", "b", "c", "name", "type", "id", "value", "items", "other", "k1", "k2", "x-y", "z_1", "with space",
    "_u", "1", "42", "true", "null", "Key", "ключ", "été", "日本", "a1-b2 c3", "parts", "gaps", "n",
];
const WORDS: &[&str] = &[
    "alpha", "beta", "gamma", "delta", "to", "of", "the", "x", "yaml", "subset", "naïve", "日本語", "fünf",
];
const WEIRD: &[&str] = &[
    "1", "-3", "0", "1.5", "-0.25", "1e3", "1E-2", "0x1F", "007", "true", "false", "True", "null", "Null",
    "~", "yes", "no", "on", "2020-01-02", "12:30:45", "http://x.y/z?a=b&c", "/usr/bin", "C:\\dir", "a:b",
    "a-b", "-", "--", "-x", "- ", "--flag", "a*b", "!tag", "%x", "@at", "`tick`", "?q", "=", "<<", "a, b", "it's", "say \"hi\"",
    "a [b] c", "x {y}", "a > b", "p | q", "50%", "$5", "ünï", "😀", "a\tb", "a  b", "---", "...", ".5", "+1", "NaN", "inf",
    "False", "TRUE", "FALSE", "Yes", "YES", "On", "ON", "No", "NO", "off", "Off", "OFF", "NULL",
    "9223372036854775808", "-9223372036854775809", "18446744073709551615", "1_000", "0o17", "1e300", "-inf", "99999999999999999999", "3.0", "infinity", "-0", "1e-400", "a\u{a0}b", "\u{feff}x",
];
const COMMENTS: &[&str] = &[
    " note", "note", "", " # hash", " a: b", " - item", "  two", " [x] {y}", " \"q\" 'r'", " |", " ---", " ünï 😀",
    "!shebang", "\ttab", " trailing ", "#",
];
/// any characters: every printable one of ASCII, and some others
pub fn soup(r: &mut Rng, max: usize) -> String {
    const MORE: &[char] = &[
        '\t', ' ', ' ', 'a', 'b', '1', 'é', '日', '😀', '\u{a0}', '\u{85}', '\u{2003}', '\u{2028}', '\u{feff}', '\u{7f}', '\u{1}', ',', ':', '#',
        '-', '"', '\'', '\\', '[', ']', '{', '}', '&', '*', '|', '>', '0', 'e', '.',
    ];
    (0..r.range(1, max))
        .map(|_| if r.pct(60) { (b' ' + r.below(95) as u8) as char } else { *r.pick(MORE) })
        .collect()
}
impl<'a> Gen<'a> {
    pub fn new(r: &'a mut Rng, k: Knobs) -> Self {
        let nk = r.range(4, KEYS.len());
        let mut keys = Vec::new();
        for _ in 0..nk {
            keys.push(*r.pick(KEYS));
        }
        keys.push("a");
        keys.push("b");
        Gen { r, k, n: 0, left: 250, names: vec![], keys }
    }
    pub fn key(&mut self) -> String {
        if self.r.pct(self.k.weird / 10) {
            let long = self.r.pct(10);
            let k: String = soup(self.r, if long { 70 } else { 6 });
            let k: String = k.chars().filter(|c| valid_key(&format!("x{c}x"))).collect();
            if valid_key(&k) {
                return k;
            }
        }
        if self.r.pct(70) {
            self.r.pick(&self.keys).to_string()
        } else {
            self.n += 1;
            format!("f{}", self.n)
        }
    }
    pub fn comment(&mut self) -> String {
        if self.r.pct(50) {
            self.n += 1;
            format!(" c{}", self.n)
        } else {
            self.r.pick(COMMENTS).to_string()
        }
    }
    fn words(&mut self, lo: usize, hi: usize) -> String {
        let n = self.r.range(lo, hi);
        let mut s = String::new();
        for i in 0..n {
            if i > 0 {
                s.push(' ');
            }
            s.push_str(self.r.pick(WORDS));
        }
        s
    }
    /// a text about as long as what prettifying puts on one line, or longer
    pub fn prose(&mut self) -> String {
        let len = if self.r.pct(40) { self.r.range(84, 97) } else { self.r.range(91, 400) };
        let odd = self.r.pct(30);
        let big = self.r.pct(20);
        let mut s = String::new();
        while s.len() < len {
            if !s.is_empty() {
                s.push_str(match self.r.below(12) {
                    0 if odd => "  ",
                    1 if odd => "   ",
                    2 if odd => "\t",
                    3 if odd => "\u{a0}",
                    4 if odd => " # ",
                    5 if odd => ", ",
                    6 if odd => ": ",
                    7 if odd => " - ",
                    _ => " ",
                });
            }
            match self.r.below(10) {
                0 if big => s.push_str(&"long-".repeat(self.r.range(2, 40))),
                1 if odd => s.push_str(self.r.pick(WEIRD)),
                2 => {
                    self.n += 1;
                    s.push_str(&format!("w{}", self.n));
                }
                _ => s.push_str(self.r.pick(WORDS)),
            }
        }
        if odd {
            match self.r.below(10) {
                0 => s.push(' '),
                1 => s.insert(0, ' '),
                2 => s.push_str("  "),
                3 => s.push('\u{a0}'),
                4 => s.push(':'),
                _ => {}
            }
        }
        s
    }
    /// a long text in quotes, without escapes where possible
    fn quoted_prose(&mut self, double: bool) -> Vec<QP> {
        let s: String = self.prose().chars().filter(|c| if double { *c != '"' && *c != '\\' } else { *c != '\'' }).collect();
        if self.r.pct(60) {
            return vec![QP::Text(s)];
        }
        let mut v = Vec::new();
        let kind = self.r.below(3);
        for (i, w) in s.split_inclusive(' ').enumerate() {
            if i > 0 && self.r.pct(12) {
                match kind {
                    0 => v.push(QP::Nl),
                    1 if !double => v.push(QP::Esc('\'')),
                    1 => v.push(QP::Esc('"')),
                    _ if self.r.pct(30) => v.push(QP::Blank(1)),
                    _ => v.push(QP::Nl),
                }
            }
            match v.last_mut() {
                Some(QP::Text(t)) => t.push_str(w),
                _ => v.push(QP::Text(w.to_string())),
            }
        }
        v
    }
    pub fn plain(&mut self, flow: bool) -> Scalar {
        for _ in 0..8 {
            let s = if self.r.pct(self.k.weird) {
                let kind = self.r.below(100);
                if kind < 35 {
                    soup(self.r, 8)
                } else if kind < 55 {
                    // what configuration is full of
                    self.r.pick(&["~", "~", "null", "true", "false", "0", "1", "-1", "42", "1.5"]).to_string()
                } else {
                    self.r.pick(WEIRD).to_string()
                }
            } else if self.r.pct(self.k.long) {
                if self.r.pct(50) {
                    self.prose()
                } else {
                    self.words(10, 40)
                }
            } else if self.r.pct(50) {
                self.n += 1;
                format!("v{}", self.n)
            } else {
                self.words(1, 3)
            };
            if valid_plain(&s, flow) {
                return Scalar::Plain(s);
            }
        }
        self.n += 1;
        Scalar::Plain(format!("v{}", self.n))
    }
    fn parts(&mut self, double: bool) -> Vec<QP> {
        if self.r.pct(self.k.long) {
            return self.quoted_prose(double);
        }
        let mut v: Vec<QP> = Vec::new();
        let long = self.r.pct(self.k.long);
        let n = if long { self.r.range(4, 30) } else { self.r.range(0, 4) };
        let multi = self.r.pct(25);
        for _ in 0..n {
            let after_break = matches!(v.last(), Some(QP::Nl) | Some(QP::Blank(_)));
            let after_text = matches!(v.last(), Some(QP::Text(_)));
            let p = match self.r.below(10) {
                0..=5 if !after_text => {
                    let t = match self.r.below(8) {
                        0 => self.r.pick(WEIRD).to_string(),
                        1 if self.r.pct(60) => soup(self.r, 6),
                        1 => self.r.pick(COMMENTS).to_string(),
                        2 => " ".repeat(self.r.range(1, 3)),
                        3 => format!(" {}", self.words(1, 3)),
                        4 => format!("{} ", self.words(1, 3)),
                        5 => "key: value".into(),
                        _ => self.words(1, 4),
                    };
                    let t: String = t
                        .chars()
                        .filter(|c| {
                            if double {
                                *c != '"' && *c != '\\'
                            } else {
                                *c != '\''
                            }
                        })
                        .collect();
                    if t.is_empty() {
                        continue;
                    }
                    QP::Text(t)
                }
                6 | 7 => QP::Esc(if double {
                    *self.r.pick(if multi {
                        &['n', '\\', 'r', 't', '"', 'n', '\n']
                    } else {
                        &['n', '\\', 'r', 't', '"', 'n', 'n']
                    })
                } else {
                    '\''
                }),
                8 if multi && !after_break => QP::Blank(if self.r.pct(80) { self.r.range(1, 2) } else if self.r.pct(85) { self.r.range(3, 9) } else { self.r.range(10, 40) }),
                9 if multi && !after_break => QP::Nl,
                _ => continue,
            };
            v.push(p);
        }
        v
    }
    pub fn block(&mut self) -> Scalar {
        let folded = self.r.pct(50);
        let chomp = *self.r.pick(&[Chomp::Clip, Chomp::Strip, Chomp::Keep]);
        let mut lines = Vec::new();
        let n = if self.r.pct(98) { self.r.range(1, 6) } else { self.r.range(7, 40) };
        let lead = self.r.pct(12);
        for i in 0..n {
            let l = match self.r.below(10) {
                0 if i > 0 || lead => String::new(),
                1 if i > 0 => format!("  {}", self.words(1, 3)),
                2 => "# not a comment".into(),
                3 => "key: value".into(),
                4 => "- item".into(),
                5 => self.r.pick(WEIRD).to_string(),
                6 if self.r.pct(30) => format!(" {}", self.words(1, 2)),
                6 => soup(self.r, 8),
                7 if self.r.pct(self.k.long) => {
                    if self.r.pct(50) {
                        self.prose()
                    } else {
                        self.words(10, 40)
                    }
                }
                _ => self.words(1, 4),
            };
            let l = match self.r.below(24) {
                // blanks at the end of a line, or nothing else on it
                0 => format!("{l}{}", " ".repeat(self.r.range(1, 3))),
                1 if i > 0 => " ".repeat(self.r.range(1, 4)),
                2 => format!("{l}\t"),
                _ => l,
            };
            lines.push(l);
        }
        if self.r.pct(25) {
            let n = if self.r.pct(85) { self.r.range(1, 3) } else { self.r.range(4, 9) };
            for _ in 0..n {
                lines.push(String::new());
            }
        }
        if !valid_block_lines(&lines) {
            lines = vec![self.words(1, 3)];
        }
        Scalar::Block { folded, chomp, lines }
    }
    pub fn scalar(&mut self, flow: bool) -> Scalar {
        if !flow && self.r.pct(self.k.blocks) {
            return self.block();
        }
        if self.r.pct(self.k.quoted) {
            if self.r.pct(50) {
                Scalar::Double(self.parts(true))
            } else {
                Scalar::Single(self.parts(false))
            }
        } else {
            self.plain(flow)
        }
    }
    fn alias(&mut self, v: &MNode, flow: bool) -> Option<String> {
        if flow || matches!(v, MNode::Ref(_)) || !self.r.pct(self.k.aliases) {
            return None;
        }
        let s = if !self.names.is_empty() && self.r.pct(15) {
            self.r.pick(&self.names).clone()
        } else {
            self.n += 1;
            format!("{}{}", self.r.pick(&["x", "anchor_", "A", "1", "_", "é", "日本_"]), self.n)
        };
        self.names.push(s.clone());
        Some(s)
    }
    pub fn node(&mut self, depth: usize, flow: bool) -> MNode {
        if !self.names.is_empty() && self.r.pct(self.k.aliases / 2) {
            return MNode::Ref(self.r.pick(&self.names).clone());
        }
        self.left = self.left.saturating_sub(1);
        let coll = self.left > 0 && depth > 0 && self.r.pct(if self.k.deep { 93 } else if flow { 30 } else { 55 });
        if !coll {
            return MNode::Sc(self.scalar(flow));
        }
        let f = flow || self.r.pct(self.k.flow);
        if depth > 1 && !flow && self.r.pct(self.k.records) {
            return self.records(depth - 1);
        }
        if self.r.pct(55) {
            self.map(depth - 1, f)
        } else {
            self.seq(depth - 1, f)
        }
    }
    pub fn map(&mut self, depth: usize, flow: bool) -> MNode {
        let lo = if flow { 0 } else { 1 };
        let n = self.r.range(lo, self.k.width.max(lo));
        let mut ents = Vec::new();
        let mut used: Vec<String> = Vec::new();
        for _ in 0..n {
            let mut key = self.key();
            if used.contains(&key) && !(self.k.repeats && self.r.pct(60)) {
                self.n += 1;
                key = format!("g{}", self.n);
            }
            used.push(key.clone());
            if !flow && self.r.pct(self.k.comments / 2) {
                for _ in 0..self.r.range(1, 2) {
                    ents.push(Ent::C { text: self.comment(), inline: false });
                }
            }
            let val = self.node(depth, flow);
            let leaf = is_leaf(&val);
            let alias = self.alias(&val, flow);
            ents.push(Ent::Kv { key, alias, val });
            if !flow && leaf && self.r.pct(self.k.comments / 2) {
                ents.push(Ent::C { text: self.comment(), inline: true });
            }
        }
        if !flow && self.r.pct(self.k.comments / 3) {
            ents.push(Ent::C { text: self.comment(), inline: false });
        }
        MNode::Map { flow, ents }
    }
    /// a list or map of similar maps, as paths with conditions expect them
    pub fn records(&mut self, depth: usize) -> MNode {
        let n = self.r.range(1, self.k.width.max(2));
        let list = self.r.pct(60);
        let mut ents = Vec::new();
        let mut items = Vec::new();
        for i in 0..n {
            let mut m = Vec::new();
            for key in ["name", "type", "id"] {
                if self.r.pct(25) {
                    continue;
                }
                let t = self.r.pick(&["one", "two", "3", "x y"]).to_string();
                let val = match self.r.below(6) {
                    // almost, but not quite
                    0 if self.r.pct(40) => {
                        let near = match self.r.below(6) {
                            0 => format!("{t} "),
                            1 => format!(" {t}"),
                            2 => t.to_uppercase(),
                            3 => format!("{t}{t}"),
                            4 => t[..t.len() - 1].to_string(),
                            _ => t.replace(' ', "  "),
                        };
                        MNode::Sc(if near.is_empty() { Scalar::Double(vec![]) } else { Scalar::Double(vec![QP::Text(near)]) })
                    }
                    1 if self.r.pct(40) => {
                        let chomp = *self.r.pick(&[Chomp::Clip, Chomp::Strip, Chomp::Keep]);
                        MNode::Sc(Scalar::Block { folded: self.r.pct(50), chomp, lines: vec![t] })
                    }
                    2 if self.r.pct(30) => MNode::Sc(Scalar::Double(vec![QP::Text(t), QP::Esc('n')])),
                    0 => MNode::Sc(Scalar::Double(vec![QP::Text(t)])),
                    1 => MNode::Sc(Scalar::Single(vec![QP::Text(t)])),
                    2 if self.r.pct(30) => self.node(depth.min(1), false),
                    _ => MNode::Sc(Scalar::Plain(t)),
                };
                let leaf = is_leaf(&val);
                let alias = self.alias(&val, false);
                m.push(Ent::Kv { key: key.into(), alias, val });
                if leaf && self.r.pct(self.k.comments / 2) {
                    m.push(Ent::C { text: self.comment(), inline: true });
                }
            }
            if m.is_empty() || self.r.pct(50) {
                let val = self.node(depth.saturating_sub(1), false);
                let alias = self.alias(&val, false);
                m.push(Ent::Kv { key: "value".into(), alias, val });
            }
            if self.r.pct(self.k.comments / 2) {
                let text = self.comment();
                ents.push(Ent::C { text: text.clone(), inline: false });
                items.push(Item::C { text, inline: false });
            }
            let val = if self.r.pct(90) {
                MNode::Map { flow: false, ents: m }
            } else {
                self.node(depth.saturating_sub(1), false)
            };
            let leaf = is_leaf(&val);
            let alias = self.alias(&val, false);
            if list {
                items.push(Item::El { alias, val })
            } else {
                let key = if self.r.pct(90) {
                    self.n += 1;
                    format!("r{}", self.n)
                } else {
                    format!("r {i}")
                };
                ents.push(Ent::Kv { key, alias, val })
            }
            if leaf && self.r.pct(self.k.comments) {
                let text = self.comment();
                ents.push(Ent::C { text: text.clone(), inline: true });
                items.push(Item::C { text, inline: true });
            }
        }
        if list {
            MNode::Seq { flow: false, items }
        } else {
            MNode::Map { flow: false, ents }
        }
    }
    pub fn seq(&mut self, depth: usize, flow: bool) -> MNode {
        let lo = if flow { 0 } else { 1 };
        let n = self.r.range(lo, self.k.width.max(lo));
        let mut items = Vec::new();
        for _ in 0..n {
            if !flow && self.r.pct(self.k.comments / 2) {
                for _ in 0..self.r.range(1, 2) {
                    items.push(Item::C { text: self.comment(), inline: false });
                }
            }
            let val = self.node(depth, flow);
            let leaf = is_leaf(&val);
            let alias = self.alias(&val, flow);
            items.push(Item::El { alias, val });
            if !flow && leaf && self.r.pct(self.k.comments / 2) {
                items.push(Item::C { text: self.comment(), inline: true });
            }
        }
        if !flow && self.r.pct(self.k.comments / 3) {
            items.push(Item::C { text: self.comment(), inline: false });
        }
        MNode::Seq { flow, items }
    }
    pub fn doc(&mut self) -> MDoc {
        let few = |g: &mut Self| {
            let mut v = Vec::new();
            while v.len() < 3 && g.r.pct(g.k.comments) {
                v.push(g.comment());
            }
            v
        };
        let lead = few(self);
        let pre = few(self);
        let flow = self.r.pct(self.k.flow / 4);
        let d = self.k.depth;
        let root = if self.r.pct(80) { self.map(d, flow) } else { self.seq(d, flow) };
        let post = few(self);
        MDoc { lead, pre, root, post }
    }
    pub fn layout(&mut self) -> Vec<u8> {
        if self.r.pct(15) {
            return vec![];
        }
        let calm = self.r.pct(40);
        (0..400)
            .map(|_| if calm && self.r.pct(70) { 0 } else { self.r.below(240) as u8 })
            .collect()
    }
}
